#!/usr/bin/env python3
"""plant.py DEF.py ... : validates planted bugs in a scratch copy and stores the good ones under seeded/.
DEF.py defines PLANTS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)]"""
import functools, json, os, subprocess, sys, shutil, runpy
print = functools.partial(print, flush=True)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w"
BASE = "a319090"
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0}
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    only = [a for a in sys.argv[1:] if not a.endswith(".py")]
    fresh = True
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
        for p in runpy.run_path(f)["PLANTS"]:
            if only and p["id"] not in only:
                continue
            if fresh:
                shutil.rmtree(W, ignore_errors=True)
                sh(f"cp -a /repo {W}")
                fresh = False
            sh(f"cd {W} && git checkout -q . ")
            bad = None
            for file, old, new in p["edits"]:
                path = os.path.join(W, file)
                s = open(path).read()
                if s.count(old) != 1:
                    bad = f"{file}: edit matches {s.count(old)} times"
                    break
                open(path, "w").write(s.replace(old, new))
            if bad:
                print(p["id"], "BAD", bad)
                continue
            # removed lines must be original
            diff = sh(f"cd {W} && git diff -U0").stdout
            cur, orig = None, True
            removed = 0
            for line in diff.splitlines():
                if line.startswith("--- a/"):
                    cur = line[6:]
                elif line.startswith("@@"):
                    a = line.split()[1][1:].split(",")
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    if n:
                        removed += n
                        b = sh(f"cd {W} && git blame -s -L {st},{st+n-1} HEAD -- {cur}").stdout
                        if any(not (l.startswith("^") or l.startswith(BASE)) for l in b.splitlines()):
                            orig = False
            if not orig:
                print(p["id"], "WARN touches lines of own commits")
            d = os.path.join(HERE, "seeded", p["id"])
            tmp = "/tmp/plantdemo"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(tmp + "/demo.sh", "w").write(p.get("demo_sh") or DEMO_SH)
            open(tmp + "/demo.py", "w").write(p["demo"])
            os.chmod(tmp + "/demo.sh", 0o755)
            r1 = sh(f"bash {tmp}/demo.sh", cwd=W)
            r0 = sh(f"bash {tmp}/demo.sh", cwd="/repo")
            t = sh(f". /opt/vp/env.sh; cd {W}; PYTHONPATH={W} $PY -m pytest -q -x -W ignore -p no:cacheprovider -p no:importnb --timeout=300 "
                   f"--continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/plant.xml --maxfail=1000 veroku")
            sh(f"/usr/bin/python3 /opt/vp/results.py /tmp/plant.json junit:/tmp/plant.xml")
            try:
                res = json.load(open("/tmp/plant.json"))
                miss = stable - set(res["passed"])
            except Exception as e:
                miss = {str(e)}
            ok = r0.returncode == 0 and r1.returncode != 0 and not miss
            c = sh(f"{HERE}/check.py {p['prop']} --root {W} --no-evidence")
            caught = f"VIOLATION property={p['prop']}" in c.stdout
            print(p["id"], p["prop"], "VALID" if ok else f"INVALID demo clean={r0.returncode} bug={r1.returncode} tests-missing={list(miss)[:3]}",
                  "CAUGHT" if caught else f"missed (exit {c.returncode})", "" if ok else (r0.stderr[-300:] if r0.returncode else ""))
            if not caught:
                print("    ", c.stdout.strip()[-200:])
            if ok and orig:
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                for n in ("demo.sh", "demo.py"):
                    shutil.copy(f"{tmp}/{n}", d)
                open(d + "/patch.diff", "w").write(sh(f"cd {W} && git diff").stdout)
                json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if not fresh:
        sh(f"cd {W} && git checkout -q .")


main()
