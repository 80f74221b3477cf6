#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--root /repo] [-v] [--only GROUP]

Decides one property of /repo by static analysis (abstract interpretation of the source, see DESIGN.md).
exit 0: nothing violated; exit 1: VIOLATION line; exit 2: the analysis itself is broken (anchors vanished)."""
import warnings
import argparse, importlib, json, multiprocessing, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")
from vai import check as C
from vai.specs import ALL

LIMIT = {"quick": 240, "thorough": 700}


class Late(Exception):
    pass


def alarm(*_):
    raise Late()


def group(args):
    """one obligation group in its own process"""
    prop, idx, root, tier, gdir = args
    name, props, f = C.REG[idx]
    R = C.Report(prop)
    R.tier = tier
    t0 = time.time()
    out = {"name": name, "err": None, "funcs": [], "missing": None}
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT.get(tier, 240))
    it = None
    try:
        it = C.fresh_engine(root)
        f(it, R)
    except Late:
        R.und.setdefault(name, "time limit of the obligation group reached")
    except C.Anchor as e:
        out["missing"] = str(e)
    except (Exception, RecursionError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out["err"] = f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})"
        R.und.setdefault(name, "analysis gave up: " + out["err"])
    finally:
        signal.alarm(0)
    if it is not None:
        out["funcs"] = sorted(map(str, it.visited_funcs))
    out.update(viol=R.viol, und=R.und, proved=R.proved, interp=R.interp, skipped=R.skipped, paths=R.paths, obligs=R.obligs,
               wall=round(time.time() - t0, 2), sites=R.sites)
    return out


def known(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                k, _, why = line[len(f"known: property={prop} "):].partition(" :: ")
                out[k.strip()] = why.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in LIMIT else "quick"
    for s in ALL:
        importlib.import_module("vai.specs." + s)
    t0 = time.time()
    jobs = [(a.prop, i, a.root, tier, None) for i, (name, props, f) in enumerate(C.REG)
            if a.prop in props and (not a.only or a.only in name)]
    if not jobs:
        print(f"no obligations registered for {a.prop}")
        return 2
    if a.j > 1 and len(jobs) > 1:
        with multiprocessing.Pool(min(a.j, len(jobs)), maxtasksperchild=1) as pool:
            outs = pool.map(group, jobs, chunksize=1)
    else:
        outs = [group(j) for j in jobs]
    tot = lambda k: sum(o[k] for o in outs)
    viol, und, funcs = {}, {}, set()
    for o in outs:
        viol.update({k: d for k, d in o["viol"].items() if k not in viol})
        und.update(o["und"])
        funcs |= set(o["funcs"])
        if a.v:
            print(f"{o['name']}: {o['wall']}s {o['obligs']} obligations {o['paths']} paths {o['proved']}+{o['interp']} decided {len(o['und'])} undecided {len(o['viol'])} violations")
    missing = [o["missing"] for o in outs if o["missing"]]
    decided = tot("proved") + tot("interp")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    kn = known(a.prop)
    fresh = {k: d for k, d in viol.items() if k not in kn}
    print(f"{a.prop}: {len(outs)} obligation groups, {tot('obligs')} obligations, {tot('paths')} abstract paths, {tot('sites')} sites, "
          f"{tot('proved')} facts by normal form, {tot('interp')} by term interpretation, {len(und)} undecided, {len(viol)} violated")
    if a.v:
        for k, d in und.items():
            print("UND", k[:200], "--", str(d)[:300])
    for k in kn:
        if k in viol:
            print(f"KNOWN-FINDING: property={a.prop} {k}: {kn[k]}")
    rep = os.path.join(HERE, "evidence", f"{a.prop}.replay.txt")
    ev = os.path.join(HERE, "evidence", f"{a.prop}.json")
    if not a.no_evidence:
        os.makedirs(os.path.dirname(ev), exist_ok=True)
        json.dump({
            "property": a.prop, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Facts derived by abstract interpretation of the current source of /repo (no code of /repo is "
                               "executed) and compared with the specification terms of the property; see DESIGN.md.",
                "obligation_groups": [o["name"] for o in outs],
                "obligations": tot("obligs"), "abstract_paths": tot("paths"), "syntactic_sites": tot("sites"),
                "facts_by_normal_form": tot("proved"), "facts_by_term_interpretation": tot("interp"),
                "facts_vacuous": tot("skipped"),
                "undecided": {k[:300]: str(d)[:300] for k, d in und.items()},
                "functions_analysed": sorted(funcs), "functions_count": len(funcs),
                "violated": {k: str(d)[:600] for k, d in viol.items()},
                "missing_anchors": missing},
            "assumptions": ["numpy/scipy/numbers behave as modelled in vai/arrays.py and vai/calls.py",
                            "loops over variables are summarised from one generic iteration"],
            "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}, open(ev, "w"), indent=1)
    if fresh:
        if not a.no_evidence:
            with open(rep, "w") as fh:
                for k, d in fresh.items():
                    fh.write(f"{k}\n    {d}\n")
                fh.write(f"\nreproduce: cd {HERE} && ./check.py {a.prop} -v\n")
        for k, d in fresh.items():
            print(f"  {k} -- {str(d)[:400]}")
        print(f"VIOLATION property={a.prop} replay={rep}")
        return 1
    if missing or not decided:
        print("analysis broken:", missing or "nothing decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
