"""The factor interface: class tables read from the source; operators and aliases interpreted on subclasses with recording stubs."""
import ast
from ..absfac import *
from .messages import cls, new, pylist, explore
from .errors import W, NAMES, KINDS
from .. import ndsym as S
from . import graphs, messages

P = ("V29",)
MODS = ["veroku.factors.categorical", "veroku.factors.sparse_categorical", "veroku.factors.gaussian", "veroku.factors.experimental.gaussian_mixture",
        "veroku.factors.experimental.factorised_factor", "veroku.factors.experimental.nonlinear_gaussian"]
BASE = "veroku.factors._factor"


def classes(it):
    """concrete factor classes, and the interface"""
    base = cls(it, BASE, "Factor")
    out = []
    for mod in MODS:
        m = it.module(mod)
        if m is None:
            raise Anchor(f"module {mod} not found")
        for n, c in m.env.items():
            if isinstance(c, ClsV) and c is not base and base in c.mro() and c not in out and not n.startswith("_"):
                out.append(c)
    if len(out) < 7:
        raise Anchor("factor classes not found")
    return base, out


def fun(v):
    """the function behind a class attribute"""
    if isinstance(v, PropV):
        v = v.fget
    return v if isinstance(v, FuncV) else None


def is_abstract(f):
    return f is not None and (getattr(f, "abstract", False) or any(
        isinstance(d, ast.Attribute) and d.attr == "abstractmethod" or isinstance(d, ast.Name) and d.id == "abstractmethod" for d in getattr(f.node, "decorator_list", [])))


def completes(body):
    """may control reach the end of these statements?"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If):
            if not completes(s.body) and s.orelse and not completes(s.orelse):
                return False
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            if not completes(s.body):
                return False
        elif isinstance(s, ast.Try):
            if not completes(s.finalbody) and s.finalbody:
                return False
            if not (completes(s.body) and completes(s.orelse)) and all(not completes(h.body) for h in s.handlers):
                return False
        elif isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(
                isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
            return False
        elif isinstance(s, ast.Match):
            if any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases) and all(not completes(c.body) for c in s.cases):
                return False
        elif isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return False
    return True


def own_returns(node):
    out, todo = [], list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, ast.Return):
            out.append(n)
        todo += list(ast.iter_child_nodes(n))
    return out


VALUELESS = {"show", "__init__"}


def where(f):
    return f"{f.mod.name}:{getattr(f.node, 'lineno', '?')}"


@obligation("V29")
def interface_tables(it, R):
    base, cs = classes(it)
    ops = [n for n, v in base.attrs.items() if fun(v) is not None and (not n.startswith("_") or n in ("__mul__", "__truediv__", "__eq__", "__ne__"))]
    for c in cs:
        for n in ops:
            R.cur = f"{c.name}.{n}"
            R.obligs += 1
            v, owner = c.find(n)
            f, b = fun(v), fun(base.attrs[n])
            what = f"{c.name}.{n}"
            if isinstance(base.attrs[n], PropV) != isinstance(v, PropV):
                R.verdict(P, f"{what}: property or method", NE, f"{what} is a {'property' if isinstance(v, PropV) else 'method'}, the interface has a {'property' if isinstance(base.attrs[n], PropV) else 'method'}")
                continue
            if f is None:
                R.verdict(P, f"{what}: provided", UNK, f"{v!r}")
                continue
            R.verdict(P, f"{what}: provided", NE if is_abstract(f) else EQ, f"{what} is only declared, not implemented ({where(f)})")
            if f is b:
                continue
            check_signature(R, what, f, b)
            check_returns(R, what, n, f)
        for n, v in c.attrs.items():                  # operations shared by some classes only
            f = fun(v)
            if f is not None and not n.startswith("_") and n not in ops:
                R.obligs += 1
                R.cur = f"{c.name}.{n}"
                if n in ("kl_divergence", "potential", "log_potential", "get_cov", "get_mean", "get_log_weight", "get_prec", "get_h", "get_g", "sample", "weight", "get_weight", "argmax",
                         "reorder", "num_factors", "dense_distribution_array", "moment_match_to_single_gaussian", "get_component"):
                    check_returns(R, f"{c.name}.{n}", n, f, explicit=False)


def check_returns(R, what, n, f, explicit=True):
    if n in VALUELESS or not isinstance(f.node, ast.FunctionDef):
        return
    bad = [r for r in own_returns(f.node) if r.value is None or explicit and isinstance(r.value, ast.Constant) and r.value.value is None]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
        bad = []
    R.verdict(P, f"{what}: result on every path", NE if bad or completes(f.node.body) else EQ,
              f"a path through {what} ({where(f)}) ends without a result" + (f" at line {bad[0].lineno}" if bad else ""))


def params(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if f.kind in ("function", "method", "class", None) or pos[:1] == ["self"]:
        pos = pos[1:] if f.kind != "static" else pos
    d = list(f.defaults or [])
    return pos, dict(zip(pos[len(pos) - len(d):], d)) if d else {}, [x.arg for x, k in zip(a.kwonlyargs, a.kw_defaults) if k is None], a.vararg, a.kwarg, [x.arg for x in a.kwonlyargs]


def check_signature(R, what, f, b):
    pos, dflt, kwreq, var, kw, kwall = params(f)
    bpos, bd, *_ = params(b)
    probs = []
    for i, n in enumerate(bpos):
        if i < len(pos):
            if pos[i] != n:
                probs.append(f"parameter {i + 1} is {pos[i]} instead of {n}")
        elif not (var and kw):
            probs.append(f"parameter {n} is missing")
        if n in bd and i < len(pos):
            if pos[i] not in dflt:
                probs.append(f"parameter {n} has no default")
            elif keyof(dflt[pos[i]]) != keyof(bd[n]):
                probs.append(f"the default of {n} is {dflt[pos[i]]!r} instead of {bd[n]!r}")
    probs += [f"extra parameter {n} has no default" for n in pos[len(bpos):] if n not in dflt] + [f"keyword {n} is required" for n in kwreq]
    R.verdict(P, f"{what}: parameters", NE if probs else EQ, f"{what} ({where(f)}): {'; '.join(probs)}")


ALIASES = [("absorb", "multiply", 1), ("cancel", "divide", 1), ("observe", "reduce", 2), ("__mul__", "multiply", 1), ("__truediv__", "divide", 1), ("__eq__", "equals", 1),
           ("__ne__", "equals", 1)]


@obligation("V29")
def interface_aliases(it, R):
    base, cs = classes(it)
    for c in cs:
        for alias, target, n in ALIASES:
            what = f"{c.name}.{alias}"
            v, owner = c.find(alias)
            if alias == "cancel" and owner is not base and owner is not None:
                continue                      # its own operation (the zero rules), decided with the tables
            for ret in ((True, False) if target == "equals" else (None,)):
                def thunk(it):
                    sub = ClsV("Recording" + c.name, c.mod if hasattr(c, "mod") else it.module(BASE), None, [c])
                    calls = []
                    res = Inst(sub) if ret is None else ret

                    def stub(it, a, k):
                        calls.append((a[1:], dict(k)))
                        return res
                    for t in ("multiply", "divide", "reduce", "equals", "marginalize"):
                        sub.attrs[t] = method(stub if t == target else (lambda it, a, k, t=t: it.throw("AssertionError", f"reached {t}")), t)
                    x, y = Inst(sub), Inst(sub)
                    for o in (x, y):
                        o.fields = {"_var_names": pylist(["a"]), "_dim": 1}
                    args = [y] if n == 1 else [pylist(["a"]), pylist([1])]
                    return calls, res, args, meth(it, x, alias, *args)

                def ver(o):
                    calls, res, args, r = o.value
                    given = [list(p) + list(k.values()) for p, k in calls]
                    ok = len(calls) == 1 and len(given[0]) >= n and all(p is q for p, q in zip(given[0], args))
                    R.verdict(P, f"{what}: reaches {target}", EQ if ok else NE if not o.undecided else UNK, f"{what} calls {target} {len(calls)} times")
                    want = res if alias != "__ne__" else (not res)
                    R.verdict(P, f"{what}: result of {target}", EQ if r is want else NE if not isinstance(r, Top) else UNK, f"{what} gives {r!r} when {target} gives {res!r}")
                explore(it, R, what, thunk, ver, P)


@obligation("V29")
def interface_show(it, R):
    """every factor can be shown; accessors and scope size agree"""
    S.install(it)
    for a in KINDS:
        n = NAMES[a]
        explore(it, R, f"{n}.show", lambda it: meth(it, getattr(W(it), a)(), "show"), lambda o: R.verdict(P, f"{n}.show", EQ), P)

        def thunk(it):
            x = getattr(W(it), a)()
            return it.getattr(x, "dim"), names_of(it, it.getattr(x, "var_names"))

        def ver(o):
            d, ns = o.value
            R.verdict(P, f"{n}.dim", EQ if ns is not None and d == len(ns) else UNK if ns is None or isinstance(d, Top) else NE, f"dim is {d!r} for {ns}")
        explore(it, R, f"{n}.dim", thunk, ver, P)


@obligation("V29")
def interface_use(it, R):
    """operations the inference code uses on factors are in the interface of every class"""
    base, cs = classes(it)
    used = {}
    inner = it.getattr

    def getattr_(o, name, *a, **k):
        if isinstance(o, Inst) and "val" in o.fields and o.cls.name.startswith("Abstract"):
            used.setdefault(name, where_now(it))
        return inner(o, name, *a, **k)
    it.getattr = getattr_
    dummy = type(R)("-")
    dummy.tier = R.tier
    for f in (messages.cluster_make_message, messages.cluster_receive_message, messages.message_objects, graphs.graph_construction, graphs.single_cluster_evidence, graphs.graph_queries):
        try:
            f(it, dummy)
        except (Bail, Anchor):
            pass
    it.getattr = inner
    R.sites += len(used)
    for n, loc in sorted(used.items()):
        if n.startswith("__") or n in ("val", "fields"):
            continue
        for c in cs:
            R.cur = f"{n} used at {loc}"
            R.obligs += 1
            v, owner = c.find(n)
            inst = n in ("_var_names", "_dim")
            if n == "kl_divergence" and c.name == "NonLinearGaussianMixture":
                continue                       # messages are marginals; those of this class are Gaussian mixtures
            R.verdict(P, f"{c.name}.{n}: used by the inference code", EQ if inst or owner is not None and not is_abstract(fun(v)) else NE,
                      f"{loc} uses {n} on factors, which {c.name} does not provide")


def where_now(it):
    try:
        return it.loc()
    except Exception:
        return "inference code"
