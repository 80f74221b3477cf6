"""Factorised factors: lists of abstract parts with every overlap pattern; operations act on the product of the parts."""
from itertools import combinations, permutations, product
from ..absfac import *
from .. import ndsym as S
import numpy as np
from .messages import cls, new, pylist, pydict, explore, expect_error, overlap, strdiff, facts_of

FFM = "veroku.factors.experimental.factorised_factor"
PARTS = [("one part", ["ab"]), ("disjoint", ["ab", "cd"]), ("chain", ["ab", "bc"]), ("long chain", ["ab", "bc", "cd"]),
         ("late joiner", ["ab", "cd", "bc"]), ("nested", ["a", "ab", "b"]), ("equal scopes", ["ab", "ab"]), ("equal scopes, other order", ["ab", "ba"]),
         ("triangle", ["ab", "bc", "ca"]), ("star", ["xa", "xb", "xc"]), ("chain and island", ["ab", "bc", "de"]), ("singles", ["a", "b", "a"]),
         ("islands", ["b", "a", "c"])]
MOREP = [("two late joiners", ["ab", "cd", "ef", "bc", "de"]), ("cycle", ["ab", "cd", "bc", "da"]), ("late hub", ["ab", "cd", "ef", "ace"]),
         ("three equal", ["ab", "ba", "ab"]), ("nested chain", ["abc", "bc", "cd", "d"])]
P = ("V25",)


def shapes(R):
    return PARTS + (MOREP if getattr(R, "tier", "quick") == "thorough" else [])


class FW:
    def __init__(self, it, sc, ext=True, name="f"):
        self.it = it
        self.al = al = Algebra(it)
        self.C = cls(it, FFM, "FactorizedFactor")
        self.sc = sc
        self.vals = [alg.f(f"{name}{i}", s) for i, s in enumerate(sc)]
        self.parts = [al.make(v, list(s)) for v, s in zip(self.vals, sc)]
        self.prod = alg.prod(*[(v, 1) for v in self.vals])
        self.vs = list(dict.fromkeys("".join(sc)))

    def ff(self, ext="ff"):
        o = new(self.it, self.C, pylist(self.parts))
        if ext:
            mark(o, ext)
        return o


def parts_of(it, o):
    """the parts of a result (a factorised factor or a single factor)"""
    if isinstance(o, Inst) and "val" in o.fields:
        return [o]
    if not isinstance(o, Inst):
        raise Bail(f"result is {o!r}")
    ps = names_of(it, it.getattr(o, "factors"))
    if ps is None:
        raise Bail("parts unknown")
    out = []
    for p in ps:
        out += parts_of(it, p)
    return out


def check_ff(R, it, o, props, what, got, want, names=None, wrapped=True):
    if isinstance(got, Top):
        return R.verdict(props, what, *top_verdict(got))
    if not isinstance(got, Inst):
        return R.verdict(props, what, NE, f"result is {got!r}")
    ps = parts_of(it, got)
    val = alg.prod(*[(p.fields["val"], 1) for p in ps])
    ok, how = alg.same(val, want)
    R.verdict(props, what, NE if not ok else EQ if how == "normal form" else "interp", how)
    ns = names_of(it, it.getattr(got, "var_names"))
    if ns is None:
        return R.verdict(props, what + ": scope", UNK, "scope unknown")
    have = {n for p in ps for n in need(it, p.fields["_var_names"], "scope")}
    if len(set(ns)) != len(ns) or set(ns) != have:
        return R.verdict(props + ("V14",), what + ": scope", NE, f"variables {ns} for parts over {sorted(have)}")
    if names is not None and set(names) != set(ns):
        return R.verdict(props + ("V14",), what + ": scope", NE, f"variables {ns} instead of {sorted(names)}")
    R.verdict(props + ("V14",), what + ": scope", EQ)


def common(R, it, o, what, r):
    """ownership and determinism of one outcome"""
    for m in o.mutations:
        R.verdict("V01", f"{what}: operands unchanged", NE, f"{m[0]} is modified ({m[1]} {m[2] if m[1] == 'setattr' else ''}) at {m[-1]}")
    if not o.mutations:
        R.verdict("V01", f"{what}: operands unchanged", EQ)
    sh = shared(r)
    for p, e in sh:
        R.verdict("V02", f"{what}: result is independent", NE, f"{p} is the same object as the operand's {e}")
    if not sh:
        R.verdict("V02", f"{what}: result is independent", EQ)


@obligation("V25", "V03", "V01", "V02", "V14")
def factorised_construct(it, R):
    for name, sc in shapes(R):
        what = f"FactorizedFactor.__init__ ({name})"

        def thunk(it):
            w = FW(it, sc)
            for i, p in enumerate(w.parts):
                mark(p, f"factors[{i}]")
            arg = mark(pylist(w.parts), "factors")
            return w, new(it, w.C, arg)

        def ver(o):
            w, r = o.value
            check_ff(R, it, o, P, "FactorizedFactor.__init__: product of the parts", r, w.prod, w.vs)
            ps = parts_of(it, r)
            R.verdict(P, "FactorizedFactor.__init__: parts", EQ if len(ps) == len(sc) else NE, f"{what}: {len(ps)} parts from {len(sc)}")
            common(R, it, o, "FactorizedFactor.__init__", None)
            sh = shared(r)
            R.verdict("V03", "FactorizedFactor.__init__: private copies", NE if sh else EQ, f"{sh[:1]}")
        explore(it, R, what, thunk, ver, P)

    what = "FactorizedFactor.__init__ (a factorised factor among the factors)"

    def nested(it):
        w = FW(it, ["ab", "cd"])
        return w, new(it, w.C, pylist([w.ff(None), w.al.make(alg.f("g", "e"), ["e"])]))
    R.cur, R.obligs = what, R.obligs + 1
    for o in it.explore(nested, 60):
        R.paths += 1
        if o.kind == "return":
            w, r = o.value
            check_ff(R, it, o, P, what, r, alg.mul(w.prod, alg.f("g", "e")), w.vs + ["e"])
        elif o.kind != "raise":
            R.verdict(P, what, UNK, str(o.value))


@obligation("V25", "V01", "V02", "V13", "V14")
def factorised_unary(it, R):
    for name, sc in shapes(R):
        def run1(op, f, want, names=True):
            what = f"FactorizedFactor.{op} ({name})"

            def thunk(it):
                w = FW(it, sc)
                x = w.ff()
                return w, x, f(it, w, x)

            def ver(o):
                w, x, r = o.value
                check_ff(R, it, o, P, f"FactorizedFactor.{op}", r, want(w), w.vs if names else None)
                common(R, it, o, f"FactorizedFactor.{op}", r)
                check_ff(R, it, o, ("V01",), f"FactorizedFactor.{op}: operand afterwards", x, w.prod, w.vs)
            explore(it, R, what, thunk, ver, P)

        run1("copy", lambda it, w, x: meth(it, x, "copy"), lambda w: w.prod)
        run1("joint_distribution", lambda it, w, x: it.getattr(x, "joint_distribution"), lambda w: w.prod)
        run1("normalize", lambda it, w, x: meth(it, x, "normalize"), lambda w: alg.norm(w.prod))
        what = f"FactorizedFactor.num_factors/distance_from_vacuous ({name})"

        def thunk(it):
            w = FW(it, sc)
            x = w.ff()
            return w, it.getattr(x, "num_factors"), meth(it, x, "distance_from_vacuous"), x

        def ver(o):
            w, n, d, x = o.value
            strdiff(R, P, "FactorizedFactor.num_factors", it, n, len(sc))
            strdiff(R, P + ("V11",), "FactorizedFactor.distance_from_vacuous: of the joint", it, d, T("scal", "dvac", w.prod))
        explore(it, R, what, thunk, ver, P)

        what = f"FactorizedFactor.is_vacuous ({name})"

        def thunkv(it):
            w = FW(it, sc)
            x = w.ff()
            return w, it.getattr(x, "is_vacuous")

        R.cur, R.obligs = what, R.obligs + 1
        for o in it.explore(thunkv, 200):
            R.paths += 1
            if o.kind == "bail" or o.kind == "bad":
                R.verdict(P, what, UNK, str(o.value))
                continue
            known = {c.args[1]: b for c, b in facts_of(o.facts, "cond") if c.args[0] == "vac"}
            allv = [known.get(alg.f(f"f{i}", s)) for i, s in enumerate(sc)]
            if o.kind == "raise":
                ok = not (all(v is True for v in allv) or all(v is False for v in allv))
                R.verdict(P, "FactorizedFactor.is_vacuous: decided when the parts agree", EQ if ok else NE, f"{what}: raises {o.value.cname} although all parts agree")
                continue
            r = o.value[1]
            if r is True:
                # a product of vacuous parts is vacuous; anything else would be a guess
                R.verdict(P, "FactorizedFactor.is_vacuous: true", EQ if all(v is True for v in allv) else NE, f"{what}: vacuous although parts are {allv}")
            elif r is False:
                R.verdict(P, "FactorizedFactor.is_vacuous: false", EQ if not all(v is True for v in allv) else NE, f"{what}: not vacuous although all parts are")
            else:
                R.verdict(P, what, UNK, f"{r!r}")


@obligation("V25", "V01", "V02", "V14", "V23", "V15")
def factorised_marginalize(it, R):
    for name, sc in shapes(R):
        vs = list(dict.fromkeys("".join(sc)))
        sets = [list(c) for n in range(1, len(vs)) for c in combinations(vs, n)]
        if getattr(R, "tier", "quick") == "quick" and len(sets) > 40:
            sets = sets[::3]
        for keepset in sets:
            for form in ("keep", "keep reversed", "out"):
                what = f"FactorizedFactor.marginalize ({name}, {form} {keepset})"

                def thunk(it):
                    w = FW(it, sc)
                    x = w.ff()
                    out = [v for v in vs if v not in keepset]
                    if form == "out":
                        r = meth(it, x, "marginalize", mark(pylist(out), "vrs"), keep=False)
                    else:
                        r = meth(it, x, "marginalize", mark(pylist(keepset[::-1] if "rev" in form else keepset), "vrs"), keep=True)
                    return w, x, r

                orders = []

                def ver(o):
                    w, x, r = o.value
                    check_ff(R, it, o, P, "FactorizedFactor.marginalize", r, alg.marg(w.prod, keepset), keepset)
                    common(R, it, o, "FactorizedFactor.marginalize", r)
                    check_ff(R, it, o, ("V01",), "FactorizedFactor.marginalize: operand afterwards", x, w.prod, w.vs)
                    orders.append(order_of(it, r))
                if R.prop == "V23":
                    twice(it, R, what, "FactorizedFactor.marginalize", thunk, lambda o: order_of(it, o.value[2]))
                else:
                    explore(it, R, what, thunk, ver, P)
    for name, sc in (("one part", ["ab"]), ("disjoint", ["ab", "cd"])):
        def bad(it):
            w = FW(it, sc)
            return meth(it, w.ff(), "marginalize", pylist(["q"]), keep=True)
        expect_error(it, R, ("V15",), "FactorizedFactor.marginalize (unknown variable)", bad)


def order_of(it, r):
    if not isinstance(r, Inst):
        return repr(r)
    try:
        return (tuple(need(it, it.getattr(r, "var_names"), "names")), tuple((p.fields["val"], tuple(need(it, p.fields["_var_names"], "n"))) for p in parts_of(it, r)))
    except Bail:
        return None


def twice(it, R, what, construct, thunk, f):
    """the same result whichever way sets are iterated"""
    R.cur, R.obligs = what, R.obligs + 1
    res = []
    try:
        for rev in (False, True):
            it.set_rev = rev
            outs = []
            for o in it.explore(thunk, 60):
                R.paths += 1
                outs.append((tuple((c, b) for c, b in o.facts), f(o) if o.kind == "return" else (o.kind, str(o.value))))
            res.append(outs)
    except Bail as e:
        return R.verdict("V23", construct, UNK, str(e))
    finally:
        it.set_rev = False
    a, b = res
    R.verdict("V23", construct + ": independent of set order", EQ if a == b else NE, f"{what}: {a[0][1]} or {b[0][1]} depending on the iteration order of a set")


@obligation("V25", "V01", "V02", "V14", "V23")
def factorised_reduce(it, R):
    for name, sc in shapes(R):
        vs = list(dict.fromkeys("".join(sc)))
        sets = [list(c) for n in range(1, len(vs) + 1) for c in combinations(vs, n)]
        if getattr(R, "tier", "quick") == "quick" and len(sets) > 40:
            sets = sets[::3]
        for obs in sets:
            for rev in (False, True):
                ob = obs[::-1] if rev else obs
                what = f"FactorizedFactor.reduce ({name}, observed {ob})"

                def thunk(it):
                    w = FW(it, sc)
                    x = w.ff()
                    r = meth(it, x, "reduce", mark(pylist(ob), "vrs"), mark(pylist([T("sym", "x" + v) for v in ob]), "values"))
                    return w, x, r

                def ver(o):
                    w, x, r = o.value
                    want = alg.red(w.prod, [(v, value_key(T("sym", "x" + v))) for v in ob])
                    check_ff(R, it, o, P, "FactorizedFactor.reduce", r, want, [v for v in vs if v not in ob])
                    common(R, it, o, "FactorizedFactor.reduce", r)
                    check_ff(R, it, o, ("V01",), "FactorizedFactor.reduce: operand afterwards", x, w.prod, w.vs)
                if R.prop == "V23":
                    if not rev:
                        twice(it, R, what, "FactorizedFactor.reduce", thunk, lambda o: order_of(it, o.value[2]))
                else:
                    explore(it, R, what, thunk, ver, P)


def subst_val(t, m):
    """replace atoms in an algebra term"""
    if t in m:
        return m[t]
    k = t[0]
    if k in ("prod", "sum"):
        f = alg.prod if k == "prod" else (lambda *ps: alg.add(*[x for x, c in ps for _ in range(c)]))
        return f(*[(subst_val(x, m), c) for x, c in t[1]])
    if k == "marg":
        return alg.marg(subst_val(t[1], m), t[2])
    if k == "red":
        return alg.red(subst_val(t[1], m), t[2])
    if k == "norm":
        return alg.norm(subst_val(t[1], m))
    return t


class Classes:
    """equalities between factors decided on a path"""

    def __init__(self, facts):
        self.p = {}
        self.ne = []
        for c, b in facts_of(facts, "feq"):
            if b:
                self.p[self.find(c.args[0])] = self.find(c.args[1])
            else:
                self.ne.append((c.args[0], c.args[1]))

    def find(self, x):
        while x in self.p and self.p[x] != x:
            x = self.p[x]
        return x

    def consistent(self):
        return all(self.find(a) != self.find(b) for a, b in self.ne)

    def same(self, a, b):
        return self.find(a) == self.find(b)

    def differ(self, a, b):
        x, y = self.find(a), self.find(b)
        return any({self.find(p), self.find(q)} == {x, y} for p, q in self.ne)

    def possible(self, pairs):
        """can all the pairs be equal?"""
        if any(alg.scope(a) != alg.scope(b) for a, b in pairs):
            return False
        c = Classes(())
        c.p, c.ne = dict(self.p), self.ne
        for a, b in pairs:
            c.p[c.find(a)] = c.find(b)
        return c.consistent()

    def apply(self, t):
        m = {x: self.find(x) for x in list(self.p)}
        return subst_val(t, m)


@obligation("V25", "V01", "V02", "V14")
def factorised_binary(it, R):
    for name, sc in shapes(R):
        vs = list(dict.fromkeys("".join(sc)))
        others = []
        for s in dict.fromkeys(list(sc) + [s[::-1] for s in sc] + [s[-1] for s in sc] + [vs[0] + "z", "z", vs[0] + vs[-1], "".join(vs)]):
            if len(set(s)) == len(s):
                others.append([s])
        if len(sc) > 1:
            others += [[sc[0], sc[-1]], [sc[-1][-1], "z"], [sc[0]]]
        for ot in others:
            for op, f in (("multiply", alg.mul), ("divide", alg.div), ("cancel", alg.div), ("absorb", alg.mul)):
                for wrap in ((False, True) if len(ot) == 1 else (True,)):
                    what = f"FactorizedFactor.{op} ({name} by {'factorised ' if wrap else ''}{ot})"

                    def thunk(it):
                        w = FW(it, sc)
                        x = w.ff()
                        gs = [w.al.make(alg.f(f"g{i}", s), list(s)) for i, s in enumerate(ot)]
                        y = new(it, w.C, pylist(gs)) if wrap else gs[0]
                        mark(y, "factor")
                        return w, x, y, meth(it, x, op, y)

                    coverable = all(any(set(s) <= set(q) for q in sc) for s in ot)

                    def ver(o):
                        w, x, y, r = o.value
                        cl = Classes(o.facts)
                        if not cl.consistent():
                            return
                        g = alg.prod(*[(alg.f(f"g{i}", s), 1) for i, s in enumerate(ot)])
                        want = f(w.prod, g)
                        ps = parts_of(it, r)
                        got = alg.prod(*[(p.fields["val"], 1) for p in ps])
                        ok, how = same_given(got, want, o.facts)
                        R.verdict(P, f"FactorizedFactor.{op}", NE if not ok else EQ, f"{what}: {how}; path: {show_facts(facts_of(o.facts, 'feq'))}")
                        ns = need(it, it.getattr(r, "var_names"), "scope")
                        have = {n for p in ps for n in need(it, p.fields["_var_names"], "scope")}
                        R.verdict(P + ("V14",), f"FactorizedFactor.{op}: scope", EQ if len(ns) == len(set(ns)) and set(ns) == have else NE, f"{what}: variables {ns} for parts over {sorted(have)}")
                        need_ = alg.scope(cl.apply(want))
                        R.verdict(P + ("V14",), f"FactorizedFactor.{op}: scope covers the result", EQ if need_ <= set(ns) else NE, f"{what}: variables {ns} for a function of {sorted(need_)}")
                        if op in ("multiply", "absorb"):
                            R.verdict(P + ("V14",), f"FactorizedFactor.{op}: union scope", EQ if set(ns) == set(vs) | set("".join(ot)) else NE, f"{what}: {ns}")
                        common(R, it, o, f"FactorizedFactor.{op}", r)
                    if op in ("divide", "cancel") and not coverable:
                        # an explicit refusal is fine
                        R.cur, R.obligs = what, R.obligs + 1
                        for o in it.explore(thunk, 200):
                            R.paths += 1
                            if o.kind == "return":
                                ver(o)
                            elif o.kind != "raise":
                                R.verdict(P, what, UNK, str(o.value))
                    else:
                        explore(it, R, what, thunk, ver, P, max_paths=200)


def same_given(a, b, facts):
    """equal, using the equalities decided on the path"""
    # a comparison with coarser tolerances than the usual ones does not make two parts interchangeable
    rel = [alg.div(c.args[0], c.args[1]) for c, v in facts_of(facts, "feq") if v and not any(isinstance(t, (int, float)) and t > 1.0001e-4 for t in c.args[2:])]
    first = same_mod_scope(a, b)
    if first[0]:
        return first
    for es in product((0, 1, -1), repeat=len(rel)):
        if any(es) and same_mod_scope(alg.prod((a, 1), *zip(rel, es)), b)[0]:
            return True, ""
    return first


def same_mod_scope(a, b):
    """equal as functions; a quotient may have dropped variables it no longer depends on"""
    if a == b:
        return True, ""
    vs = alg.scope(a) | alg.scope(b)
    one = alg.f("1", vs)
    ok, how = alg.same(alg.mul(a, one), alg.mul(b, one))
    return ok, how if ok else f"{alg.show(a)} instead of {alg.show(b)}"


@obligation("V25", "V11", "V12", "V01")
def factorised_compare(it, R):
    rt, at = leaf("tol", "rtol"), leaf("tol", "atol")
    pairs = [(["ab"], ["ab"]), (["ab", "cd"], ["cd", "ab"]), (["ab", "ab"], ["ab", "ab"]), (["ab", "ba", "ab"], ["ab", "ab", "ba"]),
             (["ab", "bc"], ["abc"]), (["ab", "bc"], ["bc", "ba"]), (["ab"], ["ac"]), (["ab", "ab"], ["ab"]), (["ab", "c"], ["ab", "d"]),
             (["a", "b"], ["ab", "b"])]
    for sa, sb in pairs:
        for wrap in ((True, False) if len(sb) == 1 else (True,)):
            what = f"FactorizedFactor.equals ({sa} against {'' if wrap else 'a single factor '}{sb})"

            def mk(it):
                w = FW(it, sa)
                v = FW(it, sb, name="g")
                v.al = w.al
                v.parts = [w.al.make(x, list(s)) for x, s in zip(v.vals, sb)]
                x = w.ff("self")
                y = v.ff("factor") if wrap else mark(v.parts[0], "factor")
                return w, v, x, y

            def thunk(it):
                w, v, x, y = mk(it)
                return w, v, x, y, it.truth(meth(it, x, "equals", y, rtol=rt, atol=at))

            def ver(o):
                w, v, x, y, r = o.value
                fs = facts_of(o.facts, "feq")
                for c, b in fs:
                    R.verdict(("V25", "V12"), "FactorizedFactor.equals: tolerances", EQ if c.args[2:] == (keyof(rt), keyof(at)) else NE,
                              f"{what}: compared with tolerances {c.args[2:]} instead of the given ones")
                cl = Classes(fs)
                if not cl.consistent():
                    return
                common(R, it, o, "FactorizedFactor.equals", None)
                if r not in (True, False):
                    R.verdict(("V25", "V12"), what, UNK, f"{r!r}")
                    return
                A, B = w.vals, v.vals
                scopes = set("".join(sa)) == set("".join(sb))
                joint = cl.same(w.prod, v.prod)
                if r:
                    match = len(A) == len(B) and any(all(cl.same(p, q) for p, q in zip(A, pm)) for pm in permutations(B))
                    ok = scopes and (match or joint)
                    R.verdict(("V25", "V12"), "FactorizedFactor.equals: true only for equal products", EQ if ok else NE, f"{what}: true on a path that established only {show_facts(fs)}")
                else:
                    if not scopes:
                        ok = True
                    elif len(A) != len(B):
                        ok = cl.differ(w.prod, v.prod)
                    else:
                        ok = not any(cl.possible(list(zip(A, pm))) for pm in permutations(B))
                    R.verdict(("V25", "V12"), "FactorizedFactor.equals: false only without a matching", EQ if ok else NE, f"{what}: false on a path that established only {show_facts(fs)}")
            explore(it, R, what, thunk, ver, ("V25", "V12"), max_paths=400)
            if sorted(map(sorted, sa)) == sorted(map(sorted, sb)) or not wrap or len(sa) != len(sb):
                if set("".join(sa)) != set("".join(sb)):
                    continue
                for nf in (True, False):
                    what2 = f"FactorizedFactor.kl_divergence ({sa} from {sb}, normalize_factor={nf})"

                    def thunk2(it):
                        w, v, x, y = mk(it)
                        return w, v, x, y, meth(it, x, "kl_divergence", y, normalize_factor=nf)

                    def ver2(o):
                        w, v, x, y, r = o.value
                        want = T("scal", "kl", w.prod, v.prod) if nf else T("scal", "kl", w.prod, v.prod, keyof(False))
                        strdiff(R, ("V25", "V11"), "FactorizedFactor.kl_divergence: of the joints", it, r, want)
                        common(R, it, o, "FactorizedFactor.kl_divergence", None)
                    explore(it, R, what2, thunk2, ver2, ("V25", "V11"))


def show_facts(fs):
    return ", ".join(f"{alg.show(c.args[0])} {'==' if b else '!='} {alg.show(c.args[1])}" for c, b in fs) or "nothing"


@obligation("V25", "V01", "V03")
def factorised_moments(it, R):
    """the mean and covariance of the joint, in the order of the variables of the factorised factor"""
    S.install(it)
    for name, sc in shapes(R):
        what = f"FactorizedFactor moments ({name})"

        def thunk(it):
            w = FW(it, sc)
            al = w.al
            mul = al.multiply

            def multiply(it, a, k):
                x = mul(it, a, k)
                ns, other = al.names(x), al.names(argof(it, a, k, 1, "factor"))
                x.fields["_var_names"] = LObj([One(n) for n in other + [n for n in ns if n not in other]])
                return x
            same = lambda x: 0 if alg.same(al.val(x), w.prod)[0] else keyof(al.val(x))
            at = al.cls.attrs
            at["multiply"] = method(multiply, "multiply")
            at["get_mean"] = method(lambda it, a, k: S.ND(entries(same(a[0]), al.names(a[0]))[0]), "get_mean")
            at["get_cov"] = method(lambda it, a, k: S.ND(entries(same(a[0]), al.names(a[0]))[1]), "get_cov")
            x = w.ff()
            return w, meth(it, x, "get_mean"), meth(it, x, "get_cov"), names_of(it, it.getattr(x, "var_names"))

        def ver(o):
            w, mu, cov, names = o.value
            for nm, t, i in (("mean", mu, 0), ("cov", cov, 1)):
                if isinstance(t, Top) or names is None:
                    R.verdict(P, f"FactorizedFactor.get_{nm}", *(top_verdict(t) if isinstance(t, Top) else (UNK, "scope unknown")))
                    continue
                ok = isinstance(t, S.ND) and same_nd(t.arr, entries(0, names)[i])
                R.verdict(P, f"FactorizedFactor.get_{nm}: of the joint, in the order of the variables", EQ if ok else NE, f"{what}: {t!r} for variables {names}")
            common(R, it, o, "FactorizedFactor.get_mean", None)
        explore(it, R, what, thunk, ver, P)


def same_nd(a, b):
    return a.shape == b.shape and all(S.same(x, y) for x, y in zip(a.ravel(), b.ravel()))


def entries(i, vs):
    """the parameters of a joint, named by the variables they belong to"""
    mu, cov = np.empty((len(vs), 1), dtype=object), np.empty((len(vs), len(vs)), dtype=object)
    for p, v in enumerate(vs):
        mu[p, 0] = S.sym("mean", i, v)
        for q, u in enumerate(vs):
            cov[p, q] = S.sym("cov", i, *sorted((v, u)))
    return mu, cov
