"""Gaussian mixtures: component lists of abstract Gaussians; a mixture denotes the sum of its components."""
from itertools import permutations
from ..absfac import *
from .messages import cls, new, pylist, explore, expect_error, overlap, strdiff
from .factorised import common, facts_of, Classes, show_facts
from .gaussian import check_gauss, can2cov, check_arr, check_scalar, gleaves, cov_terms
from ..world import gaussian as sym_gaussian

GMM = "veroku.factors.experimental.gaussian_mixture"
GAU = "veroku.factors.gaussian:Gaussian"
P = ("V24",)


class GW:
    def __init__(self, it, n, sc="ab", cm=0, name="f"):
        install_logs(it)
        self.it = it
        self.al = Algebra(it, base=GAU, kind="AbstractGaussian")
        self.C = cls(it, GMM, "GaussianMixture")
        self.vals = [alg.f(f"{name}{i}", sc) for i in range(n)]
        self.sum = alg.add(*self.vals)
        self.sc, self.cm = sc, cm

    def comps(self, vals=None, sc=None):
        return [self.al.make(v, list(sc or self.sc)) for v in (vals or self.vals)]

    def gm(self, ext="gm", vals=None, sc=None):
        o = new(self.it, self.C, pylist(self.comps(vals, sc)), cancel_method=self.cm)
        if ext:
            mark(o, ext)
        return o


def comps_of(it, o):
    if isinstance(o, Inst) and "val" in o.fields:
        return [o]
    if not isinstance(o, Inst):
        raise Bail(f"result is {o!r}")
    ps = names_of(it, it.getattr(o, "components"))
    if ps is None:
        raise Bail("components unknown")
    out = []
    for p in ps:
        out += comps_of(it, p)
    return out


def check_gm(R, it, o, props, what, got, want, names, w=None, options=True):
    """got denotes the sum want over names, with w's options"""
    if isinstance(got, Top):
        return R.verdict(props, what, *top_verdict(got))
    if not isinstance(got, Inst):
        return R.verdict(props, what, NE, f"result is {got!r}")
    cs = comps_of(it, got)
    val = alg.add(*[c.fields["val"] for c in cs])
    ok, how = alg.same(val, want)
    R.verdict(props, what, NE if not ok else EQ if how == "normal form" else "interp", how)
    ns = names_of(it, it.getattr(got, "var_names"))
    if ns is None:
        return R.verdict(props, what + ": scope", UNK, "scope unknown")
    ok = sorted(ns) == sorted(names) and all(sorted(need(it, c.fields["_var_names"], "n")) == sorted(names) for c in cs)
    R.verdict(props + ("V14",), what + ": scope", EQ if ok else NE, f"variables {ns} instead of {sorted(names)}")
    if "components" in got.fields and w is not None:
        n = it.getattr(got, "num_components")
        R.verdict(props, what + ": number of components", EQ if n == len(cs) else NE, f"num_components is {n!r} with {len(cs)} components")
        if options:
            cm = it.getattr(got, "cancel_method")
            R.verdict(props, what + ": options", EQ if cm == w.cm else NE, f"cancel_method is {cm!r} instead of {w.cm!r}")


def sym(v):
    return T("sym", "x" + v)


@obligation("V24", "V03", "V01", "V02", "V14", "V15")
def mixture_construct(it, R):
    for n in (1, 2, 3):
        for cm in (0, 1, 2):
            what = f"GaussianMixture.__init__ ({n} components, cancel_method {cm})"

            def thunk(it):
                w = GW(it, n, cm=cm)
                ps = w.comps()
                for i, p in enumerate(ps):
                    mark(p, f"factors[{i}]")
                return w, new(it, w.C, mark(pylist(ps), "factors"), cancel_method=cm)

            def ver(o):
                w, r = o.value
                check_gm(R, it, o, P, "GaussianMixture.__init__", r, w.sum, "ab", w)
                common(R, it, o, "GaussianMixture.__init__", None)
                sh = shared(r)
                R.verdict("V03", "GaussianMixture.__init__: private copies", NE if sh else EQ, f"{sh[:1]}")
            explore(it, R, what, thunk, ver, P)
    for bad, what in ((lambda it, w: pylist([]), "no components"),
                      (lambda it, w: pylist([w.al.make(alg.f("f", "ab"), ["a", "b"]), w.al.make(alg.f("g", "ac"), ["a", "c"])]), "components over different variables"),
                      (lambda it, w: pylist([w.al.make(alg.f("f", "ab"), ["a", "b"]), w.al.make(alg.f("g", "abc"), ["a", "b", "c"])]), "components over different variables (2)"),
                      (lambda it, w: pylist([w.al.make(alg.f("f", "abc"), ["a", "b", "c"]), w.al.make(alg.f("g", "ab"), ["a", "b"])]), "components over different variables (3)"),
                      (lambda it, w: pylist(w.comps() + [w.al.make(alg.f("g", "ac"), ["a", "c"])]), "components over different variables (4)")):
        def thunkb(it):
            w = GW(it, 2)
            return new(it, w.C, bad(it, w))
        expect_error(it, R, ("V15",), f"GaussianMixture.__init__ ({what})", thunkb)


@obligation("V24", "V01", "V02", "V13", "V14")
def mixture_unary(it, R):
    for n in (1, 2, 3):
        for cm in (0, 1, 2):
            def run1(op, f, want, names="ab", opname=None):
                opname = opname or op
                what = f"GaussianMixture.{op} ({n} components, cancel_method {cm})"

                def thunk(it):
                    w = GW(it, n, cm=cm)
                    x = w.gm()
                    return w, x, f(it, w, x)

                def ver(o):
                    w, x, r = o.value
                    check_gm(R, it, o, P, f"GaussianMixture.{opname}", r, want(w), names, w)
                    common(R, it, o, f"GaussianMixture.{opname}", r)
                    check_gm(R, it, o, ("V01",), f"GaussianMixture.{opname}: operand afterwards", x, w.sum, "ab", w)
                explore(it, R, what, thunk, ver, P)
            run1("copy", lambda it, w, x: meth(it, x, "copy"), lambda w: w.sum)
            run1("normalize", lambda it, w, x: meth(it, x, "normalize"),
                 lambda w: alg.add(*[alg.div(v, alg.add(*[alg.marg(u, ()) for u in w.vals])) for v in w.vals]))
            for ob in (["a"], ["b"], ["b", "a"]):
                run1(f"reduce({ob})", lambda it, w, x: meth(it, x, "reduce", mark(pylist(ob), "vrs"), mark(pylist([sym(v) for v in ob]), "values")),
                     lambda w: alg.add(*[alg.red(v, [(q, value_key(sym(q))) for q in ob]) for v in w.vals]), [v for v in "ab" if v not in ob], "reduce")
            for ob in (["a"], ["b"]):
                run1(f"marginalize({ob})", lambda it, w, x: meth(it, x, "marginalize", mark(pylist(ob), "vrs"), keep=True),
                     lambda w: alg.add(*[alg.marg(v, ob) for v in w.vals]), ob, "marginalize")
                run1(f"marginalize({ob}, out)", lambda it, w, x: meth(it, x, "marginalize", mark(pylist(ob), "vrs"), keep=False),
                     lambda w: alg.add(*[alg.marg(v, [q for q in "ab" if q not in ob]) for v in w.vals]), [q for q in "ab" if q not in ob], "marginalize")
            run1("marginalize(['b', 'a'])", lambda it, w, x: meth(it, x, "marginalize", pylist(["b", "a"])), lambda w: w.sum, "ab", "marginalize")

        what = f"GaussianMixture.log_potential/potential/weights ({n} components)"

        def thunk(it):
            w = GW(it, n)
            x = w.gm()
            xs = lambda vs: mark(pylist([sym(v) for v in vs]), "x_val")
            return (w, x, meth(it, x, "log_potential", xs("ab")), meth(it, x, "log_potential", xs("ba"), mark(pylist(["b", "a"]), "vrs")),
                    meth(it, x, "potential", xs("ab")), meth(it, x, "get_log_weight"))

        def ver(o):
            w, x, l1, l2, p, lw = o.value
            want = alg.add(*[alg.red(v, [(q, value_key(sym(q))) for q in "ab"]) for v in w.vals])
            tot = alg.add(*[alg.marg(v, ()) for v in w.vals])
            for nm, got, f, wn in (("log_potential", l1, exp_of, want), ("log_potential: with variables", l2, exp_of, want),
                                   ("potential", p, lin_of, want), ("get_log_weight", lw, exp_of, tot)):
                try:
                    v = f(got)
                except Bail as e:
                    R.verdict(P, f"GaussianMixture.{nm}", UNK, str(e))
                    continue
                ok, how = alg.same(v, wn)
                R.verdict(P, f"GaussianMixture.{nm}", EQ if ok else NE, f"{what}: {how}")
            common(R, it, o, "GaussianMixture.potential", None)
            for i in range(n):
                check_val(R, it, o, P, "GaussianMixture.get_component", meth(it, x, "get_component", i), w.vals[i])
        explore(it, R, what, thunk, ver, P)

        what = f"GaussianMixture.is_vacuous ({n} components)"

        def thunkv(it):
            w = GW(it, n)
            return w, it.getattr(w.gm(), "is_vacuous")

        def verv(o):
            w, r = o.value
            known = {c.args[1]: b for c, b in facts_of(o.facts, "cond") if c.args[0] == "vac"}
            al = [known.get(v) for v in w.vals]
            if r is True:
                ok = all(v is True for v in al)
            elif r is False:
                ok = any(v is False for v in al)
            else:
                return R.verdict(P, what, UNK, f"{r!r}")
            R.verdict(P, "GaussianMixture.is_vacuous", EQ if ok else NE, f"{what}: {r} when components are {al}")
        explore(it, R, what, thunkv, verv, P)


@obligation("V24", "V01", "V02", "V14", "V15")
def mixture_binary(it, R):
    for n in (1, 2, 3):
        for cm in (0, 1, 2):
            for op, f in (("multiply", alg.mul), ("absorb", alg.mul), ("divide", alg.div), ("cancel", alg.div)):
                for k in (0, 1, 2, 3):                  # 0: a plain Gaussian
                    for sc in ("ab", "ba", "b", "bc", "cd"):
                        if op in ("divide", "cancel") and (k > 1 and cm != 0 or sc in ("bc", "cd")):
                            continue
                        if op in ("absorb", "cancel") and (n != 2 or sc != "b"):
                            continue
                        what = f"GaussianMixture.{op} ({n} components, cancel_method {cm}, by {'a Gaussian' if not k else f'{k} components'} over {list(sc)})"

                        def thunk(it):
                            w = GW(it, n, cm=cm)
                            x = w.gm()
                            gv = [alg.f(f"g{i}", sc) for i in range(k or 1)]
                            y = w.gm(None, gv, list(sc)) if k else w.al.make(gv[0], list(sc))
                            mark(y, "factor")
                            if k > 1 and op in ("divide", "cancel"):
                                if "moment_match_to_single_gaussian" not in w.C.attrs:
                                    raise Bail("moment matching renamed")
                                old = w.C.attrs["moment_match_to_single_gaussian"]
                                w.C.attrs["moment_match_to_single_gaussian"] = method(
                                    lambda it, a, kw: w.al.make(("on", "momentmatch", frozenset(sc), tuple(c.fields["val"] for c in comps_of(it, a[0]))), list(sc)), "mm")
                                try:
                                    r = meth(it, x, op, y)
                                finally:
                                    w.C.attrs["moment_match_to_single_gaussian"] = old
                                gs = [("on", "momentmatch", frozenset(sc), tuple(gv))]
                            else:
                                r = meth(it, x, op, y)
                                gs = gv
                            return w, x, y, gs, r

                        def ver(o):
                            w, x, y, gs, r = o.value
                            want = alg.add(*[f(v, g) for v in w.vals for g in gs])
                            names = list(dict.fromkeys("ab" + sc))
                            check_gm(R, it, o, P, f"GaussianMixture.{op}", r, want, names, w)
                            common(R, it, o, f"GaussianMixture.{op}", r)
                        explore(it, R, what, thunk, ver, P)
    for op in ("multiply", "divide"):
        def other(it):
            w = GW(it, 2)
            al = Algebra(it)
            return meth(it, w.gm(), op, al.make(alg.f("d", "a"), ["a"]))
        expect_error(it, R, ("V15",), f"GaussianMixture.{op} (by a factor of another kind)", other)


@obligation("V24", "V12", "V01")
def mixture_equals(it, R):
    rt, at = leaf("tol", "rtol"), leaf("tol", "atol")
    for n, m in ((1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (3, 2)):
        what = f"GaussianMixture.equals ({n} against {m} components)"

        def thunk(it):
            w = GW(it, n)
            x = w.gm("self")
            gv = [alg.f(f"g{i}", "ab") for i in range(m)]
            y = w.gm("factor", gv)
            return w, gv, it.truth(meth(it, x, "equals", y, rtol=rt, atol=at))

        def ver(o):
            w, gv, r = o.value
            fs = facts_of(o.facts, "feq")
            for c, b in fs:
                R.verdict(("V24", "V12"), "GaussianMixture.equals: tolerances", EQ if c.args[2:] == (keyof(rt), keyof(at)) else NE,
                          f"{what}: compared with tolerances {c.args[2:]} instead of the given ones")
            cl = Classes(fs)
            if not cl.consistent():
                return
            common(R, it, o, "GaussianMixture.equals", None)
            if r:
                ok = n == m and any(all(cl.same(p, q) for p, q in zip(w.vals, pm)) for pm in permutations(gv))
                R.verdict(("V24", "V12"), "GaussianMixture.equals: true only with a one-to-one matching", EQ if ok else NE, f"{what}: true on a path that established only {show_facts(fs)}")
            else:
                ok = n != m or not any(cl.possible(list(zip(w.vals, pm))) for pm in permutations(gv))
                R.verdict(("V24", "V12"), "GaussianMixture.equals: false only without a matching", EQ if ok else NE, f"{what}: false on a path that established only {show_facts(fs)}")
        explore(it, R, what, thunk, ver, ("V24", "V12"), max_paths=400)


@obligation("V24", "V01", "V02", "V23")
def mixture_moments(it, R):
    """moment matching of real Gaussians over scopes of any size"""
    atoms = ["A", "C"]
    for forms in (("cov", "cov"), ("cov", "cov", "cov")):
        names = ["a", "b", "c"][:len(forms)]
        ctx = Ctx(gleaves(**{n: atoms for n in names}))
        what = f"GaussianMixture.moment_match_to_single_gaussian ({'/'.join(forms)})"

        def thunk(it):
            install_logs(it)
            C = cls(it, GMM, "GaussianMixture")
            gs = [sym_gaussian(it, n, atoms, f, order="oa") for n, f in zip(names, forms)]
            gm = new(it, C, pylist(gs))
            mark(gm, "gm")
            return meth(it, gm, "moment_match_to_single_gaussian")

        def ver(it, o):
            ms = []
            for n, f in zip(names, forms):
                if f == "can":
                    from ..world import can_terms
                    ms.append(can2cov(*can_terms(n), atoms))
                else:
                    ms.append(cov_terms(n))
            ew = [num(T("ew1", "exp", num(w))) for _, _, w in ms]
            W = num(0)
            for e in ew:
                W = W + e
            tot = T("ew1", "log", W)
            rec = num(T("ew1", "exp", num(tot).scale(-1)))
            mean = num(0)
            for (c, m, w), e in zip(ms, ew):
                mean = mean + e * rec * num(m)
            cov = num(0)
            for (c, m, w), e in zip(ms, ew):
                d = num(m) - mean
                cov = cov + e * rec * (num(c) + d * num(it.tr_body(d)))
            R.cur = what
            v = o.value
            if not isinstance(v, Inst):
                return R.verdict(P, what, *(top_verdict(v) if isinstance(v, Top) else (NE, f"{v!r}")))
            fl = v.fields
            ps = it.seq_parts(fl["_var_names"])
            if fl.get("covform") is not True:
                return R.verdict(P, what, UNK, "result not in covariance form")
            check_arr(it, R, ctx, o.facts, P, "GaussianMixture.moment_match_to_single_gaussian: mean", fl["mean"], ps, None, mean)
            check_arr(it, R, ctx, o.facts, P, "GaussianMixture.moment_match_to_single_gaussian: covariance", fl["cov"], ps, ps, cov)
            check_scalar(it, R, ctx, o.facts, P, "GaussianMixture.moment_match_to_single_gaussian: log weight", fl["log_weight"], tot)
        run(it, R, ctx, what, thunk, ver, own=False, main=P)
