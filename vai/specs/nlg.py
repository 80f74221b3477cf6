"""Non-linear Gaussian conditionals. Gaussians are abstract factors (labelled functions); sigma points, images and noise are symbolic arrays.

What a conditional with absorbed factors denotes is written down directly: (C, U, E) = what was absorbed over the conditioning side, over the
conditional side, and what was observed. While C and the observed conditioning variables do not cover the conditioning side the joint is
vacuous; otherwise it is the Gaussian with the moments of the points of C given E and their images, plus the noise, times U, given E."""
from itertools import product as iprod
from ..absfac import *
from .messages import cls, new, pylist, explore
from .factorised import common, facts_of
from .sigma import gen, moments, obj, same_nd
from .errors import arr
from .. import ndsym as S
import numpy as np

NLM, GMM, GAM = "veroku.factors.experimental.nonlinear_gaussian", "veroku.factors.experimental.gaussian_mixture", "veroku.factors.gaussian"
SGM = "veroku.factors._sigma_points"
P = ("V26",)


class Pool:
    """numbers for equal things"""

    def __init__(self, same, key=lambda x: x):
        self.items, self.same, self.key, self.known = [], same, key, {}

    def id(self, x):
        k = self.key(x)
        if k not in self.known:
            for i, y in enumerate(self.items):
                if self.same(x, y):
                    self.known[k] = i
                    break
            else:
                self.known[k] = len(self.items)
                self.items.append(x)
        return self.known[k]


def key_gauss(g):
    return g[0], tuple(S.poly(x).key() for x in list(g[1].ravel()) + list(g[2].ravel()))


def same_gauss(a, b):
    return a[0] == b[0] and same_nd(a[1], b[1]) and same_nd(a[2], b[2])


class NW:
    """replaces Gaussians by abstract factors in the module of the conditional, for one obligation"""

    def __init__(self, it):
        self.it = it
        S.install(it)
        install_logs(it)
        if not hasattr(it, "_real_gaussian"):
            it._real_gaussian = cls(it, GAM, "Gaussian")
        self.al = Algebra(it, base=GAM + ":Gaussian", kind="AbstractGaussian")
        self.al.cls.bases = [it._real_gaussian] if hasattr(self.al.cls, "bases") else None
        at = self.al.cls.attrs
        at["__init__"] = method(self.init, "__init__")
        at["make_vacuous"] = PyFn(self.vacuous, "make_vacuous")
        at["_is_vacuous"] = PropV(method(lambda it, a, k: self.al.val(a[0]) == alg.ONE, "_is_vacuous"))
        at["is_vacuous"] = at["_is_vacuous"]
        at["get_g"] = method(lambda it, a, k: T("scal", "get_g", self.al.val(a[0])), "get_g")
        for n in ("get_prec", "get_h", "get_cov", "get_mean"):
            at[n] = method(lambda it, a, k, n=n: self.parameter(n, a[0]), n)
        at["sample"] = method(self.sample, "sample")
        at["multiply"] = method(self.multiply, "multiply")
        at["_reorder_parameters"] = method(self.reorder, "_reorder_parameters")
        at["_split_gaussian"] = method(self.split, "_split_gaussian")
        for mod in (NLM, GAM, SGM, GMM):
            m = it.module(mod)
            if m is not None and "Gaussian" in m.env:
                m.env["Gaussian"] = self.al.cls
        for mod in (NLM, SGM):
            m = it.module(mod)
            if m is not None and "get_sigma_points_array" in m.env:
                m.env["get_sigma_points_array"] = PyFn(self.points_of, "get_sigma_points_array")
        self.norms, self.gauss, self.keys = Pool(lambda a, b: alg.same(a, b)[0]), Pool(same_gauss, key_gauss), Pool(lambda a, b: a == b)
        self.vals = Pool(lambda a, b: alg.same(a, b)[0])
        self.draws = 0
        self.dim = {}

    # ---- abstract Gaussians
    def multiply(self, it, a, k):
        """the order of the variables of a product is not promised: those of the other factor first"""
        x = self.al.multiply(it, a, k)
        ns, other = self.al.names(x), self.al.names(argof(it, a, k, 1, "factor"))
        x.fields["_var_names"] = LObj([One(n) for n in other + [n for n in ns if n not in other]])
        return x

    def reorder(self, it, a, k):
        vs = need(it, argof(it, a, k, 1, "new_order_vars"), "order")
        if set(vs) != set(self.al.names(a[0])):
            it.throw("AssertionError", "new_order_vars must contain the same variable names as in var_names.")
        it.setattr(a[0], "_var_names", LObj([One(n) for n in vs]))

    def parameter(self, n, x):
        """entries are named by the variables they belong to"""
        i, vs = self.vals.id(self.al.val(x)), self.al.names(x)
        return S.ND(param(n, i, vs))

    def sample(self, it, a, k):
        n = argof(it, a, k, 1, "num_samples")
        i, vs = self.vals.id(self.al.val(a[0])), self.al.names(a[0])
        if not isinstance(n, int):
            raise Bail("number of samples unknown")
        self.draws += 1
        return S.ND(obj([[S.sym("draw", i, v, self.draws, j) for j in range(n)] for v in vs]) if n else np.zeros((len(vs), 0), object))

    def init(self, it, a, k):
        o, rest = a[0], a[1:]
        names = ["cov", "mean", "log_weight", "prec", "h_vec", "g_val", "var_names"]
        d = dict(zip(names, rest), **k)
        vs = need(it, d.get("var_names"), "variables")
        if d.get("cov") is None and isinstance(d.get("prec"), S.ND) and all(S.poly(x) == S.poly(0) for x in list(d["prec"].arr.ravel()) + list(d["h_vec"].arr.ravel())):
            val = exp_of(d.get("g_val"))
        else:
            c, m = d.get("cov"), d.get("mean")
            for x in (c, m):
                if isinstance(x, Top):
                    raise Bail("parameters unknown: " + x.why)
            if not isinstance(c, S.ND) or not isinstance(m, S.ND):
                raise Bail(f"parameters {c!r} {m!r}")
            val = self.gaussian(vs, c.arr, m.arr, d.get("log_weight"))
            if isinstance(val, str):
                it.throw("AssertionError", val)
        o.fields.update(self.al.make(val, vs).fields)

    def gaussian(self, vs, cov, mean, lw):
        n = len(vs)
        if cov.shape != (n, n) or mean.reshape(-1).shape != (n,):
            return f"parameters {cov.shape} {mean.shape} for {n} variables"
        if len(set(vs)) != n:
            return "duplicate variables"
        p = sorted(range(n), key=lambda i: vs[i])
        i = self.gauss.id((tuple(vs[j] for j in p), cov[np.ix_(p, p)], mean.reshape(-1)[p]))
        return alg.prod((("on", "gaussian", frozenset(vs), (i,)), 1), (exp_of(lw), 1))

    def vacuous(self, it, a, k):
        a = [x for x in a if not isinstance(x, (Inst, ClsV))]
        vs = need(it, argof(it, a, k, 0, "var_names"), "variables")
        return self.al.make(exp_of(argof(it, a, k, 1, "g_val", 0.0)), vs)

    def split(self, it, a, k):
        v, ns = self.al.val(a[0]), self.al.names(a[0])
        if v == alg.ONE:
            it.throw("LinAlgError", "a vacuous Gaussian has no moments to split by")
        if len(ns) != 1:
            it.throw("NotImplementedError", "Gaussian must be one dimensional.")
        return new(it, cls(it, GMM, "GaussianMixture"), pylist([self.al.make(x, ns) for x in self.split_vals(v)]))

    def split_vals(self, v):
        return [("on", f"split{i}", alg.scope(v), (v,)) for i in range(3)]

    def points_of(self, it, a, k):
        g = a[0] if a else k.get("gaussian_factor")
        return S.ND(self.points(self.al.val(g), self.al.names(g)))

    def points(self, val, names):
        d = len(names)
        i = self.norms.id(alg.norm(val))
        return obj([[S.sym("x", i, v, j) for j in range(2 * d + 1)] for v in names]) if d else np.zeros((0, 1), object)

    # ---- the transform and noise
    def image(self, x, vs, e):
        return obj([[S.sym("f", i, self.keys.id(tuple(sorted((v, S.poly(x[r, j]).key()) for r, v in enumerate(vs))))) for j in range(x.shape[1])]
                    for i in range(e)])

    def transform(self, e):
        def f(it, a, k):
            vs = names_of(it, a[1] if len(a) > 1 else k.get("var_names"))
            if vs is None or not isinstance(a[0], S.ND):
                raise Bail("arguments of the transform")
            if a[0].arr.ndim != 2 or len(vs) != a[0].arr.shape[0]:
                it.throw("ValueError", "transform called with other names than rows")
            return S.ND(self.image(a[0].arr, vs, e))
        return PyFn(f, "transform")

    def make(self, X, Y, ext=None, lw=0.0):
        """(object, state)"""
        noise = arr("n", len(Y), len(Y))
        o = new(self.it, cls(self.it, NLM, "NonLinearGaussian"), pylist(X), pylist(Y), self.transform(len(Y)), S.ND(noise.arr.copy()), log_weight=lw)
        return o, State(self, list(X), list(Y), noise.arr, exp_of(lw))


def evsym(v, n=0):
    return S.sym("e", v, n)


def param(n, i, vs):
    if n in ("get_h", "get_mean"):
        return obj([[S.sym(n, i, v)] for v in vs])
    return obj([[S.sym(n, i, *sorted((v, u))) for u in vs] for v in vs])


class State:
    def __init__(self, w, X, Y, noise, lw, C=None, U=None, E=()):
        self.w, self.X, self.Y, self.noise, self.lw, self.C, self.U, self.E = w, X, Y, noise, lw, C, U, dict(E)

    def but(self, **k):
        d = dict(w=self.w, X=self.X, Y=self.Y, noise=self.noise, lw=self.lw, C=self.C, U=self.U, E=self.E)
        d.update(k)
        return State(**d)

    def names(self):
        return [v for v in self.X + self.Y if v not in self.E]

    def red(self, val):
        return alg.red(val, [(v, value_key(x)) for v, x in self.E.items() if v in alg.scope(val)])

    def absorb(self, val, names, f):
        """None if the request has no meaning here"""
        if val == alg.ONE:
            return self
        for side, at in ((self.Y, "U"), (self.X, "C")):
            if set(names) <= set(side):
                old = getattr(self, at)
                if old is None:
                    if f is alg.div:
                        return None
                    return self.but(**{at: (val, list(names))})
                return self.but(**{at: (f(old[0], val), old[1] + [n for n in names if n not in old[1]])})
        return None

    def live(self):
        """conditioning side covered"""
        have = set(self.E)
        if self.C is not None and self.C[0] != alg.ONE:
            have |= set(self.C[1])
        return set(self.X) <= have

    def joint(self):
        if not self.live():
            return alg.ONE
        w = self.w
        obs = [v for v in self.X if v in self.E]
        if self.C is not None and set(self.C[1]) - set(self.E):
            cv = self.red(self.C[0])
            free = [v for v in self.C[1] if v not in self.E]
        else:
            cv, free = self.red(self.C[0]) if self.C is not None else alg.ONE, []
        pts = w.points(cv, free)
        n = pts.shape[1]
        rows = np.concatenate([pts, obj([[S.poly(self.E[v])] * n for v in obs]) if obs else np.zeros((0, n), object)], axis=0)
        img = w.image(rows, free + obs, len(self.Y))
        c, m = moments(np.concatenate([pts, img], axis=0))
        d = len(free)
        c = c.copy()
        c[d:, d:] = c[d:, d:] + self.noise
        ns = free + self.Y
        p = sorted(range(len(ns)), key=lambda i: ns[i])
        i = w.gauss.id((tuple(ns[j] for j in p), c[np.ix_(p, p)], m.reshape(-1)[p]))
        val = alg.prod((("on", "gaussian", frozenset(ns), (i,)), 1), (self.lw, 1), (alg.marg(cv, ()), 1))
        if self.U is not None:
            val = alg.mul(val, self.U[0])
        return self.red(val)

    def marginal(self, vs):
        """value, or None where nothing definite is required"""
        j = self.joint()
        if self.live():
            return alg.marg(j, vs)
        for part, side in ((self.C, self.X), (self.U, self.Y)):
            if set(vs) <= set(side) and part is not None:
                if set(vs) <= set(part[1]):
                    m = alg.marg(self.red(part[0]), vs)
                    return alg.prod((m, 1), (self.lw, 1))
                return None if part[0] != alg.ONE and set(vs) & set(part[1]) else alg.ONE
        return alg.ONE if all(part is None or part[0] == alg.ONE or not set(vs) & set(part[1]) for part in (self.C, self.U)) else None


def check_state(it, R, o, what, x, st, full=True):
    """x (an interpreted conditional) denotes st"""
    ns = names_of(it, it.getattr(x, "var_names"))
    if ns is None:
        R.verdict(P + ("V14",), f"{what}: scope", UNK, "scope unknown")
    else:
        R.verdict(P + ("V14",), f"{what}: scope", EQ if sorted(ns) == sorted(st.names()) else NE, f"{R.cur}: variables {ns} instead of {st.names()}")
    j = it.getattr(x, "joint_distribution")
    check_val(R, it, o, P, f"{what}: joint", j, st.joint(), st.names())


def getters(it, x, apart=False):
    """apart: each of them asked first"""
    return {n: meth(it, meth(it, x, "copy") if apart else x, n) for n in ("get_prec", "get_h", "get_g", "get_cov", "get_mean", "get_log_weight")}


def check_getters(it, R, w, what, got, want, names):
    for n, v in got.items():
        if isinstance(v, Top):
            R.verdict(P, f"{what}: {n}", *top_verdict(v))
            continue
        if n == "get_log_weight":
            try:
                ok, how = alg.same(exp_of(v), alg.marg(want, ()))
            except Bail as e:
                R.verdict(P, f"{what}: {n}", UNK, str(e))
                continue
        elif n == "get_g":
            if not isinstance(v, T) or v.op != "scal" or v.args[0] != n:
                R.verdict(P, f"{what}: {n}", UNK if isinstance(v, T) else NE, f"{v!r}")
                continue
            ok, how = alg.same(v.args[1], want)
        else:
            if not isinstance(v, S.ND):
                R.verdict(P, f"{what}: {n}", UNK if isinstance(v, T) else NE, f"{v!r}")
                continue
            ok, how = same_nd(v.arr, param(n, w.vals.id(want), names)), f"{v!r} for variables {names}"
        R.verdict(P, f"{what}: {n}", EQ if ok else NE, f"{R.cur}: {how}")


SHAPES = [(["a"], ["c"]), (["a", "b"], ["c"]), (["b", "a"], ["d", "c"])]


def ops_for(X, Y):
    """requests: (name, kind, payload)"""
    out = []
    for i, vs in enumerate([X, X[:1], Y, Y[-1:], X[::-1], Y[::-1]]):
        if (vs, "multiply") not in [(p, k) for _, k, p in out]:
            out.append((f"multiply by a factor over {vs}", "multiply", vs))
    for vs in (X, Y):
        out.append((f"divide by a factor over {vs}", "divide", vs))
    for v in X + Y:
        out.append((f"observe {v}", "reduce", [v]))
    if len(X) > 1:
        out.append((f"observe {X}", "reduce", X))
        out.append((f"observe {[Y[0], X[1]]}", "reduce", [Y[0], X[1]]))
    out.append((f"observe {X + Y[:1]}", "reduce", X + Y[:1]))
    out.append(("copy", "copy", None))
    out.append(("undo", "undo", None))
    out.append(("multiply by a vacuous factor", "vac", X))
    return out


def apply(it, w, x, st, op, i, hist):
    """(new object, new state, operand) or None when the request has no defined meaning"""
    nm, kind, vs = op
    if kind == "copy":
        return meth(it, x, "copy"), st, None
    if kind in ("multiply", "divide", "vac", "undo"):
        f = alg.mul
        if kind == "undo":
            if not hist:
                return None
            val, vs = hist.pop()
            f = alg.div
        elif kind == "vac":
            val = alg.ONE
        else:
            val = alg.f(f"g{i}", vs)
            if kind == "multiply":
                hist.append((val, vs))
            else:
                f = alg.div
        if set(vs) & set(st.E):
            return None
        s2 = st.absorb(val, vs, f)
        if s2 is None:
            return None
        g = mark(w.al.make(val, list(vs)), "factor")
        return meth(it, x, "multiply" if f is alg.mul else "divide", g), s2, g
    if set(vs) & set(st.E):
        return None
    xs = [evsym(v, i) for v in vs]
    return meth(it, x, "reduce", mark(pylist(list(vs)), "vrs"), mark(pylist(xs), "values")), st.but(E=dict(st.E, **dict(zip(vs, xs)))), None


def histories(tier):
    for X, Y in SHAPES:
        ops = ops_for(X, Y)
        for n in range(0, (4 if tier == "thorough" else 3) + 1):
            if n == 3 and len(Y) > 1 and tier != "thorough" or n == 4 and len(X) > 1:
                break
            for hs in iprod(range(len(ops)), repeat=n):
                yield X, Y, [ops[i] for i in hs]


def share(k, n):
    def run_share(it, R):
        w = NW(it)
        for i, (X, Y, hs) in enumerate(histories(R.tier)):
            if i % n == k:
                one_history(it, R, w, X, Y, hs)
    run_share.__name__ = run_share.__qualname__ = f"nlg_histories_{k}"
    return obligation("V26", "V01", "V02", "V13", "V14")(run_share)


SHARES = [share(k, 8) for k in range(8)]


def one_history(it, R, w, X, Y, hs):
    st0 = None
    what = f"conditional {X} -> {Y}: " + (", ".join(h[0] for h in hs) or "new")

    def thunk(it):
        x, st = w.make(X, Y, lw=T("logs", alg.f("w", ())))
        hist, seen = [], [(x, st)]
        for i, op in enumerate(hs):
            r = apply(it, w, x, st, op, i, hist)
            if r is None:
                return None
            x, st, _ = r
            seen.append((x, st))
            if i % 2 == 0 and i + 1 < len(hs):
                getters(it, x)             # answers in between must not be kept
        last = hs[-1][1] if hs else "__init__"
        last = {"vac": "multiply", "undo": "divide"}.get(last, last)
        nm = f"NonLinearGaussian.{last}"
        R.cur = what
        return nm, x, st, seen

    def ver(o):
        if o.value is None:
            return
        nm, x, st, seen = o.value
        check_state(it, R, o, nm, x, st)
        common(R, it, o, nm, x)
        for y, s in seen[-2:-1]:
            ns = names_of(it, it.getattr(y, "var_names"))
            R.verdict(("V01",), f"{nm}: operand afterwards", EQ if ns is not None and sorted(ns) == sorted(s.names()) else NE, f"{what}: operand now over {ns}")
            j = it.getattr(y, "joint_distribution")
            check_val(R, it, o, ("V01", "V26"), f"{nm}: operand afterwards", j, s.joint(), s.names())
        if len(hs) < 3:
            check_getters(it, R, w, "NonLinearGaussian", getters(it, x, True), st.joint(), st.names())
        for vs in [[v] for v in st.names()] + ([st.names()[::-1]] if len(st.names()) > 1 else []):
            want = st.marginal(vs)
            if want is None:
                continue
            for keep in (True, False) if len(hs) < 3 else (True,):
                arg = vs if keep else [v for v in st.names() if v not in vs]
                m = meth(it, x, "marginalize", pylist(list(arg)), keep=keep)
                check_val(R, it, o, P, "NonLinearGaussian.marginalize", m, want, vs)
    R.cur = what
    explore(it, R, what, thunk, ver, P)


WIDE = (["c", "a", "b"], ["y"])


def wide_histories(tier):
    """three conditioning variables: factors over some of them, observations of others"""
    X, Y = WIDE
    ops = [(f"multiply by a factor over {vs}", "multiply", vs) for vs in (["c", "a"], ["b", "a"], ["b"], X[::-1], Y)]
    ops += [(f"observe {vs}", "reduce", vs) for vs in (["c"], ["a"], ["b", "c"], ["b", "a", "c"])] + [("undo", "undo", None), ("copy", "copy", None)]
    n = 0
    for k in (1, 2, 3):
        for hs in iprod(ops, repeat=k):
            n += 1
            if k < 3 or tier == "thorough" or n % 4 == 0:
                yield X, Y, list(hs)


def wide_share(k, n):
    def run_share(it, R):
        w = NW(it)
        for i, (X, Y, hs) in enumerate(wide_histories(R.tier)):
            if i % n == k:
                one_history(it, R, w, X, Y, hs)
    run_share.__name__ = run_share.__qualname__ = f"nlg_wide_{k}"
    return obligation("V26")(run_share)


WIDE_SHARES = [wide_share(k, 3) for k in range(3)]


@obligation("V26", "V01", "V02")
def nlg_divide_nothing(it, R):
    """dividing by something over a side that absorbed nothing: refused, or the quotient is remembered"""
    w = NW(it)
    for X, Y in SHAPES:
        for nm in ((None, None), ("g", None), (None, "h")):
            for side, vs in (("C", X), ("C", X[:1]), ("U", Y), ("U", Y[-1:])):
                if nm["CU".index(side)] is not None:
                    continue

                def thunk(it):
                    x, st = live(it, w, "self", nm, X, Y)
                    v = alg.f("q", vs)
                    return meth(it, x, "divide", mark(w.al.make(v, list(vs)), "factor")), st.but(**{side: (alg.div(alg.ONE, v), list(vs))})

                def ver(o):
                    check_state(it, R, o, "NonLinearGaussian.divide: nothing absorbed before", *o.value)
                explore(it, R, f"NonLinearGaussian.divide ({X} -> {Y}, absorbed {nm}) by a factor over {vs}", thunk, ver, P, may_raise=True)


def live(it, w, ext=None, names=("g", "h"), X=("a",), Y=("c",), lw="w"):
    """a conditional that absorbed something on both sides"""
    X, Y = list(X), list(Y)
    x, st = w.make(X, Y, lw=T("logs", alg.f(lw, ())))
    for n, vs in zip(names, (X, Y)):
        if n is not None:
            v = alg.f(n, vs)
            x, st = meth(it, x, "multiply", w.al.make(v, vs)), st.absorb(v, vs, alg.mul)
    if ext:
        mark(x, ext)
    return x, st


@obligation("V13", "V26", "V01", "V02")
def nlg_copy_then(it, R):
    """a copy behaves as the original in everything that is done with it afterwards"""
    w = NW(it)
    P3 = ("V13", "V26")
    for X, Y in SHAPES:
        for nm in ((None, None), ("g", None), (None, "h"), ("g", "h")):
            for ob in ([], X[:1], Y[:1], X, X[::-1] + Y[:1]):
                for then in ((), ("X",), ("Y",), ("X", "Y"), ("ob",)):
                    what = f"NonLinearGaussian.copy ({X} -> {Y}, absorbed {nm}, observed {ob}, then {then})"
                    if ob and "ob" in then or len(ob) > 1 and "X" in then and not set(X) - set(ob) or ob == X and len(X) == 1:
                        continue

                    def thunk(it):
                        x, st = live(it, w, "self", nm, X, Y)
                        if ob:
                            vals = [evsym(v) for v in ob]
                            x, st = meth(it, x, "reduce", pylist(list(ob)), pylist(vals)), st.but(E=dict(zip(ob, vals)))
                        y = meth(it, x, "copy")
                        c = y
                        for i, t in enumerate(then):
                            if t == "ob":
                                v = evsym(X[0], 1)
                                y, st = meth(it, y, "reduce", pylist([X[0]]), pylist([v])), st.but(E={X[0]: v})
                                continue
                            vs = list(X if t == "X" else Y)
                            vs = [v for v in vs if v not in st.E] or vs
                            f = alg.f("l" + str(i), vs)
                            y, st = meth(it, y, "multiply", w.al.make(f, vs)), st.absorb(f, vs, alg.mul)
                        return x, c, y, st

                    def ver(o):
                        x, c, y, st = o.value
                        j = it.getattr(y, "joint_distribution")
                        check_val(R, it, o, P3, "NonLinearGaussian.copy: used afterwards", j, st.joint(), st.names())
                        for v in st.names():
                            want = st.marginal([v])
                            if want is not None:
                                check_val(R, it, o, P3, "NonLinearGaussian.copy: marginal afterwards", meth(it, y, "marginalize", pylist([v])), want, [v])
                    explore(it, R, what, thunk, ver, P3)


def nlgs_of(it, o):
    if not isinstance(o, Inst):
        raise Bail(f"result is {o!r}")
    if "nlgs" not in o.fields:
        raise Bail("components unknown")
    ps = names_of(it, o.fields["nlgs"])
    if ps is None:
        raise Bail("components unknown")
    return ps


def mix_val(it, o):
    """what a (mixture of) Gaussian(s) denotes, and its components' scopes"""
    from .mixture import comps_of
    cs = comps_of(it, o)
    return alg.add(*[c.fields["val"] for c in cs]), [need(it, c.fields["_var_names"], "variables") for c in cs]


def check_mixture(R, it, props, what, got, want, names):
    if isinstance(got, Top):
        return R.verdict(props, what, *top_verdict(got))
    if not isinstance(got, Inst):
        return R.verdict(props, what, NE, f"result is {got!r}")
    val, scopes = mix_val(it, got)
    ok, how = alg.same(val, want)
    R.verdict(props, what, EQ if ok else NE, f"{R.cur}: {how}")
    R.verdict(props + ("V14",), what + ": scope", EQ if all(sorted(s) == sorted(names) for s in scopes) else NE, f"{R.cur}: over {scopes} instead of {sorted(names)}")


def check_nlgm(R, it, o, what, got, states, names, split=None):
    """got is the mixture of conditionals in the given states"""
    if isinstance(got, Top):
        return R.verdict(P, what, *top_verdict(got))
    if not isinstance(got, Inst):
        return R.verdict(P, what, NE, f"result is {got!r}")
    ps = nlgs_of(it, got)
    ns = names_of(it, it.getattr(got, "var_names"))
    R.verdict(P + ("V14",), what + ": scope", UNK if ns is None else EQ if sorted(ns) == sorted(names) else NE, f"{R.cur}: over {ns} instead of {sorted(names)}")
    R.verdict(P, what + ": number of components", EQ if len(ps) == len(states) else NE, f"{R.cur}: {len(ps)} components instead of {len(states)}")
    check_mixture(R, it, P, what + ": joint", it.getattr(got, "joint_distribution"), alg.add(*[s.joint() for s in states]), names)
    if split is not None:
        sp = it.getattr(got, "split_singles_before_absorb")
        R.verdict(P + ("V13",), what + ": options", EQ if sp is split else NE, f"split_singles_before_absorb is {sp!r} instead of {split}")


@obligation("V26", "V01", "V02", "V13", "V14", "V12")
def nlg_operations(it, R):
    w = NW(it)
    rt, at = leaf("tol", "rtol"), leaf("tol", "atol")
    for X, Y in SHAPES:
        for nm in (("g", "h"), ("g", None), (None, "h"), (None, None)):
            what = f"NonLinearGaussian.normalize ({X} -> {Y}, absorbed {nm})"
            if nm[0] is not None:
                def ver(o):
                    x, st, r = o.value
                    check_val(R, it, o, P, "NonLinearGaussian.normalize", r, alg.norm(st.joint()), st.names())
                    common(R, it, o, "NonLinearGaussian.normalize", r)
                explore(it, R, what, lambda it: (lambda x, st: (x, st, meth(it, x, "normalize")))(*live(it, w, None, nm, X, Y)), ver, P)

            what = f"NonLinearGaussian.add_log_weight ({X} -> {Y}, absorbed {nm})"

            def thunk(it):
                x, st = live(it, w, None, nm, X, Y)
                y = meth(it, x, "copy")
                getters(it, x)
                meth(it, x, "add_log_weight", T("logs", alg.f("v", ())))
                return x, st.but(lw=alg.mul(st.lw, alg.f("v", ()))), y, st

            def ver(o):
                x, st, y, s0 = o.value
                check_state(it, R, o, "NonLinearGaussian.add_log_weight", x, st)
                check_getters(it, R, w, "NonLinearGaussian: after add_log_weight", getters(it, x, True), st.joint(), st.names())
                check_val(R, it, o, ("V02", "V26"), "NonLinearGaussian.copy: unaffected by the original", it.getattr(y, "joint_distribution"), s0.joint(), s0.names())
                for v in st.names():
                    want = st.marginal([v])
                    if want is not None:
                        check_val(R, it, o, P, "NonLinearGaussian.add_log_weight: marginal", meth(it, x, "marginalize", pylist([v])), want, [v])
            explore(it, R, what, thunk, ver, P)
        for e1, e2 in (((), ()), ((0,), (0,)), ((0,), ()), ((1,), (1,))):
            what = f"NonLinearGaussian.equals ({X} -> {Y}, observed {e1} and {e2})"

            def thunk(it):
                out = []
                for n, e in (("g", e1), ("k", e2)):
                    x, st = live(it, w, None, (n, "h"), X, Y)
                    vs = [(X + Y)[::-1 if i else 1][0] for i in e]
                    if vs:
                        xs = [evsym(v) for v in vs]
                        x, st = meth(it, x, "reduce", pylist(vs), pylist(xs)), st.but(E=dict(zip(vs, xs)))
                    out += [x, st]
                x, st, y, s2 = out
                mark(x, "self")
                mark(y, "factor")
                return st, s2, it.truth(meth(it, x, "equals", y, rtol=rt, atol=at))

            def ver(o):
                st, s2, r = o.value
                fs = [f for f in facts_of(o.facts, "feq")]
                for c, b in fs:
                    R.verdict(P + ("V12",), "NonLinearGaussian.equals: tolerances", EQ if c.args[2:] == (keyof(rt), keyof(at)) else NE, f"{what}: {c.args[2:]}")
                want = {st.joint(), s2.joint()}
                if sorted(st.names()) != sorted(s2.names()):
                    R.verdict(P + ("V12",), "NonLinearGaussian.equals: other variables", EQ if r is False else NE, f"{what}: {r}")
                elif not fs:
                    R.verdict(P + ("V12",), "NonLinearGaussian.equals: compares the joints", NE, f"{what}: answered {r} without comparing")
                else:
                    ok = any(all(any(alg.same(q, z)[0] for z in want) for q in c.args[:2]) for c, b in fs)
                    R.verdict(P + ("V12",), "NonLinearGaussian.equals: compares the joints", EQ if ok else NE, f"{what}: compared something else")
                    R.verdict(P + ("V12",), "NonLinearGaussian.equals: answer", EQ if any(b is r for c, b in fs) else NE, f"{what}: {r} although {fs}")
            explore(it, R, what, thunk, ver, P + ("V12",))
        for sc in (X, Y, Y[:1]):
            for n in (1, 2):
                for nm in (("g", "h"), (None, "h"), ("g", None)):
                    what = f"NonLinearGaussian.multiply ({X} -> {Y}, absorbed {nm}, by {n} components over {sc})"

                    def thunk(it):
                        x, st = live(it, w, "self", nm, X, Y)
                        gv = [alg.f(f"q{i}", sc) for i in range(n)]
                        gm = mark(new(it, cls(it, GMM, "GaussianMixture"), pylist([w.al.make(v, list(sc)) for v in gv])), "factor")
                        return [st.absorb(v, sc, alg.mul) for v in gv], meth(it, x, "multiply", gm)

                    def ver(o):
                        sts, r = o.value
                        check_nlgm(R, it, o, "NonLinearGaussian.multiply by a mixture", r, sts, X + Y)
                        common(R, it, o, "NonLinearGaussian.multiply by a mixture", r)
                    explore(it, R, what, thunk, ver, P)


@obligation("V26", "V01", "V02", "V03", "V13", "V14", "V12", "V15")
def nlg_mixtures(it, R):
    w = NW(it)
    C = lambda it: cls(it, NLM, "NonLinearGaussianMixture")
    X, Y = ["a"], ["c"]

    def mm_val(vals, v):
        return vals[0] if len(vals) == 1 else ("on", "momentmatch", frozenset(v), tuple(vals))

    def moment_match(it, a, kw):
        vals = [p.fields["val"] for p in names_of(it, it.getattr(a[0], "components"))]
        if alg.ONE in vals:
            it.throw("Exception", "cannot update covariance form for vacuous Gaussian.")
        vs = names_of(it, it.getattr(a[0], "var_names"))
        return w.al.make(mm_val(vals, vs), vs)

    def parts(it, n, nm=("g", "h")):
        out = [live(it, w, None, tuple(q and f"{q}{i}" for q in nm), X, Y, lw=f"w{i}") for i in range(n)]
        return [x for x, _ in out], [s for _, s in out]
    for n in (1, 2, 3):
        for split in (True, False):
            def go(op, f, opname=None, nm=("g", "h"), n=n, split=split):
                """f(it, x, states) -> (result, check)"""
                what = f"NonLinearGaussianMixture.{op} ({n} components, split {split}, absorbed {nm})"

                def thunk(it):
                    xs, sts = parts(it, n, nm)
                    for i, q in enumerate(xs):
                        mark(q, f"factors[{i}]")
                    x = new(it, C(it), mark(pylist(xs), "factors"), split_singles_before_absorb=split)
                    sh = shared(x)
                    mark(x, "self")
                    r, chk = f(it, x, sts)
                    return x, sts, r, chk, sh

                def ver(o):
                    x, sts, r, chk, sh = o.value
                    nme = f"NonLinearGaussianMixture.{opname or op}"
                    R.verdict(("V03",), "NonLinearGaussianMixture.__init__: private copies", NE if sh else EQ, f"{sh[:1]}")
                    common(R, it, o, nme, r)
                    chk(o, nme, r)
                    check_mixture(R, it, ("V01", "V26"), nme + ": operand afterwards", it.getattr(x, "joint_distribution"), alg.add(*[s.joint() for s in sts]), X + Y)
                explore(it, R, what, thunk, ver, P)

            def mixture(names):
                return lambda states: lambda o, nme, r: check_nlgm(R, it, o, nme, r, states, names, split)
            go("__init__", lambda it, x, sts: (None, lambda o, nme, r: check_nlgm(R, it, o, nme, x, sts, X + Y, split)))
            go("copy", lambda it, x, sts: (meth(it, x, "copy"), mixture(X + Y)(sts)))
            for v in ("a", "c"):
                e = evsym(v)
                go(f"reduce({v})", lambda it, x, sts: (meth(it, x, "reduce", mark(pylist([v]), "vrs"), mark(pylist([e]), "values")),
                                                       mixture([q for q in "ac" if q != v])([s.but(E={v: e}) for s in sts])), "reduce")
                for keep in (True, False):
                    rest = [v] if keep else [q for q in "ac" if q != v]
                    go(f"marginalize({v}, {keep})", lambda it, x, sts: (meth(it, x, "marginalize", pylist([v]), keep),
                       lambda o, nme, r: check_mixture(R, it, P, nme, r, alg.add(*[s.marginal(rest) for s in sts]), rest)), "marginalize")
                for k in (0, 1, 2):
                    def mult(it, x, sts):
                        gv = [alg.f(f"q{i}", v) for i in range(k or 1)]
                        if k:
                            y = new(it, cls(it, GMM, "GaussianMixture"), pylist([w.al.make(q, [v]) for q in gv]))
                        else:
                            y = w.al.make(gv[0], [v])
                        if split and len(gv) == 1:
                            gv = w.split_vals(gv[0])
                        return meth(it, x, "multiply", mark(y, "factor")), mixture(X + Y)([s.absorb(q, [v], alg.mul) for q in gv for s in sts])
                    go(f"multiply({v}, {k} components)", mult, "multiply")
                    go(f"absorb({v}, {k} components)", mult, "multiply", (None, "h"))

                    def div(it, x, sts):
                        gv = [alg.f(f"q{i}", v) for i in range(k or 1)]
                        gm = cls(it, GMM, "GaussianMixture")
                        mark(x, "self")
                        if k > 0:
                            y = new(it, gm, pylist([w.al.make(q, [v]) for q in gv]))
                            if "moment_match_to_single_gaussian" not in gm.attrs:
                                raise Bail("moment matching renamed")
                            q = mm_val(gv, v)
                            old = gm.attrs["moment_match_to_single_gaussian"]
                            gm.attrs["moment_match_to_single_gaussian"] = method(moment_match, "mm")
                            try:
                                return meth(it, x, "divide", mark(y, "factor")), mixture(X + Y)([s.absorb(q, [v], alg.div) for s in sts])
                            finally:
                                gm.attrs["moment_match_to_single_gaussian"] = old
                        y = w.al.make(gv[0], [v])
                        return meth(it, x, "divide", mark(y, "factor")), mixture(X + Y)([s.absorb(gv[0], [v], alg.div) for s in sts])
                    go(f"divide({v}, {k} components)", div, "divide")
                for op in ("multiply", "divide", "absorb"):
                    for mix in (False, True):
                        for nm in (("g", "h"), (None, "h"), ("g", None)):
                            def vac(it, x, sts):
                                y = w.al.make(alg.ONE, [v])
                                if mix:
                                    y = new(it, cls(it, GMM, "GaussianMixture"), pylist([y]))
                                gm = cls(it, GMM, "GaussianMixture")
                                old = gm.attrs.get("moment_match_to_single_gaussian")
                                if old is None:
                                    raise Bail("moment matching renamed")
                                gm.attrs["moment_match_to_single_gaussian"] = method(moment_match, "mm")
                                try:
                                    return meth(it, x, "divide" if op == "divide" else "multiply", mark(y, "factor")), mixture(X + Y)(sts)
                                finally:
                                    gm.attrs["moment_match_to_single_gaussian"] = old
                            go(f"{op}({v}, vacuous{' mixture' if mix else ''})", vac, "divide" if op == "divide" else "multiply", nm)
    from .messages import expect_error
    for bad, what in ((lambda it: [], "no components"), (lambda it: [live(it, w)[0], live(it, w, None, ("g", "h"), ["a"], ["d"])[0]], "other variables"),
                      (lambda it: [live(it, w)[0], live(it, w, None, ("g", "h"), ["a", "b"], ["c"])[0]], "more variables"),
                      (lambda it: [live(it, w)[0], w.al.make(alg.f("g", "ac"), ["a", "c"])], "a plain Gaussian")):
        expect_error(it, R, ("V15",), f"NonLinearGaussianMixture.__init__ ({what})", lambda it: new(it, C(it), pylist(bad(it))))
