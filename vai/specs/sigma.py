"""Sigma points: the point set and the Gaussian parameters computed from it, on arrays of symbolic entries."""
from ..absfac import *
from .messages import cls, new, pylist, explore
from .. import ndsym as S
import numpy as np

SGM = "veroku.factors._sigma_points"
P = ("V28",)


def func(it, mod, name):
    m = it.module(mod)
    f = m.env.get(name) if m is not None else None
    if f is None:
        raise Anchor(f"{mod}.{name} not found")
    return f


def mat(name, n, m):
    return np.array([[S.sym(name, i, j) for j in range(m)] for i in range(n)] + [None], dtype=object)[:-1].reshape(n, m) if n * m else np.zeros((n, m), object)


def obj(rows):
    a = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return a


def gen(name, n, m):
    return obj([[S.sym(name, i, j) for j in range(m)] for i in range(n)])


def lower(name, n):
    return obj([[S.sym(name, i, j) if j <= i else S.poly(0) for j in range(n)] for i in range(n)])


def same_nd(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return a.shape == b.shape and all(S.same(x, y) for x, y in zip(a.ravel(), b.ravel()))


def check_nd(R, props, what, got, want, scalar_ok=False):
    if isinstance(got, Top):
        return R.verdict(props, what, *top_verdict(got))
    if isinstance(got, (S.Poly, int, float)):
        got = S.ND(np.array([[got]], dtype=object)) if not isinstance(got, S.Poly) else S.ND(obj([[got]]))
    if not isinstance(got, S.ND):
        return R.verdict(props, what, UNK, f"{got!r}")
    g = got.arr
    if g.size == want.size == 1:
        g = g.reshape(want.shape)
    if g.shape != want.shape:
        return R.verdict(props, what, NE, f"shape {g.shape} instead of {want.shape}")
    for i in np.ndindex(*want.shape):
        if not S.same(g[i], want[i]):
            return R.verdict(props, what, NE, f"entry {i} is {g[i]!r} instead of {want[i]!r}")
    return R.verdict(props, what, EQ)


def chol_of(table):
    """np.linalg.cholesky for covariance matrices with a known factor"""
    def f(c):
        for cov, low in table:
            if same_nd(c, cov):
                return low.copy()
        raise S.Unknown(Top("Cholesky factor of an unknown matrix"))
    return f


class GObj:
    """a Gaussian with given (symbolic) covariance parameters: a subclass of the real class with plain accessors"""

    def __init__(self, it, names, cov, mean):
        m = it.module("veroku.factors.gaussian")
        base = m.env.get("Gaussian") if m else None
        if not isinstance(base, ClsV):
            raise Anchor("Gaussian")
        self.c = ClsV("SymbolicGaussian", m, None, [base])
        self.c.attrs["get_cov"] = method(lambda it, a, k: S.ND(cov.copy()), "get_cov")
        self.c.attrs["get_mean"] = method(lambda it, a, k: S.ND(mean.copy()), "get_mean")
        self.c.attrs["_update_covform"] = method(lambda it, a, k: None, "_update_covform")
        self.o = Inst(self.c)
        self.o.fields = {"_var_names": pylist(names), "_dim": len(names), "cov": S.ND(cov.copy()), "mean": S.ND(mean.copy()),
                         "covform": True, "log_weight": 0.0}
        mark(self.o, "gaussian_factor")


def moments(x):
    return S.mm(x - S.mean(x, 1)[:, None], (x - S.mean(x, 1)[:, None]).T) * S.Fraction(1, x.shape[1]), S.mean(x, 1)[:, None]


def own(R, o, what):
    ms = o.mutations
    R.verdict("V01", f"{what}: operands unchanged", NE if ms else EQ, f"{ms[0][0]} is modified at {ms[0][5]}" if ms else "")


def pair_of(it, v):
    ps = names_of(it, v) if isinstance(v, (Tup, LObj)) else None
    return ps if ps is not None and len(ps) == 2 else None


def check_params(R, it, what, v, cov, mean):
    if isinstance(v, Top):
        return R.verdict(P, what, *top_verdict(v))
    p = pair_of(it, v)
    if p is None:
        return R.verdict(P, what, NE, f"result {v!r}")
    check_nd(R, P, what + ": covariance", p[0], cov)
    check_nd(R, P, what + ": mean", p[1], mean)


@obligation("V28", "V01")
def sigma_points(it, R):
    for d in (1, 2, 3, 4) + ((5, 6) if R.tier == "thorough" else ()):
        L, m = lower("L", d), gen("m", d, 1)
        cov = S.mm(L, L.T)
        S.install(it, linalg__cholesky=chol_of([(cov, L)]))
        names = [f"v{i}" for i in range(d)]
        what = f"get_sigma_points_array ({d} variables)"

        def ver(o):
            v = o.value
            if isinstance(v, Top):
                return R.verdict(P, what, *top_verdict(v))
            if not isinstance(v, S.ND) or v.arr.ndim != 2 or v.arr.shape[0] != d:
                return R.verdict(P, what, NE, f"result {v!r} has not one row per variable")
            c, mu = moments(v.arr)
            check_nd(R, P, "get_sigma_points_array: mean of the points", S.ND(mu), m)
            check_nd(R, P, "get_sigma_points_array: covariance of the points", S.ND(c), cov)
            own(R, o, "get_sigma_points_array")
        explore(it, R, what, lambda it: it.call(func(it, SGM, "get_sigma_points_array"), [GObj(it, names, cov, m).o], {}), ver, P)


@obligation("V28", "V01")
def sigma_params(it, R):
    S.install(it)
    for d, n in ((1, 3), (2, 5), (3, 7), (2, 4), (1, 1)):
        X = gen("x", d, n)
        cov, mean = moments(X)
        what = "sigma_point_array_to_gaussian_params"

        def ver(o, what=what):
            check_params(R, it, what, o.value, cov, mean)
            own(R, o, what)
        explore(it, R, f"{what} ({d} x {n})", lambda it: it.call(func(it, SGM, what), [mark(S.ND(X.copy()), "points")], {}), ver, P)
        w2 = "sigma_points_to_gaussian_params"

        def ver2(o):
            check_params(R, it, w2, o.value, cov, mean)
            own(R, o, w2)
        explore(it, R, f"{w2} ({d} x {n})", lambda it: it.call(
            func(it, SGM, w2), [mark(pylist([S.ND(X[:, i:i + 1].copy()) for i in range(n)]), "points")], {}), ver2, P)


@obligation("V28", "V01")
def sigma_joint(it, R):
    """points and their images are stacked; for a linear function the joint is the exact one"""
    w = "sigma_points_array_to_joint_params"
    for d, e in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
        names = [f"v{i}" for i in range(d)]
        X = gen("x", d, 4)
        S.install(it)
        calls = []

        def image(x, vs):
            return obj([[S.sym("f", i, tuple(sorted((v, S.poly(x[k, j]).key()) for k, v in enumerate(vs)))) for j in range(x.shape[1])]
                        for i in range(e)])

        def transform(it, a, k):
            vs = names_of(it, a[1] if len(a) > 1 else k.get("var_names"))
            if vs is None or not isinstance(a[0], S.ND):
                raise Bail("arguments of the transform")
            return S.ND(image(a[0].arr, vs))
        full = np.concatenate([X, image(X, names)], axis=0)
        cov, mean = moments(full)

        def ver(o):
            check_params(R, it, w, o.value, cov, mean)
            own(R, o, w)
        explore(it, R, f"{w} ({d} to {e})", lambda it: it.call(func(it, SGM, w), [mark(S.ND(X.copy()), "points"), PyFn(transform, "transform")],
                {"var_names": mark(pylist(names), "var_names")}), ver, P)
        # end to end with a linear function
        L, m, A = lower("L", d), gen("m", d, 1), gen("a", e, d)
        C = S.mm(L, L.T)
        S.install(it, linalg__cholesky=chol_of([(C, L)]))
        wantc = np.block([[C, S.mm(C, A.T)], [S.mm(A, C), S.mm(S.mm(A, C), A.T)]])
        wantm = np.concatenate([m, S.mm(A, m)], axis=0)

        def lin(it, a, k):
            return S.ND(S.mm(A, a[0].arr)) if isinstance(a[0], S.ND) else Top("transform of unknown points")

        def thunk(it):
            pts = it.call(func(it, SGM, "get_sigma_points_array"), [GObj(it, names, C, m).o], {})
            return it.call(func(it, SGM, w), [pts, PyFn(lin, "transform")], {"var_names": pylist(names)})
        explore(it, R, f"joint of a linear function ({d} to {e})", thunk,
                lambda o: check_params(R, it, "joint of a linear function", o.value, wantc, wantm), P)
