"""Finite scopes: factors over a few named variables whose parameters are symbols (vai/ndsym.py).

Results are terms over the symbols. Operations without a closed form (inverse, determinant, log, exp) become interned symbols;
two terms are compared in random interpretations of the symbols, and conditions on numbers are decided in generic position
(all interpretations agree) or split the path, whose facts then select the interpretations it stands for."""
import math
import itertools
import numpy as np
from fractions import Fraction
from .absfac import *
from . import ndsym as S


class At:
    """interned symbol"""
    __slots__ = ("kind", "key", "rest", "id")

    def __init__(self, kind, key, rest, n):
        self.kind, self.key, self.rest, self.id = kind, key, rest, n

    def __repr__(self):
        return f"@{self.id}"


TABLE = {}


def intern(kind, key, *rest):
    if kind == "poly":
        k = (kind, key)
    else:
        k = (kind, key) + rest
    a = TABLE.get(k)
    if a is None:
        a = TABLE[k] = At(kind, key, rest, len(TABLE))
    return a


class Unset(Exception):
    pass


def constant(n):
    """value of a number built from pi"""
    t = 0.0
    for (m, w), k in n.t.items():
        x = float(k)
        for s, e in m:
            if w or not (isinstance(s, T) and s.op == "scal" and s.args[-1] == "pi"):
                raise Unset(repr(n)[:60])
            x *= math.pi ** float(e)
        t += x
    return t


class Env:
    """an interpretation: numbers for the symbols"""

    def __init__(self, values):
        self.v = values
        self.memo = {}

    def sym(self, a):
        if isinstance(a, At):
            x = self.memo.get(a.id)
            if x is None:
                x = self.memo[a.id] = self.atom(a)
            return x
        if a not in self.v:
            if a[0] == "number":
                return constant(a[1])
            raise Unset(str(a))
        return self.v[a]

    def key(self, k):
        t = 0.0
        for m, c in k:
            x = float(c)
            for s, e in m:
                x = x * self.sym(s) ** e
            t = t + x
        return t

    def mat(self, k):
        n = int(round(len(k) ** 0.5))
        return np.array([self.key(x) for x in k], dtype=float).reshape(n, n)

    def atom(self, a):
        k = a.kind
        if k == "poly":
            return self.num(a.rest[0])
        if k == "inverse":
            i = ("invmat", a.key)
            m = self.memo.get(i)
            if m is None:
                m = self.memo[i] = np.linalg.inv(self.mat(a.key))
            return float(m[a.rest[0]])
        if k == "chol":
            i = ("cholmat", a.key)
            m = self.memo.get(i)
            if m is None:
                try:
                    m = self.memo[i] = np.linalg.cholesky(self.mat(a.key))
                except np.linalg.LinAlgError:
                    raise Unset("Cholesky factor")
            return float(m[a.rest[0]])
        if k == "det":
            return float(np.linalg.det(self.mat(a.key)))
        if k in ("max", "min"):
            return (max if k == "max" else min)(self.key(x) for x in a.key)
        x = self.key(a.key)
        if k == "inv":
            return 1.0 / x
        if k == "abs":
            return abs(x)
        if k == "sqrt":
            return math.sqrt(x) if x >= 0 else float("nan")
        if k == "log":
            return math.log(x) if x > 0 else float("nan") if x < 0 else -math.inf
        if k == "exp":
            return math.exp(min(x, 700.0))
        if ":" in str(k):
            how, d = k.split(":")
            return to_digits(how, x, int(d))
        raise Unset(k)

    def num(self, p):
        if isinstance(p, S.Poly):
            t = 0.0
            for m, c in p.t.items():
                x = float(c)
                for s, e in m:
                    x = x * self.sym(s) ** e
                t = t + x
            return t
        if isinstance(p, (bool, np.bool_)):
            return float(p)
        if isinstance(p, (int, float, Fraction, np.number)):
            return float(p)
        if isinstance(p, N):
            return constant(p)
        raise Unset(repr(p)[:80])

    def arr(self, x):
        x = np.asarray(x.arr if isinstance(x, S.ND) else x, dtype=object)
        return np.array([self.num(v) for v in x.ravel()], dtype=float).reshape(x.shape)


ENVS = []
PRED = {}


def unanimous(f):
    """truth in all interpretations, or None"""
    r = set()
    for e in ENVS:
        try:
            r.add(bool(f(e)))
        except (Unset, np.linalg.LinAlgError, OverflowError, ZeroDivisionError):
            return None
    return r.pop() if len(r) == 1 else None


def decide(key, f):
    r = unanimous(f)
    if r is not None:
        return r
    PRED[key] = f
    return T("cond", "pred", key)


def equal(x, y):
    """equality of two entries; the same value in all interpretations is taken as equality"""
    if all(isinstance(v, (S.Poly, int, float, np.number)) for v in (x, y)):
        return unanimous(lambda e: (lambda p, q: p == q or abs(p) + abs(q) < math.inf and abs(p - q) <= 1e-12 * (abs(p) + abs(q)))(e.num(x), e.num(y)))
    return x == y


def nonzero(e, p):
    """is a number other than zero, up to rounding? (a sum that cancels is zero)"""
    t = big = 0.0
    for m, c in p.t.items():
        x = float(c)
        for s, k in m:
            x = x * e.sym(s) ** k
        t, big = t + x, max(big, abs(x))
    return abs(t) > 1e-11 * big


def kr(x):
    return x.key() if isinstance(x, S.Poly) else repr(x)


def holds(facts, e):
    """do the path conditions hold in the interpretation? None: not known"""
    unk = False
    for c, b in facts:
        while isinstance(c, T) and c.op in ("truth", "not") and len(c.args) == 1:
            c, b = c.args[0], b if c.op == "truth" else not b
        if isinstance(c, T) and c.op == "cond" and c.args[0] == "pred":
            try:
                if bool(PRED[c.args[1]](e)) != b:
                    return False
            except (Unset, np.linalg.LinAlgError, OverflowError, ZeroDivisionError):
                unk = True
        else:
            unk = True
    return None if unk else True


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if b is not None or return_sign:
        raise S.Unknown(Top("logsumexp options"))
    x = np.asarray(a, dtype=object)
    if x.ndim == 0:
        return x.item()
    if axis is None:
        axis = tuple(range(x.ndim))
    if isinstance(axis, (list, tuple)):
        ax = tuple(int(i) % x.ndim for i in axis)
    else:
        ax = (int(axis) % x.ndim,)
    rest = [i for i in range(x.ndim) if i not in ax]
    y = x.transpose(rest + list(ax)).reshape([x.shape[i] for i in rest] + [-1])
    out = np.empty(y.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = LOG(sum((EXP(v) for v in y[i]), S.poly(0)))
    if keepdims:
        out = out.reshape([1 if i in ax else x.shape[i] for i in range(x.ndim)])
    return out if out.ndim else out.item()


EXP, LOG = S.elementwise("exp", math.exp), S.elementwise("log", math.log)


def rounded(how):
    """rounding to a number of digits, or to an integer"""
    def f(x, decimals=0, **k):
        d = 0 if decimals is None else decimals
        if not isinstance(d, int) or k:
            raise S.Unknown(Top("rounding"))
        return S.elementwise(f"{how}:{d}", lambda v: to_digits(how, v, d))(x)
    return f


def to_digits(how, v, d):
    if how == "round":
        return float(round(v, d))
    return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[how](v * 10.0 ** d) / 10.0 ** d


def det(x):
    x = S.square(x)
    if x.shape[0] <= 1:
        return S.det(x)
    c = [S.poly(v).const() for v in x.ravel()]
    if all(v is not None for v in c):
        return float(np.linalg.det(np.array([float(v) for v in c]).reshape(x.shape)))
    return S.Poly({((intern("det", tuple(S.poly(v).key() for v in x.ravel())), 1),): Fraction(1)})


def inv(x):
    x = S.square(x)
    c = [S.poly(v).const() for v in x.ravel()]
    if all(v is not None for v in c):
        try:
            return np.linalg.inv(np.array([float(v) for v in c]).reshape(x.shape)).astype(object)
        except np.linalg.LinAlgError:
            raise np.linalg.LinAlgError("Singular matrix")
    return S.inv(x)


def cholesky(x):
    """the lower Cholesky factor (matrices are taken to be positive definite)"""
    x = S.square(x)
    k = tuple(S.poly(v).key() for v in x.ravel())
    out = np.full(x.shape, S.poly(0), dtype=object)
    for i in np.ndindex(*x.shape):
        if i[1] <= i[0]:
            out[i] = S.Poly({((intern("chol", k, i), 1),): Fraction(1)})
    return out


ABS = S.elementwise("abs", abs)


def slogdet(x):
    d = det(x)
    c = S.poly(d).const()
    if c is not None:
        return (float(np.sign(c)), math.log(abs(c)) if c else -math.inf)
    return (sign(d), LOG(d))


def sign(x):
    r = {float(np.sign(e.num(x))) for e in ENVS}
    if len(r) != 1:
        raise S.Unknown(Top("sign"))
    return r.pop()


def solve(a, b):
    return S.mm(inv(a), b)


def logaddexp(a, b):
    return LOG(EXP(a) + EXP(b))


def eigvals(x):
    x = S.square(x)
    c = [S.poly(v).const() for v in x.ravel()]
    if all(v is not None for v in c):
        r = np.linalg.eigvals(np.array([float(v) for v in c]).reshape(x.shape))
        return np.array([float(v.real) for v in r] + [None], dtype=object)[:-1]
    raise S.Unknown(Top("eigenvalues"))


def isnan(x):
    f = lambda v: isinstance(v, (float, np.floating)) and v != v
    if isinstance(x, np.ndarray):
        return np.array([f(v) for v in x.ravel()] + [None], dtype=object)[:-1].reshape(x.shape)
    return f(x)


def where(c, *ab):
    if not ab:
        raise S.Unknown(Top("np.where without values"))
    a, b = ab
    for x in np.asarray(c, dtype=object).ravel():
        if not isinstance(x, (bool, np.bool_)):
            raise S.Unknown(Top("np.where with an unknown condition"))
    c = np.asarray(c, dtype=bool)
    wrap = lambda x: x if isinstance(x, np.ndarray) else S.box(x)
    c, a, b = np.broadcast_arrays(c, wrap(a), wrap(b))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        out[i] = a[i] if c[i] else b[i]
    return out


def plain_all(f):
    def g(x, axis=None):
        x = np.asarray(x, dtype=object)
        if axis is not None or any(not isinstance(v, (bool, np.bool_, int, float)) for v in x.ravel()):
            raise S.Unknown(Top("np.all of unknown conditions"))
        return bool(f(bool(v) for v in x.ravel()))
    return g


def isinf(x):
    f = lambda v: isinstance(v, (float, np.floating)) and abs(v) == math.inf
    if isinstance(x, np.ndarray):
        return np.array([f(v) for v in x.ravel()] + [None], dtype=object)[:-1].reshape(x.shape)
    return f(x)


np.seterr(all="ignore")


def extreme(which, vs):
    """the largest (smallest) of some numbers"""
    far = -math.inf if which == "max" else math.inf
    ps = {}
    for v in vs:
        if isinstance(v, (float, np.floating)) and abs(v) == math.inf:
            if v == -far:
                return v
            continue
        if not isinstance(v, (S.Poly, int, float, Fraction, np.number)) or v != v:
            raise S.Unknown(Top(which))
        p = S.poly(v)
        ps[p.key()] = p
    if len(ps) < 2:
        return next(iter(ps.values()), far)
    c = [p.const() for p in ps.values()]
    if all(x is not None for x in c):
        return float((max if which == "max" else min)(c))
    return S.Poly({((intern(which, tuple(sorted(ps, key=repr))), 1),): Fraction(1)})


def extremes(which):
    def f(x, axis=None, keepdims=False, **k):
        if k:
            raise S.Unknown(Top(which + " with options"))
        x = np.asarray(x, dtype=object)
        ax = tuple(range(x.ndim)) if axis is None else tuple(int(i) % x.ndim for i in (axis if isinstance(axis, (list, tuple)) else (axis,)))
        if not x.size:
            raise ValueError("zero-size array to reduction operation")
        rest = [i for i in range(x.ndim) if i not in ax]
        y = x.transpose(rest + list(ax)).reshape([x.shape[i] for i in rest] + [-1])
        out = np.empty(y.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = extreme(which, list(y[i]))
        if keepdims:
            out = out.reshape([1 if i in ax else x.shape[i] for i in range(x.ndim)])
        return out if out.ndim else out.item()
    return f


def pairwise(which):
    def f(a, b):
        a, b = np.broadcast_arrays(*[x if isinstance(x, np.ndarray) else S.box(x) for x in (a, b)])
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = extreme(which, [a[i], b[i]])
        return out if out.ndim else out.item()
    return f


class Frame:
    """a pandas data frame as it was made"""

    def __init__(self, data, columns):
        self.data, self.columns = data, columns

    def abs_getattr(self, it, name):
        return it.top(f"data frame {name}")

    def __repr__(self):
        return "data frame"


class Rng(np.random.RandomState):
    """random numbers of an interpretation; scale: the magnitude of its parameters"""
    scale = 1.0


SCALES = (1.0, 0.03, 1.0, 9.0)


def rng_of(i):
    r = Rng(7 + 31 * i)
    r.scale = SCALES[i % len(SCALES)]
    return r


def install(it, leaves, n=4):
    """leaves(rng) -> {symbol: number}; n interpretations"""
    if not hasattr(it, "fin0"):
        it.fin0 = it.compare, it.getattr
    it.compare, it.getattr = it.fin0
    S.EXT.clear()
    TABLE.clear()
    PRED.clear()
    S.install(it, apply_over_axes=lambda f, a, axes: np.apply_over_axes(f, a, axes), linalg__eigvals=eigvals, isnan=isnan, where=where,
              all=plain_all(all), any=plain_all(any), isinf=isinf, isfinite=lambda x: True, square=lambda x: x * x,
              max=extremes("max"), amax=extremes("max"), min=extremes("min"), amin=extremes("min"), maximum=pairwise("max"), minimum=pairwise("min"),
              round=rounded("round"), around=rounded("round"), round_=rounded("round"), rint=rounded("round"), floor=rounded("floor"), ceil=rounded("ceil"), trunc=rounded("trunc"))
    it.rounding = lambda v, d: S.guard(it, lambda: S.wrap(it, rounded("round")(S.conv(it, v), d))) if isinstance(v, (S.Poly, S.ND)) else None
    S.ATOM[0], S.LIMIT[0] = intern, 14
    S.TRUTH[0] = lambda v: decide(("truth", kr(v)), lambda e: nonzero(e, v))
    ENVS[:] = [Env(leaves(rng_of(i))) for i in range(n)]
    L = it.lib

    def lib(name, f):
        def g(it, a, k):
            try:
                return S.guard(it, lambda: S.wrap(it, f(*[S.conv(it, x) for x in a], **{n: S.conv(it, x) for n, x in k.items()})))
            except np.linalg.LinAlgError as e:
                it.throw("LinAlgError", str(e))
        L[name] = g
    lib("numpy.linalg.inv", inv)
    lib("numpy.linalg.det", det)
    lib("numpy.linalg.cholesky", cholesky)
    lib("scipy.linalg.cholesky", lambda x, lower=False, **k: cholesky(x) if lower else cholesky(x).T)
    lib("scipy.special.logsumexp", logsumexp)
    for m in ("numpy.linalg.", "scipy.linalg."):
        for n, f in (("inv", inv), ("det", det), ("solve", solve), ("slogdet", slogdet)):
            if m + n != "scipy.linalg.slogdet":
                lib(m + n, f)
    lib("numpy.logaddexp", logaddexp)
    lib("numpy.product", np.prod)
    lib("numpy.ndindex", lambda *s: list(np.ndindex(*s)))
    L["numpy.linalg.pinv"] = L["numpy.linalg.inv"]
    lib("cmath.log", LOG)
    lib("cmath.exp", EXP)

    def over(it, a, k):
        f, arr, axes = (list(a) + [k.get("axes")])[:3]

        def fun(x, axis):
            r = it.call(f, [S.ND(x), int(axis)], {})
            r = S.conv(it, r)
            return r if isinstance(r, np.ndarray) else S.box(r)
        return S.guard(it, lambda: S.wrap(it, np.apply_over_axes(fun, S.conv(it, arr), S.conv(it, axes))))
    L["numpy.apply_over_axes"] = over

    def argmax(it, a, k):
        def f():
            x = S.conv(it, a[0])
            if len(a) > 1 or k:
                raise S.Unknown(Top("argmax along an axis"))
            x = np.asarray(x, dtype=object)
            cand = sorted({int(np.argmax(e.arr(x))) for e in ENVS})
            for i in cand[:-1]:
                if it.truth(decide(("argmax", i, x.shape, tuple(map(kr, x.ravel()))), lambda e, i=i: int(np.argmax(e.arr(x))) == i)):
                    return i
            return cand[-1]
        return S.guard(it, f)
    L["numpy.argmax"] = argmax
    S.METHODS["argmax"] = lambda it, x, a, k: argmax(it, [x] + list(a), k)
    for w in ("max", "min"):
        S.METHODS[w] = lambda it, x, a, k, w=w: S.guard(it, lambda: S.wrap(it, extremes(w)(x.arr, *[S.conv(it, v) for v in a], **{n: S.conv(it, v) for n, v in k.items()})))
    it.extreme = extreme
    L["numpy.unravel_index"] = lambda it, a, k: S.guard(it, lambda: S.wrap(it, tuple(int(i) for i in np.unravel_index(*[S.conv(it, x) for x in a], **{n: S.conv(it, x) for n, x in k.items()}))))

    def frame(it, a, k):
        args = dict(zip(("data", "index", "columns"), a), **k)
        return Frame(args.get("data"), args.get("columns"))
    L["pandas.DataFrame"] = frame

    def close(it, a, k):
        a = list(a)
        x, y = a[0], a[1]
        rt = a[2] if len(a) > 2 else k.get("rtol", 1e-5)
        at = a[3] if len(a) > 3 else k.get("atol", 1e-8)
        en = bool(k.get("equal_nan", False))

        def g():
            X, Y = np.asarray(S.conv(it, x), dtype=object), np.asarray(S.conv(it, y), dtype=object)
            r, q = S.conv(it, rt), S.conv(it, at)
            np.broadcast(X, Y)

            def f(e):
                return np.allclose(e.arr(X), e.arr(Y), rtol=e.num(r), atol=e.num(q), equal_nan=en)
            ky = ("close", X.shape, Y.shape, tuple(map(kr, X.ravel())), tuple(map(kr, Y.ravel())), kr(r), kr(q))
            return decide(ky, f)
        return S.guard(it, g)
    L["numpy.allclose"] = close

    def isclose(it, a, k):
        if any(isinstance(v, S.ND) and v.arr.size != 1 for v in a[:2]):
            return it.top("isclose of arrays")
        return close(it, a, k)
    L["numpy.isclose"] = L["math.isclose"] = isclose

    def array_equal(it, a, k):
        return close(it, list(a[:2]) + [0.0, 0.0], {})
    L["numpy.array_equal"] = array_equal
    ga = it.getattr

    def getattr_(o, name, *d):
        if isinstance(o, float) and name in ("shape", "ndim", "size", "copy"):      # a numpy scalar
            return {"shape": Tup([]), "ndim": 0, "size": 1}.get(name) if name != "copy" else BM(o, name)
        return ga(o, name, *d)
    it.getattr = getattr_
    cmp_ = it.compare

    def compare(op, a, b):
        one = lambda v: v.arr.ravel()[0] if isinstance(v, S.ND) and v.arr.size == 1 else v
        if op in S.OPS2 and (isinstance(a, (S.Poly, S.ND)) or isinstance(b, (S.Poly, S.ND))):
            x, y = one(a), one(b)
            if isinstance(x, S.ND) or isinstance(y, S.ND):
                X, Y = np.broadcast_arrays(np.asarray(S.conv(it, x), dtype=object), np.asarray(S.conv(it, y), dtype=object))
                out = np.empty(X.shape, dtype=object)
                for i in np.ndindex(*X.shape):
                    r = unanimous(lambda e: S.OPS2[op](e.num(X[i]), e.num(Y[i])))
                    if r is None:
                        return it.top("order of arrays")
                    out[i] = r
                return S.ND(out)
            if all(isinstance(v, (S.Poly, int, float)) for v in (x, y)):
                return decide(("cmp", op, kr(x), kr(y)), lambda e: S.OPS2[op](e.num(x), e.num(y)))
            return it.top("order")
        if op in ("==", "!=") and (isinstance(a, (S.Poly, S.ND)) or isinstance(b, (S.Poly, S.ND))):
            x, y = a, b
            if isinstance(x, S.ND) or isinstance(y, S.ND):
                try:
                    X, Y = np.broadcast_arrays(np.asarray(S.conv(it, x), dtype=object), np.asarray(S.conv(it, y), dtype=object))
                except ValueError:
                    return op == "!="
                except S.Unknown as u:
                    return u.top
                out = np.empty(X.shape, dtype=object)
                for i in np.ndindex(*X.shape):
                    r = equal(X[i], Y[i])
                    if r is None:
                        return it.top("equality of arrays")
                    out[i] = r == (op == "==")
                return S.ND(out)
            if all(isinstance(v, (S.Poly, int, float)) for v in (x, y)):
                r = equal(x, y)
                return it.top("equality of numbers") if r is None else r == (op == "==")
        return cmp_(op, a, b)
    it.compare = compare


# ------------------------------------------------------------------------------ verdicts

def judge(R, props, what, facts, f):
    """f(env) -> None or a message, in the interpretations that satisfy the path facts"""
    ok = unk = 0
    why = ""
    for e in ENVS:
        h = holds(facts, e)
        if h is False:
            continue
        if h is None:
            unk += 1
            continue
        try:
            m = f(e)
        except Unset as x:
            unk, why = unk + 1, f"no meaning for {x}"
            continue
        except (np.linalg.LinAlgError, OverflowError, ZeroDivisionError) as x:
            unk, why = unk + 1, str(x)
            continue
        if m:
            return R.verdict(props, what, NE, m)
        ok += 1
    if ok:
        return R.verdict(props, what, "interp")
    return R.verdict(props, what, UNK if unk else SKIP, why or f"path condition not known: {facts!r}"[:300])


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b)))) | (np.isnan(a) & np.isnan(b))
    return bool(np.all(ok))
