"""Gaussian and dense discrete factors over a few named variables, in every order and stored form, with symbolic parameters."""
from ..findom import *
from .messages import cls, new, pylist, pydict
from .. import findom as F
from ..check import Anchor

GAM, CATM = "veroku.factors.gaussian", "veroku.factors.categorical"
FORMS = ("can", "cov", "both")
LAZY = {"prec", "h_vec", "g_val", "canform", "cov", "mean", "log_weight", "covform"}


def symm(name, n):
    a = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            a[i, j] = S.sym(name, "K", min(i, j), max(i, j))
    return a


def gen(name, *shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = S.sym(name, *i)
    return a


class Ga:
    """a Gaussian operand: names in its own order, parameters in symbols"""

    def __init__(self, key, names, form, dup=None):
        self.key, self.names, self.form, self.dup = key, list(names), form, dup
        n = len(self.names)
        self.M, self.v, self.c = symm(key, n), gen(key + "h", n, 1), S.sym(key, "c")

    def leaves(self, rng, out):
        n = len(self.names)
        a = rng.randn(n, n)
        a = a @ a.T / n + np.diag(rng.rand(n) + 0.5)
        h, c = rng.randn(n, 1), rng.randn() * 0.5
        if not self.dup:
            r = rng.scale
            a, h, c = a * r, h * r, c * r + (math.log(r) if r < 1 else 0.0)
        if self.dup:
            self.dup(self, a, h, c, rng, out)
            return
        self.put(a, h, c, out)

    def put(self, a, h, c, out):
        n = len(self.names)
        for i in range(n):
            out[(self.key + "h", i, 0)] = float(h[i, 0])
            for j in range(i, n):
                out[(self.key, "K", i, j)] = float(a[i, j])
        out[(self.key, "c")] = float(c)

    def make(self, it):
        C = cls(it, GAM, "Gaussian")
        nm = mark(pylist(list(self.names)), self.key + ".names")
        if self.form == "cov":
            g = new(it, C, cov=S.ND(self.M.copy()), mean=S.ND(self.v.copy()), log_weight=self.c, var_names=pylist(list(self.names)))
        else:
            g = new(it, C, prec=S.ND(self.M.copy()), h_vec=S.ND(self.v.copy()), g_val=self.c, var_names=pylist(list(self.names)))
        if self.form == "both":
            cov = F.inv(self.M)
            mean = S.mm(cov, self.v)
            lw = self.c + S.mm(self.v.T, mean)[0, 0] * S.Fraction(1, 2) + F.LOG(F.det(cov * (2.0 * math.pi))) * S.Fraction(1, 2)
            g.fields.update(cov=S.ND(cov), mean=S.ND(mean), log_weight=lw, covform=True)
        return mark(g, self.key)

    def can(self, e):
        """(names, K, h, g) in an interpretation"""
        a, b, c = e.arr(self.M), e.arr(self.v), e.num(self.c)
        if self.form != "cov":
            return self.names, a, b, c
        k = np.linalg.inv(a)
        return self.names, k, k @ b, c - 0.5 * (b.T @ k @ b).item() - 0.5 * math.log(np.linalg.det(2 * math.pi * a))


def place(can, order):
    """canonical parameters over a (larger) list of variables"""
    names, k, h, g = can
    n = len(order)
    K, H = np.zeros((n, n)), np.zeros((n, 1))
    ix = [order.index(v) for v in names]
    K[np.ix_(ix, ix)] = k
    H[ix] = h
    return order, K, H, g


def combine(a, b, s):
    order = sorted(set(a[0]) | set(b[0]))
    a, b = place(a, order), place(b, order)
    return order, a[1] + s * b[1], a[2] + s * b[2], a[3] + s * b[3]


def marginal(can, keep):
    names, k, h, g = can
    x, y = [names.index(v) for v in keep], [i for i, v in enumerate(names) if v not in keep]
    if not y:
        return [names[i] for i in x], k[np.ix_(x, x)], h[x], g
    s = np.linalg.inv(k[np.ix_(y, y)])
    kxy = k[np.ix_(x, y)]
    return (list(keep), k[np.ix_(x, x)] - kxy @ s @ kxy.T, h[x] - kxy @ s @ h[y],
            g + 0.5 * (h[y].T @ s @ h[y]).item() + 0.5 * math.log(np.linalg.det(2 * math.pi * s)))


def observed(can, obs):
    names, k, h, g = can
    x, y = [i for i, v in enumerate(names) if v not in obs], [names.index(v) for v in obs]
    w = np.array([[obs[v]] for v in obs])
    return ([names[i] for i in x], k[np.ix_(x, x)], h[x] - k[np.ix_(x, y)] @ w,
            g + (h[y].T @ w).item() - 0.5 * (w.T @ k[np.ix_(y, y)] @ w).item())


def to_can(c, m, w):
    k = np.linalg.inv(c)
    return k, k @ m, w - 0.5 * (m.T @ k @ m).item() - 0.5 * math.log(np.linalg.det(2 * math.pi * c))


def weight(can):
    names, k, h, g = can
    c = np.linalg.inv(k)
    return g + 0.5 * (h.T @ c @ h).item() + 0.5 * math.log(np.linalg.det(2 * math.pi * c))


def strs(it, v):
    ps = it.seq_parts(v) if v is not None and not isinstance(v, Top) else None
    if ps is None or not all(isinstance(p, One) and isinstance(p.v, str) for p in ps):
        return None
    return [p.v for p in ps]


def shape_of(x):
    return x.arr.shape if isinstance(x, S.ND) else ()


def forms_of(f):
    """[(form, matrix, vector, constant)] marked as available, or a message"""
    out = []
    for flag, names in (("canform", ("prec", "h_vec", "g_val")), ("covform", ("cov", "mean", "log_weight"))):
        if f.get(flag) is True:
            out.append((flag,) + tuple(f.get(n) for n in names))
        elif f.get(flag) is not False:
            return None
    return out


def check_gauss(it, R, o, what, v, want, props=("V10",), align=("V08",), scope=("V14",), forms=("V09",)):
    """want(env) -> (names, K, h, g)"""
    facts = o.facts
    allp = tuple(dict.fromkeys(props + align + scope + forms))
    if isinstance(v, Top):
        return R.verdict(allp, what, *top_verdict(v))
    if not (isinstance(v, Inst) and any(c.name == "Gaussian" for c in v.cls.mro())):
        return judge(R, allp, what, facts, lambda e: f"result {v!r} is not a Gaussian")
    names = strs(it, v.fields.get("_var_names"))
    fs = forms_of(v.fields)
    if names is None or fs is None:
        return R.verdict(allp, what, UNK, "names or forms unknown")
    judge(R, scope, what + ": scope", facts, lambda e: None if sorted(names) == sorted(want(e)[0]) else f"variables {names} instead of {want(e)[0]}")
    judge(R, scope, what + ": dimension", facts, lambda e: None if v.fields.get("_dim") == len(names) else f"dimension {v.fields.get('_dim')!r} of {names}")
    judge(R, forms, what + ": forms", facts, lambda e: None if fs else "neither form is marked as available")
    for flag, m, h, g in fs:
        nm = "canonical" if flag == "canform" else "covariance"
        if any(x is None for x in (m, h, g)):
            judge(R, tuple(dict.fromkeys(forms + props)), f"{what}: {nm} form", facts, lambda e: "marked as available but incomplete")
            return
        if any(isinstance(x, Top) for x in (m, h, g)):
            R.verdict(allp, f"{what}: {nm} form", UNK, next(x.why for x in (m, h, g) if isinstance(x, Top)))
            continue

        def val(e, m=m, h=h, g=g, nm=nm):
            w = want(e)
            if sorted(names) != sorted(w[0]):
                return None, None
            a, b = e.arr(m), e.arr(h)
            if a.shape != (len(names),) * 2 or b.shape != (len(names), 1):
                return f"shapes {a.shape} and {b.shape} for {len(names)} variables", None
            c = float(e.arr(g).ravel()[0]) if isinstance(g, S.ND) and g.arr.size == 1 else e.num(g)
            if nm == "covariance":
                a, b, c = to_can(a, b, c)
            _, K, H, G0 = place(w, names)
            for x, y, t in ((a, K, "matrix"), (b, H, "vector")):
                if not near(x, y):
                    return f"{nm} form: the {t} over {names} is {x.tolist()} instead of {y.tolist()}"[:300], None
            return None, None if near(c, G0) else f"{nm} form: the constant is {c} instead of {G0} (log)"
        pf = tuple(forms) if len(fs) > 1 else ()
        judge(R, tuple(dict.fromkeys(align + props + pf)), f"{what}: {nm} parameters", facts, lambda e: val(e)[0])
        judge(R, tuple(dict.fromkeys(props + pf)), f"{what}: {nm} constant", facts, lambda e: val(e)[1])


def lazy(it, o, m):
    ext, kind, key, old, new_, loc = m
    return kind == "setattr" and key in LAZY and (old is None or old is False)


def go(it, R, what, ops, thunk, ver=None, main=("V08", "V10"), qual=None, valid=True, cap=40, unit=None, changes=(), own=True):
    """explore thunk on fresh operands; operands must keep denoting what they denoted"""
    R.cur = what
    R.obligs += 1
    cur = {}

    def th(it):
        S.EXT.clear()
        cur["x"] = [p.make(it) for p in ops]
        return thunk(it, *cur["x"])
    try:
        for o in it.explore(th, cap):
            R.paths += 1
            if o.kind == "bail":
                R.verdict(R.prop, what, UNK, f"analysis gave up: {o.value}")
                continue
            if o.kind == "bad":
                R.verdict(R.prop, what, UNK, "decision on a misaligned value")
                continue
            if o.kind == "raise":
                if valid:
                    judge(R, main, f"{qual or what}: raises", o.facts, lambda e: f"{o.value.cname} at {o.value.loc} for valid operands ({what})")
                continue
            if own:
                ms = [m for m in o.mutations if not lazy(it, o, m)]
                sh = shared(o.value)
                R.verdict("V01", f"{qual or what}: operands unchanged", EQ if not ms else SKIP)
                R.verdict("V02", f"{qual or what}: result is independent", EQ if not sh else SKIP)
                for m in ms:
                    judge(R, ("V01",), f"{qual or what}: {m[0]} modified", o.facts, lambda e: f"{m[0]} ({m[1]} {m[2] if m[1] == 'setattr' else ''}) at {m[5]}")
                for p, x in sh:
                    judge(R, ("V02",), f"{qual or what}: {p} is {x}", o.facts, lambda e: f"{p} is the same object as the operand's {x}")
                for p, x in zip(ops, cur["x"]):
                    if id(p) not in changes:
                        p.after(it, R, o, f"{qual or what}: operand {p.key} afterwards", x)
            if ver:
                ver(o, o.value)
    except Bail as e:
        R.verdict(R.prop, what, UNK, f"analysis gave up: {e}")


def after(self, it, R, o, what, x):
    if R.prop in ("V01", "V09"):
        check_gauss(it, R, o, what, x, self.can, props=("V01",), align=("V01",), scope=("V01",), forms=("V09",))
        nm = strs(it, x.fields.get("_var_names"))
        judge(R, ("V01",), what + ": variable order", o.facts, lambda e: None if nm == self.names else f"{nm} instead of {self.names}")


Ga.after = after


def world(it, *ops, n=4, extra=None):
    def leaves(rng):
        out = {}
        for p in ops:
            p.leaves(rng, out)
        if extra:
            extra(rng, out)
        return out
    F.install(it, leaves, n)


PAIRS = [("a", "a"), ("ab", "ab"), ("ab", "ba"), ("abc", "bca"), ("abc", "cab"), ("ab", "bc"), ("ba", "cb"), ("ba", "dc"), ("cab", "b"),
         ("b", "cab"), ("dac", "bca"), ("abcd", "cdba"), ("ca", "bacd"), ("cbd", "ab"), ("ace", "bdc")]
MIX = [("can", "can"), ("cov", "can"), ("can", "cov"), ("cov", "cov"), ("both", "can"), ("can", "both"), ("both", "both"), ("cov", "both")]
GP = ("V01", "V02", "V08", "V09", "V10", "V14")


@obligation(*GP)
def finite_gaussian_products(it, R):
    for i, (a, b) in enumerate(PAIRS):
        for fa, fb in (MIX if i < 4 or R.tier == "thorough" else MIX[i % 3:][::3]):
            for op, s in (("multiply", 1), ("divide", -1)) + ((("absorb", 1), ("cancel", -1)) if i in (3, 5) else ()):
                A, B = Ga("A", a, fa), Ga("B", b, fb)
                world(it, A, B)
                go(it, R, f"Gaussian.{op} of {a} ({fa}) and {b} ({fb})", [A, B], lambda it, x, y: meth(it, x, op, y),
                   lambda o, v: check_gauss(it, R, o, f"Gaussian.{op}", v, lambda e: combine(A.can(e), B.can(e), s)), qual=f"Gaussian.{op}")


SUBS = [("ab", "a"), ("ab", "b"), ("ab", "ba"), ("abc", "b"), ("abc", "ca"), ("abc", "cb"), ("abc", "a"), ("abcd", "db"), ("cadb", "bac"), ("cabd", "d"), ("badc", "acd")]


@obligation(*GP)
def finite_gaussian_marginals(it, R):
    for a, s in SUBS:
        for form in FORMS:
            A = Ga("A", a, form)
            for keep in (True, False):
                rest = [v for v in a if v not in s]
                if not keep and not rest:
                    continue
                world(it, A)
                kept = list(s) if keep else rest
                go(it, R, f"Gaussian.marginalize of {a} ({form}), {s}, keep={keep}", [A],
                   lambda it, x: meth(it, x, "marginalize", mark(pylist(list(s)), "vrs"), keep=keep),
                   lambda o, v: check_gauss(it, R, o, "Gaussian.marginalize", v, lambda e: marginal(A.can(e), kept)), qual="Gaussian.marginalize")


@obligation(*GP)
def finite_gaussian_reduce(it, R):
    for a, s in SUBS + [("abc", "cab"), ("bca", "ac"), ("cadb", "bcd")]:
        for form in FORMS:
            A = Ga("A", a, form)
            names = [("val", v) for v in s]
            world(it, A, extra=lambda rng, out: out.update({k: float(rng.randn()) for k in names}))

            def call(it, x):
                return meth(it, x, "reduce", mark(pylist(list(s)), "vrs"), mark(pylist([S.sym("val", v) for v in s]), "values"))
            go(it, R, f"Gaussian.reduce of {a} ({form}), {s}", [A], call,
               lambda o, v: check_gauss(it, R, o, "Gaussian.reduce", v, lambda e: observed(A.can(e), {v: e.v[("val", v)] for v in s})),
               qual="Gaussian.reduce")


def num_is(R, o, props, what, v, want):
    if isinstance(v, Top):
        return R.verdict(props, what, *top_verdict(v))

    def f(e):
        x = e.arr(v) if isinstance(v, S.ND) else e.num(v)
        w = want(e)
        return None if near(np.squeeze(x), np.squeeze(w)) else f"{np.asarray(x).tolist()} instead of {np.asarray(w).tolist()}"[:300]
    judge(R, props, what, o.facts, f)


@obligation(*GP, "V13")
def finite_gaussian_unary(it, R):
    for a in ("a", "ba", "cab", "bdca"):
        for form in FORMS:
            A = Ga("A", a, form)

            def norm(e):
                n, k, h, g = A.can(e)
                return n, k, h, g - weight((n, k, h, g))
            w = f"({a}, {form})"
            world(it, A)
            go(it, R, "Gaussian.normalize " + w, [A], lambda it, x: meth(it, x, "normalize"),
               lambda o, v: check_gauss(it, R, o, "Gaussian.normalize", v, norm), qual="Gaussian.normalize")
            world(it, A)
            go(it, R, "Gaussian.copy " + w, [A], lambda it, x: meth(it, x, "copy"),
               lambda o, v: (check_gauss(it, R, o, "Gaussian.copy", v, A.can, props=("V10", "V13")), order_is(it, R, o, "Gaussian.copy", v, A.names)), qual="Gaussian.copy")
            world(it, A)
            go(it, R, "normalize after both forms were used " + w, [A],
               lambda it, x: (meth(it, x, "get_prec"), meth(it, x, "get_cov"), meth(it, x, "normalize"))[2],
               lambda o, v: check_gauss(it, R, o, "Gaussian.normalize", v, norm), qual="Gaussian.normalize")
            for acc, fn in (("get_prec", lambda c: c[1]), ("get_h", lambda c: c[2]), ("get_g", lambda c: c[3]), ("get_cov", lambda c: np.linalg.inv(c[1])),
                            ("get_mean", lambda c: np.linalg.solve(c[1], c[2])), ("get_log_weight", weight), ("get_weight", lambda c: math.exp(weight(c)))):
                world(it, A)
                go(it, R, f"Gaussian.{acc} {w}", [A], lambda it, x: meth(it, x, acc),
                   lambda o, v: num_is(R, o, ("V08", "V09", "V10") if acc in ("get_prec", "get_h", "get_cov", "get_mean") else ("V09", "V10"), f"Gaussian.{acc}", v, lambda e: fn(A.can(e))),
                   qual=f"Gaussian.{acc}")
            for pre in ((), ("get_prec",), ("get_cov",)):
                world(it, A, extra=lambda rng, out: out.update({("extra",): float(rng.randn())}))

                def add(it, x):
                    for p in pre:
                        meth(it, x, p)
                    if not has(x, "_add_log_weight"):
                        return None
                    meth(it, x, "_add_log_weight", S.sym("extra"))
                    return meth(it, x, "copy")

                def ver(o, v):
                    if v is not None:
                        check_gauss(it, R, o, "Gaussian._add_log_weight", v, lambda e: A.can(e)[:3] + (A.can(e)[3] + e.v[("extra",)],))
                go(it, R, f"Gaussian._add_log_weight {w}", [A], add, ver, qual="Gaussian._add_log_weight", changes=(id(A),), own=False)
            if form != "cov":
                world(it, A)
                go(it, R, f"Gaussian._invert {w}", [A], lambda it, x: meth(it, x, "_invert") if has(x, "_invert") else None,
                   lambda o, v: v is None or check_gauss(it, R, o, "Gaussian._invert", v, lambda e: (A.names, -A.can(e)[1], -A.can(e)[2], -A.can(e)[3])), qual="Gaussian._invert")


def has(x, name):
    return any(name in c.attrs or name in getattr(c, "methods", {}) for c in x.cls.mro())


def order_is(it, R, o, what, v, names):
    nm = strs(it, v.fields.get("_var_names")) if isinstance(v, Inst) else None
    if nm is not None:
        judge(R, ("V13", "V14"), what + ": variable order", o.facts, lambda e: None if nm == names else f"{nm} instead of {names}")


def bool_is(R, o, props, what, v, want):
    if isinstance(v, S.ND) and v.arr.size == 1:
        v = v.arr.ravel()[0]
    if isinstance(v, (bool, np.bool_)):
        return judge(R, props, what, o.facts, lambda e: None if bool(v) == want else f"{bool(v)} instead of {want}")
    if isinstance(v, T):
        def f(e):
            h = holds([(v, True)], e)
            if h is None:
                raise Unset("truth value")
            return None if h == want else f"{h} instead of {want}"
        return judge(R, props, what, o.facts, f)
    return R.verdict(props, what, UNK, f"{v!r}"[:200])


def like(other, dk=0.0, dh=0.0, dg=0.0, lo=0.0):
    """values of a Gaussian in canonical form: those of other (canonical) plus differences, in its own order"""
    def f(self, a, h, c, rng, out):
        n = len(other.names)
        e = Env(out)
        names, k, hh, g = other.can(e)
        k, hh = k.copy(), hh.copy()
        i = n - 1
        k[i, i] += dk
        k[0, i] += lo
        k[i, 0] += lo
        hh[i, 0] += dh
        g += dg
        ix = [other.names.index(v) for v in self.names]
        k, hh = k[np.ix_(ix, ix)], hh[ix]
        if self.form == "cov":
            c_ = np.linalg.inv(k)
            self.put(c_, c_ @ hh, weight((names, k, hh, g)), out)
        else:
            self.put(k, hh, g, out)
    return f


@obligation("V12", "V01", "V08")
def finite_gaussian_equals(it, R):
    for a, b in (("a", "a"), ("ab", "ab"), ("ab", "ba"), ("abc", "bca"), ("abc", "cab"), ("dbca", "acdb")):
        for fa in FORMS:
            for fb in FORMS:
                if len(a) > 3 and fa != fb and R.tier != "thorough":
                    continue
                for nm, d, tol, want in (("the same function", {}, None, True), ("another matrix", dict(dk=0.7), None, False), ("another vector", dict(dh=0.7), None, False),
                                         ("another constant", dict(dg=0.7), None, False), ("a constant within the tolerance asked for", dict(dg=0.02), 0.1, True),
                                         ("a vector within the tolerance asked for", dict(dh=0.01), 0.2, True), ("a matrix within the tolerance asked for", dict(dk=0.005), 0.2, True),
                                         ("a constant outside a tight tolerance", dict(dg=1e-5), 1e-9, False), ("a vector outside a tight tolerance", dict(dh=1e-5), 1e-9, False)):
                    A, B = Ga("A", a, fa), None
                    B = Ga("B", b, fb, like(A, **d))
                    world(it, A, B)
                    kw = {} if tol is None else dict(rtol=tol, atol=tol)
                    go(it, R, f"Gaussian.equals of {a} ({fa}) and {b} ({fb}), {nm}", [A, B], lambda it, x, y: meth(it, x, "equals", y, **kw),
                       lambda o, v: bool_is(R, o, ("V12", "V08") if tol is None else ("V12",), f"Gaussian.equals: {nm}", v, want), main=("V12",), qual="Gaussian.equals")
    for a, b in (("ab", "ac"), ("ab", "abc"), ("abc", "ab"), ("a", "b")):
        A, B = Ga("A", a, "cov"), Ga("B", b, "cov")
        world(it, A, B)
        go(it, R, f"Gaussian.equals of {a} and {b}", [A, B], lambda it, x, y: meth(it, x, "equals", y),
           lambda o, v: bool_is(R, o, ("V12",), "Gaussian.equals: other variables", v, False), main=("V12",), qual="Gaussian.equals")


def kl(p, q):
    _, k0, h0, _ = p
    _, k1, h1, _ = place(q, p[0])
    c0 = np.linalg.inv(k0)
    m0, m1 = c0 @ h0, np.linalg.solve(k1, h1)
    return 0.5 * (np.trace(k1 @ c0) + ((m1 - m0).T @ k1 @ (m1 - m0)).item() - len(k0) + math.log(np.linalg.det(k0) / np.linalg.det(k1)))


@obligation("V11", "V01", "V08")
def finite_gaussian_kl(it, R):
    for a, b in (("a", "a"), ("ab", "ab"), ("ab", "ba"), ("abc", "bca"), ("cab", "abc"), ("acdb", "dbca")):
        for fa in FORMS:
            for fb in FORMS:
                for kw in ({}, dict(normalize_factor=False)):
                    A, B = Ga("A", a, fa), Ga("B", b, fb)
                    if kw:
                        B = Ga("B", b, fb, norm_like)
                    world(it, A, B)
                    go(it, R, f"Gaussian.kl_divergence of {a} ({fa}) and {b} ({fb}) {kw or ''}", [A, B], lambda it, x, y: meth(it, x, "kl_divergence", y, **kw),
                       lambda o, v: num_is(R, o, ("V11", "V08"), "Gaussian.kl_divergence", v, lambda e: kl(A.can(e), B.can(e))), main=("V11",), qual="Gaussian.kl_divergence")
        A, B = Ga("A", a, "can"), None
        B = Ga("B", b, "cov", like(A, dg=0.9))
        world(it, A, B)
        go(it, R, f"Gaussian.kl_divergence of {a} and a multiple of it", [A, B], lambda it, x, y: meth(it, x, "kl_divergence", y),
           lambda o, v: num_is(R, o, ("V11",), "Gaussian.kl_divergence: multiple of itself", v, lambda e: 0.0), main=("V11",), qual="Gaussian.kl_divergence")


class Va(Ga):
    """a vacuous Gaussian: only its constant is a symbol"""

    def __init__(self, key, names):
        super().__init__(key, names, "can")
        n = len(self.names)
        self.M, self.v = np.zeros((n, n)), np.zeros((n, 1))

    def leaves(self, rng, out):
        out[(self.key, "c")] = float(rng.randn())

    def can(self, e):
        n = len(self.names)
        return self.names, np.zeros((n, n)), np.zeros((n, 1)), e.num(self.c)

    def make(self, it):
        C = cls(it, GAM, "Gaussian")
        return mark(it.call(it.getattr(C, "make_vacuous"), [pylist(list(self.names))], {"g_val": self.c}), self.key)


def vacuous(R, o, props, what, v, want=True):
    if not isinstance(v, Inst):
        return R.verdict(props, what, UNK, f"{v!r}"[:200])
    f = v.fields.get("_is_vacuous")
    if not isinstance(f, (bool, np.bool_)):
        return R.verdict(props, what, UNK, f"flag {f!r}"[:200])
    judge(R, props, what, o.facts, lambda e: None if bool(f) == want else f"marked as {'' if f else 'not '}vacuous")


@obligation("V01", "V02", "V08", "V10", "V11", "V12", "V13", "V14", "V29")
def finite_gaussian_vacuous(it, R):
    """constant functions among Gaussians: products, quotients, marginals, observation, comparison and divergence"""
    for a, b in (("a", "a"), ("ab", "ab"), ("ab", "ba"), ("abc", "cab"), ("ab", "bc"), ("ba", "dc"), ("abc", "b")):
        for form in FORMS:
            A, U = Ga("A", a, form), Va("U", b)
            w = f"{a} ({form}) and vacuous {b}"
            for op, s in (("multiply", 1), ("divide", -1)):
                for x, y, z in ((A, U, "a vacuous operand"), (U, A, "a vacuous receiver")):
                    world(it, x, y)
                    go(it, R, f"Gaussian.{op} of {w}, {z}", [x, y], lambda it, p, q: meth(it, p, op, q),
                       lambda o, v: check_gauss(it, R, o, f"Gaussian.{op}: {z}", v, lambda e: combine(x.can(e), y.can(e), s)), qual=f"Gaussian.{op}: {z}")
            for x, y, z in ((A, U, "a vacuous operand"), (U, A, "a vacuous receiver")):
                world(it, x, y)
                go(it, R, f"Gaussian.equals of {w}, {z}", [x, y], lambda it, p, q: meth(it, p, "equals", q),
                   lambda o, v: bool_is(R, o, ("V12",), f"Gaussian.equals: {z}", v, False), main=("V12",), qual=f"Gaussian.equals: {z}")
                if sorted(a) == sorted(b):
                    world(it, x, y)
                    go(it, R, f"Gaussian.kl_divergence of {w}, {z}", [x, y], lambda it, p, q: meth(it, p, "kl_divergence", q),
                       lambda o, v: num_is(R, o, ("V11",), f"Gaussian.kl_divergence: {z}", v, lambda e: math.inf), main=("V11",), qual=f"Gaussian.kl_divergence: {z}")
    for a, b in (("a", "a"), ("ab", "ab"), ("ab", "ba"), ("abc", "bca"), ("ab", "bc"), ("ab", "b")):
        A, B = Va("A", a), Va("B", b)
        same = sorted(a) == sorted(b)
        world(it, A, B)
        go(it, R, f"Gaussian.equals of vacuous {a} and {b}", [A, B], lambda it, p, q: meth(it, p, "equals", q),
           lambda o, v: same and a and bool_is(R, o, ("V12",), "Gaussian.equals: vacuous, other variables", v, False) if not same else None, main=("V12",), qual="Gaussian.equals: both vacuous")
        if same:
            world(it, A)
            go(it, R, f"Gaussian.equals of vacuous {a} with a copy", [A], lambda it, p: meth(it, p, "equals", Va("A", b).make(it)),
               lambda o, v: bool_is(R, o, ("V12",), "Gaussian.equals: both vacuous", v, True), main=("V12",), qual="Gaussian.equals: both vacuous")
            world(it, A, B)
            go(it, R, f"Gaussian.kl_divergence of vacuous {a} and {b}", [A, B], lambda it, p, q: meth(it, p, "kl_divergence", q),
               lambda o, v: num_is(R, o, ("V11",), "Gaussian.kl_divergence: both vacuous", v, lambda e: 0.0), main=("V11",), qual="Gaussian.kl_divergence: both vacuous")
        for op, s in (("multiply", 1), ("divide", -1)):
            world(it, A, B)
            go(it, R, f"Gaussian.{op} of vacuous {a} and {b}", [A, B], lambda it, p, q: meth(it, p, op, q),
               lambda o, v: (check_gauss(it, R, o, f"Gaussian.{op}: both vacuous", v, lambda e: combine(A.can(e), B.can(e), s)),
                             vacuous(R, o, ("V10",), f"Gaussian.{op}: both vacuous", v)), qual=f"Gaussian.{op}: both vacuous")
    for a in ("a", "ba", "cab"):
        A = Va("A", a)
        world(it, A)
        go(it, R, f"Gaussian.copy of vacuous {a}", [A], lambda it, x: meth(it, x, "copy"),
           lambda o, v: (check_gauss(it, R, o, "Gaussian.copy: vacuous", v, A.can, props=("V10", "V13")), order_is(it, R, o, "Gaussian.copy: vacuous", v, A.names),
                         vacuous(R, o, ("V13",), "Gaussian.copy: vacuous", v)), qual="Gaussian.copy: vacuous")
        world(it, A)
        go(it, R, f"distance of vacuous {a}", [A], lambda it, x: meth(it, x, "distance_from_vacuous"),
           lambda o, v: num_is(R, o, ("V11",), "Gaussian.distance_from_vacuous: vacuous", v, lambda e: 0.0), main=("V11",), qual="Gaussian.distance_from_vacuous")
        for s in sorted({a[:1], a[-1:], a[1:], a} - {""}):
            if len(s) < len(a) and s:
                for keep in (True, False):
                    kept = list(s) if keep else [v for v in a if v not in s]
                    world(it, A)
                    go(it, R, f"Gaussian.marginalize of vacuous {a}, {s}, keep={keep}", [A], lambda it, x: meth(it, x, "marginalize", mark(pylist(list(s)), "vrs"), keep=keep),
                       lambda o, v: (check_vac(it, R, o, "Gaussian.marginalize: vacuous", v, kept), vacuous(R, o, ("V10",), "Gaussian.marginalize: vacuous", v)),
                       qual="Gaussian.marginalize: vacuous")
                names = [("val", v) for v in s]
                world(it, A, extra=lambda rng, out: out.update({k: float(rng.randn()) for k in names}))
                go(it, R, f"Gaussian.reduce of vacuous {a}, {s}", [A],
                   lambda it, x: meth(it, x, "reduce", mark(pylist(list(s)), "vrs"), mark(pylist([S.sym("val", v) for v in s]), "values")),
                   lambda o, v: (check_gauss(it, R, o, "Gaussian.reduce: vacuous", v, lambda e: observed(A.can(e), {v: e.v[("val", v)] for v in s})),
                                 vacuous(R, o, ("V10",), "Gaussian.reduce: vacuous", v)), qual="Gaussian.reduce: vacuous")
        names = [("val", v) for v in a]
        world(it, A, extra=lambda rng, out: out.update({k: float(rng.randn()) for k in names}))
        go(it, R, f"Gaussian.log_potential of vacuous {a}", [A], lambda it, x: meth(it, x, "log_potential", mark(pylist([S.sym("val", v) for v in a]), "x_val")),
           lambda o, v: num_is(R, o, ("V08", "V10"), "Gaussian.log_potential: vacuous", v, lambda e: A.can(e)[3]), qual="Gaussian.log_potential: vacuous")
        world(it, A)
        go(it, R, f"repr of vacuous {a}", [A], lambda it, x: it.call(it.getattr(x, "__repr__"), [], {}) and None, main=("V29",), qual="Gaussian.__repr__: vacuous")
        for form in FORMS:
            B = Ga("B", a, form)
            world(it, B)
            go(it, R, f"distance of {a} ({form})", [B], lambda it, x: meth(it, x, "distance_from_vacuous"),
               lambda o, v: num_is(R, o, ("V11",), "Gaussian.distance_from_vacuous", v, lambda e: math.inf), main=("V11",), qual="Gaussian.distance_from_vacuous")
            world(it, B)
            go(it, R, f"quotient of {a} ({form}) by itself", [B], lambda it, x: meth(it, x, "divide", meth(it, x, "copy")),
               lambda o, v: (check_gauss(it, R, o, "Gaussian.divide: by itself", v, lambda e: combine(B.can(e), B.can(e), -1)),
                             vacuous(R, o, ("V10",), "Gaussian.divide: by itself", v)), qual="Gaussian.divide: by itself")


def check_vac(it, R, o, what, v, names):
    """a constant function over names (its value is not fixed)"""
    nm = strs(it, v.fields.get("_var_names")) if isinstance(v, Inst) else None
    if nm is None:
        return R.verdict(("V14",), what, UNK, f"{v!r}"[:200])
    judge(R, ("V14",), what + ": scope", o.facts, lambda e: None if sorted(nm) == sorted(names) else f"variables {nm} instead of {names}")
    for x, sh in (("prec", (len(nm),) * 2), ("h_vec", (len(nm), 1))):
        m = v.fields.get(x)
        if isinstance(m, S.ND):
            judge(R, ("V10",), f"{what}: {x}", o.facts, lambda e: None if e.arr(m).shape == sh and not e.arr(m).any() else f"{e.arr(m).tolist()}")
        else:
            R.verdict(("V10",), what, UNK, f"{m!r}"[:200])


class Lin:
    """the matrices and names of a linear conditional"""

    def __init__(self, xs, ys, diag=False):
        self.key, self.xs, self.ys = "linear", xs, ys
        self.A, self.N = gen("A", len(ys), len(xs)), symm("N", len(ys))

    def leaves(self, rng, out):
        m, n = len(self.ys), len(self.xs)
        c = rng.randn(m, m)
        c = c @ c.T / m + np.diag(rng.rand(m) + 0.5)
        for i in range(m):
            for j in range(n):
                out[("A", i, j)] = float(rng.randn())
            for j in range(i, m):
                out[("N", "K", i, j)] = float(c[i, j])

    def make(self, it):
        return [mark(S.ND(self.A.copy()), "a_mat"), mark(S.ND(self.N.copy()), "n_mat"),
                mark(pylist(list(self.xs)), "conditioning_vars"), mark(pylist(list(self.ys)), "conditional_vars")]

    def can(self, e, xs=None, ys=None):
        a, n = e.arr(self.A), e.arr(self.N)
        w = np.linalg.inv(n)
        k = np.block([[a.T @ w @ a, -a.T @ w], [-w @ a, w]])
        return list(xs or self.xs) + list(ys or self.ys), k, np.zeros((len(k), 1)), -0.5 * math.log(np.linalg.det(2 * math.pi * n))

    def after(self, it, R, o, what, x):
        pass


LINEAR = [(["x"], ["y"]), (["b"], ["a"]), (["x", "u"], ["y"]), (["x"], ["z", "y"]), (["u", "x"], ["z", "y"]), (["x"], ["z", "y", "w"]), (["c", "a"], ["d", "b", "e"]),
          (["c", "a", "f"], ["d", "b"])]


def in_module(it, mod, name):
    m = it.module(mod)
    if name not in m.env:
        raise Anchor(name)
    return m.env[name]


@obligation("V28", "V08", "V14", "V01", "V02")
def finite_linear_gaussian(it, R):
    for xs, ys in LINEAR + ([(["x", "u", "w"], ["y", "v", "z"])] if R.tier == "thorough" else []):
        p = Lin(xs, ys)
        world(it, p)
        go(it, R, f"make_linear_gaussian of {ys} given {xs}", [p], lambda it, x: it.call(in_module(it, GAM, "make_linear_gaussian"), list(x), {}),
           lambda o, v: check_gauss(it, R, o, "make_linear_gaussian", v, p.can, props=("V28",)), main=("V28",), qual="make_linear_gaussian")


def made(it, R, p, qual, what, vs, build, can):
    """two factors made from a template: the right functions, sharing nothing with the template or each other"""
    for how in ("format_dict", "var_names"):
        world(it, p)

        def call(it, x):
            t = build(it, x)
            out, bad = [], shared(t)
            mark(t, "template")
            for i, u in ((1, 0), (2, 5)):
                if how == "format_dict":
                    out.append(meth(it, t, "make_factor", format_dict=pydict({"i": i, "t": u})))
                else:
                    out.append(meth(it, t, "make_factor", var_names=pylist([v.format(i=i, t=u) for v in vs])))
                bad += shared(out[-1])
                mark(out[-1], f"factor {len(out)}")
            return out, bad

        def ver(o, v):
            for m in o.mutations:
                judge(R, ("V03", "V27"), f"{qual}: {m[0]} modified", o.facts, lambda e: f"{m[0]} is modified at {m[-1]}")
            judge(R, ("V03",), f"{qual}: sharing", o.facts, lambda e: f"{v[1][0][0]} is the same object as {v[1][0][1]}" if v[1] else None)
            for f, (i, u) in zip(v[0], ((1, 0), (2, 5))):
                check_gauss(it, R, o, qual, f, lambda e: can(e, lambda ns: [n.format(i=i, t=u) for n in ns]), props=("V27",), align=("V27", "V08"), scope=("V27",), forms=("V27",))
        go(it, R, f"{what} ({how})", [p], call, ver, main=("V27",), qual=qual, own=False)


@obligation("V27", "V03", "V08")
def finite_gaussian_templates(it, R):
    for xs, ys in LINEAR:
        p = Lin([v + "{i}_{t}" for v in xs], [v + "{t}_{i}" for v in ys])
        made(it, R, p, "make_linear_gaussian_cpd_template", f"template of {ys} given {xs}", p.xs + p.ys,
             lambda it, x: it.call(in_module(it, GAM, "make_linear_gaussian_cpd_template"), list(x), {}), lambda e, ren: p.can(e, ren(p.xs), ren(p.ys)))
    for vs in (["x_{i}"], ["b_{t}", "a{i}_{t}"], ["z{i}", "a{t}{i}", "m_{t}"]):
        A = Ga("A", vs, "can")

        def build(it, x):
            d = mark(pydict({"prec": S.ND(A.M.copy()), "h": S.ND(A.v.copy()), "g": A.c}), "gaussian_parameters")
            return new(it, cls(it, GAM, "GaussianTemplate"), d, mark(pylist(list(vs)), "var_templates"))
        made(it, R, A, "GaussianTemplate.make_factor", f"template over {vs}", vs, build, lambda e, ren: (ren(vs),) + A.can(e)[1:])


def norm_like(self, a, h, c, rng, out):
    """a normalised Gaussian"""
    if self.form == "cov":
        self.put(a, h, 0.0, out)
    else:
        self.put(a, h, -weight((self.names, a, h, 0.0)), out)


@obligation("V08", "V09", "V10", "V01")
def finite_gaussian_potential(it, R):
    for a, vs in (("a", "a"), ("ab", "ba"), ("abc", "cab"), ("abc", "bca"), ("abc", "acb"), ("dacb", "abcd")):
        for form in FORMS:
            for kind in ("list", "column", "own"):
                A = Ga("A", a, form)
                names = [("val", v) for v in a]
                world(it, A, extra=lambda rng, out: out.update({k: float(rng.randn()) for k in names}))
                order = a if kind == "own" else vs

                def call(it, x):
                    xs = [S.sym("val", v) for v in order]
                    xv = mark(pylist(xs), "x_val") if kind == "list" else mark(S.ND(np.array(xs + [None], dtype=object)[:-1].reshape(-1, 1)), "x_val")
                    if kind == "own":
                        return meth(it, x, "log_potential", xv)
                    return meth(it, x, "log_potential", xv, vrs=mark(pylist(list(vs)), "vrs"))

                def want(e):
                    n, k, h, g = A.can(e)
                    z = np.array([[e.v[("val", v)]] for v in n])
                    return (-0.5 * z.T @ k @ z + z.T @ h).item() + g
                go(it, R, f"Gaussian.log_potential of {a} ({form}) at {order} ({kind})", [A], call,
                   lambda o, v: num_is(R, o, ("V08", "V10") + (("V09",) if form == "both" else ()), "Gaussian.log_potential", v, want), qual="Gaussian.log_potential")


@obligation("V08", "V09", "V14")
def finite_gaussian_reorder(it, R):
    for a, b in (("ab", "ba"), ("abc", "bca"), ("abc", "cab"), ("abc", "cba"), ("abcd", "cadb"), ("dbca", "bcad")):
        for form in FORMS:
            A = Ga("A", a, form)
            world(it, A)

            def call(it, x):
                if not has(x, "_reorder_parameters"):
                    return None
                meth(it, x, "_reorder_parameters", pylist(list(b)))
                return x
            go(it, R, f"Gaussian._reorder_parameters of {a} ({form}) to {b}", [A], call,
               lambda o, v: v is None or (check_gauss(it, R, o, "Gaussian._reorder_parameters", v, A.can, props=("V08",)), order_is(it, R, o, "Gaussian._reorder_parameters", v, list(b))),
               own=False, qual="Gaussian._reorder_parameters")


@obligation(*GP)
def finite_gaussian_histories(it, R):
    """chains of operations with conversions in between"""
    for a, b, c in (("abc", "bcd", "ca"), ("ba", "ab", "b"), ("cab", "d", "bd")):
        for i, (fa, fb) in enumerate(MIX):
            A, B, C = Ga("A", a, fa), Ga("B", b, fb), Ga("C", c, FORMS[i % 3])
            world(it, A, B, C)
            nm = f"({a} {fa}, {b} {fb}, {c} {C.form})"

            def ch1(it, x, y, z):
                p = meth(it, meth(it, x, "multiply", y), "multiply", z)
                meth(it, p, "get_cov")
                return meth(it, meth(it, p, "divide", y), "normalize")

            def w1(e):
                n, k, h, g = combine(A.can(e), C.can(e), 1)
                n, k, h, g = place((n, k, h, g), sorted(set(a) | set(b) | set(c)))
                return n, k, h, g - weight2(n, k, h, g, set(a) | set(c))
            if set(b) <= set(a) | set(c):
                go(it, R, "product, quotient, normalisation " + nm, [A, B, C], ch1,
                   lambda o, v: check_gauss(it, R, o, "chain of operations", v, w1), qual="chain of operations")
            world(it, A, B, C)

            def ch2(it, x, y, z):
                p = meth(it, x, "multiply", y)
                meth(it, p, "get_mean")
                q = meth(it, p, "marginalize", pylist([v for v in sorted(set(a) | set(b)) if v != b[0]]))
                meth(it, q, "get_cov")
                return meth(it, q, "multiply", z)

            def w2(e):
                p = combine(A.can(e), B.can(e), 1)
                return combine(marginal(p, [v for v in p[0] if v != b[0]]), C.can(e), 1)
            go(it, R, "product, marginal, product " + nm, [A, B, C], ch2,
               lambda o, v: check_gauss(it, R, o, "chain of operations", v, w2), qual="chain of operations")


def weight2(n, k, h, g, live):
    ix = [i for i, v in enumerate(n) if v in live]
    return weight((None, k[np.ix_(ix, ix)], h[ix], g))


# ------------------------------------------------------------------------------ dense tables

CARDS = {"uneven": dict(a=2, b=3, c=2, d=4, e=2), "equal": dict(a=2, b=2, c=2, d=2, e=2), "ones": dict(a=1, b=3, c=1, d=2, e=2)}
NAMED = {v: [f"{v}{i}" for i in range(4)][::-1] for v in "abcde"}


class Ca:
    """a dense table: log-probabilities are symbols, zeros at chosen places (zeros(assignment dict) -> bool)"""

    def __init__(self, key, names, cards="uneven", zeros=None, named=False, dup=None):
        self.key, self.names, self.named, self.dup = key, list(names), named, dup
        self.cards = [CARDS[cards][v] for v in names]
        self.cd = {v: CARDS[cards][v] for v in names}
        self.T = gen(key, *self.cards)
        for i in np.ndindex(*self.cards):
            if zeros and zeros(dict(zip(names, i))):
                self.T[i] = -math.inf

    def leaves(self, rng, out):
        for i in np.ndindex(*self.cards):
            out[(self.key,) + i] = float(rng.randn() * 0.7 * rng.scale)
        if self.dup:
            self.dup(self, rng, out)

    def states(self, v):
        return NAMED[v][:self.cd[v]] if self.named else list(range(self.cd[v]))

    def make(self, it):
        kw = {}
        if self.named:
            kw["variables_assignment_names"] = pylist([pylist(self.states(v)) for v in self.names])
        g = new(it, cls(it, CATM, "Categorical"), pylist(list(self.names)), log_probs_tensor=S.ND(self.T.copy()), **kw)
        return mark(g, self.key)

    def tab(self, e):
        return self.names, np.exp(e.arr(self.T))

    def after(self, it, R, o, what, x):
        if R.prop == "V01":
            check_cat(it, R, o, what, x, self.tab, self, props=("V01",), align=("V01",), scope=("V01",))
            nm = strs(it, x.fields.get("_var_names"))
            judge(R, ("V01",), what + ": variable order", o.facts, lambda e: None if nm == self.names else f"{nm} instead of {self.names}")


def tplace(t, order, cd):
    """table over a larger list of variables"""
    names, a = t
    a = a.transpose([names.index(v) for v in order if v in names])
    a = a.reshape([cd[v] if v in names else 1 for v in order])
    return np.broadcast_to(a, [cd[v] for v in order])


def tcombine(s, t, f, cd):
    order = sorted(set(s[0]) | set(t[0]))
    with np.errstate(all="ignore"):
        return order, f(tplace(s, order, cd), tplace(t, order, cd))


def tmarg(t, keep):
    names, a = t
    out = a.sum(axis=tuple(i for i, v in enumerate(names) if v not in keep))
    left = [v for v in names if v in keep]
    return list(keep), out.transpose([left.index(v) for v in keep])


def tred(t, obs):
    names, a = t
    return [v for v in names if v not in obs], a[tuple(obs.get(v, slice(None)) for v in names)]


def pydata(it, v):
    """plain python data, or None"""
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, N) and v.is_const():
        return float(v.cval())
    if isinstance(v, (Tup, LObj)):
        ps = it.seq_parts(v)
        if ps is None or not all(isinstance(p, One) for p in ps):
            raise Unset("sequence")
        return tuple(pydata(it, p.v) for p in ps)
    if isinstance(v, DObj):
        if getattr(v, "imprecise", False) or not all(e.one() for e in v.ents):
            raise Unset("dict")
        return {pydata(it, e.key): pydata(it, e.val) for e in v.ents}
    raise Unset(repr(v)[:60])


def check_cat(it, R, o, what, v, want, ops, props=("V05",), align=("V04",), scope=("V14",), undefined=None):
    """want(env) -> (names, table of values); ops: operand(s) for cardinalities and state names"""
    facts = o.facts
    allp = tuple(dict.fromkeys(props + align + scope))
    ops = ops if isinstance(ops, (list, tuple)) else [ops]
    if isinstance(v, Top):
        return R.verdict(allp, what, *top_verdict(v))
    if not (isinstance(v, Inst) and any(c.name == "Categorical" for c in v.cls.mro())):
        return judge(R, allp, what, facts, lambda e: f"result {v!r} is not a Categorical")
    names, t = strs(it, v.fields.get("_var_names")), v.fields.get("log_probs_tensor")
    if isinstance(t, (S.Poly, float)):
        t = S.ND(S.box(t))
    if names is None or not isinstance(t, S.ND):
        return R.verdict(allp, what, *(top_verdict(t) if isinstance(t, Top) else (UNK, "names or table unknown")))
    judge(R, scope, what + ": scope", facts, lambda e: None if sorted(names) == sorted(want(e)[0]) else f"variables {names} instead of {want(e)[0]}")
    judge(R, scope, what + ": dimension", facts, lambda e: None if v.fields.get("_dim") == len(names) else f"dimension {v.fields.get('_dim')!r} of {names}")

    def values(e):
        w = want(e)
        if sorted(names) != sorted(w[0]):
            return None
        x = e.arr(t)
        y = w[1].transpose([w[0].index(n) for n in names])
        if x.shape != y.shape:
            return f"a table of shape {x.shape} over {names} instead of {y.shape}"
        with np.errstate(all="ignore"):
            x = np.exp(x)
        if undefined is not None:
            u = undefined(e)
            u = u[1].transpose([u[0].index(n) for n in names])
            x, y = np.where(u, 0.0, x), np.where(u, 0.0, y)
        if near(x, y):
            return None
        bad = next(i for i in np.ndindex(*x.shape) if not near(x[i], y[i]))
        return f"value {x[bad]} instead of {y[bad]} at {dict(zip(names, bad))}"
    judge(R, tuple(dict.fromkeys(align + props)), what + ": values", facts, values)

    def labels(e):
        cd, st = {}, {}
        for p in ops:
            for n in p.names:
                cd[n], st[n] = p.cd[n], p.states(n)
        got = pydata(it, v.fields.get("var_cards"))
        exp = {n: cd[n] for n in names}
        if isinstance(got, dict) and {k: int(x) for k, x in got.items()} != exp:
            return f"cardinalities {got} instead of {exp}"
        c = pydata(it, v.fields.get("cardinalities"))
        if c is not None and [int(x) for x in c] != [cd[n] for n in names]:
            return f"cardinalities {c} for {names}"
        a = pydata(it, v.fields.get("vars_assignments_names_dict"))
        if isinstance(a, dict) and {k: list(x) for k, x in a.items() if k in names} != {n: list(st[n]) for n in names}:
            return f"state names {a} for {names}"
        return None
    judge(R, align, what + ": labels", facts, labels)


def z1(d):
    return sum(i * (k + 1) for k, (v, i) in enumerate(sorted(d.items()))) % 3 == 0


def z2(d):
    return sum(i * (k + 2) for k, (v, i) in enumerate(sorted(d.items()))) % 2 == 1


def z3(d):
    return d.get("a", d.get("b", 0)) == 0


CP = ("V01", "V02", "V04", "V05", "V14")


@obligation(*CP, "V06")
def finite_table_products(it, R):
    for i, (a, b) in enumerate(PAIRS):
        for cards in CARDS if i in (2, 4, 6, 7, 10, 11) or R.tier == "thorough" else ("uneven", "equal"):
            for za, zb in ((None, None), (z1, z2), (z3, z3), (z2, None), (None, z3)):
                for op, f in (("multiply", lambda x, y: x * y), ("divide", lambda x, y: x / y), ("cancel", None)):
                    if op != "multiply" and not set(b) <= set(a):
                        continue
                    A, B = Ca("A", a, cards, za, named=i % 2), Ca("B", b, cards, zb, named=i % 2)
                    cd = {**A.cd, **B.cd}
                    g = f or (lambda x, y: np.where((x == 0) & (y == 0), 0.0, x / y))
                    world(it, A, B)
                    und = (lambda e: tcombine(A.tab(e), B.tab(e), lambda x, y: (x == 0) & (y == 0), cd)) if op == "divide" else None
                    go(it, R, f"Categorical.{op} of {a} and {b} ({cards} cardinalities{', zeros' if za or zb else ''})", [A, B], lambda it, x, y: meth(it, x, op, y),
                       lambda o, v: check_cat(it, R, o, f"Categorical.{op}", v, lambda e: tcombine(A.tab(e), B.tab(e), g, cd), [A, B],
                                              props=("V05", "V06") if op == "cancel" else ("V05",), undefined=und),
                       qual=f"Categorical.{op}", main=("V04", "V05") + (("V06",) if op == "cancel" else ()))


@obligation(*CP)
def finite_table_marginals(it, R):
    for a, s in SUBS:
        for cards in CARDS:
            for keep in (True, False):
                rest = [v for v in a if v not in s]
                if not keep and not rest:
                    continue
                for z in (None, z1):
                    A = Ca("A", a, cards, z, named=True)
                    kept = list(s) if keep else rest
                    world(it, A)
                    go(it, R, f"Categorical.marginalize of {a} ({cards}), {s}, keep={keep}", [A],
                       lambda it, x: meth(it, x, "marginalize", mark(pylist(list(s)), "vrs"), keep=keep),
                       lambda o, v: check_cat(it, R, o, "Categorical.marginalize", v, lambda e: tmarg(A.tab(e), kept), A), qual="Categorical.marginalize", main=("V04", "V05"))


@obligation(*CP)
def finite_table_reduce(it, R):
    for a, s in SUBS + [("abc", "cab"), ("bca", "ac"), ("cadb", "bcd")]:
        for cards in ("uneven", "equal"):
            for pick in (0, 1, -1):
                A = Ca("A", a, cards, z1 if pick == 1 else None, named=True)
                obs = {v: (pick + k) % A.cd[v] if pick >= 0 else A.cd[v] - 1 for k, v in enumerate(s)}
                world(it, A)
                go(it, R, f"Categorical.reduce of {a} ({cards}) by {obs}", [A],
                   lambda it, x: meth(it, x, "reduce", mark(pylist(list(s)), "vrs"), mark(pylist([obs[v] for v in s]), "values")),
                   lambda o, v: check_cat(it, R, o, "Categorical.reduce", v, lambda e: tred(A.tab(e), obs), A), qual="Categorical.reduce", main=("V04", "V05"))
                if len(s) == len(a):
                    world(it, A)
                    go(it, R, f"Categorical.potential of {a} ({cards}) at {obs}", [A],
                       lambda it, x: meth(it, x, "potential", mark(pylist(list(s)), "vrs"), mark(pylist([obs[v] for v in s]), "assignment")),
                       lambda o, v: num_is(R, o, ("V05",), "Categorical.potential", v, lambda e: tred(A.tab(e), obs)[1]), qual="Categorical.potential", main=("V05",))
    for a in ("ab", "abc", "cab"):
        for order in itertools.permutations(a):
            for k in range(3):
                A = Ca("A", a, "equal")
                obs = {v: (k >> i) & 1 for i, v in enumerate(a)}
                world(it, A)
                go(it, R, f"Categorical.potential of {a} at {''.join(order)} = {obs}", [A],
                   lambda it, x: meth(it, x, "potential", pylist(list(order)), pylist([obs[v] for v in order])),
                   lambda o, v: num_is(R, o, ("V05",), "Categorical.potential", v, lambda e: tred(A.tab(e), obs)[1]), qual="Categorical.potential", main=("V05",))


@obligation(*CP, "V13")
def finite_table_unary(it, R):
    for a in ("a", "ba", "cab", "bdca"):
        for cards in ("uneven", "equal"):
            for z in (None, z1):
                A = Ca("A", a, cards, z, named=len(a) % 2)
                w = f"({a}, {cards})"
                for op, f in (("normalize", lambda t: (t[0], t[1] / t[1].sum())), ("copy", lambda t: t)):
                    world(it, A)
                    go(it, R, f"Categorical.{op} {w}", [A], lambda it, x: meth(it, x, op),
                       lambda o, v: (check_cat(it, R, o, f"Categorical.{op}", v, lambda e: f(A.tab(e)), A, props=("V05", "V13") if op == "copy" else ("V05",)),
                                     op == "copy" and order_is(it, R, o, "Categorical.copy", v, A.names)), qual=f"Categorical.{op}", main=("V04", "V05"))
                for order in list(itertools.permutations(a))[:6]:
                    world(it, A)
                    go(it, R, f"Categorical.reorder {w} to {''.join(order)}", [A], lambda it, x: meth(it, x, "reorder", mark(pylist(list(order)), "order")),
                       lambda o, v: (check_cat(it, R, o, "Categorical.reorder", v, A.tab, A), order_is(it, R, o, "Categorical.reorder", v, list(order))),
                       qual="Categorical.reorder", main=("V04", "V05"))
                world(it, A)
                go(it, R, f"Categorical.dense_distribution_array {w}", [A], lambda it, x: it.getattr(x, "dense_distribution_array"),
                   lambda o, v: num_is(R, o, ("V04", "V05"), "Categorical.dense_distribution_array", v,
                                       lambda e: np.array([list(i) + [A.tab(e)[1][i]] for i in np.ndindex(*A.cards)])), qual="Categorical.dense_distribution_array", main=("V04", "V05"))


def rows_of(it, v):
    """(column names, rows) of a data frame"""
    if not isinstance(v, F.Frame):
        raise Unset("not a data frame")

    def seq(x):
        ps = it.seq_parts(x)
        if ps is None or not all(isinstance(p, One) for p in ps):
            raise Unset("sequence")
        return [p.v for p in ps]
    if isinstance(v.data, DObj) and v.columns is None:
        if getattr(v.data, "imprecise", False) or not all(e.one() for e in v.data.ents):
            raise Unset("dict")
        return [e.key for e in v.data.ents], [list(r) for r in zip(*[seq(e.val) for e in v.data.ents])]
    return seq(v.columns), [seq(r) for r in seq(v.data)]


@obligation("V04", "V05", "V01")
def finite_table_reports(it, R):
    """the most probable assignment, the table of values: every value stands with its own variable and state"""
    for a in ("a", "ba", "cab", "dab"):
        for cards in ("uneven", "equal"):
            for named in (True, False):
                A = Ca("A", a, cards, named=named)
                w = f"({a}, {cards}, {'named' if named else 'numbered'} states)"

                def top(e):
                    t = A.tab(e)[1]
                    return [int(i) for i in np.unravel_index(int(np.argmax(t)), t.shape)]

                def lab(e):
                    return [A.states(v)[i] for v, i in zip(A.names, top(e))]
                for op, want, P in (("argmax", top, ("V05",)), ("argmax_assignment_names", lab, ("V05", "V04"))):
                    def ver(o, v):
                        def f(e):
                            got = pydata(it, v)
                            return None if isinstance(got, tuple) and list(got) == want(e) else f"{got} instead of {want(e)} {w}"
                        if isinstance(v, Top):
                            return R.verdict(P, f"Categorical.{op}", *top_verdict(v))
                        judge(R, P, f"Categorical.{op}", o.facts, f)
                    world(it, A)
                    go(it, R, f"Categorical.{op} {w}", [A], lambda it, x: meth(it, x, op), ver, qual=f"Categorical.{op}", main=P)
                for nm in (True, False):
                    def ver2(o, v):
                        def f(e):
                            cols, rows = rows_of(it, v)
                            if sorted(map(str, cols)) != sorted(A.names + ["prob"]):
                                return f"columns {cols}"
                            t, seen = A.tab(e)[1], set()
                            for r in rows:
                                d = dict(zip(cols, r))
                                ix = tuple(A.states(x).index(d[x]) if nm else int(d[x]) for x in A.names)
                                if not near(e.num(d["prob"]), t[ix]):
                                    return f"row {r} of {cols}: the value of that assignment is {t[ix]:.5g} {w}"
                                seen.add(ix)
                            return None if len(seen) == len(rows) == t.size else f"{len(rows)} rows, {len(seen)} different assignments"
                        if isinstance(v, Top):
                            return R.verdict(("V04",), "Categorical.get_df", *top_verdict(v))
                        judge(R, ("V04",), "Categorical.get_df", o.facts, lambda e: guarded(f, e))
                    world(it, A)
                    go(it, R, f"Categorical.get_df {w}, named_assignments={nm}", [A], lambda it, x: meth(it, x, "get_df", named_assignments=nm), ver2, qual="Categorical.get_df", main=("V04",))


def guarded(f, e):
    try:
        return f(e)
    except ValueError as x:
        return str(x)


def tlike(other, change=0.0, at=None):
    def f(self, rng, out):
        for i in np.ndindex(*self.cards):
            d = dict(zip(self.names, i))
            out[(self.key,) + i] = out[(other.key,) + tuple(d[v] for v in other.names)] + (change if at is None or at(d) else 0.0)
    return f


@obligation("V12", "V01", "V04")
def finite_table_equals(it, R):
    for a, b in (("a", "a"), ("ab", "ab"), ("ab", "ba"), ("abc", "bca"), ("abc", "cab"), ("dbca", "acdb")):
        for cards in ("uneven", "equal"):
            for z in (None, z1):
                for nm, d, tol, want in (("the same function", 0.0, None, True), ("another value", 0.9, None, False),
                                         ("a value within the tolerance asked for", 0.01, 0.3, True), ("a value outside a tight tolerance", 1e-5, 1e-9, False)):
                    A = Ca("A", a, cards, z)
                    last = [v for v in np.ndindex(*A.cards) if not (z and z(dict(zip(a, v))))][-1]
                    B = Ca("B", b, cards, z, dup=tlike(A, d, lambda x: all(x[v] == i for v, i in zip(a, last))))
                    world(it, A, B)
                    kw = {} if tol is None else dict(rtol=tol, atol=tol)
                    go(it, R, f"Categorical.equals of {a} and {b} ({cards}), {nm}", [A, B], lambda it, x, y: meth(it, x, "equals", y, **kw),
                       lambda o, v: bool_is(R, o, ("V12", "V04") if tol is None else ("V12",), f"Categorical.equals: {nm}", v, want), main=("V12",), qual="Categorical.equals")
            if len(a) > 1:
                A = Ca("A", a, cards, z1)
                B = Ca("B", b, cards, z2, dup=tlike(A))
                world(it, A, B)
                go(it, R, f"Categorical.equals of {a} and {b} ({cards}), other zeros", [A, B], lambda it, x, y: meth(it, x, "equals", y),
                   lambda o, v: bool_is(R, o, ("V12",), "Categorical.equals: other zeros", v, False), main=("V12",), qual="Categorical.equals")
    for a, b in (("ab", "ac"), ("ab", "abc"), ("abc", "ab"), ("a", "b")):
        A, B = Ca("A", a, "equal"), Ca("B", b, "equal")
        world(it, A, B)
        go(it, R, f"Categorical.equals of {a} and {b}", [A, B], lambda it, x, y: meth(it, x, "equals", y),
           lambda o, v: bool_is(R, o, ("V12",), "Categorical.equals: other variables", v, False), main=("V12",), qual="Categorical.equals")


def tkl(p, q):
    with np.errstate(all="ignore"):
        return np.where(p > 0, p * np.log(p / q), 0.0).sum()


@obligation("V11", "V01")
def finite_table_kl(it, R):
    for a, b in (("a", "a"), ("ab", "ab"), ("ab", "ba"), ("abc", "bca"), ("cab", "abc"), ("acdb", "dbca")):
        for cards in ("uneven", "equal"):
            for za, zb in ((None, None), (z1, None), (z1, z1), (None, z1)):
                for nf in (True, False):
                    A = Ca("A", a, cards, za)
                    B = Ca("B", b, cards, zb, dup=None if nf else normed)
                    world(it, A, B)

                    def want(e):
                        x, y = tplace(A.tab(e), sorted(a), A.cd), tplace(B.tab(e), sorted(a), A.cd)
                        return tkl(x / x.sum(), y / y.sum())
                    go(it, R, f"Categorical.kl_divergence of {a} and {b} ({cards}), normalize_factor={nf}", [A, B],
                       lambda it, x, y: meth(it, x, "kl_divergence", y, normalize_factor=nf),
                       lambda o, v: num_is(R, o, ("V11",), "Categorical.kl_divergence", v, want), main=("V11",), qual="Categorical.kl_divergence")
            A = Ca("A", a, cards)
            world(it, A)
            go(it, R, f"Categorical.distance_from_vacuous of {a} ({cards})", [A], lambda it, x: meth(it, x, "distance_from_vacuous"),
               lambda o, v: num_is(R, o, ("V11",), "Categorical.distance_from_vacuous", v, lambda e: tkl(A.tab(e)[1] / A.tab(e)[1].sum(), np.full(A.cards, 1.0 / np.prod(A.cards)))),
               main=("V11",), qual="Categorical.distance_from_vacuous")


def normed(self, rng, out):
    ks = [(self.key,) + i for i in np.ndindex(*self.cards) if isinstance(self.T[i], S.Poly)]
    w = math.log(sum(math.exp(out[k]) for k in ks))
    for k in ks:
        out[k] -= w


@obligation(*CP)
def finite_table_histories(it, R):
    for a, b, c in (("abc", "bcd", "ca"), ("ba", "ab", "b"), ("cab", "d", "bd")):
        for cards in CARDS:
            for z in (None, z2):
                A, B, C = Ca("A", a, cards, z, True), Ca("B", b, cards, None, True), Ca("C", c, cards, None, True)
                cd = {**A.cd, **B.cd, **C.cd}
                world(it, A, B, C)
                keep = [v for v in sorted(set(a) | set(b)) if v != b[0]]

                def ch(it, x, y, z):
                    p = meth(it, meth(it, x, "multiply", y), "marginalize", pylist(keep[::-1]))
                    return meth(it, meth(it, p, "multiply", z), "normalize")

                def want(e):
                    t = tcombine(tmarg(tcombine(A.tab(e), B.tab(e), lambda x, y: x * y, cd), keep), C.tab(e), lambda x, y: x * y, cd)
                    return t[0], t[1] / t[1].sum()
                go(it, R, f"product, marginal, product, normalisation ({a}, {b}, {c}, {cards})", [A, B, C], ch,
                   lambda o, v: check_cat(it, R, o, "chain of operations", v, want, [A, B, C]), qual="chain of operations", main=("V04", "V05"))
