"""Gaussian mixtures over a few named variables: components in every stored form and order, with symbolic parameters.
A mixture denotes the sum of its components; two mixtures are compared as functions, at points drawn with the interpretation."""
from .finite import *
from .mixture import comps_of
from ..heap import ClsV

GMM = "veroku.factors.experimental.gaussian_mixture"
P = ("V24",)
PTS = 4


class Gm:
    """a mixture operand"""

    def __init__(self, key, names, forms, cancel=0):
        self.key, self.names, self.cancel = key, list(names), cancel
        self.gs = [Ga(f"{key}{i}", names, f) for i, f in enumerate(forms)]

    def leaves(self, rng, out):
        for g in self.gs:
            g.leaves(rng, out)

    def make(self, it):
        return mark(new(it, cls(it, GMM, "GaussianMixture"), pylist([g.make(it) for g in self.gs]), cancel_method=self.cancel), self.key)

    def cans(self, e):
        return [g.can(e) for g in self.gs]

    def after(self, it, R, o, what, x):
        if R.prop in ("V01", "V09"):
            check_mix(it, R, o, what, x, self.cans, props=("V01",), scope=("V01",))


def points(e, n):
    """points of an interpretation"""
    k = ("points", n)
    if k not in e.memo:
        e.memo[k] = np.random.RandomState(5 + n).randn(PTS, n) * 0.8
    return e.memo[k]


def value(can, pts, order):
    """the potential at points given over order"""
    names, k, h, g = can
    x = pts[:, [order.index(v) for v in names]]
    return np.exp(-0.5 * np.einsum("pi,ij,pj->p", x, k, x) + (x @ h).ravel() + g)


def comp_can(e, c, names, m):
    """canonical parameters of a component in one of its forms"""
    flag, a, b, g = m
    a, b = e.arr(a), e.arr(b)
    n = len(names)
    if a.shape != (n, n) or b.shape != (n, 1):
        return f"a component has shapes {a.shape} and {b.shape} for {n} variables"
    g = float(e.arr(g).ravel()[0]) if isinstance(g, S.ND) and g.arr.size == 1 else e.num(g)
    return (names,) + (to_can(a, b, g) if flag == "covform" else (a, b, g))


def components(it, R, v, what, props, facts):
    """[(component, names, forms)], or None after a verdict"""
    if isinstance(v, Top):
        return R.verdict(props, what, *top_verdict(v))
    if not isinstance(v, Inst):
        return judge(R, props, what, facts, lambda e: f"result is {v!r}")
    cs = it.seq_parts(it.getattr(v, "components")) if "components" in v.fields else [One(v)]
    if cs is None or not all(isinstance(p, One) for p in cs):
        return R.verdict(props, what, UNK, "components unknown")
    out = []
    for c in [p.v for p in cs]:
        if isinstance(c, Top):
            return R.verdict(props, what, *top_verdict(c))
        names, fs = strs(it, c.fields.get("_var_names")), forms_of(c.fields)
        if names is None or fs is None:
            return R.verdict(props, what, UNK, "names or forms of a component unknown")
        if not fs or any(x is None for f in fs for x in f):
            return judge(R, props + ("V09",), what, facts, lambda e: "a component has no complete form")
        bad = [x for f in fs for x in f if isinstance(x, Top)]
        if bad:
            return R.verdict(props, what, UNK, bad[0].why)
        out.append((c, names, fs))
    return out


def check_mix(it, R, o, what, v, want, props=P, scope=("V14",), forms=("V09",), kind=None):
    """v denotes the sum of want(env), a list of (names, K, h, g) over the same variables"""
    facts = o.facts
    if kind and isinstance(v, Inst):
        judge(R, props, what + ": type", facts, lambda e: None if any(c.name == kind for c in v.cls.mro()) else f"result is a {v.cls.name}")
    cs = components(it, R, v, what, props, facts)
    if cs is None:
        return
    if "components" in v.fields:
        vn = strs(it, it.getattr(v, "var_names"))
        judge(R, scope + props, what + ": scope", facts, lambda e: None if vn is not None and sorted(vn) == sorted(want(e)[0][0]) else f"variables {vn} instead of {want(e)[0][0]}")
        nc = it.getattr(v, "num_components")
        judge(R, props, what + ": number of components", facts, lambda e: None if nc == len(cs) else f"num_components {nc!r} with {len(cs)} components")

    def val(e):
        w = want(e)
        order = sorted(w[0][0])
        if any(sorted(n) != order for _, n, _ in cs):
            return f"components over {[n for _, n, _ in cs]} instead of {order}"
        pts = points(e, len(order))
        exp = sum(value(c, pts, order) for c in w)
        for pick in (0, -1):
            got = 0.0
            for c, n, fs in cs:
                can = comp_can(e, c, n, fs[pick])
                if isinstance(can, str):
                    return can
                got = got + value(can, pts, order)
            if not near(got, exp):
                return f"value {got.tolist()} instead of {exp.tolist()} at {pts.tolist()} over {order}"[:300]
    judge(R, tuple(dict.fromkeys(props + (forms if any(len(f) > 1 for _, _, f in cs) else ()))), what + ": function", facts, val)


def moments(cans, order):
    """(log weight, mean, covariance) over order of a sum of Gaussians"""
    w, m, c = [], [], []
    for can in cans:
        _, k, h, g = place(can, order)
        w.append(weight((order, k, h, g)))
        c.append(np.linalg.inv(k))
        m.append(c[-1] @ h)
    t = max(w)
    p = np.exp(np.array(w) - t)
    lw, p = t + math.log(p.sum()), p / p.sum()
    mean = sum(x * y for x, y in zip(p, m))
    cov = sum(x * (y + (z - mean) @ (z - mean).T) for x, y, z in zip(p, c, m))
    return lw, mean, cov


def gauss_of(lw, mean, cov, order):
    return (list(order),) + to_can(cov, mean, lw)


COMPS = [("can",), ("cov",), ("can", "cov"), ("cov", "cov"), ("can", "can"), ("both", "can"), ("cov", "both", "can")]
MP = ("V24", "V01", "V02", "V14")


def each(R):
    for a in ("a", "ba", "cab"):
        for fs in COMPS:
            if len(a) == 3 and len(fs) > 2 and R.tier != "thorough":
                continue
            yield a, fs, f"({a}; {', '.join(fs)})"


@obligation(*MP, "V09", "V13")
def finite_mixture_unary(it, R):
    for a, fs, w in each(R):
        def one(op, f, ver, ops=(), extra=None, **k):
            A = Gm("A", a, fs)
            world(it, A, *ops, extra=extra)
            go(it, R, f"GaussianMixture.{op} {w}", [A, *ops], f, lambda o, v: ver(o, v, A), qual=f"GaussianMixture.{op}", main=P, **k)
        one("copy", lambda it, x: meth(it, x, "copy"), lambda o, v, A: check_mix(it, R, o, "GaussianMixture.copy", v, A.cans, props=("V24", "V13"), kind="GaussianMixture"))
        one("normalize", lambda it, x: meth(it, x, "normalize"),
            lambda o, v, A: check_mix(it, R, o, "GaussianMixture.normalize", v,
                                      lambda e: [(n, k, h, g - moments(A.cans(e), list(a))[0]) for n, k, h, g in A.cans(e)], kind="GaussianMixture"))
        one("get_log_weight", lambda it, x: meth(it, x, "get_log_weight"),
            lambda o, v, A: num_is(R, o, P, "GaussianMixture.get_log_weight", v, lambda e: moments(A.cans(e), list(a))[0]))
        one("moment_match_to_single_gaussian", lambda it, x: meth(it, x, "moment_match_to_single_gaussian"),
            lambda o, v, A: check_gauss(it, R, o, "GaussianMixture.moment_match_to_single_gaussian", v, lambda e: gauss_of(*moments(A.cans(e), list(a)), list(a)), props=P, align=P, forms=("V09", "V24")))
        xs = [("val", v) for v in a]
        ex = lambda rng, out: out.update({k: float(rng.randn()) for k in xs})
        pt = lambda e: np.array([[e.v[("val", v)] for v in a]])
        col = lambda order: S.ND(np.array([S.sym("val", v) for v in order] + [None], dtype=object)[:-1].reshape(-1, 1))
        one("potential", lambda it, x: meth(it, x, "potential", mark(col(a), "x_val")),
            lambda o, v, A: num_is(R, o, P, "GaussianMixture.potential", v, lambda e: sum(value(c, pt(e), list(a)) for c in A.cans(e))[0]), extra=ex)
        for order in (None, a, a[::-1], a[1:] + a[:1]):
            kw = {} if order is None else dict(vrs=pylist(list(order)))
            one("log_potential", lambda it, x: meth(it, x, "log_potential", mark(col(order or a), "x_val"), **kw),
                lambda o, v, A: num_is(R, o, P, "GaussianMixture.log_potential", v, lambda e: math.log(sum(value(c, pt(e), list(a)) for c in A.cans(e))[0])), extra=ex)
        for i in range(len(fs)):
            one("get_component", lambda it, x: meth(it, x, "get_component", i),
                lambda o, v, A: check_gauss(it, R, o, "GaussianMixture.get_component", v, A.gs[i].can, props=P, align=P, forms=P))


@obligation(*MP)
def finite_mixture_marginals(it, R):
    for a, fs, w in each(R):
        for s in sorted({a[:1], a[-1:], a[1:] + a[:1], a[:2][::-1]}):
            for keep in (True, False):
                rest = [v for v in a if v not in s]
                if not keep and not rest:
                    continue
                kept = list(s) if keep else rest
                A = Gm("A", a, fs)
                world(it, A)
                go(it, R, f"GaussianMixture.marginalize {w}, {s}, keep={keep}", [A],
                   lambda it, x: meth(it, x, "marginalize", mark(pylist(list(s)), "vrs"), keep=keep),
                   lambda o, v: check_mix(it, R, o, "GaussianMixture.marginalize", v, lambda e: [marginal(c, kept) for c in A.cans(e)], kind="GaussianMixture"),
                   qual="GaussianMixture.marginalize", main=P)
            if len(s) < len(a):
                A = Gm("A", a, fs)
                names = [("val", v) for v in s]
                world(it, A, extra=lambda rng, out: out.update({k: float(rng.randn()) for k in names}))
                go(it, R, f"GaussianMixture.reduce {w}, {s}", [A],
                   lambda it, x: meth(it, x, "reduce", mark(pylist(list(s)), "vrs"), mark(pylist([S.sym("val", v) for v in s]), "values")),
                   lambda o, v: check_mix(it, R, o, "GaussianMixture.reduce", v, lambda e: [observed(c, {v: e.v[("val", v)] for v in s}) for c in A.cans(e)], kind="GaussianMixture"),
                   qual="GaussianMixture.reduce", main=P)


@obligation(*MP)
def finite_mixture_products(it, R):
    for a, b in (("a", "a"), ("ab", "ba"), ("ab", "b"), ("ba", "cb"), ("a", "b")):
        for fa, fb in ((("can", "cov"), ("can",)), (("cov", "cov"), ("cov",)), (("both", "can"), ("both", "cov")), (("cov",), ("can", "cov")), (("can", "cov"), None), (("cov", "both"), None), (("cov", "can", "cov"), None)):
            for op, s in (("multiply", 1), ("divide", -1)):
                if op == "divide" and not set(b) <= set(a):
                    continue
                A, B = Gm("A", a, fa), Gm("B", b, fb) if fb else Ga("B", b, "cov")
                world(it, A, B)

                def want(e):
                    cs = B.cans(e) if fb else [B.can(e)]
                    if s < 0 and len(cs) > 1:
                        cs = [gauss_of(*moments(cs, list(b)), list(b))]
                    return [combine(x, y, s) for x in A.cans(e) for y in cs]
                go(it, R, f"GaussianMixture.{op} of {a} {fa} and {b} {fb or 'Gaussian'}", [A, B], lambda it, x, y: meth(it, x, op, y),
                   lambda o, v: check_mix(it, R, o, f"GaussianMixture.{op}", v, want, kind="GaussianMixture"), qual=f"GaussianMixture.{op}", main=P)


class Learned:
    """a trained mixture of another library: rows of means, covariances and weights as arrays"""

    def __init__(self, key, names, k):
        self.key, self.names, self.k = key, list(names), k
        self.gs = [Ga(f"{key}{i}", names, "cov") for i in range(k)]

    def leaves(self, rng, out):
        for g in self.gs:
            g.leaves(rng, out)
        w = rng.dirichlet(np.ones(self.k) * 0.4) + 1e-9
        for i, x in enumerate(w / w.sum()):
            out[(self.key, "w", i)] = float(x)
            out[(self.key + str(i), "c")] = math.log(x)

    def make(self, it):
        n = len(self.names)
        means = np.stack([g.v[:, 0] for g in self.gs])
        covs = np.stack([g.M for g in self.gs])
        w = np.empty(self.k, dtype=object)
        for i in range(self.k):
            w[i] = S.sym(self.key, "w", i)
        o = Inst(ClsV("LearnedMixture", None, None, []), {"means_": S.ND(means), "covariances_": S.ND(covs), "weights_": S.ND(w), "n_components": self.k, "covariance_type": "full", "n_features_in_": n, "converged_": True})
        return mark(o, self.key)

    def cans(self, e):
        return [g.can(e) for g in self.gs]

    def after(self, it, R, o, what, x):
        pass


@obligation(*MP)
def finite_mixture_learned(it, R):
    for a in ("a", "ba", "cab"):
        for k in (1, 2, 3):
            A = Learned("L", a, k)
            world(it, A, n=6)
            if not any("from_sklearn_gmm" in c.attrs for c in cls(it, GMM, "GaussianMixture").mro()):
                return
            go(it, R, f"GaussianMixture.from_sklearn_gmm ({a}, {k} components)", [A],
               lambda it, x: it.call(it.getattr(cls(it, GMM, "GaussianMixture"), "from_sklearn_gmm"), [x, mark(pylist(list(a)), "var_names")], {}),
               lambda o, v: check_mix(it, R, o, "GaussianMixture.from_sklearn_gmm", v, A.cans, props=P, kind="GaussianMixture"),
               qual="GaussianMixture.from_sklearn_gmm", main=P)


@obligation("V24", "V26", "V01", "V02", "V10")
def finite_gaussian_split(it, R):
    for form in FORMS:
        for pre in ((), ("get_prec",), ("get_cov",)):
            A = Ga("A", "a", form)
            world(it, A)

            def call(it, x):
                for p in pre:
                    meth(it, x, p)
                return meth(it, x, "_split_gaussian") if has(x, "_split_gaussian") else None

            def ver(o, v):
                if v is None:
                    return
                what = "Gaussian._split_gaussian"
                cs = components(it, R, v, what, ("V24", "V26"), o.facts)
                if cs is None:
                    return
                judge(R, ("V24", "V26"), what + ": several components", o.facts, lambda e: None if len(cs) > 1 else f"{len(cs)} component")
                for nm, i in (("total weight", 0), ("mean", 1), ("covariance", 2)):
                    def f(e, i=i, nm=nm):
                        if any(n != ["a"] for _, n, _ in cs):
                            return f"components over {[n for _, n, _ in cs]}"
                        cans = [comp_can(e, c, n, fs[0]) for c, n, fs in cs]
                        if any(isinstance(c, str) for c in cans):
                            return next(c for c in cans if isinstance(c, str))
                        got, exp = moments(cans, ["a"])[i], moments([A.can(e)], ["a"])[i]
                        return None if near(got, exp) else f"{nm} {np.asarray(got).tolist()} instead of {np.asarray(exp).tolist()}"
                    judge(R, ("V24", "V26"), f"{what}: {nm}", o.facts, f)
            go(it, R, f"Gaussian._split_gaussian ({form}, after {pre})", [A], call, ver, qual="Gaussian._split_gaussian", main=("V24", "V26"))
