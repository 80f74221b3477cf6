"""Drawing samples. Random numbers are symbols: a sample is then an affine function of independent standard normal symbols, from which its
mean and covariance are read off; the choice of a component is a script (every sequence of choices), its probabilities are recorded."""
from itertools import product as iprod
from .finmix import *
from . import nlg
from .messages import explore
from ..absfac import names_of

P = ("V30",)
MAXZ = 64


class Noise:
    """replaces the random generators of numpy"""

    def __init__(self, it, script=()):
        self.it, self.full = it, list(script)
        self.reset()
        L = it.lib

        def lib(names, f):
            def g(it, a, k):
                return S.guard(it, lambda: S.wrap(it, f(*[S.conv(it, x) for x in a], **{n: S.conv(it, x) for n, x in k.items()})))
            for n in names:
                L["numpy.random." + n] = g
        lib(["normal"], self.normal)
        lib(["standard_normal"], lambda size=None: self.normal(0, 1, size))
        lib(["randn"], lambda *s: self.normal(0, 1, s or None))
        lib(["multivariate_normal"], self.multi)
        lib(["multinomial"], self.multinomial)
        lib(["randint", "integers"], lambda low, high=None, size=None: self.pick(high - low if high is not None else low, size, None, low if high is not None else 0))
        L["numpy.random.choice"] = self.choice
        for m, ns in (("numpy.random.", ("random", "rand", "uniform", "random_sample", "ranf", "sample")), ("random.", ("random", "uniform", "choices", "choice", "sample", "randint", "randrange"))):
            for n in ns:
                L[m + n] = self.unmodelled
        for n in ("seed", "default_rng", "RandomState"):
            L["numpy.random." + n] = lambda it, a, k, n=n: self.source(n, a, k)

    def unmodelled(self, it, a, k):
        self.other = True
        return Top("a random number of another kind")

    def reset(self):
        self.other = False
        self.n, self.script, self.p, self.seeds, self.bad = 0, list(self.full), [], [], []

    def source(self, n, a, k):
        if [x for x in list(a) + list(k.values()) if x is not None]:
            self.seeds.append(n)
        return None if n == "seed" else Ext("numpy.random")

    def z(self, shape):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = S.sym("z", self.n)
            self.n += 1
        if self.n > MAXZ:
            raise S.Unknown(Top("number of random numbers"))
        return out

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, dtype=object), np.asarray(scale, dtype=object)
        sh = np.broadcast(loc, scale).shape if size is None else (size,) if isinstance(size, int) else tuple(int(n) for n in size)
        r = loc + scale * self.z(sh)
        return r if np.ndim(r) else np.asarray(r, dtype=object).item()

    def multi(self, mean, cov, size=None, **k):
        m, c = np.asarray(mean, dtype=object), S.square(cov)
        if m.ndim != 1 or m.shape[0] != c.shape[0]:
            raise ValueError("mean must be 1 dimensional and fit cov")
        sh = () if size is None else (size,) if isinstance(size, int) else tuple(int(n) for n in size)
        z = self.z(sh + m.shape)
        low = F.cholesky(c)
        return np.asarray(S.mm(z, low.T), dtype=object) + m

    def take(self, n):
        if len(self.script) < n:
            raise S.Unknown(Top("more choices than samples"))
        r, self.script = self.script[:n], self.script[n:]
        return r

    def pick(self, k, size, p, low=0):
        self.p.append((int(k), p))
        n = 1 if size is None else size if isinstance(size, int) else int(np.prod([int(x) for x in size]))
        r = [int(low) + i for i in self.take(n)]
        if any(not 0 <= i - int(low) < k for i in r):
            raise S.Unknown(Top("choice among fewer things"))
        return r[0] if size is None else np.array(r, dtype=object).reshape(size if not isinstance(size, int) else (size,))

    def choice(self, it, a, k):
        d = dict(zip(("a", "size", "replace", "p"), a), **k)
        if d.get("replace", True) is False:
            self.bad.append("components are chosen without replacement")
        x, p, size = d["a"], d.get("p"), d.get("size")
        if isinstance(x, Top) or isinstance(size, Top):
            return Top("choice among unknown things")
        ps = [One(i) for i in range(x)] if isinstance(x, int) else it.seq_parts(x)
        if ps is None or not all(isinstance(q, One) for q in ps):
            return Top("choice among unknown things")

        def f():
            i = self.pick(len(ps), S.conv(it, size) if size is not None else None, p)
            return i
        r = S.guard(it, f)
        if isinstance(r, Top):
            return r
        if isinstance(r, int):
            return ps[r].v
        if all(isinstance(q.v, int) for q in ps):
            return S.wrap(it, np.array([ps[i].v for i in r.ravel()], dtype=object).reshape(r.shape))
        return pylist([ps[i].v for i in r.ravel()])

    def multinomial(self, n, pvals, size=None):
        if size is not None:
            raise S.Unknown(Top("multinomial draws"))
        k = len(pvals)
        self.p.append((k, S.ND(np.asarray(pvals, dtype=object))))
        r = self.take(int(n))
        return np.array([r.count(i) for i in range(k)], dtype=object)


def zs(rng, out):
    for i in range(MAXZ):
        out[("z", i)] = float(rng.randn())


def affine(e, v, n):
    """(mean, coefficients) of an array as a function of the random symbols, or a message"""
    def at(z):
        w = dict(e.v)
        w.update({("z", i): z[i] for i in range(MAXZ)})
        return F.Env(w).arr(v)
    zero = [0.0] * MAXZ
    m = at(zero)
    co = []
    for i in range(n):
        z = list(zero)
        z[i] = 1.0
        co.append(at(z) - m)
    co = np.array(co).reshape((n,) + m.shape)
    z = [e.v[("z", i)] for i in range(MAXZ)]
    if not near(at(z), m + np.tensordot(np.array(z[:n]), co, 1) if n else m):
        return "the samples are not a linear function of the random numbers"
    return m, co


def drawn(e, v, noise, d, n):
    """(means, joint covariance of all entries) of the samples, or a message"""
    if not isinstance(v, S.ND) or v.arr.shape != (d, n):
        return f"samples are {v!r} instead of an array of shape {(d, n)}"[:200]
    if noise["seeds"]:
        return f"the generator is seeded by {noise['seeds']}: the samples are the same every time"
    if noise["bad"]:
        return noise["bad"][0]
    r = affine(e, v, noise["n"])
    if isinstance(r, str):
        return r
    m, co = r
    return m, np.einsum("zij,zkl->ijkl", co, co)


def snap(noise):
    return {"n": noise.n, "seeds": list(noise.seeds), "bad": list(noise.bad), "p": list(noise.p), "left": len(noise.script), "other": noise.other}


def mean_cov(can):
    c = np.linalg.inv(can[1])
    return c @ can[2], c


def columns(m, c, wants):
    """column j has the mean and covariance wants[j]; columns are independent"""
    for j, (mu, cov) in enumerate(wants):
        if not near(m[:, [j]], mu):
            return f"sample {j} has mean {m[:, j].tolist()} instead of {mu.ravel().tolist()}"
        if not near(c[:, j, :, j], cov):
            return f"sample {j} has covariance {c[:, j, :, j].tolist()} instead of {cov.tolist()}"
        for k in range(len(wants)):
            if k != j and not near(c[:, j, :, k], 0 * cov):
                return f"samples {j} and {k} are not independent"
    return None


@obligation("V30", "V01", "V10")
def gaussian_samples(it, R):
    for a in ("a", "ba", "cab"):
        for form in FORMS:
            for n in (1, 2, 4):
                for pre in ((), ("get_prec",), ("get_cov",)):
                    A = Ga("A", a, form)
                    world(it, A, extra=zs)
                    noise = Noise(it)

                    def call(it, x):
                        noise.reset()
                        for p in pre:
                            meth(it, x, p)
                        return meth(it, x, "sample", n), snap(noise)

                    def ver(o, v):
                        v, ns = v
                        what = "Gaussian.sample"
                        if isinstance(v, Top):
                            return R.verdict(P, what, *top_verdict(v))

                        def f(e):
                            r = drawn(e, v, ns, len(a), n)
                            return r if isinstance(r, str) else columns(*r, [mean_cov(A.can(e))] * n)
                        judge(R, P, what, o.facts, f)
                    go(it, R, f"Gaussian.sample ({a}, {form}, {n} samples, after {pre})", [A], call, ver, qual="Gaussian.sample", main=P, own=R.prop != "V30")


@obligation("V30", "V01", "V10")
def mixture_samples(it, R):
    for a, forms, n in (("a", ("can", "cov"), 2), ("ba", ("can", "can"), 2), ("ab", ("cov", "both", "can"), 2), ("a", ("cov",), 2), ("a", ("cov", "cov"), 1), ("ba", ("cov", "can"), 3)):
        for script in iprod(range(len(forms)), repeat=n):
            A = Gm("A", a, forms)
            world(it, A, extra=zs)
            noise = Noise(it, script)

            def call(it, x):
                noise.reset()
                return meth(it, x, "sample", n), snap(noise)

            def ver(o, v):
                v, ns = v
                what = "GaussianMixture.sample"
                if isinstance(v, Top):
                    return R.verdict(P, what, *top_verdict(v))
                if len(forms) > 1 and not ns["p"] and ns["other"]:
                    return R.verdict(P, what, UNK, "components are chosen in an unknown way")
                if any(isinstance(p, Top) for k, p in ns["p"]):
                    return R.verdict(P, what, UNK, "probabilities unknown")

                def f(e):
                    r = drawn(e, v, ns, len(a), n)
                    if isinstance(r, str):
                        return r
                    if ns["left"] and len(forms) > 1:
                        return f"{n - ns['left']} components are chosen for {n} samples"
                    lw = np.array([weight(c) for c in A.cans(e)])
                    w = np.exp(lw - lw.max())
                    w = w / w.sum()
                    mc = [mean_cov(c) for c in A.cans(e)]
                    m, c = r
                    ts = []
                    for j in range(n):
                        t = [i for i in range(len(forms)) if near(m[:, [j]], mc[i][0]) and near(c[:, j, :, j], mc[i][1])]
                        if not t:
                            return f"sample {j} has the mean {m[:, j].tolist()} and covariance of no component"
                        ts.append(t[0])
                    bad = columns(m, c, [mc[t] for t in ts])
                    if not bad and len(forms) > 1 and not ns["p"]:
                        return "the components of the samples are not chosen at random"
                    if bad or not ns["p"]:
                        return bad
                    for k, p in ns["p"]:
                        q = np.full(k, 1.0 / k) if p is None else np.array([e.num(S.poly(x)) for x in flat(it, p)])
                        if not near(q.sum(), 1.0):
                            return f"probabilities {q.tolist()} do not add up to one"
                        got, want = sorted(float(q[i]) for i in script), sorted(float(w[t]) for t in ts)
                        if not near(np.array(got), np.array(want)):
                            return f"components are chosen with probabilities {q.tolist()} instead of {w.tolist()}"
                    return None
                judge(R, P, what, o.facts, f)
            go(it, R, f"GaussianMixture.sample ({a}, {forms}, choices {script})", [A], call, ver, qual="GaussianMixture.sample", main=P, own=R.prop != "V30")


def flat(it, p):
    x = S.conv(it, p)
    return list(np.asarray(x, dtype=object).ravel())


def draws_of(v):
    """[[(factor, variable, draw)]] of an array of abstract samples, or a message"""
    if not isinstance(v, S.ND) or v.arr.ndim != 2:
        return f"samples are {v!r}"[:200]
    out = []
    for row in v.arr:
        out.append([])
        for x in row:
            ms = list(S.poly(x).t.items())
            if len(ms) != 1 or ms[0][1] != 1 or len(ms[0][0]) != 1 or ms[0][0][0][0][0] != "draw":
                return f"an entry is {x!r}"[:200]
            _, i, var, *d = ms[0][0][0][0]
            out[-1].append((i, var, tuple(d)))
    return out


def abstract_samples(R, w, what, v, names, wants):
    """wants: for every column the value of the factor it is drawn from"""
    if isinstance(v, Top):
        return R.verdict(P, what, *top_verdict(v))
    ds = draws_of(v)
    if isinstance(ds, str):
        return R.verdict(P, what, NE, f"{R.cur}: {ds}")
    n = len(wants)
    if len(ds) != len(names) or any(len(r) != n for r in ds):
        return R.verdict(P, what, NE, f"{R.cur}: an array of shape {v.arr.shape} for {n} samples of {names}")
    ids = [w.vals.id(x) for x in wants]
    cols = [{r[j][2] for r in ds} for j in range(n)]
    ok = all(len(c) == 1 for c in cols) and len({tuple(c) for c in cols}) == n
    R.verdict(P, what + ": columns are separate draws", EQ if ok else NE, f"{R.cur}: {ds}"[:300])
    ok = all([r[j][1] for r in ds] == names for j in range(n))
    R.verdict(P, what + ": order of the variables", EQ if ok else NE, f"{R.cur}: rows {[r[0][1] for r in ds]} for variables {names}")
    ok = all(r[j][0] == ids[j] for r in ds for j in range(n))
    R.verdict(P, what + ": drawn from the joint", EQ if ok else NE, f"{R.cur}: drawn from another function than the current joint")


@obligation("V30", "V01")
def nonlinear_samples(it, R):
    w = nlg.NW(it)
    for X, Y in nlg.SHAPES:
        steps = [(), (("multiply", Y),), (("multiply", X),), (("reduce", X[:1]),), (("reduce", Y[-1:]),), (("weight", ()),), (("multiply", X), ("reduce", Y[:1])), (("multiply", Y), ("multiply", X))]
        for st0 in steps:
            for between in (False, True):
                what = f"NonLinearGaussian.sample ({X} -> {Y}, after {st0}{', sampled in between' if between else ''})"

                def thunk(it):
                    x, st = nlg.live(it, w, None, ("g", None), X, Y)
                    for i, (op, vs) in enumerate(st0):
                        if between:
                            meth(it, x, "sample", 2)
                        if op == "multiply":
                            v = alg.f(f"s{i}", vs)
                            x, st = meth(it, x, op, w.al.make(v, list(vs))), st.absorb(v, list(vs), alg.mul)
                        elif op == "reduce":
                            xs = [nlg.evsym(v) for v in vs]
                            x, st = meth(it, x, op, pylist(list(vs)), pylist(xs)), st.but(E=dict(st.E, **dict(zip(vs, xs))))
                        else:
                            meth(it, x, "add_log_weight", T("logs", alg.f("v", ())))
                            st = st.but(lw=alg.mul(st.lw, alg.f("v", ())))
                    return st, meth(it, x, "sample", 3), names_of(it, it.getattr(x, "var_names"))

                def ver(o):
                    st, v, ns = o.value
                    abstract_samples(R, w, "NonLinearGaussian.sample", v, ns, [st.joint()] * 3)
                explore(it, R, what, thunk, ver, P)
    for X, Y in nlg.SHAPES[:2]:
        for script in iprod(range(2), repeat=2):
            noise = Noise(it, script)
            what = f"NonLinearGaussianMixture.sample ({X} -> {Y}, choices {script})"

            def thunk(it):
                noise.reset()
                sts, xs = [], []
                for n in ("g", "h"):
                    x, st = nlg.live(it, w, None, (n, n + "c"), X, Y, lw="w" + n)
                    xs.append(x)
                    sts.append(st)
                m = new(it, cls(it, nlg.NLM, "NonLinearGaussianMixture"), pylist(xs))
                return sts, meth(it, m, "sample", 2), names_of(it, it.getattr(m, "var_names")), snap(noise)

            def ver(o):
                sts, v, ns, sn = o.value
                what = "NonLinearGaussianMixture.sample"
                if isinstance(v, Top):
                    return R.verdict(P, what, *top_verdict(v))
                if sn["other"]:
                    return R.verdict(P, what, UNK, "components are chosen in an unknown way")
                if not sn["p"]:
                    return R.verdict(P, what, NE, f"{R.cur}: the components of the samples are not chosen at random; shape {v.arr.shape}")
                if any(p is None for k, p in sn["p"]):
                    return R.verdict(P, what, NE, f"{R.cur}: components are chosen uniformly, whatever their weights")
                abstract_samples(R, w, what, v, ns, [sts[i].joint() for i in script])
            explore(it, R, what, thunk, ver, P)
