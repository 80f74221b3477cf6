"""Templates: concrete format strings, symbolic parameters. Constructors and accessors: nothing of the caller's is kept, nothing stored is handed out."""
import itertools
from ..absfac import *
from .messages import cls, new, pylist, pydict, explore, expect_error
from .factorised import common
from .sigma import gen, check_nd, func, obj
from .errors import arr, W, CATM, SPM, GAM, GMM, FFM, NLM
from .nlg import NW, State
from .. import ndsym as S
import numpy as np

P = ("V27",)
TFM = "veroku.factors._factor_template"


# variable templates and the dictionaries they are filled in with: (templates, [(dictionary, names)])
FORMATS = [
    (["a_{i}", "b_{i}"], [({"i": 0}, ["a_0", "b_0"]), ({"i": 12}, ["a_12", "b_12"]), ({"i": "x"}, ["a_x", "b_x"]), ({"i": 1, "j": 2}, ["a_1", "b_1"])]),
    (["b_{i}", "a_{i}"], [({"i": 0}, ["b_0", "a_0"]), ({"i": 1}, ["b_1", "a_1"])]),
    (["v{t}_{i}", "v{u}_{i}"], [({"t": 0, "u": 1, "i": 3}, ["v0_3", "v1_3"]), ({"t": 1, "u": 0, "i": 3}, ["v1_3", "v0_3"]), ({"i": 7, "u": 2, "t": 1}, ["v1_7", "v2_7"])]),
    (["z", "{n}"], [({"n": "y"}, ["z", "y"]), ({"n": "a"}, ["z", "a"])]),
    (["x_{i}_{i}", "y{{{i}}}"], [({"i": 4}, ["x_4_4", "y{4}"])]),
    (["p", "q"], [({}, ["p", "q"]), ({"i": 0}, ["p", "q"])]),
    (["w{i:03d}", "w{j:>2}"], [({"i": 7, "j": "k"}, ["w007", "w k"])]),
]


def fdict(d):
    return pydict(d)


class Kind:
    """one kind of template: make(it) -> template; check(it, R, o, what, factor, names)"""

    def __init__(self, it):
        self.it = it


class CatK(Kind):
    name, sizes = "CategoricalTemplate", (2, 3)

    def __init__(self, it, form):
        self.it, self.form = it, form
        self.name = f"CategoricalTemplate ({'table' if form else 'tensor'})"

    def make(self, vt):
        if self.form:
            self.keys = [(0, 0), (1, 2), (0, 2)]
            self.args = [mark(pydict({Tup([One(x) for x in k]): S.sym("p", *k) for k in self.keys}), "probs_table"), mark(pylist([2, 3]), "cardinalities")]
            return new(self.it, cls(self.it, CATM, "CategoricalTemplate"), vt, probs_table=self.args[0], cardinalities=self.args[1])
        self.args = [mark(arr("t", 2, 3), "log_probs_tensor")]
        return new(self.it, cls(self.it, CATM, "CategoricalTemplate"), vt, log_probs_tensor=self.args[0])

    def check(self, R, o, what, f, names):
        it = self.it
        for idx in np.ndindex(2, 3):
            v = meth(it, f, "log_potential" if "log_potential" in f.cls.attrs else "potential", pylist(list(names)), pylist(list(idx)))
            lg = "log_potential" in f.cls.attrs
            if self.form:
                want = S.sym("p", *idx) if idx in self.keys else S.poly(0)
            else:
                want = S.sym("t", *idx)
                want = want if lg else S.OWN["exp"](want)
            if isinstance(v, Top):
                R.verdict(P, what, *top_verdict(v))
            elif self.form and idx not in self.keys:
                R.verdict(P, what, EQ if isinstance(v, (int, float)) and v in (0, 0.0) else UNK if isinstance(v, S.Poly) else NE, f"{R.cur}: potential{idx} is {v!r} instead of 0")
            else:
                ok = isinstance(v, (S.Poly, int, float)) and S.same(v, want)
                R.verdict(P, what, EQ if ok else NE, f"{R.cur}: potential{idx} is {v!r} instead of {want!r}")


class SparseK(Kind):
    name = "SparseCategoricalTemplate"

    def make(self, vt):
        self.keys = [(0, 0), (1, 2), (0, 2)]
        self.args = [mark(pydict({Tup([One(x) for x in k]): S.sym("p", *k) for k in self.keys}), "probs_table"), mark(pylist([2, 3]), "cardinalities")]
        return new(self.it, cls(self.it, SPM, "SparseCategoricalTemplate"), self.args[0], self.args[1], vt)

    form = True
    check = CatK.check


class GaussK(Kind):
    name = "GaussianTemplate"

    def make(self, vt):
        self.k, self.h, self.g = obj([[S.sym("k", *sorted((i, j))) for j in range(2)] for i in range(2)]), gen("h", 2, 1), S.sym("g")
        self.args = [mark(pydict({"prec": S.ND(self.k.copy()), "h": S.ND(self.h.copy()), "g": self.g}), "gaussian_parameters")]
        return new(self.it, cls(self.it, GAM, "GaussianTemplate"), self.args[0], vt)

    def check(self, R, o, what, f, names):
        it = self.it
        ns = names_of(it, it.getattr(f, "var_names"))
        if ns is None:
            return R.verdict(P, what, UNK, "variables unknown")
        p = [list(names).index(n) for n in ns]
        check_nd(R, P, what + ": precision", meth(it, f, "get_prec"), self.k[np.ix_(p, p)])
        check_nd(R, P, what + ": h vector", meth(it, f, "get_h"), self.h[p])
        check_nd(R, P, what + ": constant", meth(it, f, "get_g"), obj([[self.g]]))


class LinK(GaussK):
    """a template of a linear conditional makes what the constructor of the conditional makes"""
    name = "make_linear_gaussian_cpd_template"

    def make(self, vt):
        it = self.it
        vs = names_of(it, vt)
        self.a, self.n = arr("a", 1, 1), arr("n", 1, 1)
        f = new(it, func(it, GAM, "make_linear_gaussian"), S.ND(self.a.arr.copy()), S.ND(self.n.arr.copy()), pylist(vs[:1]), pylist(vs[1:]))
        self.k, self.h = meth(it, f, "get_prec").arr, meth(it, f, "get_h").arr
        g = meth(it, f, "get_g")
        self.g = g.arr.ravel()[0] if isinstance(g, S.ND) else g
        self.args = [mark(self.a, "a_mat"), mark(self.n, "n_mat"), mark(pylist(vs[:1]), "conditioning_var_templates"), mark(pylist(vs[1:]), "conditional_var_templates")]
        return new(it, func(it, GAM, "make_linear_gaussian_cpd_template"), *self.args)


WIDE = [
    (["c_{t}", "a_{t}", "b_{i}"], [({"t": 0, "i": 1}, ["c_0", "a_0", "b_1"]), ({"t": 3, "i": "n"}, ["c_3", "a_3", "b_n"])]),
    (["x{i}_{t}", "y{i}_{t}", "x{i}_{u}", "y{i}_{u}"], [({"i": 1, "t": 0, "u": 1}, ["x1_0", "y1_0", "x1_1", "y1_1"]), ({"i": 1, "t": 1, "u": 2}, ["x1_1", "y1_1", "x1_2", "y1_2"])]),
]


def instances(R, formats=FORMATS):
    for vt, cases in formats:
        ks = list(range(len(cases)))
        orders = [tuple(ks), tuple(ks[::-1]), (0, 0), (0,), (len(ks) - 1, 0, len(ks) - 1)]
        for order in dict.fromkeys(orders):
            yield vt, [cases[k] for k in order]


def template_run(it, R, kind, direct=True):
    what0 = kind.name.split(" ")[0]
    for vt, cases in instances(R):
        for given in ((False, True) if direct else (False,)):
            R.cur = what = f"{kind.name} over {vt} made for {[c[0] for c in cases]}" + (" by names" if given else "")

            def thunk(it):
                names = mark(pylist(list(vt)), "var_templates")
                t = kind.make(names)
                fs = []
                sh = shared(t)
                t0 = shared(t, ok=())
                mark(t, "template")
                for d, ns in cases:
                    f = meth(it, t, "make_factor", var_names=mark(pylist(list(ns)), "var_names")) if given else \
                        meth(it, t, "make_factor", format_dict=mark(fdict(d), "format_dict"))
                    fs.append(f)
                s2 = [x for f in fs for x in shared(f)]
                for f in fs[:-1]:
                    mark(f, "an earlier factor")
                s3 = shared(fs[-1])
                return fs, sh, s2, s3

            def ver(o):
                fs, sh, s2, s3 = o.value
                R.verdict("V03", f"{what0}: private copies", NE if sh else EQ, f"{what}: {sh[:1]}")
                R.verdict("V03", f"{what0}.make_factor: independent of the template", NE if s2 else EQ, f"{what}: {s2[:1]}")
                R.verdict("V03", f"{what0}.make_factor: independent of earlier factors", NE if s3 else EQ, f"{what}: {s3[:1]}")
                for m in o.mutations:
                    R.verdict(("V03", "V27"), f"{what0}.make_factor: template unchanged", NE, f"{what}: {m[0]} is modified at {m[-1]}")
                for f, (d, ns) in zip(fs, cases):
                    if not isinstance(f, Inst):
                        R.verdict(P, f"{what0}.make_factor", *(top_verdict(f) if isinstance(f, Top) else (NE, f"{f!r}")))
                        continue
                    got = names_of(it, it.getattr(f, "var_names"))
                    R.verdict(P, f"{what0}.make_factor: variables", UNK if got is None else EQ if got == list(ns) else NE, f"{what}: variables {got} instead of {ns}")
                    if got is not None and sorted(map(str, got)) == sorted(ns):
                        kind.check(R, o, f"{what0}.make_factor: parameters", f, ns)
            explore(it, R, what, thunk, ver, P)


@obligation("V27", "V03")
def template_categorical(it, R):
    S.install(it)
    template_run(it, R, CatK(it, 0))
    template_run(it, R, CatK(it, 1))


@obligation("V27", "V03")
def template_sparse(it, R):
    S.install(it)
    template_run(it, R, SparseK(it))


@obligation("V27", "V03")
def template_gaussian(it, R):
    S.install(it)
    template_run(it, R, GaussK(it))
    template_run(it, R, LinK(it))


@obligation("V27")
def template_formattable(it, R):
    S.install(it)
    full = [(vt, d, True) for vt, cases in FORMATS for d, _ in cases]
    miss = [(["a_{i}", "b_{j}"], {"i": 0}, False), (["a_{i}", "b_{j}"], {"j": 0}, False), (["a_{i}", "b_{j}"], {}, False), (["a_{i}", "b"], {"j": 1}, False),
            (["a", "b_{i}_{j}"], {"i": 1}, False)]
    for vt, d, want in full + miss:
        for form in ("plain", "conditional"):
            if form == "conditional":
                mk = lambda it: NWK(it, vt)
            else:
                mk = lambda it: GaussK(it).make(pylist(list(vt)))
            R.cur = what = f"formattable ({form}) of {vt} with {d}"

            def ver(o):
                R.verdict(P, "FactorTemplate.formattable", UNK if isinstance(o.value, Top) else EQ if o.value is want else NE, f"{what}: {o.value!r} instead of {want}")
            explore(it, R, what, lambda it: meth(it, mk(it), "formattable", fdict(d)), ver, P)
            if not want and form == "plain":
                expect_error(it, R, P, f"make_factor of {vt} with {d}", lambda it: meth(it, mk(it), "make_factor", fdict(d)))


def NWK(it, vt, n=None):
    """template of a non-linear conditional"""
    f = PyFn(lambda it, a, k: Top("transform"), "transform")
    return new(it, cls(it, NLM, "NonLinearGaussianTemplate"), pylist(list(vt[:1])), pylist(list(vt[1:])), f, arr("n", 1, 1))


@obligation("V27", "V03", "V26")
def template_nonlinear(it, R):
    w = NW(it)
    what0 = "NonLinearGaussianTemplate"
    for vt, cases in instances(R, FORMATS + WIDE):
        for cut in range(1, len(vt)):
            for given in (False, True):
                R.cur = what = f"{what0} over {vt} made for {[c[0] for c in cases]}" + (" by names" if given else "")
                noise = arr("n", len(vt) - cut, len(vt) - cut)

                def thunk(it):
                    args = [mark(pylist(list(vt[:cut])), "conditioning_var_templates"), mark(pylist(list(vt[cut:])), "conditional_var_templates"),
                            w.transform(len(vt) - cut), mark(S.ND(noise.arr.copy()), "noise_cov")]
                    t = new(it, cls(it, NLM, what0), *args)
                    sh = shared(t)
                    mark(t, "template")
                    fs = []
                    for d, ns in cases:
                        fs.append(meth(it, t, "make_factor", conditioning_vars=mark(pylist(ns[:cut]), "conditioning_vars"), conditional_vars=mark(pylist(ns[cut:]), "conditional_vars"))
                                  if given else meth(it, t, "make_factor", mark(fdict(d), "format_dict")))
                    s2 = [x for f in fs for x in shared(f)]
                    for f in fs[:-1]:
                        mark(f, "an earlier factor")
                    s3 = shared(fs[-1])
                    out = []
                    for f, (d, ns) in zip(fs, cases):
                        st = State(w, ns[:cut], ns[cut:], noise.arr, alg.ONE)
                        x = f
                        for n, vs in (("g", ns[:cut]), ("h", ns[cut:])):
                            v = alg.f(n, vs)
                            x, st = meth(it, x, "multiply", w.al.make(v, vs)), st.absorb(v, vs, alg.mul)
                        out.append((f, it.getattr(x, "joint_distribution"), st))
                    return out, sh, s2, s3

                def ver(o):
                    out, sh, s2, s3 = o.value
                    R.verdict("V03", f"{what0}: private copies", NE if sh else EQ, f"{what}: {sh[:1]}")
                    R.verdict("V03", f"{what0}.make_factor: independent of the template", NE if s2 else EQ, f"{what}: {s2[:1]}")
                    R.verdict("V03", f"{what0}.make_factor: independent of earlier factors", NE if s3 else EQ, f"{what}: {s3[:1]}")
                    for m in o.mutations:
                        R.verdict(("V03", "V27"), f"{what0}.make_factor: template unchanged", NE, f"{what}: {m[0]} is modified at {m[-1]}")
                    for (f, j, st), (d, ns) in zip(out, cases):
                        got = names_of(it, it.getattr(f, "var_names"))
                        R.verdict(P, f"{what0}.make_factor: variables", UNK if got is None else EQ if got == list(ns) else NE, f"{what}: variables {got} instead of {ns}")
                        check_val(R, it, o, P, f"{what0}.make_factor: conditional", j, st.joint(), st.names())
                explore(it, R, what, thunk, ver, P)


# ---------------------------------------------------------------- private copies

def forms(it):
    """(name, arguments by keyword, class)"""
    names = lambda *v: pylist(list(v))
    CT, SP, GA, NL = (lambda: cls(it, CATM, "Categorical")), (lambda: cls(it, SPM, "SparseCategorical")), (lambda: cls(it, GAM, "Gaussian")), (lambda: cls(it, NLM, "NonLinearGaussian"))
    tab = lambda: pydict({Tup([One(x) for x in k]): S.sym("p", *k) for k in ((0, 0), (1, 2))})
    yield "Categorical (tensor)", CT, lambda: dict(var_names=names("a", "b"), log_probs_tensor=arr("t", 2, 3))
    yield "Categorical (tensor, cardinalities)", CT, lambda: dict(var_names=names("a", "b"), log_probs_tensor=arr("t", 2, 3), cardinalities=pylist([2, 3]))
    yield "Categorical (tensor, state names)", CT, lambda: dict(var_names=names("a", "b"), log_probs_tensor=arr("t", 2, 3),
                                                               variables_assignment_names=pylist([names("x", "y"), names("u", "v", "w")]))
    yield "Categorical (table)", CT, lambda: dict(var_names=names("a", "b"), probs_table=tab(), cardinalities=pylist([2, 3]))
    yield "SparseCategorical (table)", SP, lambda: dict(var_names=names("a", "b"), probs_table=tab(), cardinalities=pylist([2, 3]))
    yield "SparseCategorical (log table)", SP, lambda: dict(var_names=names("a", "b"), log_probs_table=tab(), cardinalities=pylist([2, 3]))
    for n in (1, 2, 3):
        vs = ["a", "b", "c"][:n]
        yield f"Gaussian (covariance form, {n})", GA, lambda: dict(cov=arr("c", n, n), mean=arr("m", n, 1), log_weight=S.sym("w"), var_names=names(*vs))
        yield f"Gaussian (canonical form, {n})", GA, lambda: dict(prec=arr("k", n, n), h_vec=arr("h", n, 1), g_val=S.sym("g"), var_names=names(*vs))
    yield "Gaussian (lists)", GA, lambda: dict(cov=pylist([pylist([2.0, 0.5]), pylist([0.5, 1.0])]), mean=pylist([pylist([0.0]), pylist([1.0])]), log_weight=0.0, var_names=names("a", "b"))
    yield "Gaussian (weight array)", GA, lambda: dict(prec=arr("k", 2, 2), h_vec=arr("h", 2, 1), g_val=arr("g", 1, 1), var_names=names("a", "b"))
    yield "NonLinearGaussian", NL, lambda: dict(conditioning_vars=names("a"), conditional_vars=names("b", "c"), transform=PyFn(lambda it, a, k: Top("transform"), "transform"), noise_cov=arr("n", 2, 2))
    g = lambda n, *v: new(it, GA(), cov=arr(n + "c", len(v), len(v)), mean=arr(n + "m", len(v), 1), log_weight=S.sym(n + "w"), var_names=names(*v))
    yield "NonLinearGaussian (state)", NL, lambda: dict(conditioning_vars=names("a"), conditional_vars=names("b", "c"), transform=PyFn(lambda it, a, k: Top("transform"), "transform"), noise_cov=arr("n", 2, 2),
                                                        conditioning_factor=g("q", "a"), conditional_update_factor=g("u", "b", "c"), joint_distribution=g("j", "a", "b"), observed_evidence=pydict({"c": S.sym("e")}))
    yield "GaussianMixture", lambda: cls(it, GMM, "GaussianMixture"), lambda: dict(factors=pylist([g("x", "a", "b"), g("y", "a", "b")]))
    yield "FactorizedFactor", lambda: cls(it, FFM, "FactorizedFactor"), lambda: dict(factors=pylist([g("x", "a", "b"), g("y", "c")]))


ACCESS = {"Categorical": (("var_names",), ()), "SparseCategorical": (("var_names",), ()), "Gaussian": (("var_names",), ("get_prec", "get_h", "get_g", "get_cov", "get_mean", "get_log_weight")),
          "NonLinearGaussian": (("var_names", "joint_distribution"), ()), "GaussianMixture": (("var_names",), ("get_component",)), "FactorizedFactor": (("var_names", "joint_distribution"), ())}


@obligation("V03")
def private_copies(it, R):
    S.install(it)
    for name, C, args in forms(it):
        def thunk(it):
            k = args()
            for n, v in k.items():
                mark(v, n)
            return new(it, C(), **k)

        def ver(o):
            sh = shared(o.value)
            R.verdict("V03", f"{name}: private copies", NE if sh else EQ, f"{sh[:2]}")
            for m in o.mutations:
                R.verdict("V03", f"{name}: arguments unchanged", NE, f"{m[0]} is modified at {m[-1]}")
        explore(it, R, f"constructing {name}", thunk, ver, ("V03",))
        props, ms = ACCESS[name.split(" ")[0]]
        for n in props + ms:
            def athunk(it):
                x = mark(new(it, C(), **args()), "factor")
                return it.getattr(x, n) if n in props else meth(it, x, n, *([0] if n == "get_component" else []))

            def aver(o):
                if isinstance(o.value, Top):
                    return R.verdict("V03", f"{name}.{n}", *top_verdict(o.value))
                sh = shared(o.value)
                R.verdict("V03", f"{name.split(' ')[0]}.{n}: a copy is handed out", NE if sh else EQ, f"{name}: {sh[:2]}")
            explore(it, R, f"{n} of {name}", athunk, aver, ("V03",), may_raise=True)
