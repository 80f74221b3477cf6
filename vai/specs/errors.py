"""Contradictory requests: every path of the interpreted request has to raise. Shapes, scopes and cardinalities are concrete, entries symbols."""
from ..absfac import *
from .messages import cls, new, pylist, pydict
from .sigma import gen, lower, func
from .. import ndsym as S
import numpy as np

P = ("V15",)
CATM, SPM, GAM = "veroku.factors.categorical", "veroku.factors.sparse_categorical", "veroku.factors.gaussian"
EX = "veroku.factors.experimental."
GMM, FFM, NLM = EX + "gaussian_mixture", EX + "factorised_factor", EX + "nonlinear_gaussian"


def arr(name, *shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = S.sym(name, *i)
    return S.ND(a)


class W:
    """one factor of every kind over a (2 values) and b (3 values)"""

    def __init__(self, it):
        self.it = it

    def cat(self, names=("a", "b"), shape=(2, 3), **k):
        return new(self.it, cls(self.it, CATM, "Categorical"), pylist(list(names)), log_probs_tensor=arr("t", *shape), **k)

    def sp(self, names=("a", "b"), cards=(2, 3), keys=((0, 0), (1, 2)), **k):
        return new(self.it, cls(self.it, SPM, "SparseCategorical"), pylist(list(names)), pylist(list(cards)),
                   log_probs_table=self.table(keys), **k)

    def table(self, keys):
        return pydict({Tup([One(x) for x in k]): S.sym("p", *k) for k in keys})

    def ga(self, names=("a", "b"), n=None, name="g"):
        n = len(names) if n is None else n
        return new(self.it, cls(self.it, GAM, "Gaussian"), cov=arr(name + "c", n, n), mean=arr(name + "m", n, 1), log_weight=S.sym(name + "w"),
                   var_names=pylist(list(names)))

    def gm(self):
        return new(self.it, cls(self.it, GMM, "GaussianMixture"), pylist([self.ga(name="g1"), self.ga(name="g2")]))

    def ff(self):
        return new(self.it, cls(self.it, FFM, "FactorizedFactor"), pylist([self.ga(("a",), name="g1"), self.ga(("b",), name="g2")]))

    def nl(self):
        return new(self.it, cls(self.it, NLM, "NonLinearGaussian"), pylist(["a"]), pylist(["b"]),
                   PyFn(lambda it, a, k: Top("transform"), "transform"), arr("n", 1, 1))


KINDS = ("cat", "sp", "ga", "gm", "ff", "nl")
NAMES = dict(cat="Categorical", sp="SparseCategorical", ga="Gaussian", gm="GaussianMixture", ff="FactorizedFactor", nl="NonLinearGaussian")
FAMILY = {"cat": "dense", "sp": "sparse", "ga": "gauss", "gm": "gauss", "ff": "gauss", "nl": "gauss"}


def expect(it, R, construct, what, thunk):
    """every path raises; a path is accepted for certain only if nothing on it was unknown"""
    R.cur = what
    R.obligs += 1
    S.EXT.clear()
    try:
        paths = it.explore(lambda it: (it.undecided.clear(), thunk(it))[1], 80)
        for o in paths:
            R.paths += 1
            if o.kind == "raise":
                R.verdict(P, construct, EQ)
            elif o.kind == "return":
                if isinstance(o.value, Top):
                    R.verdict(P, construct, UNK, "result unknown: " + o.value.why)
                elif it.undecided:
                    R.verdict(P, construct, UNK, f"accepted after {it.undecided[0]}")
                else:
                    R.verdict(P, construct, NE, f"{what} is accepted without an error (result {o.value!r})"[:300])
            else:
                R.verdict(P, construct, UNK, str(o.value))
    except Bail as e:
        R.verdict(P, construct, UNK, str(e))


def setup(it):
    S.install(it)


@obligation("V15")
def other_kinds(it, R):
    setup(it)
    for a in KINDS:
        for b in KINDS:
            if FAMILY[a] == FAMILY[b]:
                continue
            for op in ("multiply", "divide", "cancel", "absorb"):
                # a factorised factor is a product of parts of any kind: the clash is inside one part
                narrow = (("a",), (2,)) if b == "cat" else (("a",), (2,), ((0,),))
                expect(it, R, f"{NAMES[a]}.{op} of a {FAMILY[b]} factor", f"{NAMES[a]}.{op}({NAMES[b]})",
                       lambda it: meth(it, getattr(W(it), a)(), op, getattr(W(it), b)(*(narrow if a == "ff" else ()))))
    for x in ("text", 3, None):
        for a in ("cat", "sp", "ga", "gm"):
            for op in ("multiply", "divide", "cancel"):
                expect(it, R, f"{NAMES[a]}.{op} of something that is not a factor", f"{NAMES[a]}.{op}({x!r})",
                       lambda it: meth(it, getattr(W(it), a)(), op, x))
    for op in ("multiply",):
        expect(it, R, "NonLinearGaussian.multiply of another one", f"NonLinearGaussian.{op}(NonLinearGaussian)",
               lambda it: meth(it, W(it).nl(), op, W(it).nl()))


@obligation("V15")
def cardinalities(it, R):
    setup(it)
    for op in ("multiply", "divide", "cancel", "kl_divergence"):
        for card in (1, 2, 4):
            for names in (("b", "a"), ("a", "b"), ("b",), ("b", "z")):
                if op in ("divide", "cancel", "kl_divergence") and "z" in names:
                    continue
                shape = [dict(a=2, b=card, z=2)[v] for v in names]
                keys = [tuple(0 for _ in names)]
                if op == "kl_divergence" and len(names) != 2:
                    continue
                for kind in ("cat", "sp"):
                    def other(it):
                        w = W(it)
                        return w.cat(names, shape) if kind == "cat" else w.sp(names, shape, keys)

                    def mine(it):
                        return W(it).cat() if kind == "cat" else W(it).sp()
                    what = f"{NAMES[kind]}.{op} with {names} of {shape} values"
                    c = f"{NAMES[kind]}.{op} with contradicting cardinalities"
                    expect(it, R, c, what, lambda it: meth(it, mine(it), op, other(it)))
                    expect(it, R, c, what + " (reversed)", lambda it: meth(it, other(it), op, mine(it))) if len(names) == 2 and "z" not in names or op == "multiply" else None


@obligation("V15")
def constructors(it, R):
    setup(it)
    C = lambda it: cls(it, CATM, "Categorical")
    Sp = lambda it: cls(it, SPM, "SparseCategorical")
    G = lambda it: cls(it, GAM, "Gaussian")
    ab = lambda: pylist(["a", "b"])

    def ex(cname, what, f):
        expect(it, R, f"{cname}: {what}", f"{cname} ({what})", f)
    ex("Categorical", "duplicate variables", lambda it: new(it, C(it), pylist(["a", "a"]), log_probs_tensor=arr("t", 2, 2)))
    ex("Categorical", "no table", lambda it: new(it, C(it), ab(), cardinalities=pylist([2, 3])))
    ex("Categorical", "nothing given", lambda it: new(it, C(it), ab()))
    ex("Categorical", "too few dimensions", lambda it: new(it, C(it), ab(), log_probs_tensor=arr("t", 2)))
    ex("Categorical", "too many dimensions", lambda it: new(it, C(it), pylist(["a"]), log_probs_tensor=arr("t", 2, 3)))
    ex("Categorical", "too few cardinalities", lambda it: new(it, C(it), ab(), cardinalities=pylist([2]), log_probs_tensor=arr("t", 2, 3)))
    ex("Categorical", "too many cardinalities", lambda it: new(it, C(it), ab(), cardinalities=pylist([2, 3, 2]), log_probs_tensor=arr("t", 2, 3)))
    ex("Categorical", "cardinalities of another table", lambda it: new(it, C(it), ab(), cardinalities=pylist([3, 2]), log_probs_tensor=arr("t", 2, 3)))
    for keys, w in (([(0,)], "assignment too short"), ([(0, 0), (0, 0, 0)], "assignment too long"), ([(0, 3)], "value too large"), ([(2, 0)], "value too large"),
                    ([(0, -1)], "negative value"), ([(-1, 0)], "negative value"), ([()], "empty assignment")):
        ex("Categorical", w, lambda it: new(it, C(it), ab(), cardinalities=pylist([2, 3]), probs_table=W(it).table(keys)))
        ex("SparseCategorical", w, lambda it: new(it, Sp(it), ab(), pylist([2, 3]), probs_table=W(it).table(keys)))
        ex("SparseCategorical", w, lambda it: new(it, Sp(it), ab(), pylist([2, 3]), log_probs_table=W(it).table(keys)))
    for names, w in (([["x"], ["u", "v", "w"]], "too few state names"), ([["x", "y"]], "state names missing"), ([["x", "y", "z"], ["u", "v", "w"]], "too many state names"),
                     ([["x", "x"], ["u", "v", "w"]], "repeated state name")):
        ex("Categorical", w, lambda it: new(it, C(it), ab(), log_probs_tensor=arr("t", 2, 3), variables_assignment_names=pylist([pylist(n) for n in names])))
    ex("SparseCategorical", "duplicate variables", lambda it: new(it, Sp(it), pylist(["a", "a"]), pylist([2, 2]), probs_table=W(it).table([(0, 0)])))
    ex("SparseCategorical", "no table", lambda it: new(it, Sp(it), ab(), pylist([2, 3])))
    ex("SparseCategorical", "too few cardinalities", lambda it: new(it, Sp(it), ab(), pylist([2]), probs_table=W(it).table([(0, 0)])))
    ex("SparseCategorical", "too many cardinalities", lambda it: new(it, Sp(it), ab(), pylist([2, 3, 4]), probs_table=W(it).table([(0, 0)])))

    full = dict(cov=lambda: arr("c", 2, 2), mean=lambda: arr("m", 2, 1), log_weight=lambda: S.sym("w"),
                prec=lambda: arr("k", 2, 2), h_vec=lambda: arr("h", 2, 1), g_val=lambda: S.sym("g"))
    for form in (("cov", "mean", "log_weight"), ("prec", "h_vec", "g_val")):
        m, v, s = form
        for miss in ((m,), (v,), (s,), (m, v), (m, s), (v, s)):
            ex("Gaussian", f"without {' and '.join(miss)}", lambda it: new(it, G(it), var_names=ab(), **{k: f() for k, f in full.items() if k in form and k not in miss}))
        bad = {m: [("matrix too large", lambda: arr("c", 3, 3)), ("matrix too small", lambda: arr("c", 1, 1)), ("matrix not square", lambda: arr("c", 2, 3)),
                   ("matrix with one axis", lambda: arr("c", 2))],
               v: [("vector too long", lambda: arr("m", 3, 1)), ("vector too short", lambda: arr("m", 1, 1)), ("vector as a matrix", lambda: arr("m", 2, 2))],
               s: [("scalar with two entries", lambda: arr("s", 2)), ("scalar list", lambda: pylist([1.0, 2.0]))]}
        for k, alts in bad.items():
            for w, f in alts:
                ex("Gaussian", f"{k}: {w}", lambda it: new(it, G(it), var_names=ab(), **{**{q: full[q]() for q in form}, k: f()}))
        ex("Gaussian", f"duplicate variables ({m})", lambda it: new(it, G(it), var_names=pylist(["a", "a"]), **{q: full[q]() for q in form}))
        ex("Gaussian", f"no variables ({m})", lambda it: new(it, G(it), **{q: full[q]() for q in form}))
        four = dict(cov=lambda: arr("c", 4, 4), mean=lambda: arr("m", 4, 1), log_weight=full["log_weight"],
                    prec=lambda: arr("k", 4, 4), h_vec=lambda: arr("h", 4, 1), g_val=full["g_val"])
        ex("Gaussian", f"{v}: vector of two by two entries", lambda it: new(it, G(it), var_names=pylist(list("abcd")), **{**{q: four[q]() for q in form}, v: arr("m", 2, 2)}))
        rows = lambda *n: pylist([pylist([S.sym("r", i, j) for j in range(k)]) for i, k in enumerate(n)])
        for w, f in (("list with one row missing", lambda: rows(2)), ("rows too long", lambda: rows(3, 3)), ("rows of different lengths", lambda: rows(2, 1)),
                     ("list too large", lambda: rows(3, 3, 3)), ("one dimensional list", lambda: pylist([S.sym("r", 0), S.sym("r", 1)])), ("empty list", lambda: pylist([])), ("text", lambda: "ab")):
            ex("Gaussian", f"{m}: {w}", lambda it: new(it, G(it), var_names=ab(), **{**{q: full[q]() for q in form}, m: f()}))
        for w, n in (("list too long", 3), ("list too short", 1)):
            ex("Gaussian", f"{v}: {w}", lambda it: new(it, G(it), var_names=ab(), **{**{q: full[q]() for q in form}, v: pylist([S.sym("r", i) for i in range(n)])}))
        ex("Gaussian", f"{s}: text", lambda it: new(it, G(it), var_names=ab(), **{**{q: full[q]() for q in form}, s: "x"}))
    M = lambda it: cls(it, GMM, "GaussianMixture")
    ex("GaussianMixture", "no components", lambda it: new(it, M(it), pylist([])))
    for x, y in (("ab", "ac"), ("ab", "a"), ("a", "ab")):
        ex("GaussianMixture", "components over different variables", lambda it: new(it, M(it), pylist([W(it).ga(tuple(x), name="g1"), W(it).ga(tuple(y), name="g2")])))
    ex("Gaussian", "nothing given", lambda it: new(it, G(it), var_names=ab()))
    NL = lambda it: cls(it, NLM, "NonLinearGaussian")
    tr = lambda: PyFn(lambda it, a, k: Top("transform"), "transform")
    for x, y, n, w in ((["a"], ["a"], 1, "overlapping variables"), (["a", "c"], ["b", "c"], 2, "overlapping variables"), (["a", "a"], ["b"], 1, "duplicate variables"),
                       (["a"], ["b", "b"], 2, "duplicate variables"), (["a"], ["b"], 2, "noise of another size"), (["a"], ["b", "c"], 1, "noise of another size")):
        ex("NonLinearGaussian", w, lambda it: new(it, NL(it), pylist(x), pylist(y), tr(), arr("n", n, n)))


@obligation("V15")
def unknown_variables(it, R):
    setup(it)
    for a in KINDS:
        mk = lambda it: getattr(W(it), a)()
        n = NAMES[a]
        for vs in (["q"], ["a", "q"], ["q", "b"], ["a", "b", "q"]):
            for keep in (True, False):
                expect(it, R, f"{n}.marginalize of an unknown variable", f"{n}.marginalize({vs}, keep={keep})", lambda it: meth(it, mk(it), "marginalize", pylist(vs), keep=keep))
            expect(it, R, f"{n}.reduce of an unknown variable", f"{n}.reduce({vs})", lambda it: meth(it, mk(it), "reduce", pylist(vs), pylist([0 for _ in vs])))
            expect(it, R, f"{n}.observe of an unknown variable", f"{n}.observe({vs})", lambda it: meth(it, mk(it), "observe", pylist(vs), pylist([0 for _ in vs])))
        for vs in (["a", "a"], ["a", "b", "a"]):
            expect(it, R, f"{n}.reduce of a variable twice", f"{n}.reduce({vs})", lambda it: meth(it, mk(it), "reduce", pylist(vs), pylist([i % 2 for i in range(len(vs))])))
        for vs, k in ((["a"], 0), (["a"], 2), (["a", "b"], 1), (["b", "a"], 3)):
            expect(it, R, f"{n}.reduce with a wrong number of values", f"{n}.reduce({vs}) with {k} values", lambda it: meth(it, mk(it), "reduce", pylist(vs), pylist([0] * k)))
    for a, op in (("cat", "potential"), ("sp", "potential")):
        for vs in (["a"], ["a", "q"], ["a", "b", "q"], ["q"], []):
            expect(it, R, f"{NAMES[a]}.{op} of other variables", f"{NAMES[a]}.{op}({vs})", lambda it: meth(it, getattr(W(it), a)(), op, pylist(vs), pylist([0] * len(vs))))
        for vs, k in ((["a", "b"], 0), (["a", "b"], 1), (["b", "a"], 3)):
            expect(it, R, f"{NAMES[a]}.{op} with a wrong number of values", f"{NAMES[a]}.{op}({vs}) with {k} values", lambda it: meth(it, getattr(W(it), a)(), op, pylist(vs), pylist([0] * k)))
        expect(it, R, f"{NAMES[a]}.{op} with a variable twice", f"{NAMES[a]}.{op}(a, b, a)", lambda it: meth(it, getattr(W(it), a)(), op, pylist(["a", "b", "a"]), pylist([0, 1, 1])))
        for vs, xs in ((["a", "b"], [0, -1]), (["a", "b"], [-1, 0]), (["b", "a"], [1, 2]), (["a", "b"], [2, 0]), (["b", "a"], [3, 1])):
            expect(it, R, f"{NAMES[a]}.{op} at a state the variable does not have", f"{NAMES[a]}.{op}({vs}, {xs})", lambda it: meth(it, getattr(W(it), a)(), op, pylist(vs), pylist(xs)))
        for vs, xs in ((["a"], [-1]), (["a"], [2]), (["b"], [3]), (["b"], [-3]), (["a", "b"], [1, 3]), (["b", "a"], [0, 2])):
            expect(it, R, f"{NAMES[a]}.reduce to a state the variable does not have", f"{NAMES[a]}.reduce({vs}, {xs})", lambda it: meth(it, getattr(W(it), a)(), "reduce", pylist(vs), pylist(xs)))
    for form in ("cov", "can"):
        def g2(it):
            w = W(it)
            return w.ga() if form == "cov" else new(it, cls(it, GAM, "Gaussian"), prec=arr("k", 2, 2), h_vec=arr("h", 2, 1), g_val=S.sym("g"), var_names=pylist(["a", "b"]))
        for op in ("log_potential", "potential"):
            for k in (1, 3):
                expect(it, R, f"Gaussian.{op} with a wrong number of values", f"Gaussian.{op} of {k} values ({form})", lambda it: meth(it, g2(it), op, pylist([0.5] * k)))
        for k in (1, 3):
            expect(it, R, "Gaussian.log_potential with a wrong number of values", f"Gaussian.log_potential of {k} values for b and a ({form})",
                   lambda it: meth(it, g2(it), "log_potential", pylist([0.5] * k), pylist(["b", "a"])))
    for vs in (["a"], ["a", "q"], ["a", "b", "q"], ["q"]):
        for op in ("log_potential", "potential"):
            expect(it, R, f"Gaussian.{op} of other variables", f"Gaussian.{op}({vs})", lambda it: meth(it, W(it).ga(), op, pylist([0.0] * len(vs)), pylist(vs)))
    for a in ("cat",):
        for vs in (["a"], ["a", "q"], ["a", "b", "q"]):
            expect(it, R, f"{NAMES[a]}.reorder to other variables", f"{NAMES[a]}.reorder({vs})", lambda it: meth(it, getattr(W(it), a)(), "reorder", pylist(vs)))
    for n in (("a",), ("a", "z"), ("a", "b", "z")):
        expect(it, R, "Gaussian.kl_divergence over other variables", f"Gaussian.kl_divergence of {n}", lambda it: meth(it, W(it).ga(), "kl_divergence", W(it).ga(n, name="q")))
    for vs, w in ((["c"], "outside its scope"), (["a", "c"], "partly outside its scope"), (["a", "b"], "across both sides")):
        for op in ("multiply", "divide"):
            expect(it, R, f"NonLinearGaussian.{op} by a factor {w}", f"NonLinearGaussian.{op} of {vs}", lambda it: meth(it, W(it).nl(), op, W(it).ga(vs, name="q")))


@obligation("V15")
def templates_and_clusters(it, R):
    setup(it)
    CL = "veroku._cg_helpers._cluster"

    def ex(cname, what, f):
        expect(it, R, f"{cname}: {what}", f"{cname} ({what})", f)

    def cat(it, names=("a{i}", "b{j}")):
        return new(it, cls(it, CATM, "CategoricalTemplate"), pylist(list(names)), log_probs_tensor=arr("t", *[2 + k for k in range(len(names))]))

    def gau(it, names=("a{i}", "b{j}")):
        n = len(names)
        par = pydict({"prec": arr("k", n, n), "h": arr("h", n, 1), "g": S.sym("g")})
        return new(it, cls(it, GAM, "GaussianTemplate"), par, pylist(list(names)))

    def nlt(it, x=("a{i}",), y=("b{j}",), n=1):
        return new(it, cls(it, NLM, "NonLinearGaussianTemplate"), transform=PyFn(lambda it, a, k: Top("transform"), "transform"), noise_cov=arr("n", n, n),
                   conditioning_var_templates=pylist(list(x)), conditional_var_templates=pylist(list(y)))
    d = lambda **k: pydict(dict(k))
    for n, mk in (("CategoricalTemplate", cat), ("GaussianTemplate", gau), ("NonLinearGaussianTemplate", nlt)):
        ex(n + ".make_factor", "a key is missing", lambda it: meth(it, mk(it), "make_factor", d(i="1")))
        ex(n + ".make_factor", "names without keys missing", lambda it: meth(it, mk(it), "make_factor", d()))
        if n != "NonLinearGaussianTemplate":
            ex(n + ".make_factor", "neither names nor keys", lambda it: meth(it, mk(it), "make_factor"))
            ex(n + ".make_factor", "names and keys", lambda it: meth(it, mk(it), "make_factor", d(i="1", j="2"), pylist(["x", "y"])))
            ex(n + ".make_factor", "duplicate names", lambda it: meth(it, mk(it), "make_factor", var_names=pylist(["x", "x"])))
            ex(n + ".make_factor", "too few names", lambda it: meth(it, mk(it), "make_factor", var_names=pylist(["x"])))
            ex(n + ".make_factor", "too many names", lambda it: meth(it, mk(it), "make_factor", var_names=pylist(["x", "y", "z"])))
            ex(n + ".make_factor", "keys that make names equal", lambda it: meth(it, mk(it, ("a{i}", "a{j}")), "make_factor", d(i="1", j="1")))
        else:
            ex(n + ".make_factor", "keys that make names equal", lambda it: meth(it, mk(it, ("a{i}",), ("a{j}",)), "make_factor", d(i="1", j="1")))
            ex(n + ".make_factor", "keys that make names equal", lambda it: meth(it, mk(it, ("a{i}", "a{j}"), ("b",)), "make_factor", d(i="1", j="1")))
    ex("FactorTemplate", "only one side of a conditional", lambda it: new(it, cls(it, "veroku.factors._factor_template", "FactorTemplate"), conditioning_var_templates=pylist(["a"])))
    ex("FactorTemplate", "only one side of a conditional", lambda it: new(it, cls(it, "veroku.factors._factor_template", "FactorTemplate"), conditional_var_templates=pylist(["a"])))
    from .sigma import func
    for fn in ("make_linear_gaussian", "make_linear_gaussian_cpd_template"):
        for x, y, am, nm, w in (("a", "b", (1, 2), 1, "matrix too wide"), ("ac", "b", (1, 1), 1, "matrix too narrow"), ("a", "b", (2, 1), 2, "matrix too high"),
                                ("a", "bc", (1, 1), 1, "too few rows"), ("a", "b", (1, 1), 2, "noise too large"), ("a", "bc", (2, 1), 1, "noise too small"),
                                ("a", "a", (1, 1), 1, "a variable on both sides")):
            if w == "a variable on both sides" and fn.endswith("template"):
                continue
            ex(fn, w, lambda it: it.call(func(it, GAM, fn), [arr("A", *am), arr("N", nm, nm), pylist(list(x)), pylist(list(y))], {}))

    def cluster(it):
        return new(it, cls(it, CL, "Cluster"), W(it).cat(), "c0#")
    msg = lambda it, to: new(it, cls(it, CL, "Message"), W(it).cat(("a",), (2,)), "n1", to)
    ex("Cluster.receive_message", "message for another cluster", lambda it: meth(it, cluster(it), "receive_message", msg(it, "n2")))
    ex("Cluster.add_neighbour", "no common variables", lambda it: (lambda c: meth(it, c, "add_neighbour", cluster(it), pylist([])))(cluster(it)))
    ex("Cluster.make_message", "not a neighbour", lambda it: meth(it, cluster(it), "make_message", "n2"))
    ex("Cluster.get_sepset", "not a neighbour", lambda it: meth(it, cluster(it), "get_sepset", "n2"))
