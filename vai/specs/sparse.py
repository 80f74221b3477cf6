"""Sparse tables: finite scopes with symbolic values, every operation compared with the dense meaning of its operands."""
from itertools import product, permutations, combinations
from .messages import cls, new, pylist, pydict, explore, expect_error, strdiff
from .factorised import common
from ..absfac import names_of
from ..numdom import *
from .. import numdom as ND
from ..check import *

SPM = "veroku.factors.sparse_categorical"
CARD = {"a": 2, "b": 3, "c": 2, "d": 1}
P = ("V07",)
NAN = float("nan")


class Tab:
    """concrete pattern of a table: assignment -> value in the linear domain (Rat or 0); default value"""

    def __init__(self, vs, ent, default):
        self.vs, self.ent, self.default = list(vs), ent, default

    def at(self, z):
        return self.ent.get(tuple(z[v] for v in self.vs), self.default)

    def keys(self):
        return product(*[range(CARD[v]) for v in self.vs])


def pattern(name, vs, kind, default):
    """named presence patterns: x a positive value, 0 an explicit zero, missing entries have the default"""
    ent = {}
    for i, k in enumerate(product(*[range(CARD[v]) for v in vs])):
        s = symbol(f"{name}{''.join(map(str, k))}")
        use = {"full": "x", "empty": "", "first": "x" if i == 0 else "", "last": "x" if all(q == CARD[v] - 1 for q, v in zip(k, vs)) else "",
               "even": "x" if sum(k) % 2 == 0 else "", "odd": "x" if sum(k) % 2 else "", "row0": "x" if k and k[0] == 0 else "",
               "row1": "x" if k and k[0] == 1 else "", "col1": "x" if k and k[-1] == 1 else "", "zeros": "0" if sum(k) % 2 else "x",
               "mixed": ("x", "0", "")[(i + sum(k)) % 3], "nolast": "x" if i + 1 < math.prod(CARD[v] for v in vs) else "",
               "dflt": "d" if sum(k) % 2 else "x"}[kind]
        if use == "x":
            ent[k] = s
        elif use == "0":
            ent[k] = 0
        elif use == "d":
            ent[k] = default
    return Tab(vs, ent, default)


def lv(x):
    """linear domain value -> abstract log value"""
    if isinstance(x, Rat):
        return mk_re(x)
    return -INF if x == 0 else x if x != x else INF


def unlv(v):
    """abstract log value -> linear domain"""
    if isinstance(v, Re):
        return v.lin
    if isinstance(v, Val):
        raise Bail(f"table value {v!r}")
    if isnum(v):
        if v != v:
            return NAN
        if v == INF:
            return INF
        return 0 if v == -INF else Rat(poly(Fraction(math.exp(v)).limit_denominator(10 ** 6)))
    raise Bail(f"table value {v!r}")


def eqv(x, y):
    if isinstance(x, Rat) or isinstance(y, Rat):
        return isinstance(x, Rat) and isinstance(y, Rat) and x == y
    return x == y or (x != x and y != y)


def tabobj(t):
    return DObj([DEnt(Tup([One(q) for q in k]), lv(v)) for k, v in t.ent.items()])


class SW:
    def __init__(self, it, rank=None, close=None):
        it.__dict__.pop("compare", None)
        if not hasattr(it, "_sparse_lib"):
            it._sparse_lib = dict(it.lib)
        it.lib = dict(it._sparse_lib)
        ND.install(it, rank, close)
        self.it = it
        self.C = cls(it, SPM, "SparseCategorical")

    def make(self, t, ext=None):
        it = self.it
        o = new(it, self.C, pylist(t.vs), pylist([CARD[v] for v in t.vs]), log_probs_table=tabobj(t), default_log_prob=lv(t.default))
        if ext:
            mark(o, ext)
        return o


def read(it, o):
    """(names, {key: linear value}, default) of a result; None with a message when it is malformed"""
    ns = names_of(it, it.getattr(o, "var_names"))
    d = o.fields.get("log_probs_table")
    t = dict_top(d)
    if ns is None or t is not None:
        raise Bail(f"result unknown {t and t.why}")
    ent = {}
    for e in d.ents:
        ks = names_of(it, e.key)
        if not e.one() or ks is None or not all(isinstance(k, int) for k in ks):
            raise Bail("table keys unknown")
        ent[tuple(ks)] = unlv(e.val)
    return ns, ent, unlv(o.fields.get("default_log_prob"))


def check_sparse(R, it, o, props, what, got, names, spec, case, order=None):
    """got is the table over names with value spec(assignment by name)"""
    if isinstance(got, Top):
        return R.verdict(props, what, *top_verdict(got))
    if not isinstance(got, Inst) or not any(c.name == "SparseCategorical" for c in got.cls.mro()):
        return R.verdict(props, what, NE, f"{case}: result is {got!r}")
    ns, ent, dflt = read(it, got)
    if sorted(ns) != sorted(names) or (order is not None and ns != list(order)):
        return R.verdict(props + ("V14",), what + ": scope", NE, f"{case}: variables {ns} instead of {list(order or names)}")
    R.verdict(props + ("V14",), what + ": scope", EQ)
    vc = got.fields.get("var_cards")
    cs = names_of(it, got.fields.get("cardinalities"))
    want = [CARD[v] for v in ns]
    R.verdict(props, what + ": cardinalities", UNK if cs is None else EQ if cs == want else NE, f"{case}: cardinalities {cs} for {ns}")
    if dict_top(vc) is None:
        have = {e.key: e.val for e in vc.ents}
        R.verdict(props, what + ": cardinalities by name", EQ if have == dict(zip(ns, want)) else NE, f"{case}: {have}")
    for k in ent:
        if len(k) != len(ns) or any(q not in range(CARD[v]) for q, v in zip(k, ns)):
            return R.verdict(props, what + ": assignments", NE, f"{case}: assignment {k} for variables {ns}")
    for k in product(*[range(CARD[v]) for v in ns]):
        z = dict(zip(ns, k))
        x, y = ent.get(k, dflt), spec(z)
        if not eqv(x, y):
            return R.verdict(props, what + ": values", NE, f"{case}: value at {z} is {x!r} instead of {y!r}")
    R.verdict(props, what + ": values", EQ)


def mul(x, y):
    return 0 if not isinstance(x, Rat) or not isinstance(y, Rat) else x * y


def div(x, y):
    if not isinstance(y, Rat):
        return INF if isinstance(x, Rat) else NAN
    return x / y if isinstance(x, Rat) else 0


def can(x, y):
    return 0 if not isinstance(x, Rat) and not isinstance(y, Rat) else div(x, y)


def add(xs):
    r = 0
    for x in xs:
        if isinstance(x, Rat):
            r = x if not isinstance(r, Rat) else r + x
    return r


DEFAULTS = [("zero default", 0), ("finite default", symbol("d"))]
REL = [("same order", "ab", "ab"), ("other order", "ab", "ba"), ("overlap", "ab", "bc"), ("overlap, first variable", "ab", "ca"),
       ("subset", "ab", "b"), ("superset", "b", "ab"), ("disjoint", "a", "c"), ("three variables, one shared order", "abc", "ca"),
       ("three variables, permuted", "cab", "abc"), ("single value variable", "da", "ad")]
PP = [("full", "full"), ("even", "odd"), ("row0", "col1"), ("first", "full"), ("full", "last"), ("zeros", "mixed"), ("mixed", "zeros"),
      ("row1", "row0"), ("nolast", "even"), ("empty", "full"), ("full", "empty"), ("dflt", "even"), ("odd", "dflt")]


def binary(op, f, it, R, dflts=DEFAULTS, props=P):
    for rn, va, vb in REL:
        for dn, d in dflts:
            for ka, kb in PP:
                if rn.startswith("three") and ka in ("full", "zeros") and kb in ("full", "mixed") and R.tier == "quick" and (ka, kb) != ("full", "full"):
                    continue
                case = f"SparseCategorical.{op} ({rn}, {ka}/{kb} table, {dn})"
                ta, tb = pattern("x", va, ka, d), pattern("y", vb, kb, d)
                names = list(dict.fromkeys(va + vb))

                def thunk(it):
                    w = SW(it)
                    a, b = w.make(ta, "a"), w.make(tb, "b")
                    return a, b, meth(it, a, op, b)

                def ver(o):
                    a, b, r = o.value
                    what = f"SparseCategorical.{op}"
                    check_sparse(R, it, o, props, what, r, names, lambda z: f(ta.at(z), tb.at(z)), case)
                    common(R, it, o, what, r)
                    check_sparse(R, it, o, ("V01",), what + ": left operand", a, va, ta.at, case, va)
                    check_sparse(R, it, o, ("V01",), what + ": right operand", b, vb, tb.at, case, vb)
                explore(it, R, case, thunk, ver, props)


OWNP = ("V07", "V01", "V02", "V14")


@obligation(*OWNP)
def sparse_multiply(it, R):
    binary("multiply", mul, it, R)


@obligation(*OWNP)
def sparse_absorb(it, R):
    binary("absorb", mul, it, R, DEFAULTS[:1])


@obligation(*OWNP)
def sparse_divide(it, R):
    binary("divide", div, it, R)


@obligation(*OWNP, "V06")
def sparse_cancel(it, R):
    binary("cancel", can, it, R, props=("V07", "V06"))


KINDS = ["full", "even", "row0", "col1", "first", "last", "zeros", "mixed", "nolast", "dflt", "row1"]
SCOPES = ["a", "ab", "ba", "abc", "cba", "bca", "da"]


def unary(R, it, op, f, names, spec, props=P, order=None, scopes=SCOPES, dflts=DEFAULTS, opname=None, kinds=KINDS):
    """f(it, factor) -> result; names(vs); spec(table)(z)"""
    opname = opname or op
    for vs in scopes:
        for dn, d in dflts:
            for kind in kinds:
                t = pattern("x", vs, kind, d)
                case = f"SparseCategorical.{op} (variables {vs}, {kind} table, {dn})"
                ns = names(vs)
                if ns is None or spec(t) is None:
                    continue

                def thunk(it):
                    w = SW(it)
                    a = w.make(t, "a")
                    return a, f(it, a, vs)

                def ver(o):
                    a, r = o.value
                    what = f"SparseCategorical.{opname}"
                    check_sparse(R, it, o, props, what, r, ns, spec(t), case, order(vs) if order else None)
                    common(R, it, o, what, r)
                    check_sparse(R, it, o, ("V01",), what + ": operand", a, vs, t.at, case, vs)
                explore(it, R, case, thunk, ver, props)


def full_sum(t):
    return add([t.at(dict(zip(t.vs, k))) for k in t.keys()])


@obligation("V07", "V03")
def sparse_construct(it, R):
    for vs in ("ab", "ba", "abc"):
        for dn, d in DEFAULTS:
            for kind in ("full", "even", "mixed", "dflt"):
                for how in ("log_probs_table", "probs_table"):
                    t = pattern("x", vs, kind, d)
                    case = f"SparseCategorical.__init__ ({how}, variables {vs}, {kind} table, {dn})"
                    ent = DObj([DEnt(Tup([One(q) for q in k]), lv(v) if how[0] == "l" else Nu(v) if isinstance(v, Rat) else 0.0) for k, v in t.ent.items()])

                    def thunk(it):
                        w = SW(it)
                        return new(it, w.C, mark(pylist(vs), "var_names"), mark(pylist([CARD[v] for v in vs]), "cardinalities"),
                                   **{how: mark(it.deepcopy(ent), "table")}, default_log_prob=lv(d))

                    def ver(o):
                        what = "SparseCategorical.__init__"
                        check_sparse(R, it, o, P, what, o.value, vs, t.at, case, vs)
                        sh = shared(o.value)
                        R.verdict("V03", what + ": private copies", NE if sh else EQ, f"{case}: {sh[:1]}")
                        for m in o.mutations:
                            R.verdict("V03", what + ": arguments unchanged", NE, f"{m}")
                    explore(it, R, case, thunk, ver, P)
                    if kind == "full":
                        # the factor is unaffected by later changes to the arguments
                        def late(it):
                            w = SW(it)
                            a, b, c = pylist(vs), pylist([CARD[v] for v in vs]), it.deepcopy(ent)
                            f = new(it, w.C, a, b, **{how: c}, default_log_prob=lv(d))
                            it.setitem(a, 0, "zz")
                            it.setitem(b, 0, 99)
                            it.dict_set(c, Tup([One(0) for _ in vs]), -INF)
                            return f
                        explore(it, R, case + ", arguments changed later", late,
                                lambda o: check_sparse(R, it, o, ("V03",), "SparseCategorical.__init__: independence", o.value, vs, t.at, case, vs), P)


@obligation(*OWNP, "V13")
def sparse_unary(it, R):
    unary(R, it, "copy", lambda it, a, vs: meth(it, a, "copy"), lambda vs: list(vs), lambda t: t.at, ("V07", "V13"), order=lambda vs: vs)

    def norm(t):
        z = full_sum(t)
        return (lambda q: div(t.at(q), z)) if isinstance(z, Rat) else None
    unary(R, it, "normalize", lambda it, a, vs: meth(it, a, "normalize"), lambda vs: list(vs), norm, order=lambda vs: vs,
          kinds=[k for k in KINDS])
    unary(R, it, "reorder", lambda it, a, vs: meth(it, a, "reorder", mark(pylist(vs[::-1]), "order")), lambda vs: list(vs), lambda t: t.at,
          order=lambda vs: vs[::-1])
    unary(R, it, "reorder (rotated)", lambda it, a, vs: meth(it, a, "reorder", mark(pylist(vs[1:] + vs[:1]), "order")), lambda vs: list(vs), lambda t: t.at,
          order=lambda vs: vs[1:] + vs[:1], opname="reorder", scopes=["abc", "bca"])


MARG = [("ab", "a"), ("ab", "b"), ("abc", "ca"), ("abc", "b"), ("bca", "ab"), ("cba", "c"), ("ab", "ba"), ("da", "a"), ("da", "d")]


@obligation(*OWNP)
def sparse_marginalize(it, R):
    for vs, keep in MARG:
        gone = [v for v in vs if v not in keep]

        def spec(t):
            return lambda z: add([t.at({**z, **dict(zip(gone, k))}) for k in product(*[range(CARD[v]) for v in gone])])
        unary(R, it, f"marginalize (keep {keep})", lambda it, a, q: meth(it, a, "marginalize", mark(pylist(keep), "vrs"), keep=True),
              lambda q: list(keep), spec, scopes=[vs], opname="marginalize")
        if gone:
            unary(R, it, f"marginalize (sum out {gone})", lambda it, a, q: meth(it, a, "marginalize", mark(pylist(gone), "vrs"), keep=False),
                  lambda q: list(keep), spec, scopes=[vs], opname="marginalize")


REDS = [("ab", "a", (1,)), ("ab", "b", (2,)), ("ab", "ba", (0, 1)), ("abc", "b", (1,)), ("abc", "ca", (0, 1)), ("bca", "ac", (1, 0)), ("cba", "bc", (2, 1)),
        ("da", "a", (1,)), ("abc", "b", (0,))]


@obligation(*OWNP)
def sparse_reduce(it, R):
    for vs, obs, vals in REDS:
        for kind in ("list", "tuple"):
            def f(it, a, q):
                v = pylist(vals) if kind == "list" else Tup([One(x) for x in vals])
                return meth(it, a, "reduce", mark(pylist(obs), "vrs"), mark(v, "values"))
            unary(R, it, f"reduce ({obs} = {vals}, values a {kind})", f, lambda q: [v for v in q if v not in obs],
                  lambda t: lambda z: t.at({**z, **dict(zip(obs, vals))}), scopes=[vs], opname="reduce",
                  kinds=KINDS if kind == "list" else ["even"])


@obligation("V07", "V01", "V05")
def sparse_evaluate(it, R):
    for vs in ("ab", "abc", "bca"):
        for dn, d in DEFAULTS:
            for kind in ("full", "even", "mixed", "zeros", "first"):
                t = pattern("x", vs, kind, d)
                for perm in (vs, vs[::-1], vs[1:] + vs[:1]):
                    case = f"SparseCategorical.potential (variables {vs} asked as {perm}, {kind} table, {dn})"
                    ks = list(product(*[range(CARD[v]) for v in perm]))

                    def thunk(it):
                        w = SW(it)
                        a = w.make(t, "a")
                        out = []
                        for k in ks:
                            out.append(meth(it, a, "potential", mark(pylist(perm), "vrs"), mark(pylist(k) if sum(k) % 2 else Tup([One(q) for q in k]), "assignment")))
                        return a, out, it.getattr(a, "weight")

                    def ver(o):
                        a, out, wt = o.value
                        for k, r in zip(ks, out):
                            z = dict(zip(perm, k))
                            number(R, P, "SparseCategorical.potential", r, t.at(z), f"{case} at {z}")
                        number(R, P, "SparseCategorical.weight", wt, full_sum(t), case)
                        common(R, it, o, "SparseCategorical.potential", None)
                    explore(it, R, case, thunk, ver, P)


def number(R, props, what, got, want, case):
    if isinstance(got, Top):
        return R.verdict(props, what, *top_verdict(got))
    w = Nu(want) if isinstance(want, Rat) else want
    s = same(got, w) if isinstance(got, Val) or isnum(got) else None
    if s is None or isinstance(s, Top):
        return R.verdict(props, what, UNK, f"{case}: {got!r}")
    R.verdict(props, what, EQ if s else NE, f"{case}: {got!r} instead of {want!r}")


@obligation("V07", "V01")
def sparse_argmax(it, R):
    for vs in ("ab", "bca"):
        ks = list(product(*[range(CARD[v]) for v in vs]))
        for kind in ("full", "even", "mixed", "row1", "last"):
            for dn, d in DEFAULTS:
                t = pattern("x", vs, kind, d)
                present = [k for k in ks if isinstance(t.ent.get(k), Rat)]
                tops = present + ([None] if len(t.ent) < len(ks) and isinstance(d, Rat) else [])
                for top, tight in [(q, False) for q in tops] + [(q, True) for q in tops[:1] + tops[-2:]]:
                    rank = {f"x{''.join(map(str, k))}": i + (100 if k == top else 0) for i, k in enumerate(ks)}
                    rank["d"] = 50.5 if top is None else -1
                    if tight:                  # values that differ little
                        rank = {k: -2.0 + 1e-6 * q for k, q in rank.items()}
                    case = f"SparseCategorical.argmax (variables {vs}, {kind} table, {dn}, largest{' by little' if tight else ''} at {top or 'an absent assignment'})"

                    def thunk(it):
                        w = SW(it, rank)
                        a = w.make(t, "a")
                        return a, meth(it, a, "argmax")

                    def ver(o):
                        a, r = o.value
                        if isinstance(r, Top):
                            return R.verdict(P, "SparseCategorical.argmax", *top_verdict(r))
                        got = names_of(it, r)
                        good = [top] if top is not None else [k for k in ks if k not in t.ent]
                        ok = got is not None and tuple(got) in good
                        R.verdict(P, "SparseCategorical.argmax", EQ if ok else NE if got is not None else UNK, f"{case}: returns {got}")
                        common(R, it, o, "SparseCategorical.argmax", None)
                    explore(it, R, case, thunk, ver, P)


@obligation("V11", "V01")
def sparse_kl(it, R):
    Q = ("V11",)
    for va, vb in (("ab", "ab"), ("ab", "ba"), ("ca", "ac"), ("a", "a")):
        for norm in (True, False):
            for ka, kb in (("full", "full"), ("even", "full"), ("zeros", "full"), ("row0", "nolast"), ("mixed", "full"), ("first", "full"), ("full", "row0"), ("full", "zeros"), ("row0", "even")):
                if va == "ab" and va != vb and kb == "nolast":
                    continue
                ta, tb = pattern("x", va, ka, 0), pattern("y", vb, kb, 0)
                zs = [dict(zip(va, k)) for k in ta.keys()]
                infinite = any(isinstance(ta.at(z), Rat) and not isinstance(tb.at(z), Rat) for z in zs)
                case = f"SparseCategorical.kl_divergence ({va}/{vb}, {ka}/{kb} table, normalize_factor={norm})"

                def thunk(it):
                    w = SW(it)
                    a, b = w.make(ta, "a"), w.make(tb, "b")
                    return meth(it, a, "kl_divergence", b, normalize_factor=norm)

                def ver(o):
                    r = o.value
                    if isinstance(r, Top):
                        return R.verdict(Q, "SparseCategorical.kl_divergence", *top_verdict(r))
                    if infinite:
                        ok = isinstance(r, (int, float)) and r == math.inf
                        return R.verdict(Q, "SparseCategorical.kl_divergence: excluded assignments", EQ if ok else NE if isnum(r) or isinstance(r, Val) else UNK, f"{case}: {r!r} is not infinite")
                    sa, sb = full_sum(ta), full_sum(tb)
                    want = 0
                    for z in zs:
                        p = ta.at(z)
                        if isinstance(p, Rat):
                            p = p / sa
                            q = tb.at(z) / sb if norm else tb.at(z)
                            want = binop(it, "+", want, binop(it, "*", mk_nu(p), mk_re(p / q)))
                    number_kl(R, Q, "SparseCategorical.kl_divergence", r, want, case)
                    common(R, it, o, "SparseCategorical.kl_divergence", None)
                R.cur = case
                explore(it, R, case, thunk, ver, Q)
    for vs in ("ab", "ca", "b"):
        for dn, d in DEFAULTS:
            for kind in ("full", "even", "zeros", "row0", "mixed", "first"):
                if isinstance(d, Rat) and vs == "ab" and kind not in ("row0", "first"):
                    continue
                t = pattern("x", vs, kind, d)
                case = f"SparseCategorical.distance_from_vacuous (variables {vs}, {kind} table, {dn})"

                def thunk(it):
                    w = SW(it)
                    return meth(it, w.make(t, "a"), "distance_from_vacuous")

                def ver(o):
                    r = o.value
                    if isinstance(r, Top):
                        return R.verdict(Q, "SparseCategorical.distance_from_vacuous", *top_verdict(r))
                    s = full_sum(t)
                    n = math.prod(CARD[v] for v in vs)
                    want = 0
                    for k in t.keys():
                        p = t.at(dict(zip(vs, k)))
                        if isinstance(p, Rat):
                            p = p / s
                            want = binop(it, "+", want, binop(it, "*", mk_nu(p), mk_re(p * rconst(n))))
                    number_kl(R, Q, "SparseCategorical.distance_from_vacuous", r, want, case)
                    common(R, it, o, "SparseCategorical.distance_from_vacuous", None)
                explore(it, R, case, thunk, ver, Q)


def number_kl(R, props, what, got, want, case):
    s = same(got, want) if isinstance(got, Val) or isnum(got) else None
    if s is None or isinstance(s, Top):
        return R.verdict(props, what, UNK, f"{case}: {got!r}")
    R.verdict(props, what, EQ if s else NE, f"{case}: a different sum of p log(p/q) terms")


@obligation("V12", "V01")
def sparse_equals(it, R):
    Q = ("V12",)
    tol = dict(rtol=T("tol", "rtol"), atol=T("tol", "atol"))

    def one(case, ta, tb, want, close=()):
        def thunk(it):
            w = SW(it, close={frozenset(c) for c in close})
            a, b = w.make(ta, "a"), w.make(tb, "b")
            return [meth(it, a, "equals", b, **tol), meth(it, b, "equals", a, **tol)]

        def ver(o):
            for r, side in zip(o.value, ("", ", exchanged")):
                if isinstance(r, Top):
                    R.verdict(Q, "SparseCategorical.equals", *top_verdict(r))
                elif not isinstance(r, bool):
                    R.verdict(Q, "SparseCategorical.equals", UNK, f"{r!r}")
                else:
                    R.verdict(Q, "SparseCategorical.equals", EQ if r is want else NE, f"{case}{side}: returns {r}")
            common(R, it, o, "SparseCategorical.equals", None)
        explore(it, R, f"SparseCategorical.equals ({case})", thunk, ver, Q)

    for vs in ("ab", "bca"):
        for perm in (vs, vs[::-1], vs[1:] + vs[:1]):
            for dn, d in DEFAULTS:
                for kind in ("full", "even", "first", "zeros", "mixed"):
                    ta = pattern("x", vs, kind, d)

                    def view(ch):
                        ent = {}
                        for k in product(*[range(CARD[v]) for v in perm]):
                            z = dict(zip(perm, k))
                            kk = tuple(z[v] for v in vs)
                            if kk in ch:
                                if ch[kk] is not None:
                                    ent[k] = ch[kk]
                            elif kk in ta.ent:
                                ent[k] = ta.ent[kk]
                        return Tab(perm, ent, d)
                    c = f"{vs} and {perm}, {kind} table, {dn}"
                    one(c + ", same values", ta, view({}), True)
                    xs = [k for k in ta.keys() if isinstance(ta.ent.get(k), Rat)]
                    ms = [k for k in ta.keys() if k not in ta.ent]
                    for k in (xs[0], xs[-1]):
                        nm = f"x{''.join(map(str, k))}"
                        one(c + f", near value at {k}", ta, view({k: symbol("near")}), True, [(nm, "near")])
                        one(c + f", other value at {k}", ta, view({k: symbol("other")}), False)
                        one(c + f", value missing at {k}", ta, view({k: None}), False)
                        one(c + f", zero at {k}", ta, view({k: 0}), False)
                    for k in ms[:1] + ms[-1:]:
                        one(c + f", explicit default at {k}", ta, view({k: d}), True)
                        one(c + f", additional value at {k}", ta, view({k: symbol("other")}), False)
                        if isinstance(d, Rat):
                            one(c + f", near the default at {k}", ta, view({k: symbol("near")}), True, [("d", "near")])
    for va, vb in (("ab", "a"), ("a", "ab"), ("ab", "ac"), ("ab", "abc")):
        one(f"variables {va} and {vb}", pattern("x", va, "even", 0), pattern("x", vb, "even", 0), False)
    # different defaults matter exactly where an assignment is absent from both
    e = symbol("e")
    fa, fb = pattern("x", "ab", "full", 0), pattern("x", "ab", "full", e)
    one("full tables with different defaults", fa, fb, True)
    one("different defaults", pattern("x", "ab", "even", symbol("d")), pattern("x", "ab", "even", e), False)
    one("near defaults", pattern("x", "ab", "even", symbol("d")), pattern("x", "ab", "even", e), True, [("d", "e")])
    u, v = symbol("d"), symbol("e")
    one("complementary tables with each other's default", Tab("a", {(0,): v}, u), Tab("a", {(1,): u}, v), True)
    one("dense against sparse with its default written out", Tab("a", {(0,): v, (1,): u}, 0), Tab("a", {(0,): v}, u), True)
    one("dense against sparse with another default", Tab("a", {(0,): v, (1,): u}, 0), Tab("a", {(0,): v}, symbol("w")), False)
    # every pair of small tables whose entries and defaults are drawn from the same few values
    for va in ("a", "b"):
        ks = list(product(range(CARD[va])))
        ts = [Tab(va, {k: x for k, x in zip(ks, c) if x is not None}, q) for c in product((None, u, v), repeat=len(ks)) for q in (u, v, 0)]
        pairs = list(combinations(ts, 2))
        for i, (x, y) in enumerate(pairs):
            if va == "a" or R.tier == "thorough" or i % 11 == 0:
                show = lambda t: f"{[(k[0], 'uv'[z is v]) for k, z in t.ent.items()]} default {0 if not isinstance(t.default, Rat) else 'uv'[t.default is v]}"
                one(f"tables over {va}: {show(x)} and {show(y)}", x, y, all(eqv(x.at({va: k[0]}), y.at({va: k[0]})) for k in ks))
