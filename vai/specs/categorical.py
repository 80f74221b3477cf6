"""Dense discrete tables."""
from ..check import *

CAT = "veroku.factors.categorical"


def card(g):
    return T("card", g)


def anames(g):
    return T("anames", g)


def leaves(**tables):
    return {("logp", k): M.table(v) for k, v in tables.items()}


def table_of(it, v):
    a = v.fields.get("log_probs_tensor") if isinstance(v, Inst) else None
    if isinstance(a, Arr):
        a = it.aval(a)
    return a


def is_cat(v):
    return isinstance(v, Inst) and any(c.name == "Categorical" for c in v.cls.mro())


def check_result(it, R, ctx, o, what, v, atoms, body, order=None, vprops=("V05",)):
    f = o.facts
    if not is_cat(v):
        if isinstance(v, Top):
            R.verdict(("V04", "V05") + tuple(vprops), what, *top_verdict(v))
        else:
            fz = ctx.feasible(f)
            R.verdict(("V04", "V14") + tuple(vprops), what + ": result type", NE if fz else UNK, f"result is {v!r}, not a table factor")
        return
    vn = it.getattr(v, "var_names")
    if not isinstance(vn, (LObj, Tup)):
        R.verdict(("V04", "V14"), what, UNK, "variable names unknown")
        return
    R.verdict("V14", what + ": scope", *same_content(it, ctx, vn.parts, atoms, f))
    order_free(it, R, what + ": variable order", vn.parts, ctx, f)
    if order is not None:
        R.verdict("V14", what + ": variable order", *same_seq(it, ctx, vn.parts, order, f))
    dim = v.fields.get("_dim")
    if dim is not None and num(dim) is not None:
        R.verdict("V14", what + ": dimension", *cmp_terms(ctx, dim, count_parts(scope(atoms, "o")) if atoms else 0, f))
    t = table_of(it, v)
    if isinstance(t, Top) or t is None:
        R.verdict(("V04",) + tuple(vprops), what + ": table", *top_verdict(t if t is not None else Top("no table")))
        return
    if isinstance(t, Ten):
        if any(isinstance(p, One) for p in t.axes):
            # axes of one element: position by position
            pass
        axes = [p for p in t.axes]
        try:
            R.verdict(("V04",) + tuple(vprops), what + ": table axes follow the variable order", *axes_match(it, ctx, axes, vn.parts, f))
        except Undec as e:
            R.verdict("V04", what + ": table axes", UNK, str(e))
        if body is not None:
            R.verdict(vprops, what + ": table values", *cmp_terms(ctx, t.body, body, f))
    vc = v.fields.get("var_cards")
    R.verdict("V04", what + ": cardinality by name", *dict_is(it, ctx, vc, atoms, card, f))
    cs = v.fields.get("cardinalities")
    ps = it.seq_parts(cs) if cs is not None and not isinstance(cs, Top) else None
    if ps is None:
        R.verdict("V04", what + ": cardinalities", UNK, "unknown")
    else:
        exp = [One(card(p.v)) if isinstance(p, One) else Map(p.order, [GE(g.g, g.guards, subst(card(T("g", "V", "#", 0)), {T("g", "V", "#", 0): g.v})) for g in p.ges]) for p in vn.parts]
        R.verdict("V04", what + ": cardinalities follow the variable order", *same_seq(it, ctx, ps, exp, f))
    an = v.fields.get("vars_assignments_names_dict")
    R.verdict("V04", what + ": state names by variable", *dict_is(it, ctx, an, atoms, anames, f))


def axes_match(it, ctx, axes, parts, facts):
    t = has_top(axes)
    if t is not None:
        return top_verdict(t)
    if parts_key(it, axes) == parts_key(it, parts):
        return EQ, ""

    def conv(p):
        if isinstance(p, One):
            return One("<unit>") if p.v is UNIT else p
        return Map(p.order, [GE(g.g, g.guards, "<unit>" if g.v is UNIT else g.v) for g in p.ges])

    def f(m):
        a, b = conc_list(m, it, [conv(p) for p in axes]), conc_list(m, it, parts)
        return None if a == b else f"table axes {a} for variables {b}"
    return cmp_concrete(ctx, facts, f)


def A(n):
    return num(leaf("logp", n))


CTX2 = [("overlap", ["A", "C"], ["C", "B"]), ("equal scopes", ["C"], ["C"]), ("subset", ["A", "C"], ["C"]),
        ("superset", ["C"], ["C", "B"]), ("disjoint", ["A"], ["B"])]
CTXDIV = [("equal scopes", ["C"], ["C"]), ("subset", ["A", "C"], ["C"])]
NINF = float("-inf")


def two(it, R, op, cname, aa, ba, body, vprops, infs):
    ctx = Ctx(leaves(a=aa, b=ba), infs=infs)
    what = f"Categorical.{op} ({cname})"

    def thunk(it):
        return meth(it, categorical(it, "a", aa), op, categorical(it, "b", ba))
    atoms = list(dict.fromkeys(aa + ba))
    run(it, R, ctx, what, thunk, lambda it, o: check_result(it, R, ctx, o, what, o.value, atoms, body, vprops=vprops),
        main=vprops, qual=f"Categorical.{op}")


@obligation("V01", "V02", "V04", "V05", "V14", "V23")
def categorical_multiply(it, R):
    for op in ("multiply", "absorb"):
        for c, aa, ba in CTX2:
            two(it, R, op, c, aa, ba, A("a") + A("b"), ("V05",), False)


@obligation("V01", "V02", "V04", "V05", "V14", "V23")
def categorical_divide(it, R):
    for c, aa, ba in CTXDIV:
        two(it, R, "divide", c, aa, ba, A("a") - A("b"), ("V05",), False)


@obligation("V01", "V02", "V04", "V05", "V06", "V14", "V23")
def categorical_cancel(it, R):
    both = num(T("ew", "&", num(T("ew", "==", A("a"), num(NINF))), num(T("ew", "==", A("b"), num(NINF)))))
    spec = A("a") - num(T("where", both, ZERO, A("b")))
    for c, aa, ba in CTXDIV:
        two(it, R, "cancel", c, aa, ba, spec, ("V06",), True)
        two(it, R, "cancel", c + ", no zeros", aa, ba, A("a") - A("b"), ("V05", "V06"), False)


@obligation("V01", "V02", "V04", "V05", "V14", "V23")
def categorical_marginalize(it, R):
    for keep in (True, False):
        for cname, kept, gone in (("some", ["K"], ["D"]), ("all", ["K"], []), ("two groups", ["K", "L"], ["D"])):
            if not keep and not gone:
                pass
            atoms = kept + gone
            what = f"Categorical.marginalize (keep={keep}, {cname})"
            ctx = Ctx(leaves(a=atoms))
            arg = kept if keep else gone

            def thunk(it):
                return meth(it, categorical(it, "a", atoms), "marginalize", lst(it, scope(arg, "ov"), "vrs"), keep=keep)
            body = A("a")
            if gone:
                body = num(T("red", "lse", frozenset(("V", g, frozenset()) for g in gone), body))
            run(it, R, ctx, what, thunk, lambda it, o: check_result(it, R, ctx, o, what, o.value, kept, body),
                main=("V05",), qual="Categorical.marginalize")


@obligation("V01", "V02", "V04", "V05", "V14", "V23")
def categorical_reduce(it, R):
    for cname, kept, obs in (("some", ["K"], ["D"]), ("none", ["K"], [])):
        atoms = kept + obs
        what = f"Categorical.reduce ({cname} observed)"
        ctx = Ctx(leaves(a=atoms))

        def thunk(it):
            return meth(it, categorical(it, "a", atoms), "reduce", lst(it, scope(obs, "ov"), "vrs"),
                        lst(it, scope(obs, "ov", lambda g: T("val", g)), "values"))
        body = A("a")
        if obs:
            body = num(T("sel", leaf("logp", "a"), frozenset(
                ("V", g, frozenset(), G("V", g, "*"), T("val", G("V", g, "*"))) for g in obs)))
        run(it, R, ctx, what, thunk, lambda it, o: check_result(it, R, ctx, o, what, o.value, kept, body),
            main=("V05",), qual="Categorical.reduce")


@obligation("V01", "V05")
def categorical_potential(it, R):
    atoms = ["K", "D"]
    what = "Categorical.potential"
    ctx = Ctx(leaves(a=atoms))

    def thunk(it):
        return meth(it, categorical(it, "a", atoms), "potential", lst(it, scope(atoms, "ov"), "vrs"),
                    lst(it, scope(atoms, "ov", lambda g: T("val", g)), "values"))
    body = T("ew1", "exp", num(T("sel", leaf("logp", "a"), frozenset(
        ("V", g, frozenset(), G("V", g, "*"), T("val", G("V", g, "*"))) for g in atoms))))
    run(it, R, ctx, what, thunk, lambda it, o: R.verdict("V05", what, *cmp_terms(ctx, scalar_of(it, o.value), body, o.facts)),
        main=("V05",), own=True)


def scalar_of(it, v):
    if isinstance(v, Arr):
        t = it.aval(v)
        if isinstance(t, Ten):
            return t.body
        return t
    return v


@obligation("V01", "V02", "V04", "V05", "V13", "V14", "V23")
def categorical_unary(it, R):
    atoms = ["A", "C"]
    ctx = Ctx(leaves(a=atoms), infs=True)
    lse = T("redall", "lse", A("a"), frozenset((g, frozenset()) for g in atoms))
    for op, body, props in (("copy", A("a"), ("V13",)), ("normalize", A("a") - num(lse), ("V05",))):
        what = f"Categorical.{op}"
        run(it, R, ctx, what, lambda it: meth(it, categorical(it, "a", atoms), op),
            lambda it, o: check_result(it, R, ctx, o, what, o.value, atoms, body, vprops=props,
                                       order=scope(atoms, "oa") if op == "copy" else None), main=props, qual=f"Categorical.{op}")
    what = "Categorical.reorder"
    run(it, R, ctx, what, lambda it: meth(it, categorical(it, "a", atoms), "reorder", lst(it, scope(atoms, "ov"), "order")),
        lambda it, o: check_result(it, R, ctx, o, what, o.value, atoms, A("a"), order=scope(atoms, "ov")), main=("V05",), qual="Categorical.reorder")


@obligation("V12", "V01")
def categorical_equals(it, R):
    atoms = ["A", "C"]
    ctx = Ctx(leaves(a=atoms), n=60)
    ctx.leaves[("logp", "b")] = M.near(("logp", "a"), atoms)
    rt, at = leaf("tol", "rtol"), leaf("tol", "atol")
    ctx.leaves[("tol", "rtol")] = M.scal(0.01, 0.5)
    ctx.leaves[("tol", "atol")] = M.scal(0.01, 0.5)
    what = "Categorical.equals (same variables)"
    want = T("allclose", A("a"), A("b"), rt, at)
    run(it, R, ctx, what, lambda it: meth(it, categorical(it, "a", atoms), "equals", categorical(it, "b", atoms), rtol=rt, atol=at),
        lambda it, o: eq_verdict(it, R, ctx, what, o, want), main=("V12",))
    for cname, ba in (("fewer variables", ["A"]), ("more variables", ["A", "C", "B"]), ("other variables", ["A", "B"])):
        ctx2 = Ctx({**leaves(a=atoms, b=ba), ("tol", "rtol"): M.scal(0.01, 0.5), ("tol", "atol"): M.scal(0.01, 0.5)})
        what2 = f"Categorical.equals ({cname})"
        run(it, R, ctx2, what2, lambda it: meth(it, categorical(it, "a", atoms), "equals", categorical(it, "b", ba), rtol=rt, atol=at),
            lambda it, o: eq_verdict(it, R, ctx2, what2, o, False), main=("V12",))


def eq_verdict(it, R, ctx, what, o, want):
    """o.value must be the truth value of want under the path's facts"""
    v = o.value
    if isinstance(v, Top):
        R.verdict("V12", what, *top_verdict(v))
        return

    def f(m):
        got = v if isinstance(v, (bool, type(None))) else m.cond(v if isinstance(v, T) else num(v), {})
        w = want if isinstance(want, bool) else m.cond(want, {})
        return None if bool(got) == w else f"returns {bool(got)} for operands that are {'equal' if w else 'not equal'}"
    if v is want or (isinstance(v, T) and v == want):
        R.verdict("V12", what, EQ)
        return
    R.verdict("V12", what, *cmp_concrete(ctx, o.facts, f))


@obligation("V11", "V01")
def categorical_kl(it, R):
    atoms = ["A", "C"]
    n = lambda k: A(k) - num(T("redall", "lse", A(k), frozenset((g, frozenset()) for g in atoms)))
    axs = frozenset((g, frozenset()) for g in atoms)
    for norm in (True, False):
        ctx = Ctx(leaves(a=atoms, b=atoms), sizes={"A": 1, "C": 1}, n=16)
        lp, lq = n("a"), (n("b") if norm else A("b"))
        what = f"Categorical.kl_divergence (normalize_factor={norm})"
        body = T("where", num(T("ew", "!=", lp, num(NINF))), num(T("ew1", "exp", lp)) * (lp - lq), ZERO)
        kl = T("redall", "sum", num(body), axs)

        def ver(it, o):
            R.verdict("V11", what, *kl_cmp(ctx, scalar_of(it, o.value), kl, o.facts))
        run(it, R, ctx, what, lambda it: meth(it, categorical(it, "a", atoms), "kl_divergence", categorical(it, "b", atoms),
                                              normalize_factor=norm), ver, main=("V11",), on_raise=lambda it, o: None)
    ctx = Ctx(leaves(a=atoms, b=atoms), infs=True)
    what = "Categorical.distance_from_vacuous"
    lp = n("a")
    un = num(T("ew1", "log", num(T("prod", "V", "A", frozenset(), num(card(G("V", "A", "*"))))) * num(T("prod", "V", "C", frozenset(), num(card(G("V", "C", "*")))))))
    kl = T("redall", "sum", num(T("where", num(T("ew", "!=", lp, num(NINF))), num(T("ew1", "exp", lp)) * (lp + un), ZERO)), axs)
    run(it, R, ctx, what, lambda it: meth(it, categorical(it, "a", atoms), "distance_from_vacuous"),
        lambda it, o: R.verdict("V11", what, *kl_cmp(ctx, scalar_of(it, o.value), kl, o.facts)), main=("V11",), on_raise=lambda it, o: None)


def kl_cmp(ctx, got, want, facts):
    """equal up to the clipping of tiny negative rounding errors to zero"""
    if isinstance(got, (int, float)) and got == 0:
        def f(m):
            x = m.scalar(want, {})
            return None if abs(x) < 1e-3 else f"0 instead of {x:.5g}"
        v, d = cmp_concrete(ctx, facts, f)
        return v, d
    return cmp_terms(ctx, got, want, facts)


@obligation("V05", "V01")
def categorical_argmax(it, R):
    atoms = ["A", "C"]
    what = "Categorical.argmax"
    ctx = Ctx(leaves(a=atoms))

    def ver(it, o):
        v = o.value
        ps = it.seq_parts(v) if not isinstance(v, Top) else None
        if ps is None:
            R.verdict("V05", what, UNK, "unknown result")
            return
        want = []
        # for every variable, in the factor's order, the coordinate of the maximum
        for p in ps:
            if not isinstance(p, Map):
                R.verdict("V05", what, UNK, "unknown result")
                return
            for ge in p.ges:
                x = ge.v
                if not (isinstance(x, T) and x.op == "argat" and isinstance(x.args[0], T) and x.args[0].op == "argmax"):
                    R.verdict("V05", what, UNK, f"{x!r}")
                    return
                okb = cmp_terms(ctx, x.args[0].args[0], A("a"), o.facts)
                R.verdict("V05", what + ": maximised table", *okb)
                want.append(x.args[1])
        seq = [Map(p.order, [GE(g.g, g.guards, g.v.args[1]) for g in p.ges]) for p in ps]
        R.verdict("V05", what + ": variable order", *same_seq(it, ctx, seq, scope(atoms, "oa"), o.facts))
    run(it, R, ctx, what, lambda it: meth(it, categorical(it, "a", atoms), "argmax"), ver, main=("V05",))
