"""Gaussian factors in canonical and covariance form."""
from ..check import *
from .categorical import eq_verdict, scalar_of

FORMS = ("can", "cov", "both")
FIELDS = {"prec", "h_vec", "g_val", "canform", "cov", "mean", "log_weight", "covform"}


def gleaves(**ops):
    out = {}
    for n, atoms in ops.items():
        out.update({("prec", n): M.spd(atoms), ("cov", n): M.spd(atoms), ("h", n): M.vec(atoms),
                    ("mean", n): M.vec(atoms), ("g", n): M.scal(), ("lw", n): M.scal()})
    return out


def ctxg(**ops):
    return Ctx(gleaves(**ops))


def is_gauss(v):
    return isinstance(v, Inst) and any(c.name == "Gaussian" for c in v.cls.mro())


def arr_of(it, v):
    if isinstance(v, Arr):
        return it.aval(v)
    return v


def flag(v):
    return v if isinstance(v, bool) else None


def check_arr(it, R, ctx, facts, props, what, v, rows, col, want):
    """labels and values of a matrix (col=parts) or a column vector (col=None)"""
    t = arr_of(it, v)
    if isinstance(t, Top):
        R.verdict(props, what, *top_verdict(t))
        return
    if not isinstance(t, Ten) or len(t.axes) != 2 or not all(isinstance(a, One) for a in t.axes):
        R.verdict(props, what, UNK, f"not a matrix: {t!r}"[:200])
        return
    for k, exp in ((0, rows), (1, col)):
        ax = t.axes[k].v
        nm = "rows" if k == 0 else "columns"
        if ax is UNIT and exp is not None and not ctx.unit_ok:
            n = count_parts(exp)
            R.verdict("V08", f"{what}: {nm}", UNK, "single element axis")
        elif exp is None:
            R.verdict("V08", f"{what}: {nm}", EQ if ax is UNIT else UNK, f"{ax!r}"[:100])
        elif isinstance(ax, VA):
            if ax.free:
                if num(t.body) == ZERO:
                    R.verdict("V08", f"{what}: {nm}", *cmp_terms(ctx, count_parts(ax.parts), count_parts(exp), facts))
                else:
                    R.verdict("V08", f"{what}: {nm}", UNK, "labels of an axis unknown")
            else:
                R.verdict(("V08",) + tuple(props), f"{what}: {nm} follow the variable order", *same_seq(it, ctx, ax.parts, exp, facts))
        elif ax is not UNIT:
            R.verdict("V08", f"{what}: {nm}", UNK, f"{ax!r}"[:100])
    if want is not None:
        R.verdict(props, what + ": values", *cmp_terms(ctx, t.body, want, facts))


def check_scalar(it, R, ctx, facts, props, what, v, want):
    v = scalar_of(it, v)
    if v is None:
        R.verdict(props, what, NE if ctx.feasible(facts) else UNK, "missing (None)")
        return
    R.verdict(props, what, *cmp_terms(ctx, v, want, facts))


def check_gauss(it, R, ctx, facts, what, v, atoms, can, props=("V10",), order=None, coherent=("V09",), exact_order=False):
    """v denotes exp(-x'Kx/2 + h'x + g) with can = (K, h, g) over the variables of atoms"""
    if not is_gauss(v):
        if isinstance(v, Top):
            R.verdict(("V08", "V09") + tuple(props), what, *top_verdict(v))
        else:
            fz = ctx.feasible(facts)
            if fz is not False:
                R.verdict(("V14",) + tuple(props), what + ": result type", NE if fz else UNK, f"result is {v!r}, not a Gaussian")
        return
    f = v.fields
    vn = f.get("_var_names")
    ps = it.seq_parts(vn) if vn is not None and not isinstance(vn, Top) else None
    if ps is None:
        R.verdict(("V08", "V14"), what, UNK, "variable names unknown")
        return
    R.verdict("V14", what + ": scope", *same_content(it, ctx, ps, atoms, facts))
    order_free(it, R, what + ": variable order", ps, ctx, facts)
    if order is not None:
        R.verdict("V14", what + ": variable order", *same_seq(it, ctx, ps, order, facts))
    if num(f.get("_dim")) is not None:
        R.verdict("V14", what + ": dimension", *cmp_terms(ctx, f["_dim"], count_parts(ps), facts))
    cf, vf = f.get("canform"), f.get("covform")
    if not isinstance(cf, bool) or not isinstance(vf, bool):
        R.verdict(("V08", "V09") + tuple(props), what, UNK, "form flags unknown")
        return
    if not cf and not vf:
        fz = ctx.feasible(facts)
        if fz is not False:
            R.verdict(("V09",), what + ": forms", NE if fz else UNK, "neither form is marked as up to date")
        return
    fz = ctx.feasible(facts)
    if fz is False:
        R.verdict(("V08", "V09") + tuple(props), what, SKIP)
        return
    for on, names, nm in ((cf, ("prec", "h_vec", "g_val"), "canonical"), (vf, ("cov", "mean", "log_weight"), "covariance")):
        if not on:
            continue
        miss = [n for n in names if f.get(n) is None]
        if miss:
            R.verdict(tuple(dict.fromkeys(tuple(coherent) + tuple(props))), f"{what}: {nm} form", NE if fz else UNK, f"marked up to date but {', '.join(miss)} missing")
            return
    vac = f.get("_is_vacuous")
    k, h, g = can
    pr = tuple(dict.fromkeys(tuple(props) + (tuple(coherent) if cf and vf else ())))
    if cf:
        check_arr(it, R, ctx, facts, pr, what + ": precision", f["prec"], ps, ps, k)
        check_arr(it, R, ctx, facts, pr, what + ": information vector", f["h_vec"], ps, None, h)
        if g is not None:
            check_scalar(it, R, ctx, facts, pr, what + ": constant", f["g_val"], g)
    if vf:
        c, m, w = can2cov(k, h, g if g is not None else 0, atoms)
        check_arr(it, R, ctx, facts, pr, what + ": covariance", f["cov"], ps, ps, c)
        check_arr(it, R, ctx, facts, pr, what + ": mean", f["mean"], ps, None, m)
        if g is not None:
            check_scalar(it, R, ctx, facts, pr, what + ": log weight", f["log_weight"], w)


def at(m, r, c=None):
    return num(T("at", m, r, c))


def embed_mat(parts, atoms):
    """sum of (sign, matrix, its atoms) embedded in a larger scope"""
    ents = []
    for i in atoms:
        for j in atoms:
            gi, gj = G("V", i, ("b", fresh())), G("V", j, ("b", fresh()))
            x = ZERO
            for s, m, ats in parts:
                if i in ats and j in ats:
                    x = x + (at(m, gi, gj) if not num(m).is_const() else num(m)).scale(s)
            ents.append(("e", (gi, gj), ((gi, ()), (gj, ())), x))
    return T("fam", ZERO, tuple(ents))


def embed_vec(parts, atoms):
    ents = []
    for i in atoms:
        gi = G("V", i, ("b", fresh()))
        x = ZERO
        for s, m, ats in parts:
            if i in ats:
                x = x + (at(m, gi, None) if not num(m).is_const() else num(m)).scale(s)
        ents.append(("e", (gi, 0), ((gi, ()),), x))
    return T("fam", ZERO, tuple(ents))


def lazy_ok(ctx):
    """filling in the form that was not up to date is not a modification of the operand"""
    def f(it, o, m):
        ext, kind, key, old, new, loc = m
        if kind != "setattr" or key not in FIELDS:
            return False
        return old is None or old is False
    return f


def post_operands(it, R, ctx, o, what, qual, forms):
    """operands still denote the same functions after the call (lazily computed forms included)"""
    for n, (x, atoms, form) in getattr(it, "ops", {}).items():
        if form == "vac" or R.prop not in ("V01", "V09"):
            continue
        check_gauss(it, R, ctx, o.facts, f"{qual}: operand {n} afterwards", x, atoms, gauss_can(n, atoms, form), props=("V01",),
                    coherent=("V09",))


def operands(it, **spec):
    """spec: name=(atoms, form)"""
    it.ops = {}
    out = []
    for n, (atoms, form) in spec.items():
        x = gaussian(it, n, atoms, form)
        it.ops[n] = (x, atoms, form)
        out.append(x)
    return out


def grun(it, R, ctx, what, qual, thunk, ver, main, **k):
    def v(it, o):
        post_operands(it, R, ctx, o, what, qual, None)
        if ver:
            ver(it, o)
    return run(it, R, ctx, what, thunk, v, main=main, mut_ok=lazy_ok(ctx), qual=qual, **k)


CTX2 = [("overlap", ["A", "C"], ["C", "B"]), ("equal scopes", ["C"], ["C"]), ("equal scopes, two groups", ["A", "C"], ["A", "C"]),
        ("subset", ["A", "C"], ["C"]), ("superset", ["C"], ["C", "B"]), ("disjoint", ["A"], ["B"])]
PAIRS = [("can", "can"), ("cov", "can"), ("can", "cov"), ("cov", "cov"), ("both", "both"), ("vac", "can"), ("can", "vac")]


@obligation("V01", "V02", "V08", "V09", "V10", "V14", "V23")
def gaussian_products(it, R):
    for op, s in (("multiply", 1), ("absorb", 1), ("divide", -1), ("cancel", -1)):
        for cname, aa, ba in CTX2:
            for fa, fb in PAIRS if op in ("multiply", "divide") else PAIRS[:1]:
                atoms = list(dict.fromkeys(aa + ba))
                ctx = ctxg(a=aa, b=ba)
                what = f"Gaussian.{op} ({cname}, {fa}/{fb})"
                pa, pb = gauss_can("a", aa, fa), gauss_can("b", ba, fb)
                can = (embed_mat([(1, pa[0], aa), (s, pb[0], ba)], atoms), embed_vec([(1, pa[1], aa), (s, pb[1], ba)], atoms),
                       num(pa[2]) + num(pb[2]).scale(s))

                def thunk(it):
                    a, b = operands(it, a=(aa, fa), b=(ba, fb))
                    return meth(it, a, op, b)
                grun(it, R, ctx, what, f"Gaussian.{op}", thunk,
                     lambda it, o: check_gauss(it, R, ctx, o.facts, what, o.value, atoms, can), main=("V10",))


def sub2(m, r, c=None):
    return T("sub", num(m), RS(r), RS(c) if c else None)


@obligation("V01", "V02", "V08", "V09", "V10", "V14", "V23")
def gaussian_marginalize(it, R):
    for form in FORMS:
        for keep in (True, False):
            for cname, K, D in (("some", ["K"], ["D"]), ("two groups", ["K", "L"], ["D", "E"]), ("all", [], ["D"])):
                atoms = K + D
                ctx = ctxg(a=atoms)
                what = f"Gaussian.marginalize (keep={keep}, {cname}, {form})"
                P, h, g = gauss_can("a", atoms, form)
                yy = T("inv", num(sub2(P, D, D)))
                xy = sub2(P, K, D)
                hy = sub2(h, D)
                k2 = num(sub2(P, K, K)) - num(mmul(xy, mmul(yy, tr(xy), D), D))
                h2 = num(sub2(h, K)) - num(mmul(xy, mmul(yy, hy, D), D))
                g2 = num(g) + num(mmul(tr(hy), mmul(yy, hy, D), D)).scale(0.5) + num(logdet2pi(yy, D)).scale(0.5)
                if not K:
                    k2 = h2 = ZERO

                def thunk(it):
                    a, = operands(it, a=(atoms, form))
                    return meth(it, a, "marginalize", lst(it, scope(K if keep else D, "ov"), "vrs"), keep=keep)
                grun(it, R, ctx, what, "Gaussian.marginalize", thunk,
                     lambda it, o: check_gauss(it, R, ctx, o.facts, what, o.value, K, (k2, h2, g2)), main=("V10",))


@obligation("V01", "V02", "V08", "V09", "V10", "V14", "V23")
def gaussian_reduce(it, R):
    for form in FORMS:
        for how in ("list", "column"):
            for cname, K, D in (("some", ["K"], ["D"]), ("two groups", ["K", "L"], ["D", "E"]), ("all", [], ["D"])):
                atoms = K + D
                ctx = ctxg(a=atoms)
                what = f"Gaussian.reduce ({cname}, {form}, values as {how})"
                P, h, g = gauss_can("a", atoms, form)
                y = obs_vec(D)
                k2 = sub2(P, K, K)
                h2 = num(sub2(h, K)) - num(mmul(sub2(P, K, D), y, D))
                hy = sub2(h, D)
                g2 = num(g) + num(mmul(tr(hy), y, D)) - num(mmul(tr(y), mmul(sub2(P, D, D), y, D), D)).scale(0.5)

                def thunk(it):
                    a, = operands(it, a=(atoms, form))
                    if how == "list":
                        vals = lst(it, scope(D, "ov", lambda g: T("val", g)), "values")
                    else:
                        vals = mark(Arr(Ten([vax(D, "ov"), One(UNIT)], y)), "values")
                    return meth(it, a, "reduce", lst(it, scope(D, "ov"), "vrs"), vals)
                grun(it, R, ctx, what, "Gaussian.reduce", thunk,
                     lambda it, o: check_gauss(it, R, ctx, o.facts, what, o.value, K, (k2, h2, g2)), main=("V10",))


def obs_vec(atoms):
    ents = []
    for a in atoms:
        g = G("V", a, ("b", fresh()))
        ents.append(("e", (g, 0), ((g, ()),), num(T("val", g))))
    return T("fam", ZERO, tuple(ents))


@obligation("V01", "V02", "V08", "V09", "V10", "V13", "V14", "V23")
def gaussian_unary(it, R):
    atoms = ["A", "C"]
    for form in FORMS + ("vac",):
        ctx = ctxg(a=atoms)
        P, h, g = gauss_can("a", atoms, form)
        what = f"Gaussian.copy ({form})"

        def thunk(it):
            a, = operands(it, a=(atoms, form))
            return meth(it, a, "copy")

        def ver(it, o):
            check_gauss(it, R, ctx, o.facts, what, o.value, atoms, (P, h, g), props=("V13",), order=scope(atoms, "oa"))
            if is_gauss(o.value):
                v = o.value.fields.get("_is_vacuous")
                fz = ctx.feasible(o.facts)
                want = form == "vac"
                if isinstance(v, bool) and fz is not False:
                    R.verdict("V13", what + ": vacuous flag", EQ if v == want else (NE if fz else UNK), f"{v} instead of {want}")
        grun(it, R, ctx, what, "Gaussian.copy", thunk, ver, main=("V13",))
        if form == "vac":
            continue
        what2 = f"Gaussian.normalize ({form})"
        C, m, w = can2cov(P, h, g, atoms)

        def thunk2(it):
            a, = operands(it, a=(atoms, form))
            return meth(it, a, "normalize")
        grun(it, R, ctx, what2, "Gaussian.normalize", thunk2,
             lambda it, o: check_gauss(it, R, ctx, o.facts, what2, o.value, atoms, cov2can(C, m, 0.0, atoms)), main=("V10",))


@obligation("V08", "V09", "V10", "V01", "V02", "V23")
def gaussian_forms(it, R):
    """conversions between the two forms and the accessors"""
    atoms = ["A", "C"]
    ps = scope(atoms, "oa")
    for form in FORMS:
        ctx = ctxg(a=atoms)
        P, h, g = gauss_can("a", atoms, form)
        C, m, w = can2cov(P, h, g, atoms)
        for acc, kind, want in (("get_prec", "m", P), ("get_h", "v", h), ("get_g", "s", g), ("get_cov", "m", C), ("get_mean", "v", m),
                                ("get_log_weight", "s", w), ("get_weight", "s", T("ew1", "exp", num(w)))):
            what = f"Gaussian.{acc} ({form})"

            def thunk(it):
                a, = operands(it, a=(atoms, form))
                return meth(it, a, acc)

            def ver(it, o):
                if kind == "s":
                    check_scalar(it, R, ctx, o.facts, ("V09",), what, o.value, want)
                else:
                    check_arr(it, R, ctx, o.facts, ("V09",), what, o.value, ps, ps if kind == "m" else None, want)
            grun(it, R, ctx, what, f"Gaussian.{acc}", thunk, ver, main=("V09",))


@obligation("V08", "V09", "V10", "V01", "V23")
def gaussian_potential(it, R):
    atoms = ["A", "C"]
    for form in FORMS:
        for how in ("list", "column"):
            for named in (True, False):
                for op in ("log_potential", "potential"):
                    if op == "potential" and named:
                        continue
                    ctx = ctxg(a=atoms)
                    P, h, g = gauss_can("a", atoms, form)
                    y = obs_vec(atoms)
                    want = num(g) + num(mmul(tr(h), y, atoms)) - num(mmul(tr(y), mmul(P, y, atoms), atoms)).scale(0.5)
                    if op == "potential":
                        want = T("ew1", "exp", want)
                    what = f"Gaussian.{op} ({form}, values as {how}{', variables named' if named else ''})"
                    order = "ov" if named else "oa"

                    def thunk(it):
                        a, = operands(it, a=(atoms, form))
                        vals = (lst(it, scope(atoms, order, lambda g: T("val", g)), "x_val") if how == "list" else
                                mark(Arr(Ten([vax(atoms, order), One(UNIT)], y)), "x_val"))
                        kw = {"vrs": lst(it, scope(atoms, order), "vrs")} if named else {}
                        return meth(it, a, op, vals, **kw)
                    grun(it, R, ctx, what, f"Gaussian.{op}", thunk,
                         lambda it, o: check_scalar(it, R, ctx, o.facts, ("V10",), what, o.value, want), main=("V10",))


@obligation("V12", "V01", "V08", "V23")
def gaussian_equals(it, R):
    atoms = ["A", "C"]
    rt, at_ = leaf("tol", "rtol"), leaf("tol", "atol")
    tol = {("tol", "rtol"): M.scal(0.01, 0.5), ("tol", "atol"): M.scal(0.01, 0.5)}
    for fa in FORMS:
        for fb in FORMS:
            ctx = Ctx({**gleaves(a=atoms, b=atoms), **tol}, n=120)
            for n in ("prec", "cov"):
                ctx.leaves[(n, "b")] = M.near((n, "a"), None)
            for n in ("h", "mean", "g", "lw"):
                ctx.leaves[(n, "b")] = M.near((n, "a"), None)
            what = f"Gaussian.equals ({fa}/{fb})"
            A, B = gauss_can("a", atoms, fa), gauss_can("b", atoms, fb)
            ac = lambda x, y: T("allclose", num(x), num(y), rt, at_)
            if fa in ("can", "both"):
                want = T("and", ac(A[2], B[2]), ac(A[1], B[1]), ac(A[0], B[0]))
            else:
                AC, BC = can2cov(*A, atoms), can2cov(*B, atoms)
                if fb != "can":
                    BC = cov_terms("b")
                if fa != "can":
                    AC = cov_terms("a")
                ex = lambda x: T("ew1", "exp", num(x))
                want = T("and", ac(ex(AC[2]), ex(BC[2])), ac(AC[1], BC[1]), ac(AC[0], BC[0]))
            # implementations may compare either form: a result is wrong when it is wrong for identical factors, or when it
            # accepts factors that differ by far more than the tolerances

            def thunk(it):
                a, b = operands(it, a=(atoms, fa), b=(atoms, fb))
                return meth(it, a, "equals", b, rtol=rt, atol=at_)
            grun(it, R, ctx, what, "Gaussian.equals", thunk, lambda it, o: eq_verdict(it, R, ctx, what, o, want), main=("V12",))
    for cname, ba in (("fewer variables", ["A"]), ("more variables", ["A", "C", "B"]), ("other variables", ["A", "B"])):
        ctx = Ctx({**gleaves(a=atoms, b=ba), **tol})
        what2 = f"Gaussian.equals ({cname})"

        def thunk2(it):
            a, b = operands(it, a=(atoms, "can"), b=(ba, "can"))
            return meth(it, a, "equals", b, rtol=rt, atol=at_)
        grun(it, R, ctx, what2, "Gaussian.equals", thunk2, lambda it, o: eq_verdict(it, R, ctx, what2, o, False), main=("V12",))


@obligation("V11", "V01", "V08", "V23")
def gaussian_kl(it, R):
    atoms = ["A", "C"]
    n = num(count_parts(scope(atoms, "oa")))
    for fa, fb in (("can", "can"), ("cov", "cov"), ("can", "cov"), ("both", "both")):
        for norm in (True, False):
            ctx = ctxg(a=atoms, b=atoms)
            Ca, ma, wa = can2cov(*gauss_can("a", atoms, fa), atoms)
            Cb, mb, wb = can2cov(*gauss_can("b", atoms, fb), atoms)
            Kb = T("inv", num(Cb))
            d = num(ma) - num(mb)
            lg = lambda c: T("ew1", "log", num(T("det", num(c), RS(atoms))))
            want = (num(lg(Cb)) - num(lg(Ca)) + num(T("trace", num(mmul(Kb, Ca, atoms)), RS(atoms))) +
                    num(mmul(tr(d), mmul(Kb, d, atoms), atoms)) - n).scale(0.5)
            what = f"Gaussian.kl_divergence ({fa}/{fb}, normalize_factor={norm})"

            def thunk(it):
                a, b = operands(it, a=(atoms, fa), b=(atoms, fb))
                return meth(it, a, "kl_divergence", b, normalize_factor=norm)

            def ver(it, o):
                v = scalar_of(it, o.value)
                if isinstance(v, (int, float)) and v == 0:
                    R.verdict("V11", what, SKIP)
                    return
                R.verdict("V11", what, *cmp_terms(ctx, v, T("ew1", "abs", num(want)), o.facts))
            grun(it, R, ctx, what, "Gaussian.kl_divergence", thunk, ver, main=("V11",), on_raise=lambda it, o: None)


def lin_spec(A, N, X, Y):
    """K, h, g of N(y; A x, N) over x (atoms X) and y (atoms Y)"""
    Ni = T("inv", num(N))
    NA = mmul(Ni, A, Y)
    ANA = mmul(tr(A), NA, Y)
    ents = []
    for i in X + Y:
        for j in X + Y:
            gi, gj = G("V", i, ("b", fresh())), G("V", j, ("b", fresh()))
            if i in X and j in X:
                x = at(ANA, gi, gj)
            elif i in X:
                x = -at(NA, gj, gi)
            elif j in X:
                x = -at(NA, gi, gj)
            else:
                x = at(Ni, gi, gj)
            ents.append(("e", (gi, gj), ((gi, ()), (gj, ())), x))
    return T("fam", ZERO, tuple(ents)), ZERO, num(logdet2pi(N, Y)).scale(-0.5)


def lin_operands(it, X, Y):
    mod = it.module("veroku.factors.gaussian")
    A = mark(Arr(Ten([vax(Y, "oy"), vax(X, "ox")], leaf("amat"))), "a_mat")
    N = mark(Arr(Ten([vax(Y, "oy"), vax(Y, "oy")], leaf("nmat", "n", "sym"))), "n_mat")
    return mod, A, N, lst(it, scope(X, "ox"), "conditioning_vars"), lst(it, scope(Y, "oy"), "conditional_vars")


@obligation("V28", "V01", "V02", "V08", "V23")
def linear_gaussian(it, R):
    X, Y = ["X"], ["Y"]
    ctx = Ctx({("amat",): M.mat(Y, X), ("nmat", "n"): M.spd(Y)})
    what = "make_linear_gaussian"
    can = lin_spec(leaf("amat"), leaf("nmat", "n", "sym"), X, Y)

    def thunk(it):
        it.ops = {}
        mod, A, N, xs, ys = lin_operands(it, X, Y)
        if "make_linear_gaussian" not in mod.env:
            raise Anchor("make_linear_gaussian")
        return it.call(mod.env["make_linear_gaussian"], [A, N, xs, ys], {})
    grun(it, R, ctx, what, what, thunk,
         lambda it, o: check_gauss(it, R, ctx, o.facts, what, o.value, X + Y, can, props=("V28",)), main=("V28",))


@obligation("V08", "V09", "V14", "V23")
def gaussian_reorder(it, R):
    """the internal reordering used by comparisons keeps every stored parameter with its variable"""
    atoms = ["A", "C"]
    for form in FORMS:
        ctx = ctxg(a=atoms)
        what = f"Gaussian._reorder_parameters ({form})"

        def thunk(it):
            a = gaussian(it, "a", atoms, form)
            try:
                f = it.getattr(a, "_reorder_parameters")
            except Exception:
                f = Top("gone")
            if isinstance(f, Top):
                return None
            it.call(f, [lst(it, scope(atoms, "ov"), "order")], {})
            return a

        def ver(it, o):
            if isinstance(o.value, Inst):
                check_gauss(it, R, ctx, o.facts, what, o.value, atoms, gauss_can("a", atoms, form), props=("V09",), order=scope(atoms, "ov"))
        run(it, R, ctx, what, thunk, ver, own=False)
