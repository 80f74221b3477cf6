"""Symbolic operands: abstract objects standing for every factor of a class.

Scopes are made of atoms: disjoint, arbitrarily large, non-empty groups of variables. Two operands share the
variables of their common atoms; each operand orders its variables arbitrarily (its own order symbol)."""
from .arrays import *
from . import interp


def gv(atom, dom="V", n=0):
    return G(dom, atom, n)


def scope(atoms, order, f=None):
    if not atoms:
        return []
    out = []
    for a in atoms:
        g = G("V", a, "s")
        out.append(GE(g, (), f(g) if f else g))
    return [Map(order, out)]


def lst(it, parts, ext=None, kind="list"):
    o = LObj(parts, kind)
    o.ext = ext
    return o


def dic(atoms, order, f, ext=None):
    d = DObj([DEnt(G("V", a, "s"), f(G("V", a, "s")), order, G("V", a, "s")) for a in atoms])
    d.ext = ext
    return d


def mark(v, ext, seen=None):
    """mark everything reachable from v as caller-owned (path ext)"""
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return v
    seen.add(id(v))
    if isinstance(v, HObj) and interp.CURRENT[0] is not None:
        (v.buf if isinstance(v, Arr) else v).ext_at = len(interp.CURRENT[0].journal)
    if isinstance(v, Inst):
        v.ext = ext
        for n, x in v.fields.items():
            mark(x, f"{ext}.{n}", seen)
    elif isinstance(v, (LObj, SObj)):
        v.ext = ext
        for p in v.parts:
            mark_part(p, ext, seen)
    elif isinstance(v, Tup):
        for p in v.parts:
            mark_part(p, ext, seen)
    elif isinstance(v, DObj):
        v.ext = ext
        for e in v.ents:
            mark(e.val, ext + "[]", seen)
    elif isinstance(v, Arr):
        v.buf.ext = ext
    elif hasattr(v, "abs_mark"):
        v.abs_mark(ext)
    return v


def mark_part(p, ext, seen):
    if isinstance(p, One):
        mark(p.v, ext + "[]", seen)
    elif isinstance(p, Map):
        for ge in p.ges:
            mark(ge.v, ext + "[]", seen)


def leaf(*a):
    return T("leaf", *a)


def categorical(it, name, atoms, order=None):
    cls = it.module("veroku.factors.categorical").env["Categorical"]
    order = order or "o" + name
    body = num(leaf("logp", name))
    o = Inst(cls)
    o.fields = {
        "_var_names": lst(it, scope(atoms, order)),
        "_dim": count_parts(scope(atoms, order)) if atoms else 0,
        "var_cards": dic(atoms, order, lambda g: T("card", g)),
        "cardinalities": lst(it, scope(atoms, order, lambda g: T("card", g))),
        "log_probs_tensor": Arr(Ten(scope(atoms, order), body)),
        "vars_assignments_names_dict": dic(atoms, order, lambda g: T("anames", g)),
    }
    return mark(o, name)


def vax(atoms, order):
    return One(VA(scope(atoms, order)))


def RS(atoms):
    return frozenset(("V", a, frozenset()) for a in atoms)


def mmul(x, y, atoms):
    return T("mm", num(x), num(y), RS(atoms))


def tr(x):
    return T("tr", num(x))


def can_terms(name):
    return leaf("prec", name, "sym"), leaf("h", name), T("scal", "g", name)


def cov_terms(name):
    return leaf("cov", name, "sym"), leaf("mean", name), T("scal", "lw", name)


def logdet2pi(c, atoms):
    import math
    return T("ew1", "log", num(T("det", num(c).scale(2.0 * math.pi), RS(atoms))))


def cov2can(c, m, w, atoms):
    k = T("inv", num(c))
    km = mmul(k, m, atoms)
    g = num(w) - num(mmul(tr(m), km, atoms)).scale(0.5) - num(logdet2pi(c, atoms)).scale(0.5)
    return k, km, g


def can2cov(k, h, g, atoms):
    c = T("inv", num(k))
    m = mmul(c, h, atoms)
    w = num(g) + num(mmul(tr(h), m, atoms)).scale(0.5) + num(logdet2pi(c, atoms)).scale(0.5)
    return c, m, w


def gaussian(it, name, atoms, form="can", order=None):
    """form: can | cov | both (two coherent forms) | vac"""
    cls = it.module("veroku.factors.gaussian").env["Gaussian"]
    order = order or "o" + name
    ax = lambda: vax(atoms, order)
    mat = lambda t: Arr(Ten([ax(), ax()], t))
    vec = lambda t: Arr(Ten([ax(), One(UNIT)], t))
    o = Inst(cls)
    f = {"_var_names": lst(it, scope(atoms, order)), "_dim": count_parts(scope(atoms, order)),
         "_is_vacuous": form == "vac", "cov": None, "mean": None, "log_weight": None, "prec": None, "h_vec": None,
         "g_val": None, "canform": False, "covform": False}
    if form == "vac":
        f.update(prec=mat(ZERO), h_vec=vec(ZERO), g_val=T("scal", "g", name), canform=True)
    elif form == "can":
        k, h, g = can_terms(name)
        f.update(prec=mat(k), h_vec=vec(h), g_val=g, canform=True)
    else:
        c, m, w = cov_terms(name)
        f.update(cov=mat(c), mean=vec(m), log_weight=w, covform=True)
        if form == "both":
            k, h, g = cov2can(c, m, w, atoms)
            f.update(prec=mat(k), h_vec=vec(h), g_val=g, canform=True)
    o.fields = f
    return mark(o, name)


def gauss_can(name, atoms, form):
    if form == "vac":
        return ZERO, ZERO, T("scal", "g", name)
    if form == "can":
        return can_terms(name)
    return cov2can(*cov_terms(name), atoms)
