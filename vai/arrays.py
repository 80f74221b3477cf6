"""Abstract numpy arrays: label-carrying axes and a term for the contents."""
from .terms import *
from .heap import *
from .interp import *
from .interp import _Ret, _Brk, _Cont
from .expr import *
from .calls import Calls, stdlib
from . import bset as B


class _Unit:
    def abs_key(self):
        return "unit"

    def __repr__(self):
        return "1"


UNIT = _Unit()


class VA:
    """axis whose index ranges over the positions of a (variable) sequence; labels are its elements.
    free: only the length is known (labels are a hint)"""

    def __init__(self, parts, free=False):
        self.parts, self.free = list(parts), free

    def abs_key(self):
        return ("va", label_key(self.parts), self.free)

    def abs_gens(self):
        return gens(Tup(self.parts))

    def abs_subst(self, m):
        return VA([subst_part(p, m) for p in self.parts], self.free)

    def __repr__(self):
        return f"axis{self.parts!r}" + ("?" if self.free else "")


class OA:
    """axis of opaque extent"""

    def __init__(self, key):
        self.key = key

    def abs_key(self):
        return ("oa", self.key)

    def __repr__(self):
        return f"oa({self.key})"


class Ten:
    def __init__(self, axes, body, meta=None):
        self.axes, self.body, self.meta = list(axes), body, meta or {}

    def abs_gens(self):
        return gens(Tup(self.axes)) | gens(self.body)

    def abs_subst(self, m):
        return Ten([subst_part(p, m) for p in self.axes], subst(self.body, m), self.meta)

    def abs_key(self):
        return ("ten", label_key(self.axes), keyof(self.body))

    def __repr__(self):
        return f"{self.body!r} over {self.axes!r}"

    def hole(self, hid):
        return Ten(self.axes, hid)

    def has_hole(self, hid):
        return _has(self.body, hid)

    def generic_store(self, it, op, part, g, gd):
        """summarise a store made for every element g of a loop"""
        if op[0] != "store":
            return Top("array op in a loop")
        _, base_axes, base_body, idx, val, binders = op
        b = G(g.args[0], g.args[1], ("b", fresh()))
        m = {g: b}
        idx2 = tuple(subst(i, m) for i in idx)
        val2 = subst(val, m)
        binders2 = tuple((bg, subst(bgd, m)) for bg, bgd in binders) + ((b, tuple(subst(gd, m))),)
        ent = store_entry(it, self, idx2, val2, binders2)
        if isinstance(ent, Bad):
            return ent
        if ent is None:
            free = set()
            for i in idx2:
                free |= gens(i)
            free -= {bg for bg, _ in binders2}
            op2 = ("store", base_axes, base_body, idx2, val2, binders2)
            return self, op2
        axes, e = ent
        body = self.body
        if isinstance(body, T) and body.op == "fam":
            body = T("fam", body.args[0], body.args[1] + (e,))
        else:
            body = T("fam", body, (e,))
        return Ten(axes, body), None


def _has(v, hid):
    if v is hid:
        return True
    if isinstance(v, T):
        return any(_has(a, hid) for a in v.args)
    if isinstance(v, N):
        return any(_has(x, hid) for (m, w) in v.t for x in [y for y, _ in m] + list(w))
    if isinstance(v, (tuple, frozenset)):
        return any(_has(a, hid) for a in v)
    return False


def parts_from_skel(sk):
    out = []
    for p in sk:
        if p[0] != "m":
            return None
        ges = []
        for dom, atom, guards, nested in sorted(p[2], key=repr):
            if nested is not None:
                return None
            g = G(dom, atom, ("b", fresh()))
            star = G(dom, atom, "*")
            ges.append(GE(g, tuple((subst(c, {star: g}), b) for c, b in guards), g))
        out.append(Map(p[1], ges))
    return out


def store_entry(it, ten, idx, val, binders):
    """(axes, entry) once every generic of the index is bound, None before"""
    bound = {bg for bg, _ in binders}
    need = set()
    for i in idx:
        need |= gens(i)
    if need - bound:
        return None
    axes = list(ten.axes)
    row = []
    for k, i in enumerate(idx):
        if k >= len(axes) or not isinstance(axes[k], One):
            return Bad("store with too many indices", it.loc())
        ax = axes[k].v
        if isinstance(i, T) and i.op == "pos":
            if ax is UNIT:
                return Bad("store past a single-element axis", it.loc())
            if not isinstance(ax, VA):
                return None
            sk, kk, g = it.pos_index(i)
            mine = it.skel(ax.parts)
            if ax.free:
                lab = parts_from_skel(sk)
                if lab is None:
                    return Bad("store", it.loc())
                n, m2 = count_parts(ax.parts), count_parts(lab)
                if n != m2:
                    return Bad(f"array of length {n} filled with {m2} values", it.loc())
                axes[k] = One(VA(lab, False))
            elif not (kk is not None and len(mine) > kk and mine[:kk + 1] == sk[:kk + 1]):
                return Bad(f"position in {it.sk_str(sk)} used to store in {it.sk_str(mine)}", it.loc())
            row.append(g)
        elif isinstance(i, int):
            if ax is UNIT:
                row.append(0)
            else:
                return None
        else:
            return None
    ent = ("e", tuple(row), tuple((bg, tuple(gd)) for bg, gd in binders), val)
    return axes, ent


class NumpyEval(Calls):
    """array operations of the interpreter"""

    # ------------------------------------------------------------ helpers
    def uncertain_counts(self):
        for c in self.memo:
            if isinstance(c, T) and c.op == "cmp" and any(x.op == "count" for (m, w) in c.args[1].t for x, _ in m):
                return True
        return False

    def mis(self, why):
        if self.uncertain_counts():
            return self.top("maybe " + why)
        return self.bad(why)

    def lk(self, parts):
        return label_key(parts, self.order_alias)

    def is_num(self, v):
        return num(v) is not None and not isinstance(v, (str,))

    def ten(self, v):
        """array-like -> Ten (or Top)"""
        if isinstance(v, Arr):
            x = self.aval(v)
            return x
        if isinstance(v, Top):
            return v
        n = num(v) if not isinstance(v, str) else None
        if n is not None:
            return Ten([], v if isinstance(v, (T, N)) else num(v))
        if isinstance(v, (LObj, Tup)):
            return self.from_list(v)
        f = getattr(v, "abs_arr", None)
        if f is not None:
            return f(self)
        return Top("array-like")

    def from_list(self, v):
        parts = self.seq_parts(v)
        if parts is None:
            return Top("array of unknown list")
        if all(isinstance(p, One) for p in parts):
            vals = [p.v for p in parts]
            if any(isinstance(x, Top) for x in vals):
                return next((x for x in vals if isinstance(x, Bad)), Top("array of unknown"))
            ts = [self.ten(x) for x in vals]
            if any(isinstance(t, Top) for t in ts):
                return next((x for x in ts if isinstance(x, Bad)), Top("array of unknown"))
            if len(ts) == 1:
                return Ten([One(UNIT)] + ts[0].axes, ts[0].body)
            if ts and all(not t.axes for t in ts):
                return Ten([One(OA(("list", len(ts), fresh())))], T("list", *[num(t.body) for t in ts]))
            if not ts:
                return Ten([One(OA(("list", 0)))], T("list"))
            return Top("array of a list of arrays")
        # a family of scalars: a vector labelled by the family
        ents = []
        labs = []
        for p in parts:
            if not isinstance(p, Map):
                return Top("array of mixed list")
            lg = []
            for ge in p.ges:
                x = num(ge.v) if not isinstance(ge.v, (str, Flat, Tup)) and not isinstance(ge.v, HObj) else None
                if x is None:
                    if isinstance(ge.v, Bad):
                        return ge.v
                    return Top("array of a family")
                ents.append(("e", (ge.g,), ((ge.g, tuple(ge.guards)),), x))
                lg.append(GE(ge.g, ge.guards, ge.g))
            labs.append(Map(p.order, lg))
        return Ten([One(VA(labs))], T("fam", ZERO, tuple(ents)))

    def rank(self, t):
        if all(isinstance(a, One) for a in t.axes):
            return len(t.axes)
        return None

    def shape(self, t):
        out = []
        for a in t.axes:
            if isinstance(a, One):
                out.append(One(self.axis_len(a.v)))
            else:
                out.append(Map(a.order, [GE(ge.g, ge.guards, 1 if ge.v is UNIT else T("card", ge.v)) for ge in a.ges]))
        return Tup(out)

    def axis_len(self, ax):
        if ax is UNIT:
            return 1
        if isinstance(ax, VA):
            return self.length(Tup(ax.parts))
        if isinstance(ax, OA):
            if isinstance(ax.key, tuple) and ax.key and ax.key[0] == "list":
                return ax.key[1]
            return T("len", ("oa", ax.key))
        return T("card", ax)

    def same_axis(self, a, b):
        """merged axis descriptor, or a reason string"""
        if a is UNIT:
            return b
        if b is UNIT:
            return a
        if isinstance(a, VA) and isinstance(b, VA):
            if self.lk(a.parts) == self.lk(b.parts):
                return a if not a.free else b
            if a.free or b.free:
                n, m = count_parts(a.parts), count_parts(b.parts)
                if n is not None and n == m:
                    return b if a.free else a
                if n is None or m is None:
                    return None
            return f"axis over {self.describe(a.parts)} combined with axis over {self.describe(b.parts)}"
        if isinstance(a, OA) or isinstance(b, OA):
            if isinstance(a, OA) and isinstance(b, OA) and a.key == b.key:
                return a
            return None
        if isinstance(a, (T, str)) and isinstance(b, (T, str)):
            if a == b and type(a) is type(b):
                return a
            return f"axis of {a!r} combined with axis of {b!r}"
        return None

    def broadcast(self, p, q):
        """axes of the elementwise combination (aligned from the right); None unknown; str = misaligned"""
        p, q = list(p), list(q)
        out = []
        while p and q:
            a, b = p.pop(), q.pop()
            if isinstance(a, One) and isinstance(b, One):
                r = self.same_axis(a.v, b.v)
                if r is None or isinstance(r, str):
                    return r
                out.append(One(r))
            elif isinstance(a, Map) and isinstance(b, Map):
                if self.skel([a]) == self.skel([b]):
                    ges = []
                    for ge in a.ges:
                        o = [x for x in b.ges if x.g.args[:2] == ge.g.args[:2] and
                             canon_guards(x.guards, x.g) == canon_guards(ge.guards, ge.g)]
                        if not o:
                            return None
                        bv = subst(o[0].v, {o[0].g: ge.g}) if o[0].v is not UNIT else UNIT
                        r = self.same_axis(ge.v, bv)
                        if r is None or isinstance(r, str):
                            return r
                        ges.append(GE(ge.g, ge.guards, r))
                    out.append(Map(a.order, ges))
                else:
                    au = all(ge.v is UNIT for ge in a.ges)
                    bu = all(ge.v is UNIT for ge in b.ges)
                    if au or bu:
                        return f"axes shifted: {self.describe([a])} against {self.describe([b])}"
                    return f"axes {self.describe([a])} combined with axes {self.describe([b])}"
            else:
                one = a if isinstance(a, One) else b
                if one.v is UNIT:
                    return None
                return f"axes {self.describe([a])} combined with axes {self.describe([b])}"
        rest = p or q
        return rest + out[::-1]

    def ew_body(self, op, x, y):
        x, y = num(x), num(y)
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            return x * y.inverse()
        if op == "**" and y.is_const() and y.cval().denominator == 1 and 0 <= y.cval() <= 3:
            r = ONE
            for _ in range(int(y.cval())):
                r = r * x
            return r
        return N.atom(T("ew", op, x, y))

    def simp(self, n):
        u = unnum(n) if isinstance(n, N) else n
        return u if isinstance(u, T) else num(u)

    def arr_binop(self, op, a, b):
        if isinstance(a, Bad):
            return a
        if isinstance(b, Bad):
            return b
        x, y = self.ten(a), self.ten(b)
        for t in (x, y):
            if isinstance(t, Bad):
                return t
        if isinstance(x, Top) or isinstance(y, Top):
            return Top("array operand")
        if op == "@":
            return self.matmul(x, y)
        rx, ry = self.rank(x), self.rank(y)
        # one-dimensional vector against a matrix aligns with the last axis
        if rx == 1 and ry == 2:
            x = Ten(x.axes, self.tr_body(x.body))
        elif ry == 1 and rx == 2:
            y = Ten(y.axes, self.tr_body(y.body))
        axes = self.broadcast(x.axes, y.axes)
        if axes is None:
            return self.top("broadcast")
        if isinstance(axes, str):
            return self.mis("elementwise " + op + ": " + axes)
        if op in ("==", "!=", "<", "<=", ">", ">=", "&", "|"):
            return Arr(Ten(axes, T("ew", op, num(x.body), num(y.body))))
        return Arr(Ten(axes, self.simp(self.ew_body(op, x.body, y.body))))

    def tr_body(self, b):
        if isinstance(b, N):
            if b.is_const():
                return b
            if b.is_mono():
                pass
            return N({(tuple(sorted(((self.tr_atom(x), p) for x, p in m), key=lambda q: q[0].uid)), w): c for (m, w), c in b.t.items()})
        return self.tr_atom(b)

    def tr_atom(self, x):
        if x.op == "tr":
            return x.args[0]
        if x.op == "leaf" and len(x.args) > 2 and x.args[2] == "sym":
            return x
        if scalar_atom(x):
            return x
        if x.op == "inv" and self.tr_atom_sym(x.args[0]):
            return x
        return T("tr", x)

    def tr_atom_sym(self, x):
        return isinstance(x, T) and (x.op == "leaf" and len(x.args) > 2 and x.args[2] == "sym" or
                                     x.op == "inv" and self.tr_atom_sym(x.args[0]) or x.op == "eye")

    def matmul(self, x, y):
        rx, ry = self.rank(x), self.rank(y)
        if rx is None or ry is None:
            return self.top("matmul of tensors")
        if rx == 0 or ry == 0:
            self.throw("ValueError", "matmul of scalars")
        if rx > 2 or ry > 2:
            return self.top("matmul of rank > 2")
        ca = x.axes[-1].v
        rb = y.axes[0].v
        if (ca is UNIT) != (rb is UNIT) and not (isinstance(ca, OA) or isinstance(rb, OA)):
            return self.mis(f"matrix product of inner axes {ca!r} and {rb!r}")
        r = self.same_axis(ca, rb)
        if r is None:
            return self.top("matmul inner axis")
        if isinstance(r, str):
            return self.mis("matrix product: " + r)
        xb, yb = x.body, y.body
        if rx == 1:
            xb = self.tr_body(xb)
        rows = x.axes[:-1] if rx == 2 else []
        cols = y.axes[1:] if ry == 2 else []
        if ca is UNIT and rb is UNIT:
            # outer product / scalar
            return Arr(Ten(rows + cols, self.simp(num(xb) * num(yb))))
        if num(xb) == ZERO or num(yb) == ZERO:
            return Arr(Ten(rows + cols, ZERO))
        body = T("mm", num(xb), num(yb), self.rowset(r))
        out = Arr(Ten(rows + cols, body))
        if rx == 1 and ry == 1:
            return body
        return out

    def rowset(self, ax):
        if isinstance(ax, VA):
            out = []
            for p in ax.parts:
                if isinstance(p, Map):
                    for ge in p.ges:
                        out.append((ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g)))
                elif isinstance(p, One) and is_g(p.v):
                    out.append(("one", p.v))
                else:
                    out.append(("one", keyof(p.v)))
            return frozenset(out)
        return ("ax", keyof(ax))

    def arr_unary(self, f, a):
        t = self.ten(a)
        if isinstance(t, Top):
            return t
        if not t.axes:
            r = self.scalar_fn(f, t.body)
            return r
        body = num(t.body)
        if f == "log" and len(body.t) == 1:
            (m, w), c = next(iter(body.t.items()))
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ew1" and m[0][0].args[0] == "exp":
                return Arr(Ten(t.axes, self.simp(m[0][0].args[1])))
        if f == "exp" and len(body.t) == 1:
            (m, w), c = next(iter(body.t.items()))
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ew1" and m[0][0].args[0] == "log":
                return Arr(Ten(t.axes, self.simp(m[0][0].args[1])))
        return Arr(Ten(t.axes, T("ew1", f, body)))

    def scalar_fn(self, f, v):
        n = num(v)
        if n is None:
            return Top(f)
        if n.is_const() and f in ("log", "exp", "sqrt"):
            import math
            c = float(n.cval())
            if f == "log" and c == 1:
                return 0.0
            if f == "exp" and c == 0:
                return 1.0
            if f == "log" and c == 0:
                return float("-inf")
            if f == "sqrt" and c in (0.0, 1.0):
                return c
        return T("ew1", f, n)

    def arr_truth(self, a):
        t = self.ten(a)
        if isinstance(t, Top):
            return self.decide(T("unknown", self.loc(), len(self.stack)))
        if all(isinstance(x, One) and x.v is UNIT for x in t.axes):
            return self.decide(T("truth", num(t.body)))
        self.throw("ValueError", "truth value of an array")

    def arr_anyall(self, a, want):
        t = self.ten(a)
        if isinstance(t, Top):
            return t
        return T("truth", T("any" if want else "notall", num(t.body), label_key(t.axes)))

    def arr_len(self, a):
        t = self.ten(a)
        if isinstance(t, Top):
            return t
        if not t.axes:
            self.throw("TypeError", "len of unsized object")
        return self.axis_len(t.axes[0].v) if isinstance(t.axes[0], One) else Top("len of tensor")

    def arr_parts(self, a):
        """parts for iteration over the first axis"""
        t = self.ten(a)
        if isinstance(t, Top) or not t.axes or not isinstance(t.axes[0], One):
            return None
        ax, rest = t.axes[0].v, t.axes[1:]
        if ax is UNIT:
            return [One(self.mk(Ten(rest, t.body), a))]
        if isinstance(ax, VA):
            out = []
            for p in ax.parts:
                if isinstance(p, One):
                    out.append(One(self.mk(Ten(rest, self.at(t, [p.v])))))
                else:
                    out.append(Map(p.order, [GE(ge.g, ge.guards, self.mk(Ten(rest, self.at(t, [ge.v])))) for ge in p.ges]))
            return out
        return None

    def mk(self, t, base=None):
        if not t.axes:
            return self.scal(t.body)
        return Arr(t, base.buf if base is not None else None)

    def scal(self, b):
        return unnum(b) if isinstance(b, N) else b

    def at(self, t, labs):
        """body of t with its first axes fixed at labels"""
        b = num(t.body)
        if b.is_const():
            return b
        r = self.rank(t)
        row = labs[0] if labs else None
        col = labs[1] if len(labs) > 1 else None
        def f(x):
            if scalar_atom(x):
                return x
            return T("at", x, row, col)
        return self.simp(N({(tuple(sorted(((f(x), p) for x, p in m), key=lambda q: q[0].uid)), w): c for (m, w), c in b.t.items()}))

    # ------------------------------------------------------------ attributes and methods
    def arr_getattr(self, o, name):
        t = self.ten(o)
        if name == "shape":
            return t if isinstance(t, Bad) else Top("shape") if isinstance(t, Top) else self.shape(t)
        if name == "ndim":
            if isinstance(t, Top):
                return Top("ndim")
            r = self.rank(t)
            return r if r is not None else self.length(Tup(t.axes))
        if name == "T":
            return self.transpose(o, None)
        if name == "size":
            return self.np_product(self.shape(t)) if not isinstance(t, Top) else Top("size")
        if name in ("real",):
            return o
        if name == "dtype":
            return Top("dtype")
        if name == "flat":
            return Top("flat")
        return BM(o, name)

    def np_product(self, v):
        ps = self.seq_parts(v)
        if ps is None:
            return Top("product")
        acc = 1
        for p in ps:
            if isinstance(p, One):
                acc = self.binop("*", acc, p.v)
            else:
                for ge in p.ges:
                    x = num(ge.v) if not isinstance(ge.v, Top) else None
                    if x is None:
                        return Top("product")
                    if x == ONE:
                        continue
                    star = G(ge.g.args[0], ge.g.args[1], ("b", "s"))
                    acc = self.binop("*", acc, T("prod", ge.g.args[0], ge.g.args[1], frozenset(subst(ge.guards, {ge.g: star})),
                                                 subst(x, {ge.g: star})))
        return acc

    def transpose(self, o, order):
        t = self.ten(o)
        if isinstance(t, Top):
            return t
        r = self.rank(t)
        if order is None:
            if r == 2:
                return Arr(Ten(t.axes[::-1], self.tr_body(t.body)), o.buf)
            if r in (0, 1):
                return o
            ps = self.slice_parts(t.axes, SliceV(None, None, -1))
            return Arr(Ten(ps, t.body), o.buf) if ps is not None else Top("transpose")
        ps = self.seq_parts(order)
        if ps is None:
            return self.top("transpose order")
        if r is not None and all(isinstance(p, One) and isinstance(p.v, int) for p in ps):
            idx = [p.v for p in ps]
            if sorted(x % r for x in idx) != list(range(r)):
                self.throw("ValueError", "transpose axes")
            if r == 2:
                return o if [x % 2 for x in idx] == [0, 1] else self.transpose(o, None)
            if all(not isinstance(a.v, VA) for a in t.axes):
                return Arr(Ten([t.axes[i] for i in idx], t.body), o.buf)
            return self.top("transpose of rank > 2")
        axes = self.pick_axes(t, ps)
        if isinstance(axes, Top):
            return axes
        # every axis used once?
        have, want = self.axis_set(axes), self.axis_set(t.axes)
        if have != want:
            return self.mis(f"transpose uses axes {sorted(map(str, have))} of {sorted(map(str, want))}")
        return Arr(Ten(axes, t.body), o.buf)

    def axis_set(self, axes):
        out = []
        for p in axes:
            if isinstance(p, One):
                out.append(("one", keyof(p.v)))
            else:
                for ge in p.ges:
                    out.append((ge.g.args[1], canon_guards(ge.guards, ge.g)))
        s = frozenset(out)
        return s if len(s) == len(out) else frozenset(out) | {("dup", len(out))}

    def pick_axes(self, t, ps):
        """axes selected by a list of positions"""
        out = []
        for p in ps:
            if isinstance(p, One):
                e = self.axis_at(t, p.v)
                if isinstance(e, Top):
                    return e
                out.append(One(e))
            else:
                ges = []
                for ge in p.ges:
                    e = self.axis_at(t, ge.v)
                    if isinstance(e, Top):
                        return e
                    ges.append(GE(ge.g, ge.guards, e))
                out.append(Map(p.order, ges))
        return out

    def axis_at(self, t, i):
        if isinstance(i, Top):
            return i if i.bad else Top("axis")
        if isinstance(i, int):
            e = self.int_index(t.axes, i)
            return e
        e = self.elem_at(t.axes, i)
        if e is None:
            return Top("axis position")
        return e

    def arr_method(self, o, name, args, kw):
        t = self.ten(o)
        if isinstance(t, Bad):
            return t
        if name in ("copy", "__copy__", "__deepcopy__"):
            return Arr(t)
        if isinstance(t, Top):
            return Top("method of unknown array")
        if name == "astype":
            return Arr(t)
        if name == "transpose":
            if not args:
                return self.transpose(o, None)
            if len(args) == 1:
                if isinstance(args[0], Bad):
                    return args[0]
                return self.transpose(o, args[0] if not isinstance(args[0], int) else Tup([One(args[0])]))
            out = []
            for x in args:
                if isinstance(x, StarArg):
                    out += x.parts if x.parts is not None else [HolePart("x")]
                else:
                    out.append(One(x))
            return self.transpose(o, Tup(out))
        if name in ("min", "max", "item", "mean", "sum", "prod") and not args and not kw and self.all_unit(t):
            return self.scal(t.body)
        if name in ("ravel", "flatten", "squeeze", "reshape", "sum", "mean", "max", "min", "dot", "trace", "argmax",
                    "argmin", "any", "all", "swapaxes", "diagonal", "prod", "repeat", "clip", "take"):
            return self.call_ext(Ext("numpy." + name), [o] + list(args), kw)
        if name == "tolist":
            ps = self.arr_parts(o)
            return LObj(ps) if ps is not None else Top("tolist")
        if name == "fill":
            v = num(args[0]) if not isinstance(args[0], Top) else None
            self.setarr(o, Ten(t.axes, v) if v is not None else Top("fill"), None)
            return None
        if name in ("sort", "resize", "put", "partition", "itemset", "setfield"):
            self.setarr(o, Top(f"array {name}"), None)
            return None
        return self.top(f"array method {name}")

    def all_unit(self, t):
        return all(isinstance(a, One) and a.v is UNIT for a in t.axes)

    # ------------------------------------------------------------ indexing
    def index_list(self, idx):
        if isinstance(idx, Tup):
            return list(idx.parts)
        return [One(idx)]

    def arr_getitem(self, o, idx):
        t = self.ten(o)
        if isinstance(t, Bad):
            return t
        if isinstance(t, Top):
            return Top("item of unknown array")
        if isinstance(idx, Bad):
            return idx
        if isinstance(idx, Top):
            return Top("array index")
        if isinstance(idx, IxV):
            return self.sub(o, t, [("list", l) for l in idx.lists], copy=True)
        if isinstance(idx, LObj):
            return self.sub(o, t, [("list", idx)], copy=True)
        if isinstance(idx, Arr):
            return self.top("array indexed by an array")
        if isinstance(idx, RangeV):
            return self.sub(o, t, [("list", idx)], copy=True)
        il = self.index_list(idx)
        if any(not isinstance(p, One) for p in il) or any(not isinstance(a, One) for a in t.axes):
            return self.state_index(o, t, il)
        if all(isinstance(p.v, SliceV) or isinstance(p.v, (int, LObj, Tup, RangeV)) or isinstance(p.v, T) and p.v.op in ("pos", "posone")
               or p.v is None or p.v is Ellipsis for p in il):
            if any(isinstance(x.v, T) and not isinstance(x.v, VA) and is_g(x.v) for x in t.axes):
                return self.state_index(o, t, il)
            return self.vec_index(o, t, [p.v for p in il])
        if all(isinstance(a.v, (T, str)) or a.v is UNIT for a in t.axes):
            return self.state_index(o, t, il)
        if any(isinstance(p.v, Bad) for p in il):
            return next(p.v for p in il if isinstance(p.v, Bad))
        return self.top("array index")

    def state_index(self, o, t, il):
        """tensor[tuple(value or slice per variable axis)]"""
        il = [p for p in il]
        out, sels = [], []
        if self.skel(il) != self.skel(t.axes):
            if any(p[0] == "?" for p in self.skel(il)):
                return Top("index")
            if all(isinstance(p, One) and isinstance(p.v, SliceV) and p.v.lo is None and p.v.hi is None for p in il):
                return Arr(t, o.buf)
            return self.mis(f"index tuple over {self.describe(il)} applied to axes {self.describe(t.axes)}")
        anyslice = False
        for p, a in zip(il, t.axes):
            if isinstance(p, One):
                r = self.state_one(p.v, a.v, sels)
                if isinstance(r, Top):
                    return r
                if r is not None:
                    out.append(One(r))
            else:
                ges = []
                for ge in p.ges:
                    x = [y for y in a.ges if y.g.args[:2] == ge.g.args[:2] and canon_guards(y.guards, y.g) == canon_guards(ge.guards, ge.g)][0]
                    lab = UNIT if x.v is UNIT else subst(x.v, {x.g: ge.g})
                    fs = []
                    r = self.state_one(ge.v, lab, fs)
                    if isinstance(r, Top):
                        return r
                    for (l, v) in fs:
                        star = G(ge.g.args[0], ge.g.args[1], "*")
                        sels.append((ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g), subst(l, {ge.g: star}), subst(v, {ge.g: star})))
                    if r is not None:
                        ges.append(GE(ge.g, ge.guards, r))
                if ges:
                    out.append(Map(p.order, ges))
        body = self.map_body(t.body, lambda x: T("sel", x, frozenset(sels))) if sels else t.body
        if not out:
            return self.scal(body)
        return Arr(Ten(out, body), o.buf)

    def state_one(self, v, lab, sels):
        if isinstance(v, Top):
            return v if v.bad else Top("index value")
        if isinstance(v, SliceV):
            if v.lo is None and v.hi is None and v.step is None:
                return lab
            return Top("partial slice")
        if lab is UNIT:
            return None
        k = num(v) if not isinstance(v, (LObj, Tup, str)) and v is not None else None
        if k is None:
            return Top("index value")
        sels.append((lab, k))
        return None

    def map_body(self, b, f):
        b = num(b)
        if b.is_const():
            return b
        def h(x):
            if x.op == "prod" or scalar_atom(x):
                return x
            return f(x)
        return self.simp(N({(tuple(sorted(((h(x), p) for x, p in m), key=lambda q: q[0].uid)), w): c for (m, w), c in b.t.items()}))

    def vec_index(self, o, t, idx):
        if Ellipsis in [i for i in idx if not isinstance(i, (T, Top, LObj, Tup))]:
            return self.top("ellipsis")
        if None in [i for i in idx if i is None]:
            if idx in ([SliceV, None],) or len(t.axes) == 1 and len(idx) == 2:
                if idx[0] is None:
                    return Arr(Ten([One(UNIT)] + t.axes, self.tr_body(t.body)), o.buf)
                return Arr(Ten(t.axes + [One(UNIT)], t.body), o.buf)
            return self.top("newaxis")
        if len(idx) > len(t.axes):
            self.throw("IndexError", "too many indices")
        spec = []
        for i in idx:
            if isinstance(i, SliceV):
                spec.append(("slice", i))
            elif isinstance(i, (LObj, RangeV)):
                spec.append(("list", i))
            elif isinstance(i, Tup):
                spec.append(("list", i))
            else:
                spec.append(("int", i))
        nl = sum(1 for k, _ in spec if k == "list")
        if nl > 1:
            return self.top("paired fancy indexing")
        return self.sub(o, t, spec, copy=nl > 0)

    def sub(self, o, t, spec, copy=False):
        """restriction / permutation of explicit axes"""
        axes = list(t.axes)
        out = []
        fixed = [None] * len(axes)
        sets = [None] * len(axes)
        changed = False
        for k, a in enumerate(axes):
            ax = a.v
            kind, s = spec[k] if k < len(spec) else ("slice", SliceV(None, None, None))
            if kind == "int":
                if isinstance(s, Bad):
                    return s
                if ax is UNIT:
                    if isinstance(s, int) and s not in (0, -1):
                        self.throw("IndexError", "index out of bounds")
                    if not isinstance(s, int):
                        return self.mis("position of a variable used on a single-element axis")
                    fixed[k] = "u"
                    continue
                if isinstance(ax, VA):
                    if isinstance(s, int):
                        lab = self.int_index(ax.parts, s)
                        if ax.free:
                            return Top("int index of free axis") if num(t.body).is_const() is False else self.mk(Ten([x for j, x in enumerate(axes) if j != k], t.body))
                    elif ax.free:
                        sk, kk, g = self.pos_index(s)
                        lab = g
                        fixed[k] = ("lab", lab)
                        continue
                    else:
                        lab = self.elem_at(ax.parts, s)
                        if lab is None:
                            return Top("array index")
                    if isinstance(lab, Bad):
                        return lab
                    if isinstance(lab, Top):
                        return Top("array index")
                    fixed[k] = ("lab", lab)
                    continue
                if isinstance(ax, OA) and isinstance(s, int):
                    fixed[k] = ("lab", ("i", s))
                    continue
                return Top("int index of " + repr(ax))
            if kind == "slice":
                if s.lo is None and s.hi is None and s.step is None:
                    out.append(a)
                    continue
                if isinstance(ax, VA):
                    ps = self.slice_parts(ax.parts, s)
                    if ps is None:
                        return self.top("slice of an axis")
                    nv = VA(ps, ax.free)
                    out.append(One(nv))
                    sets[k] = self.rowset(nv)
                    changed = True
                    continue
                if ax is UNIT:
                    if s.lo in (None, 0) and (s.hi is None or isinstance(s.hi, int) and s.hi >= 1):
                        out.append(a)
                        continue
                return self.top("slice of an axis")
            # list of positions
            if ax is UNIT:
                ps = self.seq_parts(s)
                if ps is not None and len(ps) == 1 and isinstance(ps[0], One) and ps[0].v in (0, -1):
                    out.append(a)
                    continue
                if ps is not None and any(isinstance(p, Map) for p in ps):
                    return self.mis("positions of variables used on a single-element axis")
                return self.top("list index of unit axis")
            if not isinstance(ax, VA):
                return self.top("list index of an opaque axis")
            ps = self.seq_parts(s)
            if ps is None:
                return Top("array index")
            labs = []
            for p in ps:
                if isinstance(p, One):
                    e = self.elem_at(ax.parts, p.v) if not isinstance(p.v, int) else self.int_index(ax.parts, p.v)
                    if e is None or isinstance(e, Top):
                        return e if isinstance(e, Bad) else Top("array index")
                    labs.append(One(e))
                else:
                    ges = []
                    for ge in p.ges:
                        if isinstance(ge.v, Top):
                            return ge.v if ge.v.bad else Top("array index")
                        if ax.free:
                            e = ge.v.args[1] if isinstance(ge.v, T) and ge.v.op == "pos" else None
                        else:
                            e = self.elem_at(ax.parts, ge.v)
                        if e is None or isinstance(e, Top):
                            return e if isinstance(e, Bad) else Top("array index")
                        ges.append(GE(ge.g, ge.guards, e))
                    labs.append(Map(p.order, ges))
            nv = VA(labs)
            out.append(One(nv))
            if self.rowset(nv) != self.rowset(ax):
                sets[k] = self.rowset(nv)
            changed = True
        body = t.body
        if any(f is not None and f != "u" for f in fixed):
            labs = [f[1] if isinstance(f, tuple) else None for f in fixed]
            ra = labs[0] if labs else None
            rb = labs[1] if len(labs) > 1 else None
            b = num(body)
            if not b.is_const():
                if len(t.axes) == 2 and t.axes[0].v is UNIT:
                    pass
                body = self.map_body(body, lambda x: T("at", x, _lab(ra), _lab(rb)))
                if len(out) == 1 and fixed[0] is not None and isinstance(fixed[0], tuple) and fixed[1] is None:
                    body = self.tr_body(body) if not num(body).is_const() else body
        if any(s is not None for s in sets):
            s0 = sets[0]
            s1 = sets[1] if len(sets) > 1 else None
            body = self.map_body(body, lambda x: T("sub", x, s0, s1))
        if fixed and fixed[0] == "u" and len(fixed) == 2 and fixed[1] is None and isinstance(t.axes[1].v, (VA, OA)):
            body = self.tr_body(body) if not num(body).is_const() else body
        r = Ten(out, body)
        if not out:
            return self.scal(body)
        return Arr(r, None if copy else o.buf)

    def arr_setitem(self, o, idx, v):
        t = self.ten(o)
        if isinstance(t, Bad):
            return
        if isinstance(t, Top) or isinstance(idx, Top):
            self.setarr(o, idx if isinstance(idx, Bad) else Top("store into unknown array"), None)
            return
        if isinstance(v, Bad):
            self.setarr(o, v, None)
            return
        if isinstance(v, Top):
            self.setarr(o, Top("store of unknown"), None)
            return
        il = self.index_list(idx)
        if isinstance(idx, IxV):
            il = [One(x) for x in idx.lists]
        vals = [p.v for p in il] if all(isinstance(p, One) for p in il) else None
        if vals is not None and self.rank(t) is not None and len(vals) <= len(t.axes):
            vt = self.ten(v)
            if isinstance(vt, Top):
                self.setarr(o, vt, None)
                return
            # full overwrite m[:] = v
            if all(isinstance(x, SliceV) and x.lo is None and x.hi is None for x in vals):
                ax = self.broadcast(t.axes, vt.axes)
                if isinstance(ax, list):
                    self.setarr(o, Ten(ax, vt.body), None)
                    return
            if all(isinstance(x, T) and x.op in ("pos",) or isinstance(x, int) and not isinstance(x, bool) for x in vals) and \
                    self.all_unit(vt) and len(vals) == len(t.axes) and any(isinstance(x, T) for x in vals):
                val = num(vt.body)
                op = ("store", t.axes, t.body, tuple(vals), val, ())
                self.log("arr", o, op, o.val, None)
                new = Ten(t.axes, T("stored", num(t.body), tuple(vals), val))
                o.val = new
                return
            if all(isinstance(x, SliceV) or isinstance(x, (LObj, RangeV)) for x in vals):
                region = self.sub(o, t, [("slice", x) if isinstance(x, SliceV) else ("list", x) for x in vals])
                if isinstance(region, Arr):
                    rt = region.val
                    ax = self.broadcast(rt.axes, vt.axes)
                    if isinstance(ax, str):
                        self.setarr(o, self.mis("store into a block: " + ax), None)
                        return
                    if isinstance(ax, list):
                        sets = [self.rowset(a.v) if isinstance(a.v, VA) else None for a in rt.axes]
                        self.setarr(o, Ten(t.axes, T("put", num(t.body), sets[0], sets[1] if len(sets) > 1 else None, num(vt.body))), None)
                        return
                if isinstance(region, Bad):
                    self.setarr(o, region, None)
                    return
        self.note("array store")
        self.setarr(o, self.tensor_store(t, idx, v), None)

    def tensor_store(self, t, idx, v):
        return Top("array store")


def _lab(x):
    return x


class IxV:
    def __init__(self, lists):
        self.lists = lists


# ---------------------------------------------------------------------------------------- numpy

def numpylib(it):
    L = it.lib
    C = it.consts = dict(it.consts)
    C["numpy.inf"] = float("inf")
    C["numpy.Inf"] = float("inf")
    C["math.inf"] = float("inf")
    C["numpy.pi"] = T("scal", "pi")
    C["math.pi"] = T("scal", "pi")
    C["numpy.newaxis"] = None
    C["numpy.nan"] = T("scal", "nan")

    def reg(*names):
        def d(f):
            def g(it, a, k):
                for v in list(a) + list(k.values()):
                    if isinstance(v, Bad):
                        return v
                    if isinstance(v, (LObj, Tup)) and any(isinstance(p, One) and isinstance(p.v, Bad) for p in v.parts):
                        return next(p.v for p in v.parts if isinstance(p, One) and isinstance(p.v, Bad))
                    if isinstance(v, (LObj, Tup)) and any(isinstance(p, Map) and any(isinstance(ge.v, Bad) for ge in p.ges) for p in v.parts):
                        return next(ge.v for p in v.parts if isinstance(p, Map) for ge in p.ges if isinstance(ge.v, Bad))
                try:
                    return f(it, a, k)
                except (IndexError, KeyError):
                    return it.top(f"arguments of {names[0]}")
            for n in names:
                L[n] = g
            return f
        return d

    def axes_of_shape(it, s):
        if isinstance(s, Top):
            return s
        if isinstance(s, (int, N)) or isinstance(s, T) and not is_g(s):
            parts = [One(s)]
        else:
            parts = it.seq_parts(s)
            if parts is None:
                return Top("shape")
        out = []
        for p in parts:
            if isinstance(p, One):
                a = axis_for(it, p.v)
                if isinstance(a, Top):
                    return a
                out.append(One(a))
            else:
                ges = []
                for ge in p.ges:
                    a = axis_for(it, ge.v)
                    if isinstance(a, Top):
                        return a
                    ges.append(GE(ge.g, ge.guards, a))
                out.append(Map(p.order, ges))
        return out

    def axis_for(it, n):
        if isinstance(n, int):
            if n == 1:
                return UNIT
            return OA(("list", n))
        if isinstance(n, LenV):
            return VA(n.parts, True)
        if isinstance(n, T) and n.op == "card":
            return n.args[0]
        if isinstance(n, Top):
            return Top("extent")
        if isinstance(n, (T, N)):
            ges = []
            for (m, w), c in num(n).t.items():
                if w or c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].op != "count":
                    return OA(keyof(n))
                dom, atom, gd = m[0][0].args
                g, star = G(dom, atom, ("b", fresh())), G(dom, atom, "*")
                ges.append(GE(g, tuple((subst(c2, {star: g}), b) for c2, b in gd), g))
            return VA([Map("?len", ges)], True)
        return Top("extent")

    def filled(c):
        def f(it, a, k):
            s = a[0] if a else k["shape"]
            ax = axes_of_shape(it, s)
            if isinstance(ax, Top):
                return ax
            return Arr(Ten(ax, num(c)))
        return f
    reg("numpy.zeros", "numpy.empty")(filled(0))
    reg("numpy.ones")(filled(1))

    @reg("numpy.full")
    def _full(it, a, k):
        ax = axes_of_shape(it, a[0])
        v = num(a[1]) if not isinstance(a[1], (Top, Arr)) else None
        if isinstance(ax, Top) or v is None:
            return Top("full")
        return Arr(Ten(ax, v))

    @reg("numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "numpy.empty_like")
    def _like(it, a, k):
        return Top("like")
    for n, c in (("zeros_like", 0), ("empty_like", 0), ("ones_like", 1)):
        def f(it, a, k, c=c):
            t = it.ten(a[0])
            return t if isinstance(t, Top) else Arr(Ten(t.axes, num(c)))
        reg("numpy." + n)(f)

    @reg("numpy.eye", "numpy.identity")
    def _eye(it, a, k):
        n = a[0]
        if len(a) > 1 and a[1] is not None:
            if not (isinstance(a[1], int) and isinstance(n, int) and a[1] == n or
                    isinstance(n, LenV) and isinstance(a[1], LenV) and n == a[1]):
                return Top("eye")
        ax = axes_of_shape(it, Tup.of(n, n))
        if isinstance(ax, Top):
            return ax
        if ax[0].v is UNIT:
            return Arr(Ten(ax, ONE))
        return Arr(Ten(ax, T("eye", it.rowset(ax[0].v))))

    @reg("numpy.diag")
    def _diag(it, a, k):
        return it.top("diag")

    @reg("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.copy", "numpy.atleast_1d_")
    def _array(it, a, k):
        v = a[0]
        t = it.ten(v)
        if isinstance(t, Top):
            return t
        return Arr(t)

    @reg("numpy.atleast_2d")
    def _a2(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        r = it.rank(t)
        if r == 0:
            return Arr(Ten([One(UNIT), One(UNIT)], t.body))
        if r == 1:
            return Arr(Ten([One(UNIT)] + t.axes, it.tr_body(t.body)))
        return a[0]

    def unary(f):
        def h(it, a, k):
            v = a[0]
            if isinstance(v, Top):
                return v
            if isinstance(v, (Arr, LObj, Tup)):
                return it.arr_unary(f, v)
            return it.scalar_fn(f, v)
        return h
    for f in ("log", "exp", "sqrt", "abs", "isnan", "isinf", "isfinite", "logical_not", "sign", "floor", "square"):
        reg("numpy." + f, *(["math." + f] if f in ("log", "exp", "sqrt", "isnan", "floor") else []))(unary(f))
    reg("numpy.negative")(lambda it, a, k: it.binop("*", -1, a[0]))
    reg("numpy.absolute", "numpy.fabs")(unary("abs"))
    for n in ("isneginf", "log2", "log10", "log1p", "expm1"):
        reg("numpy." + n)(unary(n))

    @reg("cmath.log")
    def _clog(it, a, k):
        v = a[0]
        if isinstance(v, Arr):
            t = it.ten(v)
            if isinstance(t, Top) or not it.all_unit(t):
                return Top("cmath.log")
            v = it.scal(t.body)
        return it.scalar_fn("log", v)

    for n, op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"),
                  ("matmul", "@"), ("power", "**"), ("equal", "=="), ("less", "<"), ("greater", ">"), ("not_equal", "!="),
                  ("logical_and", "&"), ("logical_or", "|"), ("greater_equal", ">="), ("less_equal", "<="),
                  ("bitwise_and", "&"), ("bitwise_or", "|")):
        def f(it, a, k, op=op):
            if isinstance(a[0], Top) or isinstance(a[1], Top):
                return Top("array operand")
            if not isinstance(a[0], Arr) and not isinstance(a[1], Arr) and it.is_num(a[0]) and it.is_num(a[1]):
                return it.binop(op, a[0], a[1]) if op not in ("==", "<", ">", "!=", "<=", ">=") else it.compare(op, a[0], a[1])
            x = a[0] if isinstance(a[0], Arr) else a[0]
            r = it.arr_binop(op, x, a[1])
            if "out" in k:
                return Top("out=")
            return r
        reg("numpy." + n)(f)

    @reg("numpy.dot")
    def _dot(it, a, k):
        x, y = it.ten(a[0]), it.ten(a[1])
        if isinstance(x, Top) or isinstance(y, Top):
            return Top("dot")
        if not x.axes or not y.axes:
            return it.binop("*", a[0], a[1])
        return it.matmul(x, y)

    @reg("numpy.outer")
    def _outer(it, a, k):
        return it.top("outer")

    @reg("numpy.linalg.multi_dot")
    def _md(it, a, k):
        ps = it.seq_parts(a[0])
        r = ps[0].v
        for p in ps[1:]:
            r = it.binop("@", r, p.v)
        return r

    @reg("numpy.transpose")
    def _tr(it, a, k):
        if not isinstance(a[0], Arr):
            return Top("transpose")
        ax = a[1] if len(a) > 1 else k.get("axes")
        return it.transpose(a[0], ax)

    def square(it, t):
        """the common axis of a square matrix"""
        if it.rank(t) != 2:
            it.throw("LinAlgError", "not 2-dimensional")
        a, b = t.axes[0].v, t.axes[1].v
        if a is UNIT and b is UNIT:
            return UNIT
        r = it.same_axis(a, b) if a is not UNIT and b is not UNIT else "non-square"
        return r

    @reg("numpy.linalg.inv", "scipy.linalg.inv", "numpy.linalg.pinv")
    def _inv(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        s = square(it, t)
        if s is None:
            return it.top("inverse")
        if isinstance(s, str):
            return it.mis("inverse of a matrix with different row and column labels: " + s)
        if it.may_catch("LinAlgError"):
            sing = T("singular", num(t.body))
            if it.decide(sing):
                it.throw("LinAlgError", explicit=True)
        if s is UNIT:
            return Arr(Ten(t.axes, it.simp(num(t.body).inverse())))
        if isinstance(t.body, T) and t.body.op == "inv":
            return Arr(Ten(t.axes, t.body.args[0]))
        return Arr(Ten(t.axes, T("inv", it.simp(num(t.body)))))

    @reg("numpy.linalg.det")
    def _det(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        s = square(it, t)
        if s is None:
            return it.top("det")
        if isinstance(s, str):
            return it.mis("determinant of a matrix with different row and column labels: " + s)
        if s is UNIT:
            return it.scal(t.body)
        return T("det", num(t.body), it.rowset(s))

    @reg("numpy.linalg.slogdet")
    def _sld(it, a, k):
        d = _det(it, a, k)
        if isinstance(d, Top):
            return Top("slogdet")
        n = num(d)
        return Tup.of(T("ew1", "sign", n), T("ew1", "log", N.atom(T("ew1", "abs", n))))

    @reg("numpy.linalg.solve", "scipy.linalg.solve")
    def _solve(it, a, k):
        i = _inv(it, [a[0]], {})
        if isinstance(i, Top):
            return i
        return it.binop("@", i, a[1])

    @reg("numpy.trace")
    def _trace(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        s = square(it, t)
        if isinstance(s, str):
            return it.mis("trace of a matrix with different row and column labels: " + s)
        if s is None:
            return Top("trace")
        return T("trace", num(t.body), it.rowset(s)) if s is not UNIT else it.scal(t.body)

    @reg("numpy.linalg.cholesky", "scipy.linalg.cholesky")
    def _chol(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        s = square(it, t)
        if isinstance(s, str):
            return it.mis("cholesky: " + s)
        if k:
            return Top("cholesky options")
        if it.rank(t) == 2 and isinstance(t.axes[0].v, VA):
            return Arr(Ten([t.axes[0], One(VA(t.axes[0].v.parts))], T("chol", num(t.body), it.lk(t.axes[0].v.parts))))
        return it.top("cholesky")

    @reg("numpy.linalg.eigvals", "numpy.linalg.eigvalsh")
    def _eig(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        return Arr(Ten([One(OA(("eig", keyof(t.body))))], T("eigvals", num(t.body))))

    @reg("numpy.ix_")
    def _ix(it, a, k):
        return IxV(list(a))

    @reg("numpy.unravel_index")
    def _ui(it, a, k):
        if isinstance(a[0], T) and a[0].op == "argmax":
            s = a[1]
            ps = it.seq_parts(s) if not isinstance(s, Top) else None
            if ps is None:
                return Top("unravel_index")
            out = []
            for p in ps:
                if isinstance(p, Map):
                    ges = []
                    for ge in p.ges:
                        lab = ge.v.args[0] if isinstance(ge.v, T) and ge.v.op == "card" else None
                        ges.append(GE(ge.g, ge.guards, T("argat", a[0], lab) if lab is not None else 0))
                    out.append(Map(p.order, ges))
                else:
                    out.append(p)
            if it.lk(ps) != a[0].args[1]:
                return it.mis("argmax index unravelled with another shape")
            return Tup(out)
        return Top("unravel_index")

    @reg("numpy.argmax")
    def _am(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top) or len(a) > 1 or k:
            return Top("argmax")
        return T("argmax", num(t.body), it.lk(it.shape(t).parts))

    # ---- shape manipulation
    @reg("numpy.expand_dims")
    def _ed(it, a, k):
        t = it.ten(a[0])
        ax = a[1] if len(a) > 1 else k["axis"]
        if isinstance(t, Top):
            return t
        if isinstance(ax, Top):
            return Top("axis")
        buf = a[0].buf if isinstance(a[0], Arr) else None
        if isinstance(ax, int):
            r = it.rank(t)
            if ax == 0:
                b = it.tr_body(t.body) if r == 1 and isinstance(t.axes[0].v, (VA, OA)) else t.body
                return Arr(Ten([One(UNIT)] + t.axes, b), buf)
            if r is not None:
                if ax < 0:
                    ax += r + 1
                return Arr(Ten(t.axes[:ax] + [One(UNIT)] + t.axes[ax:], t.body), buf)
            if ax == -1:
                return Arr(Ten(t.axes + [One(UNIT)], t.body), buf)
            return it.top("expand_dims")
        ps = it.seq_parts(ax)
        if ps is None:
            return it.top("expand_dims")
        if not ps:
            return Arr(t, buf)
        if all(isinstance(p, One) and isinstance(p.v, int) for p in ps):
            r = it.rank(t)
            n = [p.v for p in ps]
            if sorted(n) == list(range(len(n))):
                return Arr(Ten([One(UNIT)] * len(n) + t.axes, t.body), buf)
            return it.top("expand_dims")
        # positions in some skeleton: the new axes sit there in the result
        sks = set()
        sel = []
        for p in ps:
            if not isinstance(p, Map):
                return it.top("expand_dims")
            for ge in p.ges:
                if not (isinstance(ge.v, T) and ge.v.op == "pos"):
                    return ge.v if isinstance(ge.v, Bad) else it.top("expand_dims")
                sks.add(it.canon_sk(ge.v.args[0]))
                sel.append((ge.g.args[:2], canon_guards(ge.guards, ge.g)))
        if len(sks) != 1:
            return it.top("expand_dims")
        sk = sks.pop()
        # which parts of sk are selected
        flags = []
        for q in sk:
            if q[0] != "m":
                flags.append(False)
                continue
            fams = [((f[0], f[1]), f[2]) for f in q[2]]
            inn = [f in sel for f in fams]
            if all(inn):
                flags.append(True)
            elif not any(inn):
                flags.append(False)
            else:
                return it.top("expand_dims at interleaved positions")
        rest = list(t.axes)
        out = []
        for q, f in zip(sk, flags):
            if f:
                for pp in parts_from_skel((q,)):
                    out.append(Map(pp.order, [GE(ge.g, ge.guards, UNIT) for ge in pp.ges]))
            else:
                if not rest:
                    return it.top("expand_dims past the end")
                x = rest.pop(0)
                cq = count_parts(parts_from_skel((q,)) or []) if q[0] == "m" else ONE
                if count_parts([x]) != cq:
                    return it.mis("inserted axes do not line up with the variable axes")
                out.append(x)
        return Arr(Ten(out + rest, t.body), buf)

    @reg("numpy.squeeze")
    def _sq(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        ax = a[1] if len(a) > 1 else k.get("axis")
        buf = a[0].buf if isinstance(a[0], Arr) else None
        if isinstance(ax, Top):
            return ax if ax.bad else Top("squeeze")
        if ax is None:
            if any(isinstance(p, Map) and any(ge.v is not UNIT for ge in p.ges) or
                   isinstance(p, One) and p.v is not UNIT and not isinstance(p.v, (VA, OA)) for p in t.axes):
                # also removes the axes of variables that have a single state
                return it.bad("squeeze without axis also drops the axes of variables with one state")
            if it.rank(t) is not None:
                keep = [p for p in t.axes if p.v is not UNIT]
                b = t.body
                if len(t.axes) == 2 and t.axes[0].v is UNIT and keep:
                    b = it.tr_body(b)
                if not keep:
                    return Arr(Ten([], b), buf)
                if any(isinstance(p.v, VA) for p in keep):
                    return it.top("squeeze of an axis of unknown length")
                return Arr(Ten(keep, b), buf)
            return it.top("squeeze")
        if isinstance(ax, int):
            ps = [One(ax)]
        else:
            ps = it.seq_parts(ax)
        if ps is None:
            return it.top("squeeze")
        drop = drop_axes(it, t, ps, "squeeze")
        if isinstance(drop, Top):
            return drop
        kept, dropped = drop
        for v in dropped:
            if v is not UNIT:
                it.throw("ValueError", "cannot squeeze an axis with more than one element")
        b = t.body
        if it.rank(t) == 2 and len(kept) == 1 and isinstance(kept[0].v, (VA, OA)) and t.axes[0].v is UNIT and kept[0] is t.axes[1]:
            b = it.tr_body(b)
        return Arr(Ten(kept, b), buf)

    def drop_axes(it, t, ps, why):
        """(kept parts, dropped axis values) for a list of positions"""
        picked = it.pick_axes(t, ps)
        if isinstance(picked, Top):
            return picked
        sel = set()
        ints = set()
        for p in ps:
            if isinstance(p, One):
                if isinstance(p.v, int) and it.rank(t) is not None:
                    ints.add(p.v % max(1, len(t.axes)))
                elif isinstance(p.v, T) and p.v.op == "posone":
                    ints.add(p.v.args[1])
                else:
                    return Top(why)
            else:
                for ge in p.ges:
                    g = ge.v.args[1]
                    if g is not ge.g:
                        return Top(why)
                    sel.add((g.args[0], g.args[1], canon_guards(ge.guards, ge.g)))
        kept, dropped = [], []
        for i, a in enumerate(t.axes):
            if isinstance(a, One):
                (dropped.append(a.v) if i in ints else kept.append(a))
            else:
                ges = []
                for ge in a.ges:
                    key = (ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g))
                    if key in sel:
                        dropped.append(ge.v)
                    else:
                        ges.append(ge)
                if ges:
                    kept.append(Map(a.order, ges))
        return kept, dropped

    def reduce_axes(it, t, ps, fn):
        """(axes with reduced ones marked UNIT, labels reduced)"""
        picked = it.pick_axes(t, ps)
        if isinstance(picked, Top):
            return picked
        sel, ints = set(), set()
        for p in ps:
            if isinstance(p, One):
                if isinstance(p.v, int) and it.rank(t) is not None:
                    ints.add(p.v % max(1, len(t.axes)))
                elif isinstance(p.v, T) and p.v.op == "posone":
                    ints.add(p.v.args[1])
                else:
                    return Top("axis")
            else:
                for ge in p.ges:
                    if not (isinstance(ge.v, T) and ge.v.op == "pos") or ge.v.args[1] is not ge.g:
                        return Top("axis")
                    sel.add((ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g)))
        out, labs = [], []
        for i, a in enumerate(t.axes):
            if isinstance(a, One):
                if i in ints:
                    if a.v is not UNIT:
                        labs.append(("one", keyof(a.v)))
                    out.append(One(UNIT))
                else:
                    out.append(a)
            else:
                ges = []
                for ge in a.ges:
                    key = (ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g))
                    if key in sel:
                        if ge.v is not UNIT:
                            labs.append(key)
                        ges.append(GE(ge.g, ge.guards, UNIT))
                    else:
                        ges.append(ge)
                out.append(Map(a.order, ges))
        return out, frozenset(labs)

    def is_lse(f):
        return isinstance(f, Ext) and f.path in ("scipy.special.logsumexp", "scipy.special._logsumexp.logsumexp")

    RED = {"numpy.sum": "sum", "numpy.max": "max", "numpy.amax": "max", "numpy.mean": "mean", "numpy.prod": "prod", "numpy.min": "min"}

    def red_name(f):
        if is_lse(f):
            return "lse"
        if isinstance(f, Ext):
            return RED.get(f.path)
        return None

    @reg("numpy.apply_over_axes")
    def _aoa(it, a, k):
        f, t = a[0], it.ten(a[1])
        ax = a[2] if len(a) > 2 else k["axes"]
        r = red_name(f)
        if isinstance(t, Top):
            return t
        if r is None or isinstance(ax, Top):
            return it.top("apply_over_axes")
        return reduce(it, t, ax, r, True)

    def reduce(it, t, ax, r, keepdims):
        ps = [One(ax)] if isinstance(ax, int) else it.seq_parts(ax)
        if ps is None:
            return it.top("axis list")
        if it.rank(t) is not None and any(isinstance(p.v, (VA, OA)) for p in t.axes):
            return vec_reduce(it, t, ps, r, keepdims)
        q = reduce_axes(it, t, ps, r)
        if isinstance(q, Top):
            return q
        axes, labs = q
        if not labs:
            body = t.body
        else:
            body = T("red", r, labs, num(t.body))
        if not keepdims:
            d = drop_axes(it, Ten(axes, body), ps, "reduce")
            if isinstance(d, Top):
                return d
            axes = d[0]
            if not axes:
                return it.scal(body)
        return Arr(Ten(axes, body))

    def vec_reduce(it, t, ps, r, keepdims):
        idx = [p.v for p in ps if isinstance(p, One) and isinstance(p.v, int)]
        if len(idx) != len(ps):
            return it.top("axis list")
        n = len(t.axes)
        idx = {i % n for i in idx}
        body = t.body
        axes = list(t.axes)
        for i in sorted(idx):
            ax = axes[i].v
            if ax is UNIT:
                continue
            body = T("vred", r, "r" if (i == 0) else "c", num(body))
            axes[i] = One(UNIT)
        if not keepdims:
            kept = [a for i, a in enumerate(axes) if i not in idx]
            if n == 2 and 0 in idx and 1 not in idx and isinstance(kept[0].v, (VA, OA)):
                body = it.tr_body(body)
            axes = kept
            if not axes:
                return it.scal(body)
        return Arr(Ten(axes, body))

    def red(r):
        def f(it, a, k):
            v = a[0]
            if isinstance(v, (LObj, Tup)) and r in ("sum", "prod"):
                ps = it.seq_parts(v)
                if ps is not None and any(isinstance(p, Map) for p in ps) and r == "prod":
                    return it.np_product(v)
                if ps is not None and all(isinstance(p, One) and it.is_num(p.v) and not isinstance(p.v, Top) for p in ps):
                    return it.b_sum([v], {}) if r == "sum" else it.np_product(v)
                if r == "sum" and ps is not None and any(isinstance(p, Map) for p in ps):
                    return it.b_sum([v], {})
            t = it.ten(v)
            if isinstance(t, Top):
                return t
            ax = a[1] if len(a) > 1 else k.get("axis")
            if isinstance(ax, Top):
                return ax if ax.bad else Top(r)
            keep = k.get("keepdims", False) is True
            if "b" in k or "weights" in k or "where" in k:
                return it.top(r + " with weights")
            if ax is None:
                if keep:
                    return it.top("keepdims")
                if it.all_unit(t):
                    return it.scal(t.body)
                return T("redall", r, num(t.body), it.axset(t))
            return reduce(it, t, ax, r, keep)
        return f
    NumpyEval.axset = lambda it, t: it.axis_set(t.axes)
    reg("numpy.sum")(red("sum"))
    reg("numpy.prod", "numpy.product")(red("prod"))
    reg("numpy.max", "numpy.amax")(red("max"))
    reg("numpy.min", "numpy.amin")(red("min"))
    reg("numpy.mean", "numpy.average")(red("mean"))
    reg("scipy.special.logsumexp")(red("lse"))
    reg("numpy.any")(lambda it, a, k: it.anyall(a[0], True) if len(a) == 1 and not k else Top("any"))
    reg("numpy.all")(lambda it, a, k: (lambda r: it.neg(r) if not isinstance(r, Top) else r)(it.anyall(a[0], False)) if len(a) == 1 and not k else Top("all"))

    @reg("numpy.moveaxis", "numpy.swapaxes", "numpy.rollaxis")
    def _mv(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        if it.rank(t) == 2 and len(a) == 3 and isinstance(a[1], int) and isinstance(a[2], int):
            if a[1] % 2 == a[2] % 2:
                return a[0]
            return it.transpose(a[0], None)
        return it.top("moveaxis")

    @reg("numpy.ravel", "numpy.flatten")
    def _ravel(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        buf = a[0].buf if isinstance(a[0], Arr) else None
        r = it.rank(t)
        if r is None:
            return it.top("ravel of a tensor")
        big = [x for x in t.axes if x.v is not UNIT]
        if len(big) == 0:
            return Arr(Ten([One(UNIT)], t.body), buf)
        if len(big) == 1:
            b = t.body
            if r == 2 and t.axes[0].v is UNIT:
                b = it.tr_body(b)
            return Arr(Ten(big, b), buf)
        return it.top("ravel of a matrix")

    @reg("numpy.reshape")
    def _resh(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        s = a[1:] if len(a) > 2 else [a[1]]
        shp = Tup([One(x) for x in s]) if len(s) > 1 or isinstance(s[0], (int, N)) else s[0]
        ps = it.seq_parts(shp)
        if ps is None:
            return it.top("reshape")
        if it.lk(ps) == it.lk(it.shape(t).parts):
            return a[0]
        r = it.rank(t)
        if r is not None and all(isinstance(p, One) for p in ps):
            big = [x for x in t.axes if x.v is not UNIT]
            vals = [p.v for p in ps]
            if len(big) <= 1:
                b = t.body
                if r == 2 and t.axes[0].v is UNIT and big:
                    b = it.tr_body(b)
                non1 = [i for i, v in enumerate(vals) if v != 1]
                if not big:
                    if all(v in (1, -1) for v in vals):
                        return Arr(Ten([One(UNIT)] * len(vals), b), a[0].buf if isinstance(a[0], Arr) else None)
                elif len(non1) == 1 and (vals[non1[0]] == -1 or num(vals[non1[0]]) == num(it.axis_len(big[0].v))):
                    axes = [One(UNIT)] * len(vals)
                    axes[non1[0]] = big[0]
                    if len(vals) == 2 and non1[0] == 1:
                        b = it.tr_body(b)
                    return Arr(Ten(axes, b), a[0].buf if isinstance(a[0], Arr) else None)
        return it.top("reshape")

    @reg("numpy.where")
    def _where(it, a, k):
        if len(a) != 3:
            return it.top("where")
        c, x, y = it.ten(a[0]), it.ten(a[1]), it.ten(a[2])
        if isinstance(a[0], bool):
            return a[1] if a[0] else a[2]
        for t in (c, x, y):
            if isinstance(t, Top):
                return t if t.bad else Top("where")
        ax = it.broadcast(c.axes, x.axes)
        if isinstance(ax, list):
            ax = it.broadcast(ax, y.axes)
        if ax is None:
            return it.top("where")
        if isinstance(ax, str):
            return it.mis("where: " + ax)
        body = T("where", num(c.body), num(x.body), num(y.body))
        return Arr(Ten(ax, body)) if ax else body

    @reg("numpy.nan_to_num")
    def _n2n(it, a, k):
        return it.top("nan_to_num")

    @reg("numpy.allclose", "numpy.array_equal", "numpy.isclose", "math.isclose")
    def _close(it, a, k):
        x, y = it.ten(a[0]), it.ten(a[1])
        if isinstance(x, Top) or isinstance(y, Top):
            b = next((t for t in (x, y) if isinstance(t, Bad)), None)
            return b or Top("allclose")
        ax = it.broadcast(x.axes, y.axes)
        if ax is None:
            return it.top("allclose")
        if isinstance(ax, str):
            return it.mis("allclose: " + ax)
        rt = a[2] if len(a) > 2 else k.get("rtol")
        at = a[3] if len(a) > 3 else k.get("atol")
        xb, yb = num(x.body), num(y.body)
        return T("allclose", xb, yb, keyof(rt), keyof(at))

    @reg("numpy.block")
    def _block(it, a, k):
        rows = it.seq_parts(a[0])
        if rows is None or not all(isinstance(r, One) for r in rows):
            return it.top("block")
        grid = []
        for r in rows:
            if isinstance(r.v, LObj):
                cs = it.seq_parts(r.v)
                if cs is None or not all(isinstance(c, One) for c in cs):
                    return it.top("block")
                grid.append([c.v for c in cs])
            else:
                return concat(it, [r.v for r in rows], 1 if not isinstance(r.v, LObj) else 0)
        out = []
        for r in grid:
            x = r[0] if len(r) == 1 else concat(it, r, 1)
            if isinstance(x, Top):
                return x
            out.append(x)
        return out[0] if len(out) == 1 else concat(it, out, 0)

    def concat(it, xs, axis):
        ts = [it.ten(x) for x in xs]
        for t in ts:
            if isinstance(t, Top):
                return t if t.bad else Top("concatenate")
        if any(it.rank(t) != 2 for t in ts):
            if all(it.rank(t) == 1 for t in ts) and axis == 0:
                oth = None
            else:
                return it.top("concatenate")
        r2 = it.rank(ts[0]) == 2
        if r2:
            other = 1 - axis
            ax = ts[0].axes[other].v
            for t in ts[1:]:
                o = t.axes[other].v
                if (o is UNIT) != (ax is UNIT) and not isinstance(o, OA) and not isinstance(ax, OA):
                    return it.mis("concatenated blocks of different extent")
                ax = it.same_axis(ax, o)
                if ax is None:
                    return it.top("concatenate")
                if isinstance(ax, str):
                    return it.mis("concatenate: " + ax)
        parts, free = [], False
        keys = []
        va = all(isinstance(t.axes[axis].v, VA) for t in ts)
        sets = []
        for t in ts:
            c = t.axes[axis].v
            keys.append(keyof(c))
            if va:
                parts += c.parts
                free = free or c.free
                sets.append(it.rowset(c))
            else:
                sets.append(None)
        labsets = [frozenset(s) for s in sets] if va else []
        disjoint = va and len(set().union(*labsets)) == sum(len(s) for s in labsets)
        bodies = tuple(num(t.body) for t in ts)
        if va and disjoint:
            n = VA(parts, False)
            body = T("cat", axis, tuple(sets), bodies)
        else:
            n = OA(("cat", tuple(keys)))
            body = T("catpos", axis, tuple(sets) if va else tuple(keys), bodies)
        if not r2:
            return Arr(Ten([One(n)], body))
        axes = [One(n), One(ax)] if axis == 0 else [One(ax), One(n)]
        return Arr(Ten(axes, body))

    @reg("numpy.concatenate")
    def _cc(it, a, k):
        ax = a[1] if len(a) > 1 else k.get("axis", 0)
        if isinstance(a[0], Top):
            return a[0]
        ps = it.seq_parts(a[0])
        if ps is None or not isinstance(ax, int):
            return it.top("concatenate")
        if not all(isinstance(p, One) for p in ps):
            # a family of blocks
            return fam_concat(it, ps, ax)
        return concat(it, [p.v for p in ps], ax % 2 if ax < 0 else ax)

    def fam_concat(it, ps, ax):
        if len(ps) == 1 and isinstance(ps[0], Map) and len(ps[0].ges) == 1:
            ge = ps[0].ges[0]
            if isinstance(ge.v, Top):
                return ge.v
            t = it.ten(ge.v)
            if isinstance(t, Top) or it.rank(t) != 2:
                return Top("concatenate")
            star = G(ge.g.args[0], ge.g.args[1], "*")
            other = t.axes[1 - ax].v
            if ge.g in gens(Tup([One(other)])):
                return Top("concatenate")
            n = OA(("fam", ge.g.args[0], ge.g.args[1], it.ordk(ps[0].order), canon_guards(ge.guards, ge.g), keyof(t.axes[ax].v)))
            body = T("famcat", ax, ge.g.args[0], ge.g.args[1], it.ordk(ps[0].order), canon_guards(ge.guards, ge.g), subst(num(t.body), {ge.g: star}))
            axes = [One(n), One(other)] if ax == 0 else [One(other), One(n)]
            return Arr(Ten(axes, body))
        return it.top("concatenate")

    reg("numpy.vstack")(lambda it, a, k: _cc(it, [a[0], 0], {}))
    reg("numpy.hstack")(lambda it, a, k: _cc(it, [a[0], 1], {}))

    @reg("numpy.cov")
    def _cov(it, a, k):
        t = it.ten(a[0])
        if isinstance(t, Top):
            return t
        if it.rank(t) != 2:
            return it.top("cov")
        r = t.axes[0].v
        if r is UNIT:
            return Top("cov of one row")
        opts = tuple(sorted((n, keyof(v)) for n, v in k.items()))
        return Arr(Ten([One(r), One(r)], T("cov", opts, num(t.body))))

    @reg("numpy.tile", "numpy.repeat", "numpy.arange", "numpy.linspace", "numpy.meshgrid", "numpy.stack")
    def _un(it, a, k):
        return it.top("array constructor")

    @reg("numpy.isscalar")
    def _isc(it, a, k):
        v = a[0]
        if isinstance(v, Top):
            return Top("isscalar")
        return isinstance(v, (int, float, N, str)) or isinstance(v, T)

    @reg("numpy.ndim")
    def _nd(it, a, k):
        t = it.ten(a[0])
        return Top("ndim") if isinstance(t, Top) else (it.rank(t) if it.rank(t) is not None else it.length(Tup(t.axes)))

    @reg("numpy.shape")
    def _sh(it, a, k):
        t = it.ten(a[0])
        return Top("shape") if isinstance(t, Top) else it.shape(t)

    @reg("numpy.arange")
    def _ar(it, a, k):
        if len(a) == 1:
            return RangeV(0, a[0])
        if len(a) == 2:
            return RangeV(a[0], a[1])
        return it.top("arange")

    @reg("numpy.ndindex")
    def _ndi(it, a, k):
        return it.top("ndindex")

    @reg("numpy.set_printoptions")
    def _spo(it, a, k):
        return None

    @reg("math.exp")
    def _mexp(it, a, k):
        return it.scalar_fn("exp", a[0])

    @reg("cmath.exp")
    def _cexp(it, a, k):
        return it.scalar_fn("exp", a[0]) if not isinstance(a[0], Arr) else Top("cmath")

    for n in ("float64", "float32", "float_", "double"):
        reg("numpy." + n)(lambda it, a, k: it.b_float(a, k))
    for n in ("int64", "int32", "int_"):
        reg("numpy." + n)(lambda it, a, k: it.b_int(a, k))
    return it


def engine(root="/repo"):
    it = NumpyEval(root)
    it.lib = {}
    it.stubs = {}
    it.hooks = {}
    it.ret_hooks = {}
    stdlib(it)
    numpylib(it)
    from .graphlib import install
    install(it)
    return it
