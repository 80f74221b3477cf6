"""Immutable abstract values: hash-consed terms T, polynomials N, sequence parts, Top/Bad."""
from fractions import Fraction

_intern = {}


class T:
    """A symbolic immutable term (value number): operator and arguments."""
    __slots__ = ("op", "args", "_h", "_gs", "uid")

    def __new__(cls, op, *args):
        key = (op, args)
        try:
            t = _intern.get(key)
        except TypeError:
            raise TypeError(f"unhashable in T: {op} {args}")
        # 1 == True == 1.0 in python: keep them apart
        if t is not None and _same(t.args, args):
            return t
        t = object.__new__(cls)
        t.op, t.args = op, args
        t._h = hash(key)
        t._gs = None
        t.uid = len(_intern)
        _intern[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and self._h == o._h and self.op == o.op and self.args == o.args)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self


def _same(a, b):
    return all(type(x) is type(y) for x, y in zip(a, b))


def G(dom, atom, n):
    return T("g", dom, atom, n)


def is_g(v):
    return isinstance(v, T) and v.op == "g"


class Top:
    """Unknown value."""
    bad = False

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"Top({self.why})"


class Bad(Top):
    """A value known to be wrong (e.g. an index computed for one label order used in another)."""
    bad = True

    def __init__(self, why="", loc=None):
        super().__init__(why)
        self.loc = loc

    def __repr__(self):
        return f"Bad({self.why})"


def frac(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, bool):
        return Fraction(int(c))
    if isinstance(c, int):
        return Fraction(c)
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            return None
        return Fraction(c).limit_denominator(10 ** 9)
    return None


class N:
    """Polynomial: {(mono, word): coef}; mono = sorted tuple of (T, power) commuting scalars,
    word = tuple of letters (non-commuting block letters)."""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = {k: c for k, c in t.items() if c != 0}
        self._h = None

    @staticmethod
    def const(c):
        return N({((), ()): frac(c)})

    @staticmethod
    def atom(term, p=1):
        return N({(((term, p),), ()): Fraction(1)})

    @staticmethod
    def word(w):
        return N({((), tuple(w)): Fraction(1)})

    def is_const(self):
        return all(k == ((), ()) for k in self.t)

    def cval(self):
        return self.t.get(((), ()), Fraction(0))

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, N) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        r = dict(self.t)
        for k, c in o.t.items():
            r[k] = r.get(k, 0) + c
        return N(r)

    def __neg__(self):
        return N({k: -c for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        return N({k: v * c for k, v in self.t.items()})

    def __mul__(self, o):
        r = {}
        for (m1, w1), c1 in self.t.items():
            for (m2, w2), c2 in o.t.items():
                k = (_mmul(m1, m2), w1 + w2)
                r[k] = r.get(k, 0) + c1 * c2
        return N(r)

    def is_mono(self):
        return len(self.t) == 1

    def inverse(self):
        """1/self for scalars."""
        if self.is_mono():
            ((m, w), c), = self.t.items()
            if not w:
                return N({(tuple((x, -p) for x, p in m), ()): 1 / c})
        return N.atom(T("inv", self))

    def scalar(self):
        return all(not w for (_, w) in self.t)

    def gs(self):
        out = set()
        for (m, w) in self.t:
            for x, _ in m:
                out |= gens(x)
            for x in w:
                out |= gens(x)
        return out

    def map_terms(self, f):
        """rebuild with every scalar atom and letter substituted by f (T -> T)."""
        r = {}
        for (m, w), c in self.t.items():
            mm = {}
            for x, p in m:
                y = f(x)
                mm[y] = mm.get(y, 0) + p
            k = (tuple(sorted(((x, p) for x, p in mm.items() if p), key=_k)), tuple(f(x) for x in w))
            r[k] = r.get(k, 0) + c
        return N(r)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for (m, w), c in sorted(self.t.items(), key=repr):
            s = [] if c == 1 and (m or w) else [str(c)]
            s += [repr(x) + ("" if p == 1 else f"^{p}") for x, p in m]
            s += [repr(x) for x in w]
            out.append("*".join(s))
        return " + ".join(out)

    def __deepcopy__(self, memo):
        return self


def _k(q):
    return q[0].uid


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for x, p in m2:
        d[x] = d.get(x, 0) + p
    return tuple(sorted(((x, p) for x, p in d.items() if p), key=_k))


ZERO = N({})
ONE = N.const(1)


def num(v):
    """python number / T / N -> N or None"""
    if isinstance(v, N):
        return v
    if isinstance(v, (bool, int, float, Fraction)):
        f = frac(v)
        if f is None:
            return N.atom(T("inf", 1 if v > 0 else -1)) if v == v else None
        return N({((), ()): f})
    if isinstance(v, T):
        return N.atom(v)
    return None


def unnum(n):
    """N -> simplest value (python int/float if constant, T if a lone atom)"""
    if n.is_const():
        c = n.cval()
        return int(c) if c.denominator == 1 else float(c)
    if len(n.t) == 1:
        ((m, w), c), = n.t.items()
        if c == 1 and not w and len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if x.op == "inf":
                return float("inf") * x.args[0]
            return x
        if c == -1 and not w and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "inf":
            return -float("inf") * m[0][0].args[0]
    return n


class One:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class GE:
    """one family of a Map part: for every variable/element g of an atom (satisfying guards) the value v"""
    __slots__ = ("g", "guards", "v")

    def __init__(self, g, guards, v):
        self.g, self.guards, self.v = g, tuple(guards), v

    def ident(self):
        return self.v is self.g

    def __repr__(self):
        gd = "".join(f" if {'' if b else 'not '}{c}" for c, b in self.guards)
        return f"{self.v!r} for {self.g!r}{gd}"


class Map:
    __slots__ = ("order", "ges")

    def __init__(self, order, ges):
        self.order, self.ges = order, tuple(ges)

    def __repr__(self):
        return f"<{self.order}: {'; '.join(map(repr, self.ges))}>"


class HolePart:
    __slots__ = ("h",)

    def __init__(self, h):
        self.h = h


class Tup:
    """immutable sequence value"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    @staticmethod
    def of(*vals):
        return Tup([One(v) for v in vals])

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.parts)) + ")"


_fresh = [0]


def fresh():
    _fresh[0] += 1
    return _fresh[0]


def gens(v):
    """generic variables occurring free in a value"""
    if isinstance(v, T):
        if v._gs is None:
            if v.op == "g":
                v._gs = frozenset([v])
            else:
                s = frozenset()
                for a in v.args:
                    s = s | gens(a)
                if v.op == "bind":      # T("bind", g, body...): g is bound
                    s = s - gens(v.args[0])
                v._gs = s
        return v._gs
    if isinstance(v, N):
        return frozenset(v.gs())
    if isinstance(v, (tuple, frozenset)):
        s = frozenset()
        for a in v:
            s = s | gens(a)
        return s
    if isinstance(v, Tup):
        s = frozenset()
        for p in v.parts:
            if isinstance(p, One):
                s |= gens(p.v)
            elif isinstance(p, Map):
                for ge in p.ges:
                    s |= (gens(ge.v) | gens(ge.guards)) - {ge.g}
        return s
    f = getattr(v, "abs_gens", None)
    if f is not None:
        return f()
    return frozenset()


def subst(v, m):
    """substitute generics (dict T->value) in an immutable value"""
    if not m:
        return v
    if isinstance(v, T):
        if v in m:
            return m[v]
        if not (gens(v) & m.keys()):
            return v
        return retag(T(v.op, *[subst(a, m) for a in v.args]))
    if isinstance(v, N):
        if not (v.gs() & m.keys()):
            return v
        return v.map_terms(lambda x: subst(x, m))
    if isinstance(v, tuple):
        return tuple(subst(a, m) for a in v)
    if isinstance(v, frozenset):
        return frozenset(subst(a, m) for a in v)
    if isinstance(v, Tup):
        return Tup([subst_part(p, m) for p in v.parts])
    f = getattr(v, "abs_subst", None)
    if f is not None:
        return f(m)
    return v


def retag(t):
    return t


def subst_part(p, m):
    if isinstance(p, One):
        return One(subst(p.v, m))
    if isinstance(p, Map):
        out = []
        for ge in p.ges:
            mm = {k: v for k, v in m.items() if k is not ge.g}
            out.append(GE(ge.g, subst(ge.guards, mm), subst(ge.v, mm)))
        return Map(subst(p.order, m) if isinstance(p.order, tuple) else p.order, out)
    return p


def show(v, d=0):
    if isinstance(v, T):
        if v.op == "g":
            return f"{v.args[0]}.{v.args[1]}#{v.args[2]}"
        if v.op in ("leaf", "sym"):
            return ".".join(map(str, v.args))
        return f"{v.op}({', '.join(show(a) for a in v.args)})"
    return repr(v)


SCALARS = {"scal", "det", "val", "count", "inf", "sqrt", "trace", "item", "card", "logs", "lins", "lseall"}
_scal = {}


def scalar_atom(x):
    """a term that is a plain number: never an array body with labels"""
    if not isinstance(x, T):
        return False
    if x.op in SCALARS:
        return True
    if x.op in ("ew1", "ew2"):
        r = _scal.get(x)
        if r is None:
            r = _scal[x] = all(scalar_num(a) for a in x.args[1:])
        return r
    return False


def scalar_num(a):
    if isinstance(a, (int, float)):
        return True
    if isinstance(a, T):
        return scalar_atom(a)
    if isinstance(a, N):
        return all(not w and all(scalar_atom(t) for t, _ in m) for m, w in a.t)
    return False
