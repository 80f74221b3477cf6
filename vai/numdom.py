"""Exact numbers for finite tables: logarithms of rational functions of positive symbols in generic position.

A log-probability is log(E) with E a rational function of positive symbols (Re); its exponential is the number E (Nu);
sums of products of both are Kl values. Values are compared by cross-multiplied polynomials. Two different expressions are
taken to be different numbers (the symbols are in generic position)."""
from fractions import Fraction
import math
from .arrays import *

INF = float("inf")


def poly(c):
    return N({((), ()): Fraction(c)})


P1 = poly(1)


def csum(x):
    return len(x.t)


class Rat:
    """quotient of polynomials with positive values"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=P1):
        self.n, self.d = n, d

    def __mul__(self, o):
        if self.n == o.d:
            return Rat(o.n, self.d)
        if self.d == o.n:
            return Rat(self.n, o.d)
        return Rat(self.n * o.n, self.d * o.d)

    def inv(self):
        return Rat(self.d, self.n)

    def __truediv__(self, o):
        return self * o.inv()

    def __add__(self, o):
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def zero(self):
        return not self.n.t

    def const(self):
        a, b = self.n, self.d
        if not a.t:
            return Fraction(0)
        if set(a.t) != set(b.t):
            return None
        k = next(iter(b.t))
        c = a.t[k] / b.t[k]
        return c if a == b.scale(c) else None

    def __eq__(self, o):
        return isinstance(o, Rat) and (self.n * o.d - o.n * self.d).t == {}

    def __hash__(self):
        return 0

    def __repr__(self):
        return f"({self.n!r})" if self.d == P1 else f"({self.n!r})/({self.d!r})"


def symbol(name):
    return Rat(N.atom(T("scal", "x", name)))


def rconst(c):
    return Rat(poly(c))


class Val:
    """immutable abstract number"""

    def abs_isinstance(self, it, c):
        if isinstance(c, Ext):
            n = c.path.split(".")[-1]
            return n in ("float", "Number", "Real", "floating", "number", "object", "float64")
        return Top("isinstance") if isinstance(c, Top) else False

    def abs_deepcopy(self, it, memo):
        return self

    def abs_key(self):
        return T("num", repr(self))

    def abs_truth(self, it):
        return True

    def abs_binop(self, it, op, a, b):
        return binop(it, op, a, b)

    def abs_eq(self, it, o):
        return same(self, o)

    def __repr__(self):
        return self.show()


class Re(Val):
    """finite logarithm of a positive number"""

    def __init__(self, lin):
        self.lin = lin

    def show(self):
        return f"log {self.lin!r}"


class Rounded(Val):
    """rounded logarithm of a ranked value: good for comparisons only"""

    def __init__(self, x):
        self.x = x

    def show(self):
        return f"rounded {self.x}"


class Nu(Val):
    """a positive number (linear domain), not zero"""

    def __init__(self, r):
        self.r = r

    def show(self):
        return f"{self.r!r}"


class Kl(Val):
    """sum of c * log F; {log atom: coefficient}"""

    def __init__(self, terms, const=None):
        self.t = {k: c for k, c in terms.items() if not c.zero()}
        self.c = const if const is not None else Rat(poly(0))

    def show(self):
        return "sum of logarithms"


def logs(r):
    """log of a rational function as {atom: Fraction}, up to monomials and contents"""
    out = {}

    def add(p, s):
        c = None
        if not p.t:
            raise Bail("log of zero")
        monos = [dict(m) for m, w in p.t]
        common = {k: min(m.get(k, 0) for m in monos) for k in set().union(*monos)} if monos else {}
        for k, e in common.items():
            if e:
                out[k] = out.get(k, 0) + s * e
        rest = {}
        for (m, w), co in p.t.items():
            d = dict(m)
            for k, e in common.items():
                d[k] = d.get(k, 0) - e
            rest[(tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda q: q[0].uid)), w)] = co
        k0 = min(rest, key=lambda k: [(x.uid, e) for x, e in k[0]])
        lead = rest[k0]
        if lead < 0:
            raise Bail("log of a negative number")
        if lead != 1:
            out[("c", lead)] = out.get(("c", lead), 0) + s
        q = frozenset((k, v / lead) for k, v in rest.items())
        if q != frozenset({(((), ()), Fraction(1))}):
            out[("p", q)] = out.get(("p", q), 0) + s
    add(r.n, 1)
    add(r.d, -1)
    # integer constants by prime factors
    for k in [k for k in out if isinstance(k, tuple) and k[0] == "c"]:
        e = out.pop(k)
        for n, s in ((k[1].numerator, 1), (k[1].denominator, -1)):
            for pr, m in factor(n):
                out[("i", pr)] = out.get(("i", pr), 0) + s * e * m
    return {k: v for k, v in out.items() if v}


def factor(n):
    p = 2
    while n > 1 and p * p <= n and p < 10000:
        m = 0
        while n % p == 0:
            n //= p
            m += 1
        if m:
            yield p, m
        p += 1
    if n > 1:
        yield n, 1


def as_kl(v):
    if isinstance(v, Kl):
        return v
    if isinstance(v, Re):
        return Kl({k: rconst(e) for k, e in logs(v.lin).items()})
    if isinstance(v, Nu):
        return Kl({}, v.r)
    if isinstance(v, (int, float)) and v == v and abs(v) != INF:
        f = Fraction(v).limit_denominator(10 ** 9)
        return Kl({}, Rat(poly(f)))
    return None


def as_lin(v):
    """exp of a real constant or Re"""
    if isinstance(v, Re):
        return v.lin
    if isinstance(v, (int, float)) and v == v and abs(v) != INF:
        return Rat(poly(Fraction(math.exp(v)).limit_denominator(10 ** 6)))
    return None


def as_nu(v):
    if isinstance(v, Nu):
        return v.r
    if isinstance(v, (int, float)) and v == v and abs(v) != INF:
        return Rat(poly(Fraction(v).limit_denominator(10 ** 9)))
    return None


def mk_re(r):
    c = r.const()
    if c is not None:
        return math.log(float(c)) if c > 0 else -INF
    return Re(r)


def mk_nu(r):
    c = r.const()
    if c is not None:
        return int(c) if c.denominator == 1 else float(c)
    return Nu(r)


def mk_kl(k):
    if not k.t:
        return mk_nu(k.c)
    return k


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, Val)


def binop(it, op, a, b):
    for x in (a, b):
        if isinstance(x, Top):
            return x
    if isinstance(a, N) or isinstance(b, N) or isinstance(a, T) or isinstance(b, T):
        return it.top("arithmetic on table values")
    if not (isinstance(a, Val) or isnum(a)) or not (isinstance(b, Val) or isnum(b)):
        it.throw("TypeError", f"unsupported operand for {op}")
    # infinities and nan
    for x, o, left in ((a, b, False), (b, a, True)):
        if isnum(x) and (x != x or abs(x) == INF):
            if x != x:
                return x
            if op == "+":
                return x
            if op == "-":
                return x if not left else -x
            if isinstance(o, Nu):
                if op == "*":
                    return x
                if op == "/":
                    return x if not left else 0.0
            return it.top("infinite value in arithmetic")
    if op in ("+", "-") and (isinstance(a, Re) or isinstance(b, Re)):
        x, y = as_lin(a), as_lin(b)
        if x is not None and y is not None:
            return mk_re(x * y if op == "+" else x / y)
    if isinstance(a, Nu) and isnum(b) or isinstance(b, Nu) and isnum(a) or isinstance(a, Nu) and isinstance(b, Nu):
        x, y = as_nu(a), as_nu(b)
        if op == "+":
            return mk_nu(x + y)
        if op == "-":
            return mk_nu(x - y)
        if op == "*":
            return mk_nu(x * y)
        if op == "/":
            if y.zero():
                it.throw("ZeroDivisionError", "division by zero")
            return mk_nu(x / y)
    x, y = as_kl(a), as_kl(b)
    if x is None or y is None:
        return it.top(f"operator {op} on table values")
    if op in ("+", "-"):
        t = dict(x.t)
        for k, c in y.t.items():
            t[k] = (t[k] if k in t else Rat(poly(0))) + (c if op == "+" else -c)
        return mk_kl(Kl(t, x.c + (y.c if op == "+" else -y.c)))
    if op == "*" and (not x.t or not y.t):
        if not x.t:
            x, y = y, x
        return mk_kl(Kl({k: c * y.c for k, c in x.t.items()}, x.c * y.c))
    if op == "/" and not y.t and not y.c.zero():
        return mk_kl(Kl({k: c / y.c for k, c in x.t.items()}, x.c / y.c))
    return it.top(f"operator {op} on table values")


def same(a, b):
    """equal numbers? (generic position)"""
    if isinstance(a, Top) or isinstance(b, Top):
        return a if isinstance(a, Top) else b
    for x, y in ((a, b), (b, a)):
        if isnum(x) and (x != x or abs(x) == INF):
            return isnum(y) and x == y
    if isinstance(a, Re) and isinstance(b, Re):
        return a.lin == b.lin
    x, y = as_kl(a), as_kl(b)
    if x is None or y is None:
        return False
    return x.c == y.c and set(x.t) == set(y.t) and all(x.t[k] == y.t[k] for k in x.t)


def total(it, xs):
    r = 0
    for x in xs:
        r = it.binop("+", r, x)
    return r


def lse(it, xs):
    lin = None
    for x in xs:
        if isnum(x) and x == -INF:
            continue
        if isnum(x) and (x != x or x == INF):
            return x
        l = as_lin(x)
        if l is None:
            return it.top("logsumexp of unknown values")
        lin = l if lin is None else lin + l
    return -INF if lin is None else mk_re(lin)


def values(it, v):
    """list of numbers of a sequence of abstract numbers, or None"""
    if isinstance(v, (LObj, Tup)) or hasattr(v, "abs_parts") or isinstance(v, View):
        ps = it.seq_parts(v)
        if ps is not None and all(isinstance(p, One) and (isinstance(p.v, Val) or isnum(p.v)) for p in ps):
            return [p.v for p in ps]
    return None


def install(it, rank=None, close=None):
    """numbers of this domain for the library functions used on tables.
    rank: symbol name -> size (for comparisons of lone symbols); close: pairs of symbol names within tolerance"""
    L = it.lib

    def exp(v):
        if isinstance(v, Re):
            return mk_nu(v.lin)
        if isnum(v):
            return math.exp(v) if v < 700 else INF
        return None

    def log(v):
        if isinstance(v, Nu):
            return mk_re(v.r)
        if isnum(v):
            return math.log(v) if v > 0 else -INF if v == 0 else float("nan")
        return None

    def over(old, one, many=None):
        def f(it, a, k):
            if a and (isinstance(a[0], Val) or isnum(a[0])) and one is not None and len(a) == 1 and not k:
                r = one(a[0])
                if r is not None:
                    return r
            if a and many is not None and len(a) == 1:
                xs = values(it, a[0])
                if xs is not None:
                    return many(it, xs)
            return old(it, a, k)
        return f
    L["numpy.exp"] = L["math.exp"] = over(L["numpy.exp"], exp)
    L["numpy.log"] = L["math.log"] = over(L["numpy.log"], log)
    L["scipy.special.logsumexp"] = over(L["scipy.special.logsumexp"], None, lse)
    L["numpy.sum"] = over(L["numpy.sum"], None, total)

    def prod(old):
        def f(it, a, k):
            xs = values(it, a[0]) if a else None
            if xs is not None and len(a) == 1 and not k and all(isnum(x) for x in xs):
                r = 1 if xs else 1.0          # numpy: the empty product is a float
                for x in xs:
                    r = r * x
                return r
            return old(it, a, k)
        return f
    L["numpy.prod"] = L["numpy.product"] = prod(L["numpy.prod"])

    def isclose(old):
        def f(it, a, k):
            if len(a) >= 2 and (isinstance(a[0], Val) or isnum(a[0])) and (isinstance(a[1], Val) or isnum(a[1])):
                rt = a[2] if len(a) > 2 else k.get("rtol")
                at = a[3] if len(a) > 3 else k.get("atol")
                x, y = a[0], a[1]
                s = same(x, y)
                if s is True or isinstance(s, Top):
                    return s
                n, m = lone(x), lone(y)
                if n is not None and m is not None and close and frozenset((n, m)) in close:
                    # near each other: within the tolerances only if the requested tolerances are used
                    return bool(rt == T("tol", "rtol") and at == T("tol", "atol"))
                return False
            return old(it, a, k)
        return f
    L["numpy.isclose"] = L["math.isclose"] = L["numpy.allclose"] = isclose(L["numpy.isclose"])

    cmp_ = it.compare

    def compare(op, a, b):
        if (isinstance(a, Val) or isinstance(b, Val)) and op in ("<", "<=", ">", ">="):
            x, y = key(a), key(b)
            if x is None or y is None:
                s = same(a, b)
                if s is True:
                    return op in ("<=", ">=")
                if isinstance(a, (Kl, Nu)) and isnum(b) and b == 0 or isinstance(b, (Kl, Nu)) and isnum(a) and a == 0:
                    # divergences and weights are positive (generic position)
                    return (op in (">", ">=")) if isnum(b) else (op in ("<", "<="))
                return it.top("ordering of table values")
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        return cmp_(op, a, b)

    def rounding(v, d):
        if isinstance(v, Val) and (d is None or isinstance(d, int)):
            x = key(v)
            return None if x is None else Rounded(round(x, d))

    def key(v):
        if isinstance(v, Rounded):
            return v.x
        if isnum(v):
            return v if abs(v) == INF else None
        n = lone(v)
        return rank.get(n) if rank and n is not None else None
    it.compare = compare
    it.rounding = rounding
    for n in ("round", "around", "round_"):
        L["numpy." + n] = lambda it, a, k: it.b_round(a, {"ndigits": k.get("decimals")} if k else k)


def lone(v):
    """name of the symbol if the value is log of one symbol (or one symbol)"""
    r = v.lin if isinstance(v, Re) else v.r if isinstance(v, Nu) else None
    if r is None or r.d != P1 or len(r.n.t) != 1:
        return None
    ((m, w), c), = r.n.t.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "scal":
        return m[0][0].args[1]
    return None
