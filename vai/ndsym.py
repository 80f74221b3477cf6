"""Arrays of known shape whose entries are polynomials over opaque symbols.

`install(it)` makes every array of the interpreted code such an array: library calls on them are carried out entry by entry on
arrays of polynomials (array layout is that of numpy itself, the entries are symbols), so a result denotes a function of the symbols."""
import operator
from fractions import Fraction
import numpy as np
from .heap import *
from .terms import *
from .interp import *
from .expr import *


def plain(kind, key, *rest):
    """the symbol for an operation without a closed form in this domain"""
    return (kind, key) + rest


TRUTH = [None]         # decides the truth of a number in interpretations (vai/findom.py)
ATOM = [plain]           # replaced by vai/findom.py, which interns such symbols
LIMIT = [None]           # longest polynomial that is kept expanded


def kind_of(a):
    """(operation, key) of a symbol made by ATOM"""
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], tuple):
        return a
    return getattr(a, "kind", None), getattr(a, "key", None)


def pack(p):
    if LIMIT[0] is not None and len(p.t) > LIMIT[0]:
        return Poly({((ATOM[0]("poly", p.key(), p), 1),): Fraction(1)})
    return p


def finite(x):
    return not (isinstance(x, (float, np.floating)) and (x != x or x in (float("inf"), float("-inf"))))


class Poly:
    """polynomial over symbols (any hashable); immutable, also a value of the interpreted program"""
    __slots__ = ("t",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        if not finite(o):
            return float(o)
        o = poly(o)
        if o is NotImplemented:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return pack(Poly(t))
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not finite(o):
            return -float(o)
        o = poly(o)
        return o if o is NotImplemented else self + (-o)

    def __rsub__(self, o):
        if not finite(o):
            return float(o)
        return poly(o) + (-self)

    def __mul__(self, o):
        if not finite(o):
            return self.infinite(float(o))
        o = poly(o)
        if o is NotImplemented:
            return o
        t = {}
        for a, c in self.t.items():
            for b, d in o.t.items():
                m = dict(a)
                for s, e in b:
                    m[s] = m.get(s, 0) + e
                m = tuple(sorted(((s, e) for s, e in m.items() if e), key=repr))
                t[m] = t.get(m, 0) + c * d
        return pack(Poly(t))
    __rmul__ = __mul__

    def infinite(self, x):
        """product with an infinite number"""
        if x != x or not self.t:
            return float("nan")
        if all(c > 0 for c in self.t.values()) and all(kind_of(a)[0] == "exp" for m in self.t for a, e in m):
            return x
        raise Bail("product of an infinite number and a number of unknown sign")

    def inv(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Poly({tuple((s, -e) for s, e in m): 1 / c})
        if not self.t:
            raise ZeroDivisionError
        return Poly({((ATOM[0]("inv", self.key()), 1),): Fraction(1)})

    def __truediv__(self, o):
        o = poly(o)
        return o if o is NotImplemented else self * o.inv()

    def __rtruediv__(self, o):
        return poly(o) * self.inv()

    def __pow__(self, e):
        if isinstance(e, Poly):
            e = e.const()
        if e == 0.5:
            return self.sqrt()
        if e is None or e != int(e):
            raise TypeError("power")
        r, b = poly(1), self if e >= 0 else self.inv()
        for _ in range(abs(int(e))):
            r = r * b
        return r

    def sqrt(self):
        c = self.const()
        if c is not None and c >= 0:
            return poly(float(c) ** 0.5)
        return Poly({((ATOM[0]("sqrt", self.key()), 1),): Fraction(1)})

    def conjugate(self):
        return self

    def key(self):
        return tuple(sorted(((m, norm_c(c)) for m, c in self.t.items()), key=repr))

    def __eq__(self, o):
        o = poly(o)
        return o is not NotImplemented and same(self, o)

    def __hash__(self):
        return hash(frozenset(self.t))

    def __bool__(self):
        c = self.const()
        if c is None:
            raise Bail("truth of a symbolic number")
        return bool(c)

    def __lt__(self, o):
        return self.order(o, operator.lt)

    def __le__(self, o):
        return self.order(o, operator.le)

    def __gt__(self, o):
        return self.order(o, operator.gt)

    def __ge__(self, o):
        return self.order(o, operator.ge)

    def order(self, o, f):
        d = (self - poly(o)).const()
        if d is None:
            raise Bail("order of symbolic numbers")
        return f(d, 0)

    def __abs__(self):
        c = self.const()
        return poly(abs(c)) if c is not None else Poly({((ATOM[0]("abs", self.key()), 1),): Fraction(1)})

    def __float__(self):
        c = self.const()
        if c is None:
            raise Bail("float of a symbolic number")
        return float(c)

    def __index__(self):
        c = self.const()
        if c is None or c.denominator != 1:
            raise TypeError("index")
        return int(c)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in list(sorted(self.t.items(), key=repr))[:6]:
            s = "*".join(f"{show(a)}" + (f"^{e}" if e != 1 else "") for a, e in m)
            out.append(s if c == 1 and s else f"{float(c):.4g}" + (f"*{s}" if s else ""))
        return " + ".join(out) + (" + .." if len(self.t) > 6 else "")

    # ---- protocol of abstract values
    def abs_isinstance(self, it, c):
        if isinstance(c, Ext):
            return c.path.split(".")[-1] in ("float", "Number", "Real", "floating", "number", "object", "float64")
        return Top("isinstance") if isinstance(c, Top) else False

    def abs_deepcopy(self, it, memo):
        return self

    def abs_key(self):
        return ("poly", self.key())

    def abs_truth(self, it):
        c = self.const()
        if c is not None:
            return bool(c)
        return TRUTH[0](self) if TRUTH[0] else T("cond", "poly", self.key())

    def abs_binop(self, it, op, a, b):
        return binop(it, op, a, b)

    def abs_eq(self, it, o):
        if isinstance(o, Top):
            return o
        return self == o if isinstance(o, (Poly, int, float, Fraction)) else False

    def abs_method(self, it, name, a, k):
        if name in ("copy", "item", "conjugate", "ravel", "squeeze", "min", "max", "sum"):
            return self
        return it.top(f"method {name} of a number")

    def abs_getattr(self, it, name):
        if name in ("real", "T"):
            return self
        if name == "shape":
            return Tup([])
        if name in ("ndim", "size"):
            return int(name == "size")
        return BM(self, name)

    def abs_getitem(self, it, idx):
        if isinstance(idx, Tup) and not items(it, idx):
            return self
        it.throw("IndexError", "invalid index to scalar variable")


def norm_c(c):
    return float(f"{float(c):.10g}")


def show(s):
    return "".join(map(str, s)) if isinstance(s, tuple) and all(isinstance(x, (str, int)) for x in s) else str(s)[:60]


def poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Poly({(): Fraction(int(x))})
    if isinstance(x, (int, float, Fraction, np.integer, np.floating)) and finite(x):
        return Poly({(): Fraction(x) if not isinstance(x, np.generic) else Fraction(x.item())})
    return NotImplemented


def sym(*name):
    return Poly({((name, 1),): Fraction(1)})


def same(a, b, tol=1e-9):
    """equal up to rounding of constants"""
    a, b = poly(a), poly(b)
    for m in set(a.t) | set(b.t):
        x, y = float(a.t.get(m, 0)), float(b.t.get(m, 0))
        if x != y and not abs(x - y) <= tol * max(1.0, min(abs(x), abs(y))):
            return False
    return True


class ND(HObj):
    def __init__(self, arr):
        self.arr = arr if arr.dtype == object or arr.dtype.kind in "bi" else arr.astype(object)

    def root(self):
        a = self.arr
        while a.base is not None:
            a = a.base
        return a

    def __repr__(self):
        return "ND" + str(self.arr.shape) + str(self.arr.tolist())[:120]

    # caller-owned memory is a property of the underlying buffer, shared by views
    @property
    def ext(self):
        e = EXT.get(id(self.root()))
        return e[1] if e else None

    @ext.setter
    def ext(self, v):
        EXT[id(self.root())] = (self.root(), v, self.ext_at)

    @property
    def ext_at(self):
        e = EXT.get(id(self.root()))
        return e[2] if e else 0

    @ext_at.setter
    def ext_at(self, n):
        e = EXT.get(id(self.root()))
        EXT[id(self.root())] = (self.root(), e[1] if e else None, n)

    # ---- protocol
    def abs_mark(self, ext):
        self.ext = ext

    def abs_isinstance(self, it, c):
        if isinstance(c, Ext):
            return c.path.split(".")[-1] in ("ndarray", "object", "Iterable", "Sized", "Collection")
        return Top("isinstance") if isinstance(c, Top) else False

    def abs_deepcopy(self, it, memo):
        o = ND(self.arr.copy())
        memo[id(self)] = (self, o)
        return o

    def abs_copy(self, it):
        return ND(self.arr.copy())

    def abs_key(self):
        return ("nd", self.arr.shape, tuple(poly(x).key() for x in self.arr.ravel()))

    def abs_truth(self, it):
        if self.arr.size == 1:
            return wrap(it, self.arr.ravel()[0])
        it.throw("ValueError", "truth value of an array")

    def abs_binop(self, it, op, a, b):
        return binop(it, op, a, b)

    def abs_eq(self, it, o):
        return binop(it, "==", self, o)

    def abs_neg(self, it):
        if all(isinstance(x, (bool, np.bool_)) for x in self.arr.ravel()):
            return ND(~self.arr.astype(bool))
        return it.top("negation of an array")

    def abs_len(self):
        return self.arr.shape[0]

    def abs_parts(self, it=None):
        return [One(wrap(it, x)) for x in self.arr]

    def abs_getattr(self, it, name):
        if name == "shape":
            return Tup([One(int(n)) for n in self.arr.shape])
        if name == "T":
            return ND(self.arr.T)
        if name in ("ndim", "size"):
            return int(getattr(self.arr, name))
        if name == "dtype":
            return Ext("builtins.float")
        if name == "real":
            return self
        return BM(self, name)

    def abs_getitem(self, it, idx):
        return guard(it, lambda: wrap(it, self.arr[conv_idx(it, idx)]))

    def abs_setitem(self, it, idx, v):
        def f():
            i, x = conv_idx(it, idx), conv(it, v)
            old = self.arr.copy()
            if isinstance(x, np.ndarray) and x.ndim == 0:
                x = x.item()
            it.log("nd", self, None, (self.arr, old), None)
            self.arr[i] = x
        guard(it, f)

    def abs_iop(self, it, op, v):
        r = binop(it, BINOPS[type(op)], self, v)
        if isinstance(r, ND) and r.arr.shape == self.arr.shape:
            it.log("nd", self, None, (self.arr, self.arr.copy()), None)
            self.arr[...] = r.arr
            return self
        return r

    def abs_method(self, it, name, a, k):
        if name in METHODS:
            return METHODS[name](it, self, a, k)
        if name in ("copy", "ravel", "flatten", "reshape", "transpose", "dot", "sum", "mean", "squeeze", "tolist", "item", "any", "all",
                    "min", "max", "diagonal", "trace", "repeat", "swapaxes", "conj", "conjugate"):
            return guard(it, lambda: wrap(it, getattr(self.arr, name)(*[conv(it, x) for x in a], **{n: conv(it, x) for n, x in k.items()})))
        if name == "astype":
            return ND(self.arr.copy())
        if name == "fill":
            it.log("nd", self, None, (self.arr, self.arr.copy()), None)
            self.arr[...] = conv(it, a[0])
            return None
        return it.top(f"method {name} of an array")


EXT = {}
METHODS = {}    # further methods: f(it, array, args, keywords)


def guard(it, f):
    try:
        return f()
    except Unknown as e:
        return e.top
    except (ValueError, IndexError, TypeError, ZeroDivisionError) as e:
        it.throw(type(e).__name__, str(e))
    except AssertionError as e:
        it.throw("AssertionError", str(e))


class Unknown(Exception):
    def __init__(self, top):
        self.top = top


def conv(it, v):
    """a python value numpy can work on"""
    if isinstance(v, ND):
        return v.arr
    if isinstance(v, (Poly, int, float, str)) or v is None:
        return v
    if isinstance(v, (Top,)):
        raise Unknown(v)
    if isinstance(v, N):
        c = v.cval() if v.is_const() else None
        return float(c) if c is not None else sym("number", v)
    if isinstance(v, Ext):
        if v.path.split(".")[-1] in ("float", "float64", "int", "double", "float_"):
            return object
        raise Unknown(Top(f"library value {v.path}"))
    if isinstance(v, Tup):
        return tuple(conv(it, x) for x in items(it, v))
    if isinstance(v, (LObj, View, RangeV, RepList)) or hasattr(v, "abs_parts"):
        return [conv(it, x) for x in items(it, v)]
    raise Unknown(it.top(f"{type(v).__name__} in an array computation"))


def items(it, v):
    ps = it.seq_parts(v)
    if ps is None or not all(isinstance(p, One) for p in ps):
        raise Unknown(Top("sequence unknown"))
    return [p.v for p in ps]


def conv_idx(it, i):
    if isinstance(i, SliceV):
        return slice(conv(it, i.lo), conv(it, i.hi), conv(it, i.step))
    if i is Ellipsis or isinstance(i, Ext) and i.path.endswith("Ellipsis"):
        return Ellipsis
    if isinstance(i, Ext) and i.path.endswith("newaxis"):
        return None
    if isinstance(i, Tup):
        return tuple(conv_idx(it, x) for x in items(it, i))
    return conv(it, i)


def wrap(it, r):
    if isinstance(r, np.ndarray):
        return ND(r) if r.ndim else wrap(it, r.item())
    if isinstance(r, Poly):
        c = r.const()
        if c is not None:
            return int(c) if c.denominator == 1 else float(c)
        return r
    if isinstance(r, (np.bool_, bool)):
        return bool(r)
    if isinstance(r, (np.integer, int)):
        return int(r)
    if isinstance(r, (np.floating, float)):
        return float(r)
    if isinstance(r, Fraction):
        return float(r)
    if isinstance(r, list):
        return LObj([One(wrap(it, x)) for x in r])
    if isinstance(r, tuple):
        return Tup([One(wrap(it, x)) for x in r])
    if r is None or isinstance(r, str):
        return r
    return it.top(f"result {type(r).__name__}")


OPS2 = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "@": None, "**": operator.pow,
       "==": operator.eq, "!=": operator.ne, "&": operator.and_, "|": operator.or_, "^": operator.xor}


def mm(a, b):
    return np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))


def binop(it, op, a, b):
    f = mm if op == "@" else OPS.get(op)
    if f is None:
        return it.top(f"operator {op} on arrays")

    def g():
        x, y = conv(it, a), conv(it, b)
        if isinstance(x, (str, list, tuple)) or isinstance(y, (str,)) or x is None or y is None:
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                raise TypeError("unsupported operand")
        if isinstance(x, (list, tuple)):
            x = np.array(x, dtype=object)
        if isinstance(y, (list, tuple)):
            y = np.array(y, dtype=object)
        if isinstance(x, np.ndarray) and isinstance(y, Poly):
            y = box(y)
        if isinstance(y, np.ndarray) and isinstance(x, Poly):
            x = box(x)
        return wrap(it, f(x, y))
    return guard(it, g)


def box(p):
    a = np.empty((), dtype=object)
    a[()] = p
    return a


def cov(m, *a, **k):
    """np.cov by its definition"""
    x = np.asarray(m, dtype=object)
    if a or set(k) - {"bias", "rowvar", "ddof"}:
        raise Unknown(Top("np.cov options"))
    if x.ndim == 1:
        x = x[None, :]
    if not k.get("rowvar", True):
        x = x.T
    n = x.shape[1]
    dd = k.get("ddof")
    if dd is None:
        dd = 0 if k.get("bias", False) else 1
    x = x - (x.sum(axis=1) * Fraction(1, n))[:, None]
    r = mm(x, x.T) * Fraction(1, n - dd)
    return r if r.shape != (1, 1) else r[0, 0]


def average(x, axis=None, weights=None):
    x = np.asarray(x, dtype=object)
    if weights is None:
        return mean(x, axis)
    w = np.asarray(weights, dtype=object)
    if axis is None:
        return (x * w).sum() / w.sum()
    sh = [1] * x.ndim
    sh[axis] = w.shape[0]
    return (x * w.reshape(sh)).sum(axis=axis) / w.sum()


def mean(x, axis=None, keepdims=False):
    x = np.asarray(x, dtype=object)
    n = x.size if axis is None else x.shape[axis]
    return x.sum(axis=axis, keepdims=keepdims) * Fraction(1, n)


def sqrt(x):
    if isinstance(x, np.ndarray):
        return np.array([poly(v).sqrt() for v in x.ravel()] + [None], dtype=object)[:-1].reshape(x.shape)
    return poly(x).sqrt()


def array(x, dtype=None, copy=True, ndmin=0, order=None):
    return np.array(x, dtype=object, ndmin=ndmin)


def asarray(x, dtype=None):
    return np.asarray(x, dtype=object)


def filled(v):
    def f(shape, dtype=None, order=None):
        return np.full(shape, v, dtype=object)
    return f


def full(shape, v, dtype=None):
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a


def eye(n, m=None, k=0, dtype=None):
    return np.eye(n, m, k).astype(int).astype(object)


def like(v):
    def f(x, dtype=None):
        return np.full(np.shape(x), v, dtype=object)
    return f


def einsum(spec, *xs, **k):
    """explicit summation"""
    if not isinstance(spec, str) or "." in spec or any(n != "optimize" for n in k):
        raise Unknown(Top("einsum"))
    spec = spec.replace(" ", "")
    ins, arrow, out = spec.partition("->")
    ins = ins.split(",")
    if not arrow:
        every = "".join(ins)
        out = "".join(sorted(c for c in set(every) if every.count(c) == 1))
    xs = [np.asarray(x, dtype=object) for x in xs]
    if len(ins) != len(xs) or any(len(i) != x.ndim for i, x in zip(ins, xs)):
        raise ValueError("einsum: operands do not fit the subscripts")
    size = {}
    for i, x in zip(ins, xs):
        for c, n in zip(i, x.shape):
            if size.setdefault(c, n) != n and 1 not in (size[c], n):
                raise ValueError("einsum: dimensions do not fit")
            size[c] = max(size[c], n)
    if any(c not in size for c in out):
        raise ValueError("einsum: unknown output subscript")
    rest = [c for c in size if c not in out]
    r = np.empty([size[c] for c in out], dtype=object)
    for i in np.ndindex(*r.shape):
        at = dict(zip(out, i))
        t = poly(0)
        for j in np.ndindex(*[size[c] for c in rest]):
            at.update(zip(rest, j))
            v = poly(1)
            for q, x in zip(ins, xs):
                v = v * x[tuple(at[c] if x.shape[n] > 1 else 0 for n, c in enumerate(q))]
            t = t + v
        r[i] = t
    return r if r.ndim else r.item()


def power(x, y):
    return x ** y


def shape(x):
    return np.shape(x)


def block(x):
    return np.block([[np.asarray(b, dtype=object) for b in r] if isinstance(r, list) else np.asarray(r, dtype=object) for r in x])


def elementwise(name, real):
    inverse = {"exp": "log", "log": "exp"}.get(name)

    def one(v):
        if isinstance(v, (float, np.floating)) and (v != v or abs(v) == float("inf")):
            try:
                return real(float(v))
            except (ValueError, OverflowError):
                return float("nan")
        v = poly(v)
        if v is NotImplemented:
            raise TypeError(f"{name} of something that is not a number")
        if len(v.t) == 1:                         # exp(log(x)) and log(exp(x))
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and kind_of(m[0][0])[0] == inverse:
                return Poly({q: Fraction(w) for q, w in kind_of(m[0][0])[1]})
        c = v.const()
        if c == 0 and name == "log":
            return float("-inf")
        if c is not None:
            try:
                r = real(float(c))
                if r == r and abs(r) != float("inf"):
                    return poly(r)
            except (ValueError, OverflowError):
                pass
        return Poly({((ATOM[0](name, v.key()), 1),): Fraction(1)})

    def f(x, *a, **k):
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = one(x[i])
            return out
        return one(x)
    return f


def square(x):
    x = np.asarray(x, dtype=object)
    if x.ndim != 2 or x.shape[0] != x.shape[1]:
        raise ValueError("square matrix expected")
    return x


def inv(x):
    x = square(x)
    if x.shape[0] == 1:
        r = np.empty((1, 1), dtype=object)
        r[0, 0] = poly(x[0, 0]).inv()
        return r
    k = tuple(poly(v).key() for v in x.ravel())
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = Poly({((ATOM[0]("inverse", k, i), 1),): Fraction(1)})
    return out


def det(x):
    x = square(x)
    if x.shape[0] == 0:
        return poly(1)
    if x.shape[0] == 1:
        return poly(x[0, 0])
    return sum(((-1) ** j * poly(x[0, j]) * det(np.delete(x[1:], j, 1)) for j in range(x.shape[0])), poly(0))


DIRECT = ["concatenate", "vstack", "hstack", "column_stack", "stack", "tile", "repeat", "expand_dims", "squeeze", "ravel", "reshape", "transpose",
          "diag", "trace", "sum", "prod", "cumsum", "outer", "delete", "append", "insert", "ix_", "atleast_2d", "atleast_1d", "swapaxes", "moveaxis", "split",
          "hsplit", "vsplit", "array_split", "flip", "roll", "take", "broadcast_to", "size", "ndim", "arange", "argsort", "row_stack", "rot90", "fliplr", "flipud",
          "tril", "triu", "diagonal", "kron", "inner", "tensordot", "dstack", "diff", "compress", "atleast_3d", "rollaxis", "resize"]
OWN = {"cov": cov, "mean": mean, "average": average, "sqrt": sqrt, "array": array, "asarray": asarray, "zeros": filled(0), "ones": filled(1),
       "empty": filled(0), "full": full, "eye": eye, "identity": eye, "zeros_like": like(0), "ones_like": like(1), "empty_like": like(0),
       "dot": mm, "matmul": mm, "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv,
       "true_divide": operator.truediv, "negative": operator.neg, "power": power, "shape": shape, "copy": lambda x: np.array(x, dtype=object), "block": block,
       "abs": abs, "linalg.multi_dot": lambda xs: __import__("functools").reduce(mm, xs), "asmatrix": None, "einsum": einsum,
       "log": elementwise("log", __import__("math").log), "exp": elementwise("exp", __import__("math").exp), "linalg.inv": inv, "linalg.det": det}


def install(it, **own):
    """own: extra library functions on converted arguments"""
    L = it.lib
    TRUTH[0] = None
    METHODS.clear()
    it.extreme = it.rounding = None

    def lib(name, f):
        old = L.get("numpy." + name)

        def g(it, a, k):
            return guard(it, lambda: wrap(it, f(*[conv(it, x) for x in a], **{n: conv(it, x) for n, x in k.items()})))
        L["numpy." + name] = g
    for n in DIRECT:
        if hasattr(np, n):
            lib(n, getattr(np, n))
    for n, f in OWN.items():
        if f is not None:
            lib(n, f)
    cmp_ = it.compare

    def compare(op, a, b):
        if op in ("<", "<=", ">", ">=") and (isinstance(a, Poly) or isinstance(b, Poly)):
            x, y = poly(a), poly(b)
            if x is NotImplemented or y is NotImplemented:
                return it.top("order")
            c = (x - y).const()
            if c is not None:
                return OPS2[op](c, 0)
            return T("cond", "order", op, (x - y).key())
        if op in ("<", "<=", ">", ">=") and (isinstance(a, ND) or isinstance(b, ND)):
            return it.top("order of arrays")
        return cmp_(op, a, b)
    it.compare = compare
    sq = L["numpy.sqrt"]
    for n in ("log", "exp"):
        L["math." + n] = L["numpy." + n]
    L["math.sqrt"] = sq
    for n, f in own.items():
        lib(n.replace("__", "."), f)
