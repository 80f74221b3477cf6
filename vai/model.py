"""Finite interpretations of terms.

Two terms with the same normal form are equal.  Terms with different normal forms are compared by evaluating both in
randomly chosen finite interpretations of their free symbols (random interpretation, Gulwani & Necula): they denote
different functions as soon as one interpretation separates them, and only then is a difference reported.
Symbols without a known meaning make the comparison undecided."""
import random
from fractions import Fraction
import numpy as np
from .terms import *
from .heap import *


class Undec(Exception):
    pass


class LA:
    """array with named dimensions: ('s', var) of size card, 'r'/'c' with variable-name coordinates"""

    def __init__(self, arr, dims=(), coords=None):
        self.arr, self.dims, self.coords = np.asarray(arr), tuple(dims), coords or {}
        assert self.arr.ndim == len(self.dims), (self.arr.shape, self.dims)


def align(xs):
    dims = []
    coords = {}
    for x in xs:
        for d in x.dims:
            if d not in dims:
                dims.append(d)
                coords[d] = x.coords[d]
    out = []
    for x in xs:
        a = x.arr
        cur = list(x.dims)
        for k, d in enumerate(cur):
            if x.coords[d] != coords[d]:
                if set(map(str, x.coords[d])) != set(map(str, coords[d])):
                    raise Undec("coordinates differ")
                a = np.take(a, [x.coords[d].index(c) for c in coords[d]], axis=k)
        order = [d for d in dims if d in cur]
        a = np.transpose(a, [cur.index(d) for d in order])
        shape = [a.shape[order.index(d)] if d in order else 1 for d in dims]
        out.append(a.reshape(shape))
    return dims, coords, out


class Model:
    def __init__(self, seed, leaves, atoms=None, same_orders=False, infs=False, names=None):
        self.rng = np.random.default_rng(seed)
        self.r = random.Random(seed)
        self.seed = seed
        self.leaves = leaves        # key -> spec
        self.sizes = {}
        self.cards = {}
        self.vals = {}
        self.orders = {}
        self.same_orders, self.infs = same_orders, infs
        self.fixed_sizes = atoms or {}
        self.cache = {}
        self.tainted = False
        self.memo = {}

    # -------------------------------------------------- symbols
    def vars(self, atom):
        k = str(atom)
        if k not in self.sizes:
            self.sizes[k] = self.fixed_sizes.get(k, self.r.choice([1, 2]))
        return [f"{k}{i}" for i in range(self.sizes[k])]

    def elements(self, dom, atom, guards=frozenset(), env=None, star=None):
        out = []
        for v in self.vars(atom):
            e = dict(env or {})
            ok = True
            for c, b in guards:
                g = [x for x in gens(c) if x.args[0] == dom and x.args[1] == atom and (star is None or x is star)]
                for x in g:
                    if x not in e or star is not None:
                        e[x] = v
                if self.cond(c, e) != b:
                    ok = False
                    break
            if ok:
                out.append(v)
        return out

    def card(self, v):
        if v not in self.cards:
            self.cards[v] = 2 if self.seed % 4 == 3 else self.r.choice([2, 3])
        return self.cards[v]

    def rank(self, order, v):
        k = "same" if self.same_orders else repr(order)
        if isinstance(order, str) and order == "sorted":
            return v
        if (k, v) not in self.orders:
            self.orders[(k, v)] = self.r.random()
        return self.orders[(k, v)]

    def seq(self, parts, env):
        """concrete list for label-key parts"""
        out = []
        for p in parts:
            if p[0] == "1":
                out.append(self.name(p[1], env))
            elif p[0] == "m":
                items = []
                for fam in p[2]:
                    dom, atom, guards, val = fam
                    star = G(dom, atom, "*")
                    for v in self.elements(dom, atom, guards, env, star):
                        e = dict(env)
                        e[star] = v
                        items.append((self.rank(p[1], v), self.name(val, e)))
                items.sort(key=lambda t: t[0])
                out += [x for _, x in items]
            else:
                raise Undec("sequence")
        return out

    def name(self, v, env):
        if isinstance(v, T):
            if v.op == "g":
                if v in env:
                    return env[v]
                w = self.vars(v.args[1])
                return w[0]
            x = self.ev(v, env)
            if isinstance(x, LA) and x.arr.ndim == 0:
                return float(x.arr)
            raise Undec("element")
        if isinstance(v, N):
            x = self.ev(v, env)
            if x.arr.ndim == 0:
                return float(x.arr)
            raise Undec("element")
        return v

    # -------------------------------------------------- conditions
    def cond(self, c, env):
        if isinstance(c, bool):
            return c
        if isinstance(c, N):
            return bool(self.scalar(c, env) != 0)
        op = c.op
        if op == "not":
            return not self.cond(c.args[0], env)
        if op == "and":
            return all(self.cond(a, env) for a in c.args)
        if op == "or":
            return any(self.cond(a, env) for a in c.args)
        if op == "cmp":
            x = self.scalar(c.args[1], env)
            if x != x:
                raise Undec("nan")
            if c.args[0] == "==" and abs(x) < 1e-12:
                return True
            return {"<": x < 0, "<=": x <= 0, "==": x == 0}[c.args[0]]
        if op == "seqeq":
            return self.seq(c.args[0], env) == self.seq(c.args[1], env)
        if op == "exists":
            for f in c.args[1]:
                star = G(f[0], f[1], "*")
                if self.elements(f[0], f[1], f[2], env, star):
                    return True
            return False
        if op == "allclose":
            x, y = self.ev(c.args[0], env), self.ev(c.args[1], env)
            _, _, (a, b) = align([x, y])
            rt, at = c.args[2], c.args[3]
            rt = 1e-5 if rt is None else rt
            at = 1e-8 if at is None else at
            rt = rt if isinstance(rt, (int, float)) else self.scalar(rt, env)
            at = at if isinstance(at, (int, float)) else self.scalar(at, env)
            return bool(np.allclose(a, b, rtol=rt, atol=at))
        if op == "truth":
            x = c.args[0]
            if isinstance(x, N):
                return bool(self.scalar(x, env) != 0)
            if isinstance(x, T) and x.op in ("any", "notall"):
                a = self.ev(x.args[0], env).arr
                return bool(np.any(a)) if x.op == "any" else not bool(np.all(a))
            if isinstance(x, T) and x.op in ("ew", "ew1", "where", "at"):
                v = self.ev(x, env)
                if v.arr.ndim == 0 or v.arr.size == 1:
                    return bool(v.arr.reshape(-1)[0] != 0)
            raise Undec("truth")
        if op == "singular":
            return False
        if op == "inset" or op == "in":
            raise Undec("membership")
        f = self.leaves.get(c)
        if f is not None:
            return f(self, env)
        raise Undec("condition " + op)

    def scalar(self, n, env):
        x = self.ev(n, env)
        if x.arr.ndim:
            if x.arr.size == 1:
                return x.arr.reshape(-1)[0]
            raise Undec("array in a scalar position")
        return x.arr[()]

    # -------------------------------------------------- values
    def ev(self, v, env=None):
        env = env or {}
        if isinstance(v, (bool, int, float, Fraction)):
            return LA(np.float64(v))
        if isinstance(v, N):
            return self.poly(v, env)
        if isinstance(v, T):
            ge = gens(v)
            key = (v, tuple(sorted(((g.uid, env[g]) for g in ge if g in env))))
            if key in self.cache:
                return self.cache[key]
            f = getattr(self, "m_" + v.op, None)
            if f is None:
                f = self.leaves.get(("op", v.op))
                if f is None:
                    raise Undec("operator " + v.op)
                r = f(self, v, env)
            else:
                with np.errstate(all="ignore"):
                    r = f(v, env)
            self.cache[key] = r
            return r
        raise Undec(f"value {type(v).__name__}")

    def poly(self, n, env):
        tot = LA(np.float64(0))
        first = True
        high = False
        with np.errstate(all="ignore"):
            for (m, w), c in sorted(n.t.items(), key=lambda kv: repr(kv[0])):
                if w:
                    raise Undec("word")
                x = LA(np.float64(float(c)))
                deg = sum(abs(p) for _, p in m)
                high |= deg > 1
                for t, p in m:
                    y = self.ev(t, env)
                    dims, co, (a, b) = align([x, y])
                    if p == 1:
                        z = a * b
                    else:
                        z = a * (b ** float(p))
                    x = LA(z, dims, co)
                if first:
                    tot, first = x, False
                else:
                    dims, co, (a, b) = align([tot, x])
                    tot = LA(a + b, dims, co)
        if high and np.isnan(tot.arr).any():
            self.tainted = True
        return tot

    def gens_of(self, v):
        return gens(v)

    def m_leaf(self, t, env):
        spec = self.leaves.get(t)
        if spec is None:
            spec = self.leaves.get(t.args[:2]) or self.leaves.get(t.args[:1])
        if spec is None:
            raise Undec(f"leaf {t}")
        gs = [env.get(g) for g in gens(t)] if gens(t) else []
        return spec(self, t, tuple(sorted((g.uid, env[g]) for g in gens(t) if g in env)))

    def m_scal(self, t, env):
        if t.args[0] == "pi":
            return LA(np.pi)
        if t.args[0] == "nan":
            return LA(np.nan)
        if t.args[0] == "e":
            return LA(np.e)
        spec = self.leaves.get(t.args[:2])
        if spec is not None:
            return spec(self, t, tuple(sorted((g.uid, env[g]) for g in gens(t) if g in env)))
        key = (t, tuple(sorted((g.uid, env[g]) for g in gens(t) if g in env)))
        if key not in self.memo:
            self.memo[key] = float(self.rng.uniform(0.3, 2.0))
        return LA(np.float64(self.memo[key]))

    def m_g(self, t, env):
        raise Undec("variable name as a number")

    def m_inf(self, t, env):
        return LA(np.float64(np.inf * t.args[0]))

    def var_of(self, g, env):
        if isinstance(g, T) and g.op == "g":
            if g in env:
                return env[g]
            return self.pick(g)
        if isinstance(g, str):
            return g
        raise Undec("label")

    def pick(self, g):
        k = ("pick", g)
        if k not in self.memo:
            vs = self.vars(g.args[1])
            self.memo[k] = self.r.choice(vs)
        return self.memo[k]

    def m_card(self, t, env):
        return LA(np.float64(self.card(self.var_of(t.args[0], env))))

    def m_val(self, t, env):
        """observed value of a variable"""
        v = self.var_of(t.args[0], env)
        k = t.args[1:]
        if (v, k) not in self.vals:
            self.vals[(v, k)] = self.r.randrange(self.card(v))
        return LA(np.float64(self.vals[(v, k)]))

    def m_count(self, t, env):
        dom, atom, guards = t.args
        return LA(np.float64(len(self.elements(dom, atom, guards, env, G(dom, atom, "*")))))

    def fam_iter(self, dom, atom, guards, body, env):
        stars = {g for g in gens(body) | gens(guards) if g.args[0] == dom and g.args[1] == atom and
                 g.args[2] in ("*", ("b", "s"))}
        for v in self.elements(dom, atom, frozenset((subst(c, {s: G(dom, atom, "*") for s in stars}), b)
                                                    for c, b in guards), env, G(dom, atom, "*")):
            e = dict(env)
            for s in stars:
                e[s] = v
            yield e

    def m_prod(self, t, env):
        dom, atom, guards, body = t.args
        r = LA(np.float64(1))
        for e in self.fam_iter(dom, atom, guards, body, env):
            dims, co, (a, b) = align([r, self.ev(body, e)])
            r = LA(a * b, dims, co)
        return r

    def m_sum(self, t, env):
        dom, atom, guards, body = t.args
        r = LA(np.float64(0))
        for e in self.fam_iter(dom, atom, guards, body, env):
            dims, co, (a, b) = align([r, self.ev(body, e)])
            r = LA(a + b, dims, co)
        return r

    # elementwise
    def m_ew(self, t, env):
        op, x, y = t.args
        dims, co, (a, b) = align([self.ev(x, env), self.ev(y, env)])
        f = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
             ">=": lambda: a >= b, "&": lambda: (a != 0) & (b != 0), "|": lambda: (a != 0) | (b != 0),
             "*": lambda: a * b, "/": lambda: a / b, "+": lambda: a + b, "-": lambda: a - b,
             "**": lambda: a ** b, "max": lambda: np.maximum(a, b), "min": lambda: np.minimum(a, b),
             "maximum": lambda: np.maximum(a, b), "minimum": lambda: np.minimum(a, b),
             "logaddexp": lambda: np.logaddexp(a, b)}.get(op)
        if f is None:
            raise Undec("elementwise " + str(op))
        return LA(f() * 1.0, dims, co)

    def m_ew1(self, t, env):
        op, x = t.args[0], t.args[1]
        a = self.ev(x, env)
        f = {"exp": np.exp, "log": np.log, "abs": np.abs, "sign": np.sign, "isnan": np.isnan, "isinf": np.isinf,
             "sqrt": np.sqrt, "not": lambda z: z == 0, "isneginf": np.isneginf, "isfinite": np.isfinite,
             "log1p": np.log1p, "expm1": np.expm1, "neg": np.negative, "~": lambda z: z == 0,
             "square": np.square, "invert": lambda z: z == 0}.get(op)
        if f is None:
            raise Undec("function " + str(op))
        return LA(f(a.arr) * 1.0, a.dims, a.coords)

    def m_sqrt(self, t, env):
        a = self.ev(t.args[0], env)
        return LA(np.sqrt(a.arr), a.dims, a.coords)

    def m_where(self, t, env):
        dims, co, (c, a, b) = align([self.ev(x, env) for x in t.args])
        return LA(np.where(c != 0, a, b), dims, co)

    # state axes
    def state_dims(self, labs, env):
        out = []
        for l in labs:
            if l[0] == "one":
                g = l[1]
                out.append(("s", self.var_of(g, env)))
            elif l[0] == "dup":
                raise Undec("repeated axes")
            else:
                if len(l) == 2:
                    l = ("V",) + tuple(l)
                for v in self.elements(l[0], l[1], l[2], env, G(l[0], l[1], "*")):
                    out.append(("s", v))
        return out

    def expand(self, x, dims):
        for d in dims:
            if d not in x.dims:
                n = self.card(d[1])
                x = LA(np.repeat(x.arr[..., None], n, axis=-1), x.dims + (d,), {**x.coords, d: list(range(n))})
        return x

    RED = None

    def red(self, r, x, dims):
        ax = tuple(x.dims.index(d) for d in dims)
        keep = tuple(d for d in x.dims if d not in dims)
        co = {d: x.coords[d] for d in keep}
        a = x.arr
        if not ax:
            return x
        if r == "lse":
            m = np.max(a, axis=ax, keepdims=True)
            m0 = np.where(np.isfinite(m), m, 0)
            z = np.log(np.sum(np.exp(a - m0), axis=ax)) + np.squeeze(m0, axis=ax)
        else:
            z = {"sum": np.sum, "max": np.max, "min": np.min, "mean": np.mean, "prod": np.prod}[r](a, axis=ax)
        return LA(z, keep, co)

    def m_red(self, t, env):
        r, labs, body = t.args
        x = self.ev(body, env)
        ds = self.state_dims(labs, env)
        return self.red(r, self.expand(x, ds), ds)

    def m_redall(self, t, env):
        r, body, axset = t.args
        x = self.ev(body, env)
        if any(l[0] == "one" and not (isinstance(l[1], T)) for l in axset):
            if any(d in ("r", "c") for d in x.dims) or not x.dims:
                # vector / matrix axes
                if len([l for l in axset]) == len(x.dims) and all(d in ("r", "c") for d in x.dims):
                    return self.red(r, x, x.dims)
            raise Undec("reduction over opaque axes")
        ds = self.state_dims(axset, env)
        x = self.expand(x, ds)
        if set(x.dims) != set(ds):
            raise Undec("reduction axes")
        return self.red(r, x, ds)

    def m_sel(self, t, env):
        body, sels = t.args
        x = self.ev(body, env)
        for s in sels:
            if len(s) == 2:
                lab, val = s
                items = [(self.var_of(lab, env), self.scalar(val, env))]
            else:
                dom, atom, guards, lab, val = s
                star = G(dom, atom, "*")
                items = []
                for v in self.elements(dom, atom, guards, env, star):
                    e = dict(env)
                    e[star] = v
                    items.append((self.var_of(lab, e), self.scalar(val, e)))
            for v, k in items:
                d = ("s", v)
                if d not in x.dims:
                    continue
                i = x.dims.index(d)
                x = LA(np.take(x.arr, int(k), axis=i), x.dims[:i] + x.dims[i + 1:],
                       {q: c for q, c in x.coords.items() if q != d})
        return x

    # vector axes
    def coords(self, rs, env):
        out = []
        if not isinstance(rs, frozenset):
            raise Undec("opaque axis")
        for l in rs:
            if l[0] == "one":
                g = l[1]
                out.append(self.var_of(g, env))
            else:
                out += self.elements(l[0], l[1], l[2], env, G(l[0], l[1], "*"))
        return sorted(out)

    def axis_to(self, x, d, cs):
        """restrict/expand dimension d to coordinates cs"""
        if d not in x.dims:
            return LA(np.repeat(x.arr[..., None], len(cs), axis=-1), x.dims + (d,), {**x.coords, d: list(cs)})
        i = x.dims.index(d)
        if any(c not in x.coords[d] for c in cs):
            raise Undec("coordinates outside the axis")
        return LA(np.take(x.arr, [x.coords[d].index(c) for c in cs], axis=i), x.dims, {**x.coords, d: list(cs)})

    def m_tr(self, t, env):
        x = self.ev(t.args[0], env)
        sw = {"r": "c", "c": "r"}
        return LA(x.arr, tuple(sw.get(d, d) for d in x.dims), {sw.get(d, d): c for d, c in x.coords.items()})

    def m_mm(self, t, env):
        x, y, rs = self.ev(t.args[0], env), self.ev(t.args[1], env), t.args[2]
        cs = self.coords(rs, env)
        x = self.axis_to(x, "c", cs)
        y = self.axis_to(y, "r", cs)
        if "r" in x.dims and "c" in y.dims or True:
            xa = np.moveaxis(x.arr, x.dims.index("c"), -1)
            xd = [d for d in x.dims if d != "c"]
            ya = np.moveaxis(y.arr, y.dims.index("r"), 0)
            yd = [d for d in y.dims if d != "r"]
            if set(xd) & set(yd):
                raise Undec("matrix product dims")
            z = np.tensordot(xa, ya, axes=([-1], [0]))
            co = {d: x.coords[d] for d in xd}
            co.update({d: y.coords[d] for d in yd})
            return LA(z, tuple(xd + yd), co)

    def square(self, x):
        if set(x.dims) != {"r", "c"} or sorted(x.coords["r"]) != sorted(x.coords["c"]):
            if x.arr.ndim == 0:
                return None
            raise Undec("square matrix expected")
        cs = sorted(x.coords["r"])
        x = self.axis_to(self.axis_to(x, "r", cs), "c", cs)
        a = x.arr if x.dims == ("r", "c") else x.arr.T
        return a, cs

    def m_inv(self, t, env):
        x = self.ev(t.args[0], env)
        if x.arr.ndim == 0:
            return LA(1.0 / x.arr)
        if set(x.dims) == {"r"} or set(x.dims) == {"c"}:
            if x.arr.size == 1:
                return LA(1.0 / x.arr, x.dims, x.coords)
            raise Undec("inverse of a vector")
        if all(d[0] == "s" for d in x.dims):
            return LA(1.0 / x.arr, x.dims, x.coords)
        a, cs = self.square(x)
        try:
            return LA(np.linalg.inv(a), ("r", "c"), {"r": cs, "c": cs})
        except np.linalg.LinAlgError:
            raise Undec("singular interpretation")

    def m_det(self, t, env):
        x = self.ev(t.args[0], env)
        cs = self.coords(t.args[1], env)
        if x.arr.ndim == 0:
            return LA(x.arr) if len(cs) == 1 else LA(np.float64(0 if len(cs) else 1))
        a, _ = self.square(x)
        return LA(np.linalg.det(a))

    def m_trace(self, t, env):
        x = self.ev(t.args[0], env)
        if x.arr.ndim == 0:
            return LA(x.arr * len(self.coords(t.args[1], env)))
        a, _ = self.square(x)
        return LA(np.trace(a))

    def m_eigvals(self, t, env):
        x = self.ev(t.args[0], env)
        if x.arr.ndim == 0:
            if float(x.arr) == 0:
                return LA(np.zeros(()))
            raise Undec("eigenvalues of a constant")
        a, cs = self.square(x)
        return LA(np.linalg.eigvals(a).real, ("e",), {"e": list(range(len(cs)))})

    def m_eye(self, t, env):
        cs = self.coords(t.args[0], env)
        return LA(np.eye(len(cs)), ("r", "c"), {"r": cs, "c": cs})

    def m_at(self, t, env):
        x, row, col = self.ev(t.args[0], env), t.args[1], t.args[2]
        for lab, d in ((row, "r"), (col, "c")):
            if lab is None or d not in x.dims:
                continue
            if isinstance(lab, tuple):
                raise Undec("opaque index")
            v = self.var_of(lab, env)
            i = x.dims.index(d)
            if v not in x.coords[d]:
                raise Undec("index outside the axis")
            x = LA(np.take(x.arr, x.coords[d].index(v), axis=i), x.dims[:i] + x.dims[i + 1:],
                   {q: c for q, c in x.coords.items() if q != d})
        return x

    def m_sub(self, t, env):
        x, s0, s1 = self.ev(t.args[0], env), t.args[1], t.args[2]
        for s, d in ((s0, "r"), (s1, "c")):
            if s is None or d not in x.dims:
                continue
            x = self.axis_to(x, d, self.coords(s, env))
        return x

    def m_fam(self, t, env):
        """base array overwritten by families of entries"""
        base = self.ev(t.args[0], env)
        cells = {}
        rank = 0
        for _, row, binders, val in t.args[1]:
            envs = [dict(env)]
            for bg, gd in binders:
                nxt = []
                for e in envs:
                    for v in self.vars(bg.args[1]):
                        e2 = dict(e)
                        e2[bg] = v
                        nxt.append(e2)
                envs = nxt
            for e in envs:
                if not all(self.cond(c, e) == b for bg, gd in binders for c, b in gd):
                    continue
                key = tuple(self.var_of(i, e) if not isinstance(i, int) else "u" for i in row)
                rank = len(key)
                x = self.ev(val, e)
                if x.arr.ndim:
                    if x.arr.size != 1:
                        raise Undec("array entry")
                    x = LA(x.arr.reshape(()))
                cells[key] = float(x.arr)
        dims, names = [], []
        for k in range(rank):
            cs = sorted({key[k] for key in cells})
            if cs == ["u"]:
                continue
            dims.append(("r", "c")[len(dims)] if rank > 1 or True else "r")
            names.append((k, cs))
        if len(dims) == 1 and rank == 2 and names[0][0] == 1:
            dims = ["c"]
        if base.dims:
            b = base
            for d, (k, cs) in zip(dims, names):
                if d not in b.dims or set(b.coords[d]) - set(cs):
                    # base larger than the stored block
                    pass
            co = {}
            for d, (k, cs) in zip(dims, names):
                co[d] = sorted(set(cs) | set(b.coords.get(d, [])))
            b = self.axis_to_all(b, dims, co)
        else:
            co = {d: cs for d, (k, cs) in zip(dims, names)}
            b = LA(np.full([len(co[d]) for d in dims], float(base.arr)), tuple(dims), co)
        a = np.array(np.transpose(b.arr, [b.dims.index(d) for d in dims]))
        for key, v in cells.items():
            ix = tuple(co[d].index(key[k]) for d, (k, cs) in zip(dims, names))
            a[ix] = v
        return LA(a, tuple(dims), co)

    def axis_to_all(self, b, dims, co):
        for d in dims:
            if d in b.dims and set(b.coords[d]) != set(co[d]):
                raise Undec("stored block larger than the array")
            b = self.axis_to(b, d, co[d])
        return b

    def m_put(self, t, env):
        base, val = self.ev(t.args[0], env), self.ev(t.args[3], env)
        if not base.dims:
            raise Undec("block store into a constant")
        arr = np.array(base.arr)
        ix, vd = [], []
        for d in base.dims:
            s = t.args[1] if d == "r" else t.args[2]
            cs = list(base.coords[d]) if s is None else self.coords(s, env)
            if any(c not in base.coords[d] for c in cs):
                raise Undec("block outside the array")
            ix.append([base.coords[d].index(c) for c in cs])
            vd.append((d, cs))
        if val.dims:
            for d, cs in vd:
                val = self.axis_to(val, d, cs)
            v = np.transpose(val.arr, [val.dims.index(d) for d, _ in vd])
        else:
            v = val.arr
        arr[np.ix_(*ix)] = v
        return LA(arr, base.dims, base.coords)

    def m_cat(self, t, env):
        axis, sets, bodies = t.args
        d = ("r", "c")[axis]
        o = ("c", "r")[axis]
        xs = []
        oc = None
        for s, b in zip(sets, bodies):
            x = self.ev(b, env)
            if o in x.dims:
                oc = x.coords[o]
            xs.append((x, self.coords(s, env)))
        out, cs = [], []
        for x, c in xs:
            x = self.axis_to(x, d, c)
            if oc is not None:
                x = self.axis_to(x, o, oc)
            dims = (d,) + ((o,) if oc is not None else ())
            if set(x.dims) != set(dims):
                raise Undec("concatenated dims")
            out.append(np.transpose(x.arr, [x.dims.index(q) for q in dims]))
            cs += list(c)
        co = {d: cs}
        if oc is not None:
            co[o] = oc
        return LA(np.concatenate(out, axis=0), dims, co)

    def m_allclose(self, t, env):
        return LA(np.float64(1.0 if self.cond(t, env) else 0.0))

    def m_cmp(self, t, env):
        return LA(np.float64(1.0 if self.cond(t, env) else 0.0))

    m_not = m_and = m_or = m_cmp


# ------------------------------------------------------------------------------- leaves

def table(atoms, scale=1.0):
    """a table over the state axes of all variables of the atoms"""
    def f(m, t, key):
        k = ("leafval", t, key)
        if k not in m.memo:
            vs = [v for a in atoms for v in m.vars(a)]
            dims = tuple(("s", v) for v in vs)
            shape = [m.card(v) for v in vs]
            arr = m.rng.normal(size=shape) * scale
            if m.infs:
                mask = m.rng.random(size=shape) < 0.4
                arr = np.where(mask, -np.inf, arr)
            m.memo[k] = LA(arr, dims, {("s", v): list(range(m.card(v))) for v in vs})
        return m.memo[k]
    return f


def near(key, atoms):
    """a table close to another one (some entries equal, some within usual tolerances, some not)"""
    base = table(atoms)

    def f(m, t, k):
        kk = ("leafval", t, k)
        if kk not in m.memo:
            b = m.leaves[key](m, T(t.op, *(key + t.args[2:])), ())
            # one symbol (chosen per interpretation) is perturbed, sometimes all
            if "perturb" not in m.memo:
                ks = sorted((str(x) for x in m.leaves if getattr(m.leaves[x], "is_near", False)))
                m.memo["perturb"] = m.r.choice(ks + ["*"]), m.r.choice([0.0, 0.02, 0.1, 0.3, 1.0])
            who, eps = m.memo["perturb"]
            if who != "*" and who != str(t.args[:2]):
                eps = 0.0
            dev = m.rng.uniform(0.5, 1, size=b.arr.shape) * m.rng.choice([-1, 1])
            if b.dims == ("r", "c"):
                dev = dev @ dev.T if eps else dev
            arr = b.arr + eps * dev
            m.memo[kk] = LA(arr, b.dims, b.coords)
        return m.memo[kk]
    f.is_near = True
    return f


def spd(atoms, one=()):
    def f(m, t, key):
        k = ("leafval", t, key)
        if k not in m.memo:
            vs = sorted([v for a in atoms for v in m.vars(a)])
            n = len(vs)
            a = m.rng.normal(size=(n, n))
            m.memo[k] = LA(a @ a.T + 2 * np.eye(n), ("r", "c"), {"r": vs, "c": vs})
        return m.memo[k]
    return f


def vec(atoms):
    def f(m, t, key):
        k = ("leafval", t, key)
        if k not in m.memo:
            vs = sorted([v for a in atoms for v in m.vars(a)])
            m.memo[k] = LA(m.rng.normal(size=len(vs)) * m.r.choice([1, 1, 5]), ("r",), {"r": vs})
        return m.memo[k]
    return f


def mat(rows, cols):
    def f(m, t, key):
        k = ("leafval", t, key)
        if k not in m.memo:
            r = sorted([v for a in rows for v in m.vars(a)])
            c = sorted([v for a in cols for v in m.vars(a)])
            m.memo[k] = LA(m.rng.normal(size=(len(r), len(c))), ("r", "c"), {"r": r, "c": c})
        return m.memo[k]
    return f


def scal(lo=0.3, hi=2.0):
    def f(m, t, key):
        k = ("leafval", t, key)
        if k not in m.memo:
            m.memo[k] = LA(np.float64(m.rng.uniform(lo, hi)))
        return m.memo[k]
    return f


# ------------------------------------------------------------------------------- comparison

EQ, NE, UNK, SKIP = "equal", "different", "undecided", "skip"


def models(leaves, n=6, infs=False, sizes=None):
    for i in range(n):
        yield Model(1000 + i, leaves, atoms=sizes, same_orders=(i % 3 == 2), infs=infs and i % 2 == 1)


def facts_hold(m, facts):
    """True / False / None (not decidable in this interpretation)"""
    unk = False
    for c, b in facts:
        if isinstance(c, T) and c.op in ("isnone", "witness", "wit", "before"):
            unk = True
            continue
        try:
            if m.cond(c, {}) != b:
                return False
        except Undec:
            unk = True
    return None if unk else True


def closeby(a, b):
    """elementwise: equal, or finite and near (an infinity is near nothing else)"""
    return (a == b) | (np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= 1e-7 * (1 + np.abs(a) + np.abs(b))))


def close(a, b, tainted):
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        same = closeby(a, b) | (np.isnan(a) & np.isnan(b))
    if tainted:
        same |= np.isnan(a) | np.isnan(b)
    return bool(np.all(same))


def compare(x, y, leaves, facts=(), infs=False, sizes=None, n=8):
    """are two term values equal wherever the path facts hold?  -> (verdict, detail)"""
    nx, ny = num(x), num(y)
    if nx is not None and ny is not None and nx == ny:
        return EQ, ""
    if nx is None or ny is None:
        return UNK, "not a number"
    ok = 0
    why = ""
    allfalse = True
    for m in models(leaves, n, infs, sizes):
        try:
            h = facts_hold(m, facts)
            if h is not True:
                if h is None:
                    allfalse = False
                    why = why or "path condition not decidable"
                continue
            allfalse = False
            a, b = m.ev(nx), m.ev(ny)
            ds = [d for d in a.dims] + [d for d in b.dims if d not in a.dims]
            sd = [d for d in ds if d[0] == "s"]
            a, b = m.expand(a, sd), m.expand(b, sd)
            for d in ("r", "c"):
                if (d in a.dims) != (d in b.dims):
                    src = a if d in a.dims else b
                    if d in a.dims:
                        b = m.axis_to(b, d, a.coords[d])
                    else:
                        a = m.axis_to(a, d, b.coords[d])
                elif d in a.dims and set(a.coords[d]) != set(b.coords[d]):
                    return NE, f"different index sets {a.coords[d]} / {b.coords[d]}"
            dims, co, (p, q) = align([a, b])
            ok += 1
            if not close(p, q, m.tainted):
                i = None
                with np.errstate(all="ignore"):
                    bad = np.argwhere(~closeby(p, q))
                if len(bad):
                    i = tuple(bad[0])
                return NE, (f"e.g. {p[i] if i is not None else p:.6g} instead of {q[i] if i is not None else q:.6g}"
                            if i is not None else "different values")
        except Undec as e:
            why = str(e)
        except (KeyError, ValueError, IndexError, np.linalg.LinAlgError, AssertionError) as e:
            why = f"{type(e).__name__} {e}"
    if allfalse:
        return SKIP, "no sampled interpretation satisfies the path condition"
    return (EQ, "") if ok else (UNK, why)


def feasible(facts, leaves, infs=False, sizes=None, n=12):
    """is there an interpretation in which all facts are known to hold?"""
    unk = False
    for m in models(leaves, n, infs, sizes):
        try:
            h = facts_hold(m, facts)
        except (KeyError, ValueError, IndexError) as e:
            h = None
        if h:
            return True
        if h is None:
            unk = True
    return None if unk else False
