"""Labelled-function algebra: what factors denote at the level of message passing.

Values are immutable terms: ("f", name, scope), ("prod", {(term, exponent)}), ("marg", term, kept), ("red", term, {(var, value)}),
("norm", term), ("sum", {(term, count)}). They are normalised on construction; equal normal forms are equal functions. Terms with
different normal forms are compared by interpreting every symbol as a random positive table."""
import numpy as np

ONE = ("prod", frozenset())


def f(name, scope):
    return ("f", name, frozenset(scope))


def scope(t):
    k = t[0]
    if k == "f":
        return t[2]
    if k == "prod":
        s = frozenset()
        for x, _ in t[1]:
            s |= scope(x)
        return s
    if k == "sum":
        s = frozenset()
        for x, _ in t[1]:
            s |= scope(x)
        return s
    if k == "marg":
        return t[2]
    if k == "red":
        return scope(t[1]) - {v for v, _ in t[2]}
    if k == "on":
        return t[2]
    return scope(t[1])


def prod(*pairs):
    acc = {}
    todo = list(pairs)
    while todo:
        t, c = todo.pop()
        if t[0] == "prod":
            todo += [(x, c * e) for x, e in t[1]]
        else:
            acc[t] = acc.get(t, 0) + c
    items = frozenset((t, c) for t, c in acc.items() if c)
    if len(items) == 1:
        (t, c), = items
        if c == 1:
            return t
    return ("prod", items)


def mul(a, b):
    return prod((a, 1), (b, 1))


def div(a, b):
    return prod((a, 1), (b, -1))


def add(*ts):
    acc = {}
    todo = [(t, 1) for t in ts]
    while todo:
        t, c = todo.pop()
        if t[0] == "sum":
            todo += [(x, c * e) for x, e in t[1]]
        else:
            acc[t] = acc.get(t, 0) + c
    items = frozenset((t, c) for t, c in acc.items() if c)
    if len(items) == 1:
        (t, c), = items
        if c == 1:
            return t
    return ("sum", items)


def marg(t, kept):
    kept = frozenset(kept) & scope(t)
    if kept == scope(t):
        return t
    if t[0] == "marg":
        return marg(t[1], kept)
    if t[0] == "prod":
        out = [(x, c) for x, c in t[1] if scope(x) <= kept]
        if out:
            rest = prod(*[(x, c) for x, c in t[1] if not scope(x) <= kept])
            k2 = kept & scope(rest)
            inner = ("marg", rest, k2) if k2 != scope(rest) else rest
            return prod(*out, (inner, 1))
    return ("marg", t, kept)


def red(t, ev):
    ev = frozenset((v, x) for v, x in ev if v in scope(t))
    if not ev:
        return t
    if t[0] == "prod":
        return prod(*[(red(x, ev), c) for x, c in t[1]])
    if t[0] == "red":
        return red(t[1], t[2] | ev)
    return ("red", t, ev)


def norm(t):
    return t if t[0] == "norm" else ("norm", t)


class Model:
    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.memo = {}

    def get(self, k, f):
        if k not in self.memo:
            self.memo[k] = f()
        return self.memo[k]

    def card(self, v):
        return self.get(("card", v), lambda: int(self.rng.integers(2, 4)))

    def value(self, v, x):
        return self.get(("val", v, x), lambda: int(self.rng.integers(0, self.card(v))))

    def ev(self, t):
        """(sorted scope, table)"""
        k = t[0]
        if k == "f":
            vs = sorted(t[2], key=str)
            return vs, self.get(t, lambda: self.rng.uniform(0.2, 2.0, [self.card(v) for v in vs]).astype(np.longdouble))
        if k == "prod":
            vs = sorted(scope(t), key=str)
            out = np.ones([self.card(v) for v in vs], np.longdouble)
            for x, c in sorted(t[1], key=repr):
                xs, tab = self.ev(x)
                out = out * self.fit(xs, tab, vs) ** c
            return vs, out
        if k == "sum":
            vs = sorted(scope(t), key=str)
            out = np.zeros([self.card(v) for v in vs], np.longdouble)
            for x, c in sorted(t[1], key=repr):
                xs, tab = self.ev(x)
                out = out + self.fit(xs, tab, vs) * c
            return vs, out
        if k == "marg":
            xs, tab = self.ev(t[1])
            ax = tuple(i for i, v in enumerate(xs) if v not in t[2])
            return [v for v in xs if v in t[2]], tab.sum(axis=ax)
        if k == "red":
            xs, tab = self.ev(t[1])
            e = dict(t[2])
            idx = tuple(self.value(v, e[v]) if v in e else slice(None) for v in xs)
            return [v for v in xs if v not in e], tab[idx]
        if k == "norm":
            xs, tab = self.ev(t[1])
            return xs, tab / tab.sum()
        if k == "on":                  # an opaque operation of an argument: ("on", name, scope, args...)
            vs = sorted(t[2], key=str)
            # a function of the values of its arguments
            sig = tuple(round(float(np.sum(self.ev(a)[1])), 6) if isinstance(a, tuple) and a and a[0] in
                        ("f", "prod", "sum", "marg", "red", "norm", "on") else a for a in t[3])
            return vs, self.get(("on", t[1], t[2], sig), lambda: self.rng.uniform(0.2, 2.0, [self.card(v) for v in vs]))
        raise ValueError(k)

    def fit(self, xs, tab, vs):
        return tab.reshape([self.card(v) if v in xs else 1 for v in vs])


def same(a, b, n=4):
    """(equal, how)"""
    if a == b:
        return True, "normal form"
    if scope(a) != scope(b):
        return False, f"over {sorted(scope(a), key=str)} instead of {sorted(scope(b), key=str)}"
    for s in range(n):
        m = Model(77 + s)
        x, y = m.ev(a), m.ev(b)
        fin = np.isfinite(x[1]) & np.isfinite(y[1])          # overflow decides nothing
        if not np.allclose(x[1][fin], y[1][fin], rtol=1e-9, atol=0):
            return False, f"{show(a)} instead of {show(b)}"
    return True, "interpretation"


def show(t):
    k = t[0]
    if k == "f":
        return str(t[1])
    if k == "prod":
        up = " * ".join(sorted(show(x) + (f"^{c}" if c != 1 else "") for x, c in t[1] if c > 0)) or "1"
        dn = " * ".join(sorted(show(x) + (f"^{-c}" if c != -1 else "") for x, c in t[1] if c < 0))
        return f"({up})" + (f" / ({dn})" if dn else "")
    if k == "sum":
        return "{" + " + ".join(sorted((f"{c}*" if c != 1 else "") + show(x) for x, c in t[1])) + "}"
    if k == "marg":
        return f"marginal({show(t[1])} on {sorted(t[2], key=str)})"
    if k == "red":
        return f"({show(t[1])} given {sorted((str(v), str(x)) for v, x in t[2])})"
    if k == "on":
        return f"{t[1]}({', '.join(show(a) if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in ('f','prod','sum','marg','red','norm','on') else str(a) for a in t[3])})"
    return f"norm({show(t[1])})"
