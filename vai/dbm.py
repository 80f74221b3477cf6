"""Difference constraints between unknown numbers (the zone domain): facts x - y <= c decided by closure."""
from .terms import *

ZERO_NODE = "0"


def linear(n):
    """N -> ([(atom, +-1)], const) with at most one positive and one negative atom, else None"""
    c = 0.0
    pos = neg = None
    for (m, w), k in n.t.items():
        if not m and not w:
            c += k
        elif len(m) == 1 and not w and m[0][1] == 1 and k in (1, -1):
            if k == 1:
                if pos is not None:
                    return None
                pos = m[0][0]
            else:
                if neg is not None:
                    return None
                neg = m[0][0]
        else:
            return None
    return pos if pos is not None else ZERO_NODE, neg if neg is not None else ZERO_NODE, float(c)


class Zone:
    def __init__(self, nonneg=None):
        self.e = {}            # (x, y) -> (c, strict): x - y <= c (or < c)
        self.nodes = {ZERO_NODE}
        self.ok = True         # every fact was representable
        self.nonneg = nonneg   # atoms known to be >= 0

    def node(self, x):
        if x not in self.nodes:
            self.nodes.add(x)
            if self.nonneg is not None and self.nonneg(x):
                self.put(ZERO_NODE, x, 0.0, False)

    def put(self, x, y, c, strict):
        o = self.e.get((x, y))
        if o is None or (c, not strict) < (o[0], not o[1]):
            self.e[(x, y)] = (c, strict)

    def add(self, fact, val=True):
        """fact T('cmp', op, N) meaning N op 0"""
        cs = self.cons(fact, val)
        if cs is None:
            self.ok = False
            return
        for x, y, c, s in cs:
            self.node(x)
            self.node(y)
            self.put(x, y, c, s)

    @staticmethod
    def cons(fact, val):
        if not (isinstance(fact, T) and fact.op == "cmp" and len(fact.args) == 2):
            return None
        op, n = fact.args
        l = linear(n)
        if l is None:
            return None
        p, q, c = l            # p - q + c op 0
        if op == "<":
            return [(p, q, -c, True)] if val else [(q, p, c, False)]
        if op == "<=":
            return [(p, q, -c, False)] if val else [(q, p, c, True)]
        if op == "==":
            return [(p, q, -c, False), (q, p, c, False)] if val else None
        return None

    def close(self):
        """False if contradictory"""
        d = dict(self.e)
        ns = list(self.nodes)
        for k in ns:
            for i in ns:
                a = d.get((i, k))
                if a is None:
                    continue
                for j in ns:
                    b = d.get((k, j))
                    if b is None:
                        continue
                    c, s = a[0] + b[0], a[1] or b[1]
                    o = d.get((i, j))
                    if o is None or (c, not s) < (o[0], not o[1]):
                        d[(i, j)] = (c, s)
        self.d = d
        for i in ns:
            o = d.get((i, i))
            if o is not None and (o[0] < 0 or o[0] == 0 and o[1]):
                return False
        return True

    def entails(self, fact, val=True):
        neg = self.cons(fact, not val)
        if neg is None:
            return None
        # conjunction of negation disjuncts (only '==' has two: not supported here)
        if len(neg) != 1:
            return None
        z = Zone(self.nonneg)
        z.e, z.nodes = dict(self.e), set(self.nodes)
        x, y, c, s = neg[0]
        z.node(x)
        z.node(y)
        z.put(x, y, c, s)
        return not z.close()
