"""Boolean set expressions over symbolic base sets (truth tables)."""
from .terms import T


def base(x):
    return T("bs", (x,), frozenset([1]))


def empty():
    return T("bs", (), frozenset())


def _lift(s, bases):
    """truth table of s over a larger tuple of bases; minterm = bitmask over bases"""
    b0, tt = s.args
    idx = [bases.index(b) for b in b0]
    out = set()
    for m in range(1 << len(bases)):
        k = 0
        for i, j in enumerate(idx):
            if m >> j & 1:
                k |= 1 << i
        if k in tt:
            out.add(m)
    return out


def _mk(bases, tt):
    bases = list(bases)
    tt = set(tt)
    # drop irrelevant bases
    i = 0
    while i < len(bases):
        bit = 1 << i
        if all((m ^ bit) in tt for m in tt):
            bases.pop(i)
            tt = {(m & (bit - 1)) | ((m >> (i + 1)) << i) for m in tt}
        else:
            i += 1
    return T("bs", tuple(bases), frozenset(tt))


def merge(a, b):
    bs = sorted(set(a.args[0]) | set(b.args[0]), key=lambda t: t.uid)
    return bs, _lift(a, bs), _lift(b, bs)


def band(a, b):
    bs, x, y = merge(a, b)
    return _mk(bs, x & y)


def bor(a, b):
    bs, x, y = merge(a, b)
    return _mk(bs, x | y)


def bdiff(a, b):
    bs, x, y = merge(a, b)
    return _mk(bs, x - y)


def is_bs(t):
    return isinstance(t, T) and t.op == "bs"


def is_empty(t):
    return not t.args[1]


def theory_empty(t, facts):
    """facts: list of (bs, is_empty). returns True/False/None"""
    if is_empty(t):
        return True
    known = None
    for s, e in facts:
        if e:
            known = s if known is None else bor(known, s)
    r = t if known is None else bdiff(t, known)
    if is_empty(r):
        return True
    for s, e in facts:
        if not e:
            rest = s if known is None else bdiff(s, known)
            if is_empty(bdiff(rest, t)):
                return False
    return None
