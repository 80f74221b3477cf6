"""Heap objects of the abstract interpreter and sequence operations."""
from .terms import *


class HObj:
    """mutable heap object; ext = access path if reachable from the caller's data"""
    ext = None
    ext_at = 0           # length of the journal when the object became the caller's
    created_in = None

    def __deepcopy__(self, memo):
        raise RuntimeError("no python deepcopy of heap objects")


class Inst(HObj):
    def __init__(self, cls, fields=None):
        self.cls, self.fields = cls, dict(fields or {})

    def __repr__(self):
        return f"<{self.cls.name} obj>"


class LObj(HObj):
    """list (kind 'list') or deque"""

    def __init__(self, parts=(), kind="list"):
        self.parts, self.kind = list(parts), kind

    def __repr__(self):
        return "[" + ", ".join(map(repr, self.parts)) + "]"


class SObj(HObj):
    def __init__(self, parts=(), kind="set"):
        self.parts, self.kind = list(parts), kind

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.parts)) + "}"


class DEnt:
    """dict entry: key->val, or for-all-g family (order, g, guards, key, val)"""
    __slots__ = ("order", "g", "guards", "key", "val", "outer")

    def __init__(self, key, val, order=None, g=None, guards=(), outer=()):
        self.key, self.val, self.order, self.g, self.guards, self.outer = key, val, order, g, tuple(guards), tuple(outer)

    def one(self):
        return self.g is None

    def __repr__(self):
        if self.one():
            return f"{self.key!r}: {self.val!r}"
        return f"{self.key!r}: {self.val!r} for {self.g!r} in {self.order}" + (f" if {self.guards}" if self.guards else "")


class DObj(HObj):
    def __init__(self, ents=()):
        self.ents = list(ents)
        self.default = None

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.ents)) + "}"


class Buf:
    __slots__ = ("ext", "ver", "ext_at")

    def __init__(self, ext=None):
        self.ext, self.ver, self.ext_at = ext, 0, 0


class Arr(HObj):
    """numpy array: content (immutable Ten/Mat) and buffer identity (views share it)"""

    def __init__(self, val, buf=None):
        self.val = val
        self.buf = buf or Buf()
        self.ver = self.buf.ver

    def __repr__(self):
        return f"arr<{self.val!r}>"


class Flat:
    """Map template standing for several consecutive elements"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def abs_gens(self):
        return gens(Tup(self.parts))

    def abs_subst(self, m):
        return Flat([subst_part(p, m) for p in self.parts])

    def __repr__(self):
        return "*" + repr(list(self.parts))


class RangeV:
    """range(lo, hi); seq = the sequence whose positions it enumerates, when known"""

    def __init__(self, lo, hi, skel=None, step=1):
        self.lo, self.hi, self.skel, self.step = lo, hi, skel, step

    def __repr__(self):
        return f"range({self.lo},{self.hi})"


class FuncV:
    def __init__(self, node, mod, parent=None, cls=None, name=None, kind="function"):
        self.node, self.mod, self.parent, self.cls, self.kind = node, mod, parent, cls, kind
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = None
        self.kw_defaults = None

    @property
    def qual(self):
        return f"{self.mod.name}:{self.cls.name + '.' if self.cls else ''}{self.name}"

    def __repr__(self):
        return f"<func {self.qual}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<bound {self.func!r}>"


class Ext:
    """external (library) name, by dotted path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class BM:
    """method of a modelled builtin value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PyFn:
    """python-implemented callable (spec stubs)"""

    def __init__(self, f, name="stub"):
        self.f, self.name = f, name

    def __repr__(self):
        return f"<stub {self.name}>"


class ModV:
    def __init__(self, name, tree, path):
        self.name, self.tree, self.path = name, tree, path
        self.env = {}
        self.done = False

    def __repr__(self):
        return f"<module {self.name}>"


class ClsV:
    def __init__(self, name, mod, node, bases):
        self.name, self.mod, self.node, self.bases = name, mod, node, bases
        self.attrs = {}

    def mro(self):
        # C3 is not needed: the repository uses single inheritance; depth-first, left to right
        out = [self]
        for b in self.bases:
            if isinstance(b, ClsV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, Ext)]

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<class {self.name}>"


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Exc:
    """exception instance"""

    def __init__(self, cls, args=(), definite=False, loc=None):
        self.cls, self.args, self.definite, self.loc = cls, args, definite, loc

    @property
    def cname(self):
        if isinstance(self.cls, ClsV):
            return self.cls.name
        if isinstance(self.cls, Ext):
            return self.cls.path.split(".")[-1]
        return str(self.cls)

    def __repr__(self):
        return f"<{self.cname}>"


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


# ---- sequence helpers ---------------------------------------------------------------------

def ident_key(p):
    """a label-key family whose values are the variables themselves"""
    return all(v is G(dom, atom, "*") for dom, atom, guards, v in p[2])


def canon_order(o, alias):
    seen = 0
    while o in alias and seen < 10:
        o = alias[o]
        seen += 1
    return o


def canon_guards(guards, g):
    star = G(g.args[0], g.args[1], "*")
    return frozenset((subst(c, {g: star}), b) for c, b in guards)


def skel(parts, alias=()):
    """identity of the index space of a sequence: element domains and order, not element values"""
    out = []
    for p in parts:
        if isinstance(p, One):
            out.append(("1",))
        elif isinstance(p, Map):
            fam = []
            for ge in p.ges:
                fam.append((ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g),
                            skel(ge.v.parts, alias) if isinstance(ge.v, Flat) else None))
            out.append(("m", canon_order(p.order, alias) if alias else p.order, frozenset(fam)))
        else:
            out.append(("?", id(p)))
    return tuple(out)


def label_key(parts, alias=()):
    """skeleton plus element values (alpha-canonical)"""
    out = []
    for p in parts:
        if isinstance(p, One):
            out.append(("1", keyof(p.v)))
        elif isinstance(p, Map):
            fam = []
            for ge in p.ges:
                star = G(ge.g.args[0], ge.g.args[1], "*")
                fam.append((ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g), keyof(subst(ge.v, {ge.g: star}))))
            out.append(("m", canon_order(p.order, alias) if alias else p.order, frozenset(fam)))
        else:
            out.append(("?", id(p)))
    return tuple(out)


def keyof(v):
    """hashable identity of a value: structural for immutable values, object identity for heap objects"""
    if isinstance(v, (T, N, str, int, float, bool, type(None), tuple, frozenset)):
        return v
    if isinstance(v, (Tup, Flat)):
        return ("tup", label_key(v.parts))
    if isinstance(v, Ext):
        return ("ext", v.path)
    if isinstance(v, (LObj,)):
        return ("list", label_key(v.parts))
    k = getattr(v, "abs_key", None)
    if k is not None:
        return k()
    return ("id", id(v))


def ident_parts(parts):
    return all(isinstance(p, Map) and all(ge.ident() for ge in p.ges) for p in parts)


def count_parts(parts):
    """symbolic length"""
    n = ZERO
    for p in parts:
        if isinstance(p, One):
            n = n + ONE
        elif isinstance(p, Map):
            for ge in p.ges:
                if isinstance(ge.v, Flat):
                    return None
                n = n + N.atom(T("count", ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g)))
        else:
            return None
    return n
