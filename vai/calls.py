"""Calls, attributes, items, and the models of builtin types and the standard library."""
import ast
import collections
from .terms import *
from .heap import *
from .interp import *
from .interp import _Ret, _Brk, _Cont
from .expr import *
from . import bset as B
from . import ndsym

LIST_M = {"append", "extend", "insert", "index", "count", "copy", "pop", "remove", "reverse", "sort", "clear"}
DEQUE_M = LIST_M | {"appendleft", "popleft", "extendleft", "rotate"}
SET_M = {"add", "update", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset",
         "isdisjoint", "remove", "discard", "pop", "copy", "clear", "intersection_update", "difference_update"}
DICT_M = {"keys", "values", "items", "get", "pop", "update", "setdefault", "copy", "clear", "popitem", "fromkeys",
          "move_to_end"}
TUP_M = {"index", "count"}
# the special methods of the builtin containers, reached by name
DUNDER = {"__contains__": lambda o: lambda it, a, k: it.contains(o, a[0]),
          "__getitem__": lambda o: lambda it, a, k: it.getitem(o, a[0]),
          "__setitem__": lambda o: lambda it, a, k: it.setitem(o, a[0], a[1]),
          "__len__": lambda o: lambda it, a, k: it.length(o),
          "__iter__": lambda o: lambda it, a, k: it.b_iter([o], {}),
          "__next__": lambda o: lambda it, a, k: it.b_next([o], {}),
          "__eq__": lambda o: lambda it, a, k: it.eq(o, a[0])}
STR_M = set(m for m in dir(str) if not m.startswith("__"))


class Calls(Eval):
    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, default=NOTFOUND):
        if isinstance(o, Top):
            return o if o.bad else Top(f"attribute of {o.why}")
        if isinstance(o, Inst):
            if name in o.fields:
                return o.fields[name]
            v, c = o.cls.find(name)
            if v is not None or c is not None:
                return self.bind(v, o, name)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = DObj([DEnt(k, v) for k, v in o.fields.items()])
                d.of_inst = o
                return d
            if getattr(o, "open", False) or any(e.path not in ("builtins.object", "abc.ABC") and
                                                not e.path.endswith("Exception") for e in o.cls.ext_bases()):
                return self.top(f"attribute {name}")
            if name in ("__init__", "__ne__", "__hash__", "__str__"):
                return PyFn(lambda it, a, k: None, name)
            if default is not NOTFOUND:
                return default
            self.throw("AttributeError", f"{o.cls.name} has no attribute {name}")
        if isinstance(o, Super):
            mro = o.self_.cls.mro() if isinstance(o.self_, Inst) else o.self_.mro()
            i = mro.index(o.cls) if o.cls in mro else 0
            for c in mro[i + 1:]:
                if name in c.attrs:
                    return self.bind(c.attrs[name], o.self_, name)
            if name == "__init__":
                return PyFn(lambda it, a, k: None, name)
            self.throw("AttributeError", f"super has no attribute {name}")
        if isinstance(o, ClsV):
            v, c = o.find(name)
            if c is not None:
                if isinstance(v, FuncV) and v.kind == "class":
                    return Bound(v, o)
                return v
            if name in ("__name__", "__qualname__"):
                return o.name
            return self.top(f"class attribute {name}")
        if isinstance(o, ModV):
            if name in o.env:
                return self.lazy(o.env[name])
            m = self.module(o.name + "." + name)
            if m is not None:
                return m
            self.throw("AttributeError", f"module {o.name} has no attribute {name}")
        if isinstance(o, Ext):
            p = o.path + "." + name
            if p in self.consts:
                return self.consts[p]
            return Ext(p)
        if isinstance(o, Arr):
            return self.arr_getattr(o, name)
        f = getattr(o, "abs_getattr", None)
        if f is not None:
            return f(self, name)
        if isinstance(o, LObj):
            if name in (DEQUE_M if o.kind == "deque" else LIST_M):
                return BM(o, name)
        elif isinstance(o, SObj):
            if name in SET_M:
                return BM(o, name)
        elif isinstance(o, DObj):
            if name in DICT_M:
                return BM(o, name)
        elif isinstance(o, Tup):
            if name in TUP_M:
                return BM(o, name)
        elif isinstance(o, View):
            if name in SET_M:
                return BM(o, name)
        elif isinstance(o, str):
            if name in STR_M:
                return BM(o, name)
        elif isinstance(o, Exc):
            if name == "args":
                return Tup([One(a) for a in o.args])
            return Top("exception attribute")
        elif isinstance(o, FuncV):
            if name in ("__name__", "__qualname__"):
                return o.name
            return Top("function attribute")
        elif isinstance(o, (T, N)):
            return BM(o, name)
        elif isinstance(o, (int, float)):
            return BM(o, name)
        elif o is None:
            if default is not NOTFOUND:
                return default
            self.throw("AttributeError", f"None has no attribute {name}")
        elif isinstance(o, Bound) and name in ("__name__", "__func__", "__self__"):
            return {"__name__": o.func.name, "__func__": o.func, "__self__": o.self_}[name]
        else:
            return self.top(f"attribute {name} of {type(o).__name__}")
        real = {LObj: collections.deque if getattr(o, "kind", "") == "deque" else list, SObj: set, DObj: dict, Tup: tuple,
                str: str}.get(type(o))
        if self.one_shot(o) or real is None or hasattr(real, name):
            if name in DUNDER:
                return PyFn(DUNDER[name](o), name)
            return self.top(f"attribute {name} of a {type(o).__name__}")
        if default is not NOTFOUND:
            return default
        self.throw("AttributeError", f"no attribute {name}")

    def bind(self, v, o, name):
        if isinstance(v, PropV):
            if getattr(v, "cached", False) and isinstance(o, Inst):
                k = name
                r = self.call(Bound(v.fget, o), [], {})
                return r
            if isinstance(v.fget, FuncV):
                return self.call(Bound(v.fget, o), [], {})
            return self.call(v.fget, [o], {})
        if isinstance(v, FuncV):
            if v.kind == "static":
                return v
            if v.kind == "class":
                return Bound(v, o.cls if isinstance(o, Inst) else o)
            return Bound(v, o)
        if isinstance(v, PyFn) and getattr(v, "method", False):
            return Bound(v, o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            d, c = o.cls.find(name)
            if isinstance(d, PropV):
                if d.fset is None:
                    self.throw("AttributeError", f"can't set attribute {name}")
                self.call(Bound(d.fset, o), [v], {})
                return
            self.setattr_raw(o, name, v)
            return
        f = getattr(o, "abs_setattr", None)
        if f is not None:
            f(self, name, v)
            return
        if isinstance(o, Arr):
            self.note(f"array attribute {name} set")
            self.setarr(o, Top("array attribute set"), None)
            return
        if isinstance(o, Top):
            self.note("attribute of unknown set")
            return
        if isinstance(o, (ClsV, ModV, Ext, FuncV)):
            self.note("class/module attribute set")
            return
        self.throw("AttributeError", f"can't set {name}")

    # ---------------------------------------------------------------- items
    def canon_sk(self, sk):
        out = []
        for p in sk:
            if p[0] == "m":
                out.append(("m", canon_order(p[1], self.order_alias), p[2]))
            else:
                out.append(p)
        return tuple(out)

    def pos_index(self, t):
        """(skel, k, g) of a position term"""
        sk = self.canon_sk(t.args[0])
        g = t.args[1]
        for k, p in enumerate(sk):
            if p[0] == "m":
                for fam in p[2]:
                    if fam[0] == g.args[0] and fam[1] == g.args[1]:
                        return sk, k, g
        # the generic may have been refined to a sub-atom; leave to the caller
        return sk, None, g

    def elem_at(self, parts, idx):
        """element of a symbolic sequence at a symbolic position"""
        if isinstance(idx, T) and idx.op == "pos":
            sk, k, g = self.pos_index(idx)
            mine = self.skel(parts)
            if any(p[0] == "?" for p in mine):
                return Top("unknown sequence")
            if k is not None and len(mine) > k and mine[:k + 1] == sk[:k + 1]:
                for ge in parts[k].ges:
                    if ge.g.args[:2] == g.args[:2]:
                        ok = all(self.lookup(subst(c, {ge.g: g})) is b for c, b in ge.guards)
                        if ok:
                            return self.subst(ge.v, {ge.g: g})
                return Top("guarded position")
            if k is None:
                return Top("position of a refined element")
            return self.bad(f"position of {g!r} in {self.sk_str(sk)} used to index {self.sk_str(mine)}")
        if isinstance(idx, T) and idx.op == "posone":
            sk, i = self.canon_sk(idx.args[0]), idx.args[1]
            mine = self.skel(parts)
            if len(mine) > i and mine[:i + 1] == sk[:i + 1]:
                return parts[i].v
            if any(p[0] == "?" for p in mine):
                return Top("unknown sequence")
            return self.bad(f"position {i} of {self.sk_str(sk)} used to index {self.sk_str(mine)}")
        return None

    def sk_str(self, sk):
        out = []
        for p in sk:
            if p[0] == "1":
                out.append("1")
            elif p[0] == "m":
                o = p[1]
                o = "hash-order" if isinstance(o, tuple) and o and o[0] == "hash" else str(o)
                out.append(o + "{" + ",".join(sorted(str(f[1]) for f in p[2])) + "}")
            else:
                out.append("?")
        return "[" + " ++ ".join(out) + "]"

    def getitem(self, o, idx):
        if isinstance(o, Top):
            return o if o.bad else Top("item of unknown")
        if isinstance(idx, Bad):
            return Bad(idx.why, idx.loc)
        if isinstance(o, Arr):
            return self.arr_getitem(o, idx)
        f = getattr(o, "abs_getitem", None)
        if f is not None:
            return f(self, idx)
        if isinstance(o, DObj):
            v = self.dict_get(o, idx)
            if v is NOTFOUND:
                if o.default is not None:
                    v = self.call(o.default, [], {})
                    self.dict_set(o, idx, v)
                    return v
                m = getattr(o, "missing", None)
                if m:
                    return m(self, idx)
                self.throw("KeyError", str(idx))
            return v
        if isinstance(o, Inst):
            m, _ = o.cls.find("__getitem__")
            if m is not None:
                return self.call(Bound(m, o), [idx], {})
            self.throw("TypeError", "not subscriptable")
        if isinstance(o, str):
            if isinstance(idx, int):
                try:
                    return o[idx]
                except IndexError:
                    self.throw("IndexError")
            return Top("string slice")
        if isinstance(o, (LObj, Tup, RangeV)) or self.is_iterable(o):
            if isinstance(o, RepList):
                return o.v
            parts = self.seq_parts(o)
            if parts is None:
                return Top("item of unknown sequence")
            if isinstance(idx, SliceV):
                ps = self.slice_parts(parts, idx)
                if ps is None:
                    return self.top("slice of a symbolic sequence")
                return LObj(ps, o.kind) if isinstance(o, LObj) else Tup(ps)
            if isinstance(idx, Top):
                return Top("item at unknown index")
            if isinstance(idx, bool):
                idx = int(idx)
            if isinstance(idx, int):
                return self.int_index(parts, idx)
            r = self.elem_at(parts, idx)
            if r is not None:
                return r
            if isinstance(idx, (T, N)):
                r = self.num_index(parts, idx)
                if r is not None:
                    return r
                if all(isinstance(p, One) for p in parts) and len({keyof(p.v) for p in parts}) == 1:
                    return parts[0].v
                return Top("item at symbolic index")
            if isinstance(idx, (str, LObj, Tup)) or idx is None or isinstance(idx, float):
                self.throw("TypeError", "list index")
            return Top("item at unknown index")
        if isinstance(o, ClsV) or isinstance(o, Ext):
            return o            # typing subscripts
        if o is None:
            self.throw("TypeError", "None is not subscriptable")
        if isinstance(o, T):
            return T("item", o, keyof(idx)) if isinstance(idx, (int, str, T, N)) else Top("item")
        return self.top(f"item of {type(o).__name__}")

    def num_index(self, parts, idx):
        return None

    def int_index(self, parts, idx):
        n = len(parts)
        if all(isinstance(p, One) for p in parts):
            if -n <= idx < n:
                return parts[idx].v
            self.throw("IndexError", "list index out of range")
        if idx >= 0:
            seq, k = parts, idx
        else:
            seq, k = parts[::-1], -idx - 1
        for p in seq:
            if isinstance(p, One):
                if k == 0:
                    return p.v
                k -= 1
                continue
            # first (last) element of a family part
            tag = "first" if idx >= 0 else "last"
            if k == 0 and isinstance(p, Map):
                return self.end_elem(p, tag)
            return Top("item inside a symbolic part")
        if not parts:
            self.throw("IndexError", "list index out of range")
        return Top("item")

    def end_elem(self, p, tag):
        ges = [ge for ge in p.ges]
        cand = []
        for i, ge in enumerate(ges):
            if isinstance(ge.v, Flat):
                return Top("end of nested family")
            g = G(ge.g.args[0], ge.g.args[1], tag)
            cand.append((ge, g))
        ok = canon_order(p.order, self.order_alias)
        for i, (ge, g) in enumerate(cand):
            last = i == len(cand) - 1
            c = T("endfam", tag, ok if not isinstance(ok, list) else tuple(ok),
                  frozenset((x.g.args[0], x.g.args[1], canon_guards(x.guards, x.g)) for x in ges), i)
            if last or self.decide(c):
                for cnd, b in ge.guards:
                    self.memo[subst(cnd, {ge.g: g})] = b
                if not ge.guards and B.is_bs(ge.g.args[1]) and not self.nonempty_known(ge):
                    if not self.decide(T("not", T("bsempty", ge.g.args[1]))):
                        self.throw("IndexError", "empty")
                return self.subst(ge.v, {ge.g: g})
        self.throw("IndexError", "list index out of range")

    def nonempty_known(self, ge):
        return self.lookup(T("bsempty", ge.g.args[1])) is False

    def slice_parts(self, parts, s):
        lo, hi, st = s.lo, s.hi, s.step
        if st is not None and st != 1:
            if st == -1 and lo is None and hi is None:
                out = []
                for p in parts[::-1]:
                    if isinstance(p, Map):
                        out.append(Map(("rev", canon_order(p.order, self.order_alias)), p.ges))
                    else:
                        out.append(p)
                return out
            return None
        if all(isinstance(p, One) for p in parts) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return parts[slice(lo, hi)]
        a = self.cut(parts, lo, 0)
        if a is None:
            return None
        b = self.cut(parts, hi, len(parts))
        if b is None:
            # lo:lo+len(x)
            return None
        (i, pre), (j, _) = a, b
        if i > j:
            return []
        if pre is not None:      # one element removed from a family at the front
            return pre + parts[i:j]
        return parts[i:j]

    def cut(self, parts, x, default):
        """part index of a cut position; (index, replacement prefix)"""
        if x is None:
            return default, None
        if isinstance(x, int):
            if x >= 0:
                k = x
                for i, p in enumerate(parts):
                    if k == 0:
                        return i, None
                    if isinstance(p, One):
                        k -= 1
                        continue
                    if k == 1 and isinstance(p, Map):
                        return i + 1, [Map(p.order, [GE(ge.g, ge.guards + ((T("isend", "first", self.ordk(p.order), ge.g), False),), ge.v)
                                                    for ge in p.ges])]
                    return None
                return len(parts), None
            k = -x
            i = len(parts)
            while k > 0 and i > 0 and isinstance(parts[i - 1], One):
                i -= 1
                k -= 1
            return (i, None) if k == 0 else None
        n = num(x)
        if n is None:
            return None
        # absolute length of a prefix, or negative length of a suffix
        acc = ZERO
        if isinstance(x, T) and x.op == "len":
            return None
        for i in range(len(parts) + 1):
            if acc == n:
                if isinstance(x, LenV) and self.skel(x.parts) != self.skel(parts[:i]):
                    if self.skel(x.parts) and {p[2] for p in self.skel(x.parts) if p[0] == "m"} != \
                            {p[2] for p in self.skel(parts[:i]) if p[0] == "m"}:
                        pass
                return i, None
            if i < len(parts):
                c = count_parts([parts[i]])
                if c is None:
                    break
                acc = acc + c
        acc = ZERO
        for i in range(len(parts), -1, -1):
            if acc == n and i != len(parts):
                return i, None
            if i > 0:
                c = count_parts([parts[i - 1]])
                if c is None:
                    break
                acc = acc - c
        return None

    def ordk(self, o):
        return canon_order(o, self.order_alias)

    def setitem(self, o, idx, v):
        if isinstance(o, DObj):
            if getattr(o, "of_inst", None) is not None and isinstance(idx, str):
                self.setattr_raw(o.of_inst, idx, v)
            self.dict_set(o, idx, v)
            return
        if isinstance(o, Arr):
            self.arr_setitem(o, idx, v)
            return
        if isinstance(o, LObj):
            parts = self.seq_parts(o)
            if parts is None:
                self.setparts(o, [HolePart("unknown")])
                return
            if isinstance(idx, int) and all(isinstance(p, One) for p in parts):
                if not -len(parts) <= idx < len(parts):
                    self.throw("IndexError")
                ps = list(parts)
                ps[idx] = One(v)
                self.setparts(o, ps, "setitem")
                return
            if isinstance(idx, T) and idx.op == "pos":
                sk, k, g = self.pos_index(idx)
                mine = self.skel(parts)
                if k is not None and len(mine) > k and mine[:k + 1] == sk[:k + 1]:
                    ges = []
                    for ge in parts[k].ges:
                        if ge.g.args[:2] == g.args[:2] and not ge.guards:
                            ges.append(GE(ge.g, ge.guards, self.subst(v, {g: ge.g})))
                        else:
                            ges.append(ge)
                    ps = list(parts)
                    ps[k] = Map(parts[k].order, ges)
                    self.log("lset", o, (k, g), o.parts, ps)
                    o.parts = ps
                    return
                if k is not None:
                    v = self.bad(f"position in {self.sk_str(sk)} used to store into {self.sk_str(mine)}")
            self.note("list store at unknown index")
            self.setparts(o, [HolePart("unknown")], "setitem")
            return
        f = getattr(o, "abs_setitem", None)
        if f is not None:
            f(self, idx, v)
            return
        if isinstance(o, Inst):
            m, _ = o.cls.find("__setitem__")
            if m is not None:
                self.call(Bound(m, o), [idx, v], {})
                return
        if isinstance(o, Top):
            self.note("store into unknown")
            return
        if isinstance(o, Tup):
            self.throw("TypeError", "tuple item assignment")
        self.note(f"store into {type(o).__name__}")

    def delitem(self, o, idx):
        if isinstance(o, DObj):
            self.dict_pop(o, idx, NOTFOUND)
            return
        if isinstance(o, LObj):
            if isinstance(idx, int):
                self.list_pop(o, idx)
                return
        self.note("del of unknown item")
        if isinstance(o, LObj):
            self.setparts(o, [HolePart("unknown")])

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs, node=None):
        self.calls += 1
        if isinstance(f, Top):
            return f if f.bad else Top("call of unknown")
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, FuncV):
                return self.call_func(f.func, [f.self_] + list(args), kwargs, f.self_)
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, ClsV):
            return self.construct(f, args, kwargs)
        if isinstance(f, PyFn):
            return f.f(self, args, kwargs)
        if isinstance(f, BM):
            return self.call_method(f.obj, f.name, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs, node)
        g = getattr(f, "abs_call", None)
        if g is not None:
            return g(self, args, kwargs)
        if isinstance(f, Inst):
            m, _ = f.cls.find("__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kwargs)
            self.throw("TypeError", "not callable")
        if isinstance(f, T):
            return T("apply", f, tuple(keyof(a) for a in args), tuple(sorted((k, keyof(v)) for k, v in kwargs.items())))
        if f is None or isinstance(f, (int, str, float, LObj, DObj, Tup, Arr)):
            self.throw("TypeError", "not callable")
        return self.top(f"call of {type(f).__name__}")

    def construct(self, c, args, kwargs):
        q = f"{c.mod.name}:{c.name}"
        if q in self.stubs:
            return self.stubs[q](self, args, kwargs)
        if any(e.path.split(".")[-1] in BUILTIN_EXC for e in c.ext_bases()):
            return Exc(c, tuple(args), loc=self.loc())
        o = Inst(c)
        o.created_in = self.loc()
        init, _ = c.find("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kwargs)
        return o

    def call_func(self, f, args, kwargs, self_=None):
        if f.qual in self.stubs:
            r = self.stubs[f.qual](self, args, kwargs)
            if r is not NOTFOUND:
                return r
        if len(self.stack) > self.MAX_DEPTH:
            raise Bail("call depth")
        if sum(1 for s in self.stack if s.func is f) > 3:
            raise Bail("recursion " + f.qual)
        if f.name in ("__repr__", "__str__") and f.cls is not None:
            return T("repr", f.qual)      # display text is not part of any property
        self.visited_funcs.add(f.qual)
        fr = Frame(f, f.mod, f.parent, f.cls or getattr(f, "encl_cls", None))
        fr.self_ = self_ if self_ is not None else None
        self.bind_args(f, fr, args, kwargs)
        h = self.hooks.get(f.qual)
        if h is not None:
            h(self, f, fr)
        self.stack.append(fr)
        save = self.cur
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.own_nodes(f.node)):
                # run to the end when called; the yielded values are read from an iterator afterwards
                fr.gen = self.iterator([])
                try:
                    self.block(f.node.body, fr)
                except _Ret:
                    pass
                return fr.gen
            try:
                self.block(f.node.body, fr)
            except _Ret as r:
                hr = self.ret_hooks.get(f.qual)
                if hr is not None:
                    return hr(self, f, fr, r.v)
                return r.v
            hr = self.ret_hooks.get(f.qual)
            if hr is not None:
                return hr(self, f, fr, None)
            return None
        finally:
            self.stack.pop()
            self.cur = save

    def own_nodes(self, fn):
        c = getattr(fn, "_own", None)
        if c is None:
            c = []
            todo = list(fn.body)
            while todo:
                n = todo.pop()
                c.append(n)
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo += list(ast.iter_child_nodes(n))
            fn._own = c
        return c

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = fr.env
        pos = list(args)
        kwargs = dict(kwargs)
        unknown_kw = kwargs.pop("**", None)
        i = 0
        rest = []
        while pos:
            v = pos.pop(0)
            if isinstance(v, StarArg):
                if a.vararg and i >= len(names):
                    rest += v.parts if v.parts is not None else [HolePart("unknown")]
                    continue
                while i < len(names):
                    env[names[i]] = Top("star argument")
                    i += 1
                continue
            if i < len(names):
                env[names[i]] = v
                i += 1
            elif a.vararg:
                rest.append(One(v))
            else:
                self.throw("TypeError", f"{f.qual} too many arguments")
        if a.vararg:
            env[a.vararg.arg] = Tup(rest)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names and k not in env or k in kwonly:
                env[k] = v
            elif k in names:
                self.throw("TypeError", f"{f.qual} multiple values for {k}")
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw("TypeError", f"{f.qual} unexpected keyword {k}")
        if a.kwarg:
            d = DObj([DEnt(k, v) for k, v in extra.items()])
            if unknown_kw is not None:
                if isinstance(unknown_kw, DObj):
                    d.ents += unknown_kw.ents
                else:
                    d.imprecise = True
            env[a.kwarg.arg] = d
        nd = len(f.defaults or ())
        for j, n in enumerate(names):
            if n not in env:
                if unknown_kw is not None:
                    env[n] = Top("keyword dictionary")
                    continue
                k = j - (len(names) - nd)
                if k >= 0:
                    env[n] = f.defaults[k]
                else:
                    self.throw("TypeError", f"{f.qual} missing argument {n}")
        for n, d, node in zip(kwonly, f.kw_defaults or (), a.kw_defaults):
            if n not in env:
                if node is None:
                    self.throw("TypeError", f"{f.qual} missing argument {n}")
                env[n] = d

    def call_ext(self, f, args, kwargs, node=None):
        p = f.path
        h = self.lib.get(p)
        if h is not None:
            return h(self, args, kwargs)
        last = p.split(".")[-1]
        if last in BUILTIN_EXC or last.endswith("Error") or last.endswith("Warning"):
            return Exc(f, tuple(args), loc=self.loc())
        if p.startswith("builtins."):
            m = getattr(self, "b_" + last, None)
            if m is not None:
                return m(args, kwargs)
        for v in list(args) + list(kwargs.values()):
            if isinstance(v, Bad):
                return Bad(v.why, v.loc)
        return self.top(f"library call {p}")

    # ---------------------------------------------------------------- methods of builtin values
    def call_method(self, o, name, args, kwargs):
        for k, v in enumerate(args):
            if isinstance(v, StarArg):
                return self.top("star argument to a builtin method")
        if isinstance(o, LObj):
            return self.m_list(o, name, args, kwargs)
        if isinstance(o, SObj):
            return self.m_set(o, name, args, kwargs)
        if isinstance(o, View):
            return self.m_set(self.to_set(o), name, args, kwargs)
        if isinstance(o, DObj):
            return self.m_dict(o, name, args, kwargs)
        if isinstance(o, Tup):
            if name == "index":
                return self.seq_index(o, args[0])
            return self.seq_count(o, args[0])
        if isinstance(o, Arr):
            return self.arr_method(o, name, args, kwargs)
        if isinstance(o, str) or isinstance(o, T):
            return self.m_str(o, name, args, kwargs)
        f = getattr(o, "abs_method", None)
        if f is not None:
            return f(self, name, args, kwargs)
        if isinstance(o, (N, int, float)):
            if name in ("copy", "item", "conjugate", "ravel", "squeeze", "min", "max", "sum") and not args:
                return o
            if not hasattr(1.0, name) and not hasattr(1, name) and not hasattr(__import__("numpy").float64(1), name):
                self.throw("AttributeError", f"a number has no attribute {name}")
        return self.top(f"method {name}")

    def seq_index(self, o, x):
        if isinstance(x, Top):
            return x if x.bad else Top("index of unknown")
        parts = self.seq_parts(o)
        if parts is None:
            return Top("index in unknown list")
        if all(isinstance(p, One) for p in parts):
            for i, p in enumerate(parts):
                r = self.eq(p.v, x)
                if isinstance(r, Top):
                    return Top("index")
                if self.decide(r):
                    return i
            self.throw("ValueError", "not in list")
        for i, p in enumerate(parts):
            if isinstance(p, One):
                r = self.eq(p.v, x)
                if not isinstance(r, Top) and self.decide(r):
                    return T("posone", self.skel(parts), i)
            else:
                for ge in p.ges:
                    y = self.unify(ge.v, ge.g, x)
                    if y is None:
                        continue
                    if y is NOTFOUND:
                        r = self.in_family(ge, x)
                        if r is False:
                            continue
                        if self.decide(r):
                            return Top("position of a symbolic element")
                        continue
                    r = self.in_family(GE(ge.g, ge.guards, ge.g), y)
                    if self.decide(r):
                        if y.args[1] != ge.g.args[1]:
                            return Top("position of a refined element")
                        return T("pos", self.skel(parts), y)
        self.throw("ValueError", "not in list")

    def seq_count(self, o, x):
        parts = self.seq_parts(o)
        if parts is not None and all(isinstance(p, One) for p in parts):
            n = 0
            for p in parts:
                r = self.eq(p.v, x)
                if isinstance(r, Top):
                    return Top("count")
                n += self.decide(r)
            return n
        return self.top("count in a symbolic list")

    def list_pop(self, o, i=-1):
        parts = self.seq_parts(o)
        if parts is None:
            return Top("pop from unknown")
        if isinstance(i, int) and all(isinstance(p, One) for p in parts):
            if not -len(parts) <= i < len(parts):
                self.throw("IndexError", "pop")
            ps = list(parts)
            v = ps.pop(i).v
            self.setparts(o, ps, "pop")
            return v
        if i in (0, -1) and not isinstance(i, bool):
            k = 0 if i == 0 else len(parts) - 1
            p = parts[k]
            tag = "first" if i == 0 else "last"
            if isinstance(p, One):
                self.setparts(o, parts[:k] + parts[k + 1:], "pop")
                return p.v
            v = self.end_elem(p, tag)
            rest = Map(p.order, [GE(ge.g, ge.guards + ((T("isend", tag, self.ordk(p.order), ge.g), False),), ge.v) for ge in p.ges])
            self.setparts(o, parts[:k] + [rest] + parts[k + 1:], "pop")
            return v
        self.note("pop at symbolic index")
        self.setparts(o, [HolePart("unknown")], "pop")
        return Top("popped element")

    def m_list(self, o, name, args, kw):
        if name == "append":
            self.append(o, args[0])
            return None
        if name == "appendleft":
            self.setparts(o, [One(args[0])] + o.parts, "appendleft")
            return None
        if name in ("extend", "extendleft"):
            ps = self.seq_parts(args[0])
            if ps is None:
                self.note("extend with unknown")
                self.setparts(o, [HolePart("unknown")], "extend")
            elif name == "extend":
                self.extend(o, ps)
            else:
                self.setparts(o, ps[::-1] + o.parts, "extendleft")
            return None
        if name == "insert":
            if args[0] == 0 and isinstance(args[0], int):
                self.setparts(o, [One(args[1])] + o.parts, "insert")
            elif isinstance(args[0], int) and all(isinstance(p, One) for p in o.parts):
                ps = list(o.parts)
                ps.insert(args[0], One(args[1]))
                self.setparts(o, ps, "insert")
            else:
                self.setparts(o, [HolePart("unknown")], "insert")
            return None
        if name == "index":
            return self.seq_index(o, args[0])
        if name == "count":
            return self.seq_count(o, args[0])
        if name == "copy":
            return LObj(o.parts, o.kind)
        if name in ("pop", "popleft"):
            return self.list_pop(o, 0 if name == "popleft" else (args[0] if args else -1))
        if name == "remove":
            parts = self.seq_parts(o)
            if parts is not None and all(isinstance(p, One) for p in parts):
                for i, p in enumerate(parts):
                    r = self.eq(p.v, args[0])
                    if isinstance(r, Top):
                        break
                    if self.decide(r):
                        self.setparts(o, parts[:i] + parts[i + 1:], "remove")
                        return None
                else:
                    self.throw("ValueError", "not in list")
            elif parts is not None and is_g(args[0]) or isinstance(args[0], T):
                x = args[0]
                out, found = [], False
                for p in parts or []:
                    if isinstance(p, Map):
                        ges = []
                        for ge in p.ges:
                            y = self.unify(ge.v, ge.g, x)
                            if y is not None and y is not NOTFOUND and y.args[1] == ge.g.args[1]:
                                ges.append(GE(ge.g, ge.guards + ((T("eq", *sorted((ge.g, y), key=lambda t: t.uid)), False),), ge.v))
                                found = True
                            else:
                                ges.append(ge)
                        out.append(Map(p.order, ges))
                    else:
                        out.append(p)
                if found:
                    self.setparts(o, out, "remove")
                    return None
            self.note("remove of unknown element")
            self.setparts(o, [HolePart("unknown")], "remove")
            return None
        if name == "clear":
            self.setparts(o, [], "clear")
            return None
        if name == "reverse":
            ps = self.slice_parts(o.parts, SliceV(None, None, -1))
            self.setparts(o, ps if ps is not None else [HolePart("unknown")], "reverse")
            return None
        if name == "sort":
            r = self.b_sorted([o], kw)
            self.setparts(o, r.parts if isinstance(r, LObj) else [HolePart("unknown")], "sort")
            return None
        if name == "rotate":
            n = args[0] if args else 1
            if isinstance(n, int) and all(isinstance(p, One) for p in o.parts) and o.parts:
                n %= len(o.parts)
                self.setparts(o, o.parts[-n:] + o.parts[:-n] if n else list(o.parts), "rotate")
            elif o.parts:
                self.setparts(o, [HolePart("unknown")], "rotate")
            return None
        return self.top(f"list method {name}")

    def m_set(self, o, name, args, kw):
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            r = self.to_set(o) if not isinstance(o, SObj) else o
            if not args:
                return SObj(o.parts)
            for a in args:
                b = a if isinstance(a, SObj) else self.to_set(a)
                r = self.set_op(name, r, b)
                if isinstance(r, Top):
                    return r
            return r
        if name == "issubset":
            return self.subset(o, self.to_set(args[0]))
        if name == "issuperset":
            return self.subset(self.to_set(args[0]), o)
        if name == "isdisjoint":
            r = self.set_op("intersection", o, self.to_set(args[0]))
            if isinstance(r, Top):
                return Top("isdisjoint")
            return not self.truth(r)
        if name == "copy":
            return SObj(o.parts)
        if name == "add":
            self.set_add_parts(o, [One(args[0])])
            return None
        if name in ("update",):
            for a in args:
                ps = self.seq_parts(a)
                if ps is None:
                    self.setparts(o, [HolePart("unknown")])
                else:
                    self.set_add_parts(o, ps)
            return None
        if name in ("intersection_update", "difference_update"):
            r = self.set_op(name.split("_")[0], o, self.to_set(args[0]))
            self.setparts(o, r.parts if isinstance(r, SObj) else [HolePart("unknown")], name)
            return None
        if name in ("remove", "discard"):
            r = self.set_op("difference", o, SObj([One(args[0])]))
            self.setparts(o, r.parts if isinstance(r, SObj) else [HolePart("unknown")], name)
            return None
        if name == "clear":
            self.setparts(o, [], "clear")
            return None
        if name == "pop":
            ps = self.seq_parts(o)
            if ps is not None and len(ps) == 1 and isinstance(ps[0], One):
                self.setparts(o, [], "pop")
                return ps[0].v
            if ps is not None and len(ps) == 0:
                self.throw("KeyError", "pop from an empty set")
            self.setparts(o, [HolePart("unknown")], "pop")
            return Top("arbitrary element of a set")
        return self.top(f"set method {name}")

    def dict_pop(self, d, k, default=NOTFOUND):
        v = self.dict_get(d, k)
        if v is NOTFOUND:
            if default is not NOTFOUND:
                return default
            self.throw("KeyError", str(k))
        ents = [e for e in d.ents if not (e.one() and self.key_eq(e.key, k) is True)]
        if len(ents) == len(d.ents):
            self.note("dict pop from a family")
            self.setents(d, d.ents)
            d.imprecise = True
        else:
            self.setents(d, ents, "pop")
        return v

    def m_dict(self, d, name, args, kw):
        if name in ("keys", "values", "items"):
            return View(d, name)
        if name == "get":
            v = self.dict_get(d, args[0])
            if v is NOTFOUND:
                return args[1] if len(args) > 1 else kw.get("default")
            return v
        if name == "setdefault":
            v = self.dict_get(d, args[0])
            if v is NOTFOUND:
                v = args[1] if len(args) > 1 else None
                self.dict_set(d, args[0], v)
            return v
        if name == "update":
            if args:
                self.dict_update(d, args[0])
            for k, v in kw.items():
                self.dict_set(d, k, v)
            return None
        if name == "copy":
            r = DObj(d.ents)
            r.default = d.default
            if getattr(d, "imprecise", False):
                r.imprecise = True
            return r
        if name == "clear":
            self.setents(d, [], "clear")
            return None
        if name == "pop":
            return self.dict_pop(d, args[0], args[1] if len(args) > 1 else NOTFOUND)
        if name == "popitem":
            self.setents(d, d.ents)
            d.imprecise = True
            return Top("popitem")
        return self.top(f"dict method {name}")

    def m_str(self, o, name, args, kw):
        if name == "format_map" and len(args) == 1 and isinstance(args[0], DObj) and all(isinstance(e, DEnt) and isinstance(e.key, str) and e.g is None for e in args[0].ents):
            name, args, kw = "format", [], {e.key: e.val for e in args[0].ents}
        if name == "format":
            if isinstance(o, str) and all(isinstance(x, (str, int, float)) for x in list(args) + list(kw.values())):
                try:
                    return o.format(*args, **kw)
                except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
                    self.throw(type(e).__name__, f"format: {e}")
            ks = tuple(sorted((k, keyof(v)) for k, v in kw.items()))
            return T("format", keyof(o), tuple(keyof(a) for a in args), ks)
        if name == "join":
            ps = self.seq_parts(args[0])
            if ps is None:
                return T("join", keyof(o), keyof(args[0])) if not isinstance(args[0], Top) else Top("join")
            if isinstance(o, str) and all(isinstance(p, One) and isinstance(p.v, str) for p in ps):
                return o.join(p.v for p in ps)
            return T("join", keyof(o), label_key(ps, self.order_alias))
        if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and not kw:
            try:
                r = getattr(o, name)(*args)
            except Exception:
                return Top("string method")
            if isinstance(r, (str, int, bool)):
                return r
            if isinstance(r, list):
                return LObj([One(x) for x in r])
            return Top("string method")
        if name in ("copy", "item", "ravel", "squeeze", "min", "max", "sum"):
            return o
        return T("strm", name, keyof(o), tuple(keyof(a) for a in args)) if not any(isinstance(a, Top) for a in args) else Top("string method")

    # ---------------------------------------------------------------- builtins
    consts = {}
    hooks = {}
    ret_hooks = {}

    def b_len(self, a, k):
        return self.length(a[0])

    def b_range(self, a, k):
        if len(a) == 1:
            return RangeV(0, a[0])
        if len(a) == 2:
            return RangeV(a[0], a[1])
        return RangeV(a[0], a[1], None, a[2])

    def seq_copy(self, a, mk):
        if not a:
            return mk([])
        v = a[0]
        if isinstance(v, Top):
            return v if v.bad else mk([HolePart("unknown")])
        if isinstance(v, str):
            return mk([One(c) for c in v])
        if isinstance(v, Arr):
            ps = self.arr_parts(v)
        else:
            ps = self.seq_parts(v)
        if ps is None:
            if isinstance(v, RangeV):
                return v
            if v is None or isinstance(v, (int, float)):
                self.throw("TypeError", "not iterable")
            return mk([HolePart("unknown")])
        r = mk(ps)
        self.consume(v)
        return r

    def b_list(self, a, k):
        return self.seq_copy(a, LObj)

    def b_tuple(self, a, k):
        if a and isinstance(a[0], T) and a[0].op == "anames":
            return a[0]
        return self.seq_copy(a, Tup)

    def b_iter(self, a, k):
        v = a[0]
        if len(a) == 1 and isinstance(v, (LObj, Tup, SObj, View, DObj)) and not self.one_shot(v):
            ps = self.seq_parts(v)
            if ps is not None:
                return self.iterator(ps)
        return v

    def need_iterable(self, *a):
        for x in a:
            if x is None or isinstance(x, (bool, int, float)):
                self.throw("TypeError", f"'{type(x).__name__}' object is not iterable")

    def b_set(self, a, k):
        if not a:
            return SObj()
        self.need_iterable(a[0])
        if isinstance(a[0], Bad):
            return a[0]
        s = self.to_set(a[0])
        self.consume(a[0])
        r = SObj(s.parts)
        if getattr(s, "src", None) is not None:
            r.src = s.src
        return r

    b_frozenset = b_set

    def b_dict(self, a, k):
        d = DObj()
        if a:
            if isinstance(a[0], Bad):
                return a[0]
            if isinstance(a[0], DObj):
                d.ents = list(a[0].ents)
                if getattr(a[0], "imprecise", False):
                    d.imprecise = True
            else:
                self.dict_update(d, a[0])
                self.consume(a[0])
        for n, v in k.items():
            if n != "**":
                self.dict_set(d, n, v)
        return d

    def b_enumerate(self, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        v = a[0]
        self.need_iterable(v)
        if isinstance(v, Arr):
            v = Tup(self.arr_parts(v) or [HolePart("x")])
        ps = self.enumerate_parts(v, start)
        if ps is None:
            return self.top("enumerate of unknown")
        self.consume(v)
        return self.iterator(ps)

    def b_zip(self, a, k):
        if any(isinstance(x, StarArg) for x in a):
            return self.top("zip of star argument")
        self.need_iterable(*a)
        a = [Tup(self.arr_parts(x) or [HolePart("x")]) if isinstance(x, Arr) else x for x in a]
        for x in a:
            if isinstance(x, Bad):
                return x
        ps = self.zip_parts(a)
        if ps is None:
            return self.top("zip of unknown")
        for x in a:
            self.consume(x)
        return self.iterator(ps)

    def b_reversed(self, a, k):
        self.need_iterable(a[0])
        ps = self.seq_parts(a[0])
        if ps is None:
            return Top("reversed")
        r = self.slice_parts(ps, SliceV(None, None, -1))
        self.consume(a[0])
        return self.iterator(r) if r is not None else Top("reversed")

    def b_map(self, a, k):
        l = self.iterator([])
        f = a[0]
        if len(a) > 2:
            it = self.b_zip(a[1:], {})
            def body(e):
                q = self.seq_parts(e)
                self.append(l, self.call(f, [x.v for x in q], {}))
        else:
            it = a[1]
            def body(e):
                self.append(l, self.call(f, [e], {}))
        self.run_loop(it, body, None, None)
        return l

    def b_filter(self, a, k):
        l = self.iterator([])
        def body(e):
            c = e if a[0] is None else self.call(a[0], [e], {})
            if self.truth(c):
                self.append(l, e)
        self.run_loop(a[1], body, None, None)
        return l

    def b_print(self, a, k):
        return None

    def b_sorted(self, a, k):
        v = a[0]
        key, rev = k.get("key"), k.get("reverse", False)
        ps = self.seq_parts(v)
        if ps is None:
            return Top("sorted")
        self.consume(v)
        if all(isinstance(p, One) and isinstance(p.v, str) for p in ps) and key is None and isinstance(rev, bool):
            return LObj(sorted(ps, key=lambda p: p.v, reverse=rev))
        if len(ps) <= 1 and all(isinstance(p, One) for p in ps):
            return LObj(ps)
        if all(isinstance(p, One) for p in ps) and isinstance(rev, bool) and len(ps) <= 400:
            r = self.sort_ones(ps, key, rev)
            if r is not None:
                return r
        ges = []
        for p in ps:
            if not isinstance(p, Map):
                h = self.sort_hook(ps, key, rev)
                return h
            ges += list(p.ges)
        if key is None and not rev:
            if all(ge.ident() for ge in ges):
                return LObj([Map("sorted", ges)])
            orders = set()
            for ge in ges:
                if not (isinstance(ge.v, T) and ge.v.op == "pos"):
                    orders.add(None)
                    continue
                sk, kk, g = self.pos_index(ge.v)
                orders.add((sk, sk[kk][1]) if kk is not None and isinstance(g, T) and g is ge.g else None)
            if len(orders) == 1 and None not in orders:
                return LObj([Map(orders.pop()[1], ges)])
            return LObj([Map(("sortedvals", label_key([Map("?", ges)])), ges)])
        ck = None
        if key is not None:
            ks = []
            for ge in ges:
                star = G(ge.g.args[0], ge.g.args[1], "*")
                kv = self.call(key, [self.subst(ge.v, {ge.g: star})], {})
                if isinstance(kv, Top):
                    return Top("sorted with unknown key")
                ks.append((ge.g.args[0], ge.g.args[1], keyof(kv)))
            ck = frozenset(ks)
        return LObj([Map(("sorted", ck, keyof(rev)), ges)])

    def sort_hook(self, ps, key, rev):
        return Top("sorted mixed sequence")

    def sort_ones(self, ps, key, rev):
        """stable insertion sort of finitely many elements; comparisons of unknown numbers are decided per path"""
        ks = [self.call(key, [p.v], {}) if key is not None and not (isinstance(key, Ext) and key.path == "builtins.str" and isinstance(p.v, str)) else p.v for p in ps]
        if any(isinstance(x, (Top, HObj)) for x in ks):
            return None
        if all(isinstance(x, str) for x in ks) or all(isinstance(x, (int, float)) and x == x for x in ks):
            ix = sorted(range(len(ps)), key=lambda i: ks[i], reverse=rev)
            return LObj([ps[i] for i in ix])
        if len(ps) > 12:
            return None
        out = []
        for i in range(len(ps)):
            j = len(out)
            while j > 0:
                c = self.compare("<", ks[out[j - 1]], ks[i]) if rev else self.compare("<", ks[i], ks[out[j - 1]])
                if isinstance(c, Top) or c is None:
                    return None
                if not self.truth_of(c):
                    break
                j -= 1
            out.insert(j, i)
        return LObj([ps[i] for i in out])

    def truth_of(self, c):
        return c if isinstance(c, bool) else self.decide(c)

    def cond_family(self, v):
        """list of (cond or (order, ge)) of an iterable of conditions"""
        ps = self.seq_parts(v)
        return ps

    def b_any(self, a, k):
        return self.anyall(a[0], True)

    def b_all(self, a, k):
        r = self.anyall(a[0], False)
        return self.neg(r) if not isinstance(r, Top) else r

    def anyall(self, v, want):
        """exists an element with truth == want"""
        if isinstance(v, Arr):
            return self.arr_anyall(v, want)
        ps = self.cond_family(v)
        if ps is None:
            return v if isinstance(v, Bad) else Top("any/all of unknown")
        conds = []
        for p in ps:
            if isinstance(p, One):
                c = p.v
                if isinstance(c, Top):
                    return c
                if not (isinstance(c, bool) or isinstance(c, T) and self.is_cond(c)):
                    c = self.truth(c)
                if c is want:
                    return True
                if not isinstance(c, bool):
                    conds.append(c if want else self.neg(c))
            else:
                for ge in p.ges:
                    c = ge.v
                    if isinstance(c, Flat):
                        return Top("nested any/all")
                    if isinstance(c, Top):
                        return c
                    if isinstance(c, bool):
                        if c is want:
                            if not ge.guards:
                                conds.append(self.nonempty_fam(ge))
                            else:
                                conds.append(T("exists", self.ordk(p.order), frozenset([(ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g))])))
                        continue
                    if not (isinstance(c, T)):
                        return Top("any/all of values")
                    lit = (c, want) if c.op != "not" else (c.args[0], not want)
                    lit = ((self.norm(lit[0])), lit[1])
                    conds.append(T("exists", self.ordk(p.order), frozenset(
                        [(ge.g.args[0], ge.g.args[1], canon_guards(tuple(ge.guards) + (lit,), ge.g))])))
        conds = [c for c in conds if c is not False]
        if any(c is True for c in conds):
            return True
        if not conds:
            return False
        return conds[0] if len(conds) == 1 else T("or", *conds)

    def nonempty_fam(self, ge):
        a = ge.g.args[1]
        if B.is_bs(a):
            return T("not", T("bsempty", a))
        if isinstance(a, str) and a.endswith("?"):
            return T("nonempty", ge.g.args[0], a)
        return True

    def learn(self, c, b):
        super().learn(c, b)
        if isinstance(c, T) and c.op == "exists" and not b:
            for ent in c.args[1]:
                lits = ent[2]
                if isinstance(lits, frozenset) and len(lits) == 1 and len(ent) == 3:
                    (cnd, bl), = lits
                    self.forall.append((cnd, not bl))

    def b_sum(self, a, k):
        v = a[0]
        if isinstance(v, Arr):
            return self.call_ext(Ext("numpy.sum"), [v], {})
        acc = a[1] if len(a) > 1 else k.get("start", 0)
        ps = self.seq_parts(v)
        if ps is None:
            return v if isinstance(v, Bad) else Top("sum of unknown")
        self.consume(v)
        for p in ps:
            if isinstance(p, One):
                acc = self.binop("+", acc, p.v)
            else:
                for ge in p.ges:
                    x = num(ge.v) if not isinstance(ge.v, (Flat, Top)) else None
                    if x is None:
                        return Top("sum")
                    star = G(ge.g.args[0], ge.g.args[1], ("b", "s"))
                    acc = self.binop("+", acc, T("sum", ge.g.args[0], ge.g.args[1], frozenset(subst(ge.guards, {ge.g: star})),
                                                 subst(x, {ge.g: star})))
        return acc

    def minmax(self, which, a, k):
        key = k.get("key")
        if len(a) == 1:
            ps = self.seq_parts(a[0])
            if ps is None:
                return Top(which)
        else:
            ps = [One(x) for x in a]
        if any(isinstance(p, One) and isinstance(p.v, Top) for p in ps):
            return Top(which)
        if key is None and all(isinstance(p, One) and isinstance(p.v, (int, float)) and p.v == p.v for p in ps) and ps:
            return (min if which == "min" else max)(p.v for p in ps)
        if len(ps) == 1 and isinstance(ps[0], One):
            return ps[0].v
        if not ps:
            if "default" in k:
                return k["default"]
            self.throw("ValueError", which)
        if key is None and all(isinstance(p, One) and isinstance(p.v, str) for p in ps):
            return (min if which == "min" else max)(p.v for p in ps)
        if key is None and getattr(self, "extreme", None) and all(isinstance(p, One) for p in ps) and any(isinstance(p.v, ndsym.Poly) for p in ps):
            return ndsym.guard(self, lambda: ndsym.wrap(self, self.extreme(which, [ndsym.conv(self, p.v) for p in ps])))
        if key is None:
            return T(which, label_key(ps, self.order_alias))
        if all(isinstance(p, One) for p in ps) and len(ps) <= 12:
            best = ps[0].v
            bk = self.call(key, [best], {})
            for p in ps[1:]:
                x = self.call(key, [p.v], {})
                c = self.compare("<", x, bk) if which == "min" else self.compare("<", bk, x)
                if isinstance(c, Top) or c is None:
                    return self.top(which + " with key")
                if self.truth_of(c):
                    best, bk = p.v, x
            return best
        return self.top(which + " with key")

    def b_min(self, a, k):
        return self.minmax("min", a, k)

    def b_max(self, a, k):
        return self.minmax("max", a, k)

    def b_abs(self, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, Top):
            return v
        if isinstance(v, Arr):
            return self.arr_unary("abs", v)
        if hasattr(v, "abs_binop"):
            return self.call_ext(Ext("numpy.abs"), [v], {})
        n = num(v)
        return T("abs", n) if n is not None else Top("abs")

    def b_float(self, a, k):
        v = a[0] if a else 0.0
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                self.throw("ValueError")
        if isinstance(v, (int,)):
            return float(v)
        return v

    def b_int(self, a, k):
        v = a[0] if a else 0
        if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
            return int(v)
        return v if isinstance(v, (Top, N)) else (T("int", v) if isinstance(v, T) else Top("int"))

    def b_bool(self, a, k):
        return self.truth(a[0]) if a else False

    def b_str(self, a, k):
        return self.to_str(a[0]) if a else ""

    b_repr = b_str

    def b_round(self, a, k):
        v, d = a[0] if a else k.get("number"), a[1] if len(a) > 1 else k.get("ndigits")
        hook = getattr(self, "rounding", None)
        r = hook(v, d) if hook else None
        if r is not None:
            return r
        if isinstance(v, (int, float)) and (d is None or isinstance(d, int)):
            if v != v or abs(v) == float("inf"):
                return v if d is not None else self.throw("OverflowError", "cannot convert to an integer")
            return round(v, d)
        return self.top("round")

    def b_id(self, a, k):
        return T("id", id(a[0]))

    def b_callable(self, a, k):
        v = a[0]
        if isinstance(v, Top):
            return Top("callable")
        return isinstance(v, (FuncV, Bound, PyFn, ClsV, Ext, BM)) or isinstance(v, T) and v.op == "fn"

    def b_next(self, a, k):
        ps = self.seq_parts(a[0])
        if ps is None:
            return Top("next")
        if not ps:
            if len(a) > 1:
                return a[1]
            self.throw("StopIteration")
        if isinstance(ps[0], One):
            if self.one_shot(a[0]):
                self.setparts(a[0], ps[1:], "next")
            return ps[0].v
        # first element of a (filtered) family
        p = ps[0]
        if len(ps) == 1 and len(a) > 1:
            if not self.truth_parts(ps):
                return a[1]
        if self.one_shot(a[0]):
            return self.list_pop(a[0], 0)
        return self.end_elem(p, "first")

    def b_type(self, a, k):
        v = a[0]
        if isinstance(v, Inst):
            return v.cls
        n = self.type_name(v)
        return Ext(n) if n else Top("type")

    def type_name(self, v):
        if isinstance(v, bool):
            return "builtins.bool"
        if isinstance(v, int):
            return "builtins.int"
        if isinstance(v, float):
            return "builtins.float"
        if isinstance(v, str):
            return "builtins.str"
        if isinstance(v, LObj):
            return {"list": "builtins.list", "deque": "collections.deque"}.get(v.kind, "builtins." + v.kind)
        if isinstance(v, Tup):
            return "builtins.tuple"
        if isinstance(v, DObj):
            return "builtins.dict"
        if isinstance(v, SObj):
            return "builtins.set"
        if isinstance(v, Arr):
            return "numpy.ndarray"
        if isinstance(v, LenV):
            return "builtins.int"
        if isinstance(v, T):
            if v.op == "g" and v.args[0] == "V" or v.op in ("str", "join", "strof", "format", "fmt", "strm", "sym"):
                return "builtins.str"
            if v.op in ("pos", "posone", "len", "count", "int", "card"):
                return "builtins.int"
            if v.op == "fn":
                return "types.FunctionType"
            if v.op in ("scal", "val", "sum", "sqrt", "at", "ten", "det", "max", "min") or scalar_atom(v):
                return "builtins.float"
            return None
        if isinstance(v, N):
            return "builtins.float"
        if isinstance(v, (FuncV, Bound, PyFn, BM)):
            return "types.FunctionType"
        if v is None:
            return "builtins.NoneType"
        if isinstance(v, RangeV):
            return "builtins.range"
        return None

    ABC_OF = {"collections.abc.Iterable": {"list", "tuple", "dict", "set", "ndarray", "deque", "str", "range"},
              "collections.abc.Sequence": {"list", "tuple", "str", "range"},
              "numbers.Number": {"int", "float", "bool"}, "numbers.Real": {"int", "float", "bool"},
              "collections.abc.Mapping": {"dict"}, "collections.abc.Callable": {"FunctionType"},
              "numpy.number": set(), "numpy.floating": set(), "builtins.object": None}

    def b_isinstance(self, a, k):
        v, c = a
        if isinstance(c, Tup):
            res = [self.b_isinstance([v, p.v], {}) for p in c.parts]
            if any(r is True for r in res):
                return True
            if all(r is False for r in res):
                return False
            return next(r for r in res if r is not False)
        if isinstance(v, Top) or isinstance(c, Top):
            return v if isinstance(v, Bad) else Top("isinstance")
        f = getattr(v, "abs_isinstance", None)
        if f is not None:
            return f(self, c)
        if isinstance(v, Inst):
            if isinstance(c, ClsV):
                return v.cls.sub(c)
            return c == Ext("builtins.object") or c in v.cls.ext_bases()
        if isinstance(c, ClsV):
            if isinstance(v, Exc) and isinstance(v.cls, ClsV):
                return v.cls.sub(c)
            return False
        n = self.type_name(v)
        if n is None:
            return Top("isinstance of " + type(v).__name__)
        if isinstance(c, Ext):
            if c.path in self.ABC_OF:
                s = self.ABC_OF[c.path]
                return True if s is None else n.split(".")[-1] in s
            if n == "builtins.bool" and c.path == "builtins.int":
                return True
            if n == "builtins.float" and not isinstance(v, float) and c.path in ("builtins.int",):
                return T("isinst", keyof(v), "int")
            return n == c.path or n.split(".")[-1] == c.path.split(".")[-1]
        return Top("isinstance")

    def b_issubclass(self, a, k):
        if isinstance(a[0], ClsV) and isinstance(a[1], ClsV):
            return a[0].sub(a[1])
        return Top("issubclass")

    def b_hasattr(self, a, k):
        s = object()
        if isinstance(a[0], Top):
            return Top("hasattr")
        try:
            self.getattr(a[0], a[1])
            return True
        except PyRaise as e:
            if e.exc.cname == "AttributeError":
                return False
            raise

    def b_getattr(self, a, k):
        if not isinstance(a[1], str):
            return self.top("getattr with a computed name")
        if len(a) > 2:
            try:
                return self.getattr(a[0], a[1])
            except PyRaise as e:
                if e.exc.cname == "AttributeError":
                    return a[2]
                raise
        return self.getattr(a[0], a[1])

    def b_setattr(self, a, k):
        if isinstance(a[1], str):
            self.setattr(a[0], a[1], a[2])
        else:
            self.note("setattr with a computed name")
        return None

    def b_super(self, a, k):
        if len(a) == 2 and isinstance(a[0], ClsV):
            return Super(a[0], a[1])
        return Top("super")

    def b_vars(self, a, k):
        return self.getattr(a[0], "__dict__")

    def b_slice(self, a, k):
        a = list(a) + [None] * (3 - len(a)) if len(a) != 1 else [None, a[0], None]
        return SliceV(*a[:3])

    def b_object(self, a, k):
        return T("obj", fresh())

    def b_hash(self, a, k):
        return T("hash", keyof(a[0]))

    def b_pow(self, a, k):
        return self.binop("**", a[0], a[1])

    def b_divmod(self, a, k):
        return Top("divmod")

    # ---------------------------------------------------------------- copying
    def deepcopy(self, v, memo=None):
        memo = {} if memo is None else memo
        if isinstance(v, HObj) and id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, Inst):
            m, _ = v.cls.find("__deepcopy__")
            if m is not None:
                return self.call(Bound(m, v), [DObj()], {})
            o = Inst(v.cls)
            memo[id(v)] = (v, o)
            o.fields = {k: self.deepcopy(x, memo) for k, x in v.fields.items()}
            if getattr(v, "open", False):
                o.open = True
            return o
        if isinstance(v, (LObj, SObj)):
            o = type(v)([], v.kind)
            memo[id(v)] = (v, o)
            o.parts = self.deep_parts(v.parts, memo)
            return o
        if isinstance(v, Tup):
            return Tup(self.deep_parts(v.parts, memo))
        if isinstance(v, Flat):
            return Flat(self.deep_parts(v.parts, memo))
        if isinstance(v, DObj):
            o = DObj()
            memo[id(v)] = (v, o)
            o.default = v.default
            if getattr(v, "imprecise", False):
                o.imprecise = True
            o.ents = [DEnt(e.key, self.deepcopy(e.val, memo), e.order, e.g, e.guards, e.outer) for e in v.ents]
            return o
        if isinstance(v, Arr):
            o = Arr(self.aval(v))
            memo[id(v)] = (v, o)
            return o
        if isinstance(v, RepList):
            return RepList(self.deepcopy(v.v, memo), v.n)
        f = getattr(v, "abs_deepcopy", None)
        if f is not None:
            return f(self, memo)
        return v

    def deep_parts(self, parts, memo):
        out = []
        for p in parts:
            if isinstance(p, One):
                out.append(One(self.deepcopy(p.v, memo)))
            elif isinstance(p, Map):
                out.append(Map(p.order, [GE(ge.g, ge.guards, self.deepcopy(ge.v, memo)) for ge in p.ges]))
            else:
                out.append(p)
        return out

    def shallow(self, v):
        if isinstance(v, Inst):
            m, _ = v.cls.find("__copy__")
            if m is not None:
                return self.call(Bound(m, v), [], {})
            o = Inst(v.cls, v.fields)
            if getattr(v, "open", False):
                o.open = True
            return o
        if isinstance(v, LObj):
            return LObj(v.parts, v.kind)
        if isinstance(v, SObj):
            return SObj(v.parts, v.kind)
        if isinstance(v, DObj):
            o = DObj(v.ents)
            o.default = v.default
            if getattr(v, "imprecise", False):
                o.imprecise = True
            return o
        if isinstance(v, Arr):
            return Arr(self.aval(v))
        f = getattr(v, "abs_copy", None)
        if f is not None:
            return f(self)
        return v

    def aval(self, a):
        """current content of an array (unknown if written through another view)"""
        if a.ver != a.buf.ver:
            return Top("array written through a view")
        return a.val


# ---- standard library ------------------------------------------------------------------------

def stdlib(it):
    L = it.lib

    def reg(*names):
        def d(f):
            for n in names:
                L[n] = f
            return f
        return d

    @reg("copy.deepcopy")
    def _dc(it, a, k):
        return it.deepcopy(a[0])

    @reg("copy.copy")
    def _c(it, a, k):
        return it.shallow(a[0])

    for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**"), ("matmul", "@"),
                   ("and_", "&"), ("or_", "|")):
        L["operator." + nm] = (lambda op: lambda it, a, k: it.binop(op, a[0], a[1]))(op)
    for nm, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">=")):
        L["operator." + nm] = (lambda op: lambda it, a, k: it.compare(op, a[0], a[1]))(op)
    L["operator.neg"] = lambda it, a, k: it.binop("*", -1, a[0])

    @reg("operator.itemgetter")
    def _ig(it, a, k):
        idx = list(a)
        if len(idx) == 1:
            return PyFn(lambda it2, b, kk: it2.getitem(b[0], idx[0]))
        return PyFn(lambda it2, b, kk: Tup([One(it2.getitem(b[0], i)) for i in idx]))

    @reg("operator.attrgetter")
    def _ag(it, a, k):
        n = a[0]
        return PyFn(lambda it2, b, kk: it2.getattr(b[0], n))

    @reg("operator.methodcaller")
    def _mc(it, a, k):
        n, rest, kws = a[0], list(a[1:]), dict(k)
        return PyFn(lambda it2, b, kk: it2.call(it2.getattr(b[0], n), rest, kws))

    @reg("functools.partial")
    def _pt(it, a, k):
        f, pre, kw = a[0], list(a[1:]), dict(k)
        return PyFn(lambda it2, b, kk: it2.call(f, pre + list(b), {**kw, **kk}))

    @reg("functools.reduce")
    def _rd(it, a, k):
        f, seq = a[0], a[1]
        ps = it.seq_parts(seq)
        if ps is None:
            return Top("reduce of unknown")
        if len(a) > 2:
            acc = a[2]
        else:
            if not ps:
                it.throw("TypeError", "reduce of empty sequence")
            if not isinstance(ps[0], One):
                l = LObj(ps)
                acc = it.getitem(l, 0)
                ps = it.slice_parts(ps, SliceV(1, None, None))
                if ps is None:
                    return Top("reduce")
            else:
                acc = ps[0].v
                ps = ps[1:]
        return it.loop_fold(ps, acc, lambda x, e: it.call(f, [x, e], {}))

    @reg("itertools.chain")
    def _ch(it, a, k):
        out = []
        for x in a:
            if isinstance(x, StarArg):
                return L["itertools.chain.from_iterable"](it, [x.v], {})
            ps = it.seq_parts(x)
            if ps is None:
                return Top("chain")
            out += ps
        return Tup(out)

    @reg("itertools.chain.from_iterable")
    def _cf(it, a, k):
        l = LObj()
        def body(e):
            ps = it.seq_parts(e)
            if ps is None:
                it.append(l, Top("chain"))
            else:
                it.extend(l, ps)
        it.run_loop(a[0], body, None, None)
        return l

    @reg("itertools.product")
    def _pr(it, a, k):
        seqs = [it.seq_parts(x) for x in a]
        if not k and all(s is not None and all(isinstance(p, One) for p in s) for s in seqs):
            import itertools
            n = 1
            for s in seqs:
                n *= len(s)
            if n <= 2000:
                o = LObj([One(Tup([One(p.v) for p in c])) for c in itertools.product(*seqs)])
                o.once = True
                return o
        if len(a) == 2 and not k:
            l = LObj()
            def b1(x):
                def b2(y):
                    it.append(l, Tup.of(x, y))
                it.run_loop(a[1], b2, None, None)
            it.run_loop(a[0], b1, None, None)
            return l
        if len(a) == 1 and k.get("repeat") == 2:
            return _pr(it, [a[0], a[0]], {})
        return Top("itertools.product")

    @reg("itertools.combinations")
    def _cb(it, a, k):
        ps = it.seq_parts(a[0])
        if ps is not None and a[1] == 2 and all(isinstance(p, One) for p in ps):
            return LObj([One(Tup.of(ps[i].v, ps[j].v)) for i in range(len(ps)) for j in range(i + 1, len(ps))])
        if ps is not None and a[1] == 2 and len(ps) == 1 and len(ps[0].ges) == 1:
            l = LObj()
            lo = LObj(ps)
            n = it.length(lo)
            def b1(i):
                def b2(j):
                    it.append(l, Tup.of(it.getitem(lo, i), it.getitem(lo, j)))
                it.run_loop(RangeV(it.binop("+", i, 1), n), b2, None, None)
            it.run_loop(RangeV(0, n), b1, None, None)
            return l
        return Top("itertools.combinations")

    @reg("collections.deque")
    def _dq(it, a, k):
        r = it.b_list(a, {})
        if isinstance(r, LObj):
            r.kind = "deque"
        return r

    @reg("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys")
    def _fk(it, a, k):
        d = DObj()
        v = a[1] if len(a) > 1 else None
        it.run_loop(a[0], lambda e: it.dict_set(d, e, v), None, None)
        return d

    @reg("collections.OrderedDict")
    def _od(it, a, k):
        return it.b_dict(a, k)

    @reg("collections.defaultdict")
    def _dd(it, a, k):
        d = it.b_dict(a[1:], {})
        if a and a[0] is not None:
            d.default = a[0]
        return d

    for n in ("warnings.catch_warnings", "warnings.simplefilter", "warnings.warn", "warnings.filterwarnings",
              "numpy.errstate", "numpy.seterr", "time.time", "numpy.random.seed", "logging.info", "logging.debug",
              "contextlib.suppress"):
        L[n] = lambda it, a, k: None
    return it
