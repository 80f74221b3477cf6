"""Abstract interpreter for the python subset used by the repository.

Control: trace partitioning. A run follows one list of branch decisions; `explore` enumerates them.
Loops over symbolic sequences are not unrolled: the body is analysed once per element family with a
generic element, its effects are recorded and then summarised (appends become families, accumulations
become folds, generic array stores become block stores)."""
import ast
import os
from .terms import *
from .heap import *


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class Bail(Exception):
    """the path cannot be analysed further"""


class BadBranch(Bail):
    """a branch depends on a misaligned value"""

    def __init__(self, v):
        super().__init__(v.why)
        self.v = v


class Frame:
    __slots__ = ("env", "parent", "func", "mod", "cls", "node", "nonlocals", "self_", "gen")

    def __init__(self, func, mod, parent=None, cls=None):
        self.env, self.parent, self.func, self.mod, self.cls = {}, parent, func, mod, cls
        self.node = None
        self.nonlocals = ()
        self.self_ = None


class Local:
    """decisions about one generic element"""
    __slots__ = ("gs", "dec", "taken", "memo", "forced")

    def __init__(self, gs, dec):
        self.gs, self.dec, self.taken, self.memo, self.forced = set(gs), dec, [], {}, []


CURRENT = [None]
TAINT = [False]         # the path being reported took a branch whose condition the analysis does not know


class Outcome:
    def __init__(self, kind, value, it, trace):
        self.kind, self.value, self.trace = kind, value, trace
        self.events = list(it.events)
        self.memo = dict(it.memo)
        self.mutations = it.ext_mutations()
        self.undecided = list(it.undecided)
        self.facts = list(it.taken)


class HoleSet:
    pass


BUILTIN_EXC = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "AssertionError",
               "NotImplementedError", "Warning", "RuntimeError", "ZeroDivisionError", "StopIteration", "ImportError",
               "ArithmeticError", "LookupError", "NameError", "UnboundLocalError", "BaseException", "OverflowError",
               "FloatingPointError", "UserWarning", "DeprecationWarning", "RuntimeWarning"}
EXC_PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
              "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "UnboundLocalError": "NameError",
              "ZeroDivisionError": "ArithmeticError", "LinAlgError": "ValueError", "FloatingPointError": "ArithmeticError",
              "ArithmeticError": "Exception", "Exception": "BaseException"}


def exc_is(name, target):
    while name:
        if name == target:
            return True
        if name == "BaseException":
            return False
        name = EXC_PARENT.get(name, "Exception" if name != "Exception" else "BaseException")
    return False


class Interp:
    MAX_DEPTH = 40
    MAX_STEPS = 400000

    def __init__(self, root="/repo", pkg="veroku"):
        self.root, self.pkg = root, pkg
        self.mods = {}
        self.lib = {}          # dotted path -> python callable(interp, args, kwargs, node)
        self.opq_handlers = []
        self.stubs = {}        # qualified repo function -> python callable (interp, args, kwargs)
        self.visited_funcs = set()
        self.visited_nodes = set()
        self.all_undecided = {}
        self.calls = 0
        self.paths = 0
        self.order_alias = {}
        self.reset_run()

    # ---------------------------------------------------------------- runs
    def reset_run(self):
        self.dec, self.taken = [], []
        self.memo = {}
        self.locals = []
        self.journal = []
        self.events = []
        self.undecided = []
        self.stack = []
        self.steps = 0
        self.forall = []
        self.inst_memo = {}
        self.order_alias = {}
        self.seq_alias = {}
        self.pure = 0
        self.len_skel = {}
        self.sing_tries = 0
        self.cur = None

    set_rev = False            # iterate over sets of concrete elements in the opposite order (hash order is arbitrary)
    zone = None                # predicate: unknown real numbers that are non-negative (enables difference constraints)

    def explore(self, thunk, max_paths=3000):
        """run thunk(self) under every decision list; yields Outcomes"""
        work = [[]]
        n = 0
        while work:
            d = work.pop()
            self.reset_run()
            CURRENT[0] = self
            self.dec = d
            n += 1
            if n > max_paths:
                raise Bail(f"more than {max_paths} paths")
            self.paths += 1
            try:
                v = thunk(self)
                o = Outcome("return", v, self, None)
            except PyRaise as e:
                o = Outcome("raise", e.exc, self, None)
            except BadBranch as e:
                o = Outcome("bad", e.v, self, None)
            except Bail as e:
                o = Outcome("bail", str(e), self, None)
            except RecursionError:
                o = Outcome("bail", "recursion", self, None)
            for i in range(len(d), len(self.taken)):
                work.append([b for _, b in self.taken[:i]] + [not self.taken[i][1]])
            CURRENT[0] = None
            TAINT[0] = any(isinstance(f, T) and f.op == "unknown" for f, _ in o.facts)
            try:
                yield o
            finally:
                TAINT[0] = False

    def note(self, why):
        loc = self.loc()
        self.undecided.append((why, loc))
        k = (why, loc)
        self.all_undecided[k] = self.all_undecided.get(k, 0) + 1

    def top(self, why):
        self.note(why)
        return Top(why)

    def bad(self, why):
        return Bad(why, self.loc())

    def loc(self):
        n = self.cur
        if n is None:
            return "?"
        fr = self.stack[-1] if self.stack else None
        fn = fr.func.qual if fr is not None and fr.func is not None else "?"
        return f"{fn}:{getattr(n, 'lineno', '?')}"

    def trace(self):
        return " > ".join(f.func.qual.split(":")[-1] for f in self.stack if f.func)

    def event(self, kind, *data):
        e = (kind, self.loc(), self.trace()) + data
        self.events.append(e)
        self.log("event", self.events, None, None, e)

    # ---------------------------------------------------------------- decisions
    def decide(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, T):
            if c.op == "not":
                return not self.decide(c.args[0])
            if c.op == "and":
                return all(self.decide(a) for a in c.args)
            if c.op == "or":
                return any(self.decide(a) for a in c.args)
        v = self.lookup(c)
        if v is not None:
            return v
        gs = gens(c)
        for lf in reversed(self.locals):
            if lf.gs & gs:
                i = len(lf.taken)
                b = lf.dec[i] if i < len(lf.dec) else True
                lf.taken.append((c, b))
                lf.memo[c] = b
                return b
        i = len(self.taken)
        b = self.dec[i] if i < len(self.dec) else True
        self.taken.append((c, b))
        self.memo[c] = b
        self.learn(c, b)
        return b

    def learn(self, c, b):
        if isinstance(c, T) and c.op == "seqeq" and b:
            p, q = c.args
            self.seq_alias[q] = p
            if len(p) == 1 and len(q) == 1 and p[0][0] == "m" and q[0][0] == "m" and ident_key(p[0]) and ident_key(q[0]):
                if not (isinstance(q[0][1], str) and q[0][1] == "sorted"):
                    self.order_alias[q[0][1]] = canon_order(p[0][1], self.order_alias)
                elif p[0][1] != q[0][1]:
                    self.order_alias[p[0][1]] = q[0][1]

    def lookup(self, c):
        for lf in reversed(self.locals):
            if c in lf.memo:
                return lf.memo[c]
        if c in self.memo:
            return self.memo[c]
        gs = gens(c)
        if gs and self.forall:
            for g in gs:
                star = G(g.args[0], g.args[1], "*")
                k = subst(c, {g: star})
                for (c2, b2) in self.forall:
                    if c2 == k:
                        return b2
        return self.theory(c)

    def theory(self, c):
        if isinstance(c, T) and c.op == "cmp" and len(c.args) == 2:
            if self.zone is not None:
                return self.zone_theory(c)
            r = self._cmp_theory(c)
            if r is not None:
                return r
        return None

    def zone_theory(self, c):
        """order facts between unknown real numbers"""
        from .dbm import Zone
        z = Zone(self.zone)
        for f, b in self.memo.items():
            if isinstance(f, T) and f.op == "cmp" and len(f.args) == 2:
                z.add(f, b)
        if z.entails(c, True):
            return True
        if z.entails(c, False):
            return False
        return None

    def _cmp_theory(self, c):
        """c: T('cmp', op, N) means N op 0, op in < <= ==. Counts of non-empty families are >= 1."""
        op, n = c.args
        lo = ZERO.cval()
        hi_inf = lo_inf = False
        lo = hi = n.cval()
        for (m, w), k in n.t.items():
            if not m and not w:
                continue
            if len(m) == 1 and not w and m[0][1] == 1 and m[0][0].op == "count":
                base = 0 if m[0][0].args[2] else 1
                if k > 0:
                    lo += k * base
                    hi_inf = True
                else:
                    hi += k * base
                    lo_inf = True
            else:
                lo_inf = hi_inf = True
        # facts already decided about the same linear form
        for mm in [self.memo] + [l.memo for l in self.locals]:
            for c2, b in mm.items():
                if isinstance(c2, T) and c2.op == "cmp":
                    d = n - c2.args[1]
                    s = n + c2.args[1]
                    op2 = c2.args[0]
                    if d.is_const():
                        k = d.cval()
                        if op2 == "<" and b or op2 == "<=" and b or op2 == "==" and b:
                            h = (-1 if op2 == "<" else 0) + k
                            if hi_inf or h < hi:
                                hi, hi_inf = h, False
                        if op2 == "<" and not b or op2 == "==" and b:
                            if lo_inf or k > lo:
                                lo, lo_inf = k, False
                        if op2 == "<=" and not b:
                            if lo_inf or k + 1 > lo:
                                lo, lo_inf = k + 1, False
                    if s.is_const():
                        k = s.cval()
                        # -(c2 form) + k
                        if op2 == "<" and b or op2 == "<=" and b or op2 == "==" and b:
                            l = k - (-1 if op2 == "<" else 0)
                            if lo_inf or l > lo:
                                lo, lo_inf = l, False
                        if op2 == "<" and not b or op2 == "==" and b:
                            if hi_inf or k < hi:
                                hi, hi_inf = k, False
                        if op2 == "<=" and not b:
                            if hi_inf or k - 1 < hi:
                                hi, hi_inf = k - 1, False
        if op == "<":
            if not hi_inf and hi < 0:
                return True
            if not lo_inf and lo >= 0:
                return False
        elif op == "<=":
            if not hi_inf and hi <= 0:
                return True
            if not lo_inf and lo > 0:
                return False
        else:
            if (not lo_inf and lo > 0) or (not hi_inf and hi < 0):
                return False
            if not lo_inf and not hi_inf and lo == hi == 0:
                return True
        return None

    # ---------------------------------------------------------------- journal
    def log(self, kind, obj, key, old, new):
        self.journal.append((kind, obj, key, old, new, self.loc() if kind not in ("env", "event") else None))

    def undo_to(self, mark):
        j = self.journal
        while len(j) > mark:
            kind, obj, key, old, new, _ = j.pop()
            if kind == "env":
                if old is HoleSet:
                    obj.pop(key, None)
                else:
                    obj[key] = old
            elif kind == "setattr":
                if old is HoleSet:
                    obj.fields.pop(key, None)
                else:
                    obj.fields[key] = old
            elif kind in ("append", "parts", "extend", "lset"):
                obj.parts = old
            elif kind in ("ents", "setitem"):
                obj.ents = old
            elif kind == "arr":
                obj.val = old
            elif kind == "nd":
                old[0][...] = old[1]
            elif kind == "event":
                if obj is not self.events:
                    obj.pop()
                elif obj and obj[-1] is new:
                    obj.pop()

    def ext_mutations(self):
        out = []
        for i, (kind, obj, key, old, new, loc) in enumerate(self.journal):
            if kind in ("env", "event"):
                continue
            if isinstance(obj, Arr):
                if obj.buf.ext and i >= obj.buf.ext_at:
                    out.append((obj.buf.ext, kind, key, old, new, loc))
            elif obj.ext and i >= obj.ext_at:
                out.append((obj.ext, kind, key, old, new, loc))
        return out

    # mutators -------------------------------------------------------
    def setenv(self, env, name, v):
        self.log("env", env, name, env.get(name, HoleSet), v)
        env[name] = v

    def setattr_raw(self, obj, name, v):
        self.log("setattr", obj, name, obj.fields.get(name, HoleSet), v)
        obj.fields[name] = v

    def append(self, obj, v):
        self.log("append", obj, None, obj.parts, v)
        obj.parts = obj.parts + [One(v)]

    def extend(self, obj, parts):
        self.log("extend", obj, None, obj.parts, list(parts))
        obj.parts = obj.parts + list(parts)

    def setparts(self, obj, parts, why="parts"):
        self.log("parts", obj, why, obj.parts, list(parts))
        obj.parts = list(parts)

    def setents(self, obj, ents, why="ents"):
        self.log("ents", obj, why, obj.ents, list(ents))
        obj.ents = list(ents)

    def setarr(self, arr, val, op=None):
        self.log("arr", arr, op, arr.val, val)
        arr.val = val
        arr.buf.ver += 1
        arr.ver = arr.buf.ver

    # ---------------------------------------------------------------- modules
    def module(self, name):
        if name in self.mods:
            m = self.mods[name]
        else:
            rel = name.replace(".", "/")
            path = os.path.join(self.root, rel + ".py")
            if not os.path.exists(path):
                path = os.path.join(self.root, rel, "__init__.py")
            if not os.path.exists(path):
                return None
            with open(path) as f:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(f.read(), path)
            m = ModV(name, tree, path)
            self.mods[name] = m
        if not m.done:
            m.done = True
            fr = Frame(None, m)
            fr.env = m.env
            m.env["__name__"] = name
            for st in m.tree.body:
                self.mod_stmt(st, fr)
        return m

    def mod_stmt(self, st, fr):
        save = self.cur
        try:
            self.stmt(st, fr)
        except (PyRaise, Bail):
            pass
        self.cur = save

    def make_class(self, node, fr):
        bases = [self.eval(b, fr) for b in node.bases]
        c = ClsV(node.name, fr.mod, node, bases)
        cf = Frame(None, fr.mod, fr, c)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = FuncV(st, fr.mod, fr if fr.func else None, c)
                self.func_defaults(f, fr)
                v = f
                for d in reversed(st.decorator_list):
                    if isinstance(d, ast.Name) and d.id == "property":
                        v = PropV(f)
                    elif isinstance(d, ast.Name) and d.id == "staticmethod":
                        f.kind = "static"
                    elif isinstance(d, ast.Name) and d.id == "classmethod":
                        f.kind = "class"
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        old = c.attrs.get(d.value.id)
                        v = PropV(old.fget if isinstance(old, PropV) else None, f)
                    elif isinstance(d, ast.Attribute) and d.attr == "abstractmethod" or \
                            isinstance(d, ast.Name) and d.id == "abstractmethod":
                        f.abstract = True
                    elif isinstance(d, ast.Attribute) and d.attr == "cached_property" or \
                            isinstance(d, ast.Name) and d.id == "cached_property":
                        v = PropV(f)
                        v.cached = True
                    else:
                        v = self.wrap_decorator(d, v, fr)
                c.attrs[st.name] = v
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        try:
                            c.attrs[t.id] = self.eval(st.value, cf)
                        except (PyRaise, Bail):
                            c.attrs[t.id] = Top("class attribute")
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                c.attrs[st.target.id] = self.eval(st.value, cf)
        for name, v in list(c.attrs.items()):
            cf.env[name] = v
        return c

    def wrap_decorator(self, d, v, fr):
        dv = self.eval(d, fr)
        if isinstance(dv, Ext) and dv.path in ("functools.wraps", "functools.lru_cache", "functools.cache"):
            return v
        if isinstance(dv, FuncV):
            return self.call(dv, [v], {})
        return v

    def func_defaults(self, f, fr):
        a = f.node.args
        f.defaults = [self.eval(d, fr) for d in a.defaults]
        f.kw_defaults = [None if d is None else self.eval(d, fr) for d in a.kw_defaults]

    # ---------------------------------------------------------------- statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Bail("step limit")
        self.cur = st
        self.visited_nodes.add((fr.mod.name, st.lineno))
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Bail(f"unsupported statement {type(st).__name__}")
        m(st, fr)

    def s_Expr(self, st, fr):
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        for a in st.names:
            if a.name.split(".")[0] == self.pkg:
                m = self.module(a.name)
                self.setenv(fr.env, a.asname or a.name.split(".")[0], m if a.asname else self.module(a.name.split(".")[0]))
            else:
                self.setenv(fr.env, a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, st, fr):
        modname = st.module or ""
        if st.level:
            parts = fr.mod.name.split(".")
            if not fr.mod.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            modname = ".".join(parts + ([st.module] if st.module else []))
        for a in st.names:
            if modname.split(".")[0] == self.pkg:
                m = self.module(modname)
                v = HoleSet
                if m is not None and a.name in m.env:
                    v = m.env[a.name]
                if v is HoleSet:
                    sub = self.module(modname + "." + a.name)
                    v = sub if sub is not None else LazyImport(modname, a.name)
            else:
                v = Ext(modname + "." + a.name)
            self.setenv(fr.env, a.asname or a.name, v)

    def s_FunctionDef(self, st, fr):
        f = FuncV(st, fr.mod, fr if (fr.func or fr.parent) else None, fr.cls if False else None)
        self.func_defaults(f, fr)
        f.encl_cls = fr.cls
        v = f
        for d in reversed(st.decorator_list):
            v = self.wrap_decorator(d, v, fr)
        self.setenv(fr.env, st.name, v)

    def s_ClassDef(self, st, fr):
        self.setenv(fr.env, st.name, self.make_class(st, fr))

    def s_Return(self, st, fr):
        raise _Ret(self.eval(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        raise _Brk()

    def s_Continue(self, st, fr):
        raise _Cont()

    def s_Global(self, st, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple((n, "g") for n in st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple((n, "n") for n in st.names)

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            new = self.augop(st.op, old, self.eval(st.value, fr))
            if new is not old:
                self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            old = self.getattr(obj, t.attr)
            new = self.augop(st.op, old, self.eval(st.value, fr))
            if new is not old:
                self.setattr(obj, t.attr, new)
        else:
            obj = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            old = self.getitem(obj, idx)
            new = self.augop(st.op, old, self.eval(st.value, fr))
            self.setitem(obj, idx, new)

    def augop(self, op, old, v):
        if isinstance(op, ast.Add) and isinstance(old, LObj):
            if isinstance(v, (LObj, Tup, SObj, RangeV)) or self.is_iterable(v):
                ps = self.seq_parts(v)
                if ps is not None:
                    self.extend(old, ps)
                    return old
            return self.top("list += unknown")
        if isinstance(old, SObj) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            name = {ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update"}[type(op)]
            self.call(BM(old, name), [v], {})
            return old
        if isinstance(old, Arr):
            new = self.binop(op, old, v)
            if isinstance(new, Arr):
                self.setarr(old, new.val, "inplace")
                return old
            if isinstance(new, Top):
                self.setarr(old, new, "inplace")
                return old
            return new
        f = getattr(old, "abs_iop", None)
        if f is not None:
            return f(self, op, v)
        return self.binop(op, old, v)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Name):
                self.log("env", fr.env, t.id, fr.env.get(t.id, HoleSet), None)
                fr.env.pop(t.id, None)

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_Match(self, st, fr):
        v = self.eval(st.subject, fr)
        for c in st.cases:
            env = {}
            if not self.match(c.pattern, v, fr, env):
                continue
            for n, x in env.items():
                self.setenv(fr.env, n, x)
            if c.guard is not None and not self.truth(self.eval(c.guard, fr)):
                continue
            self.block(c.body, fr)
            return

    def match(self, p, v, fr, env):
        k = type(p).__name__
        if k == "MatchAs":
            if p.pattern is not None and not self.match(p.pattern, v, fr, env):
                return False
            if p.name is not None:
                env[p.name] = v
            return True
        if k == "MatchOr":
            return any(self.match(q, v, fr, env) for q in p.patterns)
        if k == "MatchValue":
            return self.truth(self.eq(v, self.eval(p.value, fr)))
        if k == "MatchSingleton":
            return self.truth(self.is_(v, p.value))
        if k == "MatchClass" and not p.patterns:
            if not self.truth(self.b_isinstance([v, self.eval(p.cls, fr)], {})):
                return False
            return all(self.match(q, self.getattr(v, a), fr, env) for a, q in zip(p.kwd_attrs, p.kwd_patterns))
        if k == "MatchSequence" and isinstance(v, (LObj, Tup)):
            parts = self.seq_parts(v)
            if parts is not None and all(isinstance(x, One) for x in parts):
                pats = p.patterns
                star = [i for i, q in enumerate(pats) if type(q).__name__ == "MatchStar"]
                if not star:
                    return len(pats) == len(parts) and all(self.match(q, x.v, fr, env) for q, x in zip(pats, parts))
                i, n = star[0], len(pats) - 1
                if len(parts) < n:
                    return False
                tail = n - i
                if pats[i].name is not None:
                    env[pats[i].name] = LObj(parts[i:len(parts) - tail])
                return all(self.match(q, x.v, fr, env) for q, x in zip(pats[:i], parts)) and \
                    all(self.match(q, x.v, fr, env) for q, x in zip(pats[i + 1:], parts[len(parts) - tail:]))
        raise Bail(f"unsupported pattern {k}")

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            self.throw("AssertionError", explicit=True)

    def s_Raise(self, st, fr):
        if st.exc is None:
            ex = getattr(self, "handling", None)
            raise PyRaise(ex if ex is not None else Exc("Exception"))
        v = self.eval(st.exc, fr)
        if isinstance(v, Exc):
            v.loc = self.loc()
            v.definite = False
            v.explicit = True
            raise PyRaise(v)
        if isinstance(v, (ClsV, Ext)):
            e = Exc(v, loc=self.loc())
            e.explicit = True
            raise PyRaise(e)
        e = Exc("Exception", loc=self.loc())
        e.explicit = True
        raise PyRaise(e)

    def throw(self, name, msg="", explicit=False):
        e = Exc(Ext("builtins." + name), (msg,), definite=not explicit, loc=self.loc())
        e.explicit = explicit
        raise PyRaise(e)

    def s_With(self, st, fr):
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(st.body, fr)

    def s_Try(self, st, fr):
        names = []
        for h in st.handlers:
            if h.type is None:
                names.append(None)
            elif isinstance(h.type, ast.Tuple):
                names += [self.exc_name(self.eval(x, fr)) for x in h.type.elts]
            else:
                names.append(self.exc_name(self.eval(h.type, fr)))
        self.trying = getattr(self, "trying", [])
        self.trying.append(names)
        try:
            try:
                self.block(st.body, fr)
            finally:
                self.trying.pop()
            self.block(st.orelse, fr)
        except PyRaise as e:
            for h in st.handlers:
                if h.type is None:
                    ok = True
                else:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    ok = any(self.exc_match(e.exc, self.eval(x, fr)) for x in ts)
                if ok:
                    if h.name:
                        self.setenv(fr.env, h.name, e.exc)
                    old = getattr(self, "handling", None)
                    self.handling = e.exc
                    try:
                        self.block(h.body, fr)
                    finally:
                        self.handling = old
                    break
            else:
                self.block(st.finalbody, fr)
                raise
        except (_Ret, _Brk, _Cont):
            self.block(st.finalbody, fr)
            raise
        self.block(st.finalbody, fr)

    def may_catch(self, name):
        """is some enclosing try of the current stack prepared to catch exception `name`?"""
        for names in getattr(self, "trying", []):
            for n in names:
                if n is None or exc_is(name, n):
                    return True
        return False

    def exc_name(self, v):
        if isinstance(v, ClsV):
            return v.name
        if isinstance(v, Ext):
            return v.path.split(".")[-1]
        return "Exception"

    def exc_match(self, exc, cls):
        n = self.exc_name(cls)
        if isinstance(exc.cls, ClsV):
            if isinstance(cls, ClsV):
                return exc.cls.sub(cls)
            return any(exc_is(self.exc_name(b), n) for b in exc.cls.ext_bases()) or n == "Exception"
        return exc_is(exc.cname, n)

    # ------------------------------------------------ loops
    def s_While(self, st, fr):
        d = self.desugar_while(st, fr)
        if d is not None:
            self.s_For(d, fr)
            return
        for k in range(200):
            c = self.eval(st.test, fr)
            if not self.truth(c):
                self.block(st.orelse, fr)
                return
            try:
                self.block(st.body, fr)
            except _Brk:
                return
            except _Cont:
                pass
            if k > 12 and not isinstance(c, bool):
                raise Bail("unbounded while loop")
        raise Bail("while loop limit")

    def desugar_while(self, st, fr):
        """while i < n: ...; i += 1   ==>   for i in range(i, n)"""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and
                isinstance(t.left, ast.Name) and st.body):
            return None
        i = t.left.id
        last = st.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == i and
                isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        for s in st.body[:-1]:
            for n in ast.walk(s):
                if isinstance(n, ast.Continue) or isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Store):
                    return None
        f = ast.For(target=ast.Name(id=i, ctx=ast.Store()),
                    iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()),
                                  args=[ast.Name(id=i, ctx=ast.Load()), t.comparators[0]], keywords=[]),
                    body=st.body[:-1] or [ast.Pass()], orelse=st.orelse)
        ast.copy_location(f, st)
        ast.fix_missing_locations(f)
        return f

    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        self.need_iterable(it)
        info = self.loop_info(st)
        def body(elem):
            self.assign(st.target, elem, fr)
            self.block(st.body, fr)
        broke = self.run_loop(it, body, info, fr)
        if not broke:
            self.block(st.orelse, fr)

    _loop_info_cache = {}

    def loop_info(self, st):
        k = id(st)
        if k not in self._loop_info_cache:
            names, attrs = set(), set()
            tn = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
            for s in st.body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names.add(n.id)
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        attrs.add((n.value.id, n.attr))
            self._loop_info_cache[k] = (st, names - tn, attrs)
        return self._loop_info_cache[k]

    def run_loop(self, it, body, info, fr):
        """returns True if left by break"""
        parts = self.seq_parts(it)
        if parts is None:
            if isinstance(it, Top):
                return self.top_loop(it, body, info, fr)
            self.note(f"loop over {type(it).__name__}")
            return self.top_loop(it, body, info, fr)
        if self.one_shot(it):
            while it.parts:
                p = it.parts[0]
                self.setparts(it, it.parts[1:], "next")
                if self.loop_part(p, body, info, fr):
                    return True
            return False
        for p in list(parts):
            if self.loop_part(p, body, info, fr):
                return True
        return False

    def loop_part(self, p, body, info, fr):
        if isinstance(p, One):
            try:
                body(p.v)
            except _Brk:
                return True
            except _Cont:
                pass
            return False
        if isinstance(p, Map):
            return self.generic_loop(p, body, info, fr)
        raise Bail("loop over unknown part")

    def one_shot(self, v):
        return isinstance(v, LObj) and getattr(v, "once", False)

    def iterator(self, parts):
        """a fresh iterator over the parts: empty after one pass"""
        l = LObj(parts, "iterator")
        l.once = True
        return l

    def consume(self, v):
        """a one-shot iterator is empty after one pass"""
        if self.one_shot(v) and v.parts:
            self.setparts(v, [], "consumed")

    def top_loop(self, it, body, info, fr):
        """iterable unknown: run the body once with an unknown element; assigned names become unknown"""
        mark = len(self.journal)
        self.note("loop over unknown iterable")
        zero = self.decide(T("emptyloop", self.loc(), len(self.taken)))
        if zero:
            return False
        try:
            body(Top("element of unknown iterable"))
        except (_Brk, _Cont):
            pass
        delta = self.journal[mark:]
        for kind, obj, key, old, new, loc in delta:
            if kind == "env" and old is not HoleSet:
                self.setenv(obj, key, Top("assigned in a loop over an unknown iterable"))
            elif kind in ("append", "extend", "parts"):
                if not any(isinstance(p, One) and isinstance(p.v, Top) for p in obj.parts):
                    pass
                self.setparts(obj, [HolePart("unknown")], "toploop")
            elif kind == "ents":
                obj.imprecise = True
        return False

    def instantiate(self, ge, order, g2):
        if ge.g is g2:
            return ge.v
        return self.subst(ge.v, {ge.g: g2})

    def subst(self, v, m):
        """substitution that also instantiates heap objects mentioning a generic"""
        if isinstance(v, (T, N, tuple, frozenset)):
            return self.norm(subst(v, m))
        if isinstance(v, Tup):
            return Tup([self.subst_part(p, m) for p in v.parts])
        if isinstance(v, Flat):
            return Flat([self.subst_part(p, m) for p in v.parts])
        if isinstance(v, HObj):
            if not self.mentions(v, set(m), {}):
                return v
            k = (id(v), tuple(sorted(((g.uid, keyof(x)) for g, x in m.items()), key=repr)))
            if k in self.inst_memo:
                return self.inst_memo[k][1]
            if isinstance(v, Inst):
                o = Inst(v.cls)
                self.inst_memo[k] = (v, o)
                o.fields = {n: self.subst(x, m) for n, x in v.fields.items()}
            elif isinstance(v, (LObj, SObj)):
                o = type(v)([], v.kind)
                self.inst_memo[k] = (v, o)
                o.parts = [self.subst_part(p, m) for p in v.parts]
            elif isinstance(v, DObj):
                o = DObj()
                self.inst_memo[k] = (v, o)
                o.ents = [DEnt(self.subst(e.key, m), self.subst(e.val, m), e.order, e.g, subst(e.guards, m), e.outer)
                          for e in v.ents]
            elif isinstance(v, Arr):
                o = Arr(v.val.abs_subst(m) if hasattr(v.val, "abs_subst") else v.val)
                self.inst_memo[k] = (v, o)
            else:
                return v
            o.ext = v.ext
            return o
        f = getattr(v, "abs_subst", None)
        if f is not None:
            return f(m)
        if isinstance(v, Bound):
            return Bound(v.func, self.subst(v.self_, m))
        return v

    def subst_part(self, p, m):
        if isinstance(p, One):
            return One(self.subst(p.v, m))
        if isinstance(p, Map):
            out = []
            for ge in p.ges:
                mm = {k: v for k, v in m.items() if k is not ge.g}
                out.append(GE(ge.g, subst(ge.guards, mm), self.subst(ge.v, mm)))
            return Map(subst(p.order, m) if isinstance(p.order, tuple) else p.order, out)
        return p

    def norm(self, v):
        return v

    def mentions(self, v, gs, seen):
        if isinstance(v, HObj):
            if id(v) in seen:
                return False
            seen[id(v)] = v
            if isinstance(v, Inst):
                return any(self.mentions(x, gs, seen) for x in v.fields.values())
            if isinstance(v, (LObj, SObj)):
                return any(self.mentions_part(p, gs, seen) for p in v.parts)
            if isinstance(v, DObj):
                return any(self.mentions(e.key, gs, seen) or self.mentions(e.val, gs, seen) or
                           bool(gens(e.guards) & gs) for e in v.ents)
            if isinstance(v, Arr):
                f = getattr(v.val, "abs_gens", None)
                return bool(f and (f() & gs))
            return False
        if isinstance(v, (Tup, Flat)):
            return any(self.mentions_part(p, gs, seen) for p in v.parts)
        if isinstance(v, Bound):
            return self.mentions(v.self_, gs, seen)
        return bool(gens(v) & gs)

    def mentions_part(self, p, gs, seen):
        if isinstance(p, One):
            return self.mentions(p.v, gs, seen)
        if isinstance(p, Map):
            return any(self.mentions(ge.v, gs, seen) or (gens(ge.guards) & gs) for ge in p.ges)
        return False

    def loop_fold(self, ps, acc, f):
        """functools.reduce over symbolic parts: acc = f(acc, e)"""
        fr = Frame(None, self.stack[-1].mod if self.stack else None)
        fr.env = {"acc": acc}

        def body(e):
            self.setenv(fr.env, "acc", f(fr.env["acc"], e))
        self.run_loop(Tup(ps), body, (None, {"acc"}, set()), fr)
        return fr.env["acc"]

    # -- generic loop over one Map part
    def fresh_g(self, g):
        used = {h for lf in self.locals for h in lf.gs}
        n = 1
        while G(g.args[0], g.args[1], n) in used or any(h.args[0] == g.args[0] and h.args[2] == n for h in used):
            n += 1
        return G(g.args[0], g.args[1], n)

    def expand_ge(self, ge, order):
        """list of (gens, guards, value) for one family, flattening nested families"""
        g = self.fresh_g(ge.g)
        return g, subst(ge.guards, {ge.g: g}), self.instantiate(ge, order, g)

    def generic_loop(self, part, body, info, fr):
        holes = self.make_holes(info, fr)
        fams = []
        for ge in part.ges:
            g, guards, val = self.expand_ge(ge, part.order)
            if isinstance(val, Flat):
                fams.append((g, guards, None, val, ge))
                continue
            cases = self.explore_body(g, guards, lambda: body(val), holes)
            fams.append((g, guards, cases, val, ge))
        if any(f[2] is None for f in fams):
            # nested families: analyse as nested loops
            self.drop_holes(holes)
            for (g, guards, cases, val, ge) in fams:
                def nested(v=val):
                    self.run_loop(Tup(v.parts), body, info, fr)
                if cases is None:
                    holes = self.make_holes(info, fr)
                    cs = self.explore_body(g, guards, nested, holes)
                    self.drop_holes(holes)
                    self.apply_summary(part, [(g, guards, cs)], holes, fr)
                else:
                    raise Bail("mixed nested families")
            return False
        self.drop_holes(holes)
        leaving = [(g, guards, c) for (g, guards, cs, _, _) in fams for c in cs if c["out"] in ("break", "return", "raise")]
        if leaving:
            canon = frozenset((g.args[0], g.args[1],
                               frozenset((subst(k, {g: G(g.args[0], g.args[1], "*")}), b) for k, b in
                                         tuple(guards) + tuple(c["guards"])), c["out"])
                              for g, guards, c in leaving)
            always = any(not c["guards"] and not guards for g, guards, c in leaving)
            ex = True if always else self.decide(T("exists", self.order_key(part.order), canon))
            if ex:
                # choose which family/case of witness
                k = 0
                while k < len(leaving) - 1:
                    g, guards, c = leaving[k]
                    if self.decide(T("witness", self.order_key(part.order), canon, k)):
                        break
                    k += 1
                g, guards, c = leaving[k]
                w = G(g.args[0], g.args[1], ("w", len([1 for x in self.memo if isinstance(x, T) and x.op == "wit"])))
                for cnd, b in tuple(guards) + tuple(c["guards"]):
                    self.memo[subst(cnd, {g: w})] = b
                self.memo[T("wit", w)] = True
                pre = [(g0, tuple(gd) + ((T("before", g0, w), True),), [c0 for c0 in cs if c0["out"] == "normal"])
                       for (g0, gd, cs, _, _) in fams]
                pre = [x for x in pre if any(c0["delta"] for c0 in x[2])]
                if pre:
                    self.apply_summary(part, pre, holes, fr)
                ge = [f[4] for f in fams if f[0] is g][0]
                val = self.instantiate(ge, part.order, w)
                try:
                    body(val)
                except _Brk:
                    return True
                except _Cont:
                    pass
                raise Bail("witness element does not leave the loop")
            for g, guards, c in leaving:
                lits = tuple(guards) + tuple(c["guards"])
                if len(lits) == 1:
                    cnd, b = lits[0]
                    self.forall.append((subst(cnd, {g: G(g.args[0], g.args[1], "*")}), not b))
        self.apply_summary(part, [(g, gd, [c for c in cs if c["out"] == "normal"]) for (g, gd, cs, _, _) in fams], holes, fr)
        return False

    def order_key(self, o):
        return canon_order(o, self.order_alias) if not isinstance(o, list) else tuple(o)

    def explore_body(self, g, guards, thunk, holes):
        cases = []
        work = [[]]
        while work:
            dec = work.pop()
            lf = Local({g}, dec)
            for c, b in guards:
                lf.memo[c] = b
            self.locals.append(lf)
            mark = len(self.journal)
            out, val = "normal", None
            try:
                thunk()
            except _Cont:
                pass
            except _Brk:
                out = "break"
            except _Ret as r:
                out, val = "return", r.v
            except PyRaise as e:
                out, val = "raise", e.exc
            finally:
                self.locals.pop()
            delta = self.journal[mark:]
            cases.append({"guards": tuple(lf.taken), "out": out, "val": val, "delta": list(delta)})
            self.undo_to(mark)
            if len(cases) > 256:
                raise Bail("too many cases in a loop body")
            for i in range(len(dec), len(lf.taken)):
                work.append([b for _, b in lf.taken[:i]] + [not lf.taken[i][1]])
        return cases

    # holes: placeholders for values accumulated over a loop
    def make_holes(self, info, fr):
        holes = []
        if info is None:
            return holes
        _, names, attrs = info
        for n in sorted(names):
            env = self.find_env(n, fr)
            if env is None:
                continue
            old = env[n]
            h = self.hole_for(old)
            if h is not None:
                holes.append(("env", env, n, old, h))
                env[n] = h[1]
        for (b, a) in sorted(attrs):
            env = self.find_env(b, fr)
            if env is None:
                continue
            o = env[b]
            if isinstance(o, Inst) and a in o.fields:
                h = self.hole_for(o.fields[a])
                if h is not None:
                    holes.append(("attr", o, a, o.fields[a], h))
                    o.fields[a] = h[1]
        return holes

    def drop_holes(self, holes):
        for kind, o, n, old, h in holes:
            if kind == "env":
                o[n] = old
            else:
                o.fields[n] = old

    def hole_for(self, v):
        hid = T("hole", fresh())
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return None
        if isinstance(v, (int, float, N)) or isinstance(v, T) and v.op != "g":
            return (hid, hid)
        if isinstance(v, LObj):
            return (hid, LObj([HolePart(hid)], v.kind))
        if isinstance(v, Tup):
            return (hid, Tup([HolePart(hid)]))
        if isinstance(v, Arr):
            f = getattr(v.val, "hole", None)
            if f is not None:
                return (hid, Arr(f(hid)))
            return None
        f = getattr(v, "hole", None)
        if f is not None:
            return (hid, f(hid))
        return None

    def apply_summary(self, part, fams, holes, fr):
        """fams: [(g, guards, normal cases)] of one Map part. Applies the summarised effect."""
        hole_by_slot = {}
        for kind, o, n, old, h in holes:
            hole_by_slot[(kind, id(o), n)] = (old, h)
        appends = {}       # id(list) -> (obj, [GE])
        finals = {}        # slot -> list of (g, guards, newvalue)
        order_of = []
        for g, guards, cases in fams:
            for c in cases:
                gd = tuple(guards) + tuple(c["guards"])
                per_list = {}
                touched = {}
                for kind, obj, key, old, new, loc in c["delta"]:
                    if kind == "append":
                        per_list.setdefault(id(obj), (obj, []))[1].append(One(new))
                    elif kind == "extend":
                        per_list.setdefault(id(obj), (obj, []))[1].extend(new)
                    elif kind == "env":
                        touched[("env", id(obj), key)] = (obj, key, new)
                    elif kind == "setattr":
                        touched[("attr", id(obj), key)] = (obj, key, new)
                    elif kind == "event":
                        if obj is self.events:
                            e = ("each", part.order, g, gd, new)
                            self.events.append(e)
                            self.log("event", self.events, None, None, e)
                    elif kind == "setitem":
                        self.generic_setitem(obj, part.order, g, gd, new)
                    elif kind == "ents":
                        self.note("dict mutated in a generic loop body")
                        self.log("ents", obj, key, obj.ents, obj.ents)
                        obj.imprecise = True
                    elif kind == "parts":
                        if key == "add":
                            per_list.setdefault(id(obj), (obj, []))[1].extend(new[len(old):])
                        else:
                            self.note("list restructured in a generic loop body")
                            self.log("parts", obj, key, obj.parts, [HolePart("unknown")])
                            obj.parts = [HolePart("unknown")]
                    elif kind == "lset":
                        if key[1] is g or key[1] in gens(new) or True:
                            self.generic_lset(obj, key, part, g, gd, old, new)
                    elif kind == "arr":
                        self.generic_arr(obj, key, part, g, gd, old, new, loc)
                for oid, (obj, vals) in per_list.items():
                    if len(vals) == 1 and isinstance(vals[0], One):
                        v = vals[0].v
                    else:
                        v = Flat(vals)
                    appends.setdefault(oid, (obj, []))[1].append(GE(g, gd, v))
                for slot, (obj, key, new) in touched.items():
                    finals.setdefault(slot, (obj, key, []))[2].append((g, gd, new))
                    if slot not in order_of:
                        order_of.append(slot)
        for obj, ges in appends.values():
            ges = [self.close_ge(x) for x in ges]
            order = part.order
            if isinstance(obj, SObj):
                self.set_add_parts(obj, [Map(order, ges)])
            else:
                self.extend(obj, [Map(order, ges)])
        for slot in order_of:
            obj, key, news = finals[slot]
            kind = slot[0]
            cur = obj.get(key, HoleSet) if kind == "env" else obj.fields.get(key, HoleSet)
            hv = hole_by_slot.get(slot)
            v = self.fold(part, cur, hv, news, fams)
            if v is cur:
                continue
            if kind == "env":
                self.setenv(obj, key, v)
            else:
                self.setattr_raw(obj, key, v)

    def close_ge(self, ge):
        """rename the loop's generic to a bound name"""
        b = G(ge.g.args[0], ge.g.args[1], ("b", fresh()))
        if ge.v is ge.g:
            return GE(b, subst(ge.guards, {ge.g: b}), b)
        return GE(b, subst(ge.guards, {ge.g: b}), self.subst(ge.v, {ge.g: b}))

    def contains_hole(self, v, hid):
        if isinstance(v, T):
            return v is hid or any(self.contains_hole(a, hid) for a in v.args)
        if isinstance(v, N):
            return any(self.contains_hole(x, hid) for (m, w) in v.t for x in [y for y, _ in m] + list(w))
        if isinstance(v, (tuple, frozenset)):
            return any(self.contains_hole(a, hid) for a in v)
        if isinstance(v, (LObj, Tup, SObj)):
            return any(isinstance(p, HolePart) and p.h is hid for p in v.parts)
        if isinstance(v, Arr):
            f = getattr(v.val, "has_hole", None)
            return bool(f and f(hid))
        f = getattr(v, "has_hole", None)
        return bool(f and f(hid))

    def fold(self, part, cur, hv, news, fams):
        """value of an accumulated variable after the loop"""
        total_cases = sum(len(cs) for _, _, cs in fams)
        if cur is HoleSet:
            # first assigned inside the loop: value of the last iteration
            vals = [n for _, _, n in news]
            if len(news) == total_cases and all(not self.mentions(n, {g}, {}) for g, _, n in news) and \
                    len({keyof(v) for v in vals}) == 1:
                return vals[0]
            return Top("value left over from a loop")
        hid = hv[1][0] if hv else None
        news = [(g, gd, n) for g, gd, n in news if not (hid is not None and (n is hv[1][1] or n is hid))]
        if not news:
            return cur
        if hid is None or not any(self.contains_hole(n, hid) for _, _, n in news):
            # overwritten: flags and last values
            keys = {keyof(n) for _, _, n in news}
            if len(keys) == 1 and not any(self.mentions(n, {g}, {}) for g, _, n in news):
                if any(not gd for _, gd, _ in news) or len(news) == total_cases:
                    return news[0][2]
                c = T("exists", self.order_key(part.order), frozenset(
                    (g.args[0], g.args[1], frozenset((subst(k, {g: G(g.args[0], g.args[1], "*")}), b) for k, b in gd), "set")
                    for g, gd, _ in news))
                return news[0][2] if self.decide(c) else cur
            return Top("value left over from a loop")
        if isinstance(cur, (LObj, Tup)):
            ges = []
            for g, gd, n in news:
                if not isinstance(n, (LObj, Tup)) or not (isinstance(n.parts[0], HolePart) and n.parts[0].h is hid):
                    return Top("list rebuilt in a loop")
                rest = list(n.parts[1:])
                v = rest[0].v if len(rest) == 1 and isinstance(rest[0], One) else Flat(rest)
                ges.append(self.close_ge(GE(g, gd, v)))
            parts = list(cur.parts) + [Map(part.order, ges)]
            return LObj(parts, cur.kind) if isinstance(cur, LObj) else Tup(parts)
        f = getattr(cur.val if isinstance(cur, Arr) else cur, "fold", None)
        if f is not None:
            r = f(self, part, hid, news)
            return Arr(r) if isinstance(cur, Arr) and not isinstance(r, Top) else r
        base = num(cur)
        if base is None:
            return Top("unsupported accumulation")
        acc = base
        for g, gd, n in news:
            n = num(n)
            if n is None:
                return Top("unsupported accumulation")
            rest = n - N.atom(hid)
            if self.contains_hole(rest, hid):
                return Top("unsupported accumulation")
            star = G(g.args[0], g.args[1], ("b", "s"))
            acc = acc + N.atom(T("sum", g.args[0], g.args[1], frozenset(subst(gd, {g: star})), subst(rest, {g: star})))
        return unnum(acc)

    def generic_setitem(self, obj, order, g, gd, new):
        key, val = new[0], new[1]
        b = G(g.args[0], g.args[1], ("b", fresh()))
        gd2 = subst(gd, {g: b})
        outer = new[2] if len(new) > 2 else ()
        ent = DEnt(self.subst(key, {g: b}), self.subst(val, {g: b}), order, b, gd2)
        if outer:
            ent.outer = tuple((o, self.subst(gg, {g: b}), subst(gds, {g: b})) for o, gg, gds in outer[:]) 
            # nested: inner family is the entry's own generic
            ent.outer = ((order, b, gd2),) + tuple(outer)
        self.log("setitem", obj, None, obj.ents, (ent.key, ent.val, ((order, b, gd2),) + tuple(outer)))
        obj.ents = obj.ents + [ent]

    def generic_lset(self, obj, key, part, g, gd, old, new):
        """obj[pos(g)] = value for every g of the family k of part key[0]"""
        k, gg = key
        if gd and all(c in () for c in gd):
            pass
        p = old[k] if k < len(old) else None
        if gg is not g or not isinstance(p, Map) or len(obj.parts) != len(new) or gd:
            self.note("list elements stored in a generic loop")
            self.log("parts", obj, "lset", obj.parts, [HolePart("unknown")])
            obj.parts = [HolePart("unknown")]
            return
        self.log("parts", obj, "lset", obj.parts, list(new))
        obj.parts = list(new)

    def generic_arr(self, arr, op, part, g, gd, old, new, loc):
        f = getattr(arr.val, "generic_store", None)
        if f is None or op is None or op == "inplace":
            self.note("array mutated in a generic loop body")
            self.setarr(arr, Top("array mutated in a loop"), None)
            return
        v = f(self, op, part, g, gd)
        if isinstance(v, tuple):
            v, op2 = v
        else:
            op2 = None
        self.setarr(arr, v, op2)

    # ---------------------------------------------------------------- names, assignment
    def find_env(self, n, fr):
        f = fr
        while f is not None:
            if n in f.env:
                return f.env
            if not getattr(f, "func", None) or f.func is None or not getattr(f, "comp", False):
                pass
            f = f.parent
        return None

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.env:
                v = f.env[n]
                return self.lazy(v)
            f = f.parent
        if n in fr.mod.env:
            return self.lazy(fr.mod.env[n])
        if n in self.builtins:
            return Ext("builtins." + n)
        if n in BUILTIN_EXC:
            return Ext("builtins." + n)
        self.throw("UnboundLocalError" if fr.func else "NameError", n)

    def lazy(self, v):
        if isinstance(v, LazyImport):
            m = self.module(v.mod)
            if m is not None and v.name in m.env:
                return m.env[v.name]
            return Top(f"import {v.mod}.{v.name}")
        return v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            for n, k in fr.nonlocals:
                if n == t.id:
                    env = fr.mod.env if k == "g" else (self.find_env(n, fr.parent) or fr.env)
                    self.setenv(env, n, v)
                    return
            self.setenv(fr.env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Bail("assignment target")

    def unpack(self, elts, v, fr):
        parts = self.seq_parts(v)
        if parts is None:
            f = getattr(v, "unpack", None)
            if f is not None:
                vals = f(self, len(elts))
                for e, x in zip(elts, vals):
                    self.assign(e, x, fr)
                return
            for e in elts:
                self.assign(e, Bad(v.why, v.loc) if isinstance(v, Bad) else Top("unpack"), fr)
            return
        if all(isinstance(p, One) for p in parts):
            stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                k = len(elts) - i - 1
                if len(parts) < len(elts) - 1:
                    self.throw("ValueError", "unpack")
                for e, p in zip(elts[:i], parts):
                    self.assign(e, p.v, fr)
                self.assign(elts[i], LObj(parts[i:len(parts) - k]), fr)
                for e, p in zip(elts[i + 1:], parts[len(parts) - k:]):
                    self.assign(e, p.v, fr)
                return
            if len(parts) != len(elts):
                self.throw("ValueError", "unpack")
            for e, p in zip(elts, parts):
                self.assign(e, p.v, fr)
            return
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if stars == [len(elts) - 1]:
            k = len(elts) - 1
            l = LObj(parts)
            for i in range(k):
                self.assign(elts[i], self.getitem(l, i), fr)
            self.assign(elts[k], self.getitem(l, SliceV(k, None, None)), fr)
            return
        for e in elts:
            self.assign(e, Top("unpack of symbolic sequence"), fr)


class LazyImport:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return f"slice({self.lo},{self.hi},{self.step})"

    def abs_key(self):
        return ("slice", keyof(self.lo), keyof(self.hi), keyof(self.step))
