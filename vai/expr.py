"""Expression evaluation and the modelled builtin types."""
import ast
from .terms import *
from .heap import *
from .interp import *
from .interp import _Ret, _Brk, _Cont
from . import bset as B

NOTFOUND = object()


class View:
    """dict view: kind in keys/values/items"""

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __repr__(self):
        return f"{self.kind}({self.d!r})"


class LenV(N):
    """a length that remembers the index space it measures"""
    __slots__ = ("skel", "parts")


def plain_const(v):
    """a known constant (string, number, tuple of such)"""
    if isinstance(v, Tup):
        return all(isinstance(p, One) and plain_const(p.v) for p in v.parts)
    return isinstance(v, (str, int))


def mk_len(parts, n):
    r = LenV(n.t)
    r.parts = list(parts)
    r.skel = skel(parts)
    return r


CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
          ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.MatMult: "@", ast.Pow: "**",
          ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
          ast.LShift: "<<", ast.RShift: ">>"}


class Eval(Interp):
    builtins = {"len", "range", "list", "tuple", "set", "dict", "frozenset", "enumerate", "zip", "isinstance", "issubclass", "print", "sorted",
                "all", "any", "str", "int", "float", "bool", "abs", "sum", "min", "max", "map", "filter", "reversed",
                "type", "super", "hasattr", "getattr", "setattr", "repr", "id", "iter", "next", "callable", "object",
                "round", "pow", "format", "hash", "slice", "complex", "vars", "property", "staticmethod", "classmethod",
                "divmod", "open", "input", "NotImplemented", "Ellipsis", "__name__"}

    # ---------------------------------------------------------------- eval
    def eval(self, n, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Bail("step limit")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.top(f"unsupported expression {type(n).__name__}")
        save = self.cur
        if hasattr(n, "lineno"):
            self.cur = n
        r = m(n, fr)
        self.cur = save
        return r

    def e_Constant(self, n, fr):
        if isinstance(n.value, (bytes, complex)):
            return Top("constant")
        return n.value

    def e_Name(self, n, fr):
        return self.name(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_Tuple(self, n, fr):
        return Tup(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        return LObj(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        s = SObj()
        self.set_add_parts(s, self.elts(n.elts, fr))
        return s

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                ps = self.seq_parts(self.eval(e.value, fr))
                if ps is None:
                    out.append(HolePart("unknown"))
                else:
                    out += ps
            else:
                out.append(One(self.eval(e, fr)))
        return out

    def e_Dict(self, n, fr):
        d = DObj()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_IfExp(self, n, fr):
        if self.truth(self.eval(n.test, fr)):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, fr)
            if i == len(n.values) - 1:
                return v
            if isinstance(v, Arr) or isinstance(v, Top):
                t = self.truth(v)
            else:
                t = self.truth(v)
            if t != isand:
                return v if not isinstance(v, T) else t
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, T) and self.is_cond(v):
                return T("not", v) if v.op != "not" else v.args[0]
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return self.binop("*", -1, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(v, Arr):
            return self.arr_unary("~", v)
        if isinstance(v, (bool, int)):
            return ~v
        return Top("invert")

    def is_cond(self, v):
        return v.op in ("cmp", "eq", "not", "and", "or", "exists", "isclose", "in", "subset", "bsempty", "truth", "inset",
                        "isinst", "seqeq", "bool", "allclose", "same")

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, fr)
            r = self.compare(CMPOPS[type(op)], left, right)
            if i == len(n.ops) - 1:
                if res is True:
                    return r
            if not self.truth(r):
                return False
            left = right
        return True

    def e_Lambda(self, n, fr):
        f = FuncV(n, fr.mod, fr)
        self.func_defaults(f, fr)
        f.encl_cls = fr.cls
        return f

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Starred(self, n, fr):
        return self.eval(n.value, fr)

    def e_JoinedStr(self, n, fr):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                try:
                    x = self.eval(v.value, fr)
                except PyRaise as e:
                    if not e.exc.definite:
                        raise
                    raise
                spec = None
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, fr)
                out.append(self.to_str(x) if spec is None else T("fmt", keyof(x), keyof(spec)))
        return self.strcat(out)

    def e_FormattedValue(self, n, fr):
        return self.to_str(self.eval(n.value, fr))

    def to_str(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, (int, float)) or x is None:
            return str(x)
        if isinstance(x, T) and x.op in ("str", "leaf", "sym", "join", "format", "g", "strof"):
            return x
        return T("strof", keyof(x))

    def strcat(self, ps):
        out = []
        for p in ps:
            sub = list(p.args) if isinstance(p, T) and p.op == "str" else [p]
            for q in sub:
                if q == "" and isinstance(q, str):
                    continue
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return T("str", *out)

    def e_ListComp(self, n, fr):
        l = LObj()
        self.comp(n.generators, 0, fr, lambda f: self.append(l, self.eval(n.elt, f)))
        return l

    def e_GeneratorExp(self, n, fr):
        l = self.e_ListComp(n, fr)
        if isinstance(l, LObj):
            l.once, l.kind = True, "iterator"
        return l

    def e_Yield(self, n, fr):
        v = self.eval(n.value, fr) if n.value is not None else None
        self.append(self.gen_frame(fr).gen, v)
        return None

    def e_YieldFrom(self, n, fr):
        v = self.eval(n.value, fr)
        ps = self.seq_parts(v)
        g = self.gen_frame(fr).gen
        if ps is None:
            self.setparts(g, [HolePart("unknown")], "yield from")
        else:
            self.extend(g, ps)
            self.consume(v)
        return None

    def gen_frame(self, fr):
        while not hasattr(fr, "gen"):
            fr = fr.parent
        return fr

    def e_SetComp(self, n, fr):
        l = self.e_ListComp(n, fr)
        s = SObj()
        self.set_add_parts(s, l.parts)
        return s

    def e_DictComp(self, n, fr):
        d = DObj()
        def one(f):
            k = self.eval(n.key, f)
            self.dict_set(d, k, self.eval(n.value, f))
        self.comp(n.generators, 0, fr, one)
        return d

    def comp(self, gens_, i, fr, leaf):
        cf = Frame(fr.func, fr.mod, fr, fr.cls)
        cf.self_ = fr.self_
        g = gens_[i]
        it = self.eval(g.iter, fr)
        def body(elem):
            self.assign(g.target, elem, cf)
            for c in g.ifs:
                if not self.truth(self.eval(c, cf)):
                    return
            if i + 1 < len(gens_):
                self.comp(gens_, i + 1, cf, leaf)
            else:
                leaf(cf)
        self.run_loop(it, body, None, fr)

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        return self.getitem(o, self.eval_index(n.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*(self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return Tup([One(self.eval_index(e, fr)) for e in s.elts])
        return self.eval(s, fr)

    def e_Slice(self, n, fr):
        return self.eval_index(n, fr)

    def e_Call(self, n, fr):
        # zero-argument super
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and f.self_ is None:
                f = f.parent
            if f is None:
                return Top("super outside method")
            return Super(f.func.cls, f.self_)
        fn = self.eval(n.func, fr)
        args = []
        kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                ps = self.seq_parts(v)
                if ps is not None and all(isinstance(p, One) for p in ps):
                    args += [p.v for p in ps]
                else:
                    args.append(StarArg(ps, v))
            else:
                args.append(self.eval(a, fr))
        for k in n.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, DObj) and all(e.one() and isinstance(e.key, str) for e in v.ents):
                    for e in v.ents:
                        kwargs[e.key] = e.val
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        self.cur = n
        return self.call(fn, args, kwargs, n)

    # ---------------------------------------------------------------- operators
    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        self.cur = n
        return self.binop(BINOPS[type(n.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(op, ast.AST):
            op = BINOPS[type(op)]
        if isinstance(a, Bad):
            return a
        if isinstance(b, Bad):
            return b
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop(op, a, b)
        if isinstance(a, Inst) or isinstance(b, Inst) or hasattr(a, "abs_binop") or hasattr(b, "abs_binop"):
            f = getattr(a, "abs_binop", None) or getattr(b, "abs_binop", None)
            if f:
                return f(self, op, a, b)
            names = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "@": "__matmul__"}
            if isinstance(a, Inst) and op in names:
                m, _ = a.cls.find(names[op])
                if m is not None:
                    return self.call(Bound(m, a), [b], {})
            self.throw("TypeError", f"unsupported operand for {op}")
        if op == "+":
            if isinstance(a, LObj) and isinstance(b, LObj):
                return LObj(a.parts + b.parts, a.kind)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.parts + b.parts)
            if isinstance(a, (str,)) and isinstance(b, str):
                return a + b
            if isinstance(a, str) or isinstance(b, str) or isinstance(a, T) and a.op in ("str", "join", "strof", "format", "fmt"):
                if isinstance(a, (str, T)) and isinstance(b, (str, T)):
                    return self.strcat([a, b])
            if isinstance(a, (LObj, Tup)) or isinstance(b, (LObj, Tup)):
                if type(a) is not type(b) and isinstance(a, (LObj, Tup, int, str)) and isinstance(b, (LObj, Tup, int, str)):
                    self.throw("TypeError", "concatenation")
                return self.top("concatenation with unknown")
        if op == "*" and (isinstance(a, (LObj, Tup)) or isinstance(b, (LObj, Tup))):
            s, k = (a, b) if isinstance(a, (LObj, Tup)) else (b, a)
            if isinstance(k, int) and not isinstance(k, bool):
                return type(s)(list(s.parts) * k) if isinstance(s, Tup) else LObj(list(s.parts) * k)
            if isinstance(k, LenV) and len(s.parts) == 1 and isinstance(s.parts[0], One):
                v = s.parts[0].v
                out = []
                for p in k.parts:
                    if isinstance(p, One):
                        out.append(One(v))
                    else:
                        out.append(Map(p.order, [GE(ge.g, ge.guards, v if not isinstance(ge.v, Flat) else
                                                    Flat([One(v) for _ in ge.v.parts])) for ge in p.ges]))
                return Tup(out) if isinstance(s, Tup) else LObj(out)
            if isinstance(k, N) and len(s.parts) == 1 and isinstance(s.parts[0], One):
                return RepList(s.parts[0].v, k)
            return self.top("sequence repetition")
        if isinstance(a, SObj) or isinstance(b, SObj) or isinstance(a, View) or isinstance(b, View):
            nm = {"|": "union", "&": "intersection", "-": "difference", "^": "symmetric_difference"}.get(op)
            if nm:
                a2 = a if isinstance(a, SObj) else self.to_set(a)
                return self.set_op(nm, a2, b)
            return self.top("set operator")
        if isinstance(a, DObj) and isinstance(b, DObj) and op == "|":
            d = DObj(a.ents)
            self.dict_update(d, b)
            return d
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                        "**": lambda: a ** b, "//": lambda: a // b, "%": lambda: a % b, "&": lambda: a & b,
                        "|": lambda: a | b, "^": lambda: a ^ b}[op]()
            except Exception:
                return Top("arithmetic")
        if op in ("&", "|") and isinstance(a, (bool, T)) and isinstance(b, (bool, T)):
            if isinstance(a, bool):
                return (b if a else False) if op == "&" else (True if a else b)
            if isinstance(b, bool):
                return (a if b else False) if op == "&" else (True if b else a)
            return T("and" if op == "&" else "or", a, b)
        if op == "%" and isinstance(a, str):
            return T("fmt", a, keyof(b))
        x, y = num(a), num(b)
        if x is None or y is None:
            return self.top(f"operator {op} on {type(a).__name__}/{type(b).__name__}")
        return self.num_binop(op, x, y)

    def num_binop(self, op, x, y):
        if op == "+":
            if isinstance(x, LenV) and y == ZERO:
                return x
            if isinstance(y, LenV) and x == ZERO:
                return y
            if isinstance(x, LenV) and isinstance(y, LenV):
                return mk_len(x.parts + y.parts, x + y)
            return unnum(x + y)
        if op == "-":
            return unnum(x - y)
        if op == "*":
            return unnum(x * y)
        if op == "/":
            return unnum(x * y.inverse())
        if op == "**" and y.is_const() and y.cval().denominator == 1 and 0 <= y.cval() <= 4:
            r = ONE
            for _ in range(int(y.cval())):
                r = r * x
            return unnum(r)
        if op == "**" and y.is_const() and y.cval() == Fraction(1, 2):
            return T("sqrt", x)
        return T("op" + op, x, y)

    def compare(self, op, a, b):
        if op == "is" or op == "is not":
            r = self.is_(a, b)
            return r if op == "is" else self.neg(r)
        if op == "in":
            return self.contains(b, a)
        if op == "not in":
            return self.neg(self.contains(b, a))
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Bad) else b if isinstance(b, Bad) else Top("comparison with unknown")
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop(op, a, b)
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            if isinstance(a, Inst):
                m, _ = a.cls.find("__ne__")
                if m is not None:
                    return self.call(Bound(m, a), [b], {})
            return self.neg(self.eq(a, b))
        if isinstance(a, (SObj, View)) and isinstance(b, (SObj, View)):
            if op == "<=":
                return self.subset(a, b)
            if op == ">=":
                return self.subset(b, a)
            if op == "<":
                return self.strict_subset(a, b)
            return self.strict_subset(b, a)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        x, y = num(a), num(b)
        if x is None or y is None:
            return self.top("ordering comparison")
        if isinstance(a, T) and isinstance(b, T) and a.op == "g" and b.op == "g":
            return T("cmp", op, x - y) if op in ("<", "<=") else T("cmp", {">": "<", ">=": "<="}[op], y - x)
        for v, w, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op])):
            if isinstance(w, float) and w in (float("inf"), float("-inf")):
                return T("cmp", o, num(v), w)
        if op in (">", ">="):
            x, y, op = y, x, {">": "<", ">=": "<="}[op]
        d = x - y
        if d.is_const():
            c = d.cval()
            return c < 0 if op == "<" else c <= 0
        return T("cmp", op, d)

    def neg(self, r):
        if isinstance(r, bool):
            return not r
        if isinstance(r, T):
            return r.args[0] if r.op == "not" else T("not", r)
        if isinstance(r, Arr):
            return self.arr_unary("~", r)
        if hasattr(r, "abs_neg"):
            return r.abs_neg(self)
        return r

    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x is None:
                if y is None:
                    return True
                if isinstance(y, Top):
                    return T("isnone", y.why, self.loc())
                if isinstance(y, T) and y.op == "opt":
                    return T("isnone", y)
                return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            x = a if isinstance(b, bool) else b
            c = b if isinstance(b, bool) else a
            if isinstance(x, T):
                return x if c else self.neg(x)
            return False if not isinstance(x, Top) else T("unknownis", self.loc())
        if isinstance(a, (HObj, ClsV)) or isinstance(b, (HObj, ClsV)):
            return a is b
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("is")
        return self.eq(a, b)

    # equality -------------------------------------------------------
    def eq(self, a, b):
        if a is b:
            if isinstance(a, Inst):
                pass
            else:
                return True
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Bad) else b if isinstance(b, Bad) else Top("equality with unknown")
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop("==", a, b)
        if isinstance(a, Inst):
            m, _ = a.cls.find("__eq__")
            if m is not None:
                return self.call(Bound(m, a), [b], {})
            return a is b
        if hasattr(a, "abs_eq"):
            return a.abs_eq(self, b)
        if hasattr(b, "abs_eq"):
            return b.abs_eq(self, a)
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, T) and x.op == "opt":
                return T("isnone", x)
            return False
        if isinstance(a, (LObj, Tup)) and isinstance(b, (LObj, Tup)):
            if isinstance(a, LObj) != isinstance(b, LObj):
                return False
            return self.seq_eq(a.parts, b.parts)
        if isinstance(a, (SObj, View)) and isinstance(b, (SObj, View)):
            return self.set_eq(a, b)
        if isinstance(a, DObj) and isinstance(b, DObj):
            if a.ents == [] and b.ents == []:
                return True
            return T("eq", *sorted((T("id", id(a)), T("id", id(b))), key=lambda t: t.uid))
        if isinstance(a, (str,)) and isinstance(b, str):
            return a == b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        if isinstance(a, (HObj, ClsV, Ext)) or isinstance(b, (HObj, ClsV, Ext)):
            return a == b if isinstance(a, Ext) and isinstance(b, Ext) else False
        if isinstance(a, str) and isinstance(b, (int, float, N)) or isinstance(b, str) and isinstance(a, (int, float, N)):
            return False
        if isinstance(a, T) and isinstance(b, T):
            if a.op == "g" and b.op == "g":
                return self.g_eq(a, b)
            if a.op == "pos" and b.op == "pos" and a.args[0] == b.args[0]:
                return self.g_eq(a.args[1], b.args[1])
        if isinstance(a, T) and isinstance(b, T) or isinstance(a, (str, T)) and isinstance(b, (str, T)):
            if isinstance(a, T) and isinstance(b, T) and (a.op in ("str", "join", "strof") or b.op in ("str", "join", "strof")):
                return T("eq", *sorted((a, b), key=lambda t: t.uid))
            if isinstance(a, str):
                return T("eq", b, a)
            if isinstance(b, str):
                return T("eq", a, b)
        if isinstance(a, bool) and isinstance(b, T):
            return b if a else self.neg(b)
        if isinstance(b, bool) and isinstance(a, T):
            return a if b else self.neg(a)
        for v, w in ((a, b), (b, a)):
            if isinstance(w, float) and w in (float("inf"), float("-inf")):
                return T("cmp", "==", num(v), w)
        x, y = num(a), num(b)
        if x is None or y is None:
            return self.top(f"equality {type(a).__name__}/{type(b).__name__}")
        d = x - y
        if d.is_const():
            return d.cval() == 0
        k = max(d.t, key=lambda q: (len(q[0]), [x[0].uid for x in q[0]]))
        if d.t[k] < 0:
            d = -d
        return T("cmp", "==", d)

    def g_eq(self, a, b):
        if a is b:
            return True
        if a.args[0] != b.args[0]:
            return T("eq", *sorted((a, b), key=lambda t: t.uid))
        x, y = a.args[1], b.args[1]
        if isinstance(x, str) and isinstance(y, str) and x != y:
            return False
        if B.is_bs(x) and B.is_bs(y) and B.is_empty(B.band(x, y)):
            return False
        return T("eq", *sorted((a, b), key=lambda t: t.uid))

    def seq_eq(self, p, q):
        if all(isinstance(x, One) for x in p) and all(isinstance(x, One) for x in q):
            if len(p) != len(q):
                return False
            conds = []
            for x, y in zip(p, q):
                r = self.eq(x.v, y.v)
                if isinstance(r, Top):
                    return r
                if r is False:
                    return False
                if r is not True:
                    conds.append(r)
            if not conds:
                return True
            return conds[0] if len(conds) == 1 else T("and", *conds)
        kp, kq = self.lkey(p), self.lkey(q)
        if kp == kq:
            return True
        cp, cq = self.content(p), self.content(q)
        if cp is not None and cq is not None and cp != cq:
            # different element families (all known to be non-empty)
            if self.definite_content(cp) and self.definite_content(cq):
                return False
        n, m = count_parts(p), count_parts(q)
        if n is not None and m is not None:
            d = n - m
            if d.is_const() and d.cval() != 0:
                return False
        if any(not isinstance(x, (One, Map)) for x in list(p) + list(q)):
            return Top("comparison of unknown sequences")
        a, b = sorted((kp, kq), key=repr)
        return T("seqeq", a, b)

    def lkey(self, parts):
        k = label_key(parts, self.order_alias)
        n = 0
        while k in self.seq_alias and n < 5:
            k = self.seq_alias[k]
            n += 1
        return k

    def skel(self, parts):
        return skel(parts, self.order_alias)

    def content(self, parts):
        """set of (dom, atom) for identity families without guards; None if not of that form"""
        out = set()
        for p in parts:
            if isinstance(p, Map):
                for ge in p.ges:
                    if not ge.ident() or ge.guards:
                        return None
                    out.add((ge.g.args[0], ge.g.args[1]))
            elif isinstance(p, One) and is_g(p.v):
                out.add(("one", p.v))
            elif isinstance(p, One) and isinstance(p.v, (str, int)):
                out.add(("one", p.v))
            else:
                return None
        return out

    def definite_content(self, c):
        return all(x[0] != "one" and isinstance(x[1], str) for x in c)

    # sets ------------------------------------------------------------
    def to_set(self, v):
        self.need_iterable(v)
        if isinstance(v, SObj):
            return v
        ps = self.seq_parts(v)
        s = SObj()
        if ps is None:
            s.parts = [HolePart("unknown")]
            if isinstance(v, T):
                s.src = v
            return s
        s.parts = self.setnorm(ps)
        return s

    def setnorm(self, parts):
        """duplicate-free parts, iteration order = hash order of the content"""
        parts = [p for p in parts if not (isinstance(p, Map) and not p.ges)]
        if any(not isinstance(p, (One, Map)) for p in parts):
            return list(parts)
        c = self.content(parts)
        maps, ones = {}, []
        bsu = {}
        for p in parts:
            if isinstance(p, One):
                if not any(self.eq(p.v, o) is True for o in ones if not isinstance(p.v, Top)):
                    ones.append(p.v)
            else:
                for ge in p.ges:
                    if ge.ident() and not ge.guards and B.is_bs(ge.g.args[1]):
                        d = ge.g.args[0]
                        bsu[d] = ge.g.args[1] if d not in bsu else B.bor(bsu[d], ge.g.args[1])
                        continue
                    k = (ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g),
                         keyof(subst(ge.v, {ge.g: G(ge.g.args[0], ge.g.args[1], "*")})))
                    maps.setdefault(k, ge)
        for d, x in bsu.items():
            if not B.is_empty(x):
                g = G(d, x, ("b", fresh()))
                maps[(d, x, frozenset(), "*")] = GE(g, (), g)
        out = [One(o) for o in ones]
        if maps:
            # a set of exactly one known element has a determined order; otherwise hash order
            out.append(Map(("hash", frozenset((k[0], k[1]) for k in maps)), list(maps.values())))
        return out

    def set_add_parts(self, s, parts):
        self.setparts(s, self.setnorm(list(s.parts) + list(parts)), "add")

    def plain(self, s):
        """(atoms, ones) if s consists of guard-free identity families over string atoms"""
        ps = self.seq_parts(s)
        if ps is None:
            return None
        atoms, ones = set(), []
        for p in ps:
            if isinstance(p, One):
                if is_g(p.v) or isinstance(p.v, (str, int, T)):
                    ones.append(p.v)
                else:
                    return None
            elif isinstance(p, Map):
                for ge in p.ges:
                    if not ge.ident() or ge.guards:
                        return None
                    atoms.add((ge.g.args[0], ge.g.args[1]))
            else:
                return None
        return atoms, ones

    def as_bs(self, s):
        """one boolean set expression for the whole set, if expressible"""
        p = self.plain(s)
        if p is None or p[1]:
            return None
        out = None
        for d, a in p[0]:
            x = a if B.is_bs(a) else B.base(T("atom", d, a))
            out = x if out is None else B.bor(out, x)
        return out if out is not None else B.empty()

    def from_bs(self, x, dom="V"):
        s = SObj()
        if not B.is_empty(x):
            g = G(dom, x, ("b", fresh()))
            s.parts = [Map(("hash", frozenset([(dom, x)])), [GE(g, (), g)])]
        return s

    def set_op(self, name, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("set operation")
        pa, pb = self.plain(a), self.plain(b)
        if pa is not None and pb is not None:
            sa, oa = pa
            sb, ob = pb
            allbs = any(B.is_bs(x[1]) for x in sa | sb)
            if allbs and not oa and not ob:
                x, y = self.as_bs(a), self.as_bs(b)
                r = {"union": B.bor, "intersection": B.band, "difference": B.bdiff,
                     "symmetric_difference": lambda p, q: B.bor(B.bdiff(p, q), B.bdiff(q, p))}[name](x, y)
                return self.from_bs(r)
            if not allbs and not (oa and (sb or ob) or ob and (sa or oa)):
                r = {"union": sa | sb, "intersection": sa & sb, "difference": sa - sb,
                     "symmetric_difference": sa ^ sb}[name]
                ones = {"union": oa + ob, "intersection": [], "difference": oa, "symmetric_difference": oa + ob}[name]
                return self.mkset(r, ones)
            if not sa and not sb and all(isinstance(x, (str, int)) for x in oa + ob):
                x, y = list(dict.fromkeys(oa)), list(dict.fromkeys(ob))
                r = {"union": x + [e for e in y if e not in x], "intersection": [e for e in x if e in y],
                     "difference": [e for e in x if e not in y],
                     "symmetric_difference": [e for e in x if e not in y] + [e for e in y if e not in x]}[name]
                return SObj([One(e) for e in r])
        # element-wise filtering
        psa, psb = self.seq_parts(a), self.seq_parts(b)
        if psa is None or psb is None:
            return self.top("set operation on unknown")
        if name in ("intersection", "difference"):
            l = LObj()
            def body(e):
                c = self.contains(b, e)
                if self.truth(c) == (name == "intersection"):
                    self.append(l, e)
            self.run_loop(Tup(psa), body, None, None)
            s = SObj()
            s.parts = self.setnorm(l.parts)
            return s
        if name == "union":
            return SObj(self.setnorm(list(psa) + list(psb)))
        return self.top("set operation")

    def mkset(self, atoms, ones=()):
        ges = []
        for d, a in sorted(atoms, key=repr):
            g = G(d, a, ("b", fresh()))
            ges.append(GE(g, (), g))
        ps = [One(o) for o in ones]
        if ges:
            ps.append(Map(("hash", frozenset(atoms)), ges))
        return SObj(ps)

    def subset(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("subset")
        pa, pb = self.plain(a), self.plain(b)
        if pa is not None and pb is not None:
            if not pa[1] and not pb[1]:
                if not any(B.is_bs(x[1]) for x in pa[0] | pb[0]):
                    return pa[0] <= pb[0]
                d = B.bdiff(self.as_bs(a), self.as_bs(b))
                return True if B.is_empty(d) else T("bsempty", d)
            if all(isinstance(x, (str, int)) for x in pa[1] + pb[1]) and not pa[0] and not pb[0]:
                return set(pa[1]) <= set(pb[1])
        conds = []
        ps = self.seq_parts(a)
        if ps is None or self.seq_parts(b) is None:
            return self.top("subset of unknown")
        if all(isinstance(p, One) for p in ps):
            for p in ps:
                c = self.contains(b, p.v)
                if c is False:
                    return False
                if isinstance(c, Top):
                    return c
                if c is not True:
                    conds.append(c)
            if not conds:
                return True
            return conds[0] if len(conds) == 1 else T("and", *conds)
        return T("subset", self.setkey(a), self.setkey(b))

    def setkey(self, s):
        return ("set", frozenset(label_key(self.seq_parts(s) or [])))

    def set_eq(self, a, b):
        pa, pb = self.plain(a), self.plain(b)
        if pa is not None and pb is not None and not pa[1] and not pb[1]:
            if not any(B.is_bs(x[1]) for x in pa[0] | pb[0]):
                return pa[0] == pb[0]
            x, y = self.as_bs(a), self.as_bs(b)
            d = B.bor(B.bdiff(x, y), B.bdiff(y, x))
            return True if B.is_empty(d) else T("bsempty", d)
        if pa is not None and pb is not None and not pa[0] and not pb[0] and \
                all(isinstance(x, (str, int)) for x in pa[1] + pb[1]):
            return set(pa[1]) == set(pb[1])
        ka, kb = self.setkey(a), self.setkey(b)
        if ka == kb:
            return True
        s1, s2 = self.subset(a, b), self.subset(b, a)
        if s1 is False or s2 is False:
            return False
        if isinstance(s1, Top) or isinstance(s2, Top):
            return Top("set equality")
        if s1 is True:
            return s2
        if s2 is True:
            return s1
        return T("and", s1, s2)

    def strict_subset(self, a, b):
        s = self.subset(a, b)
        if s is False or isinstance(s, Top):
            return s
        e = self.set_eq(a, b)
        if isinstance(e, Top):
            return e
        if e is True:
            return False
        ne = self.neg(e)
        if s is True:
            return ne
        if ne is True:
            return s
        return T("and", s, ne)

    def theory(self, c):
        if isinstance(c, T) and c.op == "bsempty":
            facts = []
            for mm in [self.memo] + [l.memo for l in self.locals]:
                for k, b in mm.items():
                    if isinstance(k, T) and k.op == "bsempty":
                        facts.append((k.args[0], b))
            return B.theory_empty(c.args[0], facts)
        return super().theory(c)

    # truth -----------------------------------------------------------
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, Bad) and not self.locals:
            raise BadBranch(v)
        if isinstance(v, Top):
            return self.decide(T("unknown", self.loc(), len(self.stack)))
        if isinstance(v, T):
            if self.is_cond(v) or v.op in ("isnone", "unknownis", "hasattr"):
                return self.decide(v)
            if v.op == "g" or v.op in ("str", "join"):
                return True
            return self.decide(T("truth", v))
        if isinstance(v, N):
            if isinstance(v, LenV):
                return self.truth_parts(v.parts)
            d = self.eq(v, 0)
            return not self.decide(d)
        if isinstance(v, (LObj, Tup, SObj)):
            return self.truth_parts(v.parts)
        if isinstance(v, (DObj, View)):
            return self.truth_parts(self.seq_parts(v) or [])
        if isinstance(v, RangeV):
            return self.truth(self.compare("<", v.lo, v.hi))
        if isinstance(v, Inst):
            m, _ = v.cls.find("__bool__")
            if m:
                return self.truth(self.call(Bound(m, v), [], {}))
            m, _ = v.cls.find("__len__")
            if m:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, Arr):
            r = self.arr_truth(v)
            return r
        f = getattr(v, "abs_truth", None)
        if f is not None:
            return self.truth(f(self))
        return True

    def truth_parts(self, parts):
        conds = []
        for p in parts:
            if isinstance(p, One):
                return True
            if isinstance(p, Map):
                for ge in p.ges:
                    if isinstance(ge.v, Flat):
                        return self.decide(T("nonempty", label_key(parts)))
                    if not ge.guards and isinstance(ge.g.args[1], str):
                        if not ge.g.args[1].endswith("?"):
                            return True
                        conds.append(T("nonempty", ge.g.args[0], ge.g.args[1]))
                    elif not ge.guards and B.is_bs(ge.g.args[1]):
                        conds.append(T("not", T("bsempty", ge.g.args[1])))
                    else:
                        conds.append(T("exists", canon_order(p.order, self.order_alias), frozenset(
                            [(ge.g.args[0], ge.g.args[1], canon_guards(ge.guards, ge.g))])))
            else:
                return self.decide(T("unknown", self.loc(), len(self.stack)))
        for c in conds:
            if self.decide(c):
                return True
        return False

    # sequences -------------------------------------------------------
    def is_iterable(self, v):
        return isinstance(v, (LObj, Tup, SObj, DObj, View, RangeV, RepList)) or hasattr(v, "abs_parts")

    def seq_parts(self, v):
        if isinstance(v, (LObj, Tup, SObj)):
            if any(isinstance(p, HolePart) for p in v.parts):
                return None
            if self.set_rev and isinstance(v, SObj):
                return list(v.parts)[::-1]
            return list(v.parts)
        if isinstance(v, DObj):
            return self.dict_parts(v, "keys")
        if isinstance(v, View):
            return self.dict_parts(v.d, v.kind)
        if isinstance(v, RangeV):
            return self.range_parts(v)
        if isinstance(v, RepList):
            return None
        f = getattr(v, "abs_parts", None)
        if f is not None:
            return f(self)
        return None

    def range_parts(self, r):
        if isinstance(r.lo, int) and isinstance(r.hi, int) and isinstance(r.step, int):
            return [One(i) for i in range(r.lo, r.hi, r.step)]
        if r.step == 1 and num(r.lo) is not None and num(r.lo) == num(r.hi):
            return []
        if r.step == 1 and isinstance(r.hi, LenV) and isinstance(r.lo, int) and r.lo == 0:
            return self.pos_parts(r.hi.parts)
        if r.step == 1 and isinstance(r.hi, LenV):
            lo = num(r.lo)
            sk = self.skel(r.hi.parts)
            for k in range(1, len(r.hi.parts)):
                if count_parts(r.hi.parts[:k]) == lo:
                    pos = self.pos_parts(r.hi.parts)
                    return pos[k:]
            # range(pos(g)+k, len): positions after g
            for (m, w), c in lo.t.items():
                if len(m) == 1 and m[0][0].op == "pos" and m[0][0].args[0] == sk and c == 1:
                    p0 = m[0][0]
                    k = lo - N.atom(p0)
                    if k.is_const() and k.cval() in (0, 1):
                        op = "<" if k.cval() == 1 else "<="
                        out = []
                        for p in self.pos_parts(r.hi.parts):
                            if isinstance(p, Map):
                                ges = [GE(ge.g, tuple(ge.guards) + ((T("cmp", op, N.atom(p0) - N.atom(ge.v)), True),), ge.v)
                                       for ge in p.ges]
                                out.append(Map(p.order, ges))
                            else:
                                return None
                        return out
        return None

    def pos_parts(self, parts):
        sk = self.skel(parts)
        out = []
        for i, p in enumerate(parts):
            if isinstance(p, One):
                if all(isinstance(q, One) for q in parts):
                    out.append(One(i))
                else:
                    out.append(One(T("posone", sk, i)))
            else:
                ges = []
                for ge in p.ges:
                    b = G(ge.g.args[0], ge.g.args[1], ("b", fresh()))
                    ges.append(GE(b, subst(ge.guards, {ge.g: b}), T("pos", sk, b)))
                out.append(Map(p.order, ges))
        return out

    def length(self, v):
        if isinstance(v, str):
            return len(v)
        if isinstance(v, RangeV):
            return self.binop("-", v.hi, v.lo)
        if isinstance(v, RepList):
            return v.n
        if isinstance(v, Arr):
            return self.arr_len(v)
        if isinstance(v, Inst):
            m, _ = v.cls.find("__len__")
            if m:
                return self.call(Bound(m, v), [], {})
            self.throw("TypeError", "len")
        if v is None or isinstance(v, (bool, int, float)):
            self.throw("TypeError", "object has no len()")
        src = getattr(v, "src", None)
        if src is not None and src.op == "anames":
            return T("card", src.args[0])
        if isinstance(v, T) and v.op == "anames":
            return T("card", v.args[0])
        ps = self.seq_parts(v)
        if ps is None:
            if isinstance(v, T):
                return T("len", v)
            return Top("length")
        if all(isinstance(p, One) for p in ps):
            if isinstance(v, (SObj,)) and len(ps) > 1 and not all(plain_const(p.v) for p in ps):
                return Top("size of a set")
            return len(ps)
        n = count_parts(ps)
        if n is None:
            return T("len", ("parts", label_key(ps)))
        r = LenV(n.t)
        r.skel = self.skel(ps)
        r.parts = ps
        return r

    def enumerate_parts(self, v, start=0):
        ps = self.seq_parts(v)
        if ps is None:
            return None
        pos = self.pos_parts(ps)
        out = []
        for p, q in zip(ps, pos):
            if isinstance(p, One):
                out.append(One(Tup.of(q.v if start == 0 else self.binop("+", q.v, start), p.v)))
            else:
                ges = []
                for ge, pe in zip(p.ges, q.ges):
                    idx = subst(pe.v, {pe.g: ge.g})
                    if start != 0:
                        idx = self.binop("+", idx, start)
                    ges.append(GE(ge.g, ge.guards, Tup.of(idx, ge.v)))
                out.append(Map(p.order, ges))
        return out

    def zip_parts(self, vs):
        pss = []
        for v in vs:
            if isinstance(v, RepList):
                pss.append(("rep", v.v))
                continue
            ps = self.seq_parts(v)
            if ps is None and isinstance(v, Top):
                pss.append(("rep", Top("element of unknown")))
                continue
            if ps is None:
                return None
            pss.append(("ps", ps))
        real = [p for k, p in pss if k == "ps"]
        if not real:
            return None
        if all(isinstance(x, One) for ps in real for x in ps):
            n = min(len(ps) for ps in real)
            return [One(Tup.of(*[(p[i].v if k == "ps" else p) for k, p in pss])) for i in range(n)]
        first = max(real, key=lambda ps: sum(len(x.ges) if isinstance(x, Map) else 1 for x in ps))
        sk = self.skel(first)
        out = []
        for i, part in enumerate(first):
            if isinstance(part, One):
                vals = []
                for k, p in pss:
                    if k == "rep":
                        vals.append(p)
                    elif self.skel(p) == sk and isinstance(p[i], One):
                        vals.append(p[i].v)
                    else:
                        vals.append(Top("zip"))
                out.append(One(Tup.of(*vals)))
                continue
            ges = []
            for ge in part.ges:
                vals = []
                for k, p in pss:
                    if k == "rep":
                        vals.append(p)
                    elif p is first:
                        vals.append(ge.v)
                    elif self.skel(p) == sk:
                        o = [x for x in p[i].ges if x.g.args[:2] == ge.g.args[:2] and
                             canon_guards(x.guards, x.g) == canon_guards(ge.guards, ge.g)]
                        vals.append(self.subst(o[0].v, {o[0].g: ge.g}) if o else Top("zip"))
                    else:
                        vals.append(self.misaligned(p, first, "zip pairs sequences of different variable order"))
                ges.append(GE(ge.g, ge.guards, Tup.of(*vals)))
            out.append(Map(part.order, ges))
        return out

    def misaligned(self, p, q, why):
        """value obtained by using a position of one sequence in another one"""
        sp, sq = self.skel(p), self.skel(q)
        if any(x[0] == "?" for x in sp + sq):
            return Top(why)
        return self.bad(f"{why}: {self.describe(p)} vs {self.describe(q)}")

    def describe(self, parts):
        out = []
        for p in parts:
            if isinstance(p, One):
                out.append("1")
            elif isinstance(p, Map):
                o = canon_order(p.order, self.order_alias)
                o = "hash-order" if isinstance(o, tuple) and o and o[0] == "hash" else str(o)
                out.append(o + "{" + ",".join(str(ge.g.args[1]) for ge in p.ges) + "}")
            else:
                out.append("?")
        return "[" + " ++ ".join(out) + "]"

    # membership ------------------------------------------------------
    def contains(self, c, x):
        if isinstance(c, Top) or isinstance(x, Top):
            return x if isinstance(x, Bad) else Top("membership")
        if isinstance(c, (DObj,)) or isinstance(c, View) and c.kind == "keys":
            d = c if isinstance(c, DObj) else c.d
            return self.dict_has(d, x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            return T("in", keyof(x), c)
        if isinstance(c, T) and not is_g(c):
            return T("in", keyof(x), c)
        f = getattr(c, "abs_contains", None)
        if f is not None:
            return f(self, x)
        ps = self.seq_parts(c)
        if ps is None:
            return self.top("membership in unknown")
        conds = []
        for p in ps:
            if isinstance(p, One):
                r = self.eq(p.v, x)
                if r is True:
                    return True
                if isinstance(r, Top):
                    return r
                if r is not False:
                    conds.append(r)
            else:
                for ge in p.ges:
                    r = self.in_family(ge, x, p)
                    if r is True:
                        return True
                    if r is not False:
                        conds.append(r)
        if not conds:
            return False
        if any(isinstance(c, Top) for c in conds):
            return Top("membership")
        return conds[0] if len(conds) == 1 else T("or", *conds)

    def in_family(self, ge, x, p=None):
        if ge.ident() and is_g(x):
            if x.args[0] != ge.g.args[0]:
                return T("in", x, ("fam", ge.g.args[0], ge.g.args[1]))
            a, b = ge.g.args[1], x.args[1]
            if B.is_bs(a) and B.is_bs(b):
                if B.is_empty(B.bdiff(b, a)):
                    base = True
                elif B.is_empty(B.band(b, a)):
                    return False
                else:
                    base = T("inset", x, a)
            elif a == b:
                base = True
                if isinstance(x.args[2], tuple) and x.args[2][0] == "w" or x.args[2] == "first":
                    base = True
            elif isinstance(a, str) and isinstance(b, str):
                return False
            else:
                base = T("inset", x, a)
            conds = [] if base is True else [base]
            for c, bl in ge.guards:
                cc = subst(c, {ge.g: x})
                k = self.lookup(cc)
                if k is None:
                    conds.append(cc if bl else self.neg(cc))
                elif k != bl:
                    return False
            if not conds:
                return True
            return conds[0] if len(conds) == 1 else T("and", *conds)
        if is_g(x) and not ge.ident():
            m = self.unify(ge.v, ge.g, x)
            if m is None:
                return False
            if m is not NOTFOUND:
                return self.in_family(GE(ge.g, ge.guards, ge.g), m, p)
        return T("in", keyof(x), ("fam", ge.g.args[0], ge.g.args[1], keyof(subst(ge.v, {ge.g: G(ge.g.args[0], ge.g.args[1], "*")}))))

    def unify(self, pat, g, x):
        """value for g such that pat[g:=value] == x; None if impossible, NOTFOUND if unknown"""
        if pat is g:
            if is_g(x):
                return x if x.args[0] == g.args[0] and self.compat(g, x) else (None if x.args[0] == g.args[0] else NOTFOUND)
            return NOTFOUND
        if isinstance(pat, T) and isinstance(x, T):
            if pat is x:
                return NOTFOUND
            if pat.op != x.op or len(pat.args) != len(x.args):
                return NOTFOUND
            r = NOTFOUND
            for a, b in zip(pat.args, x.args):
                if g in gens(a):
                    r = self.unify(a, g, b)
                    if r is None or r is NOTFOUND:
                        return r
                elif not (type(a) is type(b) and a == b):
                    return NOTFOUND
            return r
        if isinstance(pat, Tup) and isinstance(x, Tup):
            if len(pat.parts) != len(x.parts):
                return NOTFOUND
            r = NOTFOUND
            for p, q in zip(pat.parts, x.parts):
                if not (isinstance(p, One) and isinstance(q, One)):
                    return NOTFOUND
                if g in gens(p.v):
                    r = self.unify(p.v, g, q.v)
                    if r is None or r is NOTFOUND:
                        return r
                else:
                    e = self.eq(p.v, q.v)
                    if e is False:
                        return None
                    if e is not True:
                        return NOTFOUND
            return r
        return NOTFOUND

    def compat(self, g, x):
        a, b = g.args[1], x.args[1]
        if a == b:
            return True
        if B.is_bs(a) and B.is_bs(b):
            return not B.is_empty(B.band(a, b))
        return False

    # dicts -----------------------------------------------------------
    def dict_parts(self, d, kind):
        if getattr(d, "imprecise", False):
            return None
        def val(e):
            if kind == "keys":
                return e.key
            if kind == "values":
                return e.val
            return Tup.of(e.key, e.val)
        out = []
        for e in d.ents:
            if e.one():
                out.append(One(val(e)))
            elif e.outer:
                v = val(e)
                lv = list(e.outer)
                part = None
                for (o, g, gds) in reversed(lv):
                    part = Map(o, [GE(g, gds, v if part is None else Flat([part]))])
                out.append(part)
            else:
                ge = GE(e.g, e.guards, val(e))
                if out and isinstance(out[-1], Map) and out[-1].order == e.order and \
                        all(x.g.args[:2] != e.g.args[:2] or x.guards for x in out[-1].ges):
                    out[-1] = Map(e.order, list(out[-1].ges) + [ge])
                else:
                    out.append(Map(e.order, [ge]))
        return out

    def dict_find(self, d, k):
        """(status, value, entry) with status True / False / cond"""
        maybe = []
        for e in reversed(d.ents):
            if e.one():
                r = self.key_eq(e.key, k)
                if r is True:
                    if not maybe:
                        return True, e.val, e
                    maybe.append((True, e.val, e))
                    break
                if r is False:
                    continue
                maybe.append((r, e.val, e))
            else:
                x = self.unify(e.key, e.g, k)
                if x is None:
                    continue
                if x is NOTFOUND or e.outer:
                    if e.outer:
                        x2 = self.unify_outer(e, k)
                        if x2 is not None:
                            return True, self.subst(e.val, x2), e
                    maybe.append((T("haskey", keyof(k), self.ent_key(e)), None, e))
                    continue
                conds = []
                ok = True
                for c, b in e.guards:
                    cc = subst(c, {e.g: x})
                    v = self.lookup(cc)
                    if v is None:
                        conds.append(cc if b else self.neg(cc))
                    elif v != b:
                        ok = False
                        break
                if not ok:
                    continue
                if B.is_bs(e.g.args[1]) and B.is_bs(x.args[1]) and not B.is_empty(B.bdiff(x.args[1], e.g.args[1])):
                    conds.append(T("inset", x, e.g.args[1]))
                val = self.subst(e.val, {e.g: x})
                if not conds:
                    if not maybe:
                        return True, val, e
                    maybe.append((True, val, e))
                    break
                maybe.append((conds[0] if len(conds) == 1 else T("and", *conds), val, e))
        return maybe, None, None

    def unify_outer(self, e, k):
        # pattern mentions several bound generics: structural match against a tuple of generics
        if not (isinstance(e.key, Tup) and isinstance(k, Tup) and len(e.key.parts) == len(k.parts)):
            return None
        m = {}
        bound = [g for (_, g, _) in e.outer] + [e.g]
        for p, q in zip(e.key.parts, k.parts):
            pg = [g for g in bound if g in gens(p.v)]
            if len(pg) == 1:
                r = self.unify(p.v, pg[0], q.v)
                if r is None or r is NOTFOUND:
                    return None
                m[pg[0]] = r
            else:
                return None
        for (_, g, gds) in e.outer:
            for c, b in gds:
                cc = subst(c, m)
                if self.lookup(cc) is not b:
                    return None
        return m

    def ent_key(self, e):
        return keyof(subst(e.key, {e.g: G(e.g.args[0], e.g.args[1], "*")}))

    def key_eq(self, a, b):
        if isinstance(a, (HObj,)) or isinstance(b, HObj):
            return a is b
        r = self.eq(a, b)
        if isinstance(r, Top):
            return T("eqk", keyof(a), keyof(b))
        return r

    def dict_has(self, d, k):
        st, v, e = self.dict_find(d, k)
        if getattr(d, "imprecise", False) and st is not True:
            return Top("membership in unknown dict")
        if st is True:
            return True
        if not st:
            return False
        conds = [c for c, _, _ in st]
        if any(c is True for c in conds):
            return True
        return conds[0] if len(conds) == 1 else T("or", *conds)

    def dict_get(self, d, k):
        """value or NOTFOUND; forks on uncertainty"""
        if isinstance(k, Top):
            return Bad(k.why, k.loc) if isinstance(k, Bad) else Top("unknown key")
        st, v, e = self.dict_find(d, k)
        if st is True:
            return v
        for c, val, e in st:
            if c is True or self.decide(c):
                if val is None and c is not True:
                    return Top("value for an uncertain key")
                return val
        if getattr(d, "imprecise", False):
            return Top("unknown dict")
        return NOTFOUND

    def dict_set(self, d, k, v):
        if isinstance(k, Top):
            self.note("dict store with unknown key")
            self.setents(d, d.ents)
            d.imprecise = True
            return
        ents = d.ents
        for i, e in enumerate(ents):
            if e.one() and self.key_eq(e.key, k) is True:
                new = ents[:i] + [DEnt(k, v)] + ents[i + 1:]
                self.log("setitem", d, None, d.ents, (k, v))
                d.ents = new
                return
            if not e.one():
                x = self.unify(e.key, e.g, k)
                if x is not None and x is not NOTFOUND and not e.guards and not e.outer and e.g.args[1] == x.args[1] \
                        and isinstance(x.args[2], int) and e.g in gens(e.key):
                    # generic overwrite of a whole family
                    ne = DEnt(e.key, self.subst(v, {x: e.g}), e.order, e.g, e.guards)
                    self.log("setitem", d, "overwrite", d.ents, (k, v))
                    d.ents = ents[:i] + [ne] + ents[i + 1:]
                    return
        self.log("setitem", d, None, d.ents, (k, v))
        d.ents = ents + [DEnt(k, v)]

    def generic_setitem(self, obj, order, g, gd, new):
        # overwriting an existing family with the same keys
        key = new[0]
        for i, e in enumerate(obj.ents):
            if not e.one() and not e.outer and not e.guards and len(new) == 2:
                x = self.unify(e.key, e.g, key)
                if x is g and e.g.args[1] == g.args[1]:
                    if not gd:
                        ne = DEnt(e.key, self.subst(new[1], {g: e.g}), e.order, e.g, e.guards)
                    else:
                        ne = DEnt(e.key, Top("conditionally overwritten dict entry"), e.order, e.g, e.guards)
                    self.log("setitem", obj, "overwrite", obj.ents, (key, new[1]))
                    obj.ents = obj.ents[:i] + [ne] + obj.ents[i + 1:]
                    return
        super().generic_setitem(obj, order, g, gd, new)

    def dict_update(self, d, v):
        if isinstance(v, DObj):
            for e in v.ents:
                if e.one():
                    self.dict_set(d, e.key, e.val)
                else:
                    # families: replace an equal family, else add
                    done = False
                    for i, o in enumerate(d.ents):
                        if not o.one() and o.g.args[:2] == e.g.args[:2] and self.ent_key(o) == self.ent_key(e) and not o.guards:
                            ne = DEnt(o.key, self.subst(e.val, {e.g: o.g}), o.order, o.g, o.guards)
                            if e.guards:
                                ne = DEnt(o.key, Top("partially overwritten"), o.order, o.g, o.guards)
                            self.log("setitem", d, "overwrite", d.ents, (o.key, ne.val))
                            d.ents = d.ents[:i] + [ne] + d.ents[i + 1:]
                            done = True
                            break
                    if not done:
                        self.log("ents", d, "update", d.ents, None)
                        d.ents = d.ents + [e]
            if getattr(v, "imprecise", False):
                d.imprecise = True
            return
        ps = self.seq_parts(v)
        if ps is None:
            self.note("dict.update with unknown")
            self.setents(d, d.ents)
            d.imprecise = True
            return
        def body(e):
            q = self.seq_parts(e)
            if q and len(q) == 2:
                self.dict_set(d, q[0].v, q[1].v)
            else:
                self.note("dict from unknown pairs")
                d.imprecise = True
        self.run_loop(Tup(ps), body, None, None)


class RepList:
    """[v] * n with symbolic n (mutable; becomes labelled by generic stores)"""
    ext = None

    def __init__(self, v, n):
        self.v, self.n = v, n

    def abs_key(self):
        return ("rep", keyof(self.v), self.n)


class StarArg:
    def __init__(self, parts, v):
        self.parts, self.v = parts, v
