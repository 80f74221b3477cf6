"""Abstract factors: objects that satisfy the factor interface exactly (their value is a labelled function term).

Code above the factor classes (clusters, graphs, factorised factors, mixtures) is interpreted on them; the factor
classes themselves are checked against the same definitions by the other obligations."""
from .check import *
from . import alg


def method(f, name):
    p = PyFn(f, name)
    p.method = True
    return p


def names_of(it, v):
    """concrete variable names of a sequence value, or None"""
    ps = it.seq_parts(v) if not isinstance(v, (Top, str)) else None
    if ps is None:
        return None
    out = []
    for p in ps:
        if not isinstance(p, One) or isinstance(p.v, Top):
            return None
        out.append(p.v)
    return out


def need(it, v, what):
    ns = names_of(it, v)
    if ns is None:
        raise Bail(f"{what} unknown")
    return ns


def argof(it, a, k, i, name, default=NOTFOUND):
    if len(a) > i:
        return a[i]
    if name in k:
        return k[name]
    if default is NOTFOUND:
        it.throw("TypeError", f"missing argument {name}")
    return default


def value_key(v):
    return v if isinstance(v, (str, int, float)) else keyof(v)


class Algebra:
    """the synthetic class; tag distinguishes factor kinds"""

    def __init__(self, it, base="veroku.factors._factor:Factor", kind="AbstractFactor", strict=True):
        self.it = it
        mod, cn = base.split(":")
        m = it.module(mod)
        if m is None or not isinstance(m.env.get(cn), ClsV):
            raise Anchor(f"class {base} not found")
        self.cls = ClsV(kind, m, None, [m.env[cn]])
        self.events = []
        at = self.cls.attrs
        for n in ("multiply", "divide", "cancel", "marginalize", "reduce", "normalize", "copy", "equals", "kl_divergence",
                  "distance_from_vacuous", "potential", "show"):
            at[n] = method(getattr(self, n), n)
        at["is_vacuous"] = PropV(method(self.vacuous, "is_vacuous"))
        at["joint_distribution"] = PropV(method(self.joint, "joint_distribution"))
        for n in ("get_log_weight", "_add_log_weight", "log_potential", "get_mean", "get_cov", "get_weight"):
            at[n] = method(getattr(self, n), n)
        at["potential"] = method(self.potential, "potential")
        self.extra = [n for n in ("prec", "h_vec", "g_val", "cov", "mean", "log_weight", "canform", "covform") if base.endswith(":Gaussian")]
        at["_is_vacuous"] = PropV(method(self.vacuous, "_is_vacuous"))
        at["__repr__"] = method(lambda it, a, k: T("repr", "factor"), "__repr__")

    def joint(self, it, a, k):
        return self.copy(it, a, k)

    # ---- values
    def make(self, val, names, ext=None):
        o = Inst(self.cls)
        o.fields = {"_var_names": LObj([One(n) for n in names]), "_dim": len(names), "val": val}
        for n in self.extra:
            o.fields[n] = Top("parameters of an abstract factor")
        if ext:
            mark(o, ext)
        return o

    def atom(self, name, names, ext=None):
        return self.make(alg.f(name, names), names, ext or name)

    def val(self, o):
        if isinstance(o, Inst) and "val" in o.fields:
            return o.fields["val"]
        if isinstance(o, Top):
            raise Bail("factor unknown: " + o.why)
        self.it.throw("TypeError", "operand is not a factor")

    def names(self, o):
        return [p.v for p in o.fields["_var_names"].parts]

    def ev(self, kind, *data):
        self.it.event("fop", kind, *data)

    def joined(self, a, b, op):
        x, y = self.val(a), self.val(b)
        na, nb = self.names(a), self.names(b)
        self.ev(op, x, y)
        return x, y, na + [n for n in nb if n not in na]

    def multiply(self, it, a, k):
        x, y, ns = self.joined(a[0], argof(it, a, k, 1, "factor"), "multiply")
        return self.make(alg.mul(x, y), ns)

    def divide(self, it, a, k):
        x, y, ns = self.joined(a[0], argof(it, a, k, 1, "factor"), "divide")
        return self.make(alg.div(x, y), ns)

    def cancel(self, it, a, k):
        x, y, ns = self.joined(a[0], argof(it, a, k, 1, "factor"), "cancel")
        return self.make(alg.div(x, y), ns)

    def marginalize(self, it, a, k):
        v = argof(it, a, k, 1, "vrs")
        keep = argof(it, a, k, 2, "keep", True)
        vs = [v] if isinstance(v, str) else need(it, v, "marginal variables")
        if not isinstance(keep, bool):
            raise Bail("keep flag unknown")
        ns = self.names(a[0])
        if not set(vs) <= set(ns):
            it.throw("ValueError", f"marginalize: {sorted(map(str, set(vs) - set(ns)))} not in scope")
        if len(set(vs)) != len(vs):
            it.throw("ValueError", "duplicate variables")
        kept = list(vs) if keep else [n for n in ns if n not in vs]
        x = self.val(a[0])
        self.ev("marginalize", x, tuple(kept))
        return self.make(alg.marg(x, kept), kept)

    def reduce(self, it, a, k):
        vs = need(it, argof(it, a, k, 1, "vrs"), "observed variables")
        xs = need(it, argof(it, a, k, 2, "values"), "observed values")
        ns = self.names(a[0])
        if not set(vs) <= set(ns):
            it.throw("ValueError", f"reduce: {sorted(map(str, set(vs) - set(ns)))} not in scope")
        if len(vs) != len(xs):
            it.throw("ValueError", "reduce: values and variables differ in number")
        x = self.val(a[0])
        self.ev("reduce", x, tuple(vs))
        return self.make(alg.red(x, [(v, value_key(w)) for v, w in zip(vs, xs)]), [n for n in ns if n not in vs])

    def normalize(self, it, a, k):
        return self.make(alg.norm(self.val(a[0])), self.names(a[0]))

    def copy(self, it, a, k):
        return self.make(self.val(a[0]), self.names(a[0]))

    def show(self, it, a, k):
        return None

    def equals(self, it, a, k):
        b = argof(it, a, k, 1, "factor")
        r, t = argof(it, a, k, 2, "rtol", 1e-5), argof(it, a, k, 3, "atol", 1e-8)
        self.val(b)
        if sorted(self.names(a[0])) != sorted(self.names(b)):
            return False
        if self.val(a[0]) == self.val(b):
            return True
        return T("feq", self.val(a[0]), self.val(b), keyof(r), keyof(t))

    def kl_divergence(self, it, a, k):
        n = argof(it, a, k, 2, "normalize_factor", True)
        x, y = self.val(a[0]), self.val(argof(it, a, k, 1, "factor"))
        return T("scal", "kl", x, y) if n is True else T("scal", "kl", x, y, keyof(n))

    def distance_from_vacuous(self, it, a, k):
        return T("scal", "dvac", self.val(a[0]))

    def vacuous(self, it, a, k):
        return T("cond", "vac", self.val(a[0]))

    def potential(self, it, a, k):
        if self.extra:
            return T("lins", self.log_potential(it, a, k).args[0])
        vs = need(it, argof(it, a, k, 1, "vrs"), "variables")
        xs = need(it, argof(it, a, k, 2, "assignment"), "assignment")
        return T("scal", "pot", alg.red(self.val(a[0]), list(zip(vs, map(value_key, xs)))))

    # ---- weights (scalars are functions with an empty scope; their logarithms add up)
    def get_log_weight(self, it, a, k):
        return T("logs", alg.marg(self.val(a[0]), ()))

    def get_weight(self, it, a, k):
        return T("lins", alg.marg(self.val(a[0]), ()))

    def log_potential(self, it, a, k):
        x = argof(it, a, k, 1, "x_val")
        vs = argof(it, a, k, 2, "vrs", None)
        vs = self.names(a[0]) if vs is None else need(it, vs, "variables")
        xs = need(it, x, "values")
        if sorted(vs) != sorted(self.names(a[0])) or len(xs) != len(vs):
            it.throw("AssertionError", "log_potential of other variables")
        return T("logs", alg.red(self.val(a[0]), [(v, value_key(w)) for v, w in zip(vs, xs)]))

    def _add_log_weight(self, it, a, k):
        w = exp_of(argof(it, a, k, 1, "log_weight_to_add"))
        it.setattr(a[0], "val", alg.mul(self.val(a[0]), w))
        return None

    def get_mean(self, it, a, k):
        return T("scal", "mean", self.val(a[0]), tuple(self.names(a[0])))

    def get_cov(self, it, a, k):
        return T("scal", "cov", self.val(a[0]), tuple(self.names(a[0])))


def exp_of(w):
    """the scalar function whose logarithm is w (a linear combination of logarithms)"""
    if isinstance(w, Top):
        raise Bail("log weight unknown: " + w.why)
    n = num(w)
    if n is None:
        raise Bail(f"log weight {w!r} is not linear")
    out = []
    for (mono, word), c in n.t.items():
        if word:
            raise Bail("log weight not linear")
        if not mono:
            out.append((alg.f(("exp", c), ()), 1))
            continue
        if len(mono) != 1 or mono[0][1] != 1 or not isinstance(mono[0][0], T) or mono[0][0].op != "logs":
            raise Bail(f"log weight {w!r} is not linear")
        out.append((mono[0][0].args[0], int(c) if c.denominator == 1 else c))
    return alg.prod(*out)


def check_val(R, it, o, props, what, got, want, names=None):
    """got (an Inst with a value term) denotes want"""
    if isinstance(got, Top):
        return R.verdict(props, what, *top_verdict(got))
    if not (isinstance(got, Inst) and "val" in got.fields):
        return R.verdict(props, what, NE, f"{got!r} is not a factor")
    ok, how = alg.same(got.fields["val"], want)
    if names is not None:
        ns = [p.v for p in got.fields["_var_names"].parts]
        if sorted(map(str, ns)) != sorted(map(str, names)):
            return R.verdict(props, what, NE, f"scope {ns} instead of {sorted(names)}")
    if ok:
        return R.verdict(props, what, EQ if how == "normal form" else "interp")
    return R.verdict(props, what, NE, how)


def has_log(v):
    n = num(v) if isinstance(v, (T, N)) else None
    return n is not None and any(isinstance(m[0], T) and m[0].op == "logs" for mono, _ in n.t for m in mono)


def lin_of(v):
    """the scalar function a linear combination of weights denotes"""
    if isinstance(v, Top):
        raise Bail("weight unknown: " + v.why)
    n = num(v)
    if n is None:
        raise Bail(f"weight {v!r}")
    out = []
    for (mono, word), c in n.t.items():
        if word:
            raise Bail("weight not linear")
        x = alg.ONE
        for t, p in mono:
            if not isinstance(t, T) or t.op != "lins":
                raise Bail(f"weight {v!r} not linear")
            x = alg.prod((x, 1), (t.args[0], p))
        if c.denominator != 1 or c < 0:
            raise Bail("fractional weight")
        out += [x] * int(c)
    return alg.add(*out) if out else None


def install_logs(it):
    """logsumexp / exp / log of lists of log weights"""
    lse, ex, lg = it.lib["scipy.special.logsumexp"], it.lib.get("numpy.exp"), it.lib.get("numpy.log")

    def f(it, a, k):
        xs = names_of(it, a[0]) if a and isinstance(a[0], (LObj, Tup)) else None
        if xs and not k and len(a) == 1 and all(isinstance(x, (T, N, int, float)) for x in xs):
            if any(has_log(x) for x in xs):
                return T("logs", alg.add(*[exp_of(x) for x in xs]))
            s = num(0)
            for x in xs:
                s = s + num(T("ew1", "exp", num(x)))
            return T("ew1", "log", s)
        return lse(it, a, k)

    def e(it, a, k):
        if len(a) == 1 and not k and has_log(a[0]):
            return T("lins", exp_of(a[0]))
        return ex(it, a, k)

    def l(it, a, k):
        if len(a) == 1 and not k and isinstance(a[0], (T, N)) and not isinstance(a[0], Top):
            n = num(a[0])
            if n is not None and n.t and all(m and all(isinstance(t, T) and t.op == "lins" for t, _ in m) for m, _ in n.t):
                return T("logs", lin_of(a[0]))
        return lg(it, a, k)
    it.lib["scipy.special.logsumexp"] = f
    it.lib["numpy.exp"], it.lib["math.exp"] = e, e
    it.lib["numpy.log"], it.lib["math.log"] = l, l
