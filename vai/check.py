"""Obligations: derived abstract results against specifications."""
import os
import time
import traceback
from .world import *
from .interp import TAINT
from . import model as M
from .model import EQ, NE, UNK, SKIP, Undec

REG = []          # (name, props, function)


def obligation(*props, name=None):
    def d(f):
        REG.append((name or f.__name__, props, f))
        return f
    return d


class Anchor(Exception):
    """a public construct the property is anchored in no longer exists"""


ALSO = ((".copy", "V13"), (".equals", "V12"), (".kl_divergence", "V11"), (".distance_from_vacuous", "V11"))   # what the constructs in question say is also about these


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.viol = {}
        self.und = {}
        self.proved = 0
        self.interp = 0
        self.skipped = 0
        self.paths = 0
        self.obligs = 0
        self.sites = 0
        self.done = []
        self.cur = ""

    def verdict(self, props, construct, v, detail=""):
        """props: property or properties this fact belongs to"""
        if isinstance(props, str):
            props = (props,)
        if self.prop not in props and not any(self.prop == q and w in construct for w, q in ALSO):
            return v
        if v == NE and TAINT[0]:
            v, detail = UNK, "on a path whose condition is not known: " + str(detail)
        if os.environ.get("DBG") and v not in (EQ, "interp"): print(construct, v, detail)
        if v == EQ:
            self.proved += 1
        elif v == "interp":
            self.interp += 1
        elif v == SKIP:
            self.skipped += 1
        elif v == NE:
            self.viol.setdefault(construct, f"[{self.cur}] {detail}")
        else:
            self.und.setdefault(f"{self.cur}: {construct}", detail)
        return v


class Ctx:
    """leaves (symbol meanings) of one obligation"""

    def __init__(self, leaves=None, infs=False, sizes=None, n=8):
        self.leaves, self.infs, self.sizes, self.n = leaves or {}, infs, sizes, n
        self.ops = {}
        self.unit_ok = False

    def models(self, facts=()):
        for m in M.models(self.leaves, self.n, self.infs, self.sizes):
            try:
                h = M.facts_hold(m, facts)
            except (KeyError, ValueError, IndexError, AssertionError):
                h = None
            yield m, h

    def feasible(self, facts):
        if not facts:
            return True
        return M.feasible(facts, self.leaves, self.infs, self.sizes)


def top_verdict(v):
    if isinstance(v, Bad):
        return NE, f"{v.why} ({v.loc})"
    return UNK, getattr(v, "why", "unknown value")


def cmp_terms(ctx, got, exp, facts):
    if isinstance(got, Top):
        return top_verdict(got)
    a, b = num(got), num(exp)
    if a is not None and b is not None and a == b:
        return EQ, ""
    v, d = M.compare(got, exp, ctx.leaves, facts, ctx.infs, ctx.sizes, ctx.n)
    return ("interp" if v == EQ else v), d


def cmp_concrete(ctx, facts, f):
    """f(model) -> None if fine, or a message; evaluated in interpretations satisfying the path facts"""
    ok, why = 0, "path condition not decidable"
    allfalse = True
    for m, h in ctx.models(facts):
        allfalse = allfalse and h is False
        if h is not True:
            continue
        try:
            msg = f(m)
            ok += 1
            if msg:
                return NE, msg
        except Undec as e:
            why = str(e)
        except (KeyError, ValueError, IndexError, AssertionError) as e:
            why = f"{type(e).__name__} {e}"
    if allfalse:
        return SKIP, ""
    return ("interp", "") if ok else (UNK, why)


def parts_key(it, parts):
    return label_key(parts, it.order_alias)


def conc_list(m, it, parts):
    return m.seq(label_key(parts), {})


def has_top(parts):
    for p in parts:
        if isinstance(p, One) and isinstance(p.v, Top):
            return p.v
        if isinstance(p, HolePart):
            return Top("unknown list")
        if isinstance(p, Map):
            for ge in p.ges:
                if isinstance(ge.v, Top):
                    return ge.v
    return None


def same_seq(it, ctx, got, exp, facts):
    """sequence values (lists of parts)"""
    t = has_top(got)
    if t is not None:
        return top_verdict(t)
    if parts_key(it, got) == parts_key(it, exp):
        return EQ, ""

    def f(m):
        a, b = conc_list(m, it, got), conc_list(m, it, exp)
        return None if a == b else f"{a} instead of {b}"
    return cmp_concrete(ctx, facts, f)


def same_content(it, ctx, got, atoms, facts):
    """the elements are exactly the variables of the atoms, each once"""
    t = has_top(got)
    if t is not None:
        return top_verdict(t)

    def f(m):
        a = conc_list(m, it, got)
        b = sorted(v for x in atoms for v in m.vars(x))
        return None if sorted(map(str, a)) == b else f"variables {a} instead of {b}"
    return cmp_concrete(ctx, facts, f)


def conc_dict(m, it, d):
    out = {}
    for e in d.ents:
        if e.outer:
            raise Undec("nested dict")
        if e.one():
            if isinstance(e.val, Top) or isinstance(e.key, Top):
                raise Undec("dict entry")
            out[m.name(e.key, {})] = (e.val, {})
        else:
            b = e.g
            for v in m.elements(b.args[0], b.args[1], frozenset(e.guards), {}, b):
                en = {b: v}
                out[m.name(e.key, en)] = (e.val, en)
    return out


def dict_top(d):
    if not isinstance(d, DObj):
        return d if isinstance(d, Top) else Top("not a dict")
    if getattr(d, "imprecise", False):
        return Top("dict")
    for e in d.ents:
        if isinstance(e.val, Top):
            return e.val
        if isinstance(e.key, Top):
            return e.key
    return None


def dict_is(it, ctx, d, atoms, exp, facts):
    """dict over the variables of atoms whose values are exp(g) (terms)"""
    t = dict_top(d)
    if t is not None:
        return top_verdict(t)

    def f(m):
        got = conc_dict(m, it, d)
        want = [v for x in atoms for v in m.vars(x)]
        if sorted(map(str, got)) != sorted(want):
            return f"keys {sorted(map(str, got))} instead of {sorted(want)}"
        for x in atoms:
            g = G("V", x, "s")
            for v in m.vars(x):
                val, en = got[v]
                w = exp(g)
                a = subst(val, {k: T("cv", q) for k, q in en.items()}) if isinstance(val, (T, N)) else val
                b = subst(w, {g: T("cv", v)}) if isinstance(w, (T, N)) else w
                if a is not b and a != b:
                    try:
                        p, q = m.scalar(val, en), m.scalar(w, {g: v})
                    except AttributeError:
                        raise Undec("dict value")
                    if p != q:
                        return f"value for {v}: {p} instead of {q}"
        return None
    return cmp_concrete(ctx, facts, f)


# ------------------------------------------------------------------------------ ownership

def walk(v, path, out, seen):
    """(path, object) of everything mutable reachable from a result"""
    if isinstance(v, HObj):
        if id(v) in seen:
            return
        seen.add(id(v))
        out.append((path, v))
        if isinstance(v, Inst):
            for n, x in v.fields.items():
                walk(x, f"{path}.{n}", out, seen)
        elif isinstance(v, (LObj, SObj)):
            for p in v.parts:
                walk_part(p, path, out, seen)
        elif isinstance(v, DObj):
            for e in v.ents:
                walk(e.val, path + "[..]", out, seen)
    elif isinstance(v, Tup):
        for p in v.parts:
            walk_part(p, path, out, seen)
    elif isinstance(v, Flat):
        for p in v.parts:
            walk_part(p, path, out, seen)
    elif isinstance(v, Bound):
        walk(v.self_, path, out, seen)


def walk_part(p, path, out, seen):
    if isinstance(p, One):
        walk(p.v, path + "[..]", out, seen)
    elif isinstance(p, Map):
        for ge in p.ges:
            walk(ge.v, path + "[..]", out, seen)


def shared(v, root="result", ok=()):
    """paths of result objects that belong to the caller"""
    out = []
    walk(v, root, out, set())
    bad = []
    for path, o in out:
        ext = o.buf.ext if isinstance(o, Arr) else o.ext
        if ext and not any(ext == k or ext.startswith(k + ".") or ext.startswith(k + "[") for k in ok):
            bad.append((path, ext))
    return bad


def hashy(o, depth=0):
    """does an order (or key) depend on hashing?"""
    if isinstance(o, tuple) and o and o[0] == "hash":
        return True
    if isinstance(o, T) and o.op in ("hash", "id"):
        return True
    if depth > 12:
        return False
    if isinstance(o, (tuple, frozenset, list)):
        return any(hashy(x, depth + 1) for x in o)
    if isinstance(o, T):
        return any(hashy(x, depth + 1) for x in o.args)
    return False


def order_free(it, R, what, parts, ctx, facts):
    """V23: the order of a sequence does not come from hashing"""
    if R.prop != "V23":
        return
    k = label_key(parts, it.order_alias)
    bad = [p for p in k if p[0] == "m" and hashy(p[1])]
    if has_top(parts) is not None:
        return R.verdict("V23", what, *top_verdict(has_top(parts)))
    if not bad:
        return R.verdict("V23", what, EQ)
    fz = ctx.feasible(facts)
    if fz is not False:
        R.verdict("V23", what, NE if fz else UNK, "the order of the variables is the iteration order of a set, which differs between processes")


def run(it, R, ctx, what, thunk, verify=None, valid=True, main=None, own=True, ok_shared=(), mut_ok=None, qual=None,
        on_raise=None, max_paths=400):
    """explore thunk; check mutations and sharing; verify(it, outcome)"""
    R.cur = what
    R.obligs += 1
    seen = 0
    try:
        for o in it.explore(thunk, max_paths):
            seen += 1
            R.paths += 1
            facts = o.facts
            if o.kind == "bail":
                R.verdict(R.prop, f"{what}", UNK, f"analysis gave up: {o.value}")
                continue
            if o.kind == "bad":
                fz = ctx.feasible(facts)
                if main and fz is not False:
                    R.verdict(main, f"{what}: decision", NE if fz else UNK, f"a decision is taken on a misaligned value: {o.value.why} ({o.value.loc})")
                continue
            if o.kind == "raise" and on_raise is not None:
                on_raise(it, o)
            elif o.kind == "raise":
                e = o.value
                fz = ctx.feasible(facts)
                if fz is False:
                    continue
                if valid and main:
                    R.verdict(main, f"{what}: raises {e.cname}", NE if fz else UNK,
                              f"{e.cname} raised at {e.loc} for valid operands")
            if own:
                ms = [m for m in o.mutations if not (mut_ok and mut_ok(it, o, m))]
                if ms:
                    fz = ctx.feasible(facts)
                    if fz is not False:
                        for ext, kind, key, old, new, loc in ms:
                            R.verdict("V01", f"{qual or what}: {ext}{'.' + str(key) if kind == 'setattr' else ''} modified",
                                      NE if fz else UNK, f"{ext} is modified ({kind} {key if kind=='setattr' else ''}) at {loc}")
                else:
                    R.verdict("V01", f"{what}: operands unchanged", EQ)
                if o.kind == "return":
                    sh = shared(o.value, ok=ok_shared)
                    if sh:
                        fz = ctx.feasible(facts)
                        if fz is not False:
                            for p, e in sh:
                                R.verdict("V02", f"{qual or what}: {p} is {e}", NE if fz else UNK,
                                          f"{p} is the same object as the operand's {e}")
                    else:
                        R.verdict("V02", f"{what}: result is independent", EQ)
            if o.kind == "return" and verify is not None:
                verify(it, o)
    except Bail as e:
        R.verdict(R.prop, what, UNK, f"analysis gave up: {e}")
    return seen


def meth(it, o, n, *a, **k):
    return it.call(it.getattr(o, n), list(a), k)


def fresh_engine(root="/repo"):
    it = engine(root)
    return it
