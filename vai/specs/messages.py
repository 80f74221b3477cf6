"""Clusters, messages and message paths, interpreted on abstract factors."""
from itertools import product as iprod
from ..absfac import *

CLM = "veroku._cg_helpers._cluster"
CGM = "veroku.cluster_graph"


def pylist(xs):
    return LObj([One(x) for x in xs])


def pydict(d):
    return DObj([DEnt(k, v) for k, v in d.items()])


def cls(it, mod, name):
    m = it.module(mod)
    c = m.env.get(name) if m is not None else None
    if not isinstance(c, ClsV):
        raise Anchor(f"{mod}.{name} not found")
    return c


def new(it, c, *a, **k):
    return it.call(c, list(a), k)


def belief(it, c):
    return it.getattr(c, "_factor") if "_factor" in c.fields else it.getattr(c, "factor")


class World:
    """one cluster with two neighbours and a chosen history"""

    def __init__(self, it, ev=(), sv=True, hub=0):
        self.it = it
        self.al = Algebra(it)
        if hub:
            return self.star(it, hub, ev)
        self.C = cls(it, CLM, "Cluster")
        self.M = cls(it, CLM, "Message")
        al = self.al
        self.f = al.atom("f", ["p", "s", "q", "t", "e"], ext=None)
        self.c = new(it, self.C, self.f, cluster_name_prefix="c0#")
        self.n1 = new(it, self.C, al.atom("f1", ["s", "q", "x"], ext=None), cluster_name_prefix="c1#")
        self.n2 = new(it, self.C, al.atom("f2", ["q", "t", "z"], ext=None), cluster_name_prefix="c2#")
        self.sep = {1: ["q", "s"], 2: ["t", "q"]}
        meth(it, self.c, "add_neighbour", self.n1, pylist(self.sep[1]))
        meth(it, self.c, "add_neighbour", self.n2, pylist(self.sep[2]))
        self.ev = dict(ev)
        if sv:
            meth(it, self.c, "add_special_evidence", pydict(self.ev))
        self.id = {0: it.getattr(self.c, "cluster_id"), 1: it.getattr(self.n1, "cluster_id"), 2: it.getattr(self.n2, "cluster_id")}
        self.last = {}
        self.bel = alg.f("f", ["p", "s", "q", "t", "e"])

    def star(self, it, k, ev):
        """one cluster with k neighbours"""
        al = self.al
        self.C, self.M = cls(it, CLM, "Cluster"), cls(it, CLM, "Message")
        vs = [f"v{i}" for i in range(1, k + 1)] + ["q", "e"]
        self.c = new(it, self.C, al.atom("f", vs, ext=None), cluster_name_prefix="c0#")
        self.sep = {i: [f"v{i}", "q"][:: 1 if i % 2 else -1] for i in range(1, k + 1)}
        self.id = {0: it.getattr(self.c, "cluster_id")}
        for i, s in self.sep.items():
            n = new(it, self.C, al.atom(f"f{i}", s + [f"w{i}"], ext=None), cluster_name_prefix=f"c{i}#")
            meth(it, self.c, "add_neighbour", n, pylist(s))
            self.id[i] = it.getattr(n, "cluster_id")
        self.ev = dict(ev)
        meth(it, self.c, "add_special_evidence", pydict(self.ev))
        self.last = {}
        self.bel = alg.f("f", vs)

    def message(self, k, n):
        t = alg.f(f"m{k}_{n}", self.sep[n])
        return new(self.it, self.M, self.al.make(t, self.sep[n][::-1]), self.id[n], self.id[0]), t

    def receive(self, k, n):
        m, t = self.message(k, n)
        meth(self.it, self.c, "receive_message", m)
        self.bel = alg.mul(self.bel, t)
        if n in self.last:
            self.bel = alg.div(self.bel, self.last[n])
        self.last[n] = t
        return m, t

    def expected(self, n):
        e = alg.marg(alg.red(self.bel, self.ev.items()), self.sep[n])
        return alg.div(e, self.last[n]) if n in self.last else e


HIST = [(), (1,), (2,), (1, 1), (1, 2), (2, 1), (1, 2, 1), (1, 1, 2), (1, 1, 1), (2, 1, 2, 1)]
EVS = [("no special evidence", None), ("empty special evidence", ()), ("special evidence", (("e", 3.0),)),
       ("two observed variables", (("p", 1.0), ("e", 3.0))),
       ("two observed variables, other order", (("e", 1.0), ("p", 3.0)))]


def strdiff(R, props, what, it, got, want):
    if isinstance(got, Top):
        R.verdict(props, what, *top_verdict(got))
    elif got == want:
        R.verdict(props, what, EQ)
    else:
        R.verdict(props, what, NE, f"{got!r} instead of {want!r}")


def divides(o, since=0):
    return [e for e in o.events[since:] if e[0] == "fop" and e[3] == "divide"]


def explore(it, R, what, thunk, verify, props, max_paths=60, facts_ctx=None, may_raise=False):
    """every path must return; verify(o)"""
    R.cur = what
    R.obligs += 1
    ctx = facts_ctx or Ctx()
    feas = (lambda fs: True) if it.zone is not None else ctx.feasible     # zone facts are kept consistent by the engine
    n = 0
    try:
        for o in it.explore(thunk, max_paths):
            R.paths += 1
            n += 1
            if o.kind == "bail":
                R.verdict(props, what, UNK, f"analysis gave up: {o.value}")
            elif o.kind == "bad":
                R.verdict(props, what, UNK, f"{o.value}")
            elif o.kind == "raise":
                fz = feas(o.facts)
                if fz is not False and not may_raise:
                    R.verdict(props, f"{what}: raises {o.value.cname}", NE if fz else UNK,
                              f"{o.value.cname} raised at {o.value.loc} for a valid request")
            else:
                if feas(o.facts) is False:
                    continue
                verify(o)
    except Bail as e:
        R.verdict(props, what, UNK, f"analysis gave up: {e}")
    return n


def reach(v):
    out = []
    walk(v, "", out, set())
    return out


def overlap(a, b):
    """mutable objects reachable from both values"""
    ids = {id(o): p for p, o in reach(a)}
    return [(ids[id(o)], p) for p, o in reach(b) if id(o) in ids]


@obligation("V19", "V18", "V03")
def cluster_make_message(it, R):
    for en, ev in EVS:
        for h in HIST:
            for n in (1, 2):
                what = f"Cluster.make_message to neighbour {n} ({en}, received from {list(h)})"

                def thunk(it):
                    w = World(it, ev or (), ev is not None)
                    for k, x in enumerate(h):
                        w.receive(k, x)
                    before = w.bel
                    start = len(it.events)
                    msg = meth(it, w.c, "make_message", w.id[n])
                    return w, msg, start

                def ver(o):
                    w, msg, start = o.value
                    P = ("V19", "V18") if ev else ("V19",)
                    if not isinstance(msg, Inst):
                        R.verdict(P, what, NE, f"returns {msg!r}")
                        return
                    fac = it.getattr(msg, "factor")
                    check_val(R, it, o, P, "Cluster.make_message: message content", fac, w.expected(n), w.sep[n])
                    strdiff(R, P, "Cluster.make_message: sender", it, it.getattr(msg, "sender_id"), w.id[0])
                    strdiff(R, P, "Cluster.make_message: receiver", it, it.getattr(msg, "receiver_id"), w.id[n])
                    for e in divides(o, start):
                        R.verdict(P, "Cluster.make_message: division", NE, f"previous message divided out with divide (zero by zero undefined) at {e[1]}")
                    check_val(R, it, o, P, "Cluster.make_message: sender belief afterwards", belief(it, w.c), w.bel)
                    # a second request gives the same message
                    m2 = meth(it, w.c, "make_message", w.id[n])
                    check_val(R, it, o, P, "Cluster.make_message: repeated request", it.getattr(m2, "factor"), w.expected(n))
                    for p, q in overlap(msg, w.c):
                        R.verdict("V03", "Cluster.make_message: message is private", NE, f"message{p} is the cluster's {q}")
                    else:
                        R.verdict("V03", "Cluster.make_message: message is private", EQ)
                explore(it, R, what, thunk, ver, ("V19",))


@obligation("V20", "V03")
def cluster_receive_message(it, R):
    for h in HIST:
        if not h:
            continue
        for en, ev in EVS[1:3]:
            what = f"Cluster.receive_message (messages from {list(h)}, {en})"

            def thunk(it):
                w = World(it, ev)
                ms = []
                st = len(it.events)
                for k, x in enumerate(h):
                    ms.append(w.receive(k, x))
                return w, ms, st

            def ver(o):
                w, ms, st = o.value
                P = ("V20",)
                check_val(R, it, o, P, "Cluster.receive_message: belief", belief(it, w.c), w.bel, ["p", "s", "q", "t", "e"])
                for m, t in ms:
                    check_val(R, it, o, P, "Cluster.receive_message: message unchanged", it.getattr(m, "factor"), t)
                for e in divides(o, st):
                    R.verdict(P, "Cluster.receive_message: division", NE, f"earlier message divided out with divide (zero by zero undefined) at {e[1]}")
                for n in (1, 2):
                    sp = names_of(it, meth(it, w.c, "get_sepset", w.id[n]))
                    strdiff(R, P, "Cluster.receive_message: sepsets unchanged", it, sp, w.sep[n])
                    # what is recorded per sender decides the next message
                    m2 = meth(it, w.c, "make_message", w.id[n])
                    check_val(R, it, o, P, "Cluster.receive_message: message recorded as the latest of its sender", it.getattr(m2, "factor"), w.expected(n))
                for m, t in ms:
                    for p, q in overlap(m, w.c):
                        R.verdict("V03", "Cluster.receive_message: cluster keeps its own copy", NE, f"cluster{q} is the message's {p}")
                    else:
                        R.verdict("V03", "Cluster.receive_message: cluster keeps its own copy", EQ)
            explore(it, R, what, thunk, ver, ("V20",))
    # many neighbours, long histories
    for k, h in ((3, (1, 2, 3, 1, 2, 3)), (5, (1, 2, 3, 4, 5, 3, 1, 3)), (8, (8, 7, 6, 5, 4, 3, 2, 1, 1, 8, 4, 4)), (12, tuple(range(1, 13)) * 2)):
        what = f"Cluster.receive_message ({k} neighbours, messages from {list(h)})"

        def thunk(it):
            w = World(it, (("e", 3.0),), hub=k)
            for j, x in enumerate(h):
                w.receive(j, x)
            return w

        def ver(o):
            w = o.value
            check_val(R, it, o, ("V20",), "Cluster.receive_message: belief (many neighbours)", belief(it, w.c), w.bel)
            for n in w.sep:
                m2 = meth(it, w.c, "make_message", w.id[n])
                check_val(R, it, o, ("V20",), "Cluster.receive_message: message recorded as the latest of its sender (many neighbours)",
                          it.getattr(m2, "factor"), w.expected(n), w.sep[n])
        explore(it, R, what, thunk, ver, ("V20",))
    # a message for another cluster is rejected
    what = "Cluster.receive_message (addressed to another cluster)"
    R.cur = what
    R.obligs += 1

    def thunk(it):
        w = World(it)
        m = new(it, w.M, w.al.make(alg.f("m", ["q", "t"]), ["q", "t"]), w.id[1], w.id[2])
        return meth(it, w.c, "receive_message", m)
    expect_error(it, R, ("V20",), what, thunk)


def expect_error(it, R, props, what, thunk, ctx=None):
    R.cur = what
    R.obligs += 1
    try:
        for o in it.explore(thunk, 60):
            R.paths += 1
            if o.kind == "raise":
                R.verdict(props, what, EQ)
            elif o.kind == "return":
                fz = (ctx or Ctx()).feasible(o.facts)
                if fz is not False:
                    R.verdict(props, what, NE if fz else UNK, f"accepted without an error (result {o.value!r})"[:300])
            else:
                R.verdict(props, what, UNK, str(o.value))
    except Bail as e:
        R.verdict(props, what, UNK, str(e))


def facts_of(facts, op):
    """decided applications of one predicate"""
    out = []
    for c, b in facts:
        while isinstance(c, T) and c.op in ("truth", "not"):
            if c.op == "not":
                b = not b
            c = c.args[0]
        if isinstance(c, T) and c.op == op:
            out.append((c, b))
    return out


@obligation("V12", "V19")
def message_equals(it, R):
    rt, at = leaf("tol", "rtol"), leaf("tol", "atol")
    for what, ids in (("the same path", ("a", "b")), ("another sender", ("c", "b")), ("another receiver", ("a", "c")), ("the opposite direction", ("b", "a"))):
        for default in (False, True):
            def thunk(it):
                al = Algebra(it)
                M = cls(it, CLM, "Message")
                m1 = new(it, M, al.atom("m1", ["s", "q"], None), "a", "b")
                m2 = new(it, M, al.atom("m2", ["s", "q"], None), *ids)
                return it.truth(meth(it, m1, "equals", m2) if default else meth(it, m1, "equals", m2, rtol=rt, atol=at))

            def ver(o):
                fs, r = facts_of(o.facts, "feq"), o.value
                nm = "Message.equals: " + what
                if ids != ("a", "b"):
                    return R.verdict(("V12", "V19"), nm, EQ if r is False else NE, f"{r}")
                if not fs:
                    return R.verdict(("V12", "V19"), nm, NE if isinstance(r, bool) else UNK, f"answered {r} without comparing the factors")
                want = {alg.f("m1", ["s", "q"]), alg.f("m2", ["s", "q"])}
                for c, b in fs:
                    R.verdict(("V12", "V19"), nm, EQ if set(c.args[:2]) == want and b is r else NE, f"{r} after {c!r} was {b}")
                    if not default:
                        R.verdict(("V12",), "Message.equals: tolerances", EQ if c.args[2:] == (keyof(rt), keyof(at)) else NE, f"{c.args[2:]}")
            explore(it, R, f"Message.equals, {what}", thunk, ver, ("V12",))


@obligation("V21", "V19", "V03", "V11", "V13")
def message_objects(it, R):
    def thunk(it):
        al = Algebra(it)
        M = cls(it, CLM, "Message")
        m1 = new(it, M, al.atom("m1", ["s", "q"], None), "a", "b")
        m2 = new(it, M, al.atom("m2", ["s", "q"], None), "a", "b")
        rt, at = leaf("tol", "rtol"), leaf("tol", "atol")
        eq = meth(it, m1, "equals", m2, rtol=rt, atol=at)
        return m1, m2, meth(it, m1, "kl_divergence", m2), meth(it, m1, "distance_from_vacuous"), meth(it, m1, "copy"), eq

    def ver(o):
        m1, m2, kl, dv, cp, eq = o.value
        x, y = alg.f("m1", ["s", "q"]), alg.f("m2", ["s", "q"])
        strdiff(R, ("V21", "V11"), "Message.kl_divergence: operands", it, kl, T("scal", "kl", x, y))
        strdiff(R, ("V21", "V11"), "Message.distance_from_vacuous: operand", it, dv, T("scal", "dvac", x))
        check_val(R, it, o, ("V19", "V21"), "Message.copy: content", it.getattr(cp, "factor"), x)
        strdiff(R, ("V19", "V21"), "Message.copy: sender", it, it.getattr(cp, "sender_id"), "a")
        strdiff(R, ("V19", "V21"), "Message.copy: receiver", it, it.getattr(cp, "receiver_id"), "b")
        for p, q in overlap(cp, m1):
            R.verdict("V03", "Message.copy: independent", NE, f"copy{p} is the original's {q}")
        else:
            R.verdict("V03", "Message.copy: independent", EQ)
        f1 = it.getattr(m1, "factor")
        for p, q in overlap(f1, m1):
            R.verdict("V03", "Message.factor: a copy is handed out", NE, f"factor{p} is the message's {q}")
        else:
            R.verdict("V03", "Message.factor: a copy is handed out", EQ)
    explore(it, R, "Message", thunk, ver, ("V21",))
