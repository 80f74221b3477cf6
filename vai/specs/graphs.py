"""Cluster graphs: construction, message passing and queries, interpreted on abstract factors over enumerated scope graphs."""
import functools, itertools, random, zlib
from ..absfac import *
from ..dbm import Zone
from ..terms import *
from .messages import (cls, new, pylist, pydict, explore, expect_error, overlap, strdiff, belief, reach, divides, CLM, CGM)

# name: (scopes, evidence, special evidence)
SHAPES = [
    ("chain of two", ["ab", "bc"], "", ""),
    ("chain of three", ["ab", "bc", "cd"], "", ""),
    ("two shared variables", ["abc", "bcd"], "", ""),
    ("triangle", ["ab", "bc", "ca"], "", ""),
    ("star", ["ab", "ac", "ad"], "", ""),
    ("four-cycle", ["ab", "bc", "cd", "da"], "", ""),
    ("one variable everywhere", ["xa", "xb", "xc", "xd"], "", ""),
    ("two variables everywhere", ["xya", "xyb", "xyc"], "", ""),
    ("overlapping triples", ["abc", "bcd", "cde", "dea"], "", ""),
    ("disconnected", ["ab", "bc", "de", "ef"], "", ""),
    ("single factor", ["ab"], "", ""),
    ("isolated factor", ["ab", "bc", "z"], "", ""),
    ("reversed names", ["zy", "yx", "xw"], "", ""),
    ("subsumed pair", ["ab", "a", "bc"], "", ""),
    ("subsumed by a later factor", ["a", "c", "ab", "bc"], "", ""),
    ("chain of subsumptions", ["a", "ab", "abc", "cd"], "", ""),
    ("chain of subsumptions, largest first", ["abc", "ab", "a", "cd"], "", ""),
    ("subsumed by two", ["b", "ab", "bc"], "", ""),
    ("equal scopes", ["ab", "ba", "bc"], "", ""),
    ("equal scopes and a subsumed factor", ["a", "ab", "ba", "b"], "", ""),
    ("evidence in one", ["abe", "bc"], "e", ""),
    ("evidence in several", ["abe", "bce", "cd"], "e", ""),
    ("evidence makes a factor a subset", ["abc", "abe", "cd"], "e", ""),
    ("two evidence variables", ["aeb", "bfc", "cef"], "ef", ""),
    ("evidence outside the graph", ["ab", "bc"], "q", ""),
    ("special evidence", ["abe", "bce", "cd"], "", "e"),
    ("special evidence in one", ["abe", "bc"], "", "e"),
    ("special evidence splits", ["ae", "eb", "bc"], "", "e"),
    ("both kinds of evidence", ["abe", "bcf", "cef"], "e", "f"),
    ("two special variables", ["abe", "bfc", "cef"], "", "ef"),
]
MORE = [
    ("five-cycle", ["ab", "bc", "cd", "de", "ea"], "", ""),
    ("complete overlap of four", ["xyab", "xybc", "xycd", "xyda"], "", ""),
    ("tree of six", ["ab", "ac", "bd", "be", "cf", "cg"], "", ""),
    ("grid", ["abde", "bcef", "dehg", "efhi"], "", ""),
    ("nested scopes", ["abcd", "bcd", "cd", "d", "de", "e"], "", ""),
    ("wheel", ["xab", "xbc", "xcd", "xda"], "", ""),
]


SHAPES += [
    ("fully observed factor", ["ab", "bc", "c"], "c", ""),
    ("two fully observed factors", ["c", "ab", "cd", "bd"], "cd", ""),
    ("everything observed in one factor of two", ["ab", "ba", "bc"], "ab", ""),
    ("three shared variables", ["axyz", "bxyz", "cx"], "", ""),
    ("four shared variables", ["awxyz", "zyxwb", "cxw"], "", ""),
    ("eight shared variables", ["astuvwxyz", "zyxwvutsb", "cuvw"], "", ""),
    ("twelve shared variables", ["aopqrstuvwxyz", "zyxwvutsrqpob"], "", ""),
    ("six clusters share a variable", ["xa", "xb", "xc", "xd", "xe", "xf"], "", ""),
    ("eight clusters share two variables", ["xya", "xby", "xyc", "xyd", "yxe", "xyf", "xyg", "hxy"], "", ""),
    ("long chain", ["ab", "bc", "cd", "de", "ef", "fg", "gh", "hi", "ij", "jk", "kl"], "", ""),
    ("long cycle", ["ab", "bc", "cd", "de", "ef", "fg", "gh", "ha"], "", ""),
    ("eleven clusters share a variable", [f"x{c}" for c in "abcdefghijk"], "", ""),
    ("three subsumed factors", ["abcd", "a", "b", "cd"], "", ""),
    ("many subsumed factors", ["cd", "a", "abcd", "b", "ab", "abcde", "ef"], "", ""),
    ("special evidence in reverse name order", ["cba", "ad"], "", "cb"),
    ("three special variables", ["dcba", "ae", "bfa"], "", "dbc"),
    ("three special variables in another cluster", ["xa", "abcdy", "dx"], "", "cbd"),
    ("three evidence variables", ["dcba", "ae", "bfac"], "dbc", ""),
    ("evidence in reverse name order", ["cbad", "dc"], "cb", ""),
]


def canon(seq):
    """rename the variables in order of first appearance"""
    d = {}
    return tuple("".join(d.setdefault(v, "abcdefgh"[len(d)]) for v in s) for s in seq)


@functools.lru_cache(None)
def families(nvars, nfac):
    """all lists of up to nfac factor scopes over nvars variables, up to renaming"""
    subs = ["".join(c) for k in range(1, nvars + 1) for c in itertools.combinations("abcdefgh"[:nvars], k)]
    out = {}
    for k in range(1, nfac + 1):
        for seq in itertools.product(subs, repeat=k):
            best = min(tuple("".join(sorted(s)) for s in canon([[p[ord(v) - 97] for v in s] for s in seq]))
                       for p in ["abcdefgh"[:nvars]])
            out.setdefault(best, None)
    return tuple(out)


def drawn(seed, count, nfac=(3, 6), nvars=(4, 7), plain=False):
    """scope lists with shuffled names, orders and evidence; deterministic"""
    rng = random.Random(seed)
    out = []
    for n in range(count):
        nv = rng.randint(*nvars)
        names = rng.sample("abcdefghuvwxyz", nv)
        sc = []
        for _ in range(rng.randint(*nfac)):
            k = min(nv, rng.choice((1, 2, 2, 2, 3, 3, 4)))
            sc.append("".join(rng.sample(names, k)))
        used = sorted(set("".join(sc)))
        rng.shuffle(used)
        ev, sp = ("", "") if plain else rng.choice((("", ""), (used[:1], ""), (used[:2], ""), ("", used[:1]), ("", used[:2]), (used[:1], used[1:2])))
        out.append((f"drawn {seed}.{n}", sc, "".join(ev), "".join(sp)))
    return out


def many(R):
    """construction is cheap: whole families of scope lists"""
    deep = getattr(R, "tier", "quick") == "thorough"
    fam = families(4, 3) + (families(3, 4) if deep else ())
    return shapes(R) + [("scopes " + " ".join(f), list(f), "", "") for f in fam] + drawn(11, 1500 if deep else 250)


def value(v):
    return T("scal", "val", v)


def scopes_of(shape):
    """variables in scope after evidence"""
    _, sc, ev, sp = shape
    return [[v for v in s if v not in ev] for s in sc]


def build(it, shape, ext=True, setup=None):
    name, sc, ev, sp = shape
    al = Algebra(it)
    if setup:
        setup(al)
    G = cls(it, CGM, "ClusterGraph")
    fs = [al.atom(f"f{i}", list(s), f"factors[{i}]" if ext else None) for i, s in enumerate(sc)]
    lf = pylist(fs)
    kw = {}
    args = [lf]
    if ev:
        kw["evidence"] = pydict({v: value(v) for v in ev})
    if sp:
        kw["special_evidence"] = pydict({v: value(v) for v in sp})
    if ext:
        mark(lf, "factors")
        for k, v in kw.items():
            mark(v, k)
    g = new(it, G, lf, disable_tqdm=True, **kw)
    return al, g, [lf] + list(kw.values())


def clusters_of(it, g):
    v = g.fields.get("_clusters")
    if v is None:
        for x in g.fields.values():
            if isinstance(x, LObj) and x.parts and all(isinstance(p, One) and isinstance(p.v, Inst) and p.v.cls.name == "Cluster" for p in x.parts):
                v = x
                break
    ps = it.seq_parts(v) if v is not None and not isinstance(v, Top) else None
    if ps is None or not all(isinstance(p, One) and isinstance(p.v, Inst) for p in ps):
        raise Bail("clusters unknown")
    return [p.v for p in ps]


def paths_of(it, g):
    v = it.getattr(g, "graph_message_paths")
    ps = it.seq_parts(v) if not isinstance(v, Top) else None
    if ps is None or not all(isinstance(p, One) and isinstance(p.v, Inst) for p in ps):
        raise Bail("message paths unknown")
    return [p.v for p in ps]


def cid(it, c):
    x = it.getattr(c, "cluster_id")
    if not isinstance(x, str):
        raise Bail("cluster id unknown")
    return x


def reduced(shape):
    """values of the input factors after evidence"""
    _, sc, ev, sp = shape
    return [alg.red(alg.f(f"f{i}", s), [(v, value_key(value(v))) for v in s if v in ev]) for i, s in enumerate(sc)]


def shapes(R):
    return SHAPES + (MORE if getattr(R, "tier", "quick") == "thorough" else [])


@obligation("V16", "V17", "V18", "V01", "V03")
def graph_construction(it, R):
    for shape in many(R):
        what = f"ClusterGraph ({shape[0]})"
        observed = set(shape[2]) | set(shape[3])

        def ver(o):
            al, g, args = o.value
            try:
                structure(it, R, o, shape, what, g, observed)
            except PyRaise as e:
                R.verdict(("V16", "V17"), f"{what}: raises {e.exc.cname}", NE, f"{e.exc.cname} raised at {e.exc.loc}")
            except Bail as e:
                R.verdict(("V16", "V17", "V18"), what, UNK, str(e))
            if o.mutations:
                for ext, kind, key, old, nw, loc in o.mutations:
                    R.verdict(("V01", "V03"), f"ClusterGraph: {ext} modified", NE, f"{ext} is modified ({kind}) at {loc}")
            else:
                R.verdict(("V01", "V03"), "ClusterGraph: arguments unchanged", EQ)
            sh = [(p, q) for a in args for p, q in overlap(a, g)]
            for p, q in sh:
                R.verdict("V03", "ClusterGraph keeps private copies", NE, f"graph{q} is the caller's argument{p}")
            if not sh:
                R.verdict("V03", "ClusterGraph keeps private copies", EQ)
        explore(it, R, what, lambda it: build(it, shape), ver, ("V16", "V17", "V18"))


def structure(it, R, o, shape, what, g, observed):
    cs = clusters_of(it, g)
    ids = [cid(it, c) for c in cs]
    scope_ = {}
    for c, i in zip(cs, ids):
        scope_[i] = need(it, it.getattr(c, "var_names"), "cluster scope")
    P = ("V16",)
    if len(set(ids)) != len(ids):
        R.verdict(P, "cluster graph: cluster ids", NE, f"duplicate ids {ids}")
        return
    # ---- V17: nothing lost or used twice
    inputs = reduced(shape)
    total = alg.prod(*[(x, 1) for x in inputs])
    got = alg.prod(*[(belief(it, c).fields["val"], 1) for c in cs])
    ok, how = alg.same(got, total)
    R.verdict(("V17", "V18") if shape[2] else ("V17",), "cluster graph: product of the cluster beliefs",
              (EQ if how == "normal form" else "interp") if ok else NE, f"{what}: {how}")
    ins = [frozenset(s) for s in scopes_of(shape)]
    for i in ids:
        if frozenset(scope_[i]) not in ins:
            R.verdict(("V17",), "cluster graph: cluster scope", NE, f"{what}: cluster over {scope_[i]} is not the scope of any factor")
        else:
            R.verdict(("V17",), "cluster graph: cluster scope", EQ)
        b = belief(it, cs[ids.index(i)])
        if frozenset(alg.scope(b.fields["val"])) - frozenset(scope_[i]):
            R.verdict(("V17",), "cluster graph: cluster belief scope", NE, what)
    # ---- V18: observed variables are gone
    for i in ids:
        left = [v for v in scope_[i] if v in shape[2]]
        R.verdict(("V18",), "cluster graph: evidence reaches every factor", NE if left else EQ, f"{what}: {left} still in cluster {i}")
    # ---- V16
    sep = {}
    for c, i in zip(cs, ids):
        nb = need(it, it.getattr(c, "neighbour_ids"), "neighbours")
        if len(set(nb)) != len(nb) or not set(nb) <= set(ids) or i in nb:
            R.verdict(P, "cluster graph: neighbours", NE, f"{what}: neighbours {nb} of {i}")
            return
        for n in nb:
            sep[(i, n)] = need(it, meth(it, c, "get_sepset", n), "sepset")
    bad = None
    for (i, j), s in sep.items():
        if (j, i) not in sep:
            bad = f"edge {i} - {j} exists in one direction only"
        elif sorted(sep[(j, i)]) != sorted(s):
            bad = f"sepset of {i} - {j} differs by direction"
        elif not s or len(set(s)) != len(s):
            bad = f"sepset {s} of {i} - {j}"
        elif not set(s) <= set(scope_[i]) & set(scope_[j]):
            bad = f"sepset {s} of {i} - {j} is not shared by both clusters"
        if bad:
            break
    R.verdict(P, "cluster graph: sepsets", NE if bad else EQ, f"{what}: {bad}")
    if bad:
        return
    obs = [v for s in sep.values() for v in s if v in observed]
    R.verdict(("V18", "V16"), "cluster graph: sepsets contain no observed variable", NE if obs else EQ, f"{what}: {sorted(set(obs))} in a sepset")
    for v in sorted({v for s in scope_.values() for v in s} - observed):
        have = [i for i in ids if v in scope_[i]]
        edges = [(i, j) for (i, j), s in sep.items() if v in s and i < j]
        seen, todo = set(), have[:1]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [j for (i, j) in sep if i == x and v in sep[(i, j)]]
        if seen != set(have):
            R.verdict(P, "cluster graph: running intersection (connected)", NE, f"{what}: clusters with {v} are not connected: {have}, edges {edges}")
        elif len(edges) != len(have) - 1:
            R.verdict(P, "cluster graph: running intersection (unique path)", NE, f"{what}: {len(edges)} edges carry {v} among {len(have)} clusters")
        else:
            R.verdict(P, "cluster graph: running intersection", EQ)
    # ---- message paths
    ps = paths_of(it, g)
    ends = []
    for p in ps:
        a, b = it.getattr(p, "sender_cluster"), it.getattr(p, "receiver_cluster")
        if not any(a is c for c in cs) or not any(b is c for c in cs):
            R.verdict(("V16", "V21"), "cluster graph: message paths", NE, f"{what}: a message path refers to another cluster object")
            return
        ends.append((cid(it, a), cid(it, b)))
    R.verdict(("V16", "V21"), "cluster graph: one message path per direction of every edge", EQ if sorted(ends) == sorted(sep) else NE,
              f"{what}: paths {sorted(ends)} for edges {sorted(sep)}")


SCRIPT = {}


def gain(last, fresh):
    if SCRIPT.get("gain"):
        return SCRIPT["gain"](last, fresh)
    if last is None:
        return T("scal", "dvac", fresh)
    if last == fresh:
        return 0.0
    return T("scal", "kl", last, fresh)


class Sim:
    """specification state of message passing"""

    def __init__(self, it, g, shape):
        self.it, self.g = it, g
        self.sp = shape[3]
        cs = clusters_of(it, g)
        self.ids = [cid(it, c) for c in cs]
        self.bel = {i: belief(it, c).fields["val"] for i, c in zip(self.ids, cs)}
        self.scope = {i: need(it, it.getattr(c, "var_names"), "scope") for i, c in zip(self.ids, cs)}
        self.sep = {}
        for c, i in zip(cs, self.ids):
            for n in need(it, it.getattr(c, "neighbour_ids"), "neighbours"):
                self.sep[(i, n)] = need(it, meth(it, c, "get_sepset", n), "sepset")
        self.last = {}
        self.passes = []

    def fresh(self, i, j):
        ev = [(v, value_key(value(v))) for v in self.scope[i] if v in self.sp]
        m = alg.marg(alg.red(self.bel[i], ev), self.sep[(i, j)])
        return alg.div(m, self.last[(j, i)]) if (j, i) in self.last else m

    def gains(self):
        return {e: gain(self.last.get(e), self.fresh(*e)) for e in self.sep}

    def arrive(self, i, j, val, nfacts, loc):
        want = self.fresh(i, j) if (i, j) in self.sep else None
        self.passes.append(((i, j), val, want, self.gains(), nfacts, loc))
        if (i, j) in self.sep:
            b = alg.mul(self.bel[j], val)
            if (i, j) in self.last:
                b = alg.div(b, self.last[(i, j)])
            self.bel[j] = b
            self.last[(i, j)] = val


def nonneg(t):
    return isinstance(t, T) and t.op == "scal" and t.args[0] in ("kl", "dvac")


class GainAlgebra(Algebra):
    def kl_divergence(self, it, a, k):
        b = argof(it, a, k, 1, "factor")
        return gain(self.val(a[0]), self.val(b))

    def distance_from_vacuous(self, it, a, k):
        return gain(None, self.val(a[0]))


def scripted(seed):
    """arbitrary but fixed distances: an unchanged message has distance zero, every other pair its own number"""
    m = alg.Model(seed + 5)
    sigs = {}

    def sig(t):
        if t not in sigs:
            vs, tab = m.ev(t)
            sigs[t] = repr(vs) + ",".join(f"{x:.6g}" for x in tab.ravel())
        return sigs[t]

    def f(last, fresh):
        a, b = sig(last) if last is not None else "", sig(fresh)
        if a == b:
            return 0.0
        rng = random.Random(zlib.crc32(f"{seed}|{a}|{b}".encode()))
        x = rng.choice((0.25, 0.5, 1.0, 2.0, float("inf"))) if rng.random() < .3 else rng.randint(1, 400) / 64
        return x / 64 if last is not None and rng.random() < .5 else x
    return f


def watch(it, cur):
    """report every received message to the current specification state"""
    C = cls(it, CLM, "Cluster")
    fn, _ = C.find("receive_message")
    if not isinstance(fn, FuncV):
        raise Anchor("Cluster.receive_message not found")
    argn = [a.arg for a in fn.node.args.args]

    def hook(it, f, fr):
        s = cur.get("sim")
        if s is None:
            return
        me, msg = fr.env.get(argn[0]), fr.env.get(argn[1])
        fac = it.getattr(msg, "factor")
        s.arrive(it.getattr(msg, "sender_id"), cid(it, me), fac.fields["val"] if isinstance(fac, Inst) else None, len(it.taken), it.loc())
    it.hooks[fn.qual] = hook


RUNS = [("chain of two", ["ab", "bc"], "", "", (1, 2), 1), ("chain of two, twice", ["ab", "bc"], "", "", (1,), 2),
        ("chain of three", ["ab", "bc", "cd"], "", "", (1,), 1), ("special evidence", ["abe", "bce"], "", "e", (1,), 1)]
RUNS_DEEP = [("star", ["ab", "ac", "ad"], "", "", (1,), 1), ("triangle", ["ab", "bc", "ca"], "", "", (1,), 1),
             ("chain of three, two rounds", ["ab", "bc", "cd"], "", "", (2,), 1), ("chain of two, long", ["ab", "bc"], "", "", (4,), 1)]


@obligation("V21", "V19", "V20", "V22")
def graph_process(it, R):
    tol = T("scal", "tol", "t")
    deep = getattr(R, "tier", "quick") == "thorough"
    for name, sc, ev, sp, iters, times in RUNS + (RUNS_DEEP if deep else []):
        for mi in iters:
            what = f"ClusterGraph.process_graph ({name}, max_iter={mi})"
            shape = (name, sc, ev, sp)
            cur = {}
            it.zone = nonneg
            watch(it, cur)

            def thunk(it):
                cur["sim"] = None
                al = GainAlgebra(it)
                G = cls(it, CGM, "ClusterGraph")
                fs = [al.atom(f"f{i}", list(s), None) for i, s in enumerate(sc)]
                kw = {"special_evidence": pydict({v: value(v) for v in sp})} if sp else {}
                g = new(it, G, pylist(fs), disable_tqdm=True, **kw)
                s = cur["sim"] = Sim(it, g, shape)
                marks = []
                for _ in range(times):
                    n0 = len(s.passes)
                    meth(it, g, "process_graph", tol=tol, max_iter=mi)
                    marks.append((n0, len(s.passes), s.gains()))
                cur["sim"] = None
                return g, s, marks

            def ver(o):
                process_checks(it, R, o, what, shape, tol, mi)
            try:
                explore(it, R, what, thunk, ver, ("V21",), max_paths=6000 if deep else 1500)
            finally:
                it.zone = None
                it.hooks.clear()


PLAYED = [("triangle", ["ab", "bc", "ca"], "", ""), ("star", ["ab", "ac", "ad"], "", ""), ("four-cycle", ["ab", "bc", "cd", "da"], "", ""),
          ("chain of four", ["ab", "bc", "cd", "de"], "", ""), ("two cycles", ["ab", "bc", "ca", "cd", "da"], "", ""),
          ("overlapping triples", ["abc", "bcd", "cde", "dea"], "", ""), ("special evidence in a cycle", ["abe", "bce", "cae"], "", "e"),
          ("special evidence in reverse name order", ["cbax", "ay", "bxz"], "", "cb"),
          ("three special variables", ["dcba", "ae", "bfa"], "", "dbc"),
          ("hub of a wheel", ["xab", "xbc", "xcd", "xde", "xea", "xyabcde"], "", ""),
          ("hub of six", ["abcdef", "ag", "bgh", "chi", "dij", "ejk", "fkg"], "", ""),
          ("mostly isolated", ["ab", "bc", "d", "e", "f", "gh"], "", ""),
          ("evidence in a cycle", ["abe", "bce", "ca"], "e", ""), ("disconnected", ["ab", "bc", "de", "ef", "z"], "", "")]


@obligation("V21", "V19", "V20", "V22", "V18")
def graph_process_played(it, R):
    """loopy graphs and longer runs: the distances between messages are fixed numbers, so the order of the messages is determined"""
    deep = getattr(R, "tier", "quick") == "thorough"
    runs = [(sh, seed, mi, tol) for sh in PLAYED for seed, mi, tol in (((1, 1, 0.0), (2, 2, 0.1), (4, 1, -1.0), (5, 2, 0.0)) if not deep else
            tuple((k, m, t) for k in range(8) for m, t in ((1, -1.0), (2, 0.1), (3, 0.01), (2, 0.0))))]
    runs += [(sh, 3, 1, 0.0) for sh in drawn(23, 150 if deep else 40, (3, 5), (4, 5))]
    for shape, seed, mi, tol in runs:
        name, sc, ev, sp = shape
        what = f"ClusterGraph.process_graph ({name}: {sc}, max_iter={mi}, tol={tol})"
        cur = {}
        watch(it, cur)

        def thunk(it):
            cur["sim"] = None
            SCRIPT["gain"] = scripted(seed)
            g = new(it, cls(it, CGM, "ClusterGraph"), pylist([GainAlgebra(it).atom(f"f{i}", list(s), None) for i, s in enumerate(sc)]), disable_tqdm=True,
                    **({"evidence": pydict({v: value(v) for v in ev})} if ev else {}),
                    **({"special_evidence": pydict({v: value(v) for v in sp})} if sp else {}))
            if len(clusters_of(it, g)) < 2:
                return None
            s = cur["sim"] = Sim(it, g, shape)
            if not s.sep:
                return None
            marks = []
            for again in range(2):
                n0 = len(s.passes)
                meth(it, g, "process_graph", tol=tol, max_iter=mi)
                marks.append((n0, len(s.passes), s.gains()))
                if mi > 1 or len(sc) > 4:
                    break
            cur["sim"] = None
            return g, s, marks

        def ver(o):
            if o.value is not None:
                process_checks(it, R, o, what, shape, tol, mi)
        try:
            explore(it, R, what, thunk, ver, ("V21",), max_paths=40)
        finally:
            SCRIPT.clear()
            it.hooks.clear()


class ApproxAlgebra(GainAlgebra):
    """marginals are approximations of the whole belief (as for non-linear Gaussians): nothing absorbed into it cancels again"""

    def marginalize(self, it, a, k):
        r = super().marginalize(it, a, k)
        r.fields["val"] = approx(self.val(a[0]), self.names(r))
        return r


MARGINALS = {}


def approx(val, kept):
    k = (val, frozenset(kept))
    return alg.f(f"approximate marginal {MARGINALS.setdefault(k, len(MARGINALS))}", kept)


@obligation("V21")
def pending_messages_approximate(it, R):
    """passed messages are computed from the sender's current belief also when a marginal is not exact"""
    runs = [(sh, seed, mi) for sh in PLAYED if not sh[3] for seed, mi in ((1, 2), (6, 2))]
    runs += [(("chain of two", ["ab", "bc"], "", ""), 2, 3), (("chain of three", ["ab", "bc", "cd"], "", ""), 3, 3)]
    for shape, seed, mi in runs:
        name, sc, ev, sp = shape
        what = f"ClusterGraph.process_graph ({name}: {sc}, approximate marginals, max_iter={mi})"
        cur = {}
        watch(it, cur)

        class S2(Sim):
            def fresh(self, i, j):
                b, s, old = self.bel[i], self.sep[(i, j)], self.last.get((j, i))
                self.other = approx(alg.div(b, old), s) if old is not None else None
                return alg.div(approx(b, s), old) if old is not None else approx(b, s)

            def arrive(self, i, j, val, nfacts, loc):
                if (i, j) in self.sep:
                    self.wants.append((i, j, val, self.fresh(i, j), self.other))
                super().arrive(i, j, val, nfacts, loc)

        def thunk(it):
            cur["sim"] = None
            SCRIPT["gain"] = scripted(seed)
            MARGINALS.clear()
            g = new(it, cls(it, CGM, "ClusterGraph"), pylist([ApproxAlgebra(it).atom(f"f{i}", list(s), None) for i, s in enumerate(sc)]), disable_tqdm=True,
                    **({"evidence": pydict({v: value(v) for v in ev})} if ev else {}))
            s = cur["sim"] = S2(it, g, shape)
            s.wants = []
            meth(it, g, "process_graph", tol=-1.0, max_iter=mi)
            cur["sim"] = None
            return s.wants

        def ver(o):
            for k, (i, j, val, *ws) in enumerate(o.value):
                if val is None:
                    R.verdict("V21", what, UNK, "message unknown")
                else:
                    ok = any(w is not None and (val == w or alg.same(val, w)[0]) for w in ws)
                    R.verdict("V21", "process_graph: passed message is computed from the sender's current belief (approximate marginals)", EQ if ok else NE,
                              f"{what}, message {k + 1} from {i} to {j} is not that of the current belief")
        try:
            explore(it, R, what, thunk, ver, ("V21",), max_paths=40)
        finally:
            SCRIPT.clear()
            it.hooks.clear()


def process_checks(it, R, o, what, shape, tol, mi):
    g, s, marks = o.value
    P = ("V21",)
    facts = o.facts

    def zone(n=None):
        z = Zone(nonneg)
        for f, b in facts[:n] if n is not None else facts:
            if isinstance(f, T) and f.op == "cmp" and len(f.args) == 2:
                z.add(f, b)
        return z

    def holds(z, a, rel, b):
        """a rel b entailed by the facts"""
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a < b if rel == "<" else a <= b
        d = num(a) - num(b)
        if d.is_const():
            c = d.cval()
            return c < 0 if rel == "<" else c <= 0
        return z.entails(T("cmp", rel, d), True)
    limit = mi * len(s.sep)
    for n0, n1, gains_end in marks:
        for k in range(n0, n1):
            (i, j), val, want, gains, nf, loc = s.passes[k]
            if (i, j) not in s.sep:
                R.verdict(P, "process_graph: message along an edge", NE, f"{what}: message from {i} to {j}")
                continue
            if want is None or val is None:
                R.verdict(P, "process_graph: message", UNK, "unknown")
                continue
            ok, how = alg.same(val, want)
            R.verdict(("V21", "V19", "V18") if shape[2] or shape[3] else ("V21", "V19"), "process_graph: passed message is computed from the sender's current belief",
                      (EQ if how == "normal form" else "interp") if ok else NE, f"{what}, message {k + 1}: {how}")
            z = zone(nf)
            mine = gains[(i, j)]
            if len(gains) > 1:
                rs = [holds(z, x, "<=", mine) for e, x in gains.items() if e != (i, j)]
                if all(r is True for r in rs):
                    R.verdict(P, "process_graph: most changed message first", EQ)
                else:
                    R.verdict(P, "process_graph: most changed message first", NE if z.ok else UNK,
                              f"{what}: message {k + 1} from {i} to {j} is passed although another pending message may have changed more")
            if k > n0:
                r = holds(z, tol, "<", mine)
                R.verdict(P, "process_graph: continues only while a change exceeds the tolerance", EQ if r is True else (NE if z.ok else UNK),
                          f"{what}: message {k + 1} is passed although all pending changes may be below the tolerance")
        cnt = n1 - n0
        if cnt > limit:
            R.verdict(P, "process_graph: iteration limit", NE, f"{what}: {cnt} messages passed, limit {limit}")
        elif cnt == limit:
            R.verdict(P, "process_graph: iteration limit", EQ)
        else:
            z = zone()
            rs = [holds(z, x, "<=", tol) for x in gains_end.values()]
            R.verdict(P, "process_graph: stops only when all pending changes are within the tolerance",
                      EQ if all(r is True for r in rs) else (NE if z.ok else UNK),
                      f"{what}: stops after {cnt} of {limit} messages although a pending change may exceed the tolerance")
    # beliefs after the run
    for c in clusters_of(it, g):
        check_val(R, it, o, ("V20", "V21"), "process_graph: beliefs", belief(it, c), s.bel[cid(it, c)])
    nm = g.fields.get("num_messages_passed")
    if isinstance(nm, int):
        R.verdict(P, "process_graph: message count", EQ if nm == len(s.passes) else NE, f"{what}: {nm} counted, {len(s.passes)} passed")
    if not shape[3]:
        try:
            n0 = len(it.events)
            j = meth(it, g, "get_posterior_joint")
            for e in [e for e in it.events[n0:] if e[0] == "fop" and e[3] == "divide"]:
                R.verdict("V22", "get_posterior_joint: division", NE, f"{what}: messages divided out with divide (zero by zero undefined) at {e[1]}")
            check_val(R, it, o, ("V22",), "get_posterior_joint after message passing", j, alg.prod(*[(x, 1) for x in reduced(shape)]))
        except PyRaise as e:
            R.verdict(("V22",), f"get_posterior_joint: raises {e.exc.cname}", NE, f"raised at {e.exc.loc}")


@obligation("V22", "V15")
def observed_queries(it, R):
    for shape in shapes(R):
        scp, sp = scopes_of(shape), shape[3]
        for q in dict.fromkeys(q for s in scp for v in sp if v in s for q in ((v,), tuple(s), tuple(s[::-1]), (s[0], v)) if v in q and len(set(q)) == len(q)):
            expect_error(it, R, ("V22", "V15"), "ClusterGraph.get_marginal of an observed variable", lambda it: meth(it, build(it, shape, ext=False)[1], "get_marginal", pylist(list(q))))


@obligation("V22", "V18", "V01", "V02")
def graph_queries(it, R):
    for shape in shapes(R):
        name, sc, ev, sp = shape
        if name in ("disconnected",) and False:
            continue
        scp = scopes_of(shape)
        allv = sorted({v for s in scp for v in s} - set(sp))
        qs = []
        for s in scp:
            s = [v for v in s if v not in sp]
            for i in range(len(s)):
                qs.append([s[i]])
                for j in range(len(s)):
                    if i != j:
                        qs.append([s[i], s[j]])
        for i in allv:
            for j in allv:
                if i < j and not any(i in s and j in s for s in scp):
                    qs.append([j, i])
        qs = [list(x) for x in dict.fromkeys(map(tuple, qs))]
        if getattr(R, "tier", "quick") == "quick":
            qs = qs[:10] + qs[-2:]
        for q in qs:
            for recv in (False, True):
                what = f"ClusterGraph.get_marginal of {q} ({name}{', after a message' if recv else ''})"

                def thunk(it):
                    al, g, args = build(it, shape, ext=False)
                    cs = clusters_of(it, g)
                    if recv:
                        M = cls(it, CLM, "Message")
                        for k, c in enumerate(cs):
                            nb = need(it, it.getattr(c, "neighbour_ids"), "neighbours")
                            for n in nb[:1]:
                                s = need(it, meth(it, c, "get_sepset", n), "sepset")
                                meth(it, c, "receive_message", new(it, M, al.make(alg.f(f"m{k}", s), s), n, cid(it, c)))
                    bels = [(belief(it, c).fields["val"], need(it, it.getattr(c, "var_names"), "scope")) for c in cs]
                    ql = mark(pylist(q), "vrs")
                    r = meth(it, g, "get_marginal", ql)
                    return g, bels, r

                contained = any(set(q) <= set(s) for s in scp)
                if not contained:
                    if not recv:
                        expect_error(it, R, ("V22",), f"ClusterGraph.get_marginal of variables no cluster holds", thunk)
                    continue

                def ver(o):
                    g, bels, r = o.value
                    wants = []
                    for b, s in bels:
                        if set(q) <= set(s):
                            wants.append(alg.marg(alg.red(b, [(v, value_key(value(v))) for v in s if v in sp]), q))
                    if isinstance(r, Top):
                        R.verdict("V22", what, *top_verdict(r))
                        return
                    if not (isinstance(r, Inst) and "val" in r.fields):
                        R.verdict("V22", what, NE, f"answer is {r!r}")
                        return
                    got = r.fields["val"]
                    ns = [p.v for p in r.fields["_var_names"].parts]
                    good = any(alg.same(got, w)[0] or alg.same(got, alg.norm(w))[0] for w in wants)
                    R.verdict(("V22", "V18") if sp else ("V22",), "ClusterGraph.get_marginal: answer", "interp" if good and got not in wants else EQ if good else NE,
                              f"{what}: {alg.show(got)} instead of {alg.show(wants[0])}")
                    R.verdict("V22", "ClusterGraph.get_marginal: scope", EQ if sorted(ns) == sorted(q) else NE, f"{what}: answer over {ns}")
                    for (b, s), c in zip(bels, clusters_of(it, g)):
                        check_val(R, it, o, ("V22", "V01"), "ClusterGraph.get_marginal: beliefs unchanged", belief(it, c), b)
                    sh = overlap(r, g)
                    R.verdict("V02", "ClusterGraph.get_marginal: answer is private", NE if sh else EQ, f"answer{sh[0][0] if sh else ''} is part of the graph")
                    for m in o.mutations:
                        R.verdict("V01", "ClusterGraph.get_marginal: arguments unchanged", NE, f"{m[0]} modified at {m[-1]}")
                explore(it, R, what, thunk, ver, ("V22",))
        if sp or len(sc) < 1:
            continue
        what = f"ClusterGraph.get_posterior_joint ({name})"

        def thunk2(it):
            al, g, args = build(it, shape, ext=False)
            return g, meth(it, g, "get_posterior_joint")

        def ver2(o):
            g, r = o.value
            check_val(R, it, o, ("V22",), "ClusterGraph.get_posterior_joint", r, alg.prod(*[(x, 1) for x in reduced(shape)]))
            sh = overlap(r, g)
            R.verdict("V02", "ClusterGraph.get_posterior_joint: answer is private", NE if sh else EQ, f"answer{sh[0][0] if sh else ''} is part of the graph")
            for e in divides(o):
                R.verdict("V22", "get_posterior_joint: division", NE, f"messages divided out with divide (zero by zero undefined) at {e[1]}")
        explore(it, R, what, thunk2, ver2, ("V22",))


@obligation("V18", "V22", "V21")
def single_cluster_evidence(it, R):
    """a graph of one cluster applies special evidence directly"""
    for sc, sp in (("abe", "e"), ("eba", "eb"), ("ab", "q")):
        what = f"ClusterGraph.process_graph (one cluster over {list(sc)}, special evidence {list(sp)})"
        shape = ("one", [sc], "", sp)
        q = [v for v in sc if v not in sp][:1]

        def thunk(it):
            al, g, args = build(it, shape, ext=False)
            before = meth(it, g, "get_marginal", pylist(q))
            meth(it, g, "process_graph")
            return g, before, meth(it, g, "get_marginal", pylist(q))

        def ver(o):
            g, before, after = o.value
            w = alg.marg(alg.red(alg.f("f0", sc), [(v, value_key(value(v))) for v in sc if v in sp]), q)
            check_val(R, it, o, ("V18", "V22"), "get_marginal before processing (one cluster)", before, w)
            check_val(R, it, o, ("V18", "V22"), "get_marginal after processing (one cluster)", after, w)
        explore(it, R, what, thunk, ver, ("V18",))


@obligation("V18")
def subset_evidence(it, R):
    m = it.module("veroku.factors._factor_utils")
    fn = m.env.get("get_subset_evidence") if m else None
    if not isinstance(fn, FuncV):
        raise Anchor("get_subset_evidence not found")
    what = "get_subset_evidence"
    V = lambda g: T("val", g)

    def thunk(it):
        # generic: factor over blocks F and E, evidence over blocks E and X
        ev = mark(dic(["X", "E"], "oe", V), "evidence")
        return it.call(fn, [ev, mark(lst(it, scope(["F", "E"], "ov")), "vars")], {})

    def ver(o):
        r = o.value
        ps = it.seq_parts(r) if not isinstance(r, Top) else None
        if ps is None or len(ps) != 2:
            R.verdict("V18", what, UNK, "unknown result")
            return
        vs, xs = it.seq_parts(ps[0].v), it.seq_parts(ps[1].v)
        if vs is None or xs is None:
            R.verdict("V18", what, UNK, "unknown result")
            return
        ctx = Ctx()
        R.verdict("V18", what + ": exactly the observed variables of the scope", *same_content(it, ctx, vs, ["E"], o.facts))
        exp = [One(V(p.v)) if isinstance(p, One) else Map(p.order, [GE(g.g, g.guards, subst(V(T("g", "V", "#", 0)), {T("g", "V", "#", 0): g.v})) for g in p.ges]) for p in vs]
        R.verdict("V18", what + ": every value belongs to its variable", *same_seq(it, ctx, xs, exp, o.facts))
        for m in o.mutations:
            R.verdict("V18", what + ": arguments unchanged", NE, f"{m[0]} modified at {m[-1]}")
    explore(it, R, what, thunk, ver, ("V18",))


def varorder(it, f):
    ps = it.seq_parts(it.getattr(f, "var_names"))
    return tuple(p.v if isinstance(p, One) else p for p in ps) if ps is not None else None


def graph_signature(it, g, qs):
    cs = clusters_of(it, g)
    sig = {"cluster ids": tuple(cid(it, c) for c in cs)}
    for c in cs:
        i = cid(it, c)
        nb = need(it, it.getattr(c, "neighbour_ids"), "neighbours")
        sig[f"neighbours of a cluster"] = sig.get("neighbours of a cluster", ()) + ((i, tuple(nb)),)
        for n in nb:
            sig["sepset order"] = sig.get("sepset order", ()) + ((i, n, tuple(need(it, meth(it, c, "get_sepset", n), "sepset"))),)
        sig["cluster variable order"] = sig.get("cluster variable order", ()) + (varorder(it, c),)
    sig["message path order"] = tuple((cid(it, it.getattr(p, "sender_cluster")), cid(it, it.getattr(p, "receiver_cluster"))) for p in paths_of(it, g))
    for q in qs:
        sig["query variable order"] = sig.get("query variable order", ()) + (varorder(it, meth(it, g, "get_marginal", pylist(q))),)
    if not g.fields.get("special_evidence") or not it.seq_parts(g.fields["special_evidence"]):
        j = meth(it, g, "get_posterior_joint")
        sig["joint variable order"] = varorder(it, j)
    return sig


@obligation("V23")
def graph_determinism(it, R):
    """every set is iterated in two orders; nothing observable may change"""
    for shape in shapes(R):
        scp = scopes_of(shape)
        qs = [[v for v in s if v not in shape[3]][:2][::-1] for s in scp]
        qs = [q for q in qs if q]
        what = f"ClusterGraph ({shape[0]})"
        res = []
        for rev in (False, True):
            it.set_rev = rev
            try:
                explore(it, R, what, lambda it: graph_signature(it, build(it, shape, ext=False)[1], qs), lambda o: res.append(o.value), ("V23",))
            finally:
                it.set_rev = False
        if len(res) != 2:
            R.verdict("V23", what, UNK, "no comparable runs")
            continue
        for k in res[0]:
            a, b = res[0][k], res[1].get(k)
            R.verdict("V23", f"cluster graph: {k}", EQ if a == b else NE, f"{what}: {a} or {b}, depending on the iteration order of a set")
    for shape in (("chain of three", ["ab", "bc", "cd"], "", ""), ("two shared", ["abc", "bcd"], "", "")):
        what = f"ClusterGraph.process_graph ({shape[0]})"
        res = []
        cur = {}
        it.zone = nonneg
        watch(it, cur)

        def thunk(it):
            cur["sim"] = None
            al = GainAlgebra(it)
            g = new(it, cls(it, CGM, "ClusterGraph"), pylist([al.atom(f"f{i}", list(s), None) for i, s in enumerate(shape[1])]), disable_tqdm=True)
            s = cur["sim"] = Sim(it, g, shape)
            meth(it, g, "process_graph", tol=0.0, max_iter=1)
            return [p[0] for p in s.passes]
        try:
            for rev in (False, True):
                it.set_rev = rev
                d = {}
                explore(it, R, what, thunk, lambda o: d.__setitem__(frozenset(o.facts), o.value), ("V23",), max_paths=1500)
                res.append(d)
        finally:
            it.set_rev, it.zone = False, None
            it.hooks.clear()
        if set(res[0]) != set(res[1]):
            R.verdict("V23", "process_graph: message order", UNK, "paths differ")
            diff = []
        else:
            diff = [k for k in res[0] if res[0][k] != res[1][k]]
            R.verdict("V23", "process_graph: message order", NE if diff else EQ,
                      f"{what}: {res[0][diff[0]] if diff else ''} or {res[1][diff[0]] if diff else ''}, depending on the iteration order of a set")
