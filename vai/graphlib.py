"""Models of display objects, progress bars and small graphs (networkx) for the abstract interpreter."""
from .arrays import *
from .heap import *
from .interp import Bail


class Opaque:
    """an object whose behaviour cannot influence results (drawing)"""

    def __init__(self, path):
        self.path = path

    def abs_getattr(self, it, name):
        return Opaque(self.path + "." + name)

    def abs_setattr(self, it, name, v):
        pass

    def abs_call(self, it, a, k):
        return Opaque(self.path + "()")

    def abs_key(self):
        return ("opaque", self.path)

    def __repr__(self):
        return f"<{self.path}>"


def _ones(it, v, what):
    ps = it.seq_parts(v)
    if ps is None or not all(isinstance(p, One) for p in ps):
        raise Bail(what + " unknown")
    return [p.v for p in ps]


class GraphV(HObj):
    """undirected graph with concrete nodes: ordered adjacency as in networkx"""

    def __init__(self):
        self.adj = {}

    def abs_key(self):
        return ("graph", id(self))

    def k(self, v):
        if isinstance(v, (int, str, float)):
            return v
        if isinstance(v, Tup) and all(isinstance(p, One) and isinstance(p.v, (int, str)) for p in v.parts):
            return tuple(p.v for p in v.parts)
        raise Bail("graph node unknown")

    def abs_getattr(self, it, name):
        m = getattr(self, "m_" + name, None)
        if m is None:
            raise Bail("graph attribute " + name)
        if name in ("edges", "nodes", "adj_"):
            return GView(self, name)
        return PyFn(lambda it, a, k: m(it, a, k), name)

    def node(self, n):
        self.adj.setdefault(n, {})

    def edge(self, u, v, w):
        self.node(u)
        self.node(v)
        d = {**self.adj[u].get(v, {}), **w}
        self.adj[u][v] = d
        self.adj[v][u] = d

    def m_add_node(self, it, a, k):
        self.node(self.k(a[0]))

    def m_add_nodes_from(self, it, a, k):
        for n in _ones(it, a[0], "nodes"):
            self.node(self.k(n))

    def m_add_edge(self, it, a, k):
        self.edge(self.k(a[0]), self.k(a[1]), {n: v for n, v in k.items()})

    def m_add_weighted_edges_from(self, it, a, k):
        for e in _ones(it, a[0], "edges"):
            u, v, w = _ones(it, e, "edge")
            self.edge(self.k(u), self.k(v), {"weight": w})

    def m_add_edges_from(self, it, a, k):
        for e in _ones(it, a[0], "edges"):
            x = _ones(it, e, "edge")
            self.edge(self.k(x[0]), self.k(x[1]), dict(k))

    def m_remove_edge(self, it, a, k):
        u, v = self.k(a[0]), self.k(a[1])
        if v not in self.adj.get(u, {}):
            it.throw("NetworkXError", "no edge")
        del self.adj[u][v]
        self.adj[v].pop(u, None)

    def m_has_edge(self, it, a, k):
        return self.k(a[1]) in self.adj.get(self.k(a[0]), {})

    def m_has_node(self, it, a, k):
        return self.k(a[0]) in self.adj

    def m_neighbors(self, it, a, k):
        return LObj([One(x) for x in self.adj.get(self.k(a[0]), {})])

    def m_number_of_nodes(self, it, a, k):
        return len(self.adj)

    def m_number_of_edges(self, it, a, k):
        return len(self.edge_list())

    def m_copy(self, it, a, k):
        g = GraphV()
        g.adj = {n: dict(x) for n, x in self.adj.items()}
        return g

    m_edges = m_nodes = None

    def edge_list(self):
        seen, out = set(), []
        for n, nb in self.adj.items():
            for x, d in nb.items():
                if x not in seen:
                    out.append((n, x, d))
            seen.add(n)
        return out


GraphV.m_edges = GraphV.m_nodes = lambda *a: None


class GView:
    def __init__(self, g, which):
        self.g, self.which = g, which

    def abs_getattr(self, it, name):
        raise Bail("graph view attribute")

    def abs_key(self):
        return ("gview", id(self.g), self.which)

    def items(self, data=False):
        w = lambda x: Tup([One(y) for y in x]) if isinstance(x, tuple) else x
        if self.which == "nodes":
            return [One(w(n)) for n in self.g.adj]
        return [One(Tup([One(w(u)), One(w(v))] + ([One(DObj([DEnt(a, b) for a, b in d.items()]))] if data else [])))
                for u, v, d in self.g.edge_list()]

    def abs_call(self, it, a, k):
        data = k.get("data", a[0] if a else False)
        return LObj(self.items(data is True))

    def abs_parts(self, it):
        return self.items()


def spanning_tree(g, rev=False):
    """Kruskal with stable ordering by weight (as networkx)"""
    t = GraphV()
    for n in g.adj:
        t.node(n)
    comp = {n: n for n in g.adj}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    es = g.edge_list()
    ws = [d.get("weight", 1) for _, _, d in es]
    if not all(isinstance(w, (int, float)) for w in ws):
        raise Bail("edge weights unknown")
    for i in sorted(range(len(es)), key=lambda i: -ws[i] if rev else ws[i]):
        u, v, d = es[i]
        a, b = find(u), find(v)
        if a != b:
            comp[b] = a
            t.edge(u, v, d)
    return t


def gval(v):
    if not isinstance(v, GraphV):
        raise Bail("graph unknown")
    return v


def components(g):
    seen, out = set(), []
    for n in g.adj:
        if n in seen:
            continue
        todo, c = [n], []
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            c.append(x)
            todo += list(g.adj[x])
        out.append(c)
    return out


def install(it):
    L = it.lib
    for n in ("tqdm.auto.tqdm", "tqdm.tqdm", "tqdm.notebook.tqdm"):
        L[n] = lambda it, a, k: a[0] if a else k.get("iterable")
    for n in ("tqdm.auto.trange", "tqdm.trange"):
        L[n] = lambda it, a, k: it.b_range(a, {})
    for n in ("graphviz.Graph", "graphviz.Digraph", "graphviz.Source", "IPython.core.display.Image", "IPython.core.display.display",
              "matplotlib.pyplot.figure"):
        L[n] = (lambda n: lambda it, a, k: Opaque(n))(n)
    def graph(it, a, k):
        g = GraphV()
        if a and isinstance(a[0], GraphV):
            g.adj = {n: dict(x) for n, x in a[0].adj.items()}
        elif a:
            g.m_add_edges_from(it, a, {})
        return g
    L["networkx.Graph"] = graph
    for n in ("networkx.minimum_spanning_tree", "networkx.algorithms.minimum_spanning_tree", "networkx.tree.minimum_spanning_tree"):
        L[n] = lambda it, a, k: spanning_tree(gval(a[0]))
    for n in ("networkx.maximum_spanning_tree", "networkx.tree.maximum_spanning_tree"):
        L[n] = lambda it, a, k: spanning_tree(gval(a[0]), True)
    ed = lambda es: LObj([One(Tup([One(u), One(v), One(DObj([DEnt(a, b) for a, b in d.items()]))])) for u, v, d in es])
    def mse(rev):
        def f(it, a, k):
            t = spanning_tree(gval(a[0]), rev)
            es = t.edge_list()
            if k.get("data", True) is False:
                return LObj([One(Tup([One(u), One(v)])) for u, v, d in es])
            return ed(es)
        return f
    for n in ("networkx.minimum_spanning_edges", "networkx.tree.minimum_spanning_edges"):
        L[n] = mse(False)
    for n in ("networkx.maximum_spanning_edges", "networkx.tree.maximum_spanning_edges"):
        L[n] = mse(True)
    L["networkx.is_connected"] = lambda it, a, k: len(components(gval(a[0]))) == 1
    L["networkx.is_tree"] = lambda it, a, k: len(components(gval(a[0]))) == 1 and len(gval(a[0]).edge_list()) == len(a[0].adj) - 1
    return it
