"""C15: Dag, Bbn and Pdag accept an edge exactly when it keeps them acyclic."""
from symex.explore import Task
from pybbn.graph.dag import Bbn, Dag
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.node import BbnNode, Node
from pybbn.graph.pdag import Pdag
from pybbn.graph.variable import Variable
from props import structure as S
from props.common import node_name, value_names
from props.c06 import perm

BOUNDS = ("one arbitrary addition to every acyclic graph on up to 5 nodes (6 in thorough) reached by accepted additions in any of several orders, and every history of 4 additions on 3 nodes "
          "(rejected, repeated, self and reversed edges included); ids symbolic, pairwise different, in any order; partially directed graphs on 4 nodes with every kind of link; an edge added to skeletons of 7-9 nodes (paths, combs, bridges) whose links take every direction or none")
OUTSIDE = "more nodes, longer histories; removals (C16)"

D, U = EdgeType.DIRECTED, EdgeType.UNDIRECTED


def mk(cls, ctx, ids):
    if cls is Bbn:
        return [BbnNode(Variable(i, node_name(k), value_names(k, 2)), []) for k, i in enumerate(ids)]
    return [Node(i) for i in ids]


class Model:
    """What has been accepted: directed pairs and undirected pairs, on indices."""

    def __init__(self, n):
        self.n = n
        self.d, self.u = set(), set()

    def linked(self, a, b):
        return (a, b) in self.d or (b, a) in self.d or frozenset((a, b)) in self.u

    def ok(self, a, b, directed_only, kind):
        if directed_only and kind is not D:
            return False
        return a != b and not self.linked(a, b) and not S.reachable(self.d, b, a)

    def add(self, a, b, kind):
        if kind is D:
            self.d.add((a, b))
        else:
            self.u.add(frozenset((a, b)))


def edges_now(g, ids):
    d, u = set(), set()
    for e in g.get_edges():
        a, b = S.idx_by_id(ids, e.i.id), S.idx_by_id(ids, e.j.id)
        if e.type is D:
            d.add((a, b))
        else:
            u.add(frozenset((a, b)))
    return d, u


def agree(ctx, g, m, ids, label):
    d, u = edges_now(g, ids)
    ctx.check(d == m.d and u == m.u, label, "edges %s %s, specified %s %s" % (sorted(d), [sorted(x) for x in u], sorted(m.d), [sorted(x) for x in m.u]))
    ctx.check(not S.has_directed_cycle(m.n, sorted(d)), label + ".cycle", "a directed cycle")


def add(ctx, g, m, nodes, ids, a, b, kind, only, label="accepts"):
    want = m.ok(a, b, only, kind)
    g.add_edge(Edge(nodes[a], nodes[b], kind))
    if want:
        m.add(a, b, kind)
    agree(ctx, g, m, ids, label)


def step(ctx, n, cls=Dag, bits=None, order="fwd", ids="sym"):
    """An arbitrary acyclic state, then an arbitrary edge."""
    idl = S.id_list(ctx, ids, n)
    nodes = mk(cls, ctx, idl)
    pairs = S.flags(ctx, n, bits)
    if order == "rev":
        pairs = pairs[::-1]
    elif order == "child":
        pairs = sorted(pairs, key=lambda e: (-e[1], e[0]))
    g = cls()
    m = Model(n)
    for a, b in pairs:
        g.add_edge(Edge(nodes[a], nodes[b], D))
        m.add(a, b, D)
    agree(ctx, g, m, idl, "state")
    a, b = ctx.choose("a", n), ctx.choose("b", n)
    add(ctx, g, m, nodes, idl, a, b, D, True)
    for k in range(n):
        if any(k in e for e in m.d):
            pa = sorted(S.idx_by_id(idl, x) for x in g.get_parents(idl[k]))
            ch = sorted(S.idx_by_id(idl, x) for x in g.get_children(idl[k]))
            ctx.check(pa == sorted(p for p, c in m.d if c == k), "parents", "parents of %d: %s" % (k, pa))
            ctx.check(ch == sorted(c for p, c in m.d if p == k), "children", "children of %d: %s" % (k, ch))


def history(ctx, n, steps, cls=Dag, kinds=(D,), ids="sorted", first=None, plain=True):
    idl = S.id_list(ctx, ids, n)
    nodes = mk(Dag if plain else cls, ctx, idl)
    g, m = cls(), Model(n)
    only = cls is not Pdag
    for s in range(steps):
        if s == 0 and first is not None:
            a, b = first
        else:
            a, b = ctx.choose("a%d" % s, n), ctx.choose("b%d" % s, n)
        kind = kinds[ctx.choose("k%d" % s, len(kinds))]
        add(ctx, g, m, nodes, idl, a, b, kind, only)


def pstep(ctx, n, bits=None, ids="sorted", order=1, last=None):
    """Every pair absent, forward, backward or undirected (as far as accepted), then an arbitrary edge."""
    idl = S.id_list(ctx, ids, n)
    nodes = mk(Pdag, ctx, idl)
    g, m = Pdag(), Model(n)
    k = 0
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)][::order]
    for a, b in pairs:
        o = bits[k] if bits is not None and k < len(bits) else ctx.choose("p%d.%d" % (a, b), 4)
        k += 1
        if o == 0:
            continue
        x, y, kind = [(a, b, D), (b, a, D), (a, b, U)][o - 1]
        add(ctx, g, m, nodes, idl, x, y, kind, False, "state")
    a, b = ctx.choose("a", n), ctx.choose("b", n)
    kind = last or (D, U)[ctx.choose("k", 2)]
    add(ctx, g, m, nodes, idl, a, b, kind, False)
    if a != b:
        ctx.check(bool(g.edge_exists(idl[a], idl[b])) == m.linked(a, b), "exists", "edge_exists")
        ctx.check(bool(g.directed_edge_exists(idl[a], idl[b])) == ((a, b) in m.d), "directed", "directed_edge_exists")


LONG = {
    "path7": (7, [(k, k + 1) for k in range(6)], [(6, 0), (0, 6), (5, 1)]),
    "path9": (9, [(k, k + 1) for k in range(8)], [(8, 0)]),
    "theta7": (7, [(0, 1), (1, 2), (2, 6), (0, 3), (3, 6), (0, 4), (4, 5), (5, 6)], [(6, 0), (0, 6)]),
    "comb8": (8, [(0, 1), (1, 2), (2, 3), (3, 4), (1, 5), (2, 6), (3, 7)], [(4, 0), (7, 5)]),
}


def long(ctx, kind, cls, ids, bits=(), rev=False):
    """Links of a skeleton in either direction (Pdag: or undirected), then one more edge."""
    n, links, ends = LONG[kind]
    nodes = mk(cls, ctx, ids)
    g, m = cls(), Model(n)
    for k, (a, b) in enumerate(links[::-1] if rev else links):
        o = bits[k] if k < len(bits) else ctx.choose("o%d" % k, 3 if cls is Pdag else 2)
        x, y, t = [(a, b, D), (b, a, D), (a, b, U)][o]
        if not m.ok(x, y, cls is not Pdag, t):
            ctx.infeasible()
        g.add_edge(Edge(nodes[x], nodes[y], t))
        m.add(x, y, t)
    agree(ctx, g, m, ids, "state")
    a, b = ends[ctx.choose("ends", len(ends))]
    add(ctx, g, m, nodes, ids, a, b, D, cls is not Pdag)


def tasks(tier):
    T = []
    for b in range(8):
        bits = [bool(b & 1), bool(b & 2), bool(b & 4)]
        T.append(Task("dag5.%d" % b, step, budget=90, n=5, bits=bits, order=("fwd", "rev", "child")[b % 3], ids=[7, 0, 12, 3, 5, -1]))
        T.append(Task("pdag4.%d" % b, pstep, budget=90, n=4, bits=[b % 4, b // 4], order=1, ids=[3, 12, 0, 7], last=D))
        T.append(Task("pdag4.%d" % (b + 8), pstep, budget=90, n=4, bits=[b % 4, 2 + b // 4], order=-1, ids=[3, 12, 0, 7], last=U))
    for k in range(9):
        T.append(Task("hist3.%d" % k, history, budget=90, n=3, steps=4, first=(k // 3, k % 3)))
    T.append(Task("hist3.kinds", history, budget=90, n=3, steps=2, kinds=(D, U)))
    T.append(Task("bbn.plain", history, budget=60, n=3, steps=3, cls=Bbn))
    T.append(Task("bbn.hist3", history, budget=60, n=3, steps=3, cls=Bbn, plain=False))
    T.append(Task("bbn.kinds", history, budget=60, n=3, steps=2, cls=Bbn, kinds=(D, U), plain=False))
    T.append(Task("dag3.anyorder", step, budget=60, n=3, ids="sym"))
    for k in range(9):
        T.append(Task("phist3.%d" % k, history, budget=90, n=3, steps=3, cls=Pdag, kinds=(D, U), first=(k // 3, k % 3)))
    T.append(Task("bbn4", step, budget=90, n=4, cls=Bbn, ids="sorted"))
    ids = [7, 0, 12, 3, 5, -1, 11, 2, 4]
    for k, (n, _, _) in LONG.items():
        T.append(Task("long.dag.%s" % k, long, budget=90, kind=k, cls=Dag, ids=ids[:n], rev=n > 7))
        T.append(Task("long.bbn.%s" % k, long, budget=90, kind=k, cls=Bbn, ids=ids[:n][::-1], rev=n <= 7))
        for b in range(3) if n < 9 else ():
            T.append(Task("long.pdag.%s.%d" % (k, b), long, budget=90, kind=k, cls=Pdag, ids=ids[::-1][:n], bits=[b], rev=n > 7))
    for b in range(4):
        T.append(Task("bbn5.%d" % b, step, budget=90, n=5, cls=Bbn, bits=[bool(b & 1), bool(b & 2)], order=("fwd", "rev", "child", "rev")[b], ids=[7, 0, 12, 3, 5]))
    if tier == "thorough":
        for b in range(9):
            T.append(Task("t.long.pdag.%d" % b, long, budget=2500, kind="path9", cls=Pdag, ids=ids, bits=[b % 3, b // 3]))
        T.append(Task("t.dag4.anyorder", step, budget=2500, n=4, ids="sym", order="child"))
        for b in range(32):
            bits = [bool(b >> j & 1) for j in range(5)]
            T.append(Task("t.dag6.%d" % b, step, budget=2500, n=6, bits=bits, order=("fwd", "rev", "child")[b % 3], ids=[7, 0, 12, 3, 5, -1]))
        for k in range(16):
            T.append(Task("t.hist4.%d" % k, history, budget=2500, n=4, steps=4, first=(k // 4, k % 4)))
            T.append(Task("t.pdag4.fwd.%d" % k, pstep, budget=2500, n=4, bits=[k % 4, k // 4], order=1, ids=[3, 12, 0, 7]))
            T.append(Task("t.pdag4.rev.%d" % k, pstep, budget=2500, n=4, bits=[k % 4, k // 4], order=-1, ids=[3, 12, 0, 7]))
        for k in range(9):
            T.append(Task("t.phist3.%d" % k, history, budget=2500, n=3, steps=4, cls=Pdag, kinds=(D, U), first=(k // 3, k % 3)))
    return T
