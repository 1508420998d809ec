"""C25: path activity decides d-separation."""
import collections.abc
import itertools

import networkx as nx

from symex.explore import Task
from pybbn.causality import do
from props import common as N
from props import structure as S

BOUNDS = ("every DAG on up to 4 nodes (5 in thorough), every pair of distinct nodes, every path between them and every evidence set (membership symbolic, decided where the code asks) without the two end points (for a direct link, with them); "
          "every acyclic direction of the links of fixed skeletons of 7-9 nodes (paths, rings, combs, ladders, long tails); labels integers and strings, edges inserted in both orders; separation compared with conditional independence in networks of 3 and 4 nodes with symbolic CPTs")
OUTSIDE = "evidence that contains an end point of a path with inner nodes; larger graphs"
ASSUMPTIONS = ["networkx behaves as documented (it is executed, not modelled)"]


class SymSet(collections.abc.Set):
    """A set whose members are decided by symbolic Booleans."""

    def __init__(self, ctx, items):
        self.bits = {k: ctx.lazy_flag("in%s" % k) for k in items}

    def __contains__(self, x):
        return x in self.bits and bool(self.bits[x])

    def __iter__(self):
        return iter([k for k in self.bits if self.bits[k]])

    def __len__(self):
        return len(list(iter(self)))

    @classmethod
    def _from_iterable(cls, it):
        return set(it)

    def __getattr__(self, n):
        # every other method of a set, on the members
        if n.startswith("_"):
            raise AttributeError(n)
        return getattr(set(iter(self)), n)


def graph(ctx, n, labels=None, flip=False, bits=None, perm=False):
    order, edges = N.all_dags(ctx, n, [2] * n, perm=perm, bits=bits)
    labels = labels or list(range(n))
    d = nx.DiGraph()
    if flip:
        edges = edges[::-1]
    d.add_nodes_from(labels[i] for i in (order[::-1] if flip else order))
    d.add_edges_from((labels[a], labels[b]) for a, b in edges)
    return do.get_graph(d), [(a, b) for a, b in edges], labels


# skeletons whose links are then directed in every acyclic way; the pairs of ends looked at
SKELETONS = {
    "path7": (7, [(k, k + 1) for k in range(6)], [(0, 6), (6, 1), (5, 0)]),
    "path9": (9, [(k, k + 1) for k in range(8)], [(0, 8), (8, 0)]),
    "ring7": (7, [(k, (k + 1) % 7) for k in range(7)], [(0, 6), (2, 5)]),
    "ring8": (8, [(k, (k + 1) % 8) for k in range(8)], [(1, 0), (0, 4)]),
    "theta7": (7, [(0, 1), (1, 2), (2, 6), (0, 3), (3, 6), (0, 4), (4, 5), (5, 6)], [(0, 6), (1, 5)]),
    "comb8": (8, [(0, 1), (1, 2), (2, 3), (3, 4), (1, 5), (2, 6), (3, 7)], [(0, 4), (5, 7)]),
    "tail7": (7, [(0, 1), (1, 2), (1, 3), (3, 4), (4, 5), (5, 6)], [(0, 2), (2, 6)]),
    "ladder8": (8, [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (0, 4), (3, 7), (1, 5)], [(0, 7)]),
}


def oriented(ctx, n, links, bits=()):
    """The links, each in one direction or the other, without a directed cycle."""
    edges = []
    for k, (a, b) in enumerate(links):
        on = bits[k] if k < len(bits) else ctx.flag("o%d.%d" % (a, b))
        edges.append((a, b) if on else (b, a))
    if S.has_directed_cycle(n, edges):
        ctx.infeasible()
    return edges


def skeleton(ctx, kind, labels=None, fn=None, bits=(), end=None):
    n, links, ends = SKELETONS[kind]
    edges = oriented(ctx, n, links, bits)
    labels = labels or [(5 * k + 3) % n for k in range(n)] if n % 5 else list(range(n))
    d = nx.DiGraph()
    d.add_nodes_from(labels)
    d.add_edges_from((labels[a], labels[b]) for a, b in edges)
    (fn or judge)(ctx, n, do.get_graph(d), edges, labels, ends[ctx.choose("ends", len(ends)) if end is None else end])


def simple_paths(n, edges, x, y):
    nb = {i: {b for a, b in edges if a == i} | {a for a, b in edges if b == i} for i in range(n)}
    out = []

    def go(p):
        if p[-1] == y:
            out.append(tuple(p))
            return
        for k in sorted(nb[p[-1]]):
            if k not in p:
                go(p + [k])
    go([x])
    return out


def descendants(n, edges, i):
    return {j for j in range(n) if j == i or S.reachable(edges, i, j)}


def is_open(ctx, n, edges, path, ev):
    """By definition, as a formula over the membership of nodes in the evidence."""
    out = []
    for a, b, c in zip(path, path[1:], path[2:]):
        if (a, b) in edges and (c, b) in edges:
            out.append(ctx.Or([ev(k) for k in sorted(descendants(n, edges, b))]))
        else:
            out.append(ctx.Not(ev(b)))
    return ctx.And(out)


def d_separated(ctx, n, edges, x, y, ev):
    """Moral ancestral graph criterion (no paths involved), as a formula."""
    anc = []
    for a in range(n):
        d = descendants(n, edges, a)
        anc.append(True if x in d or y in d else ctx.Or([ev(k) for k in sorted(d)]))
    link = {}
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            if (a, b) in edges or (b, a) in edges:
                link[a, b] = ctx.And([anc[a], anc[b]])
            else:
                link[a, b] = ctx.And([anc[a], anc[b], ctx.Or([anc[c] for c in range(n) if (a, c) in edges and (b, c) in edges])])
    reach = [k == x for k in range(n)]
    for _ in range(n - 1):
        reach = [ctx.Or([reach[b]] + [ctx.And([reach[a], link[a, b], True if b == y else ctx.Not(ev(b))]) for a in range(n) if a != b]) for b in range(n)]
    return ctx.Not(reach[y])


def pair(ctx, n):
    x = ctx.choose("x", n)
    rest = [i for i in range(n) if i != x]
    return x, rest[ctx.choose("y", n - 1)]


def named(ctx, n, edges):
    d = nx.DiGraph()
    d.add_nodes_from(range(n))
    d.add_edges_from(edges)
    judge(ctx, n, do.get_graph(d), edges, list(range(n)))


def paths(ctx, n, labels=None, flip=False, bits=None, perm=False):
    judge(ctx, n, *graph(ctx, n, labels, flip, bits, perm))


def judge(ctx, n, g, edges, lab, ends=None):
    x, y = ends or pair(ctx, n)
    rest = [k for k in range(n) if k not in (x, y)]
    E = SymSet(ctx, [lab[k] for k in rest])
    ev = lambda k: k not in (x, y) and E.bits[lab[k]]
    off = lambda k: False
    found = simple_paths(n, edges, x, y)
    some = False
    ctx.check(sorted(tuple(p) for p in do.get_all_paths(g, lab[x], lab[y])) == sorted(tuple(lab[k] for k in p) for p in found), "paths", "paths between %d and %d in %s" % (x, y, edges))
    for p in found:
        got = do.is_active_path(g, [lab[k] for k in p], E)
        ctx.check(bool(got) == got and not isinstance(got, (list, set)), "bool", "is_active_path gives %r" % (got,))
        ctx.check(ctx.formula(ctx.Iff(bool(got), is_open(ctx, n, edges, p, ev))), "active", "path %s of %s: %s" % (p, edges, got))
        some = some or got
    ctx.check(ctx.formula(ctx.Iff(not some, d_separated(ctx, n, edges, x, y, ev))), "separated", "%d and %d in %s: some path active %s" % (x, y, edges, some))
    # without evidence
    for p in found:
        got = do.is_active_path(g, [lab[k] for k in p])
        ctx.check(bool(got) == is_open(ctx, n, edges, p, off), "default", "path %s of %s without evidence: %s" % (p, edges, got))


def independence(ctx, n, bits=None, cards=None):
    """Separated by every path being inactive -> independent in every network of this structure."""
    g, edges, lab = graph(ctx, n, bits=bits)
    x, y = pair(ctx, n)
    if x > y:
        ctx.infeasible()
    rest = [k for k in range(n) if k not in (x, y)]
    E = SymSet(ctx, rest)
    if any(do.is_active_path(g, list(p), E) for p in simple_paths(n, edges, x, y)):
        ctx.check(True, "connected")
        return
    Z = [k for k in rest if k in E]
    net = N.Net({i: (cards or [2] * n)[i] for i in range(n)}, edges)
    j = N.Joint(net, N.cpts(ctx, net))
    xyz, xz, yz, zz = j.marginal([x, y] + Z), j.marginal([x] + Z), j.marginal([y] + Z), j.marginal(Z)
    for k, p in xyz.items():
        a, b, z = k[0], k[1], k[2:]
        ctx.check_eq(p * zz[z], xz[(a,) + z] * yz[(b,) + z], "independent", "%d and %d in %s given %s" % (x, y, edges, Z))


def direct(ctx, n, labels=None, flip=False):
    """A direct link is open unless one of its two ends is in the evidence."""
    g, edges, lab = graph(ctx, n, labels, flip)
    E = SymSet(ctx, lab)
    for a, b in [e for a, b in edges for e in ((a, b), (b, a))]:
        got = do.is_active_path(g, [lab[a], lab[b]], E)
        ctx.check(ctx.formula(ctx.Iff(bool(got), ctx.Not(ctx.Or([E.bits[lab[a]], E.bits[lab[b]]])))), "direct", "link %d - %d of %s: %s" % (a, b, edges, got))


def tasks(tier):
    T = []
    T.append(Task("direct2", direct, n=2))
    T.append(Task("direct3", direct, n=3, labels=["b", "a", "c"], flip=True, budget=60))
    T.append(Task("n2", paths, n=2, perm=True))
    T.append(Task("n3", paths, n=3, perm=True, budget=60))
    T.append(Task("n3.names", paths, n=3, labels=["b", "a", "c"], flip=True, budget=60))
    for b in range(8):
        bits = [bool(b & 1), bool(b & 2), bool(b & 4)]
        T.append(Task("n4.%d" % b, paths, n=4, bits=bits, budget=90))
        T.append(Task("n4.names.%d" % b, paths, n=4, bits=bits, labels=["x", "z2", "a", "m"], flip=True, budget=90))
        T.append(Task("indep4.%d" % b, independence, n=4, bits=bits, budget=90))
    # a collider with a tail, everything else free
    for b in range(8):
        bits = [bool(b & 1), True, bool(b & 2), bool(b & 4), True, None, None, True, False, True]
        T.append(Task("tail5.%d" % b, paths, n=5, bits=bits, budget=90))
    T.append(Task("tail6", named, n=6, edges=[(0, 2), (1, 2), (2, 3), (3, 4), (4, 5)]))
    T.append(Task("m6", named, n=6, edges=[(0, 2), (0, 3), (1, 3), (1, 4), (3, 5), (2, 4)]))
    T.append(Task("indep3", independence, n=3, cards=[2, 3, 2], budget=60))
    for k in SKELETONS:
        if k == "ladder8" and tier != "thorough":
            continue
        if k in ("ring8", "ladder8", "theta7", "path9"):
            for b in range(8):
                T.append(Task("skeleton.%s.%d" % (k, b), skeleton, kind=k, budget=90, bits=[bool(b & 1), bool(b & 2)], end=b // 4) if len(SKELETONS[k][2]) > 1 else
                         Task("skeleton.%s.%d" % (k, b), skeleton, kind=k, budget=90, bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
        else:
            T.append(Task("skeleton." + k, skeleton, kind=k, budget=90))
    if tier == "thorough":
        for b in range(64):
            bits = [bool(b & (1 << k)) for k in range(6)]
            T.append(Task("t.n5.%d" % b, paths, n=5, bits=bits, labels=[3, 1, 0, 4, 2], flip=bool(b & 1), budget=2500))
        for b in range(8):
            bits = [bool(b & 1), bool(b & 2), bool(b & 4)]
            T.append(Task("t.n4.perm.%d" % b, paths, n=4, bits=bits, perm=True, budget=2500))
            T.append(Task("t.indep4.%d" % b, independence, n=4, bits=bits, cards=[3, 2, 2, 3], budget=2500))
    return T
