"""C26: path listings classify every path correctly."""
import networkx as nx

from symex.explore import Task
from pybbn.causality import do
from props import structure as S
from props.c25 import SKELETONS, graph, simple_paths, is_open, pair, skeleton

BOUNDS = ("every DAG on up to 5 nodes (6 in thorough) and every ordered pair of distinct nodes; integer and string labels, both edge insertion orders; named graphs of 6 nodes; every acyclic direction of the links of fixed skeletons of 7-9 nodes (paths, rings, combs, ladders)")
OUTSIDE = "larger graphs; graphs with directed cycles; the order in which paths are listed"
ASSUMPTIONS = ["networkx behaves as documented (it is executed, not modelled)"]


def colliders(edges, p):
    return [b for a, b, c in zip(p, p[1:], p[2:]) if (a, b) in edges and (c, b) in edges]


def judge(ctx, n, g, edges, lab, ends=None):
    x, y = ends or pair(ctx, n)
    want = simple_paths(n, edges, x, y)
    got = do.get_paths(g, lab[x], lab[y])
    idx = {l: k for k, l in enumerate(lab)}
    ctx.check(sorted(tuple(idx[v] for v in d["path"]) for d in got) == sorted(want), "paths", "paths %s, specified %s in %s" % ([d["path"] for d in got], want, edges))
    for d in got:
        p = tuple(idx[v] for v in d["path"])
        where = "path %s in %s: " % (p, edges)
        ctx.check((d["x"], d["y"]) == (lab[x], lab[y]), "ends", where + "ends %r %r" % (d["x"], d["y"]))
        col = colliders(edges, p)
        ctx.check(sorted(idx[v] for v in d["colliders"]) == sorted(col), "colliders", where + "colliders %s" % (d["colliders"],))
        rest = sorted(set(p) - {x, y} - set(col))
        ctx.check(sorted(idx[v] for v in d["z"]) == rest, "others", where + "other inner nodes %s" % (d["z"],))
        ctx.check(bool(d["is_active"]) == is_open(ctx, n, edges, p, lambda k: False), "is_active", where + "active %s" % d["is_active"])
        ctx.check(bool(d["backdoor"]) == ((p[1], p[0]) in edges), "backdoor", where + "backdoor %s" % d["backdoor"])
        ctx.check(bool(d["frontdoor"]) == ((p[0], p[1]) in edges), "frontdoor", where + "frontdoor %s" % d["frontdoor"])
        ctx.check(sorted(idx[v] for v in do.get_colliders(g, list(d["path"]))) == sorted(col), "colliders", where + "get_colliders")
    # the graph is left alone
    ctx.check(sorted((idx[a], idx[b]) for a, b in g.d.edges()) == sorted(edges), "graph", "edges changed to %s" % sorted(map(str, g.d.edges())))
    ctx.check({frozenset((idx[a], idx[b])) for a, b in g.u.edges()} == S.und(edges), "graph", "skeleton changed")


def family(ctx, n, **kw):
    judge(ctx, n, *graph(ctx, n, **kw))


def named(ctx, n, edges):
    d = nx.DiGraph()
    d.add_nodes_from(range(n))
    d.add_edges_from(edges)
    judge(ctx, n, do.get_graph(d), edges, list(range(n)))


def skel(ctx, kind):
    skeleton(ctx, kind, fn=judge)


def split(T, name, fn, n, k, budget, every=1, **kw):
    for b in range(0, 1 << k, every):
        T.append(Task("%s.%d" % (name, b), fn, n=n, bits=[bool(b >> i & 1) for i in range(k)], budget=budget, **kw))


LARGE = {
    "ladder6": [(0, 2), (0, 3), (1, 3), (1, 4), (3, 5), (2, 4)],
    "dense6": [(a, b) for a in range(6) for b in range(a + 1, 6)],
    "bow6": [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (4, 5), (3, 5)],
}


def tasks(tier, F=family, M=named, K=skel):
    T = [Task("n2", F, n=2, perm=True), Task("n3", F, n=3, perm=True), Task("n3.names", F, n=3, labels=["b", "a", "c"], flip=True)]
    split(T, "n4", F, 4, 2, 90)
    split(T, "n4.names", F, 4, 2, 90, labels=["x", "z2", "a", "m"], flip=True)
    split(T, "n5", F, 5, 5, 90, labels=[3, 1, 0, 4, 2])
    for k, es in LARGE.items():
        T.append(Task("named." + k, M, n=6, edges=es))
    for k in SKELETONS:
        T.append(Task("skeleton." + k, K, kind=k, budget=90))
    if tier == "thorough":
        split(T, "t.n5", F, 5, 5, 2000, flip=True)
        split(T, "t.n4.perm", F, 4, 3, 2000, perm=True)
        split(T, "t.n6", F, 6, 7, 2000)
    return T
