"""C28: confounder and mediator sets fit the open paths."""
import networkx as nx

from symex.explore import Task
from pybbn.causality import do
from props import c26
from props import structure as S
from props.c25 import graph, simple_paths, is_open, descendants, pair, skeleton
from props.c26 import colliders

BOUNDS = c26.BOUNDS
OUTSIDE = "larger graphs; graphs with directed cycles; whether the sets identify a causal effect (they need not)"
ASSUMPTIONS = c26.ASSUMPTIONS


def judge(ctx, n, g, edges, lab, ends=None):
    x, y = ends or pair(ctx, n)
    idx = {l: k for k, l in enumerate(lab)}
    paths = simple_paths(n, edges, x, y)
    off = lambda k: False
    opened = [p for p in paths if is_open(ctx, n, edges, p, off)]
    back = [p for p in opened if (p[1], p[0]) in edges]
    front = [p for p in opened if (p[0], p[1]) in edges]
    where = "%d, %d in %s: " % (x, y, edges)

    got = do.get_minimal_confounders(g, lab[x], lab[y])
    ctx.check(len(got) == len(set(got)), "minimal.dup", where + "%s" % (got,))
    mc = {idx[v] for v in got}
    allowed = {k for p in back for k in p[1:-1]}
    ctx.check(mc <= allowed, "minimal.within", where + "minimal confounders %s not on an open back-door path" % sorted(mc))
    for p in back:
        if len(p) > 2:
            ctx.check(not is_open(ctx, n, edges, p, lambda k: k in mc), "minimal.blocks", where + "%s does not block %s" % (sorted(mc), p))
    ctx.check(len(mc) <= len([p for p in back if len(p) > 2]), "minimal.size", where + "%s for %d paths" % (sorted(mc), len(back)))

    ac = {idx[v] for v in do.get_all_confounders(g, lab[x], lab[y])}
    banned = descendants(n, edges, x) | {y}
    for p in paths:
        if (p[1], p[0]) in edges and not is_open(ctx, n, edges, p, off):
            banned |= set(colliders(edges, p))
    want = allowed - banned
    ctx.check(ac == want, "all", where + "confounders %s, specified %s" % (sorted(ac), sorted(want)))

    got = do.get_minimal_mediators(g, lab[x], lab[y])
    ctx.check(len(got) == len(set(got)), "mediators.dup", where + "%s" % (got,))
    mm = {idx[v] for v in got}
    col = {k for p in paths for k in colliders(edges, p)}
    inner = {k for p in front for k in p[1:-1]}
    ctx.check(mm <= inner - col, "mediators.within", where + "mediators %s" % sorted(mm))
    for p in front:
        if len(p) > 2 and not set(p[1:-1]) & col:
            ctx.check(bool(mm & set(p[1:-1])), "mediators.cover", where + "no mediator %s on %s" % (sorted(mm), p))
    ctx.check(len(mm) <= len(front), "mediators.size", where + "%s" % sorted(mm))


def family(ctx, n, **kw):
    judge(ctx, n, *graph(ctx, n, **kw))


def named(ctx, n, edges):
    d = nx.DiGraph()
    d.add_nodes_from(range(n))
    d.add_edges_from(edges)
    judge(ctx, n, do.get_graph(d), edges, list(range(n)))


def skel(ctx, kind):
    skeleton(ctx, kind, fn=judge)


def tasks(tier):
    return c26.tasks(tier, family, named, skel)
