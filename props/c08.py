"""C08: triangulation."""
import itertools

from symex.explore import Task
from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.graph import Ug
from pybbn.pptc.moralizer import Moralizer
from pybbn.pptc.triangulator import Triangulator
from props import structure as S

BOUNDS = ("every undirected graph on 4 nodes with symbolic ids or symbolic positive node weights, every undirected graph on 5 nodes (6 in thorough) "
          "with fixed ids and weights, moral graphs of every 6-node DAG over fixed ids, larger ones up to 30 nodes with up to 8 (14) edges each present or not, or a few symbolic weights")
OUTSIDE = "larger graphs; optimality of the elimination order"


def make(ctx, n, edges, idl, nodes):
    ug = Ug()
    for nd in nodes:
        ug.add_node(nd)
    for a, b in edges:
        ug.add_edge(Edge(nodes[a], nodes[b], EdgeType.UNDIRECTED))
    return ug


def check_cliques(ctx, n, und, families, nodes, idl, cliques):
    cl = []
    for c in cliques:
        members = [S.index_of(nodes, x) for x in c.nodes]
        ctx.check(None not in members and len(set(members)) == len(members), "members", "clique members %s" % members)
        byid = {S.idx_by_id(idl, x) for x in c.get_node_ids()}
        ctx.check(byid == set(members), "node_ids", "node_ids of clique %s: %s" % (members, byid))
        cl.append(frozenset(members))
    filled = {frozenset(p) for c in cl for p in itertools.combinations(sorted(c), 2)}
    ctx.check(len(set(cl)) == len(cl), "distinct", "the same clique twice")
    ctx.check(all(any(v in c for c in cl) for v in range(n)), "nodes-covered", "cliques %s" % cl)
    ctx.check(und <= filled, "edges-covered", "edges in no clique: %s" % [sorted(e) for e in und - filled])
    for f in families:
        ctx.check(any(f <= c for c in cl), "family-covered", "no clique holds %s" % sorted(f))
    ctx.check(not any(a < b for a in cl for b in cl), "maximal", "a clique within another: %s" % [sorted(c) for c in cl])
    ctx.check(S.chordal(range(n), filled), "chordal", "filled graph %s" % sorted(map(sorted, filled)))
    ctx.check(set(cl) == S.maximal_cliques(range(n), filled), "cliques-of-filled", "cliques %s" % [sorted(c) for c in cl])
    if S.chordal(range(n), und):
        ctx.check(filled == und, "no-needless-fill", "a chordal graph was filled: %s" % [sorted(e) for e in filled - und])
    return cl


def undirected(ctx, n, edges=None, ids=None, weights=False, bits=None, cards=None, loose=0):
    idl = S.id_list(ctx, ids, n)
    nodes = S.bbn_nodes(ctx, idl, cards, weights is True)
    if weights and weights is not True:
        for k in weights:
            nodes[k].weight = ctx.real("w%d" % k, 2, 9)
    if edges is None:
        edges = S.flags(ctx, n, bits)
    edges = S.loosen(ctx, edges, loose)
    ug = make(ctx, n, edges, idl, nodes)
    und = S.und(edges)
    first = Triangulator.select_node(ug)
    k = S.index_of(nodes, first.node)
    ctx.check(k is not None, "select", "selected a node that is not in the graph")
    nb = {v: [u for u in range(n) if frozenset((u, v)) in und] for v in range(n)}
    fill = {v: sum(1 for p in itertools.combinations(nb[v], 2) if frozenset(p) not in und) for v in range(n)}
    ctx.check(fill[k] == min(fill.values()), "select.fill", "node %d needs %d fill edges, the least is %d" % (k, fill[k], min(fill.values())))

    def weight(v):
        w = nodes[v].weight
        for u in nb[v]:
            w = w * nodes[u].weight
        return w
    for v in range(n):
        if v != k and fill[v] == fill[k]:
            ctx.check(weight(k) <= weight(v), "select.weight", "node %d is heavier than node %d" % (k, v))
            if bool(weight(k) == weight(v)):
                ctx.check(idl[k] < idl[v], "select.id", "of equal candidates node %d was selected before %d" % (k, v))
    cliques = Triangulator.triangulate(ug)
    check_cliques(ctx, n, und, [], nodes, idl, cliques)


def moral(ctx, n, edges=None, ids=None, bits=None, cards=None, weights=(), loose=0):
    idl = S.id_list(ctx, ids, n)
    nodes = S.bbn_nodes(ctx, idl, cards)
    for k in weights:
        nodes[k].weight = ctx.real("w%d" % k, 2, 9)
    if edges is None:
        edges = S.flags(ctx, n, bits)
    edges = S.loosen(ctx, edges, loose)
    dag = Bbn()
    for nd in nodes:
        dag.add_node(nd)
    for a, b in edges:
        dag.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
    ug = Moralizer.moralize(dag)
    cliques = Triangulator.triangulate(ug)
    fams = [frozenset([c] + [p for p, q in edges if q == c]) for c in range(n)]
    check_cliques(ctx, n, S.moral(n, edges), fams, nodes, idl, cliques)


def tasks(tier):
    T = []
    for b in range(8):
        bits = [bool(b & 1), bool(b & 2), bool(b & 4)]
        T.append(Task("ug4.ids.%d" % b, undirected, budget=200, n=4, ids="sym", bits=bits))
        T.append(Task("ug4.weights.%d" % b, undirected, budget=200, validate=5, n=4, ids=[3, 1, 12, 2], weights=True, bits=bits))
        T.append(Task("ug5.%d" % b, undirected, budget=200, validate=5, n=5, ids=[9, 10, 2, 33, 4], cards=[2, 3, 2, 4, 3], bits=bits))
        T.append(Task("dag5.%d" % b, moral, budget=200, validate=5, n=5, ids=[4, 1, 20, 3, 11], cards=[2, 2, 3, 2, 4], bits=bits))
    for k, (n, e) in S.STRUCTS.items():
        T.append(Task("named." + k, moral, budget=60, n=n, edges=e, cards=[2 + (i * 5) % 3 for i in range(n)]))
        T.append(Task("weights." + k, moral, budget=200, validate=6, n=n, edges=e, ids=[(i * 7 + 3) % 23 for i in range(n)], weights=[n - 1, n // 2]))
    for b in range(16):
        bits = [bool(b & 1), bool(b & 2), bool(b & 4), bool(b & 8)]
        T.append(Task("dag6.%d" % b, moral, budget=200, validate=5, n=6, ids=[4, 1, 20, 3, 11, 0], bits=bits))
    for k, (n, e) in S.BIG.items():
        T.append(Task("big." + k, moral, budget=60, validate=3, loose=8, n=n, edges=e, cards=[2 + (i * 5) % 3 for i in range(n)]))
        T.append(Task("big.ids." + k, moral, budget=60, validate=3, n=n, edges=e, ids=[(i * 11 + 3) % 103 for i in range(n)], weights=[n // 2] if n < 20 else []))
        T.append(Task("big.plain." + k, undirected, budget=60, validate=3, loose=8, n=n, edges=[tuple(sorted(x)) for x in e], ids=[(i * 11 + 3) % 103 for i in range(n)][::-1]))
    for k, (n, e) in S.TIGHT.items():
        T.append(Task("tight." + k, undirected, budget=60, validate=3, loose=5, n=n, edges=e, ids=[(i * 11 + 3) % 103 for i in range(n)]))
        T.append(Task("tight.weights." + k, undirected, budget=60, validate=3, n=n, edges=e, weights=[1, n - 2] if n < 12 else [n - 2], ids=list(range(n))))
    if tier == "thorough":
        for k, (n, e) in S.BIG.items():
            T.append(Task("t.big." + k, moral, budget=2500, validate=3, n=n, edges=e, loose=14, cards=[2 + (i * 5) % 3 for i in range(n)]))
            T.append(Task("t.big.plain." + k, undirected, budget=2500, validate=3, n=n, edges=[tuple(sorted(x)) for x in e], loose=14, ids=[(i * 11 + 3) % 103 for i in range(n)]))
        for b in range(16):
            bits = [bool(b & 1), bool(b & 2), bool(b & 4), bool(b & 8)]
            T.append(Task("t.ug6.%d" % b, undirected, budget=2500, validate=10, n=6, ids=[9, 10, 2, 33, 4, 1], cards=[2, 3, 2, 4, 3, 2], bits=bits))
            T.append(Task("t.ug5.ids.%d" % b, undirected, budget=2500, validate=10, n=5, ids="sorted", bits=bits))
            T.append(Task("t.ug5.weights.%d" % b, undirected, budget=2500, validate=10, n=5, weights=[0, 2, 3], bits=bits))
    return T
