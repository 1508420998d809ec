"""C07: moralization."""
from symex.explore import Task
from pybbn.graph.dag import Bbn, Dag
from pybbn.graph.edge import Edge, EdgeType
from pybbn.pptc.moralizer import Moralizer
from props import structure as S

BOUNDS = ("every DAG on 4 nodes (5 in thorough) with symbolic pairwise different ids in any order, every DAG on 6 nodes over a fixed id "
          "assignment, larger ones up to 30 nodes and 8 parents with up to 9 (14) edges each present or not; Bbn and Dag")
OUTSIDE = "larger graphs"


def run(ctx, n, edges=None, ids=None, cls=Bbn, bits=None, flip=False, loose=0):
    idl = S.id_list(ctx, ids, n)
    nodes = S.bbn_nodes(ctx, idl)
    if edges is None:
        edges = S.flags(ctx, n, bits)
    edges = S.loosen(ctx, edges, loose)
    if flip:
        edges = [(b, a) for a, b in edges][::-1]
    dag = cls()
    for nd in nodes:
        dag.add_node(nd)
    for a, b in edges:
        dag.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
    ug = Moralizer.moralize(dag)
    got = [(S.index_of(nodes, e.i), S.index_of(nodes, e.j)) for e in ug.get_edges()]
    want = S.moral(n, edges)
    ctx.check(all(e.type == EdgeType.UNDIRECTED for e in ug.get_edges()), "undirected")
    ctx.check(None not in [x for e in got for x in e], "nodes", "an edge joins a node that is not in the graph")
    ctx.check(len(got) == len(want), "edges", "%d edges, specified %d" % (len(got), len(want)))
    ctx.check(S.und(got) == want, "edges", "moral edges %s, specified %s" % (sorted(map(sorted, S.und(got))), sorted(map(sorted, want))))
    ns = [S.index_of(nodes, x) for x in ug.get_nodes()]
    ctx.check(sorted(ns) == list(range(n)), "nodes", "nodes %s" % ns)
    for a in range(n):
        nb = {S.idx_by_id(idl, x) for x in ug.get_neighbors(idl[a])}
        ctx.check(nb == {b for b in range(n) if frozenset((a, b)) in want}, "neighbors", "neighbours of %d: %s" % (a, sorted(nb)))
        for b in range(n):
            if a != b:
                ctx.check(bool(ug.edge_exists(idl[a], idl[b])) == (frozenset((a, b)) in want), "edge_exists", "%d -- %d" % (a, b))
    # the directed graph itself is left as it was
    back = sorted((S.index_of(nodes, e.i), S.index_of(nodes, e.j)) for e in dag.get_edges())
    ctx.check(back == sorted(edges) and all(e.type == EdgeType.DIRECTED for e in dag.get_edges()), "input-unchanged", "edges now %s" % back)


def tasks(tier):
    T = []
    for b in range(8):
        bits = [bool(b & 1), bool(b & 2), bool(b & 4)]
        T.append(Task("all4.sorted.%d" % b, run, budget=120, n=4, ids="sorted", bits=bits))
        T.append(Task("all5.%d" % b, run, budget=120, n=5, ids=[7, 12, 1, 30, 4], bits=bits, flip=b % 2 == 1))
    T.append(Task("all3.sym", run, budget=120, n=3, ids="sym"))
    T.append(Task("all3.dag", run, budget=120, n=3, ids="sym", cls=Dag, flip=True))
    for k, (n, e) in S.STRUCTS.items():
        T.append(Task("named." + k, run, budget=60, n=n, edges=e))
        T.append(Task("named.%s.dag" % k, run, budget=60, n=n, edges=e, cls=Dag, ids=[(i * 7 + 3) % 23 for i in range(n)], flip=True))
    for b in range(8):
        bits = [bool(b & 1), bool(b & 2), bool(b & 4)]
        T.append(Task("all4.sym.%d" % b, run, budget=200, n=4, ids="sym", bits=bits, flip=b % 2 == 0))
        T.append(Task("all6.%d" % b, run, budget=200, validate=6, n=6, ids=[7, 12, 1, 30, 4, 100], bits=bits))
    for k, (n, e) in S.BIG.items():
        T.append(Task("big." + k, run, budget=60, validate=3, n=n, edges=e, loose=9))
        T.append(Task("big.%s.dag" % k, run, budget=60, validate=3, n=n, edges=e, loose=8, cls=Dag, ids=[(i * 11 + 3) % 103 for i in range(n)], flip=True))
    if tier == "thorough":
        for k, (n, e) in S.BIG.items():
            T.append(Task("t.big." + k, run, budget=2500, validate=3, n=n, edges=e, loose=14, ids=[(i * 7 + 2) % 103 for i in range(n)]))
        for b in range(16):
            bits = [bool(b & 1), bool(b & 2), bool(b & 4), bool(b & 8)]
            T.append(Task("t.all5.sorted.%d" % b, run, budget=2500, n=5, ids="sorted", bits=bits))
            T.append(Task("t.all5.sym.%d" % b, run, budget=2500, n=5, ids="sym", bits=bits))
    return T
