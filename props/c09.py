"""C09: the join tree."""
import itertools

from symex.explore import Task
from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.pptc.moralizer import Moralizer
from pybbn.pptc.transformer import Transformer
from pybbn.pptc.triangulator import Triangulator
from pybbn.graph.node import Clique
from props import structure as S

BOUNDS = ("the cliques of every DAG on 4 nodes with symbolic ids or symbolic node weights, of every DAG on 5 nodes (6 in thorough) with fixed ids, "
          "of larger ones up to 30 nodes with up to 7 (13) edges each present or not, most with symbolic weights; clique lists in the order produced and reversed")
OUTSIDE = "larger graphs"


def run(ctx, n, edges=None, ids=None, bits=None, cards=None, weights=(), rev=False, perm=False, loose=0):
    idl = S.id_list(ctx, ids, n)
    nodes = S.bbn_nodes(ctx, idl, cards)
    if edges is None:
        edges = S.flags(ctx, n, bits)
    edges = S.loosen(ctx, edges, loose)
    dag = Bbn()
    for nd in nodes:
        dag.add_node(nd)
    for a, b in edges:
        dag.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
    cliques = Triangulator.triangulate(Moralizer.moralize(dag))
    for k in weights:
        nodes[k].weight = ctx.real("w%d" % k, 2, 9)
    if rev:
        cliques = cliques[::-1]
    if perm:
        left, cliques = list(cliques), []
        while left:
            cliques.append(left.pop(ctx.choose("order%d" % len(cliques), len(left))))
    check_tree(ctx, n, edges, nodes, cliques, Transformer.transform(cliques))


def check_tree(ctx, n, edges, nodes, cliques, jt):
    und = S.moral(n, edges)
    mem = lambda c: frozenset(S.index_of(nodes, x) for x in c.nodes)
    cl = list(jt.get_cliques())
    ctx.check(sorted(sorted(mem(c)) for c in cl) == sorted(sorted(mem(c)) for c in cliques), "cliques", "cliques of the tree %s" % [sorted(mem(c)) for c in cl])
    seps = list(jt.get_sep_sets())
    comps = S.n_components(range(n), und)
    ctx.check(len(seps) == len(cl) - comps, "spanning", "%d separators for %d cliques in %d components" % (len(seps), len(cl), comps))
    ctx.check(len(list(jt.get_edges())) == len(seps), "edges", "%d edges, %d separators" % (len(list(jt.get_edges())), len(seps)))
    pos = {}
    for k, c in enumerate(cl):
        ctx.check(c.id not in pos, "ids", "two cliques with id %s" % c.id)
        pos[c.id] = k
    for s in seps:
        ctx.check(s.id not in pos, "ids", "separator id %s is taken" % s.id)
        pos[s.id] = None
    links = []
    for s in seps:
        ends = [pos.get(x) for x in jt.get_neighbors(s.id)]
        ctx.check(len(ends) == 2 and None not in ends, "sepset.ends", "separator joins %s" % ends)
        a, b = ends
        ctx.check({id(s.left), id(s.right)} == {id(cl[a]), id(cl[b])}, "sepset.sides", "left/right of the separator are not the cliques it joins")
        ctx.check(mem(s) == mem(cl[a]) & mem(cl[b]), "sepset.intersection", "separator %s of cliques %s and %s" % (sorted(mem(s)), sorted(mem(cl[a])), sorted(mem(cl[b]))))
        ctx.check(len(mem(s)) > 0, "sepset.empty", "empty separator")
        links.append(frozenset((a, b)))
        for x in (cl[a], cl[b]):
            ctx.check(s.id in jt.get_neighbors(x.id), "neighbors", "clique does not know its separator")
    ctx.check(S.n_components(range(len(cl)), links) == comps, "tree", "links %s leave %d components, specified %d" % (
        [sorted(x) for x in links], S.n_components(range(len(cl)), links), comps))
    for v in range(n):
        holding = [k for k in range(len(cl)) if v in mem(cl[k])]
        through = [l for l in links if all(v in mem(cl[k]) for k in l)]
        ctx.check(S.connected(holding, through), "running-intersection", "cliques with node %d do not form a subtree" % v)


def tasks(tier):
    T = []
    for b in range(8):
        bits = [bool(b & 1), bool(b & 2), bool(b & 4)]
        T.append(Task("dag4.ids.%d" % b, run, budget=200, n=4, ids="sorted", bits=bits))
        T.append(Task("dag4.weights.%d" % b, run, budget=200, validate=5, n=4, ids=[3, 1, 12, 2], weights=range(4), bits=bits))
        T.append(Task("dag5.%d" % b, run, budget=200, validate=5, n=5, ids=[9, 10, 2, 33, 4], cards=[2, 3, 2, 4, 3], bits=bits, rev=True))
        T.append(Task("dag5.perm.%d" % b, run, budget=200, validate=5, n=5, ids=[4, 1, 20, 3, 11], bits=bits, perm=True))
    for b in range(16):
        bits = [bool(b & 1), bool(b & 2), bool(b & 4), bool(b & 8)]
        T.append(Task("dag6.%d" % b, run, budget=200, validate=5, n=6, ids=[9, 1, 2, 33, 14, 0], bits=bits))
    for k, (n, e) in S.STRUCTS.items():
        T.append(Task("named." + k, run, budget=60, n=n, edges=e, cards=[2 + (i * 5) % 3 for i in range(n)], rev=True))
        T.append(Task("weights." + k, run, budget=100, validate=6, n=n, edges=e, ids=[(i * 7 + 3) % 23 for i in range(n)], weights=[n - 1, n // 2, 0]))
    for (k, (n, e)), rev in itertools.product(list(S.MANY.items()) + list(S.BIG.items()), (False, True)):
        T.append(Task("many.%s.%d" % (k, rev), run, budget=60, validate=3, loose=[7, 6][rev], n=n, edges=e, ids=[[i, (i * 11 + 3) % 103][rev] for i in range(n)], weights=[n - 1] if n < 16 else [], rev=rev))
    if tier == "thorough":
        for k, (n, e) in list(S.MANY.items()) + list(S.BIG.items()):
            T.append(Task("t.big." + k, run, budget=2500, validate=3, n=n, edges=e, loose=13, ids=[(i * 7 + 2) % 103 for i in range(n)]))
        for b in range(16):
            bits = [bool(b & 1), bool(b & 2), bool(b & 4), bool(b & 8)]
            T.append(Task("t.dag6.perm.%d" % b, run, budget=2500, validate=10, n=6, ids=[9, 1, 2, 33, 14, 0], bits=bits, perm=True))
            T.append(Task("t.dag5.weights.%d" % b, run, budget=2500, validate=10, n=5, weights=range(5), bits=bits))
            T.append(Task("t.dag4.ids.%d" % b, run, budget=2500, validate=10, n=4, ids="sym", bits=bits))
    return T
