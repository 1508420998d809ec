"""C01: marginals without evidence are those of the joint distribution."""
from symex.explore import Task
from pybbn.pptc.inferencecontroller import InferenceController
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable
from props import common as N
from props import structure as S

BOUNDS = ("every labelled DAG on 3 nodes with every topological order of three non-contiguous ids; every DAG on 4 and 5 "
          "nodes (6 in thorough) compatible with several id orders; named larger structures up to 9 nodes and 8 cliques; 2-4 values "
          "per node; every CPT entry symbolic in (0,1], rows summing to 1; zero probabilities symbolic in the 'zero*' tasks; larger networks (up to 30 nodes, 7 parents, 12 values, 25 cliques) with two symbolic CPTs; networks changed (CPT, node or edge) after they had been used")
OUTSIDE = "other structures, more nodes or values; float rounding"


def fixed(ctx, net, zeros=(), const=()):
    pr = N.cpts(ctx, net, zeros, const=const)
    jt = InferenceController.apply(N.build(net, pr))
    N.check_posteriors(ctx, net, N.joints(net, pr), jt)


def family(ctx, n, cards, ids=None, perm=False, flip=False, bits=None):
    order, edges = N.all_dags(ctx, n, cards, ids, perm, bits)
    if flip:
        edges = edges[::-1]
    net = N.Net({i: c for i, c in zip(sorted(order), cards)}, edges, node_order=order)
    fixed(ctx, net)


NAMED = {
    "huang": N.huang(),
    "chain6": N.chain(6),
    "chain4.card3": N.chain(4, 3),
    "star": N.Net({5: 2, 1: 2, 2: 3, 3: 2, 4: 2, 11: 2}, [(5, 1), (5, 2), (5, 3), (5, 4), (5, 11)]),
    "instar": N.Net({0: 2, 1: 3, 2: 2, 3: 2, 4: 2}, [(3, 0), (1, 0), (4, 0), (2, 0)]),
    "collider.unsorted": N.Net({0: 2, 1: 3, 2: 2, 3: 4}, [(1, 2), (0, 2), (3, 2)]),
    "forest": N.Net({0: 2, 1: 2, 2: 3, 3: 2, 4: 2, 5: 2}, [(0, 1), (1, 2), (3, 4), (4, 5)]),
    "forest3": N.Net({10: 2, 2: 3, 3: 2, 21: 2, 4: 2, 7: 2, 8: 2, 9: 3},
                     [(10, 2), (2, 3), (21, 4), (4, 7), (21, 7), (7, 8)]),
    "cycle5": N.Net({0: 2, 1: 2, 2: 2, 3: 2, 4: 2}, [(0, 1), (1, 2), (0, 3), (3, 4), (2, 4)]),
    "cycle6": N.Net({0: 2, 1: 2, 2: 2, 3: 2, 4: 2, 5: 2}, [(0, 1), (1, 2), (2, 3), (0, 4), (4, 5), (5, 3)]),
    "ladder": N.Net({i: 2 for i in range(6)}, [(0, 1), (0, 2), (1, 3), (2, 3), (2, 4), (3, 5), (4, 5)]),
    "asia": N.Net({i: 2 for i in range(8)}, [(0, 1), (2, 3), (2, 4), (1, 5), (3, 5), (5, 6), (5, 7), (4, 7)]),
    "twodigit": N.Net({1: 2, 12: 2, 2: 3, 11: 2, 112: 2}, [(12, 1), (1, 2), (11, 2), (112, 12), (11, 1)]),
    "tree9": N.Net({i: 2 for i in range(9)}, [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (2, 6), (5, 7), (6, 8)]),
    "mixed": N.Net({3: 3, 1: 2, 4: 4, 2: 2}, [(4, 1), (3, 1), (1, 2), (4, 2)], node_order=[2, 4, 1, 3]),
    "single": N.Net({7: 4}, []),
}


def changed(ctx, net, what):
    """A network is used, changed, and used again: the second join tree is that of the changed network."""
    pr = N.cpts(ctx, net)
    bbn = N.build(net, pr)
    for _ in range(1 + ctx.choose("before", 2)):
        jt = InferenceController.apply(bbn)
    if ctx.flag("read"):
        jt.get_posteriors()
    what = what[ctx.choose("what", len(what))]
    ids = list(net.order)
    i = ids[ctx.choose("at", len(ids))]
    cards, edges, order = dict(net.cards), list(net.edges), list(net.order)
    if what == "probs":
        new = net
    elif what == "inplace":
        new = net
    elif what == "leaf":
        k = max(ids) + 5
        cards[k] = 2
        edges.append((i, k))
        new = N.Net(cards, edges, order + [k])
    elif what == "root":
        k = min(ids) - 1
        cards[k] = 3
        edges.append((k, i))
        new = N.Net(cards, edges, order + [k])
    elif what == "edge":
        j = ids[ctx.choose("to", len(ids))]
        if i == j or (i, j) in edges or S.reachable(edges, j, i):
            ctx.infeasible()
        edges.append((i, j))
        new = N.Net(cards, edges, order)
    elif what == "remove":
        cards.pop(i)
        order.remove(i)
        edges = [e for e in edges if i not in e]
        new = N.Net(cards, edges, order)
    q = N.cpts(ctx, new, prefix="q")
    touched = [k for k in new.cards if what in ("probs", "inplace") and k == i or k not in net.cards or new.pa[k] != net.pa[k]]
    pr2 = {k: q[k] if k in touched else pr[k] for k in new.cards}
    if what == "remove":
        bbn.remove_node(i)
    for k in new.order:
        if k not in net.cards:
            bbn.add_node(BbnNode(Variable(k, new.name(k), new.values(k)), []))
    for a, b in new.edges:
        if (a, b) not in net.edges:
            bbn.add_edge(Edge(bbn.get_node(a), bbn.get_node(b), EdgeType.DIRECTED))
    for k in touched:
        if what == "inplace":
            bbn.get_node(k).probs[:] = list(q[k])
        else:
            bbn.get_node(k).probs = list(q[k])
    jt = InferenceController.apply(bbn)
    N.check_posteriors(ctx, new, N.joints(new, pr2), jt, None, "changed." + what)


def tasks(tier):
    T = []
    for k, net in NAMED.items():
        T.append(Task("named." + k, fixed, budget=90, net=net))
    for k, net in N.LARGE.items():
        T.append(Task("large." + k, fixed, budget=120, net=net, const=sorted(net.cards)[1:-1]))
    T.append(Task("changed.chain3", changed, budget=90, net=N.chain(3), what=("probs", "inplace", "leaf", "root", "edge", "remove")))
    T.append(Task("changed.forest", changed, budget=90, net=N.Net({4: 2, 1: 2, 3: 3}, [(4, 1)]), what=("leaf", "root", "edge", "remove")))
    T.append(Task("changed.diamond", changed, budget=90, net=N.Net({4: 2, 1: 2, 3: 2, 0: 2}, [(4, 1), (4, 3), (3, 0), (1, 0)]), what=("probs", "edge", "remove")))
    T.append(Task("all3", family, budget=60, validate=8, n=3, cards=(2, 3, 2), ids=[12, 3, 7], perm=True))
    T.append(Task("all3.flip", family, budget=60, validate=8, n=3, cards=(3, 2, 4), ids=[0, 1, 2], perm=True, flip=True))
    for k, ids in enumerate([[0, 1, 2, 3], [3, 1, 0, 2], [2, 13, 3, 1]]):
        T.append(Task("all4.%d" % k, family, budget=90, validate=6, n=4, cards=[(2, 2, 3, 2), (2, 3, 2, 2), (2, 2, 2, 2)][k],
                      ids=ids, flip=k % 2 == 1))
    T.append(Task("zero.chain3", fixed, budget=60, validate=20, net=N.chain(3), zeros=(0, 1, 2)))
    T.append(Task("zero.fork", fixed, budget=60, validate=20, net=N.Net({0: 2, 1: 2, 2: 2}, [(1, 0), (1, 2)]), zeros=(0, 1, 2)))
    T.append(Task("zero.collider", fixed, budget=60, validate=20, net=N.Net({0: 2, 1: 2, 2: 2}, [(1, 2), (0, 2)]), zeros=(0, 1)))
    T.append(Task("zero.diamond", fixed, budget=60, validate=20,
                  net=N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (0, 2), (1, 3), (2, 3)]), zeros=(0, 1, 2)))
    T.append(Task("zero.forest", fixed, budget=60, validate=20,
                  net=N.Net({0: 2, 1: 2, 2: 2, 3: 2, 4: 2}, [(0, 1), (2, 3), (3, 4)]), zeros=(0, 1, 3)))
    for p, ids in enumerate([[0, 1, 2, 3, 4], [4, 2, 0, 1, 3], [10, 2, 33, 4, 1]]):
        for b in range(8):
            T.append(Task("all5.%d.%d" % (p, b), family, budget=120, validate=4, n=5, cards=(2, 2, 2, 2, 2), ids=ids,
                          flip=p == 1, bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
    T.append(Task("alike", fixed, budget=60, net=N.ALIKE))
    if tier == "thorough":
        for p, ids in enumerate([[5, 0, 1, 3, 2, 4], [0, 1, 2, 3, 4, 5]]):
            for b in range(64):
                T.append(Task("all6.%d.%d" % (p, b), family, budget=900, validate=4, n=6, cards=(2,) * 6, ids=ids, flip=p == 0,
                              bits=[bool(b >> k & 1) for k in range(6)]))
        T.append(Task("all4.perm", family, budget=2500, validate=30, n=4, cards=(2, 3, 2, 2), ids=[5, 1, 12, 3], perm=True))
        T.append(Task("zero.chain5", fixed, budget=600, validate=40, net=N.chain(5), zeros=(0, 1, 2, 3, 4)))
        T.append(Task("zero.huang", fixed, budget=600, validate=40, net=N.huang(), zeros=(0, 2, 4)))
        T.append(Task("zero.cycle5", fixed, budget=600, validate=40, net=NAMED["cycle5"], zeros=(0, 1, 3)))
        T.append(Task("chain10", fixed, budget=600, net=N.chain(10)))
        T.append(Task("asia.card3", fixed, budget=900,
                      net=N.Net({0: 2, 1: 3, 2: 2, 3: 2, 4: 3, 5: 2, 6: 2, 7: 2}, NAMED["asia"].edges), const=(0, 2)))
    return T
