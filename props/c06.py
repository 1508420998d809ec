"""C06: posteriors do not depend on ids, insertion order or set iteration order."""
import pybbn.graph.graph as G
import pybbn.graph.jointree as J
import pybbn.graph.node as ND

from symex.explore import Task
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N
from props import structure as S
from props.c01 import NAMED

BOUNDS = ("the same network built under every injective id assignment (symbolic ids, any order, negative included) for 2-3 nodes, several id patterns for "
          "larger ones; every order of inserting nodes and of interleaving the edges of different children (3-4 nodes); every iteration order "
          "of the neighbour sets of the join tree (up to 5 cliques); CPTs symbolic")
OUTSIDE = "larger networks; orders of a single child's incoming edges (they define the CPT layout)"
ASSUMPTIONS = ["set iteration order is unspecified: in the 'sets' tasks every set created by pybbn.graph.graph iterates in an arbitrary order"]


def rename(net, m, order=None, edges=None):
    return N.Net({m[i]: c for i, c in net.cards.items()}, [(m[a], m[b]) for a, b in (edges or net.edges)],
                 node_order=[m[i] for i in (order or net.order)])


def interleave(ctx, net, tag="mix"):
    """Any merge of the per-child edge lists."""
    lists = [[e for e in net.edges if e[1] == c] for c in net.cards]
    lists = [l for l in lists if l]
    out = []
    while lists:
        k = ctx.choose("%s%d" % (tag, len(out)), len(lists))
        out.append(lists[k].pop(0))
        lists = [l for l in lists if l]
    return out


def perm(ctx, xs, tag="perm"):
    xs, out = list(xs), []
    while xs:
        out.append(xs.pop(ctx.choose("%s%d" % (tag, len(out)), len(xs))))
    return out


def build(net, pr, ids, order, edges):
    """Like N.build, but node i of the description gets the id ids[i]; names stay."""
    from pybbn.graph.dag import Bbn
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    bbn = Bbn()
    nodes = {i: BbnNode(Variable(ids[i], net.name(i), net.values(i)), list(pr[i])) for i in net.cards}
    for i in order:
        bbn.add_node(nodes[i])
    for p, c in edges:
        bbn.add_edge(Edge(nodes[p], nodes[c], EdgeType.DIRECTED))
    return bbn


def evidence(ctx, jt, net, i):
    from pybbn.graph.jointree import EvidenceBuilder
    nd = jt.get_bbn_node_by_name(net.name(i))
    v = ctx.choose("observed", net.cards[i])
    jt.update_evidences([EvidenceBuilder().with_node(nd).with_evidence(net.values(i)[v], 1.0).build()])
    return {i: [1 if k == v else 0 for k in range(net.cards[i])]}


def run(ctx, net, ids=None, orders=False, mix=False, observe=None, const=()):
    keys = list(net.cards)
    if isinstance(ids, str):
        idl = S.id_list(ctx, ids, len(keys))
    elif ids is None:
        idl = list(range(len(keys)))
    elif ids and isinstance(ids[0], (list, tuple)):
        idl = ids[ctx.choose("ids", len(ids))]
    else:
        idl = ids
    ids = dict(zip(keys, idl))
    pr = N.cpts(ctx, net, const=const)
    order = perm(ctx, net.order) if orders else net.order
    edges = interleave(ctx, net) if mix else net.edges
    jt = InferenceController.apply(build(net, pr, ids, order, edges))
    js = N.joints(net, pr)
    N.check_posteriors(ctx, net, js, jt)
    if observe is not None:
        lik = evidence(ctx, jt, net, observe)
        N.feasible(ctx, js, lik)
        N.check_posteriors(ctx, net, js, jt, lik)


class ChoiceSet(set):
    """A set whose iteration order is chosen by the solver."""
    ctx = None
    count = 0
    strings_only = True

    def __iter__(self):
        xs = list(super().__iter__())
        if len(xs) < 2 or ChoiceSet.ctx is None or (ChoiceSet.strings_only and not all(isinstance(x, str) for x in xs)):
            return iter(xs)
        xs.sort(key=repr)
        mark = tuple(xs)
        if getattr(self, "_mark", None) != mark:
            ChoiceSet.count += 1
            self._mark = mark
            self._order = perm(ChoiceSet.ctx, xs, "set%d." % ChoiceSet.count)
        return iter(self._order)

    def __deepcopy__(self, memo):
        return ChoiceSet(self)

    def __reduce__(self):
        return (ChoiceSet, (list(set.__iter__(self)),))


def set_shims(ctx):
    ChoiceSet.ctx = None
    ChoiceSet.count = 0
    return [(G, "set", ChoiceSet)]


def sets(ctx, net, const=(), observe=None, only_tree=True):
    pr = N.cpts(ctx, net, const=const)
    bbn = N.build(net, pr)
    js = N.joints(net, pr)
    ChoiceSet.ctx = ctx
    ChoiceSet.strings_only = only_tree  # integer-keyed sets iterate alike in every process
    jt = InferenceController.apply(bbn)
    N.check_posteriors(ctx, net, js, jt)
    if observe is not None:
        lik = evidence(ctx, jt, net, observe)
        N.feasible(ctx, js, lik)
        N.check_posteriors(ctx, net, js, jt, lik)
    ChoiceSet.ctx = None


def tasks(tier):
    T = []
    D = {
        "chain3": N.chain(3), "fork": N.Net({0: 2, 1: 3, 2: 2}, [(1, 0), (1, 2)]),
        "collider": N.Net({0: 2, 1: 3, 2: 2}, [(1, 2), (0, 2)]), "triangle": N.Net({0: 2, 1: 3, 2: 2}, [(1, 2), (0, 1), (0, 2)]),
        "loose": N.Net({0: 2, 1: 3, 2: 2}, [(2, 0)]),
    }
    for k, net in D.items():
        T.append(Task("ids." + k, run, budget=120, validate=8, net=net, ids="sym", observe=net.order[-1]))
        T.append(Task("orders." + k, run, budget=120, validate=8, net=net, ids=[30, 4, 11], orders=True, mix=True, observe=0))
    diamond = N.Net({0: 2, 1: 2, 2: 3, 3: 2}, [(0, 1), (0, 2), (2, 3), (1, 3)])
    pats = [[0, 1, 2, 3], [3, 2, 1, 0], [10, 9, 101, 11], [-1, 5, -20, 0], [1, 11, 111, 12]]
    T.append(Task("patterns.diamond", run, budget=120, validate=8, net=diamond, ids=pats, observe=3))
    # ids whose texts run into each other: 1,123 / 112,3 and 1,12 / 11,2 and 1,0 / 10
    glued = [[1, 123, 112, 3], [1, 12, 11, 2], [123, 1, 3, 112], [2, 1, 21, 0], [1, 2, 12, 3], [111, 11, 1, 1111]]
    T.append(Task("glued.pairs", run, budget=60, validate=8, net=N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (2, 3)]), ids=glued, observe=3))
    T.append(Task("glued.diamond", run, budget=60, validate=8, net=diamond, ids=glued, observe=3))
    T.append(Task("glued.chain", run, budget=60, validate=8, net=N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (1, 2), (2, 3)]), ids=glued, observe=3))
    T.append(Task("glued.collider", run, budget=60, validate=8, net=N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (2, 1), (2, 3)]), ids=glued, observe=3))
    T.append(Task("orders.diamond", run, budget=200, validate=8, net=diamond, ids=[2, 12, 1, 20], orders=True))
    T.append(Task("mix.diamond", run, budget=120, validate=8, net=diamond, ids=[12, 2, 20, 1], mix=True, observe=0))
    big = lambda n: [[(i * 7 + 3) % 31 for i in range(n)], [n - i for i in range(n)], [100 - 13 * i for i in range(n)], [i if i % 2 else 10 * i + 9 for i in range(n)]]
    for k in ("huang", "cycle5", "cycle6", "forest3", "twodigit", "asia"):
        net = NAMED[k]
        T.append(Task("patterns." + k, run, budget=150, validate=4, net=net, ids=big(len(net.cards)), const=sorted(net.cards)[::2], observe=net.order[-1]))
    T.append(Task("mix.cycle5", run, budget=120, validate=4, net=NAMED["cycle5"], ids=[5, 1, 4, 22, 3], mix=True))
    small = {
        "cycle5": (NAMED["cycle5"], ()), "chain5": (N.chain(5), (0, 2)), "chain6": (N.chain(6), (0, 2, 3, 4)),
        "star": (N.Net({5: 2, 1: 2, 2: 2, 13: 2}, [(5, 1), (5, 2), (5, 13)]), (5,)),
        "forest": (NAMED["forest"], (0, 3)),
        "comb": (N.Net({0: 2, 1: 2, 2: 2, 3: 2, 4: 2}, [(0, 1), (1, 2), (1, 3), (2, 4)]), (0, 3)),
    }
    for k, (nt, c) in small.items():
        T.append(Task("sets." + k, sets, budget=150, validate=4, shims=set_shims, net=nt, const=c, observe=sorted(nt.cards)[-1]))
    T.append(Task("allsets.collider", sets, budget=150, validate=4, shims=set_shims, net=D["collider"], only_tree=False, observe=2))
    if tier == "thorough":
        T.append(Task("t.ids.diamond", run, budget=2500, validate=20, net=diamond, ids="sym", observe=3))
        T.append(Task("t.orders.diamond", run, budget=2500, validate=20, net=diamond, ids=[2, 12, 1, 20], orders=True, mix=True, observe=0))
        T.append(Task("t.allsets.diamond", sets, budget=2500, validate=4, shims=set_shims, net=diamond, const=(0, 2), only_tree=False))
        T.append(Task("t.allsets.cycle5", sets, budget=2500, validate=20, shims=set_shims, net=NAMED["cycle5"], const=(0, 1, 2), only_tree=False))
        for k in ("huang", "star", "asia", "tree9", "forest3"):
            T.append(Task("t.sets." + k, sets, budget=2500, validate=20, shims=set_shims, net=NAMED[k], observe=sorted(NAMED[k].cards)[0]))
    return T
