"""C27: inference leaves its network alone, and join trees do not disturb each other."""
import copy

from symex.explore import Task
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N
from props.c01 import NAMED
from props.c11 import unchanged

BOUNDS = ("named networks of 1-8 nodes and every DAG on 3 nodes; up to three join trees (built from one network, or copies of one another) used in every "
          "interleaving of 3-4 operations out of enter / retract / read / build another / copy; CPTs symbolic")
OUTSIDE = "larger networks and longer histories; networks changed by the user between operations"


def shape(bbn):
    return ([n.id for n in bbn.get_nodes()], [(e.i.id, e.j.id) for e in bbn.get_edges()],
            {i: list(bbn.get_parents_ordered(i)) for i in sorted(n.id for n in bbn.get_nodes())},
            {n.id: (n.variable.name, list(n.variable.values)) for n in bbn.get_nodes()})


def run(ctx, net, steps, trees=2, ops=("enter", "retract", "apply", "copy"), kinds=("obs",), const=(), on=None):
    pr = N.cpts(ctx, net, const=const)
    bbn = N.build(net, pr)
    before = shape(bbn)
    js = N.joints(net, pr)
    jts = [[InferenceController.apply(bbn), {}]]
    ids = on or sorted(net.cards)
    for s in range(steps):
        op = ops[ctx.choose("op%d" % s, len(ops))]
        k = ctx.choose("tree%d" % s, len(jts))
        jt, lik = jts[k]
        if op in ("apply", "copy"):
            if len(jts) >= trees:
                ctx.infeasible()
            jts.append([InferenceController.apply(bbn), {}] if op == "apply" else [copy.deepcopy(jt), dict(lik)])
        elif op == "enter":
            i = ids[ctx.choose("node%d" % s, len(ids))]
            kind = kinds[ctx.choose("kind%d" % s, len(kinds))]
            ev, w = N.make_evidence(ctx, jt, net, i, kind, "ev%d" % s, src=bbn if s % 2 else None)
            lik = dict(lik)
            lik[i] = w
            N.feasible(ctx, js, lik)
            jt.update_evidences([ev])
            jts[k][1] = lik
        elif op == "retract":
            if not lik:
                ctx.infeasible()
            jt.unobserve_all()
            jts[k][1] = {}
    for k, (jt, lik) in enumerate(jts):
        N.check_posteriors(ctx, net, js, jt, lik, "tree%d" % k)
    ctx.check(shape(bbn) == before, "network.shape", "the network changed: %s" % (shape(bbn),))
    unchanged(ctx, bbn, net, pr)


def family(ctx, n, cards, ids, bits=None, **kw):
    order, edges = N.all_dags(ctx, n, cards, ids, False, bits)
    net = N.Net({i: c for i, c in zip(sorted(order), cards)}, edges, node_order=order)
    run(ctx, net, on=[order[-1]], **kw)


def tasks(tier):
    chain = N.chain(3)
    dia = N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (0, 2), (2, 3), (1, 3)])
    T = [
        Task("chain2.3", run, budget=100, net=N.Net({3: 2, 1: 3}, [(3, 1)]), steps=3, trees=3),
        Task("chain2.kinds", run, budget=100, net=N.Net({3: 2, 1: 2}, [(3, 1)]), steps=3, kinds=("virt", "find"), on=[1]),
        Task("chain2.4", run, budget=100, net=N.Net({3: 2, 1: 2}, [(3, 1)]), steps=4, trees=2, on=[1]),
        Task("diamond.3", run, budget=100, net=dia, steps=3, trees=3, on=[3]),
        Task("forest.3", run, budget=100, net=NAMED["forest"], steps=3, trees=2, on=[4], const=(0, 3)),
        Task("mixed.3", run, budget=100, net=NAMED["mixed"], steps=3, trees=2, on=[2]),
        Task("huang.2", run, budget=100, net=N.huang(), steps=2, on=[5], const=(1, 2, 3, 4, 6)),
        Task("all3.2", family, budget=100, n=3, cards=(2, 2, 2), ids=[12, 3, 7], steps=2, trees=3),
    ]
    if tier == "thorough":
        T += [
            Task("t.chain3.4", run, budget=2500, net=chain, steps=4, trees=3, on=[2]),
            Task("t.diamond.3", run, budget=2500, net=dia, steps=3, trees=3, on=[3, 0]),
            Task("t.chain3.3", run, budget=2500, net=chain, steps=3, trees=3),
            Task("t.forest.3", run, budget=2500, net=NAMED["forest"], steps=3, trees=3, on=[2, 4], const=(0, 3)),
            Task("t.chain2.5", run, budget=2500, net=N.Net({3: 2, 1: 2}, [(3, 1)]), steps=5, trees=3, on=[1]),
            Task("t.chain3.kinds", run, budget=2500, net=chain, steps=3, trees=3, kinds=("virt", "find", "obs"), on=[2, 0]),
            Task("t.diamond.4", run, budget=2500, net=dia, steps=4, trees=3, on=[3]),
            Task("t.all3.4", family, budget=2500, n=3, cards=(2, 2, 2), ids=[12, 3, 7], steps=4, trees=3),
            Task("t.huang.3", run, budget=2500, net=N.huang(), steps=3, trees=3, on=[5, 7], const=(1, 2, 3, 4, 6)),
        ]
    return T
