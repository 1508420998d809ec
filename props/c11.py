"""C11: reapplying with new CPTs equals building afresh; the original stays as it was."""
from symex.explore import Task
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N
from props.c01 import NAMED

BOUNDS = ("every DAG on 3 nodes (4 in thorough) and named networks up to 8 nodes, larger ones up to 24 nodes with up to three symbolic CPTs, forests included; new symbolic CPTs for every subset of up to 4 nodes; "
          "symbolic evidence on the original before, on the new tree after; two successive reapplications; CPTs symbolic")
OUTSIDE = "larger networks; CPTs of the wrong length"


def entered(ctx, net, jt, js, spec, tag, src=None):
    lik, evs = {}, []
    for n, (i, kind) in enumerate(spec):
        ev, w = N.make_evidence(ctx, jt, net, i, kind, "%s%d" % (tag, n), src=src)
        lik[i] = w
        evs.append(ev)
    N.feasible(ctx, js, lik)
    if evs:
        jt.update_evidences(evs)
    return lik


def fresh(ctx, net, pr, ids, tag, const=()):
    q = N.cpts(ctx, net, prefix=tag, const=[i for i in net.cards if i not in ids or i in const])
    return {i: q[i] for i in ids}


def unchanged(ctx, bbn, net, pr):
    for i in net.cards:
        got = list(bbn.get_node(i).probs)
        ctx.check(len(got) == len(pr[i]), "network.cpt", "CPT of %s changed" % i)
        for a, b in zip(got, pr[i]):
            ctx.check_eq(a, b, "network.cpt", "CPT of %s" % i)


def run(ctx, net, new, before=(), after=(), again=None, const=(), subset=False, back=()):
    pr = N.cpts(ctx, net, const=const)
    bbn = N.build(net, pr)
    jt = InferenceController.apply(bbn)
    js = N.joints(net, pr)
    lik = entered(ctx, net, jt, js, before, "b")
    if subset:
        new = [i for i in new if ctx.flag("new%s" % i)]
    q = fresh(ctx, net, pr, new, "q")
    given = {i: list(v) for i, v in q.items()}
    jt2 = InferenceController.reapply(jt, q)
    ctx.check(set(q) == set(given) and all(len(q[i]) == len(given[i]) for i in q), "argument", "the CPT argument was changed")
    pr2 = {**pr, **given}
    js2 = N.joints(net, pr2)
    N.check_posteriors(ctx, net, js2, jt2, None, "reapplied")
    # the original and its network are as before
    N.check_posteriors(ctx, net, js, jt, lik, "original")
    unchanged(ctx, bbn, net, pr)
    lik2 = entered(ctx, net, jt2, js2, after, "a", src=bbn if ctx.flag("own") else None)
    if after:
        N.check_posteriors(ctx, net, js2, jt2, lik2, "reapplied.evidence")
        N.check_posteriors(ctx, net, js, jt, lik, "original")
    if again is not None:
        q3 = fresh(ctx, net, pr, again, "r")
        jt3 = InferenceController.reapply(jt2, q3)
        pr3 = {**pr2, **q3}
        js3 = N.joints(net, pr3)
        N.check_posteriors(ctx, net, js3, jt3, None, "reapplied.twice")
        N.check_posteriors(ctx, net, js2, jt2, lik2, "reapplied.kept")
    if back:
        jt.unobserve_all()
        lik4 = entered(ctx, net, jt, js, back, "c", src=bbn)
        N.check_posteriors(ctx, net, js, jt, lik4, "original.later")
        N.check_posteriors(ctx, net, js2, jt2, lik2, "reapplied.kept")


def family(ctx, n, cards, ids, bits=None, flip=False, **kw):
    order, edges = N.all_dags(ctx, n, cards, ids, False, bits)
    if flip:
        edges = edges[::-1]
    net = N.Net({i: c for i, c in zip(sorted(order), cards)}, edges, node_order=order)
    run(ctx, net, [order[0], order[-1]], before=[(order[-1], "obs")], after=[(order[1], "obs")], **kw)


def tasks(tier):
    T = [
        Task("chain3", run, budget=90, net=N.chain(3), new=[0, 1, 2], before=[(2, "obs")], after=[(0, "virt")], again=[1], back=[(1, "find")]),
        Task("subsets.diamond", run, budget=90, net=N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (0, 2), (2, 3), (1, 3)]), new=[0, 1, 2, 3], subset=True,
             before=[(3, "obs")], after=[(1, "obs")]),
        Task("collider.unsorted", run, budget=90, net=NAMED["collider.unsorted"], new=[2, 1], before=[(2, "obs")], after=[(2, "find")], back=[(0, "obs")]),
        Task("instar", run, budget=90, net=NAMED["instar"], new=[0, 3], after=[(0, "obs")], const=(1, 2)),
        Task("forest", run, budget=90, net=NAMED["forest"], new=[1, 5], before=[(2, "obs")], after=[(4, "obs"), (0, "obs")], again=[3]),
        Task("mixed", run, budget=90, net=NAMED["mixed"], new=[1, 2], before=[(3, "virt")], after=[(2, "obs")], back=[(2, "obs")]),
        Task("huang", run, budget=90, net=N.huang(), new=[0, 5, 7], before=[(5, "obs")], after=[(7, "obs")], const=(1, 2, 3, 4, 6)),
        Task("single", run, budget=30, net=NAMED["single"], new=[7], before=[(7, "obs")], after=[(7, "virt")], again=[7], back=[(7, "obs")]),
        Task("empty.cpts", run, budget=30, net=N.chain(3), new=[], before=[(2, "obs")], after=[(1, "obs")]),
        Task("all3", family, budget=90, n=3, cards=(2, 3, 2), ids=[12, 3, 7], again=[3], back=[(3, "obs")]),
        Task("all3.flip", family, budget=90, n=3, cards=(2, 2, 3), ids=[0, 2, 1], flip=True),
    ]
    for k, after, new, sym in (("star9", [(103, "obs"), (11, "obs")], [2, 11], (4,)), ("twostars", [(12, "obs")], [6], (1,)), ("tree13", [(12, "obs")], [5, 0], (3,)),
                               ("family3", [(1, "obs"), (11, "obs")], [1], (7,)), ("bigids", [(10, "obs")], [100000, 1000], (999,)),
                               ("values12", [(2, "obs")], [1], (2,)), ("fan.tail", [(9, "obs")], [4], (7,)), ("forest11", [(9, "obs"), (10, "obs")], [4, 2], (3,)), ("bushy24", [(14, "obs")], [3, 20], ()), ("instar7", [(2, "obs")], [0], (9,))):
        T.append(Task("large." + k, run, budget=90, net=N.LARGE[k], new=new, after=after, const=sorted(set(N.LARGE[k].cards) - set(sym))))
    T.append(Task("alike", run, budget=90, net=N.ALIKE, new=[3, 2], before=[(1, "obs")], after=[(7, "obs")], const=(1, 7)))
    if tier == "thorough":
        for b in range(8):
            T.append(Task("all4.%d" % b, family, budget=2500, n=4, cards=(2, 2, 3, 2), ids=[2, 13, 3, 1], bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
        T.append(Task("t.subsets.cycle5", run, budget=2500, net=NAMED["cycle5"], new=[0, 1, 2, 3, 4], subset=True, before=[(4, "obs")], after=[(1, "virt")], again=[2], back=[(0, "obs")]))
        T.append(Task("t.asia", run, budget=2500, net=NAMED["asia"], new=[1, 5, 7], before=[(6, "obs")], after=[(7, "obs")], again=[0], back=[(2, "obs")], const=(0, 3, 4)))
        T.append(Task("t.forest3", run, budget=2500, net=NAMED["forest3"], new=[2, 7, 9], before=[(3, "obs")], after=[(8, "virt")], again=[9], back=[(7, "obs")]))
    return T
