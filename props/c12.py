"""C12: a join tree survives its dictionary / JSON round trip."""
import copy
import json

from symex.explore import Task
from pybbn.graph.jointree import JoinTree
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N
from props import structure as S
from props.c01 import NAMED
from props.c06 import build as build_ids
from props.c11 import entered

BOUNDS = ("every DAG on 3 nodes (4 in thorough), forests and isolated nodes included, named networks up to 8 nodes, larger ones up to 24 nodes with one symbolic CPT, several id patterns; dictionary passed directly or through JSON text; "
          "evidence before and after; CPTs symbolic")
OUTSIDE = "larger networks; values that JSON cannot represent"


def run(ctx, net, before=(), after=(), const=(), twice=False, text=None):
    pr = N.cpts(ctx, net, const=const)
    bbn = N.build(net, pr)
    jt = InferenceController.apply(bbn)
    js = N.joints(net, pr)
    lik = entered(ctx, net, jt, js, before, "b")
    through = ctx.flag("json") if text is None else text
    d = JoinTree.to_dict(jt, bbn)
    if through:
        d = json.loads(json.dumps(d))
    jt2 = InferenceController.apply_from_serde(JoinTree.from_dict(d))
    ctx.check({n.id for n in jt2.get_bbn_nodes()} == set(net.cards), "nodes", "restored nodes: %s" % sorted(n.id for n in jt2.get_bbn_nodes()))
    for n in jt2.get_bbn_nodes():
        ctx.check(list(n.variable.values) == net.values(n.id) and n.variable.name == net.name(n.id), "variables", "variable %s" % n.id)
    N.check_posteriors(ctx, net, js, jt2, None, "restored")
    N.check_posteriors(ctx, net, js, jt, lik, "original")
    if after:
        lik2 = entered(ctx, net, jt2, js, after, "a", src=bbn if text is None and ctx.flag("own") else None)
        N.check_posteriors(ctx, net, js, jt2, lik2, "restored.evidence")
        N.check_posteriors(ctx, net, js, jt, lik, "original")
        jt2.unobserve_all()
        N.check_posteriors(ctx, net, js, jt2, None, "restored.retracted")
    if twice:
        # a restored tree can be reapplied
        q = N.cpts(ctx, net, prefix="q", const=const)
        jt3 = InferenceController.reapply(jt2, q)
        N.check_posteriors(ctx, net, N.joints(net, q), jt3, None, "restored.reapplied")


def family(ctx, n, cards, ids, bits=None, flip=False, perm=False, **kw):
    order, edges = N.all_dags(ctx, n, cards, ids, perm, bits)
    if flip:
        edges = edges[::-1]
    net = N.Net({i: c for i, c in zip(sorted(order), cards)}, edges, node_order=order)
    run(ctx, net, after=[(order[-1], "obs")], **kw)


def tasks(tier):
    T = [
        Task("chain3", run, budget=90, net=N.chain(3), before=[(2, "obs")], after=[(0, "virt")], twice=True),
        Task("diamond", run, budget=90, net=N.Net({0: 2, 1: 2, 2: 3, 3: 2}, [(0, 1), (0, 2), (2, 3), (1, 3)]), before=[(3, "obs")], after=[(1, "find")], twice=True),
        Task("collider.unsorted", run, budget=90, net=NAMED["collider.unsorted"], after=[(2, "find")], twice=True),
        Task("instar", run, budget=90, net=NAMED["instar"], after=[(0, "obs")], const=(1, 2)),
        Task("forest", run, budget=90, net=NAMED["forest"], before=[(2, "obs")], after=[(4, "obs"), (0, "obs")], twice=True),
        Task("forest3", run, budget=90, net=NAMED["forest3"], after=[(3, "obs"), (9, "virt")], const=(10, 21)),
        Task("mixed", run, budget=90, net=NAMED["mixed"], before=[(3, "virt")], after=[(2, "obs")], twice=True),
        Task("huang", run, budget=90, net=N.huang(), before=[(5, "obs")], after=[(7, "obs")], const=(1, 2, 3, 4, 6)),
        Task("asia", run, budget=90, net=NAMED["asia"], after=[(7, "obs")], const=(0, 2, 4)),
        Task("single", run, budget=30, net=NAMED["single"], before=[(7, "obs")], after=[(7, "virt")]),
        Task("isolated", run, budget=30, net=N.Net({4: 2, 11: 3, 5: 2}, []), before=[(4, "obs")], after=[(11, "virt")]),
        Task("negative", run, budget=60, net=N.Net({-3: 2, 0: 2, 11: 2, -1: 2}, [(0, -3), (-1, -3), (-3, 11)]), after=[(11, "obs")]),
        Task("twodigit", run, budget=60, net=NAMED["twodigit"], after=[(1, "obs")], const=(12, 2)),
        Task("all3", family, budget=90, n=3, cards=(2, 3, 2), ids=[12, 3, 7], perm=True),
        Task("all3.flip", family, budget=90, n=3, cards=(2, 2, 3), ids=[0, 2, 1], flip=True, twice=True),
    ]
    for b in range(4):
        T.append(Task("all4.%d" % b, family, budget=120, n=4, cards=(2, 2, 2, 2), ids=[2, 13, 3, 1], bits=[bool(b & 1), bool(b & 2)], text=True))
    for k, after, sym in (("star9", [(103, "obs"), (11, "obs")], (11,)), ("twostars", [(12, "obs")], (6,)), ("tree13", [(12, "obs")], (3,)),
                          ("family3", [(1, "obs"), (11, "obs")], (7,)), ("bigids", [(10, "obs")], (999,)), ("values12", [(2, "obs")], (1,)), ("fan.tail", [(9, "obs"), (5, "obs")], (7,)), ("forest11", [(9, "obs"), (10, "obs")], (4,)),
                          ("bushy24", [(14, "obs")], (23,)), ("instar7", [(2, "obs")], (9,)), ("grid12", [(11, "obs")], (5,))):
        T.append(Task("large." + k, run, budget=90, net=N.LARGE[k], after=after, const=sorted(set(N.LARGE[k].cards) - set(sym)), text=k != "tree13"))
    T.append(Task("alike", run, budget=90, net=N.ALIKE, before=[(1, "obs")], after=[(2, "obs")], const=(1, 7)))
    if tier == "thorough":
        for b in range(8):
            T.append(Task("t.all4.%d" % b, family, budget=2500, n=4, cards=(2, 2, 3, 2), ids=[2, 13, 3, 1], flip=bool(b & 1), bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
            T.append(Task("t.all5.%d" % b, family, budget=2500, n=5, cards=(2, 2, 2, 2, 2), ids=[2, 13, 3, 1, 0], text=True, bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
    return T
