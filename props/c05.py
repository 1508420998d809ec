"""C05: after propagation the join tree is calibrated and reports distributions."""
from symex.explore import Task
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N
from props.c01 import NAMED

BOUNDS = "named networks up to 9 nodes / 8 cliques, larger ones up to 26 nodes with one symbolic CPT, and every 4-node DAG, with and without evidence on two nodes; CPTs and likelihoods symbolic"
OUTSIDE = "larger networks; float rounding"


def table(pot, ids, net):
    """Potential -> {value index tuple over ids: value}."""
    out = {}
    for e in pot.entries:
        key = tuple(net.values(i).index(e.entries[i]) for i in ids)
        if key in out:
            return None
        out[key] = e.value
    return out


def calibrated(ctx, net, js, jt, lik):
    for cl in list(jt.get_cliques()) + list(jt.get_sep_sets()):
        ids = sorted(n.id for n in cl.nodes)
        got = table(jt.potentials[cl.id], ids, net)
        ctx.check(got is not None, "clique.table", "duplicate rows in clique %s" % cl.id)
        j, comp = js[ids[0]]
        want = j.marginal(ids, {k: w for k, w in lik.items() if k in comp})
        ctx.check(set(got) == set(want), "clique.rows", "rows of clique %s" % cl.id)
        zg = zw = 0
        for k in want:
            zg, zw = zg + got[k], zw + want[k]
        for k in want:
            ctx.check_eq(got[k] / zg, want[k] / zw, "clique.marginal", "table of clique %s at %s" % (cl.id, k))
    post = jt.get_posteriors()
    ctx.check(len(post) == len(net.cards), "nodes", "%d of %d nodes reported" % (len(post), len(net.cards)))
    for name, m in post.items():
        tot = 0
        for v in m.values():
            ctx.check(v >= 0, "range", "P(%s) below 0" % name)
            tot = tot + v
        ctx.check_eq(tot, 1, "sum", "posteriors of %s" % name)


def run(ctx, net, spec=(), const=(), zeros=()):
    pr = N.cpts(ctx, net, zeros, const=const)
    jt = InferenceController.apply(N.build(net, pr))
    js = N.joints(net, pr)
    calibrated(ctx, net, js, jt, {})
    if spec:
        lik, evs = {}, []
        for n, (i, kind) in enumerate(spec):
            ev, w = N.make_evidence(ctx, jt, net, i, kind, "ev%d" % n)
            lik[i] = w
            evs.append(ev)
        N.feasible(ctx, js, lik)
        jt.update_evidences(evs)
        calibrated(ctx, net, js, jt, lik)


def family(ctx, n, cards, ids, bits=None):
    order, edges = N.all_dags(ctx, n, cards, ids, False, bits)
    net = N.Net({i: c for i, c in zip(sorted(order), cards)}, edges, node_order=order)
    run(ctx, net, [(sorted(order)[-1], "obs")])


def tasks(tier):
    T = [
        Task("huang", run, budget=120, net=N.huang(), spec=[(5, "obs")], const=(1, 3)),
        Task("asia", run, budget=120, net=NAMED["asia"], spec=[(6, "obs")], const=(0, 2)),
        Task("forest", run, budget=120, net=NAMED["forest"], spec=[(2, "virt"), (5, "obs")]),
        Task("forest3", run, budget=120, net=NAMED["forest3"], spec=[(3, "virt"), (8, "obs")]),
        Task("star", run, budget=120, net=NAMED["star"], spec=[(2, "find"), (1, "obs")]),
        Task("cycle5", run, budget=120, net=NAMED["cycle5"], spec=[(4, "virt")]),
        Task("cycle6", run, budget=120, net=NAMED["cycle6"], spec=[(3, "obs")]),
        Task("mixed", run, budget=120, net=NAMED["mixed"], spec=[(2, "virt"), (3, "obs")]),
        Task("tree9", run, budget=120, net=NAMED["tree9"], spec=[(7, "obs")], const=(0, 1, 2)),
        Task("zero.diamond", run, budget=120, net=N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (0, 2), (1, 3), (2, 3)]), zeros=(0, 1)),
        Task("zero.chain3", run, budget=120, validate=20, net=N.chain(3), spec=[(2, "obs")], zeros=(0, 1)),
        Task("zero.forest", run, budget=120, validate=20, net=N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (2, 3)]), spec=[(3, "obs")], zeros=(0, 2)),
    ]
    for b in range(4):
        T.append(Task("all4.%d" % b, family, budget=120, n=4, cards=(2, 2, 3, 2), ids=[2, 13, 3, 1], bits=[bool(b & 1), bool(b & 2)]))
    for k, spec, sym in (("star9", [(103, "virt"), (11, "obs"), (9, "obs"), (6, "obs")], (11,)),
                         ("twostars", [(2, "virt"), (12, "obs"), (10, "obs"), (8, "obs")], (6,)),
                         ("tree13", [(12, "obs"), (7, "virt")], (3,)),
                         ("chain26", [(0, "obs"), (25, "virt"), (12, "obs")], (11,)),
                         ("grid12", [(11, "obs"), (3, "virt")], (5,)),
                         ("grid20", [(19, "obs")], ()),
                         ("family3", [(1, "obs"), (11, "virt"), (4, "obs")], (7,)),
                         ("poly11", [(9, "obs"), (5, "virt")], (6,)),
                         ("fan.tail", [(9, "obs"), (5, "virt")], (8,)),
                         ("forest11", [(9, "obs"), (10, "virt"), (0, "obs")], (4,)),
                         ("bushy24", [(23, "obs"), (14, "virt")], (17,)),
                         ("instar7", [(2, "virt"), (7, "obs")], (9,))):
        net = N.LARGE[k]
        T.append(Task("large." + k, run, budget=120, net=net, spec=spec, const=sorted(set(net.cards) - set(sym))))
    if tier == "thorough":
        for b in range(8):
            T.append(Task("all5.%d" % b, family, budget=2500, n=5, cards=(2, 2, 2, 2, 2), ids=[2, 13, 3, 1, 0],
                          bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
    return T
