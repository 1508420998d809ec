"""C02: posteriors under evidence."""
from symex.explore import Task
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N
from props.c01 import NAMED

BOUNDS = ("evidence on 1-3 nodes in one or several updates: every observed value, every non-empty finding, every virtual "
          "likelihood vector (symbolic, 0 and 1 included in the 'z' tasks); every 3-node DAG, 4-node DAGs, and named networks up "
          "to 9 nodes; larger networks (up to 30 nodes) with one or two symbolic CPTs and evidence on up to 5 nodes; CPT entries symbolic in (0,1] (some networks: in [0,1]), evidence of positive probability")
OUTSIDE = "evidence of probability zero; evidence on more nodes; other structures; float rounding"


def run(ctx, net, spec, split=False, zeros=(), const=(), lo_open=True):
    """spec: [(node id, kind)], applied in one update or one by one."""
    pr = N.cpts(ctx, net, zeros, const=const)
    bbn = N.build(net, pr)
    jt = InferenceController.apply(bbn)
    js = N.joints(net, pr)
    lik, evs = {}, []
    for n, (i, kind) in enumerate(spec):
        ev, w = N.make_evidence(ctx, jt, net, i, kind, "ev%d" % n, lo_open, src=bbn if n == 2 or (n == 0 and split) else None)
        lik[i] = w
        evs.append(ev)
    N.feasible(ctx, js, lik)
    if split:
        for ev in evs:
            jt.update_evidences([ev])
    else:
        jt.update_evidences(evs)
    N.check_posteriors(ctx, net, js, jt, lik)


def family(ctx, n, cards, ids, perm, k, kinds=N.KINDS, flip=False, bits=None):
    order, edges = N.all_dags(ctx, n, cards, ids, perm, bits)
    net = N.Net({i: c for i, c in zip(sorted(order), cards)}, edges[::-1] if flip else edges, node_order=order)
    at = list(sorted(order))
    spec = []
    for x in range(k):
        i = at.pop(ctx.choose("evnode%d" % x, len(at)))
        spec.append((i, kinds[ctx.choose("evkind%d" % x, len(kinds))]))
    run(ctx, net, spec, split=ctx.flag("split") if k > 1 else False)


def tasks(tier):
    T = []
    net = N.huang()
    T.append(Task("huang.obs-a", run, budget=120, net=net, spec=[(0, "obs")]))
    T.append(Task("huang.obs-fh", run, budget=120, net=net, spec=[(5, "obs"), (7, "obs")], const=(0, 1, 3)))
    T.append(Task("huang.virt", run, budget=120, net=net, spec=[(4, "virt"), (6, "obs")], split=True, const=(1, 3, 5)))
    T.append(Task("asia.mix", run, budget=120, net=NAMED["asia"], spec=[(6, "obs"), (0, "virt"), (4, "obs")], const=(2, 5)))
    T.append(Task("forest.mix", run, budget=120, net=NAMED["forest"], spec=[(2, "obs"), (5, "virt")]))
    T.append(Task("forest.second", run, budget=60, net=NAMED["forest"], spec=[(4, "find")]))
    T.append(Task("forest3.split", run, budget=120, net=NAMED["forest3"], spec=[(3, "virt"), (8, "obs"), (9, "find")], split=True))
    T.append(Task("mixed", run, budget=120, net=NAMED["mixed"], spec=[(2, "obs"), (4, "virt")]))
    T.append(Task("star.find", run, budget=120, net=NAMED["star"], spec=[(2, "find"), (11, "obs")]))
    T.append(Task("instar.obs", run, budget=120, net=NAMED["instar"], spec=[(0, "obs"), (1, "virt")]))
    T.append(Task("cycle5.virt", run, budget=120, net=NAMED["cycle5"], spec=[(4, "obs"), (0, "virt")], split=True))
    T.append(Task("twodigit", run, budget=120, net=NAMED["twodigit"], spec=[(2, "find"), (112, "obs")]))
    T.append(Task("tree9", run, budget=120, net=NAMED["tree9"], spec=[(7, "obs"), (4, "obs")], const=(0, 1, 3, 6)))
    T.append(Task("all3.one", family, budget=120, validate=12, n=3, cards=(2, 3, 2), ids=[12, 3, 7], perm=True, k=1))
    for b in range(8):
        T.append(Task("all3.two.%d" % b, family, budget=200, validate=6, n=3, cards=(2, 2, 3), ids=[2, 0, 1], perm=False, k=2,
                      bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
    for b in range(4):
        T.append(Task("all4.one.%d" % b, family, budget=200, validate=8, n=4, cards=(2, 2, 2, 2), ids=[2, 13, 3, 1], perm=False, k=1,
                      kinds=("obs", "virt"), bits=[bool(b & 1), bool(b & 2)], flip=True))
    # larger structures, stars with evidence on several leaves
    for k, spec, sym in (("star9", [(103, "virt"), (11, "obs"), (9, "obs"), (0, "virt")], (11,)),
                         ("twostars", [(2, "virt"), (12, "obs"), (10, "obs"), (8, "virt"), (4, "obs")], (6,)),
                         ("tree13", [(12, "obs"), (7, "virt"), (10, "find")], (3, 0)),
                         ("chain26", [(0, "obs"), (25, "virt"), (12, "find")], (11,)),
                         ("grid20", [(19, "obs"), (3, "virt")], (18,)),
                         ("family3", [(1, "obs"), (11, "virt"), (4, "obs")], (7,)),
                         ("poly11", [(9, "obs"), (5, "virt"), (4, "find")], (6,)),
                         ("fan.tail", [(9, "obs"), (5, "virt"), (4, "obs")], (7,)),
                         ("forest11", [(9, "obs"), (10, "virt"), (0, "obs")], (4,)),
                         ("bushy30", [(29, "obs"), (14, "virt"), (21, "obs")], (17,)),
                         ("values12", [(1, "obs"), (2, "virt")], (2,)), ("instar7", [(2, "virt"), (7, "obs"), (12, "obs")], (9,))):
        net = N.LARGE[k]
        for split in (False, True):
            T.append(Task("large.%s%s" % (k, ".split" if split else ""), run, budget=120, net=net, spec=spec, split=split,
                          const=sorted(set(net.cards) - set(sym))))
    # zero likelihoods and zero probabilities
    T.append(Task("z.chain3.virt", run, budget=90, validate=20, net=N.chain(3), spec=[(2, "virt"), (0, "obs")], lo_open=False))
    T.append(Task("z.chain2", run, budget=90, validate=30, net=N.chain(2), spec=[(1, "obs"), (0, "virt")], zeros=(0, 1)))
    T.append(Task("z.chain3.cpt", run, budget=120, validate=30, net=N.chain(3), spec=[(2, "obs")], zeros=(0, 1)))
    T.append(Task("z.collider", run, budget=120, validate=30, net=N.Net({0: 2, 1: 2, 2: 2}, [(1, 2), (0, 2)]), spec=[(2, "obs")], zeros=(0, 1)))
    T.append(Task("z.fork", run, budget=120, validate=30, net=N.Net({0: 2, 1: 2, 2: 2}, [(1, 0), (1, 2)]), spec=[(0, "obs"), (2, "find")], zeros=(1, 0)))
    T.append(Task("z.forest", run, budget=120, validate=30, net=N.Net({0: 2, 1: 2, 2: 2, 3: 2, 4: 2}, [(0, 1), (2, 3), (3, 4)]),
                  spec=[(4, "obs"), (0, "obs")], zeros=(2, 3)))
    T.append(Task("alike", run, budget=90, net=N.ALIKE, spec=[(1, "obs"), (2, "virt"), (3, "obs")], const=(7, 12)))
    T.append(Task("alike.split", run, budget=90, net=N.ALIKE, spec=[(1, "find"), (7, "obs"), (12, "obs")], const=(3, 2), split=True))
    if tier == "thorough":
        for b in range(8):
            T.append(Task("t.all4.two.%d" % b, family, budget=2500, validate=20, n=4, cards=(2, 2, 3, 2), ids=[2, 13, 3, 1], perm=False, k=2,
                          kinds=("obs", "virt", "find"), bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
        T.append(Task("t.all3.two", family, budget=2500, validate=30, n=3, cards=(2, 3, 2), ids=[12, 3, 7], perm=True, k=2))
        T.append(Task("t.all3.three", family, budget=2500, validate=30, n=3, cards=(2, 2, 2), ids=[12, 3, 7], perm=True, k=3))
        T.append(Task("t.z.chain4", run, budget=1500, validate=60, net=N.chain(4), spec=[(3, "obs"), (1, "virt")], zeros=(0, 1, 2), lo_open=False))
        T.append(Task("t.z.diamond", run, budget=1500, validate=60, net=N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (0, 2), (1, 3), (2, 3)]),
                      spec=[(3, "obs")], zeros=(0, 1, 2)))
        T.append(Task("t.huang.full", run, budget=2500, net=net, spec=[(5, "obs"), (7, "obs")]))
        T.append(Task("t.asia.full", run, budget=2500, net=NAMED["asia"], spec=[(6, "obs"), (0, "virt"), (4, "obs")]))
    return T
