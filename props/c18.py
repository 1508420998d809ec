"""C18: with evidence the returned samples are the forward draws that agree with it."""
from symex.explore import Task
from pybbn.sampling.sampling import LogicSampler
from props import common as N
from props import sampling as R
from props.c01 import NAMED
from props.c17 import ASSUMPTIONS  # noqa: F401

BOUNDS = ("every DAG on 3 nodes with evidence on one or two nodes, named networks of 2-6 nodes with evidence on up to all nodes, larger ones (26 nodes, 7 parents, 12 values) with 2-3 symbolic draws and CPTs; up to 3 forward draws (up to 14 with evidence on "
          "a root of a network of 1-2 nodes), the wanted number of samples being accepted among them; every CPT and every vector of draws")
OUTSIDE = "longer runs of rejections; evidence of probability 0 (sampling does not end); more nodes"


def run(ctx, net, ev, want=1, blocks=2, zeros=(), const=(), live=None):
    where = R.mapping(ctx, net)
    pr = N.cpts(ctx, net, zeros, const=const)
    n = len(net.cards)
    us = [ctx.real("u%d" % k, 0, 1, hi_open=True) if live is None or any(where[i] == k % n for i in live) else (k * 37 % 64) / 64 + 1 / 256 for k in range(n * blocks)]
    evid = {i: (v if v is not None else ctx.choose("ev%s" % i, net.cards[i])) for i, v in ev}
    spec = []
    for b in range(blocks if want else 0):
        f = R.forward(net, pr, where, us[b * n:(b + 1) * n], stop=evid)
        if f is not None:
            spec.append(f)
        if len(spec) == want:
            break
    if len(spec) < want:
        ctx.infeasible()
    R.use(lambda stream, pos: us[pos] if pos < len(us) else None)
    evidence = {i: net.values(i)[v] for i, v in evid.items()}
    got = LogicSampler(N.build(net, pr)).get_samples(evidence=evidence, n_samples=want)
    ctx.check(len(got) == want, "number", "%d samples returned, %d asked for" % (len(got), want))
    for k, s in enumerate(got):
        ctx.check(sorted(s) == sorted(net.cards), "nodes", "sample %d has the nodes %s" % (k, sorted(s)))
        for i, v in evidence.items():
            ctx.check(s[i] == v, "agrees", "sample %d has %s for node %s, evidence %s" % (k, s[i], i, v))
        for i in sorted(net.cards):
            ctx.check(s[i] == net.values(i)[spec[k][i]], "draw", "sample %d, node %s: %s, but the %s agreeing draw is %s" % (k, i, s[i], k, net.values(i)[spec[k][i]]))


def family(ctx, n, cards, ids, k=1, perm=False, bits=None, **kw):
    order, edges = N.all_dags(ctx, n, cards, ids, perm, bits)
    net = N.Net({i: c for i, c in zip(ids, cards)}, edges, node_order=order)
    first = ctx.choose("on", n)
    on = [(ids[(first + j) % n], None) for j in range(k)]
    run(ctx, net, on, **kw)


def tasks(tier):
    T = []

    def add(name, net, ev, **kw):
        T.append(Task(name, run, budget=kw.pop("budget", 90), shims=R.install, net=net, ev=ev, **kw))

    def fam(name, **kw):
        T.append(Task(name, family, budget=kw.pop("budget", 90), shims=R.install, **kw))
    c2 = N.Net({3: 2, 1: 3}, [(3, 1)])
    add("chain2.root", c2, [(3, None)], blocks=3, want=2)
    add("chain2.leaf", c2, [(1, None)], blocks=3, want=2)
    add("chain2.both", c2, [(1, None), (3, None)], blocks=3)
    add("chain3.mid", N.chain(3), [(1, None)], blocks=2)
    add("chain3.leaf", N.chain(3), [(2, None)], blocks=3)
    add("chain3.z", N.chain(3), [(2, 1), (0, 0)], blocks=2, zeros=(0, 1, 2))
    add("asym", N.Net({4: 2, 9: 3, 1: 2}, [(9, 1), (4, 1)]), [(1, None)], blocks=2)
    add("asym.roots", N.Net({4: 2, 9: 3, 1: 2}, [(9, 1), (4, 1)]), [(9, 1), (4, 0)], blocks=2)
    add("diamond", N.Net({5: 2, 3: 2, 1: 2, 0: 3}, [(5, 3), (5, 1), (3, 0), (1, 0)]), [(0, None)], blocks=2)
    add("diamond.mix", N.Net({5: 2, 3: 2, 1: 2, 0: 3}, [(5, 3), (5, 1), (3, 0), (1, 0)]), [(0, 2), (3, 1), (5, None)], blocks=2)
    add("all.observed", N.chain(3), [(2, None), (1, None), (0, None)], blocks=3)
    add("forest", NAMED["forest"], [(2, 1), (5, 0)], blocks=1)
    add("twodigit", NAMED["twodigit"], [(112, 0)], blocks=1)
    add("long.single", N.Net({4: 2}, []), [(4, None)], blocks=14)
    add("long.single.2", N.Net({4: 2}, []), [(4, 1)], blocks=14, want=2)
    add("long.single.3", N.Net({4: 2}, []), [(4, 0)], blocks=9, want=3)
    add("long.root", c2, [(3, None)], blocks=9)
    add("long.root.2", c2, [(3, 1)], blocks=7, want=2)
    fam("all3.one", n=3, cards=(2, 2, 2), ids=[12, 3, 7])
    fam("all3.two", n=3, cards=(2, 3, 2), ids=[2, 10, 1], k=2)
    for k, ev, live in (("star9", [(103, 1), (4, None)], (4, 103, 8)), ("twostars", [(12, None)], (0, 6, 12)), ("chain26", [(25, None)], (24, 25)),
                        ("instar7", [(2, 0), (9, None)], (2, 9, 7)), ("bushy24", [(23, 1), (0, 0)], (0, 22, 23))):
        add("large." + k, N.LARGE[k], ev, live=live, blocks=3, const=[i for i in N.LARGE[k].cards if i not in live or len(N.LARGE[k].pa[i]) > 4])
    add("values12", N.LARGE["values12"], [(1, 11)], blocks=2, live=(0, 1), const=(0, 2))
    add("alike", N.ALIKE, [(3, 1), (12, 0)], const=(2, 1), live=(3, 7, 12), blocks=3)
    add("none.wanted", c2, [(1, None)], want=0, blocks=1)
    if tier == "thorough":
        B = 2500
        add("t.chain2.4", c2, [(1, None)], blocks=4, want=2, budget=B)
        add("t.diamond", N.Net({5: 2, 3: 2, 1: 2, 0: 3}, [(5, 3), (5, 1), (3, 0), (1, 0)]), [(0, None)], blocks=3, budget=B)
        add("t.forest", NAMED["forest"], [(2, 1), (5, 0)], blocks=2, budget=B)
        fam("t.all3.one", n=3, cards=(2, 2, 3), ids=[12, 3, 7], perm=True, blocks=3, budget=B)
        fam("t.all3.perm", n=3, cards=(2, 2, 2), ids=[12, 3, 7], perm=True, budget=B)
        fam("t.all4", n=4, cards=(2, 2, 2, 2), ids=[2, 13, 3, 1], blocks=2, budget=B)
        fam("t.all3.more", n=3, cards=(2, 2, 2), ids=[12, 3, 7], blocks=3, want=2, budget=B)
    return T
