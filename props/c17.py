"""C17: without evidence every node is drawn from its CPT row by inverse CDF."""
from symex.explore import Task
from pybbn.sampling.sampling import LogicSampler
from props import common as N
from props import sampling as R
from props.c01 import NAMED

BOUNDS = ("every DAG on 3 nodes under every placement of the ids, and on 4 nodes with 2-valued nodes; named networks of up to 8 nodes with up to 4 parents, larger ones (26 nodes, 7 parents, 12 values) with 3-4 symbolic draws and CPTs; 1-2 samples; "
          "every CPT (zeros included where said), every vector of draws in [0,1); parent values that contain separators")
OUTSIDE = "the generator's own quality; float rounding of cumulative sums; more nodes"
ASSUMPTIONS = ["np.random's uniform draws are arbitrary reals in [0,1), a function of the seed and the position in the stream"]


def run(ctx, net, samples=1, zeros=(), const=(), live=None):
    """live: the nodes whose draws are symbolic (others get fixed ones)."""
    where = R.mapping(ctx, net)
    pr = N.cpts(ctx, net, zeros, const=const)
    n = len(net.cards)
    us = [ctx.real("u%d" % k, 0, 1, hi_open=True) if live is None or any(where[i] == k % n for i in live) else (k * 37 % 64) / 64 + 1 / 256 for k in range(n * samples)]
    R.use(lambda stream, pos: us[pos] if pos < len(us) else None)
    bbn = N.build(net, pr)
    got = LogicSampler(bbn).get_samples(n_samples=samples)
    ctx.check(len(got) == samples, "number", "%d samples" % len(got))
    for s, sample in enumerate(got):
        ctx.check(sorted(sample) == sorted(net.cards), "nodes", "sampled nodes %s" % sorted(sample))
        asg = {}
        for i in sorted(net.cards):
            ctx.check(sample[i] in net.values(i), "domain", "node %s took %r" % (i, sample[i]))
            asg[i] = net.values(i).index(sample[i])
        for i in sorted(net.cards):
            u = us[s * n + where[i]]
            lo, hi = R.cumulative(net, pr, i, asg)[asg[i]]
            if asg[i] < net.cards[i] - 1:
                ctx.check(u < hi, "interval", "node %s of sample %d: the draw is above the interval of %s" % (i, s, sample[i]))
            ctx.check(u >= lo, "interval", "node %s of sample %d: the draw is below the interval of %s" % (i, s, sample[i]))


# what a key made of text may mix up: separators, escapes, digits, the ids themselves
TEXTS = ["a", "b", "", " ", "a,2=b", "b,2=b", "a|b", "=", ",", "2=b", "1", "11", "-", "\\", "a\\", "\\,2=b", "b,2=", "'", "a, b"]


def texts(ctx, alphabet, ids=(1, 2, 13)):
    """Two parents whose values are any texts; every pair of values of a parent differs."""
    vals = {}
    for i in ids[:2]:
        a = ctx.choose("text%d.0" % i, len(alphabet))
        b = ctx.choose("text%d.1" % i, len(alphabet))
        if a == b:
            ctx.infeasible()
        vals[i] = [alphabet[a], alphabet[b]]
    vals[ids[2]] = ["n", "y"]
    run(ctx, N.Net({i: 2 for i in ids}, [(ids[0], ids[2]), (ids[1], ids[2])], values=vals), const=ids[:2])


def family(ctx, n, cards, ids, perm, bits=None, flip=False, **kw):
    order, edges = N.all_dags(ctx, n, cards, ids, perm, bits)
    if flip:
        edges = edges[::-1]
    net = N.Net({i: c for i, c in zip(ids, cards)}, edges, node_order=order)
    run(ctx, net, **kw)


def tasks(tier):
    T = []

    def add(name, net, **kw):
        T.append(Task(name, run, budget=kw.pop("budget", 90), shims=R.install, net=net, **kw))

    def fam(name, **kw):
        T.append(Task(name, family, budget=kw.pop("budget", 90), shims=R.install, **kw))
    add("chain3.two", N.chain(3), samples=2)
    add("chain3.z", N.chain(3), zeros=(0, 1, 2))
    add("asym", N.Net({4: 2, 9: 3, 1: 2, 7: 4}, [(9, 1), (4, 1), (1, 7)]))
    add("asym.z", N.Net({4: 2, 9: 3, 1: 3}, [(9, 1), (4, 1)]), zeros=(1, 9))
    add("parents3", N.Net({10: 2, 2: 3, 30: 2, 4: 2}, [(30, 2), (10, 2), (4, 2)]))
    add("parents4", N.Net({10: 2, 2: 2, 30: 2, 4: 2, 5: 2}, [(30, 2), (10, 2), (4, 2), (5, 2)]))
    add("twodigit", NAMED["twodigit"])
    add("forest", NAMED["forest"])
    add("down", N.Net({5: 2, 3: 2, 1: 2, 0: 3}, [(5, 3), (5, 1), (3, 0), (1, 0)]))
    fam("all3", n=3, cards=(2, 3, 2), ids=[12, 3, 7], perm=True)
    fam("all3.flip", n=3, cards=(3, 2, 2), ids=[2, 10, 1], perm=True, flip=True)
    for b in range(4):
        fam("all4.%d" % b, n=4, cards=(2, 2, 2, 2), ids=[2, 13, 3, 1], perm=False, bits=[bool(b & 1), bool(b & 2)], flip=True)
    T.append(Task("texts", texts, budget=90, shims=R.install, validate=20, alphabet=["a", "a,2=b", "b", "b,2=b", "", ","]))
    add("values12", N.LARGE["values12"], const=(0, 2))
    add("alike", N.ALIKE, const=(2, 12))
    for k, live in (("star9", (4, 103, 8)), ("twostars", (0, 6, 12)), ("chain26", (24, 25, 11)), ("instar7", (2, 9, 7)), ("bushy24", (0, 22, 23, 13)), ("family3", (2, 7, 8, 5)), ("poly11", (3, 6, 9))):
        add("large." + k, N.LARGE[k], live=live, const=[i for i in N.LARGE[k].cards if i not in live or len(N.LARGE[k].pa[i]) > 4])
    if tier == "thorough":
        for k, live in (("star9", (4, 103, 8, 0, 6)), ("twostars", (0, 6, 12, 5, 3)), ("chain26", (24, 25, 11, 0, 10)), ("instar7", (2, 9, 7, 1, 5)), ("bushy30", (0, 29, 28, 13, 17)), ("grid20", (0, 4, 19, 18, 14))):
            add("t.large." + k, N.LARGE[k], live=live, const=[i for i in N.LARGE[k].cards if i not in live or len(N.LARGE[k].pa[i]) > 4], budget=2500, samples=2)
        T.append(Task("t.texts", texts, budget=2500, shims=R.install, validate=40, alphabet=TEXTS))
        T.append(Task("t.texts.11", texts, budget=2500, shims=R.install, validate=40, alphabet=[t.replace("2=", "1=") for t in TEXTS[:14]], ids=(11, 1, 13)))
        B = 2500
        add("t.huang", N.huang(), budget=B)
        add("t.chain3.three", N.chain(3), samples=3, budget=B)
        add("t.asym.z.two", N.Net({4: 2, 9: 3, 1: 3}, [(9, 1), (4, 1)]), zeros=(1, 9, 4), samples=2, budget=B)
        fam("t.all3.two", n=3, cards=(2, 2, 2), ids=[12, 3, 7], perm=True, samples=2, budget=B)
        for b in range(8):
            fam("t.all4.%d" % b, n=4, cards=(2, 3, 2, 2), ids=[2, 13, 3, 1], perm=True, bits=[bool(b & 1), bool(b & 2), bool(b & 4)], budget=B)
    return T
