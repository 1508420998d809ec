"""C24: average causal effects equal the truncated factorisation."""
import itertools
import math

from symex.explore import Task
from pybbn.causality.ace import Ace
from props import common as N

BOUNDS = ("every labelled DAG on 3 nodes and every ordered pair (x, y); named networks of 4 and 5 nodes with up to 3 (also dependent) parents of x, on all of which the effect may depend; 2-3 values per node (6 for a cause); "
          "every CPT entry symbolic in (0,1]; up to three effects asked of one object")
OUTSIDE = "zero probabilities (a stratum may then be impossible); larger networks; float rounding"


def truncated(net, probs, x, xv, y, yv):
    """P(y = yv) in the network in which x is forced to xv."""
    ids = sorted(net.cards)
    t = 0
    for vals in itertools.product(*[range(net.cards[i]) for i in ids]):
        asg = dict(zip(ids, vals))
        if asg[x] != xv or asg[y] != yv:
            continue
        p = 1
        for i in ids:
            if i != x:
                p = p * N.entry(net, probs, i, asg)
        t = t + p
    return t


def ask(ctx, ace, net, probs, x, y, yv):
    got = ace.get_ace(net.name(x), net.name(y), net.values(y)[yv])
    ctx.check(sorted(got) == sorted(net.values(x)), "values", "effects for %s" % sorted(got))
    for k, v in enumerate(net.values(x)):
        ctx.check_eq(got[v], truncated(net, probs, x, k, y, yv), "ace", "P(%s=%d | do(%s=%d))" % (net.name(y), yv, net.name(x), k))


def asks(ctx, net, pairs, const=()):
    probs = N.cpts(ctx, net, const=const)
    ace = Ace(N.build(net, probs))
    for x, y in pairs:
        for yv in range(net.cards[y]):
            ask(ctx, ace, net, probs, x, y, yv)


def named(ctx, net, pairs=None, const=()):
    if pairs is None:
        ids = sorted(net.cards)
        x = ids[ctx.choose("x", len(ids))]
        rest = [i for i in ids if i != x]
        pairs = [(x, rest[ctx.choose("y", len(rest))])]
    asks(ctx, net, pairs, const)


def family(ctx, n, cards, ids, flip=False, bits=None, twice=False, perm=True):
    order, edges = N.all_dags(ctx, n, cards, ids, perm, bits)
    if flip:
        edges = edges[::-1]
    net = N.Net({i: c for i, c in zip(sorted(order), cards)}, edges, node_order=order)
    pairs = [(x, y) for x in ids for y in ids if x != y]
    k = ctx.choose("pair", len(pairs))
    use = [pairs[k]]
    if twice:
        use.append(pairs[(k + 1 + ctx.choose("pair2", 2)) % len(pairs)])
    asks(ctx, net, use)


NAMED = {
    "confounder": (N.Net({0: 2, 1: 3, 2: 2}, [(0, 1), (0, 2), (1, 2)]), [(1, 2), (2, 1), (0, 2)]),
    "drug": (N.Net({2: 2, 0: 2, 1: 3}, [(2, 0), (2, 1), (0, 1)]), None),
    "mediator": (N.Net({0: 2, 1: 2, 2: 3}, [(0, 1), (1, 2)]), None),
    "forest": (N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (2, 3)]), [(1, 3), (3, 2), (0, 1)]),
    "forest.parents": (N.Net({0: 2, 1: 2, 2: 2, 3: 3, 4: 2}, [(0, 1), (0, 2), (1, 2), (3, 4)]), [(1, 2), (1, 4)]),
}
# larger ones: the CPTs of one or two nodes symbolic at a time
B4 = {0: 2, 1: 2, 2: 2, 3: 2}
B5 = {0: 2, 1: 2, 2: 2, 3: 2, 4: 2}
LARGE = {
    "two.parents": (N.Net(B4, [(1, 2), (0, 2), (2, 3), (0, 3)]), [(2, 3)]),
    "dependent": (N.Net(B4, [(0, 1), (1, 2), (0, 2), (2, 3), (1, 3)]), [(2, 3), (2, 1), (2, 0)]),
    "dependent.unsorted": (N.Net({7: 2, 11: 3, 2: 2, 3: 2}, [(11, 7), (7, 2), (11, 2), (2, 3), (7, 3)]), [(2, 3)]),
    "common": (N.Net(B5, [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (1, 4)]), [(3, 4)]),
    "three": (N.Net(B5, [(2, 3), (0, 3), (1, 3), (3, 4), (0, 4), (0, 1)]), [(3, 4)]),
    # the effect depends on several parents of the cause, which depend on each other
    "both": (N.Net(B4, [(0, 1), (0, 2), (1, 2), (2, 3), (1, 3), (0, 3)]), [(2, 3)]),
    "both.unsorted": (N.Net({7: 2, 11: 2, 2: 3, 3: 2}, [(11, 7), (7, 2), (11, 2), (2, 3), (11, 3), (7, 3)]), [(2, 3), (3, 11)]),
    "common.both": (N.Net(B5, [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (1, 4), (2, 4)]), [(3, 4)]),
    "three.both": (N.Net(B5, [(2, 3), (0, 3), (1, 3), (3, 4), (0, 4), (2, 4), (0, 1), (1, 2)]), [(3, 4)]),
    "values": (N.Net({0: 3, 1: 3, 2: 6, 3: 2}, [(0, 2), (1, 2), (2, 3), (0, 3)]), [(2, 3)]),
    "m": (N.Net(B5, [(0, 2), (0, 3), (1, 3), (1, 4), (2, 4)]), [(2, 4), (4, 2)]),
}


def tasks(tier):
    T = []
    for k, (net, pairs) in NAMED.items():
        T.append(Task("named." + k, named, budget=90, net=net, pairs=pairs))
    for k, (net, pairs) in LARGE.items():
        for i in net.cards:
            if i == pairs[0][1] and math.prod(net.cards[p] for p in net.pa[i]) >= 8:
                continue  # the effect itself: too many unknowns at once; its CPT is constant in these
            T.append(Task("large.%s.%d" % (k, i), named, budget=90, net=net, pairs=pairs, const=[j for j in net.cards if j != i]))
        for i, j in itertools.combinations(net.cards, 2):
            if pairs[0][1] in (i, j):
                continue  # thorough
            T.append(Task("large.%s.%d.%d" % (k, i, j), named, budget=90, net=net, pairs=pairs, const=[h for h in net.cards if h not in (i, j)]))
    for b in range(4):
        bits = [bool(b & 1), bool(b & 2)]
        T.append(Task("all3.%d" % b, family, budget=90, n=3, cards=(2, 3, 2), ids=[12, 3, 7], bits=bits, flip=bool(b & 1), perm=False))
        T.append(Task("all3.perm.%d" % b, family, budget=90, n=3, cards=(2, 2, 2), ids=[2, 0, 1], bits=bits))
        T.append(Task("twice.%d" % b, family, budget=90, n=3, cards=(2, 2, 2), ids=[0, 1, 2], bits=bits, twice=True, perm=False))
    if tier == "thorough":
        for k, (net, pairs) in LARGE.items():
            y = pairs[0][1]
            for i in net.cards:
                if i != y and math.prod(net.cards[p] for p in net.pa[y]) < 8:
                    T.append(Task("t.large.%s.%d.%d" % (k, i, y), named, budget=1200, path_timeout=1200, net=net, pairs=pairs, const=[h for h in net.cards if h not in (i, y)]))
        for b in range(16):
            bits = [bool(b & 1), bool(b & 2), bool(b & 4), bool(b & 8)]
            T.append(Task("t.all4.%d" % b, family, budget=2500, n=4, cards=(2, 2, 2, 2), ids=[3, 11, 2, 5], bits=bits, perm=False))
        for b in range(4):
            bits = [bool(b & 1), bool(b & 2)]
            T.append(Task("t.all3.perm.%d" % b, family, budget=2500, n=3, cards=(3, 2, 3), ids=[12, 3, 7], bits=bits, twice=True))
    return T
