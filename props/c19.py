"""C19: sampling is a function of network, evidence, number and seed, without side effects."""
import copy

import numpy as np

from symex.explore import Task
from pybbn.sampling.sampling import LogicSampler
from props import common as N
from props import sampling as R
from props.c17 import ASSUMPTIONS  # noqa: F401

BOUNDS = ("networks of 2-3 nodes with symbolic CPTs; 0-2 samples per call (3 in thorough), up to 2 forward draws per sample; two seeds out of 0, 1, 37 and the default; "
          "histories of up to three calls with other draws in between")
OUTSIDE = "seed None; negative numbers of samples; evidence of probability 0; histories longer than three calls"
SEEDS = (0, 1, 37)


def streams(ctx, total):
    """Draws of every stream are named by the stream, so equal seeds give equal draws and nothing else does."""
    memo = {}

    def make(stream, pos):
        if pos >= total:
            return None
        if (stream, pos) not in memo:
            memo[stream, pos] = ctx.real("u.%s.%s.%d" % (stream[0], stream[1], pos), 0, 1, hi_open=True)
        return memo[stream, pos]
    return make


def same(ctx, a, b, label, detail):
    ctx.check(len(a) == len(b) and all(x == y for x, y in zip(a, b)), label, "%s: %s and %s" % (detail, a, b))


def run(ctx, net, evid=(), want=1, more=1, seed=None, other=1, between="none", blocks=None):
    n = len(net.cards)
    pr = N.cpts(ctx, net, const=())
    blocks = blocks or (want + more if not evid else want + more + 1)
    make = streams(ctx, blocks * n)
    where = R.mapping(ctx, net)
    evidence = {i: net.values(i)[v] for i, v in evid}
    if evid:
        # every stream used holds enough agreeing draws (bound on rejections)
        for s in sorted({37 if seed is None else seed} | ({other} if between == "sample" else set())):
            ok = 0
            for b in range(blocks):
                if R.forward(net, pr, where, [make(("mt", s), b * n + k) for k in range(n)], stop=dict(evid)) is not None:
                    ok += 1
            if ok < (want + more):
                ctx.infeasible()
    # runs that need more draws than provided are outside the bound
    R.use(make, **(dict(limit=4, over=ctx.infeasible) if evid and want else {}))
    bbn = N.build(net, pr)
    shape = bbn.to_dict(bbn)
    ev = copy.deepcopy(evidence)
    kw = {} if seed is None else {"seed": seed}
    if evid:
        kw["evidence"] = ev
    sampler = LogicSampler(bbn)
    one = sampler.get_samples(n_samples=want, **kw)
    ctx.check(len(one) == want, "number", "%d samples, %d asked for" % (len(one), want))
    keep = [dict(s) for s in one]
    for a in range(len(one)):
        ctx.check(one[a] is not ev, "independent", "sample %d is the evidence object" % a)
        for b in range(a):
            ctx.check(one[a] is not one[b], "independent", "samples %d and %d are one object" % (a, b))
    ctx.check(ev == evidence, "evidence", "the evidence became %s" % ev)
    for s in one:  # the caller owns what is returned
        for i in list(s):
            s[i] = "spoiled"
        s["more"] = 1
    one.append("spoiled")
    if between == "draw":
        np.random.uniform()
    elif between == "sample":
        sampler.get_samples(n_samples=1, seed=other, **({"evidence": ev} if evid else {}))
    elif between == "other":
        LogicSampler(bbn).get_samples(n_samples=1, seed=other)
    elif between == "new":
        sampler = LogicSampler(bbn)
    elif between == "plain" and evid:
        sampler.get_samples(n_samples=1)
    two = sampler.get_samples(n_samples=want, **kw)
    same(ctx, two, keep, "reproducible", "equal calls")
    if more:
        three = LogicSampler(bbn).get_samples(n_samples=want + more, **kw)
        ctx.check(len(three) == want + more, "number", "%d samples, %d asked for" % (len(three), want + more))
        same(ctx, three[:want], keep, "extends", "%d and %d samples" % (want + more, want))
    ctx.check(ev == evidence, "evidence", "the evidence became %s" % ev)
    now = bbn.to_dict(bbn)
    ctx.check(now["edges"] == shape["edges"] and set(now["nodes"]) == set(shape["nodes"]), "network", "the network changed")
    for i in net.cards:
        nd = bbn.get_node(i)
        ctx.check(len(nd.probs) == len(pr[i]), "network", "CPT of %s resized" % i)
        for a, b in zip(nd.probs, pr[i]):
            ctx.check_eq(a, b, "network", "CPT of %s" % i)


def tasks(tier):
    T = []

    def add(name, net, **kw):
        T.append(Task(name, run, budget=kw.pop("budget", 90), shims=R.install, net=net, **kw))
    c2 = N.Net({3: 2, 1: 2}, [(3, 1)])
    v = N.Net({4: 2, 9: 2, 1: 2}, [(9, 1), (4, 1)])
    for b in ("none", "draw", "sample", "other", "new"):
        add("chain2." + b, c2, between=b, want=1, more=1)
    for s in SEEDS:
        add("seed%d" % s, c2, seed=s, other=0 if s else 1, between="sample", more=0)
        add("seed%d.ev" % s, c2, seed=s, other=0 if s else 1, between="sample", evid=((1, 0),), more=0)
    add("chain2.want2", c2, want=2, more=0)
    for b in ("none", "sample", "other"):
        add("chain2.want0." + b, c2, want=0, more=1, between=b)
    add("chain2.want0.ev", c2, want=0, more=0, evid=((1, 1),), blocks=1)
    for b in ("none", "draw", "plain"):
        add("chain2.ev." + b, c2, between=b, evid=((1, 1),), want=1, more=1 if b == "none" else 0)
    add("chain2.root.ev", c2, between="other", evid=((3, 0),), want=1, more=0)
    add("v.ev", v, evid=((1, 0),), more=0)
    add("v.none", v, more=0, between="other")
    if tier == "thorough":
        B = 2500
        add("t.v.ev2", v, evid=((1, 0), (9, 1)), more=1, budget=B)
        add("t.v.more", v, more=1, want=1, between="sample", budget=B)
        add("t.chain2.want2", c2, want=2, more=1, between="draw", budget=B)
        add("t.chain2.ev2", c2, want=2, more=1, evid=((1, 1),), budget=B)
    return T
