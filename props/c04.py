"""C04: evidence is normalised as documented, and acts with the normalised weights."""
from fractions import Fraction

from symex.explore import Task
from pybbn.graph.jointree import Evidence, EvidenceBuilder, EvidenceType
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N

BOUNDS = "likelihood vectors over 2-4 values (negative, above 1 and missing ones included), every entry a symbolic real, and over 7-12 (25) values with two or three symbolic entries at every place among fixed ones; every evidence type"
OUTSIDE = "likelihoods that are not numbers; values outside the node's domain"


def given(ctx, k, missing):
    raw = []
    for x in range(k):
        if missing and ctx.flag("missing%d" % x):
            raw.append(None)
        else:
            raw.append(ctx.real("l%d" % x, -2, 3))
    return raw


def spec(ctx, kind, raw):
    """The documented normal form as a list of weights; None: any maximal value (ties)."""
    v = [0 if r is None else r for r in raw]
    if kind == "virt":
        return [0 if bool(x < 0) else 1 if bool(x > 1) else x for x in v]
    if kind == "find":
        w = [1 if bool(x > 0) else 0 for x in v]
        return w if any(w) else [1] * len(v)
    if kind == "unobs":
        return [1] * len(v)
    return None


TYPES = {"virt": EvidenceType.VIRTUAL, "find": EvidenceType.FINDING, "obs": EvidenceType.OBSERVATION, "unobs": EvidenceType.UNOBSERVE}


FILL = [Fraction(-1, 2), Fraction(1, 4), Fraction(3, 2), 0, Fraction(2, 5), None, Fraction(5, 2), Fraction(1, 3), -1, 1, None, Fraction(1, 8)]


def among(ctx, k, free, flip):
    """k likelihoods: the ones of two or three places are symbolic, the others given numbers."""
    raw = [FILL[(5 * x + 2) % len(FILL)] for x in range(k)] if flip else [FILL[x % len(FILL)] for x in range(k)]
    at = ctx.choose("at", k)
    for m in range(free):
        x = (at + m * 5) % k
        raw[x] = ctx.real("l%d" % m, -2, 3)
    return raw


def run(ctx, kind, k, missing=False, build=True, free=None):
    net = N.Net({4: k}, [])
    node = N.build(net, {4: [1.0 / k] * k}).get_node(4)
    vals = net.values(4)
    raw = given(ctx, k, missing) if free is None else among(ctx, k, free, missing)
    if build:
        eb = EvidenceBuilder().with_node(node).with_type(TYPES[kind])
        for v, r in zip(vals, raw):
            if r is not None:
                eb = eb.with_evidence(v, r)
        ev = eb.build()
    else:
        ev = Evidence(node, TYPES[kind])
        for v, r in zip(vals, raw):
            if r is not None:
                ev.add_value(v, r)
    for r in raw:
        if r is not None:  # the given inputs
            pass
    ev.validate()
    got = [ev.values.get(v) for v in vals]
    ctx.check(set(ev.values) == set(vals), "domain", "values after validation: %s" % sorted(ev.values))
    want = spec(ctx, kind, raw)
    if want is not None:
        for v, g, w in zip(vals, got, want):
            ctx.check_eq(g, w, "normal-form", "%s likelihood of %s" % (kind, v))
    else:
        ones = [x for x in range(k) if bool(got[x] == 1)]
        ctx.check(len(ones) == 1, "one-hot", "observation with %d certain values" % len(ones))
        for x in range(k):
            if x not in ones:
                ctx.check_eq(got[x], 0, "one-hot", "value %s" % vals[x])
        top = raw[ones[0]]
        for x in range(k):
            if raw[x] is not None and top is not None:
                ctx.check(top >= raw[x], "argmax", "the observed value is not the most likely one")
            elif raw[x] is not None:
                ctx.check(raw[x] <= 0, "argmax", "a missing value was preferred")
            elif top is not None:
                ctx.check(top >= 0, "argmax", "a negative value was preferred to a missing one")
    # normalising is idempotent
    before = list(got)
    ev.validate()
    for v, g, w in zip(vals, [ev.values[v] for v in vals], before):
        ctx.check_eq(g, w, "idempotent", v)


def effect(ctx, kind, missing):
    """Raw evidence acts on the join tree with its normal form."""
    net = N.Net({0: 2, 1: 2}, [(0, 1)])
    pr = N.cpts(ctx, net)
    jt = InferenceController.apply(N.build(net, pr))
    js = N.joints(net, pr)
    vals = net.values(1)
    raw = given(ctx, 2, missing)
    eb = EvidenceBuilder().with_node(jt.get_bbn_node(1)).with_type(TYPES[kind])
    for v, r in zip(vals, raw):
        if r is not None:
            eb = eb.with_evidence(v, r)
    ev = eb.build()
    jt.update_evidences([ev])
    w = spec(ctx, kind, raw)
    if w is None:
        v = [0 if r is None else r for r in raw]
        if bool(v[0] == v[1]):
            ctx.infeasible()
        w = [1, 0] if bool(v[0] > v[1]) else [0, 1]
    N.feasible(ctx, js, {1: w})
    N.check_posteriors(ctx, net, js, jt, {1: w})
    for x, val in enumerate(vals):
        ctx.check_eq(jt.evidences[1][val].entries[0].value, w[x], "stored", val)


def wide(ctx, kind, k, flip):
    """The same with many values: of the evidence node or of a node that depends on it."""
    net = N.Net({0: k, 1: 2}, [(0, 1)])
    pr = {i: [ctx.const(p) for r in range(net.rows(i)) for p in N.const_row(net.cards[i], r)] for i in net.cards}
    jt = InferenceController.apply(N.build(net, pr))
    js = N.joints(net, pr)
    vals = net.values(0)
    raw = among(ctx, k, 2, flip)
    eb = EvidenceBuilder().with_node(jt.get_bbn_node(0)).with_type(TYPES[kind])
    for x in range(k)[::-1 if flip else 1]:
        if raw[x] is not None:
            eb = eb.with_evidence(vals[x], raw[x])
    jt.update_evidences([eb.build()])
    w = spec(ctx, kind, raw)
    if w is None:
        v = [0 if r is None else r for r in raw]
        top = [x for x in range(k) if all(bool(v[x] >= y) for y in v)]
        if len(top) > 1:
            ctx.infeasible()
        w = [1 if x == top[0] else 0 for x in range(k)]
    N.feasible(ctx, js, {0: w})
    N.check_posteriors(ctx, net, js, jt, {0: w})


def tasks(tier):
    T = []
    for kind in ("virt", "find", "obs", "unobs"):
        for k in (7, 12) if tier == "quick" else (7, 12, 25):
            for flip in (False, True):
                T.append(Task("many.%s%d%s" % (kind, k, ".other" if flip else ""), run, budget=90, validate=10, kind=kind, k=k, missing=flip, build=flip, free=2 if kind == "obs" else 3))
        for flip in (False, True):
            T.append(Task("wide.%s%s" % (kind, ".other" if flip else ""), wide, budget=90, validate=10, kind=kind, k=11, flip=flip))
    for kind in ("virt", "find", "obs", "unobs"):
        for k in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
            for missing in (False, True):
                T.append(Task("%s%d%s" % (kind, k, ".missing" if missing else ""), run, budget=60 if tier == "quick" else 900,
                              validate=10, kind=kind, k=k, missing=missing, build=k != 3))
        T.append(Task("effect.%s" % kind, effect, budget=60, validate=10, kind=kind, missing=True))
    return T
