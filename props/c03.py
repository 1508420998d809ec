"""C03: posteriors depend only on the evidence currently set, not on its history."""
from symex.explore import Task
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N
from props.c01 import NAMED

BOUNDS = ("histories of 2 operations (3 in thorough) out of observe / finding / virtual / unobserve / unobserve_all / set_observation, "
          "each on a chosen node of 2-5 node networks (forest and a node of 5 values included), evidence on all nodes of 10-11 node networks, entered and taken back twice, two updates of evidence on up to five nodes together, posteriors compared after every operation; evidence objects entered again, together, or changed by their owner after entry; likelihoods and "
          "CPTs symbolic")
OUTSIDE = "longer histories; impossible evidence; other structures"

OPS = ("obs", "find", "virt", "unobs", "all", "set")


def fresh_node(jt, i):
    return jt.get_bbn_node(i)


def step(ctx, jt, net, state, n, op, i, lo_open):
    if op == "all":
        jt.unobserve_all()
        state.clear()
        return
    if op == "unobs":
        jt.unobserve([jt.get_bbn_node(i)])
        state.pop(i, None)
        return
    if op == "set":
        ev, w = N.make_evidence(ctx, jt, net, i, "obs", "op%d" % n)
        jt.set_observation(ev)
        cur = state.get(i)
        if cur is not None and [x for x in cur] == w:
            state.pop(i)  # documented toggle: observing the observed value again retracts it
        else:
            state[i] = w
        return
    ev, w = N.make_evidence(ctx, jt, net, i, op, "op%d" % n, lo_open)
    jt.update_evidences([ev])
    state[i] = w


def kept(ctx, net, nodes, k, kinds=("obs", "find", "virt"), const=()):
    """Evidence objects made once and entered again, several at a time, changed by their owner in between."""
    pr = N.cpts(ctx, net, const=const)
    bbn = N.build(net, pr)
    jt = InferenceController.apply(bbn)
    js = N.joints(net, pr)
    evs = []
    for x, i in enumerate(nodes):
        evs.append((i,) + N.make_evidence(ctx, jt, net, i, kinds[ctx.choose("kind%d" % x, len(kinds))], "ev%d" % x, src=bbn if x else None))
    state = {}
    for n in range(k):
        op = ("one", "both", "swap", "clear", "reversed")[ctx.choose("op%d" % n, 5)]
        if op == "one":
            i, ev, w = evs[ctx.choose("which%d" % n, len(evs))]
            jt.update_evidences([ev])
            state[i] = w
        elif op in ("both", "reversed"):
            todo = list(evs)[::-1 if op == "reversed" else 1]
            given = [ev for _, ev, _ in todo]
            jt.update_evidences(given)
            ctx.check(given == [ev for _, ev, _ in todo], "argument", "the list of evidence was changed")
            for i, _, w in todo:
                state[i] = w
        elif op == "swap":
            # one is retracted in the same update that enters the other
            j = ctx.choose("which%d" % n, len(evs))
            i, ev, w = evs[j]
            o = evs[(j + 1) % len(evs)][0]
            jt.update_evidences([jt.get_unobserved_evidence(jt.get_bbn_node(o)), ev])
            state.pop(o, None)
            state[i] = w
        else:
            jt.unobserve([bbn.get_node(i) for i in nodes])
            state.clear()
        N.feasible(ctx, js, state)
        N.check_posteriors(ctx, net, js, jt, state)
    # what the owner does to the objects afterwards is not evidence until it is entered
    i, ev, w = evs[0]
    vals = net.values(i)
    for v in vals:
        ev.values[v] = 0.0
    ev.add_value(vals[-1], 1.0)
    N.check_posteriors(ctx, net, js, jt, state, "not.entered")
    jt.update_evidences([ev])
    state[i] = [0] * (len(vals) - 1) + [1]
    N.feasible(ctx, js, state)
    N.check_posteriors(ctx, net, js, jt, state, "entered.again")


def batches(ctx, net, nodes, k, what=("obs", "other", "virt", "unobs", "none"), const=(), first=None):
    """Updates that enter and retract evidence on several nodes at once, in either order of the nodes; for a node
    named more than once the later one is in force."""
    pr = N.cpts(ctx, net, const=const)
    jt = InferenceController.apply(N.build(net, pr))
    js = N.joints(net, pr)
    state = {}
    for n in range(k):
        todo = []
        for x, i in enumerate(nodes):
            tag = "%d.%s" % (n, i) if nodes.count(i) == 1 else "%d.%s.%d" % (n, i, x)
            op = first if n == 0 and first else what[ctx.choose("op" + tag, len(what))]
            if op == "none":
                continue
            if op == "unobs":
                todo.append((i, N.make_evidence(ctx, jt, net, i, "unobs", "")[0], None))
            elif op == "virt":
                ev, w = N.make_evidence(ctx, jt, net, i, "virt", "ev" + tag)
                todo.append((i, ev, w))
            else:
                v = 0 if op == "obs" else net.cards[i] - 1
                ev = N.EvidenceBuilder().with_node(jt.get_bbn_node(i)).with_evidence(net.values(i)[v], 1.0).build()
                todo.append((i, ev, [1 if x == v else 0 for x in range(net.cards[i])]))
        if n % 2:
            todo.reverse()
        jt.update_evidences([ev for _, ev, _ in todo])
        for i, _, w in todo:
            state.pop(i, None)
            if w is not None:
                state[i] = w
        N.check_posteriors(ctx, net, js, jt, state)
    jt.unobserve([jt.get_bbn_node(i) for i in nodes])
    N.check_posteriors(ctx, net, js, jt, {})


def run(ctx, net, k, nodes, ops=OPS, first=None, lo_open=True, const=(), check_each=True):
    pr = N.cpts(ctx, net, const=const)
    jt = InferenceController.apply(N.build(net, pr))
    js = N.joints(net, pr)
    state = {}
    for n in range(k):
        op = first[n] if first is not None and n < len(first) else ops[ctx.choose("op%d.kind" % n, len(ops))]
        i = None
        if op != "all":
            i = nodes[ctx.choose("op%d.node" % n, len(nodes))]
        step(ctx, jt, net, state, n, op, i, lo_open)
        if check_each or n == k - 1:
            N.feasible(ctx, js, state)
            N.check_posteriors(ctx, net, js, jt, state)


def everywhere(ctx, net, free, k=2):
    """Evidence on (nearly) all nodes of a larger network, in one update or one after the other; then taken back by
    unobserve_all, by naming all nodes, or by an update with as many unobserved evidences; then evidence again."""
    pr = N.cpts(ctx, net, const=[i for i in net.cards if i != free])
    jt = InferenceController.apply(N.build(net, pr))
    js = N.joints(net, pr)
    ids = sorted(net.cards, key=lambda i: (i * 7) % 11)
    state = {}
    for n in range(k):
        skip, odd, together = (ctx.choose("skip", 3), ctx.flag("odd"), ctx.flag("together")) if n == 0 else (1, not odd, not together)
        evs = []
        for x, i in enumerate(ids):
            if skip and x % 3 == skip:
                continue
            v = (x + odd) % net.cards[i]
            evs.append(N.EvidenceBuilder().with_node(jt.get_bbn_node(i)).with_evidence(net.values(i)[v], 1.0).build())
            state[i] = [1 if y == v else 0 for y in range(net.cards[i])]
        if together:
            jt.update_evidences(evs)
        else:
            for ev in evs:
                jt.update_evidences([ev])
        N.check_posteriors(ctx, net, js, jt, state)
        back = ctx.choose("back", 4) if n == 0 else 0
        if back == 0:
            jt.unobserve_all()
        elif back == 1:
            jt.unobserve(jt.get_bbn_nodes())
        elif back == 2:
            jt.update_evidences([jt.get_unobserved_evidence(jt.get_bbn_node(i)) for i in ids])
        if back < 3:
            state = {}
            N.check_posteriors(ctx, net, js, jt, {})
    if back < 3:
        ev, w = N.make_evidence(ctx, jt, net, ids[-1], "virt", "last")
        jt.update_evidences([ev])
        N.check_posteriors(ctx, net, js, jt, {ids[-1]: w})


def tasks(tier):
    T = []
    many = N.Net({2: 5, 1: 2}, [(2, 1)])
    for f in ("obs", "find", "virt"):
        T.append(Task("many.%s" % f, run, budget=90, validate=6, net=many, k=2, nodes=[2], first=[f], ops=("set", "unobs", "find") if f != "find" else ("obs", "unobs", "virt"), const=(1, 2) if f == "find" else (2,), check_each=f != "find"))
    if tier == "thorough":
        T.append(Task("t.everywhere.star9", everywhere, budget=900, validate=6, net=N.LARGE["star9"], free=11))
    T.append(Task("everywhere.poly11", everywhere, budget=90, validate=6, net=N.LARGE["poly11"], free=6))
    T.append(Task("everywhere.forest11", everywhere, budget=90, validate=6, net=N.LARGE["forest11"], free=4))
    two = N.Net({3: 2, 1: 3}, [(3, 1)])
    coll = N.Net({0: 2, 1: 2, 2: 2}, [(1, 2), (0, 2)])
    forest = N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (2, 3)])
    for f in OPS:
        T.append(Task("two.%s" % f, run, budget=90, validate=6, net=two, k=2, nodes=[3, 1], first=[f]))
        T.append(Task("chain3.%s" % f, run, budget=90, validate=6, net=N.chain(3), k=2, nodes=[0, 2], first=[f]))
        T.append(Task("forest.%s" % f, run, budget=90, validate=6, net=forest, k=2, nodes=[1, 2], first=[f], ops=("obs", "unobs", "all", "set", "virt")))
    for a in ("obs", "virt", "set"):
        for b in ("obs", "virt", "set", "unobs", "all"):
            T.append(Task("three.%s.%s" % (a, b), run, budget=90, validate=6, net=N.chain(2), k=3, nodes=[1, 0] if a != "virt" else [1],
                          first=[a, b], ops=("obs", "virt", "set", "unobs"), check_each=False))
    T.append(Task("closed.virt", run, budget=90, validate=10, net=N.chain(2), k=2, nodes=[1], first=["virt"], lo_open=False, ops=("obs", "virt", "find", "set")))
    T.append(Task("closed.obs", run, budget=90, validate=10, net=N.chain(2), k=2, nodes=[1, 0], first=["obs"], lo_open=False, ops=("virt", "find")))
    T.append(Task("collider", run, budget=90, validate=6, net=coll, k=3, nodes=[2, 0], first=["obs", "obs"], ops=("unobs", "all", "obs"), check_each=False))
    T.append(Task("cycle5", run, budget=90, validate=6, net=NAMED["cycle5"], k=3, nodes=[4, 1], first=["set", "obs"], ops=("unobs", "set"), check_each=False))
    T.append(Task("kept.chain2", kept, budget=90, validate=6, net=N.chain(2), nodes=[1, 0], k=2))
    T.append(Task("kept.forest", kept, budget=90, validate=6, net=forest, nodes=[1, 2], k=2, kinds=("obs", "virt")))
    T.append(Task("kept.coll", kept, budget=90, validate=6, net=coll, nodes=[2, 0], k=2, kinds=("obs", "virt")))
    T.append(Task("kept.three", kept, budget=90, validate=6, net=two, nodes=[1, 3], k=3, kinds=("obs",)))
    five = N.Net({i: 2 for i in range(5)}, [(0, 1), (0, 2), (3, 2), (2, 4)])
    T.append(Task("batch.obs", batches, budget=90, validate=6, net=five, nodes=[4, 1, 3], k=2, first="obs", what=("other", "virt", "unobs", "none"), const=(0, 1, 2, 3)))
    T.append(Task("batch.virt", batches, budget=90, validate=6, net=five, nodes=[1, 4], k=2, first="virt", what=("obs", "unobs"), const=(0, 1, 3, 4)))
    T.append(Task("batch.none", batches, budget=90, validate=6, net=five, nodes=[1, 4, 0], k=1, what=("obs", "virt", "none"), const=(0, 1, 4)))
    T.append(Task("batch.five", batches, budget=90, validate=6, net=five, nodes=[4, 1, 3, 0, 2], k=2, first="obs", what=("other", "obs", "unobs"), const=(0, 1, 2, 3)))
    T.append(Task("batch.forest", batches, budget=90, validate=6, net=forest, nodes=[1, 2, 3], k=2, what=("obs", "other", "unobs"), const=(0, 1, 2)))
    T.append(Task("batch.star", batches, budget=90, validate=6, net=N.LARGE["star9"], nodes=[11, 2, 103, 9], k=2, first="obs", what=("other", "unobs"),
                  const=[i for i in N.LARGE["star9"].cards if i != 11]))
    T.append(Task("alike", batches, budget=90, validate=6, net=N.ALIKE, nodes=[3, 1, 7], k=2, first="obs", what=("other", "unobs"), const=(1, 2, 12)))
    T.append(Task("batch.twice", batches, budget=90, validate=6, net=five, nodes=[1, 1, 4], k=2, what=("obs", "other", "unobs"), const=(0, 1, 2, 3)))
    T.append(Task("batch.twice.virt", batches, budget=90, validate=6, net=N.chain(2), nodes=[1, 1], k=2, what=("obs", "unobs", "virt")))
    if tier == "thorough":
        T.append(Task("t.batch.twice", batches, budget=2500, validate=6, net=five, nodes=[1, 4, 1, 4], k=2, what=("obs", "other", "unobs", "virt", "none"), const=(0, 1, 2, 3)))
        T.append(Task("t.batch.four", batches, budget=2500, validate=6, net=five, nodes=[4, 1, 3, 0], k=2, const=(0, 1, 2)))
        T.append(Task("t.batch.six", batches, budget=2500, validate=6, net=N.LARGE["bushy24"], nodes=[4, 11, 23, 0, 17, 9], k=2, what=("obs", "unobs"),
                      const=[i for i in range(24) if i != 11]))
        T.append(Task("t.batch.k3", batches, budget=2500, validate=6, net=five, nodes=[4, 1, 3], k=3, what=("obs", "other", "unobs", "virt"), const=(0, 1, 2, 4)))
        T.append(Task("t.kept.three", kept, budget=1500, validate=6, net=two, nodes=[1, 3], k=3))
        T.append(Task("t.kept.diamond", kept, budget=1500, validate=6, net=N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (0, 2), (2, 3), (1, 3)]), nodes=[3, 0, 1], k=2))
        T.append(Task("t.kept.huang", kept, budget=1500, validate=6, net=N.huang(), nodes=[5, 7], k=3, kinds=("obs", "virt"), const=(1, 2, 3, 4, 6)))
        for f in OPS:
            for g in OPS:
                T.append(Task("t.two.%s.%s" % (f, g), run, budget=1500, validate=10, net=two, k=3, nodes=[3, 1], first=[f, g]))
                T.append(Task("t.coll.%s.%s" % (f, g), run, budget=1500, validate=10, net=coll, k=3, nodes=[2, 0], first=[f, g], check_each=False))
        for a in ("obs", "virt", "set"):
            for b in ("obs", "virt", "set"):
                T.append(Task("t.four.%s.%s" % (a, b), run, budget=1500, validate=10, net=N.chain(2), k=4, nodes=[1, 0], first=[a, b],
                              ops=("obs", "virt", "set", "unobs", "all"), check_each=False))
    return T
