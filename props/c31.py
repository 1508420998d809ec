"""C31: a deep copy is faithful and independent."""
import copy

from symex.explore import Task
from pybbn.graph.dag import Bbn, Dag
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.graph import Ug
from pybbn.graph.node import BbnNode
from pybbn.graph.pdag import Pdag
from pybbn.graph.variable import Variable
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N
from props import structure as S
from props.c01 import NAMED
from props.c15 import D, U
from props.c16 import Views, agree, mk, operate
from props.c27 import shape

BOUNDS = ("deep copies of every graph on 3 nodes (4 for some) of each kind, followed by 2 operations (3 in thorough) on the original or the copy in any interleaving; deep copies of networks of 1-8 nodes before and "
          "after inference, followed by changes of CPTs, names or values of either; copies of copies; copies of nodes, variables and edges alone; ids and CPTs symbolic")
OUTSIDE = "larger graphs; shallow copies (they share by definition); join trees (C27)"


def clone(m):
    x = Views(m.n, m.cls)
    x.present, x.d, x.u = list(m.present), set(m.d), set(m.u)
    return x


def graphs(ctx, cls, n, steps, kinds, ids=None, bits=None, again=False):
    idl = S.id_list(ctx, ids, n)
    nodes = mk(cls, ctx, idl)
    g, m = cls(), Views(n, cls)
    if ctx.flag("all"):
        for k in range(n):
            g.add_node(nodes[k])
            m.present.append(k)
    for a, b in S.flags(ctx, n, bits):
        kind = kinds[(a + b) % len(kinds)]
        g.add_edge(Edge(nodes[a], nodes[b], kind))
        m.accept(a, b, kind)
    gs = [(g, m, nodes), (copy.deepcopy(g), clone(m), None)]
    if again:
        gs.append((copy.deepcopy(gs[1][0]), clone(m), None))
    # nodes of the copy are its own; operations on it use those (or new ones for ids it does not have)
    full = []
    for g, m, ns in gs:
        if ns is None:
            fresh = mk(cls, ctx, idl)
            ns = [next((x for x in g.get_nodes() if x.id == i), fresh[k]) for k, i in enumerate(idl)]
            ctx.check(not any(x is y for x in g.get_nodes() for y in nodes), "own.nodes", "the copy holds a node of the original")
            for e in g.get_edges():
                ctx.check(any(e.i is x for x in g.get_nodes()) and any(e.j is x for x in g.get_nodes()), "own.ends", "an edge of the copy ends in foreign nodes")
        ctx.check(type(g) is cls, "type", "a copy of type %s" % type(g).__name__)
        agree(ctx, g, m, idl)
        full.append((g, m, ns))
    for s in range(steps):
        k = ctx.choose("which%d" % s, len(full))
        operate(ctx, full[k][0], full[k][1], full[k][2], idl, "s%d." % s, kinds, True, nodes_too=False)
        for g, m, _ in full:
            agree(ctx, g, m, idl)


def networks(ctx, net, target, const=(), remove=None):
    pr = N.cpts(ctx, net, const=const)
    bbn = N.build(net, pr)
    if ctx.flag("used"):
        InferenceController.apply(bbn)
    other = copy.deepcopy(bbn)
    if ctx.flag("twice"):
        other = copy.deepcopy(other)
    ctx.check(shape(other) == shape(bbn), "faithful", "%s, copied %s" % (shape(bbn), shape(other)))
    for i in net.cards:
        a, b = bbn.get_node(i), other.get_node(i)
        ctx.check(len(a.probs) == len(b.probs), "faithful", "CPT of %s" % i)
        for x, y in zip(a.probs, b.probs):
            ctx.check_eq(x, y, "faithful", "CPT of %s" % i)
    pair = [bbn, other]
    k = ctx.choose("changed", 2)
    changed, kept = pair[k], pair[1 - k]
    before = shape(kept)
    what = ("probs", "row", "values", "name", "remove")[ctx.choose("what", 5 if remove is not None else 4)]
    new = N.cpts(ctx, net, prefix="q", const=[i for i in net.cards if i != target])
    pr2 = dict(pr)
    node = changed.get_node(target)
    if what == "probs":
        node.probs = list(new[target])
        pr2[target] = new[target]
    elif what == "row":
        c = net.cards[target]
        node.probs[:c] = list(new[target][:c])
        pr2[target] = list(new[target][:c]) + list(pr[target][c:])
    elif what == "values":
        node.variable.values[0] = "renamed"
    elif what == "name":
        node.variable.name = "renamed"
    else:
        changed.remove_node(remove)
    ctx.check(shape(kept) == before, "independent", "%s became %s" % (before, shape(kept)))
    js = N.joints(net, pr)
    N.check_posteriors(ctx, net, js, InferenceController.apply(kept), None, "kept")
    if what in ("probs", "row"):
        N.check_posteriors(ctx, net, N.joints(net, pr2), InferenceController.apply(changed), None, "changed")
    elif what == "remove":
        rest = N.Net({i: c for i, c in net.cards.items() if i != remove}, [e for e in net.edges if remove not in e], node_order=[i for i in net.order if i != remove])
        N.check_posteriors(ctx, rest, N.joints(rest, pr), InferenceController.apply(changed), None, "changed")


def parts(ctx, card):
    """Nodes, variables and edges on their own."""
    i, j = ctx.int("i"), ctx.int("j")
    ctx.assume(i != j)
    row = ctx.row("p", card)
    v = Variable(i, "v", N.value_names(0, card))
    nd = BbnNode(v, list(row))
    nd.add_metadata("note", ["a"])
    other = BbnNode(Variable(j, "w", ["x", "y"]), [0.5, 0.5])
    e = Edge(nd, other, D if ctx.flag("directed") else U)
    what = ctx.choose("what", 3)
    if what == 0:
        c = copy.deepcopy(v)
        ctx.check(c is not v and c.id == i and c.name == "v" and c.values == N.value_names(0, card), "variable", "copy %s" % c)
        c.values.append("more")
        ctx.check(v.values == N.value_names(0, card), "variable", "the original's values changed")
        v.name = "other"
        ctx.check(c.name == "v", "variable", "the copy's name changed")
    elif what == 1:
        c = copy.deepcopy(nd)
        ctx.check(c is not nd and c.variable is not v and c.id == i and c.variable.id == i and c.get_weight() == card and c.metadata == {"note": ["a"]}, "node", "copy %s" % c)
        c.metadata["note"].append("b")
        c.add_metadata("k", 1)
        c.probs[0] = 0.25
        c.variable.values[0] = "changed"
        ctx.check(nd.metadata == {"note": ["a"]} and v.values == N.value_names(0, card), "node", "the original changed")
        for x, y in zip(nd.probs, row):
            ctx.check_eq(x, y, "node", "probabilities of the original")
        for x, y in list(zip(c.probs, row))[1:]:
            ctx.check_eq(x, y, "node", "probabilities of the copy")
    else:
        c = copy.deepcopy(e)
        ctx.check(c is not e and c.i is not nd and c.j is not other and c.type is e.type and c.i.id == i and c.j.id == j and c.key == e.key, "edge", "copy %s" % c)
        c.i.variable.name = "changed"
        ctx.check(nd.variable.name == "v", "edge", "the original's end changed")


def tasks(tier):
    T = []
    ids3 = [12, 0, 7]
    K = {"ug": (Ug, (U,)), "dag": (Dag, (D,)), "pdag": (Pdag, (D, U)), "bbn": (Bbn, (D,))}
    for k, (cls, kinds) in K.items():
        T.append(Task(k + ".hist", graphs, budget=100, cls=cls, n=3, steps=2 if len(kinds) == 1 else 1, kinds=kinds, ids=ids3))
        T.append(Task(k + ".sym", graphs, budget=100, cls=cls, n=3, steps=1, kinds=kinds, ids="sorted"))
        T.append(Task(k + ".again", graphs, budget=100, cls=cls, n=3, steps=1, kinds=kinds, ids=ids3, again=True))
        T.append(Task(k + ".four", graphs, budget=100, cls=cls, n=4, steps=1, kinds=kinds, ids=[12, 0, 7, 101]))
    dia = N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (0, 2), (2, 3), (1, 3)])
    T.append(Task("net.diamond", networks, budget=90, net=dia, target=3, remove=3, const=(0,)))
    T.append(Task("net.collider", networks, budget=90, net=NAMED["collider.unsorted"], target=2, remove=2, const=(0, 3)))
    T.append(Task("net.root", networks, budget=90, net=N.chain(3), target=0, remove=2))
    T.append(Task("net.forest", networks, budget=90, net=NAMED["forest"], target=1, remove=2, const=(0, 3)))
    T.append(Task("net.huang", networks, budget=90, net=N.huang(), target=5, remove=5, const=(1, 2, 3, 4, 6)))
    T.append(Task("net.single", networks, budget=30, net=NAMED["single"], target=7))
    T.append(Task("parts", parts, budget=30, card=3))
    if tier == "thorough":
        for k, (cls, kinds) in K.items():
            T.append(Task("t.%s.hist" % k, graphs, budget=2500, cls=cls, n=3, steps=3, kinds=kinds, ids=ids3))
            T.append(Task("t.%s.sym" % k, graphs, budget=2500, cls=cls, n=3, steps=2, kinds=kinds, ids="sorted"))
            T.append(Task("t.%s.again" % k, graphs, budget=2500, cls=cls, n=3, steps=2, kinds=kinds, ids=ids3, again=True))
    return T
