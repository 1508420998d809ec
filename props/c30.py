"""C30: what a join tree says about its nodes, cliques and separators is what the network says."""
import copy
import json
from collections import Counter

from symex.explore import Task
from pybbn.graph.jointree import JoinTree
from pybbn.pptc.inferencecontroller import InferenceController
from props import common as N
from props import structure as S
from props.c01 import NAMED
from props.c06 import build as build_ids

BOUNDS = ("join trees that were built, reapplied, restored from a dictionary or JSON, or deep-copied; every DAG on 3 nodes with symbolic ids, every DAG on 4 nodes and id pattern, "
          "named networks up to 9 nodes; CPTs symbolic where potentials are read")
OUTSIDE = "larger networks; ids that are not integers"

HOW = ("built", "reapplied", "dict", "json", "copied", "copied.twice")


def tree(ctx, net, bbn, pr, how):
    jt = InferenceController.apply(bbn)
    if how == "reapplied":
        jt = InferenceController.reapply(jt, {})
    elif how == "dict":
        jt = InferenceController.apply_from_serde(JoinTree.from_dict(JoinTree.to_dict(jt, bbn)))
    elif how == "json":
        jt = InferenceController.apply_from_serde(JoinTree.from_dict(json.loads(json.dumps(JoinTree.to_dict(jt, bbn)))))
    elif how.startswith("copied"):
        jt = copy.deepcopy(jt)
        if how == "copied.twice":
            jt = copy.deepcopy(jt)
    return jt


def lookups(ctx, net, jt, ids):
    """ids: {node of the description: id}."""
    keys = sorted(net.cards)

    def key_of(i):
        for k in keys:
            if ids[k] == i:
                return k
        return None
    nodes = list(jt.get_bbn_nodes())
    ctx.check(sorted(str(key_of(n.id)) for n in nodes) == sorted(str(k) for k in keys), "nodes", "nodes %s" % [str(n.id) for n in nodes])
    for k in keys:
        n = jt.get_bbn_node(ids[k])
        ctx.check(n is not None and n.id == ids[k] and n.variable.name == net.name(k), "by.id", "node with id of %s: %r" % (k, n))
        m = jt.get_bbn_node_by_name(net.name(k))
        ctx.check(m is not None and m.id == ids[k], "by.name", "node called %s: %r" % (net.name(k), m))
    ctx.check(jt.get_bbn_node_by_name("nobody") is None, "by.name", "a node called nobody")
    nap = jt.get_bbn_node_and_parents()
    got = {key_of(n.id): [key_of(p.id) for p in ps] for n, ps in nap.items()}
    ctx.check(got == {k: list(net.pa[k]) for k in keys}, "parents", "parents %s" % got)

    cliques, seps = list(jt.get_cliques()), list(jt.get_sep_sets())
    everything = list(jt.get_nodes())
    ctx.check(len(everything) == len(cliques) + len(seps) and all(any(x is y for y in cliques + seps) for x in everything), "partition", "cliques and separators")
    mem = {id(c): frozenset(key_of(n.id) for n in c.nodes) for c in everything}
    ctx.check(all(len(mem[id(c)]) == len(c.nodes) for c in everything), "members", "a node twice in a clique")
    for c in cliques:
        ctx.check(frozenset(key_of(i) for i in c.get_node_ids()) == mem[id(c)] and len(c.get_node_ids()) == len(c.nodes), "members", "node ids of %s" % c.id)
        for k in keys:
            ctx.check(bool(c.contains(ids[k])) == (k in mem[id(c)]), "contains", "%s contains %s" % (c.id, k))
        w = 1
        for k in mem[id(c)]:
            w *= net.cards[k]
        ctx.check(c.get_weight() == w, "weight", "weight of %s: %s" % (c.id, c.get_weight()))
    for s in seps:
        ctx.check(frozenset(key_of(i) for i in s.get_node_ids()) == mem[id(s)] and len(s.get_node_ids()) == len(s.nodes), "members", "node ids of %s" % s.id)
        ctx.check(all(bool(s.contains(ids[k])) == (k in mem[id(s)]) for k in keys), "contains", "separator %s" % s.id)
        for c in cliques:
            ctx.check(bool(c.is_superset(s)) == (mem[id(c)] >= mem[id(s)]) and bool(s.is_superset(c)) == (mem[id(s)] >= mem[id(c)]), "superset", "%s and separator %s" % (c.id, s.id))
    for c in cliques:
        for d in cliques:
            ctx.check(bool(c.is_superset(d)) == (mem[id(c)] >= mem[id(d)]), "superset", "%s and %s" % (c.id, d.id))
            some, lhs, rhs, both = c.intersects(d)
            ctx.check(bool(some) == bool(mem[id(c)] & mem[id(d)]), "intersects", "%s and %s" % (c.id, d.id))
            ctx.check(frozenset(key_of(i) for i in both) == mem[id(c)] & mem[id(d)], "intersects", "%s and %s: %s" % (c.id, d.id, both))
            ctx.check(frozenset(key_of(i) for i in lhs) == mem[id(c)] and frozenset(key_of(i) for i in rhs) == mem[id(d)], "intersects", "sides")
            s = c.get_sep_set(d)
            ctx.check(frozenset(key_of(n.id) for n in s.nodes) == mem[id(c)] & mem[id(d)] and bool(s.is_empty) == (not some), "sepset", "%s and %s" % (c.id, d.id))
            ctx.check(s.get_mass() == len(mem[id(c)] & mem[id(d)]) and s.get_cost() == c.get_weight() + d.get_weight(), "sepset", "mass and cost")
    for k in keys:
        fam = frozenset([k] + list(net.pa[k]))
        found = jt.find_cliques_with_node_and_parents(ids[k])
        ctx.check(len(found) > 0, "family", "no clique holds the family of %s" % k)
        ctx.check(Counter(id(c) for c in found) == Counter(id(c) for c in cliques if mem[id(c)] >= fam), "family", "cliques with the family of %s" % k)
    # the links: each edge joins two cliques over its separator
    edges = list(jt.get_edges())
    ctx.check(len(edges) == len(seps), "links", "%d edges, %d separators" % (len(edges), len(seps)))
    touching = {id(c): set() for c in everything}
    for e in edges:
        s = e.sep_set
        ctx.check(any(s is x for x in seps) and any(s.left is c for c in cliques) and any(s.right is c for c in cliques), "links", "separator %s" % s.id)
        ctx.check({id(e.i), id(e.j)} == {id(s.left), id(s.right)}, "links", "ends of %s" % s.id)
        ctx.check(mem[id(s)] == mem[id(s.left)] & mem[id(s.right)], "links", "separator %s" % s.id)
        for c in (s.left, s.right):
            touching[id(c)].add(s.id)
            touching[id(s)].add(c.id)
    for x in everything:
        ctx.check(set(jt.get_neighbors(x.id)) == touching[id(x)], "neighbors", "neighbours of %s" % x.id)
        ctx.check(jt.get_node(x.id) is x, "by.id", "node %s" % x.id)
    flat = Counter((id(f.i), id(f.j)) for f in jt.get_flattened_edges())
    want = Counter()
    for e in edges:
        want[(id(e.sep_set.left), id(e.sep_set))] += 1
        want[(id(e.sep_set.right), id(e.sep_set))] += 1
    ctx.check(Counter(frozenset(k) for k in flat.elements()) == Counter(frozenset(k) for k in want.elements()), "flattened", "flattened edges")


def run(ctx, net, ids=None, how=None, const=()):
    keys = list(net.cards)
    if isinstance(ids, str):
        idl = S.id_list(ctx, ids, len(keys))
    elif ids and isinstance(ids[0], (list, tuple)):
        idl = ids[ctx.choose("ids", len(ids))]
    else:
        idl = list(ids or keys)
    ids = dict(zip(keys, idl))
    how = how or HOW
    how = how[ctx.choose("how", len(how))]
    pr = N.cpts(ctx, net, const=const)
    jt = tree(ctx, net, build_ids(net, pr, ids, net.order, net.edges), pr, how)
    lookups(ctx, net, jt, ids)
    js = N.joints(net, pr)
    for i in sorted(net.cards):
        nums, den = N.spec_posterior(js, i)
        pot = jt.get_bbn_potential(jt.get_bbn_node(ids[i]))
        got = {}
        for e in pot.entries:
            ctx.check(list(e.entries) == [ids[i]], "potential", "variables of the potential of %s" % i)
            got[e.entries[ids[i]]] = e.value
        ctx.check(set(got) == set(net.values(i)) and len(pot.entries) == net.cards[i], "potential", "rows of %s" % i)
        for k, v in enumerate(net.values(i)):
            ctx.check_eq(got[v], nums[k], "potential", "P(%s=%s)" % (i, v))


def family(ctx, n, cards, ids, bits=None, flip=False, perm=False, **kw):
    order, edges = N.all_dags(ctx, n, cards, list(range(n)), perm, bits)
    if flip:
        edges = edges[::-1]
    net = N.Net({i: c for i, c in zip(sorted(order), cards)}, edges, node_order=order)
    run(ctx, net, ids=ids, const=list(range(n)), **kw)


def tasks(tier):
    T = []
    for k, h in enumerate(HOW[:4]):
        if h in ("dict", "json"):
            ids = [[12, 3, 7], [0, 2, 1], [-1, 11, 1]]
        else:
            ids = "sym"
        T.append(Task("all3.%s" % h, family, budget=90, n=3, cards=(2, 3, 2), ids=ids, how=(h,), flip=bool(k % 2)))
    T.append(Task("all3.copies", family, budget=90, n=3, cards=(2, 3, 2), ids="sorted", how=HOW[4:], flip=True))
    pats = [[2, 13, 3, 1], [0, 1, 2, 3], [30, 20, 10, -1], [1, 11, 111, 12]]
    for b in range(4):
        T.append(Task("all4.%d" % b, family, budget=120, n=4, cards=(2, 3, 2, 2), ids=pats, bits=[bool(b & 1), bool(b & 2)], flip=bool(b & 1)))
    for k in ("huang", "asia", "cycle5", "forest", "forest3", "mixed", "twodigit", "star", "instar", "single"):
        net = NAMED[k] if k in NAMED else N.huang()
        T.append(Task(k, run, budget=90, net=net, const=sorted(net.cards)[::2] if len(net.cards) < 7 else sorted(net.cards)[1:]))
    T.append(Task("alike", run, budget=90, net=N.ALIKE, ids=[[3, 1, 7, 2, 12], [1, 3, 2, 7, 0]], const=(1, 2, 12)))
    if tier == "thorough":
        for b in range(8):
            T.append(Task("t.all5.%d" % b, family, budget=2500, n=5, cards=(2, 3, 2, 2, 2), ids=[[2, 13, 3, 1, 0], [5, 4, 3, 2, 1]], bits=[bool(b & 1), bool(b & 2), bool(b & 4)], how=HOW[:4]))
            T.append(Task("t.all4.%d" % b, family, budget=2500, n=4, cards=(2, 3, 2, 2), ids="sym", bits=[bool(b & 1), bool(b & 2), bool(b & 4)], how=("built", "reapplied", "copied")))
    return T
