"""C29: reading never changes what is read."""
import copy
import os

from symex.explore import Task
from pybbn.causality import do as DO
from pybbn.generator.bbngenerator import convert_for_drawing
from pybbn.graph.dag import Bbn
from pybbn.graph.jointree import JoinTree
from pybbn.pptc.inferencecontroller import InferenceController
from pybbn.pptc.moralizer import Moralizer
from pybbn.pptc.triangulator import Triangulator
from props import common as N
from props.c01 import NAMED
from props.c27 import shape
from props.roundtrip import scratch

BOUNDS = ("every pair of reads (a read repeated, or two different ones) out of 30, on named networks of 1-8 nodes and every DAG on 3 nodes, on join trees with and without evidence in force; CPTs symbolic")
OUTSIDE = "larger networks; longer series of reads; results changed in place by the caller; sampling (C19), average causal effects (C24), Gaussian inference (C23)"


def through_file(write):
    def read(bbn):
        path = scratch("read.out")
        write(bbn, path)
        try:
            with open(path) as f:
                return f.read()
        finally:
            os.unlink(path)
    return read


def pot(p):
    return [(sorted(e.entries.items()), e.value) for e in p.entries]


def each(f):
    return lambda b: [f(b, n.id) for n in b.get_nodes()]


def plain(x):
    """Results of the causal queries in a comparable form."""
    if isinstance(x, dict):
        return sorted((str(k), plain(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def causal(f):
    def read(bbn):
        g = bbn.to_nx_graph()[0]
        cg = DO.get_graph(g)
        before = (list(g.nodes), list(g.edges))
        ns = list(g.nodes)
        out = [plain(f(cg, ns[0], y)) for y in ns[1:]]
        again = [plain(f(cg, ns[0], y)) for y in ns[1:]]
        return [out == again, (list(g.nodes), list(g.edges)) == before, out]
    return read


def moral(b):
    ug = Moralizer.moralize(b)
    return sorted(n.id for n in ug.get_nodes()), sorted(sorted((e.i.id, e.j.id)) for e in ug.get_edges())


def cliques(b):
    return sorted(sorted(n.id for n in c.nodes) for c in Triangulator.triangulate(Moralizer.moralize(b)))


NET = {
    "to_dict": lambda b: Bbn.to_dict(b), "to_json": through_file(Bbn.to_json), "to_csv": through_file(Bbn.to_csv), "to_dne": lambda b: Bbn.to_dne(b),
    "str": str, "parents": each(lambda b, i: sorted(b.get_parents(i))), "children": each(lambda b, i: sorted(b.get_children(i))),
    "ordered": each(lambda b, i: list(b.get_parents_ordered(i))), "neighbors": each(lambda b, i: sorted(b.get_neighbors(i))),
    "exists": each(lambda b, i: [b.edge_exists(i, n.id) for n in b.get_nodes()] + [b.edge_exists(i, -77), b.edge_exists(-77, i)]),
    "names": lambda b: (b.get_n2i(), b.get_i2n()),
    "networkx": lambda b: (list(b.to_nx_graph()[0].nodes), list(b.to_nx_graph()[0].edges), b.to_nx_graph()[1]),
    "moral": moral, "cliques": cliques, "drawing": lambda b: (list(convert_for_drawing(b).nodes), list(convert_for_drawing(b).edges)),
    "copy": lambda b: shape(copy.copy(b)), "deepcopy": lambda b: shape(copy.deepcopy(b)),
    "paths": causal(DO.get_paths), "confounders": causal(DO.get_all_confounders), "minimal": causal(DO.get_minimal_confounders), "mediators": causal(DO.get_minimal_mediators),
}


def nid(n):
    return n.id


TREE = {
    "posteriors": lambda jt, b: sorted((k, sorted(v.items())) for k, v in jt.get_posteriors().items()),
    "potential": lambda jt, b: [(n.id, pot(jt.get_bbn_potential(n))) for n in jt.get_bbn_nodes()],
    "lookup": lambda jt, b: [(n.id, jt.get_bbn_node(n.id) is n, jt.get_bbn_node_by_name(n.variable.name) is n, jt.get_bbn_node_by_name("nobody")) for n in jt.get_bbn_nodes()],
    "parents": lambda jt, b: sorted((n.id, [p.id for p in ps]) for n, ps in jt.get_bbn_node_and_parents().items()),
    "family": lambda jt, b: [(n.id, sorted(c.id for c in jt.find_cliques_with_node_and_parents(n.id))) for n in jt.get_bbn_nodes()],
    "cliques": lambda jt, b: [(c.id, c.get_weight(), sorted(c.get_node_ids()), [sorted(c.intersects(d)[3]) for d in jt.get_cliques()], [nid(c.get_sep_set(d)) for d in jt.get_cliques()])
                              for c in jt.get_cliques()] + [(s.id, s.get_mass(), s.get_cost()) for s in jt.get_sep_sets()],
    "links": lambda jt, b: [sorted((x.id, sorted(jt.get_neighbors(x.id))) for x in jt.get_nodes()), sorted(str(e) for e in jt.get_flattened_edges())],
    "to_dict": lambda jt, b: skeleton(JoinTree.to_dict(jt, b)),
    "unobserved": lambda jt, b: [(n.id, dict(jt.get_unobserved_evidence(n).values)) for n in jt.get_bbn_nodes()],
    "change": lambda jt, b: [str(jt.get_change_type([jt.get_unobserved_evidence(n)])) for n in jt.get_bbn_nodes()],
    "deepcopy": lambda jt, b: skeleton(JoinTree.to_dict(copy.deepcopy(jt), b)),
}


def skeleton(d):
    return (sorted((str(k), list(v["probs"]), v["variable"]) for k, v in d["bbn_nodes"].items()), d["jt"]["nodes"], d["jt"]["edges"], d["jt"]["parent_info"])


def same(ctx, a, b, label, detail):
    """Structural equality with symbolic leaves."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        ctx.check(len(a) == len(b), label, "%s: lengths %d and %d" % (detail, len(a), len(b)))
        for x, y in zip(a, b):
            same(ctx, x, y, label, detail)
    elif isinstance(a, dict) and isinstance(b, dict):
        ctx.check(set(a) == set(b), label, "%s: keys %s and %s" % (detail, sorted(map(str, a)), sorted(map(str, b))))
        for k in a:
            same(ctx, a[k], b[k], label, detail)
    elif isinstance(a, (str, bool)) or a is None or isinstance(b, (str, bool)) or b is None:
        ctx.check(a == b, label, "%s: %.80s and %.80s" % (detail, a, b))
    elif a is not b:
        ctx.check_eq(a, b, label, detail)


def state(jt):
    """All a later operation can depend on."""
    return (sorted((k, pot(p)) for k, p in jt.potentials.items()),
            sorted((i, sorted((v, pot(p)) for v, p in m.items())) for i, m in jt.evidences.items()),
            [x.id for x in jt.get_nodes()], sorted((str(k), list(v)) for k, v in jt.parent_info.items() if v))


def run(ctx, net, on, const=(), two=False, used=None):
    pr = N.cpts(ctx, net, const=const)
    bbn = N.build(net, pr)
    js = N.joints(net, pr)
    use = ctx.choose("used", 3) if used is None else used
    jt = InferenceController.apply(bbn) if use else None
    lik = {}
    if use == 2:
        e, w = N.make_evidence(ctx, jt, net, on, "virt", "ev")
        lik = {on: w}
        N.feasible(ctx, js, lik)
        jt.update_evidences([e])
    menu = [("net", k) for k in NET] + ([("tree", k) for k in TREE] if jt is not None else [])

    def read(m):
        return NET[m[1]](bbn) if m[0] == "net" else TREE[m[1]](jt, bbn)
    before = (shape(bbn), bbn.to_dict(bbn)["nodes"], state(jt) if jt else None)
    a = menu[ctx.choose("read", len(menu))]
    first = read(a)
    if a[1] in ("paths", "confounders", "minimal", "mediators") and a[0] == "net":
        ctx.check(first[0] is True and first[1] is True, "argument", "%s changes the graph it is given" % a[1])
    if two:
        b = menu[ctx.choose("other", len(menu))]
        read(b)
    same(ctx, first, read(a), "repeat", "%s read again" % (a,))
    same(ctx, before, (shape(bbn), bbn.to_dict(bbn)["nodes"], state(jt) if jt else None), "state", "after reading %s" % (a,))
    if jt is None:
        N.check_posteriors(ctx, net, js, InferenceController.apply(bbn), None, "later.built")
        return
    N.check_posteriors(ctx, net, js, jt, lik, "later")
    jt.update_evidences([jt.get_unobserved_evidence(jt.get_bbn_node(on))])
    N.check_posteriors(ctx, net, js, jt, None, "later.retracted")


def family(ctx, n, cards, ids, bits=None, **kw):
    order, edges = N.all_dags(ctx, n, cards, ids, False, bits)
    net = N.Net({i: c for i, c in zip(sorted(order), cards)}, edges, node_order=order)
    run(ctx, net, on=order[-1], **kw)


def tasks(tier):
    dia = N.Net({0: 2, 1: 2, 2: 2, 3: 2}, [(0, 1), (0, 2), (2, 3), (1, 3)])
    T = [
        Task("pairs.0", run, budget=120, net=N.Net({3: 2, 1: 2}, [(3, 1)]), on=1, two=True, const=(3,), used=0),
        Task("pairs.1", run, budget=120, net=N.Net({3: 2, 1: 2}, [(3, 1)]), on=1, two=True, const=(3,), used=1),
        Task("pairs.2", run, budget=120, net=N.Net({3: 2, 1: 2}, [(3, 1)]), on=1, two=True, const=(3, 1), used=2),
        Task("diamond", run, budget=90, net=dia, on=3, const=(0, 1)),
        Task("collider.unsorted", run, budget=90, net=NAMED["collider.unsorted"], on=2, const=(2, 1)),
        Task("forest", run, budget=90, net=NAMED["forest"], on=4, const=(0, 1, 3)),
        Task("mixed", run, budget=90, net=NAMED["mixed"], on=2, const=(2, 1)),
        Task("huang", run, budget=90, net=N.huang(), on=5, const=(0, 1, 2, 4, 5, 6, 7)),
        Task("cycle5", run, budget=90, net=NAMED["cycle5"], on=4, const=(0, 1, 2)),
        Task("single", run, budget=30, net=N.Net({7: 2}, []), on=7),
    ]
    for b in range(2):
        T.append(Task("all3.%d" % b, family, budget=90, n=3, cards=(2, 2, 2), ids=[12, 3, 7], bits=[bool(b)], const=(3,)))
    if tier == "thorough":
        T.append(Task("t.diamond.pairs", run, budget=2500, net=dia, on=3, two=True, const=(0,)))
        T.append(Task("t.mixed.pairs", run, budget=2500, net=NAMED["mixed"], on=2, two=True, const=(1, 2)))
        for b in range(8):
            T.append(Task("t.all3.%d" % b, family, budget=2500, n=3, cards=(2, 3, 2), ids=[12, 3, 7], bits=[bool(b & 1), bool(b & 2), bool(b & 4)], two=True, const=(12,)))
            T.append(Task("t.all4.%d" % b, family, budget=2500, n=4, cards=(2, 2, 2, 2), ids=[12, 3, 7, 0], bits=[bool(b & 1), bool(b & 2), bool(b & 4)], const=(12, 7)))
    return T
