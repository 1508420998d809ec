"""C20: the generator's networks, for every outcome of the random draws."""
import json
import os
import shutil

import networkx as nx
import numpy as np
import scipy.stats

from symex.explore import Task
from pybbn.generator import bbngenerator as G
from pybbn.graph.dag import Bbn
from props import structure as S
from props.roundtrip import scratch

BOUNDS = ("given draws of nodes with 7-12 nodes, up to 7 parents and 13 values; otherwise every draw with 2-5 nodes (1 with no iterations), up to 4 iterations (n=3) / 3 (n=4) / 2 (n=5), a node pair drawn again at most once when both are equal; every draw of nodes, of directions, "
          "of numbers of values up to 4 and every Dirichlet outcome with positive entries; maximum alpha up to 10 unbranched")
OUTSIDE = "the distribution of the generated networks; larger networks; one node with iterations (drawing a pair of distinct nodes does not end)"
ASSUMPTIONS = ["np.random.randint/random/choice and scipy's dirichlet.rvs return arbitrary values of their documented range (Dirichlet rows: positive, sum 1)"]


class Random:
    """Every outcome of numpy's draws; `n`: draws in range(n) are node indices."""

    def __init__(self, ctx, n, split=None, plain=False, sizes=None):
        self.ctx = ctx
        self.sizes = list(sizes or [])
        self.plain = plain
        self.rows = 0
        self.n = n
        self.k = 0
        self.last = []
        self.alphas = []
        self.split = list(split or [])
        self.tape = None
        self.pos = 0

    def rewind(self):
        self.pos = 0

    def name(self, what):
        self.k += 1
        return "%s%d" % (what, self.k)

    def draw(self, what, *a):
        """Values drawn before are repeated after rewind()."""
        if self.tape is None:
            self.tape = []
        if self.pos < len(self.tape):
            v = self.tape[self.pos]
        else:
            v = getattr(self, "new_" + what)(*a)
            self.tape.append(v)
        self.pos += 1
        return v

    def new_int(self, low, high):
        ctx = self.ctx
        if high <= low:
            raise ValueError("low >= high")
        if high == low + 1:
            return int(low)
        if low != 0:
            return ctx.lazy_int(self.name("i"), int(low), int(high) - 1)
        if high == self.n and self.split:
            v = self.split.pop(0)
        elif high != self.n and self.sizes:
            v = min(self.sizes.pop(0), int(high) - 1)
        else:
            v = ctx.choose(self.name("i"), int(high))
        if high == self.n:
            self.last = (self.last + [v])[-3:]
            if len(self.last) == 3 and len(set(self.last)) == 1:
                ctx.infeasible()
        return v

    def new_real(self):
        return self.ctx.real(self.name("u"), 0, 1, hi_open=True)

    def new_row(self, alphas):
        ctx = self.ctx
        for a in alphas:
            ctx.check(a > 0, "alpha", "a Dirichlet parameter that is not positive")
        if self.plain:  # rows that all differ
            self.rows += 1
            w = [self.rows * (j + 1) % 61 + 1 for j in range(len(alphas))]
            return [x / sum(w) for x in w]
        return ctx.row(self.name("d"), len(alphas))

    # numpy's interface
    def fill(self, size, f):
        if size is None:
            return f()
        size = (int(size),) if hasattr(size, "__index__") else tuple(int(x) for x in size)
        n = int(np.prod(size))
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = f()
        return out.reshape(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self.fill(size, lambda: self.draw("int", low, high))

    integers = randint

    def random(self, size=None):
        return self.fill(size, lambda: self.draw("real"))

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.fill(size, lambda: low + (high - low) * self.draw("real"))

    def rand(self, *dims):
        return self.random(dims or None)

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return a[self.draw("int", 0, len(a))]
        out = []
        for _ in range(int(size)):
            v = a[self.draw("int", 0, len(a))]
            if not replace:
                a = [x for x in a if x != v]
            out.append(v)
        return np.array(out)

    def permutation(self, x):
        a = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        return self.choice(a, len(a), replace=False)

    def dirichlet(self, alpha, size=None):
        if size is None:
            return np.array(self.draw("row", list(alpha)))
        return np.array([self.draw("row", list(alpha)) for _ in range(int(size))])

    def rvs(self, alpha, size=1, random_state=None):
        return self.dirichlet(alpha, size or 1)

    def seed(self, *a):
        pass


CUR = [None]
NAMES = ("randint", "random", "random_sample", "uniform", "rand", "choice", "permutation", "dirichlet", "seed")


def install(ctx):
    def call(name):
        return lambda *a, **k: getattr(CUR[0], name)(*a, **k)
    return [(np.random, n, call(n)) for n in NAMES] + [(scipy.stats.dirichlet, "rvs", call("rvs"))]


def check_graph(ctx, g, n, singly):
    ctx.check(sorted(g.nodes) == list(range(n)), "nodes", "nodes %s" % list(g.nodes))
    es = [tuple(e) for e in g.edges]
    ctx.check(len({frozenset(e) for e in es}) == len(es) and all(a != b for a, b in es), "edges", "edges %s" % es)
    ctx.check(not S.has_directed_cycle(n, es), "acyclic", "edges %s" % es)
    ctx.check(S.connected(range(n), S.und(es)), "connected", "edges %s" % es)
    if singly:
        ctx.check(len(es) == n - 1, "singly", "%d edges over %d nodes: %s" % (len(es), n, es))
    return es


def check_params(ctx, g, p, n, max_values):
    ctx.check(sorted(p) == list(range(n)), "parameters", "parameters of %s" % sorted(p))
    sizes = {i: int(p[i]["shape"][1]) for i in range(n)}
    for i in range(n):
        ctx.check(2 <= sizes[i] <= max(2, max_values), "values", "node %d has %d values" % (i, sizes[i]))
    for i in range(n):
        pas = list(p[i]["parents"])
        ctx.check(sorted(pas) == sorted(a for a, b in g.edges if b == i), "parents", "node %d records the parents %s" % (i, pas))
        rows = 1
        for a in pas:
            rows *= sizes[a]
        cpt = np.asarray(p[i]["params"], dtype=object)
        ctx.check([int(x) for x in p[i]["shape"]] == [rows, sizes[i]], "shape", "node %d records the shape %s" % (i, list(p[i]["shape"])))
        ctx.check(cpt.shape == (rows, sizes[i]), "shape", "node %d has a CPT of shape %s" % (i, cpt.shape))
        for r in range(rows):
            t = 0
            for x in cpt[r]:
                ctx.check(x >= 0, "row", "node %d" % i)
                t = t + x
            ctx.check_eq(t, 1.0, "row", "row %d of node %d" % (r, i))
    return sizes


def check_bbn(ctx, bbn, g, p, n, label):
    ctx.check(sorted(nd.id for nd in bbn.get_nodes()) == list(range(n)), label + ".nodes", "nodes %s" % [nd.id for nd in bbn.get_nodes()])
    ctx.check(sorted((e.i.id, e.j.id) for e in bbn.get_edges()) == sorted(tuple(e) for e in g.edges), label + ".edges",
              "edges %s for %s" % ([(e.i.id, e.j.id) for e in bbn.get_edges()], list(g.edges)))
    for i in range(n):
        nd = bbn.get_node(i)
        vals = list(nd.variable.values)
        ctx.check(len(vals) == len(set(vals)) == int(p[i]["shape"][1]), label + ".values", "node %d has the values %s" % (i, vals))
        pas = [e.i.id for e in bbn.get_edges() if e.j.id == i]
        ctx.check(pas == list(p[i]["parents"]), label + ".parents", "node %d: parents %s, parameters recorded for %s" % (i, pas, list(p[i]["parents"])))
        flat = [x for r in p[i]["params"] for x in r]
        ctx.check(len(nd.probs) == len(flat), label + ".cpt", "node %d has %d probabilities" % (i, len(nd.probs)))
        for k, (a, b) in enumerate(zip(nd.probs, flat)):
            ctx.check_eq(a, b, label + ".cpt", "probability %d of node %d" % (k, i))


def generate(ctx, kind, n, it, **kw):
    f = G.generate_singly_bbn if kind == "singly" else G.generate_multi_bbn
    return f(n, max_iter=it, **kw)


def run(ctx, kind, n, it, max_values=2, split=None, more=False, max_alpha=10, plain=False, sizes=None):
    CUR[0] = Random(ctx, n, split, plain, sizes)
    g, p = generate(ctx, kind, n, it, max_values=max_values, max_alpha=max_alpha)
    check_graph(ctx, g, n, kind == "singly")
    check_params(ctx, g, p, n, max_values)
    bbn = G.convert_for_exact_inference(g, p)
    check_bbn(ctx, bbn, g, p, n, "bbn")
    d = G.convert_for_drawing(bbn)
    ctx.check(sorted(d.nodes) == list(range(n)) and sorted(d.edges) == sorted(g.edges), "drawing", "nodes %s edges %s" % (list(d.nodes), list(d.edges)))
    ctx.check(isinstance(d, nx.DiGraph), "drawing", "a %s" % type(d))
    for pretty in (False, True):
        j = json.loads(G.to_json(g, p, pretty))
        ctx.check(sorted(j["nodes"]) == list(range(n)), "json", "nodes %s" % j["nodes"])
        ctx.check(sorted((e["pa"], e["ch"]) for e in j["edges"]) == sorted(g.edges), "json", "edges %s" % j["edges"])
        ctx.check(sorted(x["node"] for x in j["parameters"]) == list(range(n)), "json", "parameters of %s" % [x["node"] for x in j["parameters"]])
        for x in j["parameters"]:
            i = x["node"]
            ctx.check(list(x["shape"]) == [int(s) for s in p[i]["shape"]], "json", "shape %s of node %d" % (x["shape"], i))
            flat = [v for r in p[i]["params"] for v in r]
            ctx.check(len(x["params"]) == len(flat), "json", "%d parameters of node %d" % (len(x["params"]), i))
            for a, b in zip(x["params"], flat):
                ctx.check_eq(a, b, "json", "parameter of node %d" % i)
    if more:
        for ext in ("json", "csv"):
            path = scratch("c20." + ext)
            CUR[0].rewind()
            G.generate_bbn_to_file(n, path, bbn_type=kind, max_iter=it, max_values=max_values, max_alpha=max_alpha)
            back = Bbn.from_json(path) if ext == "json" else Bbn.from_csv(path)
            os.remove(path)
            check_bbn(ctx, back, g, p, n, "file." + ext)


def file(ctx, kind, n, it, max_values, max_alpha, to, plain=False, split=None):
    """What is in a generated file, for draws of its own."""
    CUR[0] = Random(ctx, n, split, plain)
    folder = scratch("c20.d")
    path = os.path.join(folder, to)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        G.generate_bbn_to_file(n, path, bbn_type=kind, max_iter=it, max_values=max_values, max_alpha=max_alpha)
        bbn = Bbn.from_csv(path) if to.endswith("csv") else Bbn.from_json(path)
    finally:
        shutil.rmtree(folder)
    es = [(e.i.id, e.j.id) for e in bbn.get_edges()]
    g = nx.DiGraph()
    g.add_nodes_from(nd.id for nd in bbn.get_nodes())
    g.add_edges_from(es)
    check_graph(ctx, g, n, kind == "singly")
    size = {i: len(bbn.get_node(i).variable.values) for i in range(n)}
    for i in range(n):
        nd = bbn.get_node(i)
        ctx.check(2 <= size[i] <= max(2, max_values), "file.values", "node %d has %d values, %d asked for at most" % (i, size[i], max_values))
        rows = 1
        for a, b in es:
            if b == i:
                rows *= size[a]
        ctx.check(len(nd.probs) == rows * size[i], "file.cpt", "node %d has %d probabilities" % (i, len(nd.probs)))
        for r in range(rows):
            t = 0
            for x in nd.probs[r * size[i]:(r + 1) * size[i]]:
                ctx.check(x >= 0, "file.row", "node %d" % i)
                t = t + x
            ctx.check_eq(t, 1.0, "file.row", "row %d of node %d" % (r, i))


def tasks(tier):
    T = []

    def add(name, **kw):
        T.append(Task(name, run, budget=kw.pop("budget", 90), shims=install, **kw))
    P = dict(max_values=1, max_alpha=1, plain=True)  # the structure is what varies
    for kind in ("singly", "multi"):
        add(kind + ".n1", kind=kind, n=1, it=0, max_values=4)
        add(kind + ".n2", kind=kind, n=2, it=2, max_values=3)
        add(kind + ".n3", kind=kind, n=3, it=1, max_values=3, max_alpha=2)
        add(kind + ".n3.3", kind=kind, n=3, it=3, **P)
        add(kind + ".n4.2", kind=kind, n=4, it=2, **P)
        add(kind + ".n5.2", kind=kind, n=5, it=2, **P)
        add(kind + ".n4.values", kind=kind, n=4, it=0, max_values=3, max_alpha=1)
        add(kind + ".n7.0", kind=kind, n=7, it=0, max_values=1)
        add(kind + ".file", kind=kind, n=3, it=1, more=True, max_values=1, max_alpha=3)
        add(kind + ".file4", kind=kind, n=4, it=1, more=True, **P)
        for nm in ("net.json", "net.csv", "csv/net.json", "json/net.csv", "net.csv.json"):
            T.append(Task("%s.path.%s" % (kind, nm), file, budget=60, shims=install, kind=kind, n=2, it=1, max_values=1, max_alpha=3, to=nm))
        T.append(Task(kind + ".path.wide", file, budget=60, shims=install, kind=kind, n=3, it=1, max_values=4, max_alpha=1, to="net.json", split=[0, 2]))
        # sizes at which texts of numbers no longer sort like the numbers, and many parents; the draws of nodes are given
        add(kind + ".values13", kind=kind, n=3, it=0, max_values=13, max_alpha=1, sizes=[12, 1, 11], more=True)
        add(kind + ".values13.first", kind=kind, n=2, it=0, max_values=13, max_alpha=1, sizes=[2, 12])
        add(kind + ".n12", kind=kind, n=12, it=2, split=[2, 10, 11, 0], max_values=1, max_alpha=1, more=True)
        add(kind + ".n11", kind=kind, n=11, it=1, max_values=1, max_alpha=1, plain=True)
    many = [0, 6, 1, 6, 2, 6, 3, 6, 4, 6]
    add("multi.parents6", kind="multi", n=7, it=5, split=many, max_values=1, max_alpha=1)
    add("multi.parents6.values", kind="multi", n=7, it=5, split=many, max_values=3, max_alpha=1, sizes=[2, 1, 2, 1, 1, 2, 1], plain=True)
    add("multi.parents7", kind="multi", n=8, it=6, split=[7 if i % 2 else i // 2 for i in range(12)], max_values=1, max_alpha=1, more=True)
    if tier == "thorough":
        for kind in ("singly", "multi"):
            for i in range(5):
                for j in range(5):
                    add("t.%s.n5.3.%d.%d" % (kind, i, j), kind=kind, n=5, it=3, split=[i, j], budget=1200, **P)
            add("t.%s.n7.2" % kind, kind=kind, n=7, it=2, budget=2500, **P)
            for i in range(4):
                add("t.%s.n4.3.%d" % (kind, i), kind=kind, n=4, it=3, split=[i], budget=2500, **P)
            add("t.%s.n3.4" % kind, kind=kind, n=3, it=4, budget=2500, **P)
            add("t.%s.n3.2" % kind, kind=kind, n=3, it=2, max_values=4, budget=2500)
            add("t.%s.n4.file" % kind, kind=kind, n=4, it=2, more=True, budget=2500, max_values=1)
            add("t.%s.n4.values" % kind, kind=kind, n=4, it=1, max_values=3, budget=2500)
    return T
