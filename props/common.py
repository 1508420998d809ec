"""Networks with symbolic CPTs, and their meaning straight from the definition."""
import itertools

from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable


SHARED = (["on", "off", "mid", "dim", "bad", "all", "win"], ["off", "on", "dim", "bad", "win", "mid", "all"])


def value_names(i, k):
    """Values that are not in text order; two nodes of three share theirs with others, in another order."""
    if i % 3 < 2 and k <= 7:
        return SHARED[i % 3][:k]
    return ["n%sv%d" % (i, k - j) for j in range(k)]


def node_name(i):
    """Names whose text order is not the order of the ids."""
    return "%s%s" % ("zyxwvutsrqponm"[i % 14], i)


class Net:
    """A network description: cards {id: number of values}, edges [(pa, ch)] in
    insertion order.  CPT rows follow the documented convention: parents in the
    order their edges were added, first parent slowest, own value fastest."""

    def __init__(self, cards, edges, node_order=None, values=None, names=None):
        self.given = values or {}
        self.named = names or {}
        self.cards = dict(cards)
        self.edges = list(edges)
        self.order = list(node_order) if node_order is not None else list(self.cards)
        self.pa = {i: [p for p, c in self.edges if c == i] for i in self.cards}

    def values(self, i):
        return list(self.given[i]) if i in self.given else value_names(i, self.cards[i])

    def name(self, i):
        return self.named[i] if i in self.named else node_name(i)

    def rows(self, i):
        n = 1
        for p in self.pa[i]:
            n *= self.cards[p]
        return n


def cpts(ctx, net, zeros=(), prefix="p", const=()):
    """{id: flat list of probabilities}; ids in `zeros` may contain 0 and 1."""
    out = {}
    for i in sorted(net.cards):
        flat = []
        for r in range(net.rows(i)):
            if i in const:
                flat.extend(ctx.const(x) if len(net.cards) > 6 else x for x in const_row(net.cards[i], r))
            else:
                flat.extend(ctx.row("%s%s[%d]" % (prefix, i, r), net.cards[i], positive=i not in zeros))
        out[i] = flat
    return out


def const_row(k, r):
    w = [((r * 7 + j * 3) % 5) + 1 for j in range(k)]
    # multiples of 1/16 so that floats carry them exactly
    base = [max(1, (16 * x) // sum(w)) for x in w]
    base[0] += 16 - sum(base)
    return [b / 16 for b in base]


def build(net, probs):
    bbn = Bbn()
    nodes = {i: BbnNode(Variable(i, net.name(i), net.values(i)), list(probs[i])) for i in net.cards}
    for i in net.order:
        bbn.add_node(nodes[i])
    for p, c in net.edges:
        bbn.add_edge(Edge(nodes[p], nodes[c], EdgeType.DIRECTED))
    return bbn


def entry(net, probs, i, asg):
    """P(i = asg[i] | parents as in asg)."""
    r = 0
    for p in net.pa[i]:
        r = r * net.cards[p] + asg[p]
    return probs[i][r * net.cards[i] + asg[i]]


class Joint:
    """The joint distribution by definition: a product of CPT entries."""

    def __init__(self, net, probs):
        self.net = net
        self.ids = sorted(net.cards)
        self.tab = []
        for vals in itertools.product(*[range(net.cards[i]) for i in self.ids]):
            asg = dict(zip(self.ids, vals))
            p = 1
            for i in self.ids:
                p = p * entry(net, probs, i, asg)
            self.tab.append((asg, p))

    def marginal(self, ids, lik=None):
        """Unnormalised table over ids with likelihood weights {id: [w...]}."""
        out = {}
        for k in itertools.product(*[range(self.net.cards[i]) for i in ids]):
            out[k] = 0
        for asg, p in self.tab:
            for i, w in (lik or {}).items():
                x = w[asg[i]]
                if type(x) in (int, float):
                    if x == 0:
                        p = 0
                        break
                    if x == 1:
                        continue
                p = p * x
            if type(p) is int and p == 0:
                continue
            k = tuple(asg[i] for i in ids)
            out[k] = out[k] + p
        return out

    def total(self, lik=None):
        t = 0
        for v in self.marginal([], lik).values():
            t = t + v
        return t


class Eliminated:
    """The same tables by summing out one variable after the other, for networks whose joint table is too large."""

    def __init__(self, net, probs):
        self.net = net
        self.ids = sorted(net.cards)
        self.factors = []
        for i in self.ids:
            scope = tuple(net.pa[i]) + (i,)
            tab = {}
            for k in itertools.product(*[range(net.cards[x]) for x in scope]):
                tab[k] = entry(net, probs, i, dict(zip(scope, k)))
            self.factors.append((scope, tab))

    def marginal(self, ids, lik=None):
        fs = list(self.factors)
        for i, w in (lik or {}).items():
            fs.append(((i,), {(k,): w[k] for k in range(self.net.cards[i])}))
        rest = [i for i in self.ids if i not in ids]
        while rest:
            x = min(rest, key=lambda v: (len({u for sc, _ in fs if v in sc for u in sc}), v))
            rest.remove(x)
            used = [f for f in fs if x in f[0]]
            fs = [f for f in fs if x not in f[0]]
            scope = tuple(sorted({u for sc, _ in used for u in sc} - {x}))
            fs.append((scope, self.product(used, scope, x)))
        return self.product(fs, tuple(ids), None)

    def product(self, fs, scope, x):
        """The product of the tables over `scope`, with x summed out."""
        out = {}
        for k in itertools.product(*[range(self.net.cards[i]) for i in scope]):
            asg = dict(zip(scope, k))
            t = 0
            for v in range(self.net.cards[x]) if x is not None else (0,):
                if x is not None:
                    asg[x] = v
                p = 1
                for sc, tab in fs:
                    p = p * tab[tuple(asg[i] for i in sc)]
                t = t + p
            out[k] = t
        return out

    total = Joint.total


def components(net):
    """Connected components of the skeleton."""
    left = set(net.cards)
    out = []
    while left:
        todo = [min(left)]
        comp = set()
        while todo:
            x = todo.pop()
            if x in comp:
                continue
            comp.add(x)
            for p, c in net.edges:
                if p == x:
                    todo.append(c)
                if c == x:
                    todo.append(p)
        left -= comp
        out.append(sorted(comp))
    return out


def sub(net, comp):
    return Net({i: net.cards[i] for i in net.cards if i in comp}, [e for e in net.edges if e[0] in comp], values=net.given, names=net.named)


def joints(net, probs):
    """One joint table per connected component (they are independent)."""
    out = {}
    for comp in components(net):
        n = 1
        for i in comp:
            n *= net.cards[i]
        j = (Joint if n <= 1024 else Eliminated)(sub(net, comp), probs)
        for i in comp:
            out[i] = (j, comp)
    return out


def spec_posterior(js, i, lik=None):
    """(numerators by value index, denominator) of P(i | evidence)."""
    j, comp = js[i]
    lk = {k: w for k, w in (lik or {}).items() if k in comp}
    m = j.marginal([i], lk)
    nums = [m[(k,)] for k in range(j.net.cards[i])]
    den = 0
    for n in nums:
        den = den + n
    return nums, den


def check_posteriors(ctx, net, js, jt, lik=None, label="posterior", den_one=False):
    """Every node's reported posterior is the one of the joint distribution."""
    post = jt.get_posteriors()
    ctx.check(set(post) == {net.name(i) for i in net.cards}, label + ".nodes", "nodes reported: %s" % sorted(post))
    for i in sorted(net.cards):
        got = post[net.name(i)]
        ctx.check(set(got) == set(net.values(i)), label + ".values", "values of %s: %s" % (i, sorted(got)))
        nums, den = spec_posterior(js, i, lik)
        for k, v in enumerate(net.values(i)):
            want = nums[k] if den_one else nums[k] / den
            ctx.check_eq(got[v], want, label, "P(%s=%s)" % (net.name(i), v))


# ---- families of structures -------------------------------------------------
def chain(n, card=2):
    return Net({i: card for i in range(n)}, [(i, i + 1) for i in range(n - 1)])


def huang():
    return Net({i: 2 for i in range(8)}, [(0, 1), (0, 2), (1, 3), (2, 4), (3, 5), (4, 5), (2, 6), (4, 7), (6, 7)])


def all_dags(ctx, n, cards, ids=None, perm=True, bits=None):
    """A symbolic DAG over n nodes: every pair is absent, forward or (through the
    choice of the topological permutation) backward.  `bits` fixes the first few
    pairs, to split the work."""
    ids = list(range(n)) if ids is None else ids
    order = list(ids)
    if perm:
        avail, order = list(ids), []
        while avail:
            order.append(avail.pop(ctx.choose("perm%d" % len(order), len(avail))))
    edges = []
    k = 0
    for a in range(n):
        for b in range(a + 1, n):
            if bits is not None and k < len(bits) and bits[k] is not None:
                on = bits[k]
            else:
                on = ctx.flag("e%d.%d" % (a, b))
            k += 1
            if on:
                edges.append((order[a], order[b]))
    return order, edges


def bushy(n, k):
    """n nodes, each with up to two earlier parents close to it."""
    es = []
    for i in range(1, n):
        es.append((i - 1 - (i * k) % min(i, 4), i))
        p = i - 1 - (i * k + 2) % min(i, 5)
        if p != es[-1][0] and i % 3:
            es.append((p, i))
    return es


def married(n, edges, direct=()):
    """A directed graph whose moral graph is the given one plus triangles: every edge is a common child, or the arc given in `direct`
    (which must not give a node two parents)."""
    out, k = list(direct), n
    for a, b in edges:
        if (a, b) not in direct and (b, a) not in direct:
            out += [(a, k), (b, k)]
            k += 1
    return k, out


K44 = married(8, [(a, b) for a in range(4) for b in range(4, 8)], [(0, 4), (0, 5), (0, 6), (0, 7), (4, 1), (5, 2), (6, 3)])
LARGE = {
    "chain12": Net({3 * i % 13: 2 for i in range(12)}, [(3 * i % 13, 3 * (i + 1) % 13) for i in range(11)]),
    "grid12": Net({i: 2 for i in range(12)}, [(i, i + 1) for i in range(12) if i % 4 < 3] + [(i, i + 4) for i in range(8)]),
    "tree13": Net({i: 2 for i in range(13)}, [((i - 1) // 2, i) for i in range(1, 13)]),
    "poly11": Net({i: 2 for i in range(11)}, [(0, 3), (1, 3), (2, 4), (3, 5), (4, 5), (5, 6), (7, 6), (6, 8), (6, 9), (10, 9)]),
    "instar7": Net({9: 2, 1: 2, 12: 2, 3: 2, 0: 2, 5: 2, 7: 2, 2: 2}, [(i, 2) for i in (9, 1, 12, 3, 0, 5, 7)]),
    "star9": Net({i: 2 for i in (4, 0, 11, 2, 5, 103, 6, 1, 8, 9)}, [(4, i) for i in (0, 11, 2, 5, 103, 6, 1, 8, 9)]),
    "values12": Net({0: 2, 1: 12, 2: 3}, [(0, 1), (1, 2)]),
    "bigids": Net({100000: 2, 99999: 2, 1000: 2, 999: 2, 10: 2}, [(100000, 99999), (99999, 1000), (100000, 1000), (1000, 999), (10, 999)]),
    "dense6": Net({i: 2 for i in range(6)}, [(a, b) for a in range(6) for b in range(a + 1, 6)]),
    "twostars": Net({i: 2 for i in range(13)}, [(0, i) for i in range(1, 6)] + [(6, i) for i in range(7, 13)] + [(5, 6)]),
    "family3": Net({i: 2 for i in (2, 8, 5, 1, 11, 4, 7)}, [(p, c) for c in (1, 11, 4, 7) for p in (8, 2, 5)]),
    "fan3": Net({i: 2 for i in (6, 2, 0, 1, 4, 3, 5)}, [(0, 1), (0, 2), (1, 2)] + [(p, c) for c in (4, 3, 5, 6) for p in (2, 0, 1)]),
    "fan.tail": Net({i: 2 for i in (1, 2, 3, 4, 5, 6, 7, 8, 9)}, [(1, 2), (1, 3), (2, 3)] + [(p, c) for c in (4, 5, 6) for p in (1, 2, 3)] + [(4, 7), (6, 8), (8, 9)]),
    "forest11": Net({i: 2 for i in range(11)}, [(0, 3), (3, 6), (0, 6), (1, 4), (7, 4), (4, 10), (2, 5), (5, 9)]),
    "k44": Net({i: 2 for i in range(K44[0])}, K44[1]),
    "chain26": Net({i: 2 for i in range(26)}, [(i + 1, i) if i % 4 == 1 else (i, i + 1) for i in range(25)]),
    "grid20": Net({i: 2 for i in range(20)}, [(i, i + 1) for i in range(20) if i % 4 < 3] + [(i, i + 4) for i in range(16)]),
    "bushy24": Net({i: 2 for i in range(24)}, bushy(24, 3)),
    "bushy30": Net({i: 2 for i in range(30)}, bushy(30, 7)),
}


# names and values that differ only by case, blanks, digits or accents
ALIKE = Net({3: 2, 1: 4, 7: 2, 2: 3, 12: 2}, [(3, 1), (7, 1), (1, 2), (1, 12)],
            names={3: "Rain", 1: "rain", 7: "RAIN", 2: "rain ", 12: "3"},
            values={3: ["yes", "Yes"], 1: ["1", "1.0", "01", " 1"], 7: ["Yes", "yes"], 2: ["a", "A", "\u00e1"], 12: ["", "1"]})


# ---- evidence ---------------------------------------------------------------
from pybbn.graph.jointree import Evidence, EvidenceBuilder, EvidenceType  # noqa: E402

KINDS = ("obs", "find", "virt")


def make_evidence(ctx, jt, net, i, kind, tag, lo_open=True, src=None):
    """(Evidence on node i, the likelihood weights it stands for).  The node comes from the tree, by id or by name,
    or is the one of the network `src`."""
    vals = net.values(i)
    k = len(vals)
    if src is not None:
        node = src.get_node(i)
    elif tag[-1:] in "13579":
        node = jt.get_bbn_node_by_name(net.name(i))
    else:
        node = jt.get_bbn_node(i)
    eb = EvidenceBuilder().with_node(node)
    if kind == "obs":
        j = ctx.choose(tag + ".v", k)
        eb = eb.with_evidence(vals[j], 1.0)
        w = [1 if x == j else 0 for x in range(k)]
        return eb.build(), w
    if kind == "find":
        w = [1 if ctx.flag("%s.f%d" % (tag, x)) else 0 for x in range(k)]
        if not any(w):
            ctx.infeasible()
        eb = eb.with_type(EvidenceType.FINDING)
        for v, x in zip(vals, w):
            eb = eb.with_evidence(v, float(x))
        return eb.build(), w
    if kind == "virt":
        w = [ctx.real("%s.l%d" % (tag, x), 0, 1, lo_open=lo_open) for x in range(k)]
        eb = eb.with_type(EvidenceType.VIRTUAL)
        for v, x in zip(vals, w):
            eb = eb.with_evidence(v, x)
        return eb.build(), w
    if kind == "unobs":
        return jt.get_unobserved_evidence(node), [1] * k
    raise ValueError(kind)


def feasible(ctx, js, lik):
    """The evidence has positive probability (every component it touches)."""
    seen = []
    for j, comp in js.values():
        if comp in seen:
            continue
        seen.append(comp)
        lk = {k: w for k, w in lik.items() if k in comp}
        if lk:
            t = j.total(lk)
            ctx.assume(t != 0)
