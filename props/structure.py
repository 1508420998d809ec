"""Graph-level reference notions shared by the structural checks (all on indices)."""
import itertools

from pybbn.graph.dag import Bbn, Dag
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.graph import Ug
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable
from props.common import bushy, married, node_name, value_names


def distinct_ids(ctx, n, name="id", ordered=False, lo=None, hi=None):
    """n pairwise different symbolic ids.  ordered: id0 < id1 < ... (cuts symmetric paths)."""
    ids = []
    for k in range(n):
        x = ctx.int("%s%d" % (name, k), lo, hi)
        if ordered and ids:
            ctx.assume(ids[-1] < x)
        elif ids:
            for y in ids:
                ctx.assume(x != y)
        ids.append(x)
    return ids


def id_list(ctx, ids, n):
    """ids: None -> 0..n-1; "sym" -> symbolic in any order; "sorted" -> symbolic ascending; list -> itself."""
    if ids is None:
        return list(range(n))
    if ids == "sym":
        return distinct_ids(ctx, n)
    if ids == "sorted":
        return distinct_ids(ctx, n, ordered=True)
    return list(ids)


def bbn_nodes(ctx, ids, cards=None, weights=False):
    out = []
    for k, i in enumerate(ids):
        c = cards[k] if cards else 2
        nd = BbnNode(Variable(i, node_name(k), value_names(k, c)), [])
        if weights:
            nd.weight = ctx.real("w%d" % k, 2, 9)
        out.append(nd)
    return out


def flags(ctx, n, bits=None, name="e"):
    """Symbolic graph on indices: list of pairs a<b."""
    out = []
    k = 0
    for a in range(n):
        for b in range(a + 1, n):
            on = bits[k] if bits is not None and k < len(bits) and bits[k] is not None else ctx.flag("%s%d.%d" % (name, a, b))
            k += 1
            if on:
                out.append((a, b))
    return out


def index_of(nodes, nd):
    for k, x in enumerate(nodes):
        if x is nd:
            return k
    return None


def idx_by_id(ids, i):
    for k, x in enumerate(ids):
        if x == i:
            return k
    return None


def und(es):
    return {frozenset(e) for e in es}


def moral(n, edges):
    out = und(edges)
    for c in range(n):
        pa = [p for p, q in edges if q == c]
        out |= {frozenset(x) for x in itertools.combinations(pa, 2)}
    return out


def connected(vs, es):
    vs = set(vs)
    if not vs:
        return True
    seen, todo = set(), [next(iter(vs))]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for e in es:
            if x in e:
                todo.extend(y for y in e if y != x and y in vs)
    return seen == vs


def n_components(vs, es):
    left, k = set(vs), 0
    while left:
        k += 1
        todo = [left.pop()]
        while todo:
            x = todo.pop()
            for e in es:
                if x in e:
                    for y in e:
                        if y in left:
                            left.remove(y)
                            todo.append(y)
    return k


def chordal(vs, es):
    """Perfect elimination: repeatedly remove a simplicial vertex."""
    vs, es = set(vs), set(es)
    while vs:
        for v in sorted(vs):
            nb = [u for u in vs if frozenset((u, v)) in es]
            if all(frozenset(p) in es for p in itertools.combinations(nb, 2)):
                vs.discard(v)
                break
        else:
            return False
    return True


def maximal_cliques(vs, es):
    vs = set(vs)
    nb = {v: {u for u in vs if frozenset((u, v)) in es} for v in vs}
    out = set()

    def grow(clique, cand, done):
        if not cand and not done:
            out.add(frozenset(clique))
            return
        pivot = max(cand | done, key=lambda v: len(nb[v] & cand))
        for v in sorted(cand - nb[pivot]):
            grow(clique | {v}, cand & nb[v], done & nb[v])
            cand = cand - {v}
            done = done | {v}
    grow(set(), vs, set())
    return out


def has_directed_cycle(n, edges):
    out = {i: [b for a, b in edges if a == i] for i in range(n)}
    for s in range(n):
        seen, todo = set(), list(out[s])
        while todo:
            x = todo.pop()
            if x == s:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(out[x])
    return False


def reachable(edges, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo.extend(q for p, q in edges if p == x)
    return False


STRUCTS = {
    "huang": (8, [(0, 1), (0, 2), (1, 3), (2, 4), (3, 5), (4, 5), (2, 6), (4, 7), (6, 7)]),
    "asia": (8, [(0, 1), (2, 3), (2, 4), (1, 5), (3, 5), (5, 6), (5, 7), (4, 7)]),
    "cycle6": (6, [(0, 1), (1, 2), (2, 3), (0, 4), (4, 5), (5, 3)]),
    "cycle7": (7, [(0, 1), (1, 2), (2, 3), (0, 4), (4, 5), (5, 6), (6, 3)]),
    "instar5": (6, [(0, 5), (1, 5), (2, 5), (3, 5), (4, 5)]),
    "forest": (7, [(0, 1), (1, 2), (3, 5), (4, 5)]),
    "grid": (6, [(0, 1), (1, 2), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5)]),
    "dense5": (5, [(a, b) for a in range(5) for b in range(a + 1, 5)]),
    "bipartite": (6, [(0, 3), (0, 4), (1, 3), (1, 5), (2, 4), (2, 5)]),
    "empty3": (3, []),
    "grid33": (9, [(3 * r + c, 3 * r + c + 1) for r in range(3) for c in range(2)] + [(3 * r + c, 3 * r + c + 3) for r in range(2) for c in range(3)]),
    "bidirected8": (8, [(0, 4), (1, 4), (1, 5), (2, 5), (2, 6), (3, 6), (3, 7), (0, 7)]),
    "overlap": (7, [(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3), (1, 4), (2, 4), (3, 4), (2, 5), (3, 5), (4, 5), (4, 6), (5, 6)]),
}
MANY = {
    "star12": (12, [(11, k) for k in range(11)]),
    "caterpillar": (14, [(k, k + 1) for k in range(7)] + [(k, k + 8) for k in range(6)]),
    "broom14": (14, [(0, k) for k in range(1, 12)] + [(11, 12), (12, 13)]),
    "brooms": (15, [(0, k) for k in range(1, 8)] + [(7, 8), (8, 9)] + [(9, k) for k in range(10, 15)]),
    "forest15": (15, [(k, k + 1) for k in range(0, 4)] + [(k, k + 1) for k in range(6, 11)] + [(13, 14), (13, 12)]),
}


def tied(n, k, skip=()):
    """Node i has the k nodes before it as parents."""
    return [(a, b) for b in range(n) for a in range(max(0, b - k), b) if (a, b) not in skip]


def loosen(ctx, edges, k):
    """k of the edges may be missing."""
    if not k:
        return edges
    step = max(1, len(edges) // k)
    return [e for x, e in enumerate(edges) if x % step != step // 2 or x // step >= k or ctx.flag("keep%d" % x)]


BIG = {
    "parents8": (10, [(k, 8) for k in (3, 0, 7, 1, 6, 2, 5, 4)] + [(8, 9)]),
    "parents7.shared": (11, [(k, c) for c in (7, 8, 9) for k in (6, 2, 0, 5, 1, 4, 3)] + [(9, 10)]),
    "tied5": (12, tied(12, 5)),
    "tied4.loose": (13, tied(13, 4, {(2, 6), (5, 8), (7, 8), (3, 4)})),
    "branches": (14, tied(7, 4) + [(k, 7) for k in (0, 1, 2)] + [(k, 8) for k in (1, 2, 3, 7)] + [(8, 9), (7, 9), (3, 10), (4, 10), (5, 10), (6, 10), (10, 11), (9, 12), (11, 12), (12, 13)]),
    "chain20": (20, [(k + 1, k) if k % 3 == 1 else (k, k + 1) for k in range(19)]),
    "grid45": (20, [(k, k + 1) for k in range(20) if k % 5 < 4] + [(k, k + 5) for k in range(15)]),
    "bushy20": (20, bushy(20, 3)),
    "bushy30": (30, bushy(30, 7)),
    "halves": (16, tied(8, 3) + [(a + 8, b + 8) for a, b in tied(8, 4)]),
}


# undirected graphs in which every node needs many fill edges
TIGHT = {
    "k44": (8, [(a, b) for a in range(4) for b in range(4, 8)]),
    "k55": (10, [(a, b) for a in range(5) for b in range(5, 10)]),
    "k333": (9, [(a, b) for a in range(9) for b in range(a + 1, 9) if a % 3 != b % 3]),
    "cube4": (16, [(a, a | 1 << k) for a in range(16) for k in range(4) if not a >> k & 1]),
    "ico": (12, [(0, k) for k in range(1, 6)] + [(k, k % 5 + 1) for k in range(1, 6)] + [(11, k) for k in range(6, 11)] + [(k, (k - 5) % 5 + 6) for k in range(6, 11)]
            + [(k, k + 5) for k in range(1, 6)] + [(k, (k + 3) % 5 + 6) for k in range(1, 6)]),
}


BIG["k44"] = married(8, TIGHT["k44"][1], [(0, 4), (0, 5), (0, 6), (0, 7), (4, 1), (5, 2), (6, 3)])
BIG["cube3x"] = married(8, [(a, a | 1 << k) for a in range(8) for k in range(3) if not a >> k & 1] + [(0, 7), (1, 6), (2, 5), (3, 4)], [(0, 1), (0, 2), (0, 4), (0, 7)])
