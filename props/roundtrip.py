"""Shared by the BBN round-trip checks."""
import os
import re

from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable
from symex import engine as E
from props import common as N
from props import structure as S
from props.c06 import interleave, perm


def scratch(name):
    return os.path.join(os.environ.get("SYMEX_SCRATCH") or "/tmp", "%d.%s" % (os.getpid(), name))


def number(ctx, s):
    """A number out of text, in either mode."""
    s = s.strip()
    if ctx.sym:
        t = E.CUR.untoken(s)
        if t is not None:
            return t
    return float(s)


def make(ctx, ids, names, values, edges, probs, order):
    """Build from indices 0..n-1.  Rows follow the order of `edges` of each child."""
    bbn = Bbn()
    nodes = [BbnNode(Variable(i, nm, list(v)), list(p)) for i, nm, v, p in zip(ids, names, values, probs)]
    for k in order:
        bbn.add_node(nodes[k])
    for a, b in edges:
        bbn.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
    return bbn


def parents_of(k, edges):
    return [a for a, b in edges if b == k]


def sized_probs(ctx, n, cards, edges, prefix="p"):
    out = []
    for k in range(n):
        rows = 1
        for a in parents_of(k, edges):
            rows *= cards[a]
        flat = []
        for r in range(rows):
            flat += ctx.row("%s%d[%d]" % (prefix, k, r), cards[k], positive=False)
        out.append(flat)
    return out


def same_network(ctx, bbn, ids, names, values, edges, probs, label="restored"):
    """The network is the one described."""
    nodes = list(bbn.get_nodes())
    ctx.check(len(nodes) == len(ids), label + ".nodes", "%d nodes for %d" % (len(nodes), len(ids)))
    seen = set()
    where = {}
    for nd in nodes:
        k = S.idx_by_id(ids, nd.id)
        ctx.check(k is not None and k not in seen, label + ".ids", "node id %s" % (nd.id,))
        seen.add(k)
        where[k] = nd
    for k, nd in where.items():
        ctx.check(type(nd.variable.name) is str and nd.variable.name == names[k], label + ".name", "name %r of %r" % (nd.variable.name, names[k]))
        ctx.check(list(nd.variable.values) == list(values[k]), label + ".values", "values %r, were %r" % (nd.variable.values, values[k]))
        ctx.check(bool(nd.variable.id == ids[k]), label + ".ids", "variable id")
        ctx.check(len(nd.probs) == len(probs[k]), label + ".probs", "%d probabilities of %s" % (len(nd.probs), names[k]))
        for x, y in zip(nd.probs, probs[k]):
            ctx.check_eq(x, y, label + ".probs", "CPT of %s" % names[k], tol=None)
    got = {(S.idx_by_id(ids, e.i.id), S.idx_by_id(ids, e.j.id)) for e in bbn.get_edges()}
    ctx.check(got == set(edges), label + ".edges", "edges %s, were %s" % (sorted(got), sorted(edges)))
    for k in where:
        # the documented row order: parents in the order of bbn.parents
        pa = [S.idx_by_id(ids, p) for p in bbn.parents.get(where[k].id, [])]
        ctx.check(pa == parents_of(k, edges), label + ".parents", "parents of %s: %s, were %s" % (names[k], pa, parents_of(k, edges)))


# one of each kind of character a text format may trip over
CHARS = ["a", "B", "0", "7", "-", ".", " ", "\t", "'", '"', "\\", "=", ">", "#", ";", ":", "/", "{", "%", "\u00e9", "\u4e2d", "~"]
MORE = [",", "|", "\n", "[", "]"]


def word(ctx, tag, chars, length, blank_ends=True):
    out = []
    for p in range(length):
        cs = chars
        if not blank_ends and (p in (0, length - 1)):
            cs = [c for c in chars if c.strip()]
        out.append(cs[ctx.choose("%s.%d" % (tag, p), len(cs))])
    return "".join(out)


def any_order_edges(ctx, n, order=None, bits=None):
    """A symbolic DAG whose edges come in an arbitrary order per child (all interleavings of children are C06's)."""
    edges = S.flags(ctx, n, bits)
    if order is not None:
        edges = [(order[a], order[b]) for a, b in edges]
    out = []
    for k in range(n):
        out += perm(ctx, [e for e in edges if e[1] == k], "in%d." % k)
    return out
