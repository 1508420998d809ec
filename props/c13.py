"""C13: dictionary, JSON and DNE forms of a network."""
import json
import os
import re

from symex.explore import Task
from pybbn.graph.dag import Bbn
from props import common as N
from props import structure as S
from props.c06 import interleave, perm
from props.roundtrip import make, same_network, sized_probs, word, number, scratch, any_order_edges, CHARS, MORE, parents_of

BOUNDS = ("every DAG on up to 4 nodes (5 in thorough) under every order of each child's incoming edges, node insertion orders, several id patterns and, for the dictionary, arbitrary symbolic ids; larger networks of up to 30 nodes with 3 edges present or not; "
          "probabilities symbolic, compared exactly; names and values of up to 3 characters out of 27 representative ones")
OUTSIDE = "larger networks; text whose characters behave unlike all representatives; ids that are not integers"

IDS = [[0, 1, 2, 3, 4], [12, 3, 7, 101, 5], [4, 3, 2, 1, 0], [-1, 10, 1, -11, 11]]


def check_all(ctx, ids, names, values, edges, probs, order, form):
    bbn = make(ctx, ids, names, values, edges, probs, order)
    if form == "dict":
        back = Bbn.from_dict(Bbn.to_dict(bbn))
    elif form == "json":
        back = Bbn.from_dict(json.loads(json.dumps(Bbn.to_dict(bbn))))
    else:
        path = scratch("bbn.json")
        Bbn.to_json(bbn, path)
        try:
            back = Bbn.from_json(path)
        finally:
            os.unlink(path)
    same_network(ctx, back, ids, names, values, edges, probs)
    same_network(ctx, bbn, ids, names, values, edges, probs, "original")


def structure(ctx, n, cards, ids=None, form="dict", order=False, bits=None, topo=None):
    edges = any_order_edges(ctx, n, topo, bits)
    if ids == "sym":
        ids = S.distinct_ids(ctx, n)
    elif ids is None:
        ids = IDS[ctx.choose("ids", len(IDS))][:n]
    names = [N.node_name(k) for k in range(n)]
    values = [N.value_names(k, c) for k, c in enumerate(cards)]
    probs = sized_probs(ctx, n, cards, edges)
    o = perm(ctx, range(n), "node") if order else list(range(n))
    check_all(ctx, ids, names, values, edges, probs, o, form)


def text(ctx, form, length, which):
    chars = CHARS + MORE
    w = word(ctx, "w", chars, length)
    names = ["x", "y"]
    values = [["on", "off"], ["a", "b", "c"]]
    if which == "name":
        names[0] = w
    else:
        values[0][1] = w
        if w == "on":
            ctx.infeasible()
    edges = [(0, 1)]
    probs = sized_probs(ctx, 2, (2, 3), edges)
    check_all(ctx, [3, 11], names, values, edges, probs, [1, 0], form)


def big(ctx, struct, form):
    """A larger network with few symbolic probabilities; some edges present or not, the incoming edges of a node in any rotation."""
    n, edges = S.BIG[struct]
    edges = S.loosen(ctx, edges, 3)
    r = ctx.choose("rotate", 3)
    out = []
    for k in sorted(range(n), key=lambda x: (x * 7) % n):
        es = [e for e in edges if e[1] == k]
        out += es[len(es) * r // 3:] + es[:len(es) * r // 3]
    ids = [(k * 11 + 5) % 103 - 4 for k in range(n)]
    cards = [1 + (k % 3 != 1 or k % 2) for k in range(n)] if n < 12 else [1] * (n - 2) + [2, 12]
    probs = sized_probs(ctx, n, cards, out)
    names = [N.node_name(k) for k in range(n)]
    values = [N.value_names(k, c) for k, c in enumerate(cards)]
    check_all(ctx, ids, names, values, out, probs, list(range(n))[::-1], form)


def dne(ctx, n, cards, ids, bits=None, topo=None):
    edges = any_order_edges(ctx, n, topo, bits)
    ids = ids[:n]
    names = [N.node_name(k) for k in range(n)]
    values = [N.value_names(k, c) for k, c in enumerate(cards)]
    probs = sized_probs(ctx, n, cards, edges)
    bbn = make(ctx, ids, names, values, edges, probs, list(range(n)))
    s = Bbn.to_dne(bbn, "thenet")
    ctx.check(re.search(r"bnet\s+thenet\s*\{", s) is not None, "dne.name", "no network name")
    found = re.findall(r"node\s+(\w+)\s*\{(.*?)\}\s*;", s, re.S)
    ctx.check(sorted(f[0] for f in found) == sorted(names), "dne.nodes", "nodes %s" % [f[0] for f in found])

    def field(body, key):
        m = re.search(r"\b%s\s*=\s*\((.*?)\)\s*;" % key, body, re.S)
        if m is None:
            return None
        return [x.strip() for x in m.group(1).split(",")] if m.group(1).strip() else []

    for name, body in found:
        k = names.index(name)
        ctx.check(field(body, "states") == values[k], "dne.states", "states of %s" % name)
        ctx.check(field(body, "parents") == [names[p] for p in parents_of(k, edges)], "dne.parents", "parents of %s: %s" % (name, field(body, "parents")))
        ps = field(body, "probs")
        ctx.check(ps is not None and len(ps) == len(probs[k]), "dne.probs", "number of probabilities of %s" % name)
        for x, y in zip(ps, probs[k]):
            ctx.check_eq(number(ctx, x), y, "dne.probs", "probabilities of %s" % name, tol=None)


def tasks(tier):
    T = []
    for form in ("dict", "json", "file"):
        T.append(Task("all3." + form, structure, budget=60, validate=5, n=3, cards=(2, 3, 2), form=form, order=True))
        T.append(Task("all4." + form, structure, budget=90, validate=5, n=4, cards=(2, 2, 2, 1), ids=[12, 3, 101, -4], form=form, topo=[2, 0, 3, 1]))
        T.append(Task("name1." + form, text, budget=60, form=form, length=1, which="name"))
        T.append(Task("value1." + form, text, budget=60, form=form, length=1, which="value"))
        T.append(Task("value0." + form, text, budget=60, form=form, length=0, which="value"))
        T.append(Task("single." + form, structure, budget=60, n=1, cards=(4,), form=form))
    T.append(Task("name2.json", text, budget=90, form="json", length=2, which="name"))
    T.append(Task("value2.file", text, budget=90, form="file", length=2, which="value"))
    T.append(Task("symids3", structure, budget=90, validate=5, n=3, cards=(2, 3, 2), ids="sym", form="dict"))
    T.append(Task("dne3", dne, budget=60, validate=5, n=3, cards=(2, 3, 2), ids=[5, 0, 12], topo=[2, 0, 1]))
    T.append(Task("dne4", dne, budget=60, validate=5, n=4, cards=(2, 2, 3, 2), ids=[5, 0, 12, 1]))
    for k, name in enumerate(S.BIG):
        T.append(Task("big.%s" % name, big, budget=90, validate=3, struct=name, form=("dict", "json", "file")[k % 3]))
    if tier == "thorough":
        for k, name in enumerate(S.BIG):
            for form in ("dict", "json", "file"):
                T.append(Task("t.big.%s.%s" % (name, form), big, budget=900, validate=3, struct=name, form=form))
        T.append(Task("t.symids4", structure, budget=2500, validate=30, n=4, cards=(2, 3, 2, 2), ids="sym", form="dict"))
        T.append(Task("t.name3", text, budget=2500, form="file", length=3, which="name"))
        T.append(Task("t.value3", text, budget=2500, form="file", length=3, which="value"))
        for b in range(8):
            T.append(Task("t.all5.%d" % b, structure, budget=2500, validate=5, n=5, cards=(2, 1, 2, 1, 2), form="json", ids=[12, 3, 101, -4, 0], topo=[2, 0, 3, 4, 1],
                          bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
            T.append(Task("t.dne5.%d" % b, dne, budget=2500, validate=5, n=5, cards=(2, 1, 2, 1, 2), ids=[12, 3, 101, -4, 0], topo=[2, 0, 3, 4, 1],
                          bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
    return T
