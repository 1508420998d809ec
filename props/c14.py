"""C14: the CSV form of a network."""
import os

from symex.explore import Task
from pybbn.graph.dag import Bbn
from props import common as N
from props import structure as S
from props.c06 import perm
from props.roundtrip import make, same_network, sized_probs, word, scratch, any_order_edges, CHARS
from props.c13 import IDS

BOUNDS = ("every DAG on up to 4 nodes (5 in thorough) under every order of each child's incoming edges and node insertion orders, several id patterns, nodes with 1-4 values; larger networks of up to 30 nodes with 3 edges present or not; "
          "probabilities symbolic (0 and 1 included), compared exactly; names and values of 1-3 characters out of 22 representative ones")
OUTSIDE = "larger networks; names or values with comma, bar, line break, surrounding blanks, or empty; text unlike all representatives"


def check_all(ctx, ids, names, values, edges, probs, order):
    bbn = make(ctx, ids, names, values, edges, probs, order)
    path = scratch("bbn.csv")
    Bbn.to_csv(bbn, path)
    try:
        back = Bbn.from_csv(path)
    finally:
        os.unlink(path)
    same_network(ctx, back, ids, names, values, edges, probs)
    same_network(ctx, bbn, ids, names, values, edges, probs, "original")


def structure(ctx, n, cards, ids=None, order=False, bits=None, topo=None):
    edges = any_order_edges(ctx, n, topo, bits)
    if ids is None:
        ids = IDS[ctx.choose("ids", len(IDS))][:n]
    elif ids == "sym":
        ids = S.distinct_ids(ctx, n)
    names = [N.node_name(k) for k in range(n)]
    values = [N.value_names(k, c) for k, c in enumerate(cards)]
    probs = sized_probs(ctx, n, cards, edges)
    o = perm(ctx, range(n), "node") if order else list(range(n))
    check_all(ctx, ids, names, values, edges, probs, o)


def big(ctx, struct):
    n, edges = S.BIG[struct]
    edges = S.loosen(ctx, edges, 3)
    r = ctx.choose("rotate", 3)
    out = []
    for k in sorted(range(n), key=lambda x: (x * 7) % n):
        es = [e for e in edges if e[1] == k]
        out += es[len(es) * r // 3:] + es[:len(es) * r // 3]
    ids = [(k * 11 + 5) % 103 - 4 for k in range(n)]
    cards = [1 + (k % 3 != 1 or k % 2) for k in range(n)] if n < 12 else [1] * (n - 2) + [2, 12]
    names = [N.node_name(k) for k in range(n)]
    values = [N.value_names(k, c) for k, c in enumerate(cards)]
    check_all(ctx, ids, names, values, out, sized_probs(ctx, n, cards, out), list(range(n))[::-1])


def text(ctx, length, which, card=2):
    w = word(ctx, "w", CHARS, length, blank_ends=False)
    names = ["x", "y"]
    values = [["on", "off"][:card], ["a", "b", "c"]]
    if which == "name":
        names[0] = w
    else:
        values[0][-1] = w
        if values[0].count(w) > 1:
            ctx.infeasible()
    edges = [(0, 1)]
    cards = (card, 3)
    check_all(ctx, [3, 11], names, values, edges, sized_probs(ctx, 2, cards, edges), [1, 0])


def words(ctx, list_):
    w = list_[ctx.choose("w", len(list_))]
    names = ["x", w]
    values = [["on", w], [w, "b", "c"]]
    edges = [(1, 0)]
    check_all(ctx, [3, 0], names, values, edges, sized_probs(ctx, 2, (2, 3), edges), [0, 1])


def tasks(tier):
    T = [
        Task("all3", structure, budget=60, validate=5, n=3, cards=(2, 3, 2), order=True),
        Task("all4", structure, budget=90, validate=5, n=4, cards=(2, 2, 2, 1), ids=[12, 3, 101, -4], topo=[2, 0, 3, 1]),
        Task("all4.b", structure, budget=90, validate=5, n=4, cards=(1, 2, 1, 4), ids=[0, 1, 2, 3]),
        Task("single", structure, budget=60, n=1, cards=(4,)),
        Task("single1", structure, budget=60, n=1, cards=(1,)),
        Task("name1", text, budget=60, length=1, which="name"),
        Task("value1", text, budget=60, length=1, which="value"),
        Task("name2", text, budget=60, length=2, which="name"),
        Task("value2", text, budget=60, length=2, which="value"),
        Task("lone.value2", text, budget=60, length=2, which="value", card=1),
        Task("words", words, budget=60, list_=["directed", "undirected", "nan", "inf", "1e5", "0.5", "-7", "None", "true", "a b", "x y  z", "++", "->", "null", "0,5".replace(",", ";")]),
    ]
    for name in S.BIG:
        T.append(Task("big.%s" % name, big, budget=90, validate=3, struct=name))
    if tier == "thorough":
        T.append(Task("t.name3", text, budget=2500, length=3, which="name"))
        T.append(Task("t.value3", text, budget=2500, length=3, which="value"))
        for b in range(8):
            T.append(Task("t.all5.%d" % b, structure, budget=2500, validate=5, n=5, cards=(2, 1, 2, 1, 2), ids=[12, 3, 101, -4, 0], topo=[2, 0, 3, 4, 1],
                          bits=[bool(b & 1), bool(b & 2), bool(b & 4)]))
    return T
