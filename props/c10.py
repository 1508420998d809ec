"""C10: potential algebra."""
import itertools

from symex.explore import Task
from pybbn.graph.jointree import JoinTree
from pybbn.graph.node import BbnNode, Clique
from pybbn.graph.potential import Potential, PotentialEntry, PotentialUtil
from pybbn.graph.variable import Variable

BOUNDS = ("1-4 variables with 2-4 values each (up to 48 rows), every subset and every order of the variables, every entry a symbolic real in [0,1] "
          "(zero included); messages between two cliques over every separator; value names that nearly coincide; 5-7 variables (128 rows) and 12 values in one order with positive entries")
OUTSIDE = "larger tables; negative entries"

CARDS = {"a": (2, 3), "b": (3, 2, 2), "c": (2, 4), "d": (2, 2, 2, 2), "e": (4,), "f": (3, 3)}


# value names that nearly coincide, in each other's prefix, suffix and with the separators of printed tables
ALIKE = ["1", "11", "1=", "", "1|11", "1,1", " 1", "1 "]


def nodes_of(cards, ids, alike=False):
    if alike:
        return [BbnNode(Variable(i, "x%d" % i, [ALIKE[(v + k) % len(ALIKE)] for v in range(c)]), []) for k, (i, c) in enumerate(zip(ids, cards))]
    return [BbnNode(Variable(i, "x%d" % i, ["v%d" % (c - v) for v in range(c)]), []) for i, c in zip(ids, cards)]


def fill(ctx, pot, tag, lo_open=False):
    for k, e in enumerate(pot.entries):
        e.value = ctx.real("%s%d" % (tag, k), 0, 1, lo_open=lo_open)


def order(ctx, xs, tag):
    xs, out = list(xs), []
    while xs:
        out.append(xs.pop(ctx.choose("%s%d" % (tag, len(out)), len(xs))))
    return out


def subset(ctx, xs, tag):
    return [x for k, x in enumerate(xs) if ctx.flag("%s%d" % (tag, k))]


def table(pot):
    """{frozenset((id, value)): value}; None on a repeated row."""
    out = {}
    for e in pot.entries:
        k = frozenset(e.entries.items())
        if k in out:
            return None
        out[k] = e.value
    return out


def rows(nodes):
    return [frozenset(zip([n.id for n in nodes], vs)) for vs in itertools.product(*[n.variable.values for n in nodes])]


def agree(k, sub):
    return sub <= k


def cpt(ctx, cards, ids, alike=False):
    """get_potential: row order is parents as given, first slowest, own value fastest."""
    nodes = order(ctx, nodes_of(cards, ids, alike), "o")
    node, pas = nodes[-1], nodes[:-1]
    n = 1
    for x in nodes:
        n *= len(x.variable.values)
    node.probs = [ctx.real("p%d" % k, 0, 1) for k in range(n)]
    pot = PotentialUtil.get_potential(node, pas)
    got = table(pot)
    want = rows(nodes)
    ctx.check(got is not None and set(got) == set(want), "cpt.rows", "rows of the CPT potential")
    for k, r in enumerate(want):
        ctx.check_eq(got[r], node.probs[k], "cpt.value", "row %d (%s)" % (k, sorted(r)))


def blank(ctx, cards, ids, alike=False):
    nodes = order(ctx, nodes_of(cards, ids, alike), "o")
    got = table(PotentialUtil.get_potential_from_nodes(nodes))
    ctx.check(got is not None and set(got) == set(rows(nodes)), "unit.rows")
    for v in got.values():
        ctx.check_eq(v, 1, "unit.value")


def marg(ctx, cards, ids, alike=False):
    nodes = nodes_of(cards, ids, alike)
    jt = JoinTree()
    cl = Clique(nodes)
    pot = PotentialUtil.get_potential_from_nodes(order(ctx, nodes, "c"))
    fill(ctx, pot, "p")
    before = table(pot)
    jt.add_potential(cl, pot)
    keep = order(ctx, subset(ctx, nodes, "k"), "ko")
    if not keep:
        ctx.infeasible()
    got = table(PotentialUtil.marginalize_for(jt, cl, keep))
    want = rows(keep)
    ctx.check(got is not None and set(got) == set(want), "marginal.rows")
    for r in want:
        s = 0
        for k, v in before.items():
            if agree(k, r):
                s = s + v
        ctx.check_eq(got[r], s, "marginal.value", "%s" % sorted(r))
    after = table(jt.potentials[cl.id])
    for k, v in before.items():
        ctx.check_eq(after[k], v, "marginal.input", "the clique table was changed")


def mult(ctx, cards, ids, alike=False):
    nodes = nodes_of(cards, ids, alike)
    big = PotentialUtil.get_potential_from_nodes(order(ctx, nodes, "c"))
    fill(ctx, big, "b")
    keep = order(ctx, subset(ctx, nodes, "k"), "ko")
    if not keep:
        ctx.infeasible()
    small = PotentialUtil.get_potential_from_nodes(keep)
    fill(ctx, small, "s")
    tb, ts = table(big), table(small)
    PotentialUtil.multiply(big, small)
    got = table(big)
    ctx.check(set(got) == set(tb), "product.rows")
    for k, v in tb.items():
        f = [w for r, w in ts.items() if agree(k, r)]
        ctx.check_eq(got[k], v * f[0], "product.value", "%s" % sorted(k))
    after = table(small)
    for k, v in ts.items():
        ctx.check_eq(after[k], v, "product.input", "the smaller table was changed")


def div(ctx, cards, ids, alike=False):
    nodes = order(ctx, nodes_of(cards, ids, alike), "c")
    a = PotentialUtil.get_potential_from_nodes(nodes)
    b = PotentialUtil.get_potential_from_nodes(nodes)
    fill(ctx, a, "a")
    fill(ctx, b, "b")
    ta, tb = table(a), table(b)
    got = table(PotentialUtil.divide(a, b))
    ctx.check(got is not None and set(got) == set(ta), "quotient.rows")
    for k in ta:
        if bool(tb[k] == 0):
            ctx.check_eq(got[k], 0, "quotient.zero", "%s" % sorted(k))
        else:
            ctx.check_eq(got[k], ta[k] / tb[k], "quotient.value", "%s" % sorted(k))
    for k, v in table(a).items():
        ctx.check_eq(v, ta[k], "quotient.input", "the numerator was changed")


def norm(ctx, cards, ids, alike=False):
    nodes = nodes_of(cards, ids, alike)
    a = PotentialUtil.get_potential_from_nodes(nodes)
    fill(ctx, a, "a")
    ta = table(a)
    tot = 0
    for v in ta.values():
        tot = tot + v
    got = table(PotentialUtil.normalize(a))
    if bool(tot == 0):
        for k, v in got.items():
            ctx.check_eq(v, 0, "normalize.zero", "%s" % sorted(k))
    else:
        for k, v in got.items():
            ctx.check_eq(v, ta[k] / tot, "normalize.value", "%s" % sorted(k))


def wide(ctx, cards, ids, keep):
    """Many variables or values: every operation once, entries positive."""
    nodes = nodes_of(cards, ids)
    other = nodes[2:] + nodes[:2]
    pots = []
    for t, ns in (("a", other), ("b", other), ("s", [nodes[i] for i in keep])):
        p = PotentialUtil.get_potential_from_nodes(ns)
        got = table(p)
        ctx.check(got is not None and set(got) == set(rows(ns)), "unit.rows")
        fill(ctx, p, t, lo_open=True)
        pots.append(p)
    a, b, s = pots
    ta, tb, ts = [table(p) for p in pots]
    tot = 0
    for v in ta.values():
        tot = tot + v
    for k, v in table(PotentialUtil.divide(a, b)).items():
        ctx.check_eq(v, ta.pop(k) / tb[k], "quotient.value", "%s" % sorted(k))
    ctx.check(not ta, "quotient.rows", "%d rows are missing" % len(ta))
    ta = table(a)
    jt, cl = JoinTree(), Clique(nodes)
    jt.add_potential(cl, a)
    m = table(PotentialUtil.marginalize_for(jt, cl, [nodes[i] for i in keep]))
    ctx.check(m is not None and set(m) == set(ts), "marginal.rows")
    for r in ts:
        x = 0
        for k, v in ta.items():
            if agree(k, r):
                x = x + v
        ctx.check_eq(m[r], x, "marginal.value", "%s" % sorted(r))
    PotentialUtil.multiply(b, s)
    got = table(b)
    ctx.check(set(got) == set(tb), "product.rows")
    for k, v in tb.items():
        f = [w for r, w in ts.items() if agree(k, r)]
        ctx.check_eq(got[k], v * f[0], "product.value", "%s" % sorted(k))
    got = table(PotentialUtil.normalize(a))
    ctx.check(set(got) == set(ta), "normalize.rows")
    for k, v in got.items():
        ctx.check_eq(v, ta[k] / tot, "normalize.value", "%s" % sorted(k))


def texts(ctx, cards, ids, alike=False):
    """Rows by key: 'id=value' in the order of ids, joined by '|'."""
    nodes = order(ctx, nodes_of(cards, ids, alike), "o")
    cut = ctx.choose("cut", len(nodes) + 1)
    pots, want = [], {}
    for t, part in (("a", nodes[:cut]), ("b", nodes[cut:])):
        if not part:
            continue
        p = PotentialUtil.get_potential_from_nodes(part)
        fill(ctx, p, t)
        pots.append(p)
        for e in p.entries:
            k = "|".join("%s=%s" % (i, e.entries[i]) for i in sorted(e.entries))
            want[k] = e.value
            kk, v = e.get_kv()
            ctx.check(kk == k, "text.row", "row %s: key %s" % (k, kk))
            ctx.check_eq(v, e.value, "text.row", "row %s" % k)
            ctx.check([tuple(x) for x in e.get_entry_keys()] == sorted(e.entries.items(), key=lambda x: x[0]), "text.row", "assignments of the row %s" % k)
    got = Potential.to_dict(pots)
    ctx.check(set(got) == set(want), "text.rows", "keys %s, specified %s" % (sorted(got), sorted(want)))
    for k, v in want.items():
        ctx.check_eq(got[k], v, "text.value", k)


def entries(ctx, cards, ids, alike=False):
    """Matching and duplicating rows."""
    nodes = nodes_of(cards, ids, alike)
    pot = PotentialUtil.get_potential_from_nodes(order(ctx, nodes, "o"))
    fill(ctx, pot, "p")
    before = table(pot)
    part = subset(ctx, nodes, "k")
    q = PotentialEntry()
    for n in part:
        q.add(n.id, n.variable.values[ctx.choose("v%d" % n.id, len(n.variable.values))])
    if ctx.flag("stranger"):
        q.add(999, "v1")
        want = []
    else:
        want = [e for e in pot.entries if all(e.entries[k] == v for k, v in q.entries.items())]
    got = pot.get_matching_entries(q)
    ctx.check(len(got) == len(want) and all(any(g is w for w in want) for g in got), "matching", "%d rows match %s, specified %d" % (len(got), q.entries, len(want)))
    e = pot.entries[ctx.choose("row", len(pot.entries))]
    d = e.duplicate()
    ctx.check(d.entries == e.entries, "duplicate", "assignments of a duplicate")
    ctx.check_eq(d.value, e.value, "duplicate")
    d.add(998, "v1")
    d.add(nodes[0].id, "elsewhere")
    d.value = ctx.real("d", 0, 1)
    for k, v in (table(pot) or {}).items():
        ctx.check(k in before, "duplicate", "changing a duplicate changed the row it was made from")
        ctx.check_eq(v, before[k], "duplicate", "changing a duplicate changed the row it was made from")


def message(ctx, left, right, cards):
    """x -> s -> y with an arbitrary old separator table."""
    all_ids = sorted(set(left) | set(right))
    by = {i: n for i, n in zip(all_ids, nodes_of(cards, all_ids))}
    x = Clique([by[i] for i in left])
    y = Clique([by[i] for i in right])
    s = x.get_sep_set(y)
    jt = JoinTree()
    for c, t in ((x, "x"), (s, "s"), (y, "y")):
        p = PotentialUtil.get_potential_from_nodes(c.nodes)
        # a message never divides a nonzero number by zero: old marginals of the sender's
        # support; both are strictly positive or the numerator is zero too
        fill(ctx, p, t, lo_open=(t == "s"))
        jt.add_potential(c, p)
    tx, ts, ty = [table(jt.potentials[c.id]) for c in (x, s, y)]
    PotentialUtil.pass_single_message(jt, x, s, y)
    gx, gs, gy = [table(jt.potentials[c.id]) for c in (x, s, y)]
    for r in ts:
        t = 0
        for k, v in tx.items():
            if agree(k, r):
                t = t + v
        ctx.check_eq(gs[r], t, "message.separator", "%s" % sorted(r))
        for k, v in ty.items():
            if agree(k, r):
                ctx.check_eq(gy[k], v * t / ts[r], "message.receiver", "%s" % sorted(k))
    for k, v in tx.items():
        ctx.check_eq(gx[k], v, "message.sender", "%s" % sorted(k))


def tasks(tier):
    T = []
    for k, cards in CARDS.items():
        ids = [7, 2, 13, 4][: len(cards)]
        for nm, f in (("cpt", cpt), ("unit", blank), ("marginal", marg)):
            if nm == "marginal" and k == "d" and tier == "quick":
                continue
            T.append(Task("%s.%s" % (nm, k), f, budget=90, validate=8, cards=cards, ids=ids))
        if k not in "d":
            T.append(Task("multiply.%s" % k, mult, budget=90, validate=8, cards=cards, ids=ids))
    T.append(Task("cpt.big", cpt, budget=90, validate=4, cards=(2, 3, 2, 4), ids=[5, 12, 0, 1]))
    T.append(Task("divide.2", div, budget=90, validate=12, cards=(2,), ids=[1]))
    T.append(Task("divide.3", div, budget=90, validate=12, cards=(3,), ids=[1]))
    T.append(Task("divide.22", div, budget=90, validate=12, cards=(2, 2), ids=[3, 1]))
    T.append(Task("normalize.2", norm, budget=90, validate=12, cards=(2,), ids=[1]))
    T.append(Task("normalize.4", norm, budget=90, validate=12, cards=(4,), ids=[1]))
    T.append(Task("normalize.23", norm, budget=90, validate=12, cards=(2, 3), ids=[4, 1]))
    T.append(Task("message.1", message, budget=90, validate=8, left=[1, 2], right=[2, 3], cards=(2, 2, 2)))
    T.append(Task("message.2", message, budget=90, validate=8, left=[3, 1, 2], right=[4, 2, 3], cards=(2, 2, 2, 2)))
    T.append(Task("message.card", message, budget=90, validate=8, left=[12, 2], right=[3, 12], cards=(2, 3, 4)))
    for nm, f in (("cpt", cpt), ("unit", blank), ("marginal", marg), ("multiply", mult), ("divide", div), ("texts", texts), ("entries", entries)):
        T.append(Task("%s.alike" % nm, f, budget=90, validate=8, cards=(2,) if f is div else (3, 2), ids=[10, 2], alike=True))
    T.append(Task("multiply.alike.8", mult, budget=90, validate=4, cards=(8,), ids=[0], alike=True))
    T.append(Task("marginal.alike.8", marg, budget=90, validate=4, cards=(8, 2), ids=[9, 10], alike=True))
    for k in "abe":
        T.append(Task("texts.%s" % k, texts, budget=90, validate=8, cards=CARDS[k], ids=[10, 2, 113][: len(CARDS[k])]))
        if k != "b":
            T.append(Task("entries.%s" % k, entries, budget=90, validate=8, cards=CARDS[k], ids=[10, 2, 113][: len(CARDS[k])]))
    T.append(Task("wide.5", wide, budget=90, validate=2, cards=(2, 2, 2, 2, 2), ids=[10, 2, 7, 113, 0], keep=[3, 0]))
    T.append(Task("wide.6", wide, budget=90, validate=2, cards=(2, 2, 2, 2, 2, 2), ids=[10, 2, 7, 113, 0, 1], keep=[5, 4, 3, 2, 0]))
    T.append(Task("wide.values", wide, budget=90, validate=2, cards=(12, 3), ids=[1, 0], keep=[0]))
    T.append(Task("wide.values.2", wide, budget=90, validate=2, cards=(3, 11), ids=[4, 3], keep=[1, 0]))
    if tier == "thorough":
        T.append(Task("t.wide.7", wide, budget=1500, validate=2, cards=(2,) * 7, ids=[10, 2, 7, 113, 0, 1, 3], keep=[6, 1, 3, 0, 2]))
        T.append(Task("t.marginal", marg, budget=1500, validate=20, cards=(2, 3, 2, 4), ids=[5, 12, 0, 1]))
        T.append(Task("t.multiply", mult, budget=1500, validate=20, cards=(2, 2, 3, 2), ids=[5, 12, 0, 1]))
        T.append(Task("t.divide", div, budget=1500, validate=20, cards=(2, 3), ids=[5, 12]))
        T.append(Task("t.normalize", norm, budget=1500, validate=20, cards=(2, 2, 3), ids=[5, 12, 1]))
        T.append(Task("t.message", message, budget=1500, validate=20, left=[3, 1, 2, 5], right=[4, 2, 3, 1], cards=(2, 3, 2, 2, 2)))
    return T
