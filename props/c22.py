"""C22: importing a libpgm network."""
import copy
import itertools
import json

from symex.explore import Task
from pybbn.graph.factory import Factory
from props import structure as S
from props.common import value_names

BOUNDS = ("every DAG on 3 nodes and named ones of up to 5 nodes with up to 4 parents, one of 12 nodes; 2-4 values per node (12 in one); every order of V and of the ordinals, parent lists in several orders, "
          "the three entry points; every probability in [0,1]")
OUTSIDE = "values that contain quotes or backslashes (the keys of a libpgm table quote them plainly); descriptions with missing fields"


class Thing:
    pass


def describe(ctx, names, cards, parents, ords, vorder, dorder, zeros=True, values=None):
    vals = values or {n: value_names(k, c) for k, (n, c) in enumerate(zip(names, cards))}
    table = {}
    vdata = {}
    for n in dorder:
        k = len(vals[n])
        ps = parents[n]
        rows = {}
        for combo in itertools.product(*[vals[p] for p in ps]):
            rows[combo] = ctx.row("p.%s.%s" % (n, "/".join(combo)), k, positive=not zeros)
        table[n] = rows
        if ps:
            # listed in an order that is not the one of the parents' domains
            cprob = {"[%s]" % ", ".join("'%s'" % v for v in c): list(r) for c, r in list(rows.items())[::-1]}
        else:
            cprob = list(rows[()])
        vdata[n] = {"ord": ords[n], "numoutcomes": k, "vals": list(vals[n]), "parents": list(ps) if ps else (None if ords[n] % 2 else []),
                    "children": [c for c in names if n in parents[c]] or None, "cprob": cprob}
    E = [[p, c] for c in names for p in parents[c]]
    return {"V": list(vorder), "E": E, "Vdata": vdata}, table, vals


def run(ctx, names, cards, parents, ords=None, how=None, order=True, values=None):
    ords = ords or {n: k for k, n in enumerate(names)}
    left, vorder = list(names), []
    while left and order:
        vorder.append(left.pop(ctx.choose("v%d" % len(vorder), len(left))))
    vorder = vorder or list(names)
    dorder = list(names)[::-1] if ctx.flag("back") else list(names)
    how = how if how is not None else ctx.choose("how", 3)
    d, table, vals = describe(ctx, names, cards, parents, ords, vorder, dorder, values=values)
    keep = copy.deepcopy({n: [v["vals"], v["parents"], list(v["cprob"]), v["ord"]] for n, v in d["Vdata"].items()})
    if how == 0:
        bbn = Factory.from_libpgm_discrete_json(json.dumps(d))
    elif how == 1:
        bbn = Factory.from_libpgm_discrete_dictionary(d)
    else:
        o = Thing()
        o.V, o.E, o.Vdata = d["V"], d["E"], d["Vdata"]
        bbn = Factory.from_libpgm_discrete_object(o)
    nodes = list(bbn.get_nodes())
    ctx.check(sorted(nd.id for nd in nodes) == sorted(ords.values()), "ids", "ids %s" % [nd.id for nd in nodes])
    for n in names:
        nd = bbn.get_node(ords[n])
        ctx.check(nd.variable.name == n, "names", "node %s is called %s, not %s" % (ords[n], nd.variable.name, n))
        ctx.check(nd.variable.id == ords[n], "names", "variable %s" % nd.variable.id)
        ctx.check(list(nd.variable.values) == vals[n], "values", "values of %s: %s" % (n, nd.variable.values))
    edges = [(e.i.variable.name, e.j.variable.name) for e in bbn.get_edges()]
    ctx.check(sorted(edges) == sorted((p, c) for c in names for p in parents[c]), "edges", "edges %s" % edges)
    for n in names:
        nd = bbn.get_node(ords[n])
        pas = [p for p, c in edges if c == n]
        rows = list(itertools.product(*[vals[p] for p in pas]))
        k = len(vals[n])
        ctx.check(len(nd.probs) == k * len(rows), "cpt", "%d probabilities for %s" % (len(nd.probs), n))
        for r, combo in enumerate(rows):
            asg = dict(zip(pas, combo))
            want = table[n][tuple(asg[p] for p in parents[n])]
            for j in range(k):
                ctx.check_eq(nd.probs[r * k + j], want[j], "cpt", "P(%s=%s | %s)" % (n, vals[n][j], asg))
    now = {n: [v["vals"], v["parents"], list(v["cprob"]), v["ord"]] for n, v in d["Vdata"].items()}
    ctx.check(all(now[n][0] == keep[n][0] and now[n][1] == keep[n][1] and now[n][3] == keep[n][3] and len(now[n][2]) == len(keep[n][2]) for n in names),
              "input", "the description was modified")


def family(ctx, n, names, cards, ords, bits=None, **kw):
    es = S.flags(ctx, n, bits)
    rev = ctx.flag("rev")
    parents = {names[c]: [names[a] for a, b in es if b == c] for c in range(n)}
    if rev:
        parents = {k: v[::-1] for k, v in parents.items()}
    run(ctx, names, cards, parents, ords=dict(zip(names, ords)), **kw)


def tasks(tier):
    T = []

    def add(name, *a, **kw):
        T.append(Task(name, run, budget=kw.pop("budget", 90), names=a[0], cards=a[1], parents=a[2], **kw))
    add("single", ["x"], [3], {"x": []})
    add("chain2", ["B", "A"], [2, 3], {"B": [], "A": ["B"]}, ords={"B": 5, "A": 2})
    add("collider", ["G", "D", "I"], [3, 2, 2], {"G": ["I", "D"], "I": [], "D": []}, ords={"G": 0, "D": 2, "I": 1})
    add("collider.asym", ["G", "D", "I"], [2, 3, 4], {"G": ["I", "D"], "I": [], "D": []}, ords={"G": 9, "D": 20, "I": 10}, order=False)
    add("student", ["Grade", "Difficulty", "Intelligence", "SAT", "Letter"], [3, 2, 2, 2, 2],
        {"Grade": ["Difficulty", "Intelligence"], "SAT": ["Intelligence"], "Letter": ["Grade"], "Difficulty": [], "Intelligence": []},
        ords={"Grade": 1, "Difficulty": 0, "Intelligence": 4, "SAT": 3, "Letter": 2}, order=False)
    add("parents4", ["c", "p", "q", "r", "s"], [2, 2, 3, 2, 2], {"c": ["s", "q", "p", "r"], "p": [], "q": [], "r": [], "s": []}, order=False)
    add("values", ["a", "b"], [2, 3], {"a": [], "b": ["a"]}, values={"a": ["x, y", "[z]"], "b": ["", " ", "1.5"]})
    add("values.parent", ["a", "b", "c"], [4, 2, 3], {"a": [], "b": ["a"], "c": ["b", "a"]},
        values={"a": [" x", "x", "X", "x "], "b": ["", " "], "c": ["01", "1", "1.0"]})
    add("values12", ["a", "b"], [12, 2], {"a": [], "b": ["a"]}, values={"a": ["%d" % k for k in range(12)], "b": ["y", "n"]}, ords={"a": 10, "b": 9}, order=False)
    eight = ["n%d" % k for k in range(12)]
    add("many", eight, [2] * 12, {n: [eight[j] for j in range(k) if k < 5 and (k + j) % 3 or k - j in (1, 4) and k > 7] for k, n in enumerate(eight)},
        ords={n: (k * 5 + 2) % 12 for k, n in enumerate(eight)}, order=False)
    for h in range(3):
        T.append(Task("all3.%d" % h, family, budget=90, n=3, names=["m", "k", "l"], cards=(2, 3, 2), ords=(1, 0, 2), how=h, order=False))
    T.append(Task("all3.order", family, budget=90, n=3, names=["m", "k", "l"], cards=(2, 2, 2), ords=(12, 3, 7), how=1))
    if tier == "thorough":
        for b in range(4):
            T.append(Task("t.all4.%d" % b, family, budget=2500, n=4, names=["m", "k", "l", "a"], cards=(2, 3, 2, 2), ords=(12, 3, 7, 0), bits=[bool(b & 1), bool(b & 2)]))
        add("t.student", ["Grade", "Difficulty", "Intelligence", "SAT", "Letter"], [3, 2, 2, 2, 2],
            {"Grade": ["Difficulty", "Intelligence"], "SAT": ["Intelligence"], "Letter": ["Grade"], "Difficulty": [], "Intelligence": []},
            ords={"Grade": 1, "Difficulty": 0, "Intelligence": 4, "SAT": 3, "Letter": 2}, budget=2500)
    return T
