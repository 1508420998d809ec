"""C21: networks learned from data hold the empirical conditional frequencies."""
import itertools
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from symex.explore import Task
from pybbn.graph.factory import Factory
from props import structure as S

BOUNDS = ("every DAG on 2-3 variables over an order of the names, named structures of 3-5 variables with up to 4 parents; 2-3 possible values per variable (12 for some), "
          "each observed or not; every vector of nonnegative multiplicities of the joint records; several spellings of names and values, orders of columns, keys and parents")
OUTSIDE = "missing values; columns without data; variables of the data that are not in the structure; more variables or values"
ASSUMPTIONS = ["a data frame is its columns and the multiplicities of its joint records; selection by ==, !=, isin, &, |, ~, column selection, shape and value_counts have pandas' meaning "
               "(anything else runs on real pandas frames only, at the values of solver models)"]


class Mask:
    def __init__(self, bits, f):
        self.b = list(bits)
        self.f = f

    def __and__(self, o):
        return Mask((x and y for x, y in zip(self.b, o.b)), self.f)

    def __or__(self, o):
        return Mask((x or y for x, y in zip(self.b, o.b)), self.f)

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return Mask((not x for x in self.b), self.f)

    def sum(self):
        return self.f.total(self.b)

    def mean(self):
        return self.sum() / self.f.total()

    def any(self):
        return self.sum() > 0


class Rows:
    def __init__(self, f):
        self.f = f

    def total(self):
        return self.f.total()

    @property
    def size(self):
        return self.f.total()


class Groups:
    def __init__(self, f, by):
        self.f, self.one = f, not isinstance(by, list)
        self.by = [by] if self.one else list(by)

    def __iter__(self):
        for k in itertools.product(*[sorted(set(r[b] for r in self.f.recs)) for b in self.by]):
            sub = self.f
            for b, v in zip(self.by, k):
                sub = sub[sub[b] == v]
            t = sub.total()
            if (t > 0) if isinstance(t, int) else bool(t > 0):
                yield (k[0] if self.one else k), sub

    def size(self):
        out = [(k, sub.total()) for k, sub in self]
        idx = pd.Index([k for k, _ in out]) if self.one else pd.MultiIndex.from_tuples([k for k, _ in out], names=self.by)
        return pd.Series([c for _, c in out], index=idx, dtype=object)

    count = size

    def get_group(self, k):
        for key, sub in self:
            if key == k:
                return sub
        raise KeyError(k)

    @property
    def groups(self):
        return dict(self)


def real_len(x):
    """len() of a frame is the number of its rows."""
    if isinstance(x, (Frame, Column, Rows)):
        return x.total()
    return len(x)


def install(ctx):
    import pybbn.graph.factory as m
    return [(m, "len", real_len)] if ctx.sym else []


class Frame:
    """The part of a pandas frame that depends on multiplicities only."""

    def __init__(self, names, recs, w, keep=None):
        self.names, self.recs, self.w = list(names), recs, w
        self.keep = list(keep) if keep is not None else [True] * len(recs)

    @property
    def columns(self):
        return pd.Index(self.names)

    def total(self, extra=None):
        t = 0
        for i, k in enumerate(self.keep):
            if k and (extra is None or extra[i]):
                t = t + self.w[i]
        return t

    @property
    def shape(self):
        return (self.total(), len(self.names))

    @property
    def index(self):
        return Rows(self)

    def groupby(self, by, **k):
        return Groups(self, by)

    def copy(self, deep=True):
        return Frame(self.names, self.recs, self.w, self.keep)

    @property
    def loc(self):
        return self

    @property
    def empty(self):
        return self.total() == 0

    def __getitem__(self, k):
        if isinstance(k, Mask):
            return Frame(self.names, self.recs, self.w, [a and b for a, b in zip(self.keep, k.b)])
        if isinstance(k, (list, pd.Index)):
            return Frame(list(k), self.recs, self.w, self.keep)
        if isinstance(k, tuple):
            return self[k[0]][k[1]]
        if k not in self.names:
            raise KeyError(k)
        return Column(self, k)

    def __iter__(self):
        return iter(self.names)

    def __contains__(self, k):
        return k in self.names


class Column:
    def __init__(self, f, name):
        self.f, self.name = f, name
        self.vals = [r[name] for r in f.recs]

    def __eq__(self, v):
        return Mask((x == v for x in self.vals), self.f)

    def __ne__(self, v):
        return Mask((x != v for x in self.vals), self.f)

    __hash__ = None

    def isin(self, vs):
        return Mask((x in list(vs) for x in self.vals), self.f)

    @property
    def shape(self):
        return (self.f.total(),)

    def observed(self):
        out = []
        for v in dict.fromkeys(self.vals):
            c = self.f.total([x == v for x in self.vals])
            if isinstance(c, int):
                if c > 0:
                    out.append((v, c))
            elif bool(c > 0):
                out.append((v, c))
        return out

    def total(self):
        return self.f.total()

    @property
    def size(self):
        return self.f.total()

    def count(self):
        return self.f.total()

    def unique(self):
        out = np.empty(len(self.observed()), dtype=object)
        for i, (v, _) in enumerate(self.observed()):
            out[i] = v
        return out

    def nunique(self):
        return len(self.observed())

    def value_counts(self, normalize=False, sort=True, ascending=False):
        obs = self.observed()
        out = []
        for v, c in obs:  # most frequent first
            k = 0
            while sort and k < len(out) and bool(out[k][1] >= c):
                k += 1
            out.insert(k if sort else len(out), (v, c))
        if ascending:
            out = out[::-1]
        t = self.f.total()
        s = pd.Series([c / t if normalize else c for _, c in out], index=pd.Index([v for v, _ in out]), dtype=object)
        return s


def frame(ctx, names, recs):
    w = [ctx.real("m%d" % i, 0) for i in range(len(recs))]
    if ctx.sym:
        return Frame(names, recs, w), w
    q = [Fraction(x).limit_denominator(1000) for x in w]
    den = 1
    for x in q:
        den = den * x.denominator // math.gcd(den, x.denominator)
    if den * sum(q) > 100000:
        top = max(q)
        cnt = [max(1, round(float(x / top) * 4000)) if x > 0 else 0 for x in q]
    else:
        cnt = [int(x * den) for x in q]
        if sum(cnt) < 12:
            cnt = [3 * c for c in cnt]
    rows = []
    left = list(cnt)
    while any(left):  # interleaved, so that no value's rows are contiguous
        for i, r in enumerate(recs):
            if left[i]:
                rows.append(r)
                left[i] -= 1
    df = pd.DataFrame(rows, columns=names)
    return df, cnt


def weight(w, recs, cond):
    t = 0
    for i, r in enumerate(recs):
        if all(r[k] == v for k, v in cond.items()):
            t = t + w[i]
    return t


def run(ctx, structure, values, columns=None, drop=(), keys=None, least=None, falling=False):
    """structure {child: parents}; values {name: possible values}; drop: indices of records that never occur;
    least: every other record occurs that often; falling: each more often than the next."""
    names = list(columns or values)
    if keys:
        structure = {k: structure[k] for k in keys}
    recs = [dict(zip(names, v)) for v in itertools.product(*[values[n] for n in names])]
    recs = [r for i, r in enumerate(recs) if i not in drop]
    df, w = frame(ctx, names, recs)
    tot = weight(w, recs, {})
    ctx.assume(tot > 0)
    if least is not None:
        for x in w:
            ctx.assume(x >= least)
    if falling:
        for x, y in zip(w, w[1:]):
            ctx.assume(x > y)
    given = {k: list(v) for k, v in structure.items()}
    bbn = Factory.from_data(structure, df)
    ctx.check({k: list(v) for k, v in structure.items()} == given, "input", "the structure became %s" % structure)
    nodes = list(bbn.get_nodes())
    by = {nd.variable.name: nd for nd in nodes}
    ctx.check(len(nodes) == len(names) and set(by) == set(names), "nodes", "nodes %s" % sorted(map(str, by)))
    ctx.check(len({nd.id for nd in nodes}) == len(nodes), "ids", "ids %s" % [nd.id for nd in nodes])
    edges = [(e.i.variable.name, e.j.variable.name) for e in bbn.get_edges()]
    want = sorted((p, c) for c, ps in structure.items() for p in ps)
    ctx.check(sorted(edges) == want, "edges", "edges %s, structure %s" % (edges, structure))
    dom = {}
    for n in names:
        obs = [v for v in sorted(values[n]) if bool(weight(w, recs, {n: v}) > 0)]
        got = list(by[n].variable.values)
        ctx.check(len(got) == len(obs) and all(a == b for a, b in zip(got, obs)), "domain", "values of %s: %s, observed %s" % (n, got, obs))
        dom[n] = obs
    for n in names:
        pas = [p for p, c in edges if c == n]
        k = len(dom[n])
        probs = list(by[n].probs)
        rows = list(itertools.product(*[dom[p] for p in pas]))
        ctx.check(len(probs) == k * len(rows), "size", "%d probabilities for %s" % (len(probs), n))
        for r, cfg in enumerate(rows):
            cond = dict(zip(pas, cfg))
            den = weight(w, recs, cond)
            none = bool(den == 0)
            for j, v in enumerate(dom[n]):
                x = probs[r * k + j]
                num = weight(w, recs, dict(cond, **{n: v})) if all(isinstance(q, str) for q in cond) else weight(w, recs, {**cond, n: v})
                ctx.check_eq(x, Fraction(1, k) if none else num / den, "unseen" if none else "frequency",
                             "P(%s=%s | %s)" % (n, v, cond))


def family(ctx, n, names, cards, columns=None, **kw):
    """Every DAG over the names; parents listed in reverse."""
    order = list(range(n))
    es = [(names[a], names[b]) for a, b in S.flags(ctx, n)]
    structure = {x: [p for p, c in es if c == x][::-1] for x in names}
    values = {x: ["%s%d" % (x, k) for k in range(c)] for x, c in zip(names, cards)}
    run(ctx, structure, values, columns=columns, **kw)


def tasks(tier):
    T = []

    def add(name, structure, values, **kw):
        T.append(Task(name, run, budget=kw.pop("budget", 90), shims=install, structure=structure, values=values, **kw))

    def fam(name, **kw):
        T.append(Task(name, family, budget=kw.pop("budget", 90), shims=install, **kw))
    ab = ["no", "yes"]
    add("one", {"x": []}, {"x": ["c", "a", "b"]})
    add("chain2", {"b": [], "a": ["b"]}, {"a": ["p", "q", "r"], "b": ab})
    add("chain2.back", {"a": [], "b": ["a"]}, {"a": ["q", "p"], "b": [2, 10, 1]}, columns=["b", "a"])
    add("collider", {"a": [], "c": [], "b": ["c", "a"]}, {"b": ab, "a": ["u", "v", "w"], "c": ab}, drop=(1, 4, 7, 9))
    add("collider.names", {"t 1": [], "A": [], "x-y": ["t 1", "A"]}, {"x-y": ab, "t 1": [3, 20], "A": ["it's", 'say "x"']}, drop=(0, 5))
    add("numbers", {"a": [], "b": ["a"]}, {"a": [1.5, -2.0], "b": [0, 1]})
    add("bools", {"a": [], "b": ["a"]}, {"a": [True, False], "b": ["10", "9"]})
    add("keys.reversed", {"c": ["b"], "b": ["a"], "a": []}, {"c": ab, "a": ab, "b": ab}, drop=(2, 5))
    add("parents.given", {"d": ["c", "a", "b"], "a": [], "b": [], "c": []}, {"d": ab, "a": ab, "b": ab, "c": ab}, drop=(0, 3, 4, 6, 9, 10, 12, 15))
    add("values.names", {"a": [], "b": ["a"]}, {"a": ["a", "b"], "b": ["b", "a"]})
    add("values.names.3", {"b": ["c"], "c": [], "a": ["b"]}, {"a": ["a", "b"], "b": ["c", "a"], "c": ["a", "c"]}, drop=(2, 5))
    # larger domains and families: every record occurs at least once
    add("twelve", {"x": ["y"], "y": []}, {"x": ["v%d" % i for i in range(12)], "y": ab}, least=1, falling=True)
    add("twelve.parent", {"x": [], "y": ["x"]}, {"x": list(range(12)), "y": ab}, least=1, falling=True)
    add("five", {"e": ["d", "b", "a", "c"], "a": [], "b": [], "c": [], "d": []}, {n: ab for n in "abcde"}, least=1, columns=list("cebad"))
    add("five.chain", {"n10": ["n9"], "n9": ["n2"], "n2": [], "n1": ["n10", "n2"], "n0": ["n1"]}, {n: ab for n in ("n9", "n10", "n0", "n1", "n2")}, least=1)
    add("mixed.cards", {"p": [], "q": [], "r": ["q", "p"], "s": ["r"]}, {"s": ab, "p": ["1", "10", "2"], "q": ab, "r": ["x", "X"]}, least=1)
    fam("all3", n=3, names=["m", "k", "l"], cards=(2, 2, 2))
    if tier == "thorough":
        B = 2500
        add("t.collider", {"a": [], "c": [], "b": ["c", "a"]}, {"b": ab, "a": ["u", "v", "w"], "c": ab}, budget=B)
        add("t.parents3", {"d": ["c", "a", "b"], "a": [], "b": [], "c": []}, {"d": ab, "a": ab, "b": ab, "c": ab}, drop=(0, 9), budget=B)
        add("t.diamond", {"d": ["c", "b"], "a": [], "b": ["a"], "c": ["a"]}, {"d": ab, "a": ab, "b": ab, "c": ab}, drop=(1, 2, 5, 8, 14), budget=B)
        fam("t.all3.232", n=3, names=["m", "k", "l"], cards=(2, 3, 2), columns=["l", "m", "k"], budget=B)
        fam("t.all3.other", n=3, names=["z1", "a2", "m0"], cards=(3, 2, 2), budget=B)
    return T
