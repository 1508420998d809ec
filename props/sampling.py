"""A model of numpy's random streams: draws are symbolic reals in [0,1) named by (source, seed, position)."""
import numpy as np

from symex.engine import CheckFailed

from props import common as N


class Draws:
    """given: {stream: list of draws}; positions past the list give a fixed filler."""

    def __init__(self, make, filler=0.5, limit=60, over=None):
        self.make = make
        self.on_over = over
        self.filler = filler
        self.limit = limit
        self.over = {}
        self.memo = {}

    def at(self, stream, pos):
        key = (stream, pos)
        if key not in self.memo:
            self.memo[key] = self.make(stream, pos)
        x = self.memo[key]
        return self.filler if x is None else x

    def ask(self, stream, pos):
        """One request; ends runs that keep asking for ever."""
        if self.make(stream, pos) is None:
            self.over[stream] = self.over.get(stream, 0) + 1
            if self.over[stream] > self.limit:
                if self.on_over is not None:
                    self.on_over()
                raise CheckFailed("terminates", "the sampler keeps drawing although enough samples agree with the evidence")


class Source:
    """Stands in for np.random, np.random.RandomState(seed) and np.random.default_rng(seed)."""

    def __init__(self, draws, stream):
        self.d = draws
        self.stream = stream
        self.pos = 0

    def one(self):
        x = self.d.at(self.stream, self.pos)
        self.pos += 1
        return x

    def seed(self, s=None):
        self.stream, self.pos = ("mt", s), 0

    def uniform(self, low=0.0, high=1.0, size=None):
        self.d.ask(self.stream, self.pos)

        def f():
            x = self.one()
            return x if (low == 0 and high == 1) else low + (high - low) * x
        if size is None:
            return f()
        size = (int(size),) if hasattr(size, "__index__") else tuple(int(x) for x in size)
        n = 1
        for s in size:
            n *= s
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = f()
        if all(type(x) is float for x in a):
            a = a.astype(float)
        return a.reshape(size)

    def random_sample(self, size=None):
        return self.uniform(0.0, 1.0, size)

    random = random_sample
    ranf = random_sample

    def rand(self, *dims):
        return self.uniform(0.0, 1.0, dims if dims else None)


CUR = [None]


def install(ctx):
    """Shims for a task: np.random's uniform draws come from CUR[0] (a Source)."""
    R = np.random

    def call(name):
        def f(*a, **k):
            return getattr(CUR[0], name)(*a, **k)
        return f
    out = [(R, n, call(n)) for n in ("seed", "uniform", "random_sample", "random", "rand", "ranf")]
    out.append((R, "RandomState", lambda seed=None: Source(CUR[0].d, ("mt", seed))))
    out.append((R, "default_rng", lambda seed=None: Source(CUR[0].d, ("pcg", seed))))
    return out


def use(make, **kw):
    CUR[0] = Source(Draws(make, **kw), ("mt", "unseeded"))
    return CUR[0]


def mapping(ctx, net):
    """Which position of a block of draws decides which node, observed by running the
    sampler on a concrete network of the same structure (equal CPT rows)."""
    from pybbn.sampling.sampling import LogicSampler
    flat = {i: [1.0 / 4, 3.0 / 4] * net.rows(i) if net.cards[i] == 2 else [1.0 / net.cards[i]] * (net.cards[i] * net.rows(i)) for i in net.cards}
    ids = sorted(net.cards)
    n = len(ids)

    def sample(hot):
        use(lambda stream, pos: None if pos >= n else 0.999 if pos == hot else 0.0)
        return LogicSampler(N.build(net, flat)).get_samples(n_samples=1)[0]
    base = sample(-1)
    out = {}
    for k in range(n):
        s = sample(k)
        moved = [i for i in ids if s[i] != base[i]]
        ctx.check(len(moved) == 1, "draw.per.node", "draw %d decides the nodes %s" % (k, moved))
        out[moved[0]] = k
    ctx.check(len(out) == n, "draw.per.node", "some node has no draw of its own: %s" % out)
    return out


def cumulative(net, pr, i, asg):
    """[lo, hi) of every value of node i given the sampled parents."""
    out, c = [], 0
    for v in range(net.cards[i]):
        a = dict(asg)
        a[i] = v
        nxt = c + N.entry(net, pr, i, a)
        out.append((c, nxt))
        c = nxt
    return out


def topological(net):
    done = []
    while len(done) < len(net.cards):
        for i in sorted(net.cards):
            if i not in done and all(p in done for p in net.pa[i]):
                done.append(i)
                break
    return done


def forward(net, pr, where, block, stop=None):
    """The forward sample a block of draws stands for, by definition.  Branches on the
    draws.  stop: evidence; None is returned as soon as the sample disagrees with it."""
    asg = {}
    for i in topological(net):
        u = block[where[i]]
        last = net.cards[i] - 1
        for v, (lo, hi) in enumerate(cumulative(net, pr, i, asg)):
            if v == last or bool(u < hi):
                asg[i] = v
                break
        if stop is not None and i in stop and asg[i] != stop[i]:
            return None
    return asg
