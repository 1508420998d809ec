"""C23: Gaussian inference gives the conditional covariance and mean."""
from fractions import Fraction

import numpy as np

from symex.explore import Task
from symex.shims import sym_inv
from pybbn.gaussian.inference import GaussianInference

BOUNDS = ("1-4 variables (5 in thorough), every subset and order of observed variables up to 3, and 6-12 variables with up to 7 observed and fixed covariances, in one call or one by one; covariance L L^T with L arbitrary (2-3 variables) "
          "or diagonally dominant with arbitrary entries (4-5); every observed value; zero prior means except where the finding is watched")
OUTSIDE = "conditioning numbers and float rounding; singular covariance; more variables"
ASSUMPTIONS = ["np.random.normal draws from the distribution it is given"]


def matrix(ctx, n, kind):
    E = np.empty((n, n), dtype=object)
    if kind == "chol":
        L = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                L[i][j] = ctx.real("l%d%d" % (i, j), -3, 3)
            L[i][i] = ctx.real("l%d%d" % (i, i), 0, 3, lo_open=True)
        for i in range(n):
            for j in range(n):
                t = 0
                for k in range(min(i, j) + 1):
                    t = t + L[i][k] * L[j][k]
                E[i, j] = t
    elif kind == "const":  # many variables: the covariances are fixed, one variance and the observed values are not
        for i in range(n):
            E[i, i] = n + Fraction(3 * i % 5, 7) if i != 1 else ctx.real("e11", n, n + 3)
            for j in range(i):
                E[i, j] = E[j, i] = Fraction((7 * i + 5 * j) % 9 - 4, 10)
    else:
        for i in range(n):
            E[i, i] = ctx.real("e%d%d" % (i, i), n, n + 3)
            for j in range(i):
                E[i, j] = E[j, i] = ctx.real("e%d%d" % (i, j), -1, 1)
    if not ctx.sym:
        E = E.astype(float)
    return E


def inverse(ctx, A):
    return sym_inv(A) if ctx.sym else np.linalg.inv(np.array(A, dtype=float))


def conditional(ctx, E, m, zi, yi, z):
    """Means and covariance of y given z by definition."""
    n = len(yi)
    if not zi:
        return [m[i] for i in yi], [[E[i][j] for j in yi] for i in yi]
    W = inverse(ctx, np.array([[E[i][j] for j in zi] for i in zi], dtype=object))
    K = [[sum((E[i][a] * W[p, q] for p, a in enumerate(zi)), 0 * E[i][i]) for q in range(len(zi))] for i in yi]
    mean, cov = [], []
    for r, i in enumerate(yi):
        t = m[i]
        for q, a in enumerate(zi):
            t = t + K[r][q] * (z[q] - m[a])
        mean.append(t)
        row = []
        for j in yi:
            t = E[i][j]
            for q, a in enumerate(zi):
                t = t - K[r][q] * E[a][j]
            row.append(t)
        cov.append(row)
    return mean, cov


def pick(ctx, n, k):
    left, out = list(range(n)), []
    for s in range(k):
        out.append(left.pop(ctx.choose("z%d" % s, len(left))))
    return out


def known_formula(ctx, E, M, steps):
    """What the recorded finding computes: stored means m_y - S (z - m_z), reported negated."""
    n = len(M)
    M = list(M)
    E = [[E[i][j] for j in range(n)] for i in range(n)]
    left = list(range(n))
    for obs in steps:
        zi = [left.index(v) for v, _ in obs]
        yi = [i for i in range(len(left)) if i not in zi]
        minus, cov = conditional(ctx, E, M, zi, yi, [o for _, o in obs])
        M = [2 * M[i] - x for i, x in zip(yi, minus)]
        E = cov
        left = [left[i] for i in yi]
    return {v: -m for v, m in zip(left, M)}


def run(ctx, n, k, kind="chol", sequential=False, prior=False, names=None, order=None, sample=False):
    H = names or ["v%d" % i for i in range(n)]
    E = matrix(ctx, n, kind)
    M = [ctx.real("m%d" % i, -2, 2) if prior else 0.0 for i in range(n)]
    zi = list(order) if order is not None else pick(ctx, n, k)
    z = [ctx.real("o%d" % a, -3, 3) for a in zi]
    Marr = np.array(M, dtype=object if prior and ctx.sym else float)
    g0 = GaussianInference(list(H), Marr, E)
    keepE, keepM = E.copy(), list(Marr)
    cut = ctx.choose("cut", len(zi)) if sequential and len(zi) > 1 else 0
    obs = [(a, x) for a, x in zip(zi, z)]
    if not sequential:
        steps = [obs]
        g = g0.do_inferences([(H[a], x) for a, x in obs])
    elif cut == 0:
        steps = [[o] for o in obs]
        g = g0
        for a, x in obs:
            g = g.do_inference(H[a], x)
    else:
        steps = [obs[:cut], obs[cut:]]
        g = g0.do_inferences([(H[a], x) for a, x in obs[:cut]]).do_inferences([(H[a], x) for a, x in obs[cut:]])
    yi = [i for i in range(n) if i not in zi]
    mean, cov = conditional(ctx, keepE, M, zi, yi, z)
    # covariance of what is left, in the order of the headers
    ctx.check(list(g.H) == [H[i] for i in yi], "headers", "%s left" % (list(g.H),))
    ctx.check(np.asarray(g.E).shape == (len(yi), len(yi)), "shape", "covariance of shape %s" % (np.asarray(g.E).shape,))
    for r in range(len(yi)):
        for c in range(len(yi)):
            ctx.check_eq(g.E[r][c], cov[r][c], "cov", "cov(%s,%s)" % (H[yi[r]], H[yi[c]]), tol=1e-6)
    P = g.P
    ctx.check(sorted(map(str, P)) == sorted(map(str, H)), "P.names", "P has %s" % sorted(map(str, P)))
    for a, x in obs:
        ctx.check_eq(P[H[a]][0], x, "observed", "value of %s" % H[a])
        ctx.check_eq(P[H[a]][1], 0, "observed", "variance of %s" % H[a])
    wrong = known_formula(ctx, keepE, M, steps) if prior or sequential else None
    for r, i in enumerate(yi):
        got = P[H[i]]
        ctx.check_eq(got[1], cov[r][r], "var", "variance of %s" % H[i], tol=1e-6)
        if wrong is None:
            ctx.check_eq(got[0], mean[r], "mean", "mean of %s" % H[i], tol=1e-6)
    marg = {m["name"]: m for m in g.marginals}
    ctx.check(len(g.marginals) == n and set(marg) == set(H), "marginals", "marginals of %s" % sorted(map(str, marg)))
    for h in H:
        ctx.check_eq(marg[h]["mean"], P[h][0], "marginals", "mean of %s" % h)
        ctx.check_eq(marg[h]["var"], P[h][1], "marginals", "variance of %s" % h)
    # the original still describes the prior
    ctx.check(list(g0.H) == list(H) and len(g0.P) == n, "original", "the original lost variables")
    P0 = g0.P
    for i in range(n):
        ctx.check_eq(P0[H[i]][1], keepE[i][i], "original", "variance of %s" % H[i])
        ctx.check_eq(g0.M[i], keepM[i], "original", "mean of %s" % H[i])
        for j in range(n):
            ctx.check_eq(E[i][j], keepE[i][j], "original", "covariance passed in")
    # another inference from the original leaves the first result alone, and a new object starts clean
    before = {h: P[h] for h in H}
    others = [a for a in (zi[:1] or [0])]
    g0.do_inferences([(H[a], 7.0) for a in others])
    P = g.P
    for h in H:
        ctx.check_eq(P[h][0], before[h][0], "branch", "mean of %s after another inference from the original" % h)
        ctx.check_eq(P[h][1], before[h][1], "branch", "variance of %s after another inference from the original" % h)
    fresh = GaussianInference(["q"], np.array([0.0]), np.array([[1.0]]))
    ctx.check(list(fresh.P) == ["q"], "fresh", "a new object reports %s" % list(fresh.P))
    if sample:
        draws = {}
        del CALLS[:]
        out = g.sample_marginals(size=3)
        ctx.check(set(out) == set(H), "sample", "samples of %s" % sorted(out))
        for h in H:
            s = list(out[h])
            ctx.check(len(s) == 3, "sample", "%d samples" % len(s))
            k = int(s[0])
            ctx.check(all(int(v) == k for v in s) and 0 <= k < len(CALLS), "sample", "samples of %s come from several draws" % h)
            m, sd = CALLS[k]
            draws.setdefault(k, h)
            ctx.check(draws[k] == h, "sample", "%s and %s share a draw" % (h, draws[k]))
            ctx.check_eq(m, P[h][0], "sample", "mean of the samples of %s" % h)
            if h in [H[i] for i in yi]:
                ctx.check_eq(sd * sd, P[h][1], "sample", "variance of the samples of %s" % h, tol=1e-6)
                ctx.check(sd > 0, "sample", "spread of %s" % h)
    if wrong is not None:
        label = "mean.nonzero" if prior else "mean.sequential"
        for r, i in enumerate(yi):
            got = P[H[i]][0]
            ctx.check_eq((got - mean[r]) * (got - wrong[i]), 0 * got, "mean", "mean of %s is neither the conditional mean nor what the recorded finding gives" % H[i], tol=1e-6)
        for r, i in enumerate(yi):
            ctx.check_eq(P[H[i]][0], mean[r], label, "mean of %s" % H[i], tol=1e-6)


CALLS = []


def install(ctx):
    def normal(loc=0.0, scale=1.0, size=None):
        CALLS.append((loc, scale))
        return np.full(size, len(CALLS) - 1, dtype=float)
    return [(np.random, "normal", normal)]


def tasks(tier):
    T = []

    def add(name, **kw):
        T.append(Task(name, run, budget=kw.pop("budget", 90), shims=install, **kw))
    add("n1.0", n=1, k=0, sample=True)
    add("n2.0", n=2, k=0)
    add("n2.1", n=2, k=1, sample=True)
    add("n2.2", n=2, k=2)
    add("n3.1", n=3, k=1)
    add("n3.2", n=3, k=2)
    add("n3.sample", n=3, k=1, order=[1], sample=True, kind="dom")
    add("n3.seq", n=3, k=2, sequential=True)
    add("names", n=3, k=2, kind="dom", names=["b", "a", "C 1"])
    add("int.names", n=3, k=1, kind="dom", names=[2, 0, 1])
    add("n4.1", n=4, k=1, kind="dom")
    add("n4.2", n=4, k=2, kind="dom")
    add("n4.3", n=4, k=3, kind="dom", order=[3, 0, 2])
    add("n4.seq", n=4, k=2, kind="dom", sequential=True, order=[2, 0])
    add("n8.none", n=8, k=0, kind="const")
    add("n8.1", n=8, k=1, kind="const")
    add("n7.5", n=7, k=5, kind="const", order=[6, 0, 3, 5, 2])
    add("n7.all", n=7, k=7, kind="const", order=[6, 0, 3, 5, 2, 4, 1])
    add("n12.6", n=12, k=6, kind="const", order=[11, 2, 10, 0, 7, 4], sample=True, names=["v%d" % (i * 7 % 12) for i in range(12)])
    add("n6.seq", n=6, k=4, kind="const", sequential=True, order=[4, 0, 5, 2])
    add("n6.prior", n=6, k=2, kind="const", prior=True, order=[4, 1])
    add("n2.prior", n=2, k=1, prior=True)
    add("n2.prior.none", n=2, k=0, prior=True)
    add("n3.prior", n=3, k=2, prior=True, order=[2, 0])
    if tier == "thorough":
        B = 2500
        add("t.n3.chol.seq", n=3, k=2, sequential=True, prior=True, budget=B)
        add("t.n4.3", n=4, k=3, kind="dom", budget=B)
        add("t.n4.seq", n=4, k=3, kind="dom", sequential=True, budget=B)
        add("t.n4.chol", n=4, k=2, order=[3, 1], budget=B)
        add("t.n5.2", n=5, k=2, kind="dom", budget=B)
        add("t.n5.3", n=5, k=3, kind="dom", order=[4, 1, 0], budget=B)
    return T
