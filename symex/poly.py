"""Sparse multivariate polynomials with exact rational coefficients.

Used as the symbolic state of the executed program's numbers.  A monomial is a
sorted tuple of variable indices (with repetition); a Poly is a dict
monomial -> Fraction/int with no zero coefficients.
"""
from fractions import Fraction
import heapq

ONE_M = ()


class Poly:
    __slots__ = ("t", "_key")

    def __init__(self, t):
        self.t = t
        self._key = None

    # -- construction -------------------------------------------------
    @staticmethod
    def const(c):
        return Poly({ONE_M: c} if c != 0 else {})

    @staticmethod
    def var(i):
        return Poly({(i,): 1})

    # -- inspection ---------------------------------------------------
    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE_M in self.t)

    def const_value(self):
        return self.t.get(ONE_M, 0)

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def vars(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def same(self, o):
        return self.t == o.t

    # -- arithmetic ---------------------------------------------------
    def add(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            return o.scale(self.t[ONE_M])
        if o.is_const():
            return self.scale(o.t[ONE_M])
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m)
                if v is None:
                    r[m] = c1 * c2
                else:
                    v = v + c1 * c2
                    if v == 0:
                        del r[m]
                    else:
                        r[m] = v
        return Poly(r)

    def power(self, n):
        r = ONE
        for _ in range(n):
            r = r.mul(self)
        return r

    def divexact(self, d):
        """Quotient if d divides self exactly, else None."""
        if not self.t:
            return ZERO
        if self.t == d.t:
            return ONE
        if d.is_const():
            return self.scale(Fraction(1) / Fraction(d.t[ONE_M]))
        if self.is_const():
            return None
        dm = min(d.t, key=_order)
        dc = Fraction(d.t[dm])
        drest = [(m, c) for m, c in d.t.items() if m != dm]
        if not drest:
            q = {}
            for m, c in self.t.items():
                k = _mono_div(m, dm)
                if k is None:
                    return None
                q[k] = _norm(c / dc)
            return Poly(q)
        # quick reject: every variable of d must occur in self
        if not d.vars() <= self.vars() or d.degree() > self.degree():
            return None
        r = dict(self.t)
        heap = [_order(m) + (m,) for m in r]
        heapq.heapify(heap)
        q = {}
        while r:
            while heap and heap[0][-1] not in r:
                heapq.heappop(heap)
            m = heap[0][-1]
            k = _mono_div(m, dm)
            if k is None:
                return None
            c = _norm(r[m] / dc)
            q[k] = c
            del r[m]
            for m2, c2 in drest:
                mm = tuple(sorted(k + m2))
                v = r.get(mm)
                if v is None:
                    r[mm] = -c * c2
                    heapq.heappush(heap, _order(mm) + (mm,))
                else:
                    v = v - c * c2
                    if v == 0:
                        del r[mm]
                    else:
                        r[mm] = v
        return Poly(q)

    def subst_zero(self, zs):
        if not zs:
            return self
        r = {m: c for m, c in self.t.items() if not any(v in zs for v in m)}
        return self if len(r) == len(self.t) else Poly(r)

    def subst(self, env):
        """env: var index -> Poly."""
        if not any(v in env for m in self.t for v in m):
            return self
        out = ZERO
        for m, c in self.t.items():
            keep = tuple(v for v in m if v not in env)
            p = Poly({keep: c})
            for v in m:
                if v in env:
                    p = p.mul(env[v])
            out = out.add(p)
        return out

    def evaluate(self, env):
        tot = 0
        for m, c in self.t.items():
            p = c
            for v in m:
                p = p * env[v]
            tot = tot + p
        return tot

    def content_normalised(self):
        """Scale so that the leading coefficient is 1 (for interning)."""
        if not self.t:
            return self
        m = min(self.t, key=_order)
        return self.scale(Fraction(1) / Fraction(self.t[m]))

    def __repr__(self):
        return "Poly(%r)" % (self.t,)


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _order(m):
    return (-len(m), m)


def _mono_div(m, d):
    if len(d) > len(m):
        return None
    out = []
    j = 0
    nd = len(d)
    for v in m:
        if j < nd and d[j] == v:
            j += 1
        else:
            out.append(v)
    return tuple(out) if j == nd else None


ZERO = Poly({})
ONE = Poly({ONE_M: 1})
