"""The harness-side interface: the same harness runs symbolically or with floats."""
import math
from fractions import Fraction

import z3

from . import engine as E
from .engine import Engine, SymReal, SymBool, SymInt, CheckFailed, PathEnd


def _z(x):
    return x.z() if isinstance(x, SymBool) else x


class SymCtx:
    sym = True

    def __init__(self, eng):
        self.eng = eng
        self.reached = 0
        self.labels = set()

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return self.eng.real(name, lo, hi, lo_open, hi_open)

    def row(self, name, k, positive=True):
        return self.eng.row(name, k, positive)

    def const(self, x):
        """A constant the code computes with exactly."""
        return SymReal.lift(x)

    def int(self, name, lo=None, hi=None):
        return self.eng.sym_int(name, lo, hi)

    def lazy_int(self, name, lo, hi):
        return self.eng.lazy_int(name, lo, hi)

    def choose(self, name, n):
        if n <= 1:
            return 0
        return self.eng.choose(name, n)

    def flag(self, name):
        return self.eng.flag(name)

    def lazy_flag(self, name):
        return self.eng.lazy_flag(name)

    # Boolean formulas over lazy flags; plain Booleans where they are constant
    def And(self, xs):
        xs = [_z(x) for x in xs]
        if any(x is False for x in xs):
            return False
        xs = [x for x in xs if x is not True]
        return z3.And(xs) if xs else True

    def Or(self, xs):
        return self.Not(self.And([self.Not(x) for x in xs]))

    def Not(self, x):
        x = _z(x)
        return (not x) if isinstance(x, bool) else z3.Not(x)

    def Iff(self, a, b):
        a, b = _z(a), _z(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return a if b else z3.Not(a)
        return a == b

    def formula(self, x):
        """Usable with check, assume and if."""
        x = _z(x)
        return x if isinstance(x, bool) else self.eng.formula(z3.simplify(x))

    def assume(self, cond):
        self.eng.assume(cond)

    def infeasible(self):
        raise PathEnd()

    def check(self, cond, label, detail=""):
        self.reached += 1
        self.labels.add(label)
        self.eng.check_true(cond, label, detail)

    def check_eq(self, a, b, label, detail="", tol=None):
        self.reached += 1
        self.labels.add(label)
        self.eng.check_eq(a, b, label, detail)


class ConCtx:
    """Replay: inputs come from a solver assignment, arithmetic is the machine's."""

    sym = False

    def __init__(self, assignment):
        self.a = assignment
        self.names = set()
        self.reached = 0
        self.labels = set()
        self.missing = 0

    def _name(self, name):
        if name in self.names:
            k = 2
            while "%s#%d" % (name, k) in self.names:
                k += 1
            name = "%s#%d" % (name, k)
        self.names.add(name)
        return name

    def _get(self, name, default):
        if name in self.a:
            v = self.a[name]
            if isinstance(v, list):
                return float(Fraction(v[0], v[1]))
            return v
        self.missing += 1
        return default

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        name = self._name(name)
        if lo is not None and hi is not None:
            d = (float(lo) + float(hi)) / 2
        elif lo is not None:
            d = float(lo) + 1.0
        elif hi is not None:
            d = float(hi) - 1.0
        else:
            d = 0.5
        return self._get(name, d)

    def const(self, x):
        return x

    def row(self, name, k, positive=True):
        return [self._get(self._name("%s.%d" % (name, j)), 1.0 / k) for j in range(k)]

    def int(self, name, lo=None, hi=None):
        return int(self._get(self._name(name), lo if lo is not None else 0))

    def lazy_int(self, name, lo, hi):
        return self.int(name, lo, hi)

    def choose(self, name, n):
        if n <= 1:
            return 0
        return int(self._get(self._name(name), 0))

    def flag(self, name):
        return bool(self._get(self._name(name), False))

    def lazy_flag(self, name):
        return self.flag(name)

    def And(self, xs):
        return all(list(xs))

    def Or(self, xs):
        return any(list(xs))

    def Not(self, x):
        return not x

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def formula(self, x):
        return bool(x)

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def infeasible(self):
        raise PathEnd()

    def check(self, cond, label, detail=""):
        self.reached += 1
        self.labels.add(label)
        if not cond:
            raise CheckFailed(label, str(detail))

    def check_eq(self, a, b, label, detail="", tol=1e-8):
        self.reached += 1
        self.labels.add(label)
        if not close(a, b, tol):
            raise CheckFailed(label, "%s: got %r, specified %r" % (detail, a, b))


def close(a, b, tol):
    num = lambda x: (isinstance(x, (int, float, Fraction)) or hasattr(x, "dtype")) and not isinstance(x, bool)
    if num(a) and num(b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if tol is None:
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def tok(x):
    """A number usable in both modes."""
    return x
