"""Dynamic symbolic execution of real CPython code, decided by z3.

The code under test is imported from /repo and *executed*; the numbers it works
on are proxies.  A proxy's truth value, when the code asks for it, becomes a
decision: z3 says which outcomes are feasible under the path condition, one is
followed, and the others are queued (depth first, by re-execution).  A property
is an assertion over the final symbolic state: z3 is asked for a point of the
path's input region that violates it; `unsat` discharges it for every value on
that path, a model is replayed on the unmodified code with ordinary floats.
"""
from __future__ import annotations

import numbers

import numpy as np
import random
import time
import traceback
from fractions import Fraction

import z3

from .poly import Poly, ZERO, ONE

z3.set_param("parallel.enable", False)


# ---------------------------------------------------------------- control flow
class PathEnd(BaseException):
    """Stop this path silently (assumption became false)."""


class OutOfBudget(BaseException):
    pass


class Unsupported(Exception):
    """The encoding met an operation it has no meaning for."""


class CheckFailed(BaseException):
    def __init__(self, label, detail, assignment=None):
        super().__init__(label, detail)
        self.label = label
        self.detail = detail
        self.assignment = assignment


class NonDeterministic(Exception):
    pass


CUR = None  # the engine of the running path (None in concrete mode)


def frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float in symbolic arithmetic")
        f = Fraction(float.__repr__(x))
        return f.numerator if f.denominator == 1 else f
    if hasattr(x, "item"):
        return frac(x.item())
    raise TypeError(type(x))


def is_num(x):
    return isinstance(x, (int, float, Fraction)) or (
        hasattr(x, "item") and hasattr(x, "dtype") and getattr(x, "shape", None) == ()
        and x.dtype.kind in "fiub"
    )


def z3num(c):
    c = Fraction(c)
    if c.denominator == 1:
        return z3.RealVal(c.numerator)
    return z3.Q(c.numerator, c.denominator)


# -------------------------------------------------------------------- proxies
class SymBool:
    __slots__ = ("fn", "z")

    def __init__(self, fn, z):
        self.fn = fn  # () -> bool, forks
        self.z = z  # () -> z3 BoolRef

    def __bool__(self):
        return self.fn()

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __invert__(self):
        return not bool(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))


class SymReal:
    """num/den, exact."""

    __slots__ = ("n", "d", "__weakref__")
    __array_priority__ = 1000

    def __init__(self, n, d=ONE):
        self.n = n
        self.d = d

    # -- coercion
    @staticmethod
    def lift(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymBool):
            return SymReal(Poly.const(int(bool(x))))
        if isinstance(x, SymInt):
            return None
        if is_num(x):
            return SymReal(Poly.const(frac(x)))
        return None

    def red(self):
        """Reduced by the path environment."""
        e = CUR.env
        if not e:
            return self
        n = self.n.subst(e)
        d = self.d.subst(e)
        if n is self.n and d is self.d:
            return self
        return _mk(n, d)

    # -- arithmetic
    def __add__(self, o):
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        if not o.n.t:
            return self
        if not self.n.t:
            return o
        if self.d.t == o.d.t:
            return _mk(self.n.add(o.n), self.d)
        q = o.d.divexact(self.d)
        if q is not None:
            return _mk(self.n.mul(q).add(o.n), o.d)
        q = self.d.divexact(o.d)
        if q is not None:
            return _mk(self.n.add(o.n.mul(q)), self.d)
        return _mk(self.n.mul(o.d).add(o.n.mul(self.d)), self.d.mul(o.d))

    __radd__ = __add__

    def __neg__(self):
        return SymReal(self.n.neg(), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SymReal.lift(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = SymReal.lift(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        if not self.n.t or not o.n.t:
            return SymReal(ZERO)
        an, ad, bn, bd = self.n, self.d, o.n, o.d
        if bd.t != ONE.t:
            q = an.divexact(bd)
            if q is not None:
                an, bd = q, ONE
        if ad.t != ONE.t:
            q = bn.divexact(ad)
            if q is not None:
                bn, ad = q, ONE
        return SymReal(an.mul(bn), ad.mul(bd))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        a, o = self.red(), o.red()
        if CUR.is_zero(o.n):
            raise ZeroDivisionError("float division by zero")
        a, o = a.red(), o.red()
        if o.n.is_const():
            return _mk(a.n.mul(o.d).scale(Fraction(1) / Fraction(o.n.const_value())), a.d)
        return a * SymReal(o.d, o.n)

    def __rtruediv__(self, o):
        o = SymReal.lift(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, k):
        if isinstance(k, SymReal):
            kk = k.red()
            if kk.n.is_const() and kk.d.t == ONE.t:
                k = kk.n.const_value()
        if is_num(k):
            k = frac(k)
            if isinstance(k, int):
                if k >= 0:
                    r = SymReal(ONE)
                    for _ in range(k):
                        r = r * self
                    return r
                return 1 / (self ** (-k))
            if k == Fraction(1, 2):
                return self.sqrt()
        raise Unsupported("power")

    def sqrt(self):
        if bool(self < 0):
            raise ValueError("math domain error")
        r = CUR.fresh_real("sqrt", 0, None)
        CUR.assume_z(CUR.z_cmp(r * r, self, "=="), nl=True)
        return r

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __round__(self, nd=None):
        return CUR.rounded(self, 0 if nd is None else nd, nd is None)

    def rint(self):  # numpy's rounding of object arrays
        return CUR.rounded(self, 0, False)

    def __floor__(self):
        return CUR.floor(self)

    __trunc__ = __floor__

    def __ceil__(self):
        return -CUR.floor(-self)

    def __mod__(self, o):
        return float(self) % o

    # -- comparisons
    def _cmp(self, o, op):
        o2 = SymReal.lift(o)
        if o2 is None:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        return CUR.cmp(self, o2, op)

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __lt__(self, o):
        if isinstance(o, float) and o == float("inf"):
            return True
        if isinstance(o, float) and o == float("-inf"):
            return False
        return self._cmp(o, "<")

    def __le__(self, o):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return o > 0
        return self._cmp(o, "<=")

    def __gt__(self, o):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return o < 0
        return self._cmp(o, ">")

    def __ge__(self, o):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return o < 0
        return self._cmp(o, ">=")

    def __hash__(self):
        return 0x5EA1

    def __bool__(self):
        return bool(self != 0)

    # -- leaving the symbolic world
    def __float__(self):
        return float(CUR.realise(self))

    def __int__(self):
        return int(CUR.realise(self))

    def __complex__(self):
        return complex(float(self))

    def is_integer(self):
        return float(self).is_integer()

    def __str__(self):
        return CUR.token(self)

    def __repr__(self):
        return CUR.token(self) if CUR is not None else "SymReal(%r/%r)" % (self.n, self.d)

    def __format__(self, spec):
        if spec in ("", "r"):
            return str(self)
        if spec[-1] in "fF" and "." in spec:
            nd = int(spec[spec.index(".") + 1 : -1])
            return CUR.token(CUR.rounded(self, nd, False))
        if spec[-1] in "gGeE" and "." in spec:
            # significant digits: exact from 17 on, else an arbitrary nearby value
            nd = int(spec[spec.index(".") + 1 : -1])
            if nd >= (17 if spec[-1] in "gG" else 16):
                return CUR.token(self)
            return CUR.token(CUR.rounded(self, nd, False))
        return CUR.token(self)

    # copy semantics of an immutable number
    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")

    # number-ish API used by numpy / statistics
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def item(self):
        return self


numbers.Real.register(SymReal)


def _elementwise(name):
    f = getattr(SymReal, name)

    def g(self, o):
        r = f(self, o)
        if r is NotImplemented and isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for i, v in np.ndenumerate(o):
                out[i] = f(self, v)
            return out
        return r
    g.__name__ = name
    setattr(SymReal, name, g)


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__"):
    _elementwise(_n)


def _mk(n, d):
    if d.t == ONE.t:
        return SymReal(n, ONE)
    if not n.t:
        return SymReal(ZERO)
    if d.is_const():
        return SymReal(n.scale(Fraction(1) / Fraction(d.const_value())), ONE)
    q = n.divexact(d)
    if q is not None:
        return SymReal(q, ONE)
    return SymReal(n, d)


class SymInt:
    """An unbounded integer, used for identities (node ids).

    Equality and order fork; the hash is constant so that dictionaries and sets
    resolve membership through equality, and the text form is canonical per
    equivalence class.
    """

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def lift(o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int) or (hasattr(o, "dtype") and getattr(o, "dtype").kind in "iu"):
            return z3.IntVal(int(o))
        return None

    def _c(self, o, f, tag):
        e = SymInt.lift(o)
        if e is None:
            if isinstance(o, str):
                return NotImplemented
            return NotImplemented
        return CUR.zbool(f(self.e, e), tag)

    def __eq__(self, o):
        if self is o:
            return True
        e = SymInt.lift(o)
        if e is None:
            return False
        return CUR.zbool(self.e == e, "id==")

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b, "id<")

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, "id<=")

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b, "id>")

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, "id>=")

    def __hash__(self):
        return 0x1D

    def __bool__(self):
        return bool(CUR.zbool(self.e != 0, "id!=0"))

    def __add__(self, o):
        e = SymInt.lift(o)
        return NotImplemented if e is None else SymInt(self.e + e)

    __radd__ = __add__

    def __sub__(self, o):
        e = SymInt.lift(o)
        return NotImplemented if e is None else SymInt(self.e - e)

    def __rsub__(self, o):
        e = SymInt.lift(o)
        return NotImplemented if e is None else SymInt(e - self.e)

    def __mul__(self, o):
        e = SymInt.lift(o)
        return NotImplemented if e is None else SymInt(self.e * e)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __int__(self):
        return CUR.realise_int(self)

    def __index__(self):
        return CUR.realise_int(self)

    def __float__(self):
        return float(CUR.realise_int(self))

    def __str__(self):
        return CUR.int_token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return CUR.int_token(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class LazyInt(SymInt):
    """An integer between known bounds: compared symbolically, and forked over all its
    values only where a machine integer is needed."""

    __slots__ = ("lo", "hi")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    def __index__(self):
        for k in range(self.lo, self.hi):
            if CUR.ibranch(self.e == k, "lz"):
                return k
        return self.hi

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return str(self.__index__())

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __add__(self, o):
        if type(o) is int:
            return LazyInt(self.e + o, self.lo + o, self.hi + o)
        if isinstance(o, LazyInt):
            return LazyInt(self.e + o.e, self.lo + o.lo, self.hi + o.hi)
        return self.__index__() + o

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int:
            return LazyInt(self.e - o, self.lo - o, self.hi - o)
        return self.__index__() - o

    def __rsub__(self, o):
        return o - self.__index__()

    def __mul__(self, o):
        return self.__index__() * o

    __rmul__ = __mul__

    def __neg__(self):
        return LazyInt(-self.e, -self.hi, -self.lo)


numbers.Integral.register(SymInt)

TOK_L, TOK_R = "\u27e6", "\u27e7"  # ⟦ ⟧


class VarInfo:
    __slots__ = ("name", "kind", "z", "lo", "hi", "row")

    def __init__(self, name, kind, z, lo, hi):
        self.name, self.kind, self.z, self.lo, self.hi = name, kind, z, lo, hi
        self.row = None


class Stats:
    FIELDS = (
        "paths", "paths_cut", "decisions", "queries", "unsat", "sat", "unknown",
        "checks", "checks_z3", "checks_identity", "checks_const", "realised",
        "inconclusive", "models_replayed", "degraded",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_time = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_time_s"] = round(self.solver_time, 3)
        return d


class Engine:
    def __init__(self, seed=1, timeout_ms=4000, deadline=None, max_paths=10**9):
        self.rng = random.Random(seed)
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = Stats()
        self.zcache = {}  # name -> z3 const
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        # exploration state
        self.decisions = []  # list of [taken, other_feasible, tag]
        self.depth = 0
        self.asserts = []  # path assertions, with nonlinear flag
        self.assert_marks = []  # len(asserts) at each decision
        self.exhausted = False
        self.nl = 0
        self._kind = "r"
        self.busy = 0

    # ---------------------------------------------------------------- running
    def begin(self):
        self.depth = 0
        self.env = {}
        self.pos = set()
        self.vars = []
        self.byname = {}
        self.rows = []
        self.tokens = []
        self.int_toks = []
        self.int_assign = []
        self.fresh_n = 0
        self.replaying = len(self.decisions) > 0
        self.uncertain = False
        self.path_realised = 0
        if not self.replaying:
            pass

    def backtrack(self):
        """Prepare the next path; False when the tree is exhausted."""
        while self.decisions:
            d = self.decisions[-1]
            if d[1]:  # alternative still open
                self._pop_to(len(self.decisions) - 1)
                d[0] = not d[0]
                d[1] = False
                self.solver.push()
                self.assert_marks.append(len(self.asserts))
                e = d[3] if d[0] else z3.Not(d[3])
                self._assert(e, d[4], d[5])
                return True
            self._pop_to(len(self.decisions) - 1)
            self.decisions.pop()
        self.exhausted = True
        return False

    def _pop_to(self, k):
        while len(self.assert_marks) > k:
            self.solver.pop()
            m = self.assert_marks.pop()
            for _, nl, _k in self.asserts[m:]:
                self.nl -= nl
            del self.asserts[m:]

    def _assert(self, e, nl, kind="r"):
        self.asserts.append((e, 1 if nl else 0, kind))
        if nl:
            self.nl += 1
        else:
            self.solver.add(e)

    # ------------------------------------------------------------- the solver
    def query(self, extra=(), nl=False, want_model=False, timeout=None):
        """(result, model) of path ∧ extra."""
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfBudget()
        t0 = time.time()
        self.stats.queries += 1
        model = None
        self.busy += 1
        try:
            if not nl and not self.nl:
                r = self.solver.check(*extra)
                if r == z3.sat and want_model:
                    model = self.solver.model()
            else:
                if self._kind == "i":
                    # integer side conditions never mention the reals
                    s = z3.Solver()
                    s.set("timeout", timeout or self.timeout_ms)
                    s.add(*[e for e, _, k in self.asserts if k == "i"])
                else:
                    s = z3.SolverFor("QF_NRA")
                    s.set("timeout", timeout or self.timeout_ms)
                    s.add(*[e for e, _, k in self.asserts if k == "r"])
                s.add(*extra)
                r = s.check()
                if r == z3.sat and want_model:
                    model = s.model()
        finally:
            self.busy -= 1
            self.stats.solver_time += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r, model

    # -------------------------------------------------------------- decisions
    def branch(self, e, tag="", nl=False):
        """Follow one feasible outcome of z3 condition e."""
        k = self.depth
        if k < len(self.decisions):
            d = self.decisions[k]
            if d[2] != tag:
                raise NonDeterministic("decision %d: %r then %r" % (k, d[2], tag))
            self.depth += 1
            return d[0]
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfBudget()
        rt, _ = self.query([e], nl)
        if rt == z3.unsat:
            # no decision to record, but keep alignment on replay
            self._push(False, False, tag, e, nl)
            return False
        rf, _ = self.query([z3.Not(e)], nl)
        if rf == z3.unsat:
            self._push(True, False, tag, e, nl)
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.uncertain = True
        self.stats.decisions += 1
        self._push(True, True, tag, e, nl)
        return True

    def _push(self, taken, other, tag, e, nl):
        self.solver.push()
        self.assert_marks.append(len(self.asserts))
        self.decisions.append([taken, other, tag, e, nl, self._kind])
        if other:
            self._assert(e if taken else z3.Not(e), nl, self._kind)
        self.depth += 1

    def zbool(self, e, tag):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(lambda: self.ibranch(e, tag), lambda: e)

    def ibranch(self, e, tag):
        self._kind = "i"
        try:
            return self.branch(e, tag)
        finally:
            self._kind = "r"

    def assume_z(self, e, nl=False, kind="r"):
        if self.depth < len(self.decisions):
            return  # already asserted at this level
        self._assert(e, nl, kind)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            if not bool(cond):
                raise PathEnd()
            return
        if not cond:
            raise PathEnd()

    # -------------------------------------------------------------- variables
    def new_var(self, name, kind, lo=None, hi=None):
        if name in self.byname:
            k = 2
            while "%s#%d" % (name, k) in self.byname:
                k += 1
            name = "%s#%d" % (name, k)
        key = (name, kind)
        z = self.zcache.get(key)
        if z is None:
            z = {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[kind](name)
            self.zcache[key] = z
        v = VarInfo(name, kind, z, lo, hi)
        i = len(self.vars)
        self.vars.append(v)
        self.byname[name] = i
        return i, v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        i, v = self.new_var(name, "real", lo, hi)
        if lo is not None:
            b = z3num(frac(lo))
            self.assume_z(v.z > b if lo_open else v.z >= b)
        if hi is not None:
            b = z3num(frac(hi))
            self.assume_z(v.z < b if hi_open else v.z <= b)
        if lo is not None and (lo > 0 or (lo == 0 and lo_open)):
            self.pos.add(i)
        return SymReal(Poly.var(i))

    def fresh_real(self, tag, lo=None, hi=None):
        self.fresh_n += 1
        return self.real("%s!%d" % (tag, self.fresh_n), lo, hi)

    def row(self, name, k, positive=True):
        """k probabilities summing to one."""
        ps = [self.real("%s.%d" % (name, j), 0, 1, lo_open=positive) for j in range(k)]
        idx = [next(iter(p.n.vars())) for p in ps]
        self.rows.append(idx)
        self.assume_z(z3.Sum([self.vars[i].z for i in idx]) == 1)
        for i in idx:
            self.vars[i].row = len(self.rows) - 1
        return ps

    def sym_int(self, name, lo=None, hi=None):
        i, v = self.new_var(name, "int", lo, hi)
        if lo is not None:
            self.assume_z(v.z >= lo, kind="i")
        if hi is not None:
            self.assume_z(v.z <= hi, kind="i")
        return SymInt(v.z)

    def lazy_int(self, name, lo, hi):
        x = self.sym_int(name, lo, hi)
        return LazyInt(x.e, lo, hi)

    def choose(self, name, n):
        i, v = self.new_var(name, "int", 0, n - 1)
        self.assume_z(z3.And(v.z >= 0, v.z <= n - 1), kind="i")
        for k in range(n - 1):
            if self.ibranch(v.z == k, "ch:%s:%d" % (name, k)):
                return k
        return n - 1

    def flag(self, name):
        i, v = self.new_var(name, "bool")
        return self.ibranch(v.z, "fl:" + name)

    def lazy_flag(self, name):
        """A Boolean that is decided only where it is asked for."""
        i, v = self.new_var(name, "bool")
        return self.formula(v.z, "lf:" + name)

    def formula(self, e, tag="f"):
        return SymBool(lambda: self.ibranch(e, tag), lambda: e)

    # ------------------------------------------------------------ polynomials
    def zpoly(self, p):
        terms = []
        for m, c in p.t.items():
            fs = [self.vars[i].z for i in m]
            if not fs:
                terms.append(z3num(c))
            else:
                e = fs[0]
                if len(fs) > 1:
                    e = z3.Product(fs)
                if c != 1:
                    e = z3num(c) * e
                terms.append(e)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def is_zero(self, p):
        """Decide p == 0 on this path (forks)."""
        p = p.subst(self.env)
        while True:
            if not p.t:
                return True
            if p.is_const():
                return False
            signs = {c > 0 for c in p.t.values()}
            nonneg = all(
                i in self.pos or (self.vars[i].lo is not None and self.vars[i].lo >= 0)
                for m in p.t for i in m
            )
            if len(signs) == 1 and nonneg:
                cand = None
                for m in p.t:
                    un = [i for i in m if i not in self.pos]
                    if not un:
                        return False
                    if cand is None or len(un) < len(cand):
                        cand = un
                i = cand[0]
                if self.branch(self.vars[i].z == 0, "z:%s" % self.vars[i].name):
                    self._set_env(i, ZERO)
                    p = p.subst(self.env)
                else:
                    self.pos.add(i)
                continue
            return self._poly_sign_branch(p, "==")

    def _poly_sign_branch(self, p, op):
        """Fork on p op 0."""
        nl = p.degree() > 1
        zp = self.zpoly(p)
        e = {"==": zp == 0, "<": zp < 0, "<=": zp <= 0}[op]
        r = self.branch(e, "p%s:%d:%s" % (op, len(p.t), hash(p.key()) & 0xFFFFFF), nl)
        if r and op == "==":
            self._learn_eq(p)
        return r

    def _set_env(self, i, p):
        one = {i: p}
        self.env = {k: v.subst(one) for k, v in self.env.items()}
        self.env[i] = p

    def _learn_eq(self, p):
        """A linear equation learnt on this path becomes a substitution."""
        if p.degree() != 1:
            return
        if len(p.vars()) > 1:
            # variables the equation pins (e.g. a sum of probabilities at its bound)
            fixed = self._forced(sorted(p.vars()))
            for i, c in fixed.items():
                self._set_env(i, Poly.const(c))
            p = p.subst(self.env)
            if not p.t or p.is_const():
                return
        i = max(p.vars())
        if len(p.vars()) > 1 and self.vars[i].row is not None:
            return
        a = p.t[(i,)]
        rest = Poly({m: c for m, c in p.t.items() if m != (i,)})
        self._set_env(i, rest.scale(Fraction(-1) / Fraction(a)).subst(self.env))

    def _forced(self, vs):
        """Those of vs that have exactly one value on this path (deterministic)."""
        out = {}
        for i in vs:
            v = self.vars[i]
            for c in (v.lo, v.hi):
                if c is None:
                    continue
                if self.query([v.z != z3num(frac(c))])[0] == z3.unsat:
                    out[i] = frac(c)
                    break
        return out

    def sign_known(self, p):
        """+1/-1/0 when the sign is evident, else None."""
        if not p.t:
            return 0
        if p.is_const():
            return 1 if p.const_value() > 0 else -1
        signs = {c > 0 for c in p.t.values()}
        if len(signs) == 1:
            if all(i in self.pos for m in p.t for i in m):
                return 1 if True in signs else -1
        return None

    def den_positive(self, d):
        """Sign of a (known nonzero) denominator: True if positive."""
        if d.t == ONE.t:
            return True
        s = self.sign_known(d)
        if s is not None:
            return s > 0
        signs = {c > 0 for c in d.t.values()}
        if len(signs) == 1 and all(
            i in self.pos or (self.vars[i].lo is not None and self.vars[i].lo >= 0)
            for m in d.t for i in m
        ):
            return True in signs  # nonneg and nonzero
        return not self._poly_sign_branch(d, "<")

    def diff(self, a, b):
        """Numerator polynomial of a-b, and common denominator."""
        x = a - b
        return x.n, x.d

    def cmp(self, a, b, op):
        a, b = a.red(), b.red()
        if op in (">", ">="):
            a, b = b, a
            op = "<" if op == ">" else "<="
        if a.n.t == b.n.t and a.d.t == b.d.t:
            return op in ("==", "<=")
        n, d = self.diff(a, b)
        n, d = n.subst(self.env), d.subst(self.env)
        if n.is_const() and d.is_const():
            v = Fraction(n.const_value()) / Fraction(d.const_value())
            return {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0}[op]
        if op == "==":
            return SymBool(lambda: self.is_zero(n), lambda: self.zpoly(n) == 0)
        if op == "!=":
            return SymBool(lambda: not self.is_zero(n), lambda: self.zpoly(n) != 0)

        def fn():
            m = n if self.den_positive(d) else n.neg()
            m = m.subst(self.env)
            s = self.sign_known(m)
            if s is not None:
                return s < 0 or (s == 0 and op == "<=")
            signs = {c > 0 for c in m.t.values()}
            if len(signs) == 1 and all(
                i in self.pos or (self.vars[i].lo is not None and self.vars[i].lo >= 0)
                for mm in m.t for i in mm
            ):
                positive = True in signs
                if op == "<" and positive:
                    return False
                if op == "<=" and not positive:
                    return True
                z = self.is_zero(m)
                return (not z) if op == "<" else z
            return self._poly_sign_branch(m, op)

        def zz():
            zn, zd = self.zpoly(n), self.zpoly(d)
            return (zn * zd < 0) if op == "<" else (zn * zd <= 0)

        return SymBool(fn, zz)

    def z_cmp(self, a, b, op):
        n, d = self.diff(a, b)
        zn = self.zpoly(n)
        if op == "==":
            return zn == 0
        if op == "!=":
            return zn != 0
        zd = self.zpoly(d)
        return {"<": zn * zd < 0, "<=": zn * zd <= 0}[op]

    def zof(self, x):
        if isinstance(x, SymReal):
            if x.d.t == ONE.t:
                return self.zpoly(x.n)
            return self.zpoly(x.n) / self.zpoly(x.d)
        return z3num(frac(x))

    # --------------------------------------------------- C boundary / text
    def realise(self, x):
        x = x.red()
        if x.n.is_const() and x.d.is_const():
            return Fraction(x.n.const_value()) / Fraction(x.d.const_value())
        self.stats.realised += 1
        self.path_realised += 1
        vs = sorted(x.n.vars() | x.d.vars())
        for i in vs:
            if i in self.env:
                continue
            self._pin(i)
        x = x.red()
        return Fraction(x.n.const_value()) / Fraction(x.d.const_value())

    def _pin(self, i):
        """Concretise variable i to a feasible value (recorded)."""
        v = self.vars[i]
        k = self.depth
        tag = "pin:" + v.name
        if k < len(self.decisions):
            d = self.decisions[k]
            val = d[6]
            self.depth += 1
        else:
            val = None
            lo = v.lo if v.lo is not None else -2
            hi = v.hi if v.hi is not None else 2
            for _ in range(6):
                c = Fraction(self.rng.randint(1, 99), 100) * (Fraction(hi) - Fraction(lo)) + Fraction(lo)
                if v.row is not None:
                    c = c / 3
                if self.query([v.z == z3num(c)])[0] == z3.sat:
                    val = c
                    break
            if val is None:
                r, m = self.query([], want_model=True)
                if r != z3.sat:
                    raise PathEnd()
                mv = m.eval(v.z, model_completion=True)
                val = _zfrac(mv)
            e = v.z == z3num(val)
            self.solver.push()
            self.assert_marks.append(len(self.asserts))
            self.decisions.append([True, False, tag, e, False, False, val])
            self._assert(e, False)
            self.depth += 1
        self._set_env(i, Poly.const(frac(val)))

    def realise_int(self, x):
        self.stats.realised += 1
        self.path_realised += 1
        k = self.depth
        if k < len(self.decisions):
            val = self.decisions[k][6]
            self.depth += 1
            return val
        r, m = self.query([], want_model=True)
        if r != z3.sat:
            raise PathEnd()
        val = m.eval(x.e, model_completion=True).as_long()
        e = x.e == val
        self.solver.push()
        self.assert_marks.append(len(self.asserts))
        self.decisions.append([True, False, "pinint", e, False, False, val])
        self._assert(e, False)
        self.depth += 1
        return val

    def token(self, x):
        for k, t in enumerate(self.tokens):
            if t is x:
                return TOK_L + str(k) + TOK_R
        self.tokens.append(x)
        return TOK_L + str(len(self.tokens) - 1) + TOK_R

    def untoken(self, s):
        s = s.strip()
        if s.startswith(TOK_L) and s.endswith(TOK_R):
            return self.tokens[int(s[1:-1])]
        return None

    def int_token(self, x):
        se = z3.simplify(x.e)
        if z3.is_int_value(se):
            return str(se.as_long())
        for k, t in enumerate(self.int_toks):
            if t is x or bool(x == t):
                return "%s" % (7000 + k)
        self.int_toks.append(x)
        return "%s" % (7000 + len(self.int_toks) - 1)

    def rounded(self, x, nd, as_int):
        x = x.red()
        if x.n.is_const() and x.d.is_const():
            v = Fraction(x.n.const_value()) / Fraction(x.d.const_value())
            return SymReal(Poly.const(frac(Fraction(round(v * 10**nd), 10**nd))))
        r = self.fresh_real("round")
        h = Fraction(1, 2 * 10**nd)
        self.assume_z(self.z_cmp(r, x + h, "<="), nl=True)
        self.assume_z(self.z_cmp(x - h, r, "<="), nl=True)
        k = z3.Int("roundint!%d" % self.fresh_n)
        i = next(iter(r.n.vars()))
        # integrality is left out of the path condition (over-approximation);
        # a counterexample is replayed with the real rounding.
        return r

    def floor(self, x):
        r = self.fresh_real("floor")
        self.assume_z(self.z_cmp(r, x, "<="), nl=True)
        self.assume_z(self.z_cmp(x, r + 1, "<"), nl=True)
        return r

    # ------------------------------------------------------------- assertions
    def row_env(self):
        """Substitution last = 1 - rest for every row, after the path env."""
        out = {}
        for idx in self.rows:
            free = [i for i in idx if i not in self.env]
            if not free:
                continue
            tot = ONE
            for i in idx:
                if i != free[-1]:
                    tot = tot.sub(self.env.get(i, Poly.var(i)))
            out[free[-1]] = tot.subst(self.env)
        return out

    def check_true(self, cond, label, detail=""):
        self.stats.checks += 1
        if isinstance(cond, SymBool):
            # every feasible outcome of the condition must be True: fork; the
            # False outcome (if feasible) carries a model.
            ok = bool(cond)
            self.stats.checks_z3 += 1
        else:
            ok = bool(cond)
            self.stats.checks_const += 1
        if not ok:
            a = self.assignment()
            if a is None:
                raise PathEnd()
            cands = [a]
            for _ in range(3):
                p = self.sample_assignment()
                if p is not None:
                    cands.append(p)
            raise CheckFailed(label, detail, cands)

    def check_eq(self, a, b, label, detail=""):
        """a and b are equal for every value on this path."""
        self.stats.checks += 1
        la, lb = SymReal.lift(a), SymReal.lift(b)
        if la is None or lb is None:
            if a is None or b is None or not (la is None and lb is None):
                self.stats.checks_const += 1
                raise CheckFailed(label, "%s: %r is not %r" % (detail, _s(a), _s(b)), [self.assignment()])
            self.check_true(a == b, label, detail)
            return
        a, b = la.red(), lb.red()
        if a.n.is_const() and b.n.is_const() and a.d.is_const() and b.d.is_const():
            self.stats.checks_const += 1
            if a.n.t == b.n.t and a.d.t == b.d.t:
                return
            va = Fraction(a.n.const_value()) / Fraction(a.d.const_value())
            vb = Fraction(b.n.const_value()) / Fraction(b.d.const_value())
            if abs(va - vb) > Fraction(1, 10**9):
                asg = self.assignment()
                if asg is None:
                    raise PathEnd()
                raise CheckFailed(label, "%s: %s is not %s" % (detail, float(va), float(vb)), [asg])
            return
        same = a.n.t == b.n.t and a.d.t == b.d.t
        if same:
            # z3 verdict on the two encodings as they stand
            self._discharge([self.zpoly(a.n) != self.zpoly(b.n)], len(a.n.t), False)
            return
        n = a.n.mul(b.d).sub(b.n.mul(a.d))
        if n.t:
            n2 = n.subst(self.row_env())
        else:
            n2 = n
        if not n2.t:
            self._discharge([self.zpoly(a.n) * self.zpoly(b.d) != self.zpoly(b.n) * self.zpoly(a.d)],
                            len(a.n.t) * len(b.d.t) + len(b.n.t) * len(a.d.t), True)
            return
        # not the same function: look for robust separating points first
        pts = self.points(n, a, b)
        if pts:
            raise CheckFailed(label, detail, pts)
        ext = self.zpoly(n2) != 0
        r, m = self.query([ext], nl=n2.degree() > 1, want_model=True)
        if r == z3.unsat:
            self.stats.checks_z3 += 1
            return
        if r == z3.sat and m is not None:
            asg = self.assignment(m)
            raise CheckFailed(label, detail, [asg])
        self.stats.inconclusive += 1

    def _discharge(self, extra, size, rows):
        """The executed and the specified value are the same polynomial modulo the
        row constraints; z3 confirms that no point separates them."""
        self.stats.checks_identity += 1
        if size > 400:
            return
        self.busy += 1
        try:
            self._discharge2(extra, rows)
        finally:
            self.busy -= 1

    def _discharge2(self, extra, rows):
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 1500)
        sub = []
        if rows:
            sub = [(self.vars[i].z, self.zpoly(p)) for i, p in self.row_env().items()]
        ex = [z3.simplify(z3.substitute(e, *sub), som=True) if sub else e for e in extra]
        s.add(*ex)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
            self.stats.checks_z3 += 1
        else:
            self.stats.unknown += 1

    def check_le(self, a, b, label, detail=""):
        self.check_true(SymReal.lift(a) <= b, label, detail)

    # ------------------------------------------------------------- model search
    def points(self, n, a, b, tries=60, keep=4):
        """Assignments on this path with n != 0, biggest |a-b| first."""
        found = []
        for t in range(tries):
            asg = self.random_point()
            if asg is None:
                break
            try:
                va = Fraction(a.n.evaluate(asg)) / Fraction(a.d.evaluate(asg))
                vb = Fraction(b.n.evaluate(asg)) / Fraction(b.d.evaluate(asg))
            except ZeroDivisionError:
                continue
            if va != vb:
                found.append((float(abs(va - vb)), t, asg))
                if t >= 24 and len(found) >= 8:
                    break
        found.sort(key=lambda x: (-x[0], x[1]))
        out = []
        for _, _, asg in found[:keep]:
            # the solver confirms the point satisfies the whole path condition
            ext = [self.vars[i].z == z3num(v) for i, v in asg.items() if self.vars[i].kind == "real"]
            r, m = self.query(ext, want_model=True)
            if r == z3.sat:
                out.append(self.assignment(m))
        return out

    def random_point(self):
        asg = {}
        base = None
        for t in range(8):
            asg = {}
            rowdone = set()
            for i, v in enumerate(self.vars):
                if v.kind != "real" or i in asg:
                    continue
                if i in self.env:
                    continue
                if v.row is not None and v.row not in rowdone:
                    idx = self.rows[v.row]
                    rowdone.add(v.row)
                    free = [k for k in idx if k not in self.env]
                    fixed = sum((Fraction(self.env[k].const_value()) for k in idx if k in self.env and self.env[k].is_const()), Fraction(0))
                    ws = [self.rng.randint(1, 9) for _ in free]
                    rem = 1 - fixed
                    for k, w in zip(free, ws):
                        asg[k] = rem * Fraction(w, sum(ws))
                    continue
                lo = Fraction(v.lo) if v.lo is not None else Fraction(-3)
                hi = Fraction(v.hi) if v.hi is not None else Fraction(3)
                asg[i] = lo + (hi - lo) * Fraction(self.rng.randint(5, 95), 100)
            ok = True
            pend = dict(self.env)
            for i, p in pend.items():
                try:
                    asg[i] = Fraction(p.evaluate(asg))
                except KeyError:
                    asg[i] = None
            if any(x is None for x in asg.values()):
                ok = False
            if ok:
                used = [(self.vars[i].z, z3num(v)) for i, v in asg.items()]
                if all(
                    not z3.is_false(z3.simplify(z3.substitute(e, *used)))
                    for e, _, k in self.asserts if k == "r"
                ):
                    return asg
            base = asg
        # fall back on the solver's own model, perturbed by nothing
        r, m = self.query([], want_model=True)
        if r != z3.sat:
            return None
        asg = {}
        for i, v in enumerate(self.vars):
            if v.kind == "real":
                asg[i] = _zfrac(m.eval(v.z, model_completion=True))
        return asg

    def assignment(self, m=None):
        """name -> value for every input on this path (None: infeasible)."""
        if m is None:
            r, m = self.query([], want_model=True)
            if r == z3.unsat:
                return None
            if r != z3.sat:
                self.stats.inconclusive += 1
                return None
        mi = m
        if self.nl and any(v.kind != "real" for v in self.vars):
            if self.solver.check() != z3.sat:
                return None
            mi = self.solver.model()
        out = {}
        for v in self.vars:
            val = (m if v.kind == "real" else mi).eval(v.z, model_completion=True)
            if v.kind == "bool":
                out[v.name] = bool(z3.is_true(val))
            elif v.kind == "int":
                out[v.name] = val.as_long()
            else:
                f = _zfrac(val)
                out[v.name] = [f.numerator, f.denominator]
        return out

    def variants(self, base, k=8):
        """The decisions of `base` with generic values for the real inputs (for replay only:
        the replay itself checks the harness's assumptions)."""
        for t in range(k):
            out = dict(base)
            for idx in self.rows:
                # zeros and ones of the base are kept in every other variant
                names = [self.vars[i].name for i in idx]
                ws = [self.rng.randint(1, 97) for _ in names]
                if t % 2:
                    ws = [0 if out.get(nm) == [0, 1] else w for nm, w in zip(names, ws)]
                    if not any(ws):
                        continue
                for nm, w in zip(names, ws):
                    f = Fraction(w, sum(ws))
                    out[nm] = [f.numerator, f.denominator]
            for v in self.vars:
                if v.kind == "real" and v.row is None:
                    lo = Fraction(v.lo) if v.lo is not None else Fraction(-3)
                    hi = Fraction(v.hi) if v.hi is not None else lo + 6
                    f = lo + (hi - lo) * Fraction(self.rng.randint(17, 983), 997)
                    out[v.name] = [f.numerator, f.denominator]
            yield out

    def sample_assignment(self):
        """A generic point of this path for a validation replay."""
        asg = self.random_point()
        if asg is None:
            return None
        ext = [self.vars[i].z == z3num(v) for i, v in asg.items() if self.vars[i].kind == "real"]
        r, m = self.query(ext, want_model=True)
        if r != z3.sat:
            return self.assignment()
        return self.assignment(m)


def _zfrac(val):
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_int_value(val):
        return Fraction(val.as_long())
    if z3.is_algebraic_value(val):
        return _zfrac(val.approx(20))
    raise Unsupported("model value %r" % (val,))


def _s(x):
    try:
        return str(x)
    except Exception:
        return "?"
