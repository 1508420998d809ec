"""Meaning of the C-implemented library operations the code under test uses.

Each is installed only while a path is executed symbolically or replayed; every
one of them is listed in the evidence as an assumption.  With plain floats each
falls through to the original.
"""
import builtins
import json
import math
import sys
from fractions import Fraction

import numpy as np

from . import engine as E
from .engine import SymReal, SymInt, SymBool, TOK_L

REAL_FLOAT = builtins.float
REAL_INT = builtins.int


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (REAL_FLOAT, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (REAL_FLOAT, SymReal))

    def __call__(cls, *a):
        if a:
            x = a[0]
            if isinstance(x, SymReal):
                return x
            if isinstance(x, SymInt):
                return x
            if isinstance(x, str) and TOK_L in x and E.CUR is not None:
                t = E.CUR.untoken(x)
                if t is not None:
                    return t
        return REAL_FLOAT(*a)

    def __getattr__(cls, n):
        return getattr(REAL_FLOAT, n)

    def __eq__(cls, o):
        return o is cls or o is REAL_FLOAT

    def __hash__(cls):
        return hash(REAL_FLOAT)


class FloatShim(metaclass=_FloatMeta):
    pass


def _has_sym(x):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and (x.size == 0 or any(isinstance(v, (SymReal, Fraction)) for v in x.ravel()))
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def _isclose(orig):
    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if _has_sym(a) or _has_sym(b):
            a, b = SymReal.lift(a), SymReal.lift(b)
            d = abs(a - b)
            if bool(d <= abs_tol):
                return True
            return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b))
        return orig(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return isclose


def _np_isclose(orig):
    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if _has_sym(a) or _has_sym(b):
            A, B = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
            out = np.array(
                [bool(abs(SymReal.lift(x) - y) <= atol + rtol * abs(SymReal.lift(y))) for x, y in zip(A.ravel(), B.ravel())]
            ).reshape(A.shape)
            return out if out.shape else bool(out)
        return orig(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    return isclose


def _np_allclose(orig, isc):
    def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if _has_sym(a) or _has_sym(b):
            return bool(np.all(isc(a, b, rtol=rtol, atol=atol)))
        return orig(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    return allclose


def _wrap1(orig, f):
    def g(x, *a, **k):
        if _has_sym(x):
            return f(x, *a, **k)
        return orig(x, *a, **k)
    g.__name__ = getattr(orig, "__name__", "f")
    return g


def minor_det(A):
    n = len(A)
    if n == 0:
        return 1
    if n == 1:
        return A[0][0]
    if n == 2:
        return A[0][0] * A[1][1] - A[0][1] * A[1][0]
    tot = 0
    for j in range(n):
        sub = [[A[r][c] for c in range(n) if c != j] for r in range(1, n)]
        t = A[0][j] * minor_det(sub)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def sym_inv(A):
    A = [[SymReal.lift(v) for v in r] for r in np.asarray(A, dtype=object)]
    n = len(A)
    if n == 0:
        return np.zeros((0, 0), dtype=object)
    det = SymReal.lift(minor_det(A))
    if E.CUR.is_zero(det.red().n):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = [[A[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            cof = SymReal.lift(minor_det(sub))
            if (i + j) % 2:
                cof = -cof
            out[i, j] = cof / det
    return out


def sym_solve(A, b):
    return sym_inv(A).dot(np.asarray(b, dtype=object))


def _numbered():
    seen = {}

    def h(self):
        n = seen.get(id(self))
        if n is None:
            n = seen[id(self)] = (len(seen) * 7919 + 13, self)  # keeps the object, so that its address is not used again
        return n[0]
    return h


class Shims:
    def __init__(self, extra=()):
        self.saved = []
        self.extra = extra

    def put(self, obj, name, val):
        d = obj.__dict__
        had = name in d
        self.saved.append((obj, name, d[name] if had else None, had))
        setattr(obj, name, val)

    def __enter__(self):
        for k, m in list(sys.modules.items()):
            if k.startswith("pybbn.") and m is not None and not hasattr(m, "__path__"):
                self.put(m, "float", FloatShim)
        self.put(math, "isclose", _isclose(math.isclose))
        self.put(math, "fsum", _wrap1(math.fsum, lambda x: sum(x)))
        self.put(math, "sqrt", _wrap1(math.sqrt, lambda x: x.sqrt()))
        self.put(math, "isnan", _wrap1(math.isnan, lambda x: False))
        self.put(math, "isinf", _wrap1(math.isinf, lambda x: False))
        self.put(math, "isfinite", _wrap1(math.isfinite, lambda x: True))
        self.put(math, "fabs", _wrap1(math.fabs, lambda x: abs(x)))
        isc = _np_isclose(np.isclose)
        self.put(np, "isclose", isc)
        self.put(np, "allclose", _np_allclose(np.allclose, isc))
        self.put(np, "isnan", _wrap1(np.isnan, lambda x: np.zeros(np.shape(x), dtype=bool)))
        self.put(np, "isfinite", _wrap1(np.isfinite, lambda x: np.ones(np.shape(x), dtype=bool)))
        L = np.linalg
        self.put(L, "inv", _wrap1(L.inv, sym_inv))
        self.put(L, "pinv", _wrap1(L.pinv, lambda x, *a, **k: sym_inv(x)))
        self.put(L, "det", _wrap1(L.det, lambda x: minor_det(np.asarray(x, dtype=object))))
        so = L.solve
        self.put(L, "solve", lambda A, b: sym_solve(A, b) if _has_sym(np.asarray(A)) or _has_sym(np.asarray(b)) else so(A, b))
        self.put(json.JSONEncoder, "default", self._json_default(json.JSONEncoder.default))
        self.put(json, "loads", self._json_loads(json.loads))
        self.put(json, "load", lambda fp, **k: json.loads(fp.read(), **k))
        # objects without a hash of their own are hashed by address; number them instead, so that
        # sets of nodes and edges iterate alike whenever a path is run again
        for modname, clsname in (("node", "Node"), ("edge", "Edge"), ("jointree", "Evidence"), ("potential", "Potential"),
                                 ("potential", "PotentialEntry"), ("variable", "Variable")):
            cls = getattr(sys.modules.get("pybbn.graph." + modname), clsname, None)
            if cls is not None and cls.__hash__ is object.__hash__:
                self.put(cls, "__hash__", _numbered())
        for obj, name, val in self.extra:
            self.put(obj, name, val)
        return self

    def __exit__(self, *a):
        for obj, name, val, had in reversed(self.saved):
            if had:
                setattr(obj, name, val)
            else:
                delattr(obj, name)
        self.saved = []

    @staticmethod
    def _json_default(orig):
        def default(enc, o):
            if isinstance(o, SymReal):
                return {"__symreal__": E.CUR.token(o)}
            if isinstance(o, SymInt):
                return {"__symint__": str(o)}
            return orig(enc, o)
        return default

    @staticmethod
    def _json_loads(orig):
        def fix(o):
            if isinstance(o, dict):
                if set(o) == {"__symreal__"}:
                    return E.CUR.untoken(o["__symreal__"])
                return {k: fix(v) for k, v in o.items()}
            if isinstance(o, list):
                return [fix(v) for v in o]
            return o

        def loads(s, *a, **k):
            r = orig(s, *a, **k)
            return fix(r) if E.CUR is not None else r
        return loads


LISTED = [
    "numbers are exact reals (float rounding is outside the encoding; replays use floats with a tolerance)",
    "float(), str()/format() of a number, json encode/decode are inverse on unrounded numbers; a rounding format or round() yields an arbitrary real within half a unit",
    "math.isclose/fsum/sqrt, numpy isclose/allclose/linalg.inv/solve/det have their mathematical meaning on symbolic arrays",
]
