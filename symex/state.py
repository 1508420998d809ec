"""Module-level state of the code under test, put back before every path and replay,
so that a path depends on its inputs only (mutable default arguments, class and module
attributes, caches)."""
import copy
import sys
import types

MUT = (list, dict, set)


class State:
    def __init__(self):
        self.saved = []
        self.caches = []
        self.seen = set()
        self.had = {}
        for k, m in sorted(sys.modules.items()):
            if (k == "pybbn" or k.startswith("pybbn.")) and m is not None:
                self.scan(m.__dict__, k, top=True)

    def scan(self, d, mod, top=False):
        for name, v in list(d.items()):
            if name.startswith("__") and name.endswith("__") and name != "__init__" and not isinstance(v, types.FunctionType):
                continue
            self.take(v, mod)

    def take(self, v, mod):
        if id(v) in self.seen:
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self.take(f, mod)
            return
        if hasattr(v, "cache_clear") and callable(v.cache_clear):
            self.caches.append(v)
            return
        if isinstance(v, types.FunctionType):
            if v.__module__ != mod:
                return
            self.seen.add(id(v))
            for x in (v.__defaults__ or ()):
                self.keep(x)
            for x in (v.__kwdefaults__ or {}).values():
                self.keep(x)
            self.keep(v.__dict__)
            for c in v.__closure__ or ():
                try:
                    self.keep(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(v, type):
            if v.__module__ != mod:
                return
            self.seen.add(id(v))
            self.scan(dict(v.__dict__), mod)
            self.attrs(v)
        elif isinstance(v, MUT):
            self.keep(v)

    def attrs(self, cls):
        """Class attributes that are plain values (counters and the like)."""
        plain = {k: v for k, v in cls.__dict__.items() if not (k.startswith("__") and k.endswith("__")) and isinstance(v, (int, float, str, bool, type(None)))}
        self.saved.append(("cls", cls, plain))
        self.had[cls] = set(cls.__dict__)

    def keep(self, x):
        if isinstance(x, MUT) and id(x) not in self.seen:
            self.seen.add(id(x))
            try:
                self.saved.append(("obj", x, copy.copy(x)))
            except Exception:
                pass

    def restore(self):
        for kind, x, v in self.saved:
            if kind == "obj":
                if isinstance(x, list):
                    x[:] = v
                elif x != v or len(x) != len(v):
                    x.clear()
                    x.update(v)
            else:
                for k in set(x.__dict__) - self.had[x]:
                    delattr(x, k)
                for k, val in v.items():
                    if x.__dict__.get(k, self) is not val:
                        setattr(x, k, val)
        for c in self.caches:
            c.cache_clear()


_STATE = None


def restore():
    global _STATE
    if _STATE is None:
        _STATE = State()
    _STATE.restore()
