"""Every path starts from the state the package has after import: module globals, class attributes and the containers and objects they hold."""
import importlib
import os
import sys
import types

from .values import SymByteArray


def import_all(repo, pkg="elgas"):
    base = os.path.join(repo, pkg)
    for d, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                name = os.path.relpath(os.path.join(d, f), repo)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                try:
                    importlib.import_module(name)
                except Exception:
                    pass


class Snapshot:
    def __init__(self, pkg="elgas"):
        self.seen = {}
        self.dicts, self.lists, self.sets, self.arrays, self.objs = [], [], [], [], []
        self.pkg = pkg
        for n, m in sorted(sys.modules.items()):
            if m is not None and (n == pkg or n.startswith(pkg + ".")):
                d = vars(m)
                self.dicts.append((d, {k: v for k, v in d.items() if not k.startswith("__")}))
                for k, v in list(d.items()):
                    if not k.startswith("__"):
                        self.walk(v)

    def ours(self, cls):
        m = getattr(cls, "__module__", "") or ""
        return m == self.pkg or m.startswith(self.pkg + ".")

    def walk(self, v):
        t = type(v)
        if t in (int, str, bytes, bool, float, type(None), types.ModuleType) or id(v) in self.seen:
            return
        if t is dict:
            self.seen[id(v)] = v
            self.dicts.append((v, dict(v)))
            for x in list(v.values()):
                self.walk(x)
        elif t is list:
            self.seen[id(v)] = v
            self.lists.append((v, list(v)))
            for x in v:
                self.walk(x)
        elif t is set:
            self.seen[id(v)] = v
            self.sets.append((v, set(v)))
        elif t is SymByteArray:
            self.seen[id(v)] = v
            self.lists.append((v._e, list(v._e)))
        elif t is bytearray:
            self.seen[id(v)] = v
            self.arrays.append((v, bytes(v)))
        elif t is tuple:
            self.seen[id(v)] = v
            for x in v:
                self.walk(x)
        elif isinstance(v, types.FunctionType):
            self.seen[id(v)] = v
            if self.ours(v):
                for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                    self.walk(x)
                for c in v.__closure__ or ():
                    try:
                        self.walk(c.cell_contents)
                    except ValueError:
                        pass
                self.dicts.append((v.__dict__, dict(v.__dict__)))
        elif isinstance(v, (staticmethod, classmethod)):
            self.walk(v.__func__)
        elif isinstance(v, type):
            self.seen[id(v)] = v
            if self.ours(v):
                attrs = {k: x for k, x in vars(v).items() if not k.startswith("__")}
                self.objs.append((v, attrs))
                for x in attrs.values():
                    self.walk(x)
                for x in vars(v).get("__attrs_attrs__", ()):
                    self.walk(x.default)
                self.walk(vars(v).get("__init__"))
        elif self.ours(t) and hasattr(v, "__dict__") and not isinstance(v, type):
            self.seen[id(v)] = v
            self.dicts.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self.walk(x)
        elif hasattr(v, "cache_clear"):
            self.seen[id(v)] = v
            self.lists.append((v, None))

    def restore(self):
        for d, c in self.dicts:
            if len(d) == len(c) or any(not str(k).startswith("__") for k in d.keys() - c.keys()):
                for k in [k for k in d if k not in c and not (isinstance(k, str) and k.startswith("__"))]:
                    del d[k]
            for k, x in c.items():
                if k not in d or d[k] is not x:
                    d[k] = x
        for l, c in self.lists:
            if c is None:
                l.cache_clear()
            elif len(l) != len(c) or any(a is not b for a, b in zip(l, c)):
                l[:] = c
        for s, c in self.sets:
            if s != c:
                s.clear()
                s.update(c)
        for a, c in self.arrays:
            if type(a) is not bytearray or bytes(a) != c:
                a[:] = c
        for o, c in self.objs:
            now = vars(o)
            for k in [k for k in now if k not in c and not k.startswith("__")]:
                try:
                    delattr(o, k)
                except (AttributeError, TypeError):
                    pass
            for k, x in c.items():
                if now.get(k) is not x:
                    try:
                        setattr(o, k, x)
                    except (AttributeError, TypeError):
                        pass
