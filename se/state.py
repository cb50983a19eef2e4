"""Module-level state of the program under test is put back before every path."""
import collections
import sys
import types

from .data import SymDict, SymSet, SymByteArray


class StateGuard:
    def __init__(self, package):
        self.package = package
        self.modules, self.classes, self.containers = [], [], []
        seen = set()
        for name, mod in list(sys.modules.items()):
            if name == package or name.startswith(package + '.'):
                self.modules.append((mod, dict(mod.__dict__)))
        for mod, snap in self.modules:
            for v in list(snap.values()):
                self._walk(v, seen, 0)

    def _walk(self, v, seen, depth):
        if depth > 6 or id(v) in seen:
            return
        t = type(v)
        if t in (int, float, str, bytes, bool, type(None), types.ModuleType):
            return
        seen.add(id(v))
        if t is SymDict or isinstance(v, SymDict):
            items = [list(e) for e in v._items]
            self.containers.append((v, 'symdict', items, dict(v._fast), v._sym))
            for e in items:
                self._walk(e[1], seen, depth + 1)
        elif t is SymSet:
            self._walk(v._d, seen, depth)
        elif t in (list, bytearray, collections.deque):
            self.containers.append((v, 'list', list(v)))
            for x in v:
                self._walk(x, seen, depth + 1)
        elif t is SymByteArray:
            self.containers.append((v, 'sba', list(v.b)))
        elif t in (dict, set, collections.OrderedDict, collections.defaultdict):
            self.containers.append((v, 'map', t(v) if t is not collections.defaultdict else dict(v)))
            for x in (v.values() if hasattr(v, 'values') else v):
                self._walk(x, seen, depth + 1)
        elif t is tuple:
            for x in v:
                self._walk(x, seen, depth + 1)
        elif isinstance(v, type):
            if str(getattr(v, '__module__', '')).split('.')[0] == self.package:
                self.classes.append((v, dict(vars(v))))
                for x in list(vars(v).values()):
                    self._walk(x, seen, depth + 1)
        elif t in (staticmethod, classmethod):
            self._walk(v.__func__, seen, depth)
        elif t is property:
            for f in (v.fget, v.fset, v.fdel):
                self._walk(f, seen, depth)
        elif t is types.FunctionType:
            for x in (v.__defaults__ or ()):
                self._walk(x, seen, depth + 1)
            for x in (v.__kwdefaults__ or {}).values():
                self._walk(x, seen, depth + 1)
            for c in (v.__closure__ or ()):
                try:
                    self._walk(c.cell_contents, seen, depth + 1)
                except ValueError:
                    pass
            if v.__dict__:
                self.containers.append((v.__dict__, 'map', dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    self._walk(x, seen, depth + 1)
        elif str(getattr(t, '__module__', '')).split('.')[0] == self.package:
            d = getattr(v, '__dict__', None)
            if d is not None:
                self.containers.append((d, 'map', dict(d)))
                for x in list(d.values()):
                    self._walk(x, seen, depth + 1)
            for k in t.__mro__:
                sl = k.__dict__.get('__slots__', ())
                for s in ((sl,) if isinstance(sl, str) else sl):
                    if hasattr(v, s):
                        x = getattr(v, s)
                        self.containers.append((v, 'slot', s, x))
                        self._walk(x, seen, depth + 1)

    def restore(self):
        for mod, snap in self.modules:
            d = mod.__dict__
            if len(d) != len(snap) or any(d.get(k) is not v for k, v in snap.items()):
                for k in list(d):
                    if k not in snap:
                        del d[k]
                d.update(snap)
        for cls, snap in self.classes:
            cur = vars(cls)
            if len(cur) != len(snap) or any(cur.get(k) is not v for k, v in snap.items()):
                for k in list(cur):
                    if k not in snap:
                        delattr(cls, k)
                for k, v in snap.items():
                    if cur.get(k) is not v:
                        setattr(cls, k, v)
        for c in self.containers:
            o, kind = c[0], c[1]
            if kind == 'symdict':
                o._items = [list(e) for e in c[2]]
                o._fast = {e[0]: e for e in o._items if e[2]}
                o._sym = c[4]
            elif kind == 'list':
                if len(o) != len(c[2]) or any(a is not b for a, b in zip(o, c[2])):
                    o.clear()
                    o.extend(c[2])
            elif kind == 'sba':
                o.b[:] = c[2]
            elif kind == 'map':
                o.clear()
                o.update(c[2])
            elif kind == 'slot':
                try:
                    if getattr(o, c[2]) is not c[3]:
                        object.__setattr__(o, c[2], c[3])
                except AttributeError:
                    object.__setattr__(o, c[2], c[3])
