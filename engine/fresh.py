"""The state a freshly loaded library has: what its modules, classes and functions hold, put back before every path and replay."""
import collections
import enum
import functools
import sys
import types
import weakref

CONT = (dict, list, set, bytearray, collections.deque)
ATOM = (int, str, bytes, float, complex, type(None), bool, range, frozenset)


class Fresh:
    def __init__(self, package):
        self.package = package
        self.seen = set()
        self.namespaces = []    # (object, names -> values)
        self.contents = []      # (container, its items)
        self.lru = []
        self.keep = []
        for name, m in sorted(sys.modules.items()):
            if name == package or name.startswith(package + '.'):
                self.namespace(m)
                for v in list(vars(m).values()):
                    self.visit(v, 0)

    def ours(self, o):
        m = getattr(o, '__module__', None)
        return isinstance(m, str) and (m == self.package or m.startswith(self.package + '.'))

    def namespace(self, o):
        self.namespaces.append((o, dict(vars(o))))

    def visit(self, o, depth):
        if isinstance(o, ATOM) or isinstance(o, types.ModuleType) or id(o) in self.seen or depth > 6:
            return
        self.seen.add(id(o))
        self.keep.append(o)
        t = type(o)
        if isinstance(o, CONT):
            items = list(o.items()) if isinstance(o, dict) else list(o)
            if isinstance(o, bytearray):
                self.contents.append((o, bytes(o)))
                return
            self.contents.append((o, items))
            if len(items) <= 4096:
                for x in items:
                    for y in x if isinstance(o, dict) else (x,):
                        self.visit(y, depth + 1)
            return
        if isinstance(o, tuple):
            for x in o[:4096]:
                self.visit(x, depth + 1)
            return
        if isinstance(o, functools.partial):
            self.visit(o.func, depth + 1)
            return
        if isinstance(o, functools._lru_cache_wrapper):
            self.lru.append(o)
            self.visit(o.__wrapped__, depth + 1)
            return
        if isinstance(o, (staticmethod, classmethod, types.MethodType)):
            self.visit(o.__func__, depth + 1)
            return
        if isinstance(o, property):
            for g in (o.fget, o.fset):
                self.visit(g, depth + 1)
            return
        if isinstance(o, types.FunctionType):
            if self.ours(o):
                if o.__dict__:
                    self.contents.append((o.__dict__, list(o.__dict__.items())))
                    for v in list(o.__dict__.values()):
                        self.visit(v, depth + 1)
                else:
                    self.contents.append((o.__dict__, []))
                for x in (o.__defaults__ or ()) + tuple((o.__kwdefaults__ or {}).values()):
                    self.visit(x, depth + 1)
                for c in o.__closure__ or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    self.namespaces.append((c, v))
                    self.visit(v, depth + 1)
            return
        if isinstance(o, type):
            if self.ours(o) and not issubclass(o, enum.Enum):
                self.namespace(o)
                for k, v in list(vars(o).items()):
                    if not (k.startswith('__') and k.endswith('__')) or isinstance(v, types.FunctionType):
                        self.visit(v, depth + 1)
            return
        if isinstance(o, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary, weakref.WeakSet, collections.UserDict, collections.UserList)):
            self.visit(o.data, depth + 1)
            return
        if self.ours(t) and not isinstance(o, enum.Enum):
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict):
                self.contents.append((d, list(d.items())))
                for v in list(d.values()):
                    self.visit(v, depth + 1)

    def restore(self):
        for o, items in self.contents:
            if isinstance(o, bytearray):
                if o != items:
                    o[:] = items
            elif isinstance(o, dict):
                if len(o) != len(items) or not all(a is k and b is v for (a, b), (k, v) in zip(o.items(), items)):
                    o.clear()
                    for k, v in items:
                        o[k] = v
            elif isinstance(o, set):
                if len(o) != len(items) or not {id(x) for x in o} == {id(x) for x in items}:
                    o.clear()
                    o.update(items)
            elif len(o) != len(items) or not all(a is b for a, b in zip(o, items)):
                o.clear()
                o.extend(items)
        for o, names in self.namespaces:
            if isinstance(o, types.CellType):
                try:
                    same = o.cell_contents is names
                except ValueError:
                    same = False
                if not same:
                    o.cell_contents = names
                continue
            now = vars(o)
            if len(now) == len(names) and all(now.get(k, self) is v for k, v in names.items()):
                continue
            for k in [k for k in now if k not in names]:
                if k not in ('__abstractmethods__', '_abc_impl', '__annotations__', '__weakref__', '__warningregistry__', '__doc__'):
                    try:
                        delattr(o, k)
                    except (AttributeError, TypeError):
                        pass
            for k, v in names.items():
                if now.get(k, self) is not v:
                    try:
                        setattr(o, k, v)
                    except (AttributeError, TypeError):
                        pass
        for f in self.lru:
            f.cache_clear()
