"""Runtime of instrumented code: dispatch of calls and models of built-in operations on symbolic values."""
import array
import base64
import binascii
import builtins
import bisect
import collections
import datetime
import enum
import functools
import hashlib
import hmac
import io
import itertools
import math
import operator
import os
import re
import struct
import types
import unicodedata
import z3

from . import core as K
from .core import SymInt, SymBool, And, Or, Not, Unsupported, Control, ite, table_get, in_set
from . import sbytes as B
from .sbytes import SymBytes, SymStr, SymSeq, LazyStr, bool_of, mkbytes, mkstr, Word
from . import fmt

FuncT, MethT = types.FunctionType, types.MethodType
BuiltT = types.BuiltinFunctionType
BuiltM = type(re.compile('').match)
WrapT = (type([].__len__), type(str.join), type(int.__add__), types.ClassMethodDescriptorType)

FUNCS = {}        # function object -> model
METHS = {}        # (type, name) -> model(self, *a)
TYPES = {}        # class -> model
real_slice = slice


def enter(name):
    if K.C is not None:
        K.C.funcs.add(name)


def sym(x):
    return isinstance(x, (SymInt, SymBool, SymSeq)) or getattr(x, '_symbolic', False) is True


def deep_sym(x, d=2):
    if isinstance(x, (SymInt, SymBool, SymSeq)):
        return True
    if d and isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(y, d - 1) for y in x)
    if d and isinstance(x, dict):
        return any(deep_sym(y, d - 1) for y in x.values()) or any(deep_sym(y, d - 1) for y in x.keys())
    return False


def concretise(x, why='native call'):
    """Fork-free concretisation: pick one model value, path becomes partial."""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        v = K.C.force(x, limit=8, why=why)
        return v
    if isinstance(x, SymBytes):
        r = bytes(K.C.force(y, limit=1, why=why) if isinstance(y, SymInt) else y for y in x.units())
        return bytearray(r) if x.mutable else r
    if isinstance(x, SymStr):
        return ''.join(chr(K.C.force(y, limit=1, why=why)) if isinstance(y, SymInt) else chr(y) for y in x.units())
    if isinstance(x, list):
        return [concretise(y, why) for y in x]
    if type(x) is tuple:
        return tuple(concretise(y, why) for y in x)
    if isinstance(x, dict) and type(x) is dict:
        return {concretise(k, why): concretise(v, why) for k, v in x.items()}
    return x


SAFE_TYPES = (list, tuple, set, frozenset, collections.deque, types.GeneratorType)
SAFE_FUNCS = {bisect.bisect, bisect.bisect_left, bisect.bisect_right, bisect.insort, bisect.insort_left, bisect.insort_right,
              id, callable, iter, next, enumerate, zip, getattr, setattr, hasattr, functools.reduce}


def native(f, a, k):
    if K.C is not None and (any(deep_sym(x) for x in a) or (k and any(deep_sym(x) for x in k.values()))):
        s = getattr(f, '__self__', None)
        if f not in SAFE_FUNCS and not isinstance(s, SAFE_TYPES):
            why = 'call of %s' % getattr(f, '__qualname__', getattr(f, '__name__', f))
            K.C.partial.append(why)
            a = tuple(concretise(x, why) for x in a)
            k = {n: concretise(v, why) for n, v in k.items()}
            if isinstance(s, SymSeq):
                return getattr(concretise(s), f.__name__)(*a, **k)
    return f(*a, **k)


def call(f, *a, **k):
    if K.C is None:
        return f(*a, **k)
    t = type(f)
    if t is FuncT:
        try:
            m = FUNCS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*a, **k)
        return f(*a, **k)
    if t is MethT:
        fn = f.__func__
        m = FUNCS.get(fn) if isinstance(fn, FuncT) else None
        if m is not None:
            return m(f.__self__, *a, **k)
        return f(*a, **k)
    if t is BuiltT or t is BuiltM:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            m = FUNCS.get(f)
            if m is not None:
                return m(*a, **k)
            return native(f, a, k)
        if isinstance(s, type):
            for c in s.__mro__:
                m = METHS.get((c, f.__name__))
                if m is not None:
                    return m(s, *a, **k)
            return native(f, a, k)
        for c in type(s).__mro__:
            m = METHS.get((c, f.__name__))
            if m is not None:
                return m(s, *a, **k)
        return native(f, a, k)
    if isinstance(f, type):
        m = TYPES.get(f)
        if m is not None:
            return m(*a, **k)
        if issubclass(f, int) and f is not bool:
            return make_int_sub(f, a, k)
        if issubclass(f, (str, bytes, bytearray)) and deep_sym(a):
            raise Unsupported('subclass of str/bytes')
        if issubclass(f, BaseException) or isinstance(getattr(f, '__init__', None), FuncT) or \
                isinstance(getattr(f, '__new__', None), FuncT):
            return f(*a, **k)
        if f in SAFE_CLASSES or not deep_sym(a):
            return f(*a, **k)
        if f.__module__ not in ('builtins', '_io', '_struct', 'datetime', 'decimal', 'fractions', '_sre', 'array'):
            return f(*a, **k)
        return native(f, a, k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is functools._lru_cache_wrapper:
        return lru_call(f, a, k)
    if t in WrapT:
        # unbound method such as str.join / int.from_bytes accessed on the class
        oc = getattr(f, '__objclass__', None)
        if a and isinstance(a[0], (SymSeq, SymInt)):
            g = getattr(a[0], f.__name__)
            return call(g, *a[1:], **k)
        m = METHS.get((oc, f.__name__))
        if m is not None and a:
            return m(*a, **k)
        return native(f, a, k)
    return f(*a, **k)


def lru_same(x, y):
    """whether a cached function takes the argument y for the earlier x.  Symbolic values of the built-in types count as different
    unless they are one object: for them equal arguments are interchangeable."""
    if x is y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(lru_same(p, q) for p, q in zip(x, y))
    sx, sy = isinstance(x, (SymInt, SymBool, SymSeq)), isinstance(y, (SymInt, SymBool, SymSeq))
    if sx or sy:
        if type(x) is type(y) is SymBytes:
            u, v = [z.segs[0] if len(z.segs) == 1 and type(z.segs[0]) is list else None for z in (x, y)]
        elif type(x) is type(y) is SymStr:
            u, v = x.u, y.u
        else:
            return False
        return u is not None and v is not None and len(u) == len(v) and all(p is q or type(p) is int and type(q) is int and p == q for p, q in zip(u, v))
    if obj_symkey(x) and obj_symkey(y):
        return bool_of(eq(x, y))
    if obj_symkey(x) or obj_symkey(y):
        return False
    try:
        return hash(x) == hash(y) and bool(x == y)
    except TypeError:
        raise TypeError('unhashable type: %r' % type(y).__name__) from None


def lru_call(f, a, k):
    for x in a + tuple(k.values()):
        if isinstance(x, (list, dict, set, bytearray)):
            raise TypeError('unhashable type: %r' % type(x).__name__)
    par = f.cache_parameters()
    known = K.C.state.setdefault('lru', {}).setdefault(id(f), [])
    if par['maxsize'] is None or par['maxsize'] > 0:
        for n in range(len(known) - 1, -1, -1):
            a0, k0, r, _ = known[n]
            if len(a0) == len(a) and tuple(k0) == tuple(k) and (not par['typed'] or [type(x) for x in a0] == [type(x) for x in a]) and \
                    lru_same(a0, a) and lru_same(tuple(k0.values()), tuple(k.values())):
                known.append(known.pop(n))
                return r
    r = call(f.__wrapped__, *a, **k)
    known.append((a, dict(k), r, f))
    if par['maxsize'] is not None and len(known) > par['maxsize']:
        del known[0]
    return r


SAFE_CLASSES = {list, tuple, set, frozenset, dict, enumerate, zip, collections.deque, collections.OrderedDict,
                collections.defaultdict, itertools.chain, itertools.count, itertools.cycle, itertools.repeat, property, staticmethod,
                classmethod, object, type}


def make_int_sub(f, a, k):
    if a and isinstance(a[0], SymBool):
        a = (a[0].as_int(),) + a[1:]
    if not (a and isinstance(a[0], SymInt)):
        return f(*a, **k)
    x = a[0]
    if issubclass(f, enum.Enum):
        vals = sorted(f._value2member_map_)
        if issubclass(f, enum.Flag):
            full = 0
            for v in vals:
                full |= v
            if issubclass(f, enum.IntFlag) and full & (full + 1) == 0 and bool_of(And(x >= 0, x <= full)):
                r = SymInt(dict(x.p), x.bits, f)
                r.prov = x.prov
                return r
            return f(K.C.force(x, why='flag value'))
        if bool_of(in_set(x, vals)):
            # case split per value
            return f(K.C.force(x, limit=400, why='enum value'))
        raise ValueError('%r is not a valid %s' % (x, f.__name__))
    new = f.__dict__.get('__new__')
    if f.__new__ is not int.__new__ or f.__init__ is not object.__init__:
        if isinstance(f.__new__, FuncT) or isinstance(f.__init__, FuncT):
            K.C.partial.append('int subclass with constructor')
            return f(concretise(x), *a[1:], **k)
    r = SymInt(dict(x.p), x.bits, f)
    r.prov = x.prov
    return r


def _symint_getattr(self, name):
    cls = self.cls
    if cls is not int:
        for c in cls.__mro__:
            if c is int:
                break
            if name in c.__dict__:
                v = c.__dict__[name]
                if isinstance(v, property):
                    return v.fget(self)
                if isinstance(v, FuncT):
                    return MethT(v, self)
                if isinstance(v, classmethod):
                    return MethT(v.__func__, cls)
                if isinstance(v, staticmethod):
                    return v.__func__
                if hasattr(v, '__get__') and not isinstance(v, (int, str)):
                    return v.__get__(self, cls)
                return v
    if hasattr(int, name):
        raise Unsupported('int.%s' % name)
    raise AttributeError("'int' object has no attribute %r" % name)


SymInt.__getattr__ = _symint_getattr


def _symseq_getattr(self, name):
    t = bytes if isinstance(self, SymBytes) and not self.mutable else bytearray if isinstance(self, SymBytes) else str
    if hasattr(t, name):
        raise Unsupported('%s.%s' % (t.__name__, name))
    raise AttributeError("'%s' object has no attribute %r" % (t.__name__, name))


SymSeq.__getattr__ = _symseq_getattr


# ------------------------------------------------------------------------------------------------ operators
def peek(seq, i):
    return type(seq) in (list, tuple, bytes) and type(i) is int and -len(seq) <= i < len(seq) and type(seq[i]) in (int, SymInt)


def peeked(pk):
    try:
        return pk is None or pk()
    except Exception:   # the branch would raise: take it the ordinary way
        return False


def cond(c, pk, *vals):
    if isinstance(c, SymInt):
        c = c != 0
    if isinstance(c, SymBool):
        c = c.simp()
        if isinstance(c, bool):
            return c
        if all(isinstance(v, (int, SymInt)) for v in vals) and peeked(pk):
            return c
        return bool(c)
    return bool(c)


def merge(c, new, old):
    if isinstance(new, (int, SymInt)) and isinstance(old, (int, SymInt)):
        return ite(c, new, old)
    raise Unsupported('merge')


def ifexp(c, x, y):
    if isinstance(c, SymInt):
        c = c != 0
    if isinstance(c, SymBool):
        c = c.simp()
        if isinstance(c, SymBool):
            if isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt)) and not isinstance(x, bool) \
                    and not isinstance(y, bool) and type(x) in (int, SymInt) and type(y) in (int, SymInt):
                return ite(c, x, y)
            c = bool(c)
    return x if c else y


def not_(x):
    if isinstance(x, SymBool):
        x = x.simp()
        return x.neg() if isinstance(x, SymBool) else not x
    return not x


def chain(ops, *xs):
    res = []
    table = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge, 'Eq': eq, 'NotEq': ne}
    if not any(isinstance(x, (SymInt, SymBool)) for x in xs):
        r = True
        for o, x, y in zip(ops, xs, xs[1:]):
            r = table[o](x, y)
            if not r:
                return r
        return r
    for o, x, y in zip(ops, xs, xs[1:]):
        r = table[o](x, y)
        if isinstance(r, SymBool):
            r = r.simp()
        if r is False:
            return False
        res.append(r)
    return And(*res)


def is_(a, b):
    if isinstance(a, SymBool) and type(b) is bool:
        return a if b else Not(a)
    if isinstance(b, SymBool) and type(a) is bool:
        return b if a else Not(b)
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return Or(And(a, b), And(Not(a), Not(b)))
    return a is b


def eq(a, b):
    ta, tb = type(a), type(b)
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if deep_sym(a) or deep_sym(b):
            if len(a) != len(b):
                return False
            return And(*[x is y or eq(x, y) for x, y in zip(a, b)])
        return a == b
    if isinstance(a, SETS) and isinstance(b, SETS) and (anysymkeys(a) or anysymkeys(b)):
        return len(a) == len(b) and subset(a, b)
    if isinstance(a, dict) and isinstance(b, dict) and (anysymkeys(a) or anysymkeys(b)):
        return len(a) == len(b) and subset(a, b) and And(*[eq(v, getitem(b, k)) for k, v in a.items()])
    return a == b


SETS = (set, frozenset)


def subset(a, b):
    return all([dfind(b, x) is not MISSING for x in a])


class SymSet(set):
    """a set that was made with symbolic elements"""
    __hash__ = None

    def __le__(self, o):
        return subset(self, o) if isinstance(o, SETS) else NotImplemented

    def __ge__(self, o):
        return subset(o, self) if isinstance(o, SETS) else NotImplemented

    def __lt__(self, o):
        return len(self) < len(o) and subset(self, o) if isinstance(o, SETS) else NotImplemented

    def __gt__(self, o):
        return len(self) > len(o) and subset(o, self) if isinstance(o, SETS) else NotImplemented

    def __and__(self, o):
        return mkset([x for x in self if dfind(o, x) is not MISSING]) if isinstance(o, SETS) else NotImplemented

    def __sub__(self, o):
        return mkset([x for x in self if dfind(o, x) is MISSING]) if isinstance(o, SETS) else NotImplemented

    def __or__(self, o):
        return mkset(list(self) + list(o)) if isinstance(o, SETS) else NotImplemented

    def __xor__(self, o):
        return (self - o) | mkset([x for x in o if dfind(self, x) is MISSING]) if isinstance(o, SETS) else NotImplemented

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __rsub__(self, o):
        return mkset([x for x in o if dfind(self, x) is MISSING]) if isinstance(o, SETS) else NotImplemented


def ne(a, b):
    if type(a) in (list, tuple) and type(a) is type(b):
        return Not(eq(a, b))
    if isinstance(a, (set, frozenset, dict)) and isinstance(b, (set, frozenset, dict)) and (anysymkeys(a) or anysymkeys(b)):
        return Not(eq(a, b))
    return a != b


def slice(a, b, c):
    return real_slice(a, b, c)


def mod(a, b):
    if isinstance(a, (str, SymStr)):
        if deep_sym(b) or isinstance(a, SymStr) or has_symobj(b):
            return fmt.percent(a, b)
        return a % b
    if isinstance(a, (bytes, bytearray)) and deep_sym(b):
        raise Unsupported('bytes %')
    return a % b


def has_symobj(b):
    return False


def fstr(*parts):
    out = []
    anysym = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        s = fmt.fmt_value(v, conv, spec)
        if isinstance(s, str):
            out.append(s)
        else:
            anysym = True
            out.append(s)
    if not anysym:
        return ''.join(out)
    return LazyStr(out)


def anysymkeys(d):
    return K.C is not None and id(d) in K.C.state.get('symdicts', ())


def mark(d):
    K.C.state.setdefault('symdicts', {})[id(d)] = d


def keysym(k):
    return isinstance(k, (SymInt, SymBool, SymSeq)) or (isinstance(k, tuple) and (deep_sym(k) or any([keysym(x) for x in k]))) or \
        (not isinstance(k, (int, str, bytes, tuple, type(None), float, frozenset, type, FuncT)) and obj_symkey(k))


def obj_symkey(k):
    """object whose hash depends on symbolic content"""
    h = type(k).__hash__
    if isinstance(h, FuncT) and not isinstance(k, enum.Enum):
        plain_hash(type(k), h)
        return True
    return False


def plain_hash(cls, h):
    """the native dict needs an integer; which key is equal is found by dfind"""
    if hasattr(h, '_sx_orig') or not loaded(h):
        return

    def __hash__(self):
        r = h(self)
        return r if type(r) is int else id(self) >> 4
    __hash__._sx_orig = h
    cls.__hash__ = __hash__


def loaded(h):
    return (h.__module__ or '').split('.')[0] == 'bitcoinx'


MISSING = object()


def dfind(d, k):
    """actual key of mapping/set d equal to k, or MISSING (forks)."""
    ks = keysym(k)
    if not ks and not anysymkeys(d):
        return k if k in d else MISSING
    if isinstance(k, SymInt) and len(d) > 12 and all(isinstance(x, int) for x in d):
        if not bool_of(in_set(k, list(d))):
            return MISSING
        return None
    if isinstance(k, SymStr) and len(d) > 12 and all(isinstance(x, str) and len(x) == 1 for x in d):
        u = k.units()
        if len(u) != 1 or not bool_of(in_chars(u[0], d)):
            return MISSING
        return None
    if isinstance(k, (SymBytes, bytes)):
        cand = [x for x in d if isinstance(x, (bytes, SymBytes))]
    elif isinstance(k, (SymStr, str)):
        cand = [x for x in d if isinstance(x, (str, SymStr))]
    else:
        cand = list(d)
    for x in cand:
        if x is k:
            return x
        if bool_of(eq(x, k)):
            return x
    return MISSING


def in_chars(x, chars):
    if isinstance(x, int):
        return chr(x) in chars
    if x.prov is not None:
        return in_set(x.prov[1], [i for i, v in enumerate(x.prov[0].seq) if chr(v) in chars])
    return in_set(x, [ord(c) for c in chars])


def dget(d, k, exists_key):
    """value for symbolic key known to be in d (key in int/char table): merged lookup"""
    if isinstance(k, SymStr):
        x = k.units()[0]
        items = {ord(c): v for c, v in d.items()}
    else:
        x = k
        items = dict(d)
    return lookup_ints(x, items)


def lookup_ints(x, items):
    vals = list(items.values())
    if all(type(v) is int for v in vals):
        if x.prov is not None:
            t, base = x.prov
            return table_get(tuple(items.get(v, 0) for v in t.seq), base)
        lo, hi = x.rng()
        if lo is not None and lo >= 0 and hi is not None and hi < 5000:
            return table_get(tuple(items.get(i, 0) for i in range(hi + 1)), x)
    return items[K.C.force(x, limit=400, why='table key')]


def in_(x, c):
    if isinstance(c, SymSeq):
        return c.contains(x)
    if isinstance(c, (dict, set, frozenset)) or type(c).__name__ in ('dict_keys', 'mappingproxy'):
        if keysym(x) or anysymkeys(c):
            if isinstance(x, SymInt) and all(isinstance(v, int) for v in c):
                return in_set(x, list(c))
            if isinstance(x, SymStr) and len(x.units()) == 1 and all(isinstance(v, str) for v in c):
                return in_chars(x.units()[0], {v for v in c if len(v) == 1})
            return dfind(c, x) is not MISSING
        return x in c
    if isinstance(c, (list, tuple, collections.deque)):
        if deep_sym(x) or deep_sym(c):
            if isinstance(x, SymInt) and len(c) > 3 and all(type(v) is int for v in c):
                return in_set(x, c)
            if isinstance(x, SymStr) and len(x.units()) == 1 and all(isinstance(v, str) and len(v) == 1 for v in c):
                return in_chars(x.units()[0], set(c))
            rs = []
            for v in c:
                if v is x:
                    return True
                r = eq(v, x)
                if isinstance(r, SymBool):
                    r = r.simp()
                if r is True:
                    return True
                if r is not False:
                    rs.append(r)
            return Or(*rs)
        return x in c
    if isinstance(c, str):
        if isinstance(x, SymStr):
            u = x.units()
            if len(u) == 1:
                return in_chars(u[0], set(c))
            return SymStr([ord(y) for y in c]).contains(x)
        return x in c
    if isinstance(c, (bytes, bytearray)):
        if isinstance(x, SymInt):
            return in_set(x, list(c))
        if isinstance(x, SymBytes):
            return SymBytes([list(c)]).contains(x)
        return x in c
    if isinstance(c, range) and isinstance(x, SymInt):
        if c.step == 1:
            return And(x >= c.start, x < c.stop)
        return And(x >= min(c[0], c[-1]), x <= max(c[0], c[-1]), (x - c.start) % c.step == 0) if len(c) else False
    if isinstance(c, SymRange):
        return c.contains(x)
    if isinstance(c, SymInt) and issubclass(c.cls, enum.Flag):
        return (c & int(x)) == int(x)
    m = getattr(type(c), '__contains__', None)
    if isinstance(m, FuncT):
        r = m(c, x)
        return r if isinstance(r, SymBool) else bool(r)
    if isinstance(c, enum.EnumMeta) and isinstance(x, SymInt):
        return in_set(x, list(c._value2member_map_))
    if isinstance(x, (SymInt, SymStr)) and hasattr(c, '__iter__') and not isinstance(m, FuncT) and m is not None:
        return in_(x, list(c))
    return x in c


def getitem(o, k):
    if isinstance(o, SymSeq):
        return o.getitem(k)
    if isinstance(o, enum.EnumMeta) and isinstance(k, SymStr):
        return getitem(dict(o.__members__), k)
    if isinstance(o, types.MappingProxyType) and keysym(k):
        o = dict(o)
    if isinstance(o, dict):
        if keysym(k) or anysymkeys(o):
            kk = dfind(o, k)
            if kk is MISSING:
                mm = getattr(type(o), '__missing__', None)
                if mm is not None:
                    if isinstance(o, collections.defaultdict):
                        v = o.default_factory()
                        setitem(v, o, k)
                        return v
                    return mm(o, k)
                raise KeyError(k)
            if kk is None:
                return dget(o, k, kk)
            return o[kk]
        return o[k]
    if isinstance(k, SymBool):
        k = k.as_int()
    if isinstance(k, SymInt):
        if isinstance(o, (list, tuple, str, bytes, bytearray, range)):
            n = len(o)
            if bool_of(Or(k >= n, k < -n)):
                raise IndexError('index out of range')
            lo, hi = k.rng()
            if lo is None or lo < 0:
                if bool_of(k < 0):
                    k = k + n
                if isinstance(k, int):
                    return o[k]
            if isinstance(o, str):
                return mkstr([table_get(tuple(map(ord, o)), k)])
            if isinstance(o, (bytes, bytearray)):
                return table_get(tuple(o), k)
            if isinstance(o, (list, tuple)) and n and all(type(x) is int for x in o):
                return table_get(tuple(o), k)
            if isinstance(o, range):
                return o.start + k * o.step
            if n > 40 and all(isinstance(x, str) for x in o):
                return WordRef.make(o, k)
            return o[K.C.force(k, limit=400, why='list index')]
    if isinstance(k, real_slice) and isinstance(o, (list, tuple, str, bytes, bytearray, range)):
        if isinstance(k.start, (SymInt, SymBool)) or isinstance(k.stop, (SymInt, SymBool)) or isinstance(k.step, (SymInt, SymBool)):
            if isinstance(o, (bytes, bytearray)):
                return SymBytes([list(o)], isinstance(o, bytearray)).getitem(k)
            return o[fslice(k, len(o))]
    return o[k]


def fslice(k, n):
    def f(x):
        if not isinstance(x, (SymInt, SymBool)):
            return x
        x = K.tosym(x)
        if bool_of(x > n):
            return n
        if bool_of(x < -n):
            return -n
        return K.C.force(x, limit=400, why='slice bound')
    return real_slice(f(k.start), f(k.stop), f(k.step))


class WordRef(SymStr):
    """An element of a list of words chosen by a symbolic index (kept opaque)."""
    __slots__ = ('lst', 'idx')

    @staticmethod
    def make(lst, idx):
        w = WordRef(None)
        w.lst = lst
        w.idx = idx
        return w

    def units(self):
        if self.u is None:
            tabs = uniform(self.lst)
            if tabs is not None and isinstance(self.idx, SymInt):
                self.u = [table_get(t, self.idx) for t in tabs]
            else:
                i = K.C.force(self.idx, limit=64, why='word')
                self.u = [ord(c) for c in self.lst[i]]
        return self.u

    def resolved(self):
        return self.u is not None

    def __iter__(self):
        return iter([chr(c) for c in self.units()])

    def __eq__(self, o):
        if isinstance(o, WordRef) and o.lst is self.lst and wl_distinct(self.lst):
            return self.idx == o.idx
        if isinstance(o, str):
            return in_set(self.idx, [i for i, w in enumerate(self.lst) if w == o])
        return SymStr.__eq__(self, o)

    def __ne__(self, o):
        return Not(self.__eq__(o))

    __hash__ = SymSeq.__hash__

    def contains(self, x):
        if isinstance(x, str):
            return in_set(self.idx, [i for i, w in enumerate(self.lst) if x in w])
        return SymStr.contains(self, x)

    def _mapall(self, f, tag=None):
        k = (id(self.lst), tag)
        if tag and k in _maps:
            new = _maps[k][1]
            return self if new is None else WordRef.make(new, self.idx)
        new = [f(w) for w in self.lst]
        same = new == list(self.lst)
        if not same:
            # a list already in use, if it is the same (words put in upper case and back)
            for lst, _ in list(_maps.values()):
                if len(lst) == len(new) and list(lst) == new:
                    new = lst
                    break
        if tag:
            _maps[k] = (self.lst, None if same else new)
        if same:
            return self
        return WordRef.make(new, self.idx)

    def lower(self):
        return self._mapall(str.lower, 'lower')

    def upper(self):
        return self._mapall(str.upper, 'upper')

    def strip(self, *a):
        return self._mapall(lambda w: w.strip(*a))

    def split(self, sep=None, maxsplit=-1):
        if sep is None and all(len(w.split()) == 1 and w == w.strip() for w in self.lst):
            return [self]
        return SymStr.split(self, sep, maxsplit)

    def key(self):
        return ('wr', id(self.lst), self.idx.key())


_wl = {}
_maps = {}
_uni = {}


def uniform(lst):
    """per-position character tables of a list of words of one length"""
    k = id(lst)
    if k not in _uni:
        n = len(lst[0]) if lst else 0
        ok = all(len(w) == n for w in lst)
        _uni[k] = ([tuple(ord(w[i]) for w in lst) for i in range(n)] if ok else None, lst)
    return _uni[k][0]


def wl_distinct(lst):
    k = id(lst)
    if k not in _wl:
        _wl[k] = (len(set(lst)) == len(lst), lst)
    return _wl[k][0]


class WordSeq(SymStr):
    """Text made of words from lists joined by a separator; split again by words."""
    __slots__ = ('items', 'sep')

    @staticmethod
    def make(items, sep):
        w = WordSeq(None)
        w.items = items
        w.sep = sep
        return w

    def units(self):
        if self.u is None:
            out = []
            for i, it in enumerate(self.items):
                if i:
                    out.extend(map(ord, self.sep))
                out.extend(self.coerce(it))
            self.u = out
        return self.u

    def clean(self):
        """no item contains whitespace or is empty"""
        for it in self.items:
            lst = it.lst if isinstance(it, WordRef) else [it]
            if any((not isinstance(w, str)) or not w or len(w.split()) != 1 for w in lst):
                return False
        return True

    def split(self, sep=None, maxsplit=-1):
        if maxsplit == -1 and sep is None and self.sep and not self.sep.strip():
            items = [it for it in self.items if it != '' or isinstance(it, WordRef)]
            if len(items) < len(self.items):
                return WordSeq.make(items, self.sep).split()
        if maxsplit == -1 and self.clean():
            if (sep is None and self.sep and not self.sep.strip()) or (sep == self.sep and sep and not sep.strip()):
                return list(self.items)
        return SymStr.split(self, sep, maxsplit)

    def lower(self):
        return WordSeq.make([call(it.lower) for it in self.items], self.sep.lower())

    def upper(self):
        return WordSeq.make([call(it.upper) for it in self.items], self.sep.upper())

    def strip(self, chars=None):
        if chars is None and self.clean():
            return self
        return SymStr.strip(self, chars)

    def __eq__(self, o):
        if isinstance(o, WordSeq) and o.sep == self.sep and len(o.items) == len(self.items) and self.clean() and o.clean():
            return And(*[eq(x, y) for x, y in zip(self.items, o.items)])
        return SymStr.__eq__(self, o)

    def __ne__(self, o):
        return Not(self.__eq__(o))
    __hash__ = SymSeq.__hash__

    def _norm(self, form):
        items = []
        for it in self.items:
            if isinstance(it, WordRef):
                items.append(it._mapall(lambda w: unicodedata.normalize(form, w), form))
            else:
                items.append(call(unicodedata.normalize, form, it))
        return WordSeq.make(items, unicodedata.normalize(form, self.sep))

    def key(self):
        return tuple(it.key() if isinstance(it, SymStr) else it for it in self.items) + (self.sep,)


def setitem(v, o, k):
    if isinstance(o, SymSeq):
        o.setitem(k, v)
        return
    if isinstance(o, dict):
        ks = keysym(k)
        if ks or anysymkeys(o):
            kk = dfind_exact(o, k)
            if kk is MISSING:
                if ks:
                    mark(o)
                o[k] = v
            else:
                o[kk] = v
            return
    elif isinstance(o, (list, collections.deque)):
        if isinstance(k, SymInt):
            n = len(o)
            if bool_of(Or(k >= n, k < -n)):
                raise IndexError('list assignment index out of range')
            k = K.C.force(k, limit=400, why='list index')
        elif isinstance(k, real_slice):
            k = fslice(k, len(o))
    elif isinstance(o, array.array):
        v = concretise(v)
    elif isinstance(o, bytearray) and (deep_sym(v) or deep_sym(k)):
        raise Unsupported('native bytearray assignment')
    o[k] = v


def dfind_exact(o, k):
    r = dfind(o, k)
    if r is None:
        return K.C.force(k, why='dict key') if isinstance(k, SymInt) else concretise(k)
    return r


def delitem(o, k):
    if isinstance(o, SymSeq):
        o.delitem(k)
        return
    if isinstance(o, dict) and (keysym(k) or anysymkeys(o)):
        kk = dfind_exact(o, k)
        if kk is MISSING:
            raise KeyError(k)
        del o[kk]
        return
    if isinstance(k, SymInt):
        k = K.C.force(k, why='index')
    elif isinstance(k, real_slice):
        k = fslice(k, len(o))
    del o[k]


AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'FloorDiv': operator.ifloordiv,
       'Mod': operator.imod, 'BitXor': operator.ixor, 'BitAnd': operator.iand, 'BitOr': operator.ior,
       'LShift': operator.ilshift, 'RShift': operator.irshift, 'Pow': operator.ipow, 'Div': operator.itruediv}


def augitem(o, k, op, v):
    old = getitem(o, k)
    setitem(AUG[op](old, v), o, k)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        setitem(v, d, k)
    return d


def mkset(items):
    s = set()
    for x in items:
        if type(s) is set and keysym(x):
            s = SymSet(s)
            mark(s)
        set_add(s, x)
    return s


def set_add(s, x):
    if keysym(x) or anysymkeys(s):
        if dfind(s, x) is MISSING:
            mark(s)
            s.add(x)
    else:
        s.add(x)


# ------------------------------------------------------------------------------------------------ builtins
def model(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return deco


def mtype(t):
    def deco(g):
        TYPES[t] = g
        return g
    return deco


def meth(t, *names):
    def deco(g):
        for n in names:
            METHS[(t, n)] = g
        return g
    return deco


def dunder(x, name):
    m = getattr(type(x), name, None)
    return m if isinstance(m, FuncT) else None


@model(len)
def m_len(x):
    if isinstance(x, SymSeq):
        return x.length()
    m = dunder(x, '__len__')
    if m is not None:
        r = m(x)
        if isinstance(r, SymInt):
            if bool_of(r < 0):
                raise ValueError('__len__() should return >= 0')
            if bool_of(r > 9223372036854775807):
                raise OverflowError("cannot fit 'int' into an index-sized integer")
            return r
    return len(x)


def pytype(x):
    if isinstance(x, SymInt):
        return x.cls
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymBytes):
        return x.kind
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymRange):
        return range
    p = getattr(type(x), '_pytype', None)
    if p is not None:
        return p
    return type(x)


@model(isinstance)
def m_isinstance(x, t):
    if isinstance(x, (SymInt, SymBool, SymSeq, SymRange)) or getattr(type(x), '_pytype', None) is not None:
        return issubclass(pytype(x), t)
    return isinstance(x, t)


@mtype(type)
def m_type(*a, **k):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a, **k)


@mtype(int)
def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymInt):
        if base is not None:
            raise TypeError("int() can't convert non-string with explicit base")
        return SymInt(dict(x.p), x.bits) if x.cls is not int else x
    if isinstance(x, SymStr):
        return fmt.parse_int(x, 10 if base is None else base)
    if isinstance(x, SymBytes):
        return fmt.parse_int(SymStr(list(x.units())), 10 if base is None else base)
    m = dunder(x, '__int__') or dunder(x, '__index__')
    if m is not None and not isinstance(x, (int, str, bytes)):
        r = m(x)
        if isinstance(r, SymInt):
            return r
    return int(*a, **k)


@mtype(bool)
def m_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


@mtype(float)
def m_float(*a):
    return native(float, a, {})


@mtype(str)
def m_str(*a, **k):
    if not a:
        return ''
    x = a[0]
    if isinstance(x, SymStr) and len(a) == 1:
        return x
    if isinstance(x, SymBytes):
        if len(a) > 1 or k:
            return x.decode(*a[1:], **k)
        return fmt.fmt_value(x, 114, '')
    if isinstance(x, (SymInt, SymBool)):
        return fmt.wrap(fmt.fmt_value(x, 115, ''))
    m = dunder(x, '__str__')
    if m is not None and len(a) == 1:
        return m(x)
    if isinstance(x, BaseException) and len(a) == 1 and deep_sym(x.args):
        return x.args[0] if len(x.args) == 1 else '<exception>'
    return str(*a, **k)


@model(repr)
def m_repr(x):
    if sym(x):
        return fmt.wrap(fmt.fmt_value(x, 114, ''))
    m = dunder(x, '__repr__')
    if m is not None:
        return m(x)
    return repr(x)


@model(format)
def m_format(x, spec=''):
    return fmt.wrap(fmt.fmt_value(x, -1, spec))


@mtype(bytes)
def m_bytes(*a, **k):
    return _mkb(a, k, False)


@mtype(bytearray)
def m_bytearray(*a, **k):
    if K.C is None:
        return bytearray(*a, **k)
    return _mkb(a, k, True)


@mtype(memoryview)
def m_memoryview(x):
    if isinstance(x, SymBytes):
        if x.mutable:
            raise Unsupported('memoryview of mutable')
        return SymBytes(x._copysegs(), False, memoryview)
    return memoryview(x)


def _mkb(a, k, mutable):
    def fin(segs):
        if mutable:
            return SymBytes(B.merge(segs), True)
        return mkbytes(segs)
    if not a:
        return fin([])
    x = a[0]
    if isinstance(x, SymBytes):
        return fin(x._copysegs())
    if isinstance(x, SymStr):
        if len(a) == 1 and not k:
            raise TypeError('string argument without an encoding')
        return fin(B.tosegs(x.encode(*a[1:], **k)))
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, SymInt):
        if bool_of(x < 0):
            raise ValueError('negative count')
        n = K.C.force(x, why='byte count')
        return fin([[0] * n])
    m = dunder(x, '__bytes__')
    if m is not None:
        return m(x)
    if isinstance(x, (int, str, bytes, bytearray, memoryview, float, type(None))):
        r = (bytearray if mutable else bytes)(*a, **k)
        return fin([list(r)]) if mutable else r
    if hasattr(type(x), '__iter__') or hasattr(type(x), '__getitem__'):
        return fin([[B.checkbyte(v) for v in x]])
    return (bytearray if mutable else bytes)(*a, **k)


@model(chr)
def m_chr(x):
    if isinstance(x, SymInt):
        if bool_of(Or(x < 0, x > 0x10ffff)):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr([x])
    return chr(x)


@model(ord)
def m_ord(x):
    if isinstance(x, SymSeq):
        u = x.units()
        if len(u) != 1:
            raise TypeError('ord() expected a character')
        return u[0]
    return ord(x)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        while bool_of(i < self.stop if self.step > 0 else i > self.stop):
            yield i
            i = i + self.step

    def _n(self):
        n = (self.stop - self.start + (self.step - 1)) // self.step if self.step > 0 else \
            (self.start - self.stop - self.step - 1) // -self.step
        return ite(n > 0, n, 0) if isinstance(n, SymInt) else max(n, 0)

    def __len__(self):
        return K.C.force(self._n(), why='range length')

    def __reversed__(self):
        n = len(self)
        return iter([self.start + i * self.step for i in range(n)][::-1])

    def __getitem__(self, i):
        n = len(self)
        return [self.start + j * self.step for j in range(n)][i]

    def contains(self, x):
        if self.step != 1:
            raise Unsupported('range step')
        return And(x >= self.start, x < self.stop)


@mtype(range)
def m_range(*a):
    if not any(isinstance(x, (SymInt, SymBool)) for x in a):
        return range(*a)
    for x in a:
        if not isinstance(x, (int, SymInt, SymBool)):
            raise TypeError('range() integer required')
    a = [x.as_int() if isinstance(x, SymBool) else x for x in a]
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    step = a[2] if len(a) == 3 else 1
    step = K.C.force(step, why='range step') if isinstance(step, SymInt) else step
    if step == 0:
        raise ValueError('range() arg 3 must not be zero')
    return SymRange(a[0], a[1], step)


@mtype(reversed)
def m_reversed(x):
    if isinstance(x, SymSeq):
        return x.__reversed__()
    return reversed(x)


@mtype(map)
def m_map(f, *its):
    if len(its) == 1:
        return (call(f, x) for x in its[0])
    return (call(f, *xs) for xs in zip(*its))


@mtype(filter)
def m_filter(f, it):
    return (x for x in it if (call(f, x) if f is not None else x))


@mtype(list)
def m_list(*a):
    return list(*a)


@mtype(tuple)
def m_tuple(*a):
    return tuple(*a)


@mtype(dict)
def m_dict(*a, **k):
    if a and (isinstance(a[0], dict) and not anysymkeys(a[0]) or not a[0]):
        return dict(*a, **k)
    if a:
        src = a[0].items() if isinstance(a[0], dict) else a[0]
        d = mkdict(src)
        d.update(k)
        return d
    return dict(**k)


@mtype(set)
def m_set(*a):
    return mkset(a[0]) if a else set()


@mtype(frozenset)
def m_frozenset(*a):
    if a:
        items = list(a[0])
        if deep_sym(items):
            s = frozenset(mkset(items))
            mark(s)
            return s
        return frozenset(items)
    return frozenset()


@model(sorted)
def m_sorted(it, *, key=None, reverse=False):
    xs = list(it)
    if key is None and any(isinstance(x, SymInt) for x in xs) and all(isinstance(x, (int, SymInt)) for x in xs):
        r = sort_ints(xs)
        return r[::-1] if reverse else r
    return sorted(xs, key=key, reverse=reverse)


def sort_ints(xs):
    n = len(xs)
    if n == 1:
        return xs
    if n == 2:
        return [m_min(xs), m_max(xs)]
    key = ('sort', tuple(sorted(map(repr, map(B.ikey, xs)))))
    r = K.C.divmemo.get(key)
    if r is not None:
        return list(r)
    los = [x if isinstance(x, int) else x.rng()[0] for x in xs]
    his = [x if isinstance(x, int) else x.rng()[1] for x in xs]
    out = []
    lo = None if None in los else min(los)
    hi = None if None in his else max(his)
    zs = [z3.IntVal(x) if isinstance(x, int) else x.z3() for x in xs]
    ys = []
    for i in range(n):
        def evalf(m, i=i):
            return sorted(x if isinstance(x, int) else K.C.pv(x.p, m) for x in xs)[i]
        y = K.C.fresh(lo, hi, evalf=evalf)
        ys.append(y)
        if isinstance(y, SymInt):
            ye = y.z3()
            le = z3.Sum([z3.If(z <= ye, 1, 0) for z in zs])
            lt = z3.Sum([z3.If(z < ye, 1, 0) for z in zs])
            mem = z3.Or([z == ye for z in zs])
            K.C.define(SymBool('raw', z3.And(le >= i + 1, lt <= i, mem), lambda: True))
    K.C.divmemo[key] = ys
    return list(ys)


@meth(list, 'sort')
def l_sort(self, *, key=None, reverse=False):
    if key is None and any(isinstance(x, SymInt) for x in self) and all(isinstance(x, (int, SymInt)) for x in self):
        r = sort_ints(list(self))
        self[:] = r[::-1] if reverse else r
        return
    list.sort(self, key=key, reverse=reverse)


def _minmax(a, k, lt):
    f = min if lt else max
    if k:
        return f(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, SymInt) for x in xs) or not all(isinstance(x, (int, SymInt)) for x in xs):
        return f(xs) if xs else f(*a)
    r = xs[0]
    for x in xs[1:]:
        c = (x < r) if lt else (x > r)
        r = ite(c, x, r)
    return r


@model(min)
def m_min(*a, **k):
    return _minmax(a, k, True)


@model(max)
def m_max(*a, **k):
    return _minmax(a, k, False)


@model(sum)
def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


@model(any)
def m_any(it):
    for x in it:
        if x:
            return True
    return False


@model(all)
def m_all(it):
    for x in it:
        if not x:
            return False
    return True


@model(divmod)
def m_divmod(a, b):
    if isinstance(a, SymBool):
        a = a.as_int()
    return divmod(a, b)


@model(pow)
def m_pow(a, b, c=None):
    if c is not None and deep_sym((a, b, c)):
        raise Unsupported('modular power')
    return pow(a, b) if c is None else pow(a, b, c)


@model(abs)
def m_abs(x):
    return abs(x)


@model(hash)
def m_hash(x):
    if isinstance(x, (SymInt, SymBool)):
        return hash_oracle('int', x.as_int() if isinstance(x, SymBool) else x)
    if isinstance(x, SymBytes):
        return hash_oracle('bytes', x)
    if isinstance(x, SymStr):
        return hash_oracle('str', x)
    if isinstance(x, tuple) and (deep_sym(x) or any(dunder(y, '__hash__') is not None for y in x)):
        return hash_tuple(x)
    m = dunder(x, '__hash__')
    if m is not None:
        return getattr(type(x).__hash__, '_sx_orig', m)(x)
    h = hash(x)
    if K.C is not None and type(x) in (bytes, str, int):
        kind = type(x).__name__
        log = K.C.state.setdefault('hashes', [])
        for k2, y, h2 in log:
            if k2 == kind and deep_sym(y):
                c = eq(x, y)
                if isinstance(c, SymBool):
                    c = c.simp()
                if c is not False:
                    r = Or(Not(c), h == h2)
                    if isinstance(r, SymBool):
                        K.C.assume_raw(r)
        log.append((kind, x, h))
    return h


def hash_tuple(x):
    r = 0x345678
    for y in x:
        r = (r * 1000003 + m_hash(y)) % (1 << 61)
    return r


def hash_oracle(kind, x):
    y = settled(x)
    if y is not x:
        return m_hash(y)
    log = K.C.state.setdefault('hashes', [])
    for k2, y, h in log:
        if k2 == kind:
            c = eq(x, y)
            if isinstance(c, SymBool):
                c = c.simp()
            if c is True:
                return h
    h = K.C.fresh(-2 ** 61, 2 ** 61)
    for k2, y, h2 in log:
        if k2 == kind:
            c = eq(x, y)
            if isinstance(c, SymBool):
                K.C.assume_raw(Or(c.neg(), h == h2))
    log.append((kind, x, h))
    return h


@model(bin)
def m_bin(x):
    if isinstance(x, SymInt):
        return fmt.wrap(fmt.fmt_value(x, -1, '#b'))
    return bin(x)


@model(hex)
def m_hex(x):
    if isinstance(x, SymInt):
        return fmt.wrap(fmt.fmt_value(x, -1, '#x'))
    return hex(x)


@model(print)
def m_print(*a, **k):
    return None


@model(getattr)
def m_getattr(o, n, *d):
    if isinstance(n, SymStr):
        n = concretise(n)
    return getattr(o, n, *d)


@model(math.ceil)
def m_ceil(x):
    if isinstance(x, SymInt):
        return x
    return math.ceil(x)


FUNCS[math.floor] = m_ceil


@model(math.log, math.log2, math.sqrt)
def m_log(*a):
    return native(math.log, a, {})


# ------------------------------------------------------------------------------------------------ methods
@meth(str, 'join')
def s_join(self, items):
    items = list(items)
    if any(isinstance(x, (WordRef, WordSeq)) for x in items) and isinstance(self, str):
        if len(items) == 1:
            return items[0]
        return WordSeq.make(items, self)
    if deep_sym(items):
        return SymStr([ord(c) for c in self]).join(items)
    return self.join(items)


@meth(bytes, 'join')
def b_join(self, items):
    items = list(items)
    if deep_sym(items):
        out = []
        for i, x in enumerate(items):
            s = B.tosegs(x)
            if s is None:
                raise TypeError('sequence item %d: expected a bytes-like object' % i)
            if i and self:
                out.append(list(self))
            out.extend(s)
        return mkbytes(out)
    return self.join(items)


METHS[(bytearray, 'join')] = b_join


def _liftstr(self):
    return SymStr([ord(c) for c in self])


def _liftbytes(self):
    return SymBytes([list(self)], isinstance(self, bytearray))


def _lift(t, lift, names):
    for n in names:
        def f(self, *a, _n=n, **k):
            if deep_sym(a):
                if _n in ('find', 'index', 'rfind', 'rindex') and len(self) > 3 and len(a) == 1 and distinct(self):
                    r = table_find(self, a[0], _n)
                    if r is not None:
                        return r
                if isinstance(self, bytearray) and _n in ('append', 'extend', 'insert'):
                    raise Unsupported('native bytearray mutation')
                return getattr(lift(self), _n)(*a, **k)
            return getattr(self, _n)(*a, **k)
        METHS[(t, n)] = f


def distinct(s):
    return len(set(s)) == len(s)


def table_find(self, sub, name):
    """index of a symbolic single unit in a concrete string of distinct units"""
    if isinstance(sub, SymInt):
        x = sub
    else:
        u = sub.units()
        if len(u) != 1:
            return None
        x = u[0]
        if isinstance(x, int):
            return None
    vals = [ord(c) for c in self] if isinstance(self, str) else list(self)
    if name in ('find', 'rfind'):
        items = {v: i for i, v in enumerate(vals)}
        if x.prov is not None:
            t, base = x.prov
            return table_get(tuple(items.get(v, -1) for v in t.seq), base)
    c = in_set(x, vals)
    if not bool_of(c):
        if name in ('index', 'rindex'):
            raise ValueError('substring not found')
        return -1
    return lookup_ints(x, {v: i for i, v in enumerate(vals)})


_names = ('find', 'rfind', 'index', 'rindex', 'count', 'startswith', 'endswith', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip',
          'partition', 'rpartition', 'replace', 'removeprefix', 'removesuffix', 'rjust', 'ljust', 'zfill', 'translate')
_lift(str, _liftstr, _names)
_lift(bytes, _liftbytes, _names)
_lift(bytearray, _liftbytes, _names + ('append', 'extend', 'insert'))


@meth(str, 'format')
def s_format(self, *a, **k):
    return fmt.str_format(self, a, k)


@meth(int, 'from_bytes')
def i_from_bytes(cls, b, byteorder='big', *, signed=False):
    if isinstance(b, SymBytes):
        if byteorder not in ('big', 'little'):
            raise ValueError("byteorder must be either 'little' or 'big'")
        return B.bytes_to_int(b, byteorder, signed)
    if not isinstance(b, (bytes, bytearray, memoryview)) and hasattr(b, '__iter__') and not isinstance(b, str):
        l = [B.checkbyte(x) for x in b]
        if deep_sym(l):
            return B.bytes_to_int(mkbytes([l]), byteorder, signed)
        return int.from_bytes(bytes(l), byteorder, signed=signed)
    return cls.from_bytes(b, byteorder, signed=signed)


@meth(int, 'to_bytes')
def i_to_bytes(self, length=1, byteorder='big', *, signed=False):
    if isinstance(length, SymInt):
        length = K.C.force(length, why='length')
    return self.to_bytes(length, byteorder, signed=signed)


@meth(bytes, 'fromhex')
def b_fromhex(cls, s):
    if isinstance(s, (WordRef, WordSeq)) and (isinstance(s, WordRef) or s.sep.isspace()):
        # pairs of digits must not be split by the separators
        for it in ([s] if isinstance(s, WordRef) else s.items):
            if isinstance(it, WordRef):
                good = [i for i, w in enumerate(it.lst) if not w.split() or all(len(x) % 2 == 0 and all(c in '0123456789abcdefABCDEF' for c in x) for x in w.split())]
                if not bool_of(in_set(it.idx, good)):
                    raise ValueError('non-hexadecimal number found in fromhex() arg')
    if isinstance(s, SymStr):
        r = fmt.fromhex(s)
        return SymBytes(B.tosegs(r), True) if issubclass(cls, bytearray) else r
    if issubclass(cls, bytearray) and K.C is not None:
        return SymBytes([list(bytes.fromhex(s))], True)
    return cls.fromhex(s)


METHS[(bytearray, 'fromhex')] = b_fromhex


@model(binascii.hexlify)
def m_hexlify(b, *a):
    if isinstance(b, SymBytes):
        return b.hex().encode()
    return binascii.hexlify(b, *a)


@model(binascii.unhexlify)
def m_unhexlify(s):
    if isinstance(s, SymSeq):
        u = s.units()
        if len(u) % 2:
            raise binascii.Error('Odd-length string')
        return mkbytes([[fmt.hexval(u[i], binascii.Error) * 16 + fmt.hexval(u[i + 1], binascii.Error)
                         for i in range(0, len(u), 2)]])
    return binascii.unhexlify(s)


@meth(dict, 'get')
def d_get(self, k, d=None):
    if keysym(k) or anysymkeys(self):
        kk = dfind(self, k)
        if kk is MISSING:
            return d
        return dget(self, k, kk) if kk is None else self[kk]
    return self.get(k, d)


METHS[(types.MappingProxyType, 'get')] = lambda self, k, d=None: d_get(dict(self), k, d)


@meth(dict, 'setdefault')
def d_setdefault(self, k, d=None):
    if keysym(k) or anysymkeys(self):
        kk = dfind_exact(self, k)
        if kk is MISSING:
            setitem(d, self, k)
            return d
        return self[kk]
    return self.setdefault(k, d)


@meth(dict, 'pop')
def d_pop(self, k, *d):
    if keysym(k) or anysymkeys(self):
        kk = dfind_exact(self, k)
        if kk is MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        return self.pop(kk)
    return self.pop(k, *d)


@meth(dict, 'update')
def d_update(self, *a, **k):
    if a:
        for kk, v in (a[0].items() if hasattr(a[0], 'items') else a[0]):
            setitem(v, self, kk)
    self.update(k)


@meth(dict, 'copy')
def d_copy(self):
    r = self.copy()
    if anysymkeys(self):
        mark(r)
    return r


@meth(collections.OrderedDict, 'move_to_end')
def d_move(self, k, last=True):
    if keysym(k) or anysymkeys(self):
        k = dfind_exact(self, k)
    return self.move_to_end(k, last)


def _set_method(name, f):
    def g(self, *others):
        if keysym(self) or anysymkeys(self) or any([deep_sym(o) or anysymkeys(o) or any([keysym(x) for x in o]) for o in others if not hasattr(o, '__next__')]):
            r = mkset(self)
            for o in others:
                r = f(r if isinstance(r, SymSet) else SymSet(r), mkset(o))
            return r
        return getattr(set, name)(set(self), *others)
    METHS[(set, name)] = METHS[(frozenset, name)] = g


for _n, _f in (('union', lambda a, b: a | b), ('intersection', lambda a, b: a & b), ('difference', lambda a, b: a - b), ('symmetric_difference', lambda a, b: a ^ b),
               ('issubset', lambda a, b: a <= b), ('issuperset', lambda a, b: a >= b), ('isdisjoint', lambda a, b: not (a & b))):
    _set_method(_n, _f)


@meth(set, 'add')
def s_add(self, x):
    set_add(self, x)


@meth(set, 'discard', 'remove')
def s_discard(self, x):
    if keysym(x) or anysymkeys(self):
        x = dfind_exact(self, x)
        if x is MISSING:
            return
    self.discard(x)


@meth(set, 'update')
def s_update(self, *its):
    for it in its:
        for x in it:
            set_add(self, x)


@meth(list, 'index')
def l_index(self, x, *a):
    if deep_sym(x) and not a:
        if isinstance(x, WordRef) and x.lst is self and wl_distinct(self):
            return x.idx
        if isinstance(x, WordRef):
            pos = {w: i for i, w in reversed(list(enumerate(self)))}
            c = in_set(x.idx, [i for i, w in enumerate(x.lst) if w in pos])
            if not bool_of(c):
                raise ValueError('not in list')
            return table_get(tuple(pos.get(w, 0) for w in x.lst), x.idx)
        for i, y in enumerate(self):
            if bool_of(eq(y, x)):
                return i
        raise ValueError('not in list')
    return self.index(x, *a)


METHS[(tuple, 'index')] = l_index


@meth(list, 'count')
def l_count(self, x):
    if deep_sym(x) or deep_sym(self):
        t = 0
        for y in self:
            c = eq(y, x)
            t = t + (c.as_int() if isinstance(c, SymBool) else int(c))
        return t
    return self.count(x)


METHS[(tuple, 'count')] = l_count


@meth(list, 'extend')
def l_extend(self, it):
    for x in it:
        self.append(x)


# dict lookups of a word in a word -> index dict
def wordref_lookup(d, w):
    c = in_set(w.idx, [i for i, x in enumerate(w.lst) if x in d])
    return c


_old_dfind = dfind


def dfind(d, k):          # noqa: F811
    if isinstance(k, WordRef) and not anysymkeys(d):
        if not bool_of(wordref_lookup(d, k)):
            return MISSING
        return None
    return _old_dfind(d, k)


_old_dget = dget


def dget(d, k, kk):       # noqa: F811
    if isinstance(k, WordRef):
        vals = [d.get(x, 0) for x in k.lst]
        if all(type(v) is int for v in vals):
            return table_get(tuple(vals), k.idx)
        return d[k.lst[K.C.force(k.idx, limit=3000, why='word')]]
    return _old_dget(d, k, kk)


_old_in = in_


def in_(x, c):            # noqa: F811
    if isinstance(x, WordRef) and isinstance(c, (list, tuple, set, frozenset, dict)) and not deep_sym(c):
        return wordref_lookup(set(c) if not isinstance(c, dict) else c, x)
    return _old_in(x, c)


# ------------------------------------------------------------------------------------------------ struct
CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
         'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


@functools.lru_cache(None)
def parse_fmt(f):
    if isinstance(f, bytes):
        f = f.decode()
    order = 'little'
    if f and f[0] in '<>!=@':
        if f[0] in '>!':
            order = 'big'
        if f[0] == '@':
            return None
        std = True
        body = f[1:]
    else:
        std = False
        body = f
    out = []
    for m in re.finditer(r'\s*(\d*)([a-zA-Z?])', body):
        n, c = m.group(1), m.group(2)
        if c == 's':
            out.append(('s', int(n or 1)))
        elif c == 'x':
            out.extend([('x', 1)] * int(n or 1))
        elif c in CODES:
            if not std and c not in 'bB' and len(body.strip()) > 1:
                return None
            if not std and c in 'lL':
                return None
            out.extend([(c, CODES[c][0])] * int(n or 1))
        else:
            return None
    return order, out


def st_pack(fmt_, vals):
    p = parse_fmt(fmt_)
    if p is None or not deep_sym(vals):
        return native(struct.pack, (fmt_,) + tuple(vals), {})
    order, items = p
    need = sum(1 for c, n in items if c != 'x')
    if need != len(vals):
        raise struct.error('pack expected %d items for packing (got %d)' % (need, len(vals)))
    out = []
    it = iter(vals)
    for c, n in items:
        if c == 'x':
            out.append([0])
            continue
        v = next(it)
        if c == 's':
            if not isinstance(v, (bytes, bytearray, SymBytes)):
                raise struct.error("argument for 's' must be a bytes object")
            u = list(v.units()) if isinstance(v, SymBytes) else list(v)
            if isinstance(v, SymBytes) and len(u) == n:
                out.extend(v._copysegs())
            else:
                out.append((u + [0] * n)[:n])
            continue
        if isinstance(v, SymBool):
            v = v.as_int()
        if not isinstance(v, (int, SymInt)):
            if not hasattr(type(v), '__index__'):
                raise struct.error('required argument is not an integer')
            v = v.__index__()
        size, signed = CODES[c]
        lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
        if bool_of(Or(v < lo, v > hi)):
            raise struct.error('format requires %d <= number <= %d' % (lo, hi))
        b = B.int_to_bytes(v, size, order, signed)
        out.extend(B.tosegs(b))
    return mkbytes(out)


def st_size(f):
    return struct.calcsize(f)


def st_unpack(f, buf):
    if not isinstance(buf, SymBytes):
        return struct.unpack(f, buf)
    p = parse_fmt(f)
    size = struct.calcsize(f)
    n = buf.length()
    if not bool_of(n == size):
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    if p is None:
        return struct.unpack(f, concretise(buf, 'unpack'))
    order, items = p
    out = []
    pos = 0
    for c, k in items:
        if c == 'x':
            pos += 1
            continue
        part = buf.slice(pos, pos + k) if (pos, k) != (0, size) else buf
        if isinstance(part, SymBytes) and part.mutable:
            part = part.frozen()
        pos += k
        if c == 's':
            out.append(part)
        else:
            sgn = CODES[c][1]
            out.append(B.bytes_to_int(part, order, sgn) if isinstance(part, SymBytes) else int.from_bytes(part, order, signed=sgn))
    return tuple(out)


def st_unpack_from(f, buf, offset=0):
    if isinstance(offset, SymInt) and not isinstance(buf, SymBytes):
        offset = K.C.force(offset, why='offset')
    if not isinstance(buf, SymBytes):
        return struct.unpack_from(f, buf, offset)
    size = struct.calcsize(f)
    n = buf.length()
    if bool_of(offset < 0):
        if bool_of(offset + n < 0):
            raise struct.error('offset out of range')
        offset = offset + n
    if bool_of(n - offset < size):
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % size)
    part = buf.slice(offset, offset + size)
    return st_unpack(f, part)


ST = struct.Struct
METHS[(ST, 'pack')] = lambda self, *v: st_pack(self.format, v)
METHS[(ST, 'unpack')] = lambda self, b: st_unpack(self.format, b)
METHS[(ST, 'unpack_from')] = lambda self, buffer, offset=0: st_unpack_from(self.format, buffer, offset)
FUNCS[struct.pack] = lambda f, *v: st_pack(f, v)
FUNCS[struct.unpack] = st_unpack
FUNCS[struct.unpack_from] = st_unpack_from


def st_pack_into(self, buf, off, *v):
    f = self.format if isinstance(self, ST) else self
    if isinstance(buf, SymBytes):
        d = st_pack(f, v)
        size = struct.calcsize(f)
        n = len(buf)
        off = K.C.force(off) if isinstance(off, SymInt) else off
        if off < 0:
            off += n
        if off < 0 or n - off < size:
            raise struct.error('pack_into requires a buffer of at least %d bytes' % (off + size))
        buf.setitem(real_slice(off, off + size), d)
        return
    m = getattr(type(buf), 'sx_pack_into', None)
    if m:
        return m(buf, off, st_pack(f, v))
    struct.pack_into(f, buf, off, *v)


METHS[(ST, 'pack_into')] = st_pack_into
FUNCS[struct.pack_into] = st_pack_into


# ------------------------------------------------------------------------------------------------ io
class SymBytesIO:
    _pytype = io.BytesIO

    def __init__(self, data=b''):
        self.data = data.frozen() if isinstance(data, SymBytes) else bytes(data)
        self.pos = 0

    def _len(self):
        return m_len(self.data)

    def read(self, n=-1):
        total = self._len()
        if n is None:
            n = -1
        if not isinstance(n, (int, SymInt)):
            raise TypeError('argument should be integer or None')
        if bool_of(Or(n > 9223372036854775807, n < -9223372036854775808)):
            raise OverflowError('Python int too large to convert to C ssize_t')
        if bool_of(n < 0):
            end = total
        else:
            end = self.pos + n
            if bool_of(end > total):
                end = total
        if bool_of(self.pos >= end):
            return b''
        r = getitem(self.data, real_slice(self.pos, end))
        self.pos = end
        return r

    def tell(self):
        return self.pos

    def seek(self, p, w=0):
        if w == 1:
            p = self.pos + p
        elif w == 2:
            p = self._len() + p
        self.pos = p
        return p

    def getvalue(self):
        return self.data

    def getbuffer(self):
        return self.data

    def write(self, b):
        n = self._len()
        if self.pos is not n and not bool_of(self.pos == n):
            u = SymBytes(B.tosegs(self.data), True)
            k = m_len(b)
            self.data = None
            head = u.slice(None, self.pos)
            tail = u.slice(self.pos + k, None)
            self.data = b_join(b'', [x.frozen() if isinstance(x, SymBytes) else x for x in (head, b, tail)])
        else:
            self.data = b_join(b'', [self.data, b])
        self.pos = self.pos + m_len(b)
        return m_len(b)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


@mtype(io.BytesIO)
def m_bytesio(data=b''):
    if K.C is None:
        return io.BytesIO(data)
    if not isinstance(data, (bytes, bytearray, memoryview, SymBytes)):
        raise TypeError('a bytes-like object is required')
    return SymBytesIO(data)


# ------------------------------------------------------------------------------------------------ hashes (oracles)
def oracle(name, args, outlen, realf, order='big'):
    """Uninterpreted function with congruence.  args: tuple of bytes-like/ints.  Returns outlen bytes."""
    C = K.C
    if C is not None:
        args = tuple(settled(a) for a in args)
    if C is None or not deep_sym(args, 1):
        r = realf(*[bytes(a) if isinstance(a, (bytes, bytearray)) else a for a in args])
        if C is not None:
            known = C.state.setdefault('concrete oracles', set())
            k = (name, outlen) + tuple(bytes(a) if isinstance(a, (bytes, bytearray)) else a for a in args)
            if k not in known:
                known.add(k)
                # values of the real function agree with each other
                _consistent(C, name, args, r, outlen, C.state.get('symbolic oracles', ()))
                C.oracles.append((name, args, r, outlen))
        return r
    for (n2, a2, out, ol) in C.oracles:
        if n2 != name or len(a2) != len(args) or ol != outlen:
            continue
        e = args_eq(args, a2, True)
        if e is True:
            return out
    nm = 'or_%s_%d' % (name, len(C.oracles))
    if order == 'bytes':
        out = mkbytes([[C.fresh(0, 255, '%s_%d' % (nm, i)) for i in range(outlen)]])
    else:
        out = mkbytes([Word(C.fresh(0, (1 << 8 * outlen) - 1, nm), outlen, order)])
    _consistent(C, name, args, out, outlen, C.oracles)
    C.oracles.append((name, args, out, outlen))
    C.state.setdefault('symbolic oracles', []).append(C.oracles[-1])
    return out


def settled(x):
    """x as a plain value if the path already determines it"""
    if isinstance(x, SymInt):
        lo, hi = x.rng()
        return lo if lo is not None and lo == hi else x
    if isinstance(x, SymBytes):
        out = []
        for s in x.segs:
            if type(s) is not list:
                return x
            for v in s:
                if isinstance(v, SymInt):
                    lo, hi = v.rng()
                    if lo is None or lo != hi:
                        return x
                    v = lo
                out.append(v)
        return bytes(out)
    return x


def args_eq(a, b, only_struct=False):
    r = []
    for x, y in zip(a, b):
        if isinstance(x, (bytes, bytearray, SymBytes)):
            c = bytes_eq_noforks(x, y, only_struct)
            if c is None:
                return None
        else:
            c = eq(x, y)
        if isinstance(c, SymBool):
            c = c.simp()
        if c is False:
            return False
        r.append(c)
    return And(*r)


def bytes_eq_noforks(x, y, only_struct=False):
    lx = x.fixed_len() if isinstance(x, SymBytes) else len(x)
    ly = y.fixed_len() if isinstance(y, SymBytes) else len(y)
    if lx is not None and ly is not None:
        if lx != ly:
            return False
        return B.sb_eq(x, y)
    # symbolic lengths
    kx = x.key() if isinstance(x, SymBytes) else tuple(x)
    ky = y.key() if isinstance(y, SymBytes) else tuple(y)
    if kx == ky:
        return True
    if only_struct:
        le = m_len(x) == m_len(y)
        if isinstance(le, SymBool):
            le = le.simp()
        if le is False:
            return False
        if le is not True:
            return None
    return B.sb_eq(x, y)


def _consistent(C, name, args, out, outlen, others):
    for (n2, a2, o2, ol) in others:
        if n2 != name or len(a2) != len(args):
            continue
        e = args_eq(args, a2)
        if e is False:
            if C.opts.get('collision_free', False):
                C.lazy.append(SBool(Not(B.sb_eq(out, o2))))
            continue
        oe = B.sb_eq(out, o2)
        if e is True:
            if oe is not True:
                C.lazy.append(SBool(oe))
            continue
        inj = C.opts.get('collision_free', False)
        if e is None:
            continue
        if isinstance(e, SymBool):
            C.lazy.append(SBool(Or(e.neg(), oe)))
            if inj:
                C.lazy.append(SBool(Or(e, Not(oe))))


def SBool(x):
    if isinstance(x, SymBool):
        return x
    return SymBool('and', []) if x else SymBool('or', [])


HASHLEN = {'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64, 'ripemd160': 20, 'md5': 16}


class SymHash:
    _symhash = True

    def __init__(self, name, data=b''):
        self.name = name
        self.data = data
        self.digest_size = HASHLEN[name]
        self.block_size = 128 if name in ('sha512', 'sha384') else 64

    def update(self, d):
        if not isinstance(d, (bytes, bytearray, memoryview, SymBytes)):
            raise TypeError('object supporting the buffer API required')
        self.data = b_join(b'', [self.data, d.frozen() if isinstance(d, SymBytes) else d])

    def digest(self):
        return oracle(self.name, (self.data,), self.digest_size, lambda d, n=self.name: hashlib.new(n, d).digest(),
                      K.C.opts.get('hash_order', 'little') if K.C is not None else 'little')

    def hexdigest(self):
        return call(self.digest().hex)

    def copy(self):
        return SymHash(self.name, self.data)


def _mk_hash(name):
    def f(data=b'', **kw):
        if isinstance(data, (SymStr, str)):
            raise TypeError('Strings must be encoded before hashing')
        if not isinstance(data, (bytes, bytearray, memoryview, SymBytes)):
            raise TypeError('object supporting the buffer API required')
        return SymHash(name, data.frozen() if isinstance(data, SymBytes) else bytes(data))
    return f


for _n in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5'):
    FUNCS[getattr(hashlib, _n)] = _mk_hash(_n)


@model(hashlib.new)
def m_hashnew(name, data=b'', **kw):
    return _mk_hash(name.lower().replace('-', ''))(data)


def hashname(d):
    if isinstance(d, str):
        return d.lower().replace('-', '')
    for n in HASHLEN:
        if getattr(hashlib, n, None) is d:
            return n
    if isinstance(d, FuncT):
        r = d()
        return r.name
    raise Unsupported('digest %r' % (d,))


@model(hmac.digest)
def m_hmac_digest(key, msg, digest):
    n = hashname(digest)
    for x in (key, msg):
        if not isinstance(x, (bytes, bytearray, memoryview, SymBytes)):
            raise TypeError('key/msg: expected bytes or bytearray')
    lim = K.C.opts.get('hmacs')
    if lim:
        K.C.state['hmacs'] = K.C.state.get('hmacs', 0) + 1
        if K.C.state['hmacs'] > lim:
            raise K.PathEnd('more HMAC evaluations than the bound')
    return oracle('hmac_' + n, (bytesarg(key), bytesarg(msg)), HASHLEN[n], lambda k, m, n=n: hmac.digest(k, m, n),
                  K.C.opts.get('hash_order', 'big') if K.C is not None else 'big')


def bytesarg(x):
    if isinstance(x, SymBytes):
        return x.frozen()
    return bytes(x)


class SymHmac:
    def __init__(self, key, msg, name):
        self.key, self.data, self.name = key, msg or b'', name

    def update(self, d):
        self.data = b_join(b'', [self.data, d])

    def digest(self):
        return m_hmac_digest(self.key, self.data, self.name)

    def hexdigest(self):
        return call(self.digest().hex)


@model(hmac.new)
def m_hmac_new(key, msg=None, digestmod=''):
    return SymHmac(key, msg, hashname(digestmod))


TYPES[hmac.HMAC] = m_hmac_new


@model(hashlib.pbkdf2_hmac)
def m_pbkdf2(name, password, salt, iterations, dklen=None):
    n = hashname(name)
    dk = dklen or HASHLEN[n]
    return oracle('pbkdf2_%s_%d_%d' % (n, iterations, dk), (bytesarg(password), bytesarg(salt)), dk,
                  lambda p, s: hashlib.pbkdf2_hmac(n, p, s, iterations, dklen))


@model(hmac.compare_digest)
def m_compare(a, b):
    return eq(a, b)


@model(os.urandom)
def m_urandom(n):
    if K.C is None:
        return os.urandom(n)
    n = K.C.force(n) if isinstance(n, SymInt) else n
    if K.C.state.get('draws', 0) >= K.C.opts.get('draws', 2):
        raise K.PathEnd('more draws of randomness than the bound')
    return K.C.harness.draw('urandom', n)


# ------------------------------------------------------------------------------------------------ dates
class SymDateTime:
    """datetime of a symbolic timestamp: its text is an arbitrary (but fixed) function of the timestamp"""
    def __init__(self, ts, utc):
        self.ts, self.utc = ts, utc

    def isoformat(self, sep='T', timespec='auto'):
        C = K.C
        log = C.state.setdefault('dates', [])
        for ts, utc, sp, r in log:
            if utc == self.utc and sp == (sep, timespec) and bool_of(eq(ts, self.ts)):
                return r
        r = mkstr([C.fresh(32, 126, 'date%d_%d' % (len(log), i)) for i in range(19)])
        log.append((self.ts, self.utc, (sep, timespec), r))
        return r

    def __str__(self):
        return self.isoformat(' ')


import datetime as _datetime        # noqa: E402


def _mkts(utc):
    def f(ts, *a):
        if a:
            raise Unsupported('time zone')
        return SymDateTime(ts, utc)
    return f


_UTC, _LOCAL = _mkts(True), _mkts(False)


@meth(_datetime.datetime, 'utcfromtimestamp')
def m_utc(cls, ts):
    return _UTC(ts) if isinstance(ts, SymInt) else _datetime.datetime.utcfromtimestamp(ts)


@meth(_datetime.datetime, 'fromtimestamp')
def m_local(cls, ts, tz=None):
    if not isinstance(ts, SymInt):
        return _datetime.datetime.fromtimestamp(ts, tz)
    if tz is not None:
        raise Unsupported('time zone')
    return _LOCAL(ts)


# ------------------------------------------------------------------------------------------------ base64
B64 = tuple(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')
B64SET = frozenset(B64)
B64INV = {c: i for i, c in enumerate(B64)}


@model(base64.b64encode, base64.standard_b64encode)
def m_b64encode(s, altchars=None):
    if not isinstance(s, SymBytes):
        return base64.b64encode(s, altchars)
    u = s.units()
    out = []

    def ch(v):
        return B64[v] if isinstance(v, int) else table_get(B64, v)
    for i in range(0, len(u), 3):
        c = u[i:i + 3]
        n = len(c)
        v = 0
        for x in c + [0] * (3 - n):
            v = v * 256 + x
        d = []
        for sh in (18, 12, 6, 0):
            d.append((v >> sh) & 63)
        t = [ch(x) for x in d]
        if n == 1:
            t[2:] = [61, 61]
        elif n == 2:
            t[3] = 61
        out.extend(t)
    if K.C is not None:
        K.C.state.setdefault('b64', []).append((list(out), list(u)))
    return mkbytes([out])


def known_b64(u):
    """the bytes of which u is the encoding, when it was made by b64encode on this path"""
    for out, raw in K.C.state.get('b64', ()) if K.C is not None else ():
        if len(out) == len(u) and all(a is b or (isinstance(a, int) and isinstance(b, int) and a == b)
                                      or (isinstance(a, SymInt) and isinstance(b, SymInt) and a.key() == b.key()) for a, b in zip(out, u)):
            return raw
    return None


@model(base64.b64decode, base64.standard_b64decode)
def m_b64decode(s, altchars=None, validate=False):
    if not isinstance(s, SymSeq):
        return base64.b64decode(s, altchars, validate)
    u = s.units()
    raw = known_b64(u) if altchars is None else None
    if raw is not None:
        return mkbytes([list(raw)])
    if isinstance(s, SymStr):
        for x in u:
            if not bool_of(B.cpred(x, str.isascii)):
                raise ValueError('string argument should contain only ASCII characters')

    def is64(x):
        if isinstance(x, int):
            return x in B64SET
        if x.prov is not None:
            return in_set(x.prov[1], [i for i, v in enumerate(x.prov[0].seq) if v in B64SET])
        return in_set(x, B64)
    if altchars is not None:
        raise Unsupported('altchars')
    # CPython's binascii.a2b_base64
    strict = validate
    if strict:
        return _b64_strict(u, is64)
    out = []
    quad = 0
    left = 0
    pads = 0
    for i, x in enumerate(u):
        if bool_of(B.ch_eq(x, 61)):
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    return mkbytes([out])
            continue
        if not bool_of(is64(x)):
            continue
        v = B64INV[x] if isinstance(x, int) else lookup_ints(x, B64INV)
        pads = 0
        if quad == 0:
            quad, left = 1, v
        elif quad == 1:
            quad = 2
            out.append(left * 4 + v // 16)
            left = v % 16
        elif quad == 2:
            quad = 3
            out.append(left * 16 + v // 4)
            left = v % 4
        else:
            quad = 0
            out.append(left * 64 + v)
            left = 0
    if quad != 0:
        raise binascii.Error('Incorrect padding')
    return mkbytes([out])


def _b64_strict(u, is64):
    # base64.b64decode(validate=True) -> binascii.a2b_base64(strict_mode=True)
    out = []
    quad = pads = left = 0
    n = len(u)
    padding_started = False
    if n and bool_of(B.ch_eq(u[0], 61)):
        raise binascii.Error('Leading padding not allowed')
    i = 0
    while i < n:
        x = u[i]
        if bool_of(B.ch_eq(x, 61)):
            padding_started = True
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    if i + 1 < n:
                        raise binascii.Error('Excess data after padding')
                    return mkbytes([out])
                i += 1
                continue
            raise binascii.Error('Discontinuous padding not allowed')
        if not bool_of(is64(x)):
            raise binascii.Error('Only base64 data is allowed')
        if padding_started:
            raise binascii.Error('Discontinuous padding not allowed')
        v = B64INV[x] if isinstance(x, int) else lookup_ints(x, B64INV)
        if quad == 0:
            quad, left = 1, v
        elif quad == 1:
            quad = 2
            out.append(left * 4 + v // 16)
            left = v % 16
        elif quad == 2:
            quad = 3
            out.append(left * 16 + v // 4)
            left = v % 4
        else:
            quad = 0
            out.append(left * 64 + v)
        i += 1
    if quad:
        raise binascii.Error('Incorrect padding')
    return mkbytes([out])


@model(binascii.a2b_base64)
def m_a2b(s, *, strict_mode=False):
    return m_b64decode(s, None, strict_mode)


@model(binascii.b2a_base64)
def m_b2a(s, *, newline=True):
    r = m_b64encode(s)
    return r + b'\n' if newline else r


# ------------------------------------------------------------------------------------------------ text helpers
def apart(d):
    """a decomposition that starts with a starter, so that what precedes it does not change it"""
    return d != '' and unicodedata.combining(d[0]) == 0


@model(unicodedata.normalize)
def m_normalize(form, s):
    if isinstance(s, WordSeq):
        return s._norm(form)
    if isinstance(s, WordRef):
        return s._mapall(lambda w: unicodedata.normalize(form, w))
    if isinstance(s, SymStr):
        out, run = [], []
        for x in s.units() + [None]:
            if x is not None and isinstance(x, int):
                run.append(x)
                continue
            if run:
                run = [ord(c) for c in unicodedata.normalize(form, ''.join([chr(c) for c in run]))]
                if form.endswith('C') and not (all(c < 128 for c in run)):
                    raise Unsupported('composition of non-ASCII text')
                if out and run and unicodedata.combining(chr(run[0])) and not (isinstance(out[-1], int) and out[-1] < 128 or bool_of(B.cpred(out[-1], str.isascii))):
                    raise Unsupported('normalisation of non-ASCII text')
                out += run
                run = []
            if x is None:
                break
            if bool_of(B.cpred(x, str.isascii)):
                out.append(x)
            elif form.endswith('D') and bool_of(B.cpred(x, lambda c: apart(unicodedata.normalize(form, c)))):
                out.extend(B.cmap(x, lambda c: unicodedata.normalize(form, c)))
            elif form.startswith('NFK') and bool_of(eq(x, 0x3000)):
                out.append(32)
            else:
                raise Unsupported('normalisation of non-ASCII text')
        return s.mk(out)
    return unicodedata.normalize(form, s)


from . import regex as _regex   # noqa: E402

for _n in ('match', 'fullmatch', 'search', 'split', 'sub', 'findall', 'finditer'):
    METHS[(re.Pattern, _n)] = getattr(_regex, 'p_' + _n)
for _n in ('match', 'fullmatch', 'search'):
    def _mk(n):
        def f(pat, s, flags=0):
            return getattr(_regex, 'p_' + n)(re.compile(pat, flags), s)
        return f
    FUNCS[getattr(re, _n)] = _mk(_n)


# ------------------------------------------------------------------------------------------------ arrays
class SymArray(list):
    """array.array stand-in holding symbolic integers"""
    _pytype = array.array


@mtype(array.array)
def m_array(code, init=()):
    if K.C is None:
        return array.array(code, init)
    r = SymArray(init)
    return r


from . import fs as _fs     # noqa: E402
_fs.install(model, mtype)
