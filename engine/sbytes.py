"""Symbolic byte strings (ropes) and text."""
import z3
from . import core as K
from .core import SymInt, SymBool, And, Or, Not, Unsupported, ite, table_get, in_set


def ikey(x):
    return x if isinstance(x, int) else x.key()


class Word:
    """n bytes that are the big/little-endian digits of one integer 0 <= v < 256**n"""
    __slots__ = ('v', 'n', 'order', '_b')

    def __init__(self, v, n, order):
        self.v = v
        self.n = n
        self.order = order
        self._b = None

    def bytes(self):
        if self._b is None:
            ck = ('word', ikey(self.v), self.n)
            le = K.C.divmemo.get(ck)
            if le is None:
                v = self.v
                le = []
                for i in range(self.n - 1):
                    if isinstance(v, int):
                        v, b = divmod(v, 256)
                    else:
                        v, b = K.int_divmod(v, 256)
                    le.append(b)
                le.append(v)
                K.C.divmemo[ck] = le
            self._b = le if self.order == 'little' else le[::-1]
        return self._b

    def key(self):
        return ('w', ikey(self.v), self.n, self.order)


class Base:
    """Unbounded symbolic content: an array of bytes."""
    n = 0

    def __init__(self, name):
        K.C.arrs += 1
        self.id = K.C.arrs
        self.arr = z3.Array('arr_%s' % name, z3.IntSort(), z3.IntSort())
        self.memo = {}
        self.name = name

    def select(self, i):
        k = ikey(i)
        r = self.memo.get(k)
        if r is None:
            def ev(m, i=i):
                idx = i if isinstance(i, int) else K.C.pv(i.p, m)
                zm = m.get('z3')
                if zm is None:
                    return 0
                v = zm.eval(z3.Select(self.arr, z3.IntVal(idx)), model_completion=True)
                try:
                    v = v.as_long()
                except Exception:
                    v = 0
                return v if 0 <= v <= 255 else 0
            r = K.C.fresh(0, 255, 'sel_%s_%d' % (self.name, len(self.memo)), ev)
            ie = z3.IntVal(i) if isinstance(i, int) else i.z3()
            K.C.add(r.z3() == z3.Select(self.arr, ie))
            K.C.constraints.append(SymBool('raw', r.z3() == z3.Select(self.arr, ie)))
            self.memo[k] = r
        return r


class Slice:
    __slots__ = ('base', 'off', 'n')

    def __init__(self, base, off, n):
        self.base = base
        self.off = off
        self.n = n

    def key(self):
        return ('s', self.base.id, ikey(self.off), ikey(self.n))


def conc(x):
    """int if the SymInt's range is a single value"""
    if isinstance(x, SymInt):
        lo, hi = x.rng()
        if lo is not None and lo == hi:
            return lo
    return x


def seglen(s):
    if type(s) is list:
        return len(s)
    return s.n


def bool_of(c):
    return c if isinstance(c, bool) else K.C.decide(c) if isinstance(c, SymBool) else bool(c)


class SymSeq:
    """Behaviour shared by symbolic bytes and text; subclasses give units() and mk(units)."""
    _symbolic = True
    __slots__ = ()

    # subclasses: units(), of(units) classmethod-like, coerce(other)->units or None
    def __hash__(self):
        return 0

    def _sub_at(self, u, sub, i):
        return And(*[u[i + k] == sub[k] for k in range(len(sub))])

    def _need(self, x, what=''):
        u = self.coerce(x)
        if u is None:
            raise TypeError('argument of wrong type %s' % type(x).__name__)
        return u

    def _bounds(self, n, start, end):
        return slice(start, end).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        u = self.units()
        s = self._need1(sub)
        a, b = self._bounds(len(u), start, end)
        if len(s) == 1 and isinstance(s[0], int) and len(u) and b - a > 0 and all(isinstance(x, int) for x in u[a:b]):
            for i in range(a, b):
                if u[i] == s[0]:
                    return i
            return -1
        for i in range(a, b - len(s) + 1):
            if bool_of(self._sub_at(u, s, i)):
                return i
        return -1

    def _need1(self, sub):
        return self._need(sub)

    def rfind(self, sub, start=None, end=None):
        u = self.units()
        s = self._need1(sub)
        a, b = self._bounds(len(u), start, end)
        for i in range(b - len(s), a - 1, -1):
            if bool_of(self._sub_at(u, s, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        u = self.units()
        s = self._need1(sub)
        a, b = self._bounds(len(u), start, end)
        if len(s) == 1:
            t = 0
            for x in u[a:b]:
                c = x == s[0]
                t = t + (c.as_int() if isinstance(c, SymBool) else int(c))
            return t
        if not s:
            return b - a + 1
        n = 0
        i = a
        while i <= b - len(s):
            if bool_of(self._sub_at(u, s, i)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        u = self.units()
        a, b = self._bounds(len(u), start, end)
        u = u[a:b]
        if isinstance(pre, tuple):
            return Or(*[self._sw(u, self._need(p)) for p in pre])
        return self._sw(u, self._need(pre))

    def _sw(self, u, s):
        return False if len(s) > len(u) else self._sub_at(u, s, 0)

    def endswith(self, suf, start=None, end=None):
        u = self.units()
        a, b = self._bounds(len(u), start, end)
        u = u[a:b]

        def one(s):
            return False if len(s) > len(u) else self._sub_at(u, s, len(u) - len(s))
        if isinstance(suf, tuple):
            return Or(*[one(self._need(p)) for p in suf])
        return one(self._need(suf))

    def removeprefix(self, p):
        return self[len(p):] if bool_of(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self.units()) - len(p)] if len(p) and bool_of(self.endswith(p)) else self

    def _space(self, x):
        raise NotImplementedError

    def _stripset(self, chars):
        if chars is None:
            return self._space
        cs = self._need(chars)
        return lambda x: Or(*[x == c for c in cs])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _strip(self, chars, left, right):
        u = self.units()
        p = self._stripset(chars)
        a, b = 0, len(u)
        if left:
            while a < b and bool_of(p(u[a])):
                a += 1
        if right:
            while b > a and bool_of(p(u[b - 1])):
                b -= 1
        return self.mk(u[a:b])

    def split(self, sep=None, maxsplit=-1):
        u = self.units()
        out = []
        if sep is None:
            i, n = 0, len(u)
            while True:
                while i < n and bool_of(self._space(u[i])):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and bool_of(self._space(u[j - 1])):
                        j -= 1
                    out.append(self.mk(u[i:j]))
                    break
                j = i
                while j < n and not bool_of(self._space(u[j])):
                    j += 1
                out.append(self.mk(u[i:j]))
                i = j
            return out
        s = self._need(sep)
        if not s:
            raise ValueError('empty separator')
        start = i = 0
        while i <= len(u) - len(s):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if bool_of(self._sub_at(u, s, i)):
                out.append(self.mk(u[start:i]))
                i += len(s)
                start = i
            else:
                i += 1
        out.append(self.mk(u[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit on whitespace')
        u = self.units()
        s = self._need(sep)
        out = []
        end = len(u)
        i = len(u) - len(s)
        while i >= 0 and len(out) < maxsplit:
            if bool_of(self._sub_at(u, s, i)):
                out.append(self.mk(u[i + len(s):end]))
                end = i
                i -= len(s)
            else:
                i -= 1
        out.append(self.mk(u[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, self.mk([]), self.mk([]))
        n = len(self._need(sep))
        u = self.units()
        return (self.mk(u[:i]), self.mk(u[i:i + n]), self.mk(u[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (self.mk([]), self.mk([]), self)
        n = len(self._need(sep))
        u = self.units()
        return (self.mk(u[:i]), self.mk(u[i:i + n]), self.mk(u[i + n:]))

    def replace(self, old, new, cnt=-1):
        o = self._need(old)
        n = self._need(new)
        u = self.units()
        if not o:
            raise Unsupported('replace empty')
        out = []
        i = k = 0
        while i < len(u):
            if (cnt < 0 or k < cnt) and i + len(o) <= len(u) and bool_of(self._sub_at(u, o, i)):
                out.extend(n)
                i += len(o)
                k += 1
            else:
                out.append(u[i])
                i += 1
        return self.mk(out)

    def join(self, items):
        out = []
        sep = self.units()
        for j, it in enumerate(items):
            if j:
                out.extend(sep)
            u = self.coerce(it)
            if u is None:
                raise TypeError('sequence item %d: wrong type' % j)
            out.extend(u)
        return self.mk(out)

    def _fill(self, fill):
        f = self._need(fill)
        return f[0]

    def rjust(self, w, fill=None):
        u = self.units()
        f = self._fill(fill) if fill is not None else 32
        return self.mk([f] * max(0, w - len(u)) + u)

    def ljust(self, w, fill=None):
        u = self.units()
        f = self._fill(fill) if fill is not None else 32
        return self.mk(u + [f] * max(0, w - len(u)))

    def zfill(self, w):
        u = self.units()
        if u and bool_of(Or(u[0] == 43, u[0] == 45)):
            return self.mk(u[:1] + [48] * max(0, w - len(u)) + u[1:])
        return self.mk([48] * max(0, w - len(u)) + u)

    def splitlines(self, keepends=False):
        raise Unsupported('splitlines')

    def expandtabs(self, n=8):
        raise Unsupported('expandtabs')

    def __mul__(self, n):
        n = K.C.force(n, why='repeat') if isinstance(n, SymInt) else n
        return self.mk(self.units() * n)
    __rmul__ = __mul__

    def __contains__(self, x):
        return self.contains(x)

    def contains(self, x):
        u = self.units()
        if isinstance(x, (int, SymInt)):
            return Or(*[y == x for y in u])
        s = self._need(x)
        return Or(*[self._sub_at(u, s, i) for i in range(len(u) - len(s) + 1)])

    def _cmp(self, o, lt, eq):
        b = self.coerce(o)
        if b is None:
            return NotImplemented
        a = self.units()
        n = min(len(a), len(b))
        res = (len(a) < len(b)) if lt else (len(a) > len(b))
        if len(a) == len(b):
            res = eq
        for i in range(n - 1, -1, -1):
            less = (a[i] < b[i]) if lt else (a[i] > b[i])
            res = Or(less, And(a[i] == b[i], res))
        return res

    def __lt__(self, o):
        return self._cmp(o, True, False)

    def __le__(self, o):
        return self._cmp(o, True, True)

    def __gt__(self, o):
        return self._cmp(o, False, False)

    def __ge__(self, o):
        return self._cmp(o, False, True)

    def __repr__(self):
        return '<sym>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'


class SymBytes(SymSeq):
    __slots__ = ('segs', 'mutable', 'kind', '_u')

    def __init__(self, segs, mutable=False, kind=None):
        self.segs = segs
        self.mutable = mutable
        self.kind = kind or (bytearray if mutable else bytes)
        self._u = None

    # ------------------------------------------------------------- structure
    def length(self):
        t = 0
        for s in self.segs:
            t = t + seglen(s)
        return t

    def units(self):
        """list of byte values; forces a concrete length"""
        segs = self.segs
        if len(segs) == 1 and type(segs[0]) is list:
            return segs[0]
        out = []
        for i, s in enumerate(segs):
            if type(s) is list:
                out.extend(s)
            elif isinstance(s, Word):
                out.extend(s.bytes())
            else:
                n = K.C.force(s.n, why='byte string length') if isinstance(s.n, SymInt) else s.n
                out.extend(s.base.select(s.off + k) for k in range(n))
        if self.mutable:
            self.segs = [out]
        return out

    def mk(self, units):
        return mkbytes([list(units)])

    def coerce(self, x):
        if isinstance(x, (bytes, bytearray, memoryview)):
            return list(bytes(x))
        if isinstance(x, SymBytes):
            return x.units()
        return None

    def _need1(self, x):
        if isinstance(x, (int, SymInt)):
            return [x]
        return self._need(x)

    def fixed_len(self):
        """concrete length or None"""
        t = 0
        for s in self.segs:
            n = conc(seglen(s))
            if not isinstance(n, int):
                return None
            t += n
        return t

    def key(self):
        out = []
        for s in self.segs:
            if type(s) is list:
                out.extend(ikey(x) for x in s)
            else:
                out.append(s.key())
        return tuple(out)

    def frozen(self):
        if not self.mutable:
            return self
        return mkbytes([list(s) if type(s) is list else s for s in self.segs])

    def __len__(self):
        n = self.length()
        return K.C.force(n, why='length') if isinstance(n, SymInt) else n

    def __bool__(self):
        n = self.length()
        r = n > 0
        return bool_of(r)

    def __iter__(self):
        if self.mutable:
            i = 0
            while True:
                u = self.units()
                if i >= len(u):
                    return
                yield u[i]
                i += 1
        else:
            yield from self.units()

    def __reversed__(self):
        return iter(self.units()[::-1])

    # ------------------------------------------------------------- slicing
    def getitem(self, k):
        if isinstance(k, slice):
            return self.slice(k.start, k.stop, k.step)
        if isinstance(k, SymBool):
            k = k.as_int()
        if isinstance(k, SymInt):
            n = self.fixed_len()
            if n is not None:
                if bool_of(Or(k >= n, k < -n)):
                    raise IndexError('index out of range')
                lo, hi = k.rng()
                u = self.units()
                if not all(isinstance(x, int) for x in u):
                    k = K.C.force(k, why='index')
                    return u[k]
                if lo is None or lo < 0:
                    if bool_of(k < 0):
                        k = k + n
                        if isinstance(k, int):
                            return u[k]
                return table_get(tuple(u), k)
            n = self.length()
            if bool_of(k < 0):
                k = k + n
            if bool_of(Or(k >= n, k < 0)):
                raise IndexError('index out of range')
            segs = self._cut(k, k + 1)
            if not isinstance(segs[0], Slice):
                return mkbytes(segs)[0]
            return segs[0].base.select(segs[0].off)
        if not hasattr(type(k), '__index__'):
            raise TypeError('byte indices must be integers or slices')
        k = k.__index__()
        n = self.fixed_len()
        if n is None:
            n = self.length()
            if k < 0:
                k = n + k
            if bool_of(Or(k >= n, k < 0)):
                raise IndexError('index out of range')
            segs = self._cut(k, k + 1)
            s = segs[0]
            return s[0] if type(s) is list else s.bytes()[0] if isinstance(s, Word) else s.base.select(s.off)
        if k < 0:
            k += n
        if not 0 <= k < n:
            raise IndexError('index out of range')
        return self.units()[k]
    __getitem__ = getitem

    def slice(self, a, b, step=None):
        if step is not None and step != 1:
            u = self.units()
            a = None if a is None else K.C.force(a)
            b = None if b is None else K.C.force(b)
            return self._ret([u[slice(a, b, K.C.force(step))]])
        n = self.fixed_len()
        if n is not None and not isinstance(a, SymInt) and not isinstance(b, SymInt):
            a, b, _ = slice(a, b).indices(n)
            if b < a:
                b = a
            if len(self.segs) == 1 and type(self.segs[0]) is list:
                return self._ret([self.segs[0][a:b]])
            return self._ret(self._cut(a, b))
        n = self.length()

        def clamp(x, dflt):
            if x is None:
                return dflt
            if bool_of(x < 0):
                x = x + n
                if bool_of(x < 0):
                    return 0
                return x
            if bool_of(x > n):
                return n
            return x
        a = clamp(a, 0)
        b = clamp(b, n)
        if bool_of(b <= a):
            return self._ret([])
        return self._ret(self._cut(a, b))

    def _ret(self, segs):
        if self.mutable and self.kind is bytearray:
            return SymBytes([x if type(x) is not list else list(x) for x in segs], True)
        return mkbytes(segs)

    def _cut(self, a, b):
        """segments covering [a, b) with 0 <= a <= b <= len known to hold"""
        out = []
        pos = 0
        for s in self.segs:
            n = seglen(s)
            end = pos + n
            # skip segments before a
            if bool_of(end <= a):
                pos = end
                continue
            if bool_of(pos >= b):
                break
            lo = 0 if bool_of(pos >= a) else a - pos
            hi = n if bool_of(end <= b) else b - pos
            lo, hi = conc(lo), conc(hi)
            if isinstance(lo, int) and lo == 0 and hi is n:
                out.append(s)
            elif isinstance(s, Slice):
                out.append(Slice(s.base, s.off + lo, hi - lo))
            else:
                lst = s if type(s) is list else s.bytes()
                if isinstance(lo, SymInt):
                    lo = K.C.force(lo, why='slice bound')
                if isinstance(hi, SymInt):
                    hi = K.C.force(hi, why='slice bound')
                out.append(lst[lo:hi])
            pos = end
        return out

    def setitem(self, k, v):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")
        u = list(self.units())
        if isinstance(k, slice):
            k = slice(*[None if x is None else K.C.force(x, why='slice') for x in (k.start, k.stop, k.step)])
            vu = self.coerce(v)
            if vu is None:
                vu = [checkbyte(x) for x in v]
            if self.kind is not bytearray and len(u[k]) != len(vu):
                raise IndexError('mmap slice assignment is wrong size')
            u[k] = vu
        else:
            k = K.C.force(k, why='index')
            u[k] = checkbyte(v)
        self.segs = [u]
    __setitem__ = setitem

    def delitem(self, k):
        u = list(self.units())
        if isinstance(k, slice):
            k = slice(*[None if x is None else K.C.force(x, why='slice') for x in (k.start, k.stop, k.step)])
        else:
            k = K.C.force(k)
        del u[k]
        self.segs = [u]
    __delitem__ = delitem

    # ------------------------------------------------------------- operators
    def __add__(self, o):
        o = tosegs(o)
        if o is None:
            return NotImplemented
        return self._ret([*self._copysegs(), *o])

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            segs = [list(o), *self._copysegs()]
            return SymBytes(merge(segs), True) if isinstance(o, bytearray) else mkbytes(segs)
        return NotImplemented

    def _copysegs(self):
        return [list(s) if type(s) is list else s for s in self.segs]

    def __iadd__(self, o):
        if not self.mutable:
            return self.__add__(o)
        segs = tosegs(o)
        if segs is None:
            raise TypeError('cannot concat')
        self.segs = merge([*self.segs, *segs])
        return self

    def __mod__(self, o):
        raise Unsupported('bytes formatting')

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, memoryview, SymBytes)):
            return sb_eq(self, o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = SymSeq.__hash__

    # ------------------------------------------------------------- methods
    def hex(self, *a):
        if a:
            raise Unsupported('hex separator')
        out = []
        for x in self.units():
            if isinstance(x, int):
                out.extend(b'%02x' % x)
            else:
                h, l = K.int_divmod(x, 16)
                out.append(hexdigit(h))
                out.append(hexdigit(l))
        return mkstr(out)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        u = self.units()
        if enc in ('latin-1', 'latin1', 'iso-8859-1'):
            return mkstr(u)
        out = []
        if enc in ('ascii', 'us-ascii', 'utf-8', 'utf8'):
            if errors != 'strict':
                c = And(*[x < 128 for x in u])
                c = c.simp() if isinstance(c, SymBool) else c
                if c is True:
                    return mkstr(u)
                sym = [x for x in u if not isinstance(x, int)]
                if errors in ('replace', 'ignore') and (not sym or bool_of(And(*[x < 128 for x in sym]))):
                    # the symbolic bytes are whole characters: what lies between them decodes on its own
                    run = []
                    for x in [*u, None]:
                        if isinstance(x, int):
                            run.append(x)
                            continue
                        out.extend(ord(ch) for ch in bytes(run).decode(enc, errors))
                        run = []
                        if x is not None:
                            out.append(x)
                    return mkstr(out)
                return LazyStr([(Opaque('decoding with errors=' + errors), -1, '')])
            if all(bool_of(x < 128) for x in u):
                return mkstr(u)
            if enc.startswith('utf'):
                return self._utf8(u)
            raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)')
        raise Unsupported('decode ' + encoding)

    def _utf8(self, u):
        def bad():
            raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'invalid byte')
        out = []
        i = 0

        def cont(j, lo=0x80, hi=0xbf):
            if j >= len(u) or not bool_of(And(u[j] >= lo, u[j] <= hi)):
                bad()
            return u[j] - 0x80
        while i < len(u):
            x = u[i]
            if bool_of(x < 0x80):
                out.append(x)
                i += 1
            elif bool_of(And(x >= 0xc2, x <= 0xdf)):
                out.append((x - 0xc0) * 64 + cont(i + 1))
                i += 2
            elif bool_of(And(x >= 0xe0, x <= 0xef)):
                lo, hi = 0x80, 0xbf
                if bool_of(x == 0xe0):
                    lo = 0xa0
                elif bool_of(x == 0xed):
                    hi = 0x9f
                out.append((x - 0xe0) * 4096 + cont(i + 1, lo, hi) * 64 + cont(i + 2))
                i += 3
            elif bool_of(And(x >= 0xf0, x <= 0xf4)):
                lo, hi = 0x80, 0xbf
                if bool_of(x == 0xf0):
                    lo = 0x90
                elif bool_of(x == 0xf4):
                    hi = 0x8f
                out.append((x - 0xf0) * 262144 + cont(i + 1, lo, hi) * 4096 + cont(i + 2) * 64 + cont(i + 3))
                i += 4
            else:
                bad()
        return mkstr(out)

    def _space(self, x):
        return in_set(x, (9, 10, 11, 12, 13, 32)) if isinstance(x, SymInt) else x in (9, 10, 11, 12, 13, 32)

    def tobytes(self):
        return self.frozen()

    def copy(self):
        return SymBytes(self._copysegs(), True)

    def __buffer__(self, flags):
        raise Unsupported('native buffer access to symbolic bytes')

    def lower(self):
        return self.mk([x if isinstance(x, int) and not 65 <= x <= 90 else x + 32 if isinstance(x, int) else
                        ite(And(x >= 65, x <= 90), x + 32, x) for x in self.units()])

    def upper(self):
        return self.mk([x if isinstance(x, int) and not 97 <= x <= 122 else x - 32 if isinstance(x, int) else
                        ite(And(x >= 97, x <= 122), x - 32, x) for x in self.units()])

    def translate(self, table, delete=b''):
        if delete or isinstance(table, SymBytes):
            raise Unsupported('translate')
        t = tuple(bytes(table))
        return self.mk([t[x] if isinstance(x, int) else table_get(t, x) for x in self.units()])

    def isascii(self):
        return And(*[x < 128 for x in self.units()])

    def isdigit(self):
        u = self.units()
        return And(*[And(x >= 48, x <= 57) for x in u]) if u else False

    # mutable
    def append(self, x):
        self._mut()
        x = checkbyte(x)
        if self.segs and type(self.segs[-1]) is list:
            self.segs[-1].append(x)
        else:
            self.segs.append([x])

    def _mut(self):
        if not self.mutable:
            raise AttributeError("'bytes' object has no such attribute")

    def extend(self, it):
        self._mut()
        s = tosegs(it)
        if s is None:
            s = [[checkbyte(x) for x in it]]
        self.segs = merge([*self.segs, *s])

    def pop(self, i=-1):
        self._mut()
        u = list(self.units())
        r = u.pop(i)
        self.segs = [u]
        return r

    def insert(self, i, x):
        self._mut()
        u = list(self.units())
        u.insert(i, checkbyte(x))
        self.segs = [u]

    def reverse(self):
        self._mut()
        self.segs = [self.units()[::-1]]

    def clear(self):
        self._mut()
        self.segs = []

    def remove(self, x):
        self._mut()
        i = self.find(x)
        if i < 0:
            raise ValueError('value not found in bytearray')
        self.pop(i)


def hexdigit(v):
    if isinstance(v, int):
        return ord('0123456789abcdef'[v])
    return table_get(HEX, v)


HEX = tuple(b'0123456789abcdef')


def checkbyte(x):
    if isinstance(x, SymBool):
        x = x.as_int()
    if not isinstance(x, (int, SymInt)):
        if hasattr(type(x), '__index__'):
            x = x.__index__()
        else:
            raise TypeError('an integer is required')
    if bool_of(Or(x < 0, x > 255)):
        raise ValueError('bytes must be in range(0, 256)')
    return int(x) if isinstance(x, int) else x


def merge(segs):
    out = []
    for s in segs:
        if type(s) is list:
            if not s:
                continue
            if out and type(out[-1]) is list:
                out[-1] = out[-1] + s
                continue
        else:
            n = s.n
            if isinstance(n, int) and n == 0:
                continue
            if isinstance(s, Slice) and out and isinstance(out[-1], Slice):
                p = out[-1]
                if p.base is s.base and ikey(p.off + p.n) == ikey(s.off):
                    out[-1] = Slice(p.base, p.off, p.n + s.n)
                    continue
        out.append(s)
    return out


def mkbytes(segs):
    segs = merge(segs)
    if not segs:
        return b''
    if len(segs) == 1 and type(segs[0]) is list:
        l = segs[0]
        for x in l:
            if type(x) is not int:
                if isinstance(x, bool):
                    return mkbytes([[int(y) if isinstance(y, bool) else y for y in l]])
                return SymBytes(segs)
        return bytes(l)
    return SymBytes(segs)


def tosegs(o):
    if isinstance(o, SymBytes):
        return o._copysegs()
    if isinstance(o, (bytes, bytearray, memoryview)):
        return [list(bytes(o))]
    return None


def from_units(u):
    return mkbytes([list(u)])


def list_to_int(l, order):
    """big integer SymInt of a list of byte values"""
    if order == 'big':
        l = l[::-1]
    acc = {}
    k = 1
    for x in l:
        if isinstance(x, int):
            if x:
                acc[()] = acc.get((), 0) + x * k
        else:
            for m, c in x.p.items():
                acc[m] = acc.get(m, 0) + c * k
        k <<= 8
    return K.mk({m: c for m, c in acc.items() if c})


def seg_int(s, order):
    if isinstance(s, Word):
        if s.order == order:
            return s.v
        return list_to_int(s.bytes(), order)
    if isinstance(s, Slice):
        n = K.C.force(s.n, why='length')
        return list_to_int([s.base.select(s.off + k) for k in range(n)], order)
    if order == 'big' or order == 'little':
        if len(s) > 1 and any(isinstance(x, SymInt) and x.bits is not None for x in s):
            bits = []
            for x in (s if order == 'little' else s[::-1]):
                b = x.bits if isinstance(x, SymInt) else K.bits_of(x)
                if b is None:
                    break
                bits.extend(b + [K.ZERO] * (8 - len(b)))
            else:
                return K.mkbits(bits)
    return list_to_int(s, order)


def bytes_to_int(b, order='big', signed=False):
    if isinstance(b, (bytes, bytearray)):
        return int.from_bytes(b, order, signed=signed)
    b.fixed_len() is None and b.units()
    v = 0
    n = 0
    segs = b.segs if order == 'little' else b.segs[::-1]
    if len(segs) == 1:
        v = seg_int(segs[0], order)
        n = conc(seglen(segs[0]))
    else:
        for s in segs:
            v = v + seg_int(s, order) * (1 << (8 * n))
            n += conc(seglen(s))
    if signed and n:
        neg = v >= (1 << (8 * n - 1))
        v = v - (neg.as_int() if isinstance(neg, SymBool) else int(neg)) * (1 << (8 * n))
    return v


def try_digits(x, n):
    v = x
    out = []
    for i in range(n):
        if isinstance(v, int):
            out.append(v & 255)
            v >>= 8
            continue
        A, B = {}, {}
        for m, c in v.p.items():
            if m:
                if c % 256 == 0:
                    A[m] = c // 256
                else:
                    B[m] = c
            else:
                if c // 256:
                    A[()] = c // 256
                if c % 256:
                    B[()] = c % 256
        b = K.mk(B)
        if isinstance(b, SymInt):
            lo, hi = b.rng()
            if lo is None or hi is None or lo < 0 or hi > 255:
                return None
        out.append(b)
        v = K.mk(A)
    return out


def int_to_bytes(x, length, order, signed):
    n = K.C.force(length, why='length') if isinstance(length, SymInt) else length
    if n < 0:
        raise ValueError('length argument must be non-negative')
    if order not in ('big', 'little'):
        raise ValueError("byteorder must be either 'little' or 'big'")
    if isinstance(x, int):
        return int(x).to_bytes(n, order, signed=signed)
    if signed:
        lim = 1 << (8 * n - 1) if n else 1
        if bool_of(Or(x < -lim, x >= lim if n else x > 0)):
            raise OverflowError('int too big to convert')
        if n == 0:
            return b''
        neg = x < 0
        x = x + (neg.as_int() if isinstance(neg, SymBool) else int(neg)) * (1 << 8 * n)
    else:
        if bool_of(x < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if bool_of(x >= 1 << 8 * n):
            raise OverflowError('int too big to convert')
    if isinstance(x, int):
        return x.to_bytes(n, order)
    if n == 0:
        return b''
    if x.bits is not None:
        d = [K.mkbits(x.bits[8 * i:8 * i + 8]) for i in range(n)]
    elif n == 1:
        d = [x]
    else:
        d = try_digits(x, n)
    if d is None:
        return mkbytes([Word(x, n, order)])
    return mkbytes([d if order == 'little' else d[::-1]])


def sb_eq(a, b):
    """SymBool/bool equality of two byte strings (SymBytes or bytes)."""
    sa, sb = tosegs(a), tosegs(b)
    sa, sb = merge(sa), merge(sb)
    la = lb = 0
    for s in sa:
        la = la + seglen(s)
    for s in sb:
        lb = lb + seglen(s)
    le = la == lb
    if isinstance(le, SymBool):
        le = le.simp()
    if le is False:
        return False
    if le is not True:
        # decide lengths first
        if not bool_of(le):
            return False
    conds = []
    i = j = 0
    sa, sb = list(sa), list(sb)
    while i < len(sa) and j < len(sb):
        x, y = sa[i], sb[j]
        lx, ly = seglen(x), seglen(y)
        if isinstance(x, Slice):
            lx = conc(lx)
        if isinstance(y, Slice):
            ly = conc(ly)
        if isinstance(lx, int) and isinstance(ly, int) and lx != ly:
            # split the longer
            if lx < ly:
                sb[j:j + 1] = split_seg(y, lx)
            else:
                sa[i:i + 1] = split_seg(x, ly)
            continue
        if not (isinstance(lx, int) and isinstance(ly, int)):
            if not bool_of(lx == ly):
                if bool_of(lx < ly):
                    sb[j:j + 1] = split_seg(y, lx)
                else:
                    sa[i:i + 1] = split_seg(x, ly)
                continue
        c = seg_eq(x, y)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
        i += 1
        j += 1
    return And(*conds)


def split_seg(s, n):
    if isinstance(s, Slice):
        return [Slice(s.base, s.off, n), Slice(s.base, s.off + n, s.n - n)]
    l = s if type(s) is list else s.bytes()
    if isinstance(n, SymInt):
        n = K.C.force(n, why='split')
    return [l[:n], l[n:]]


def seg_eq(x, y):
    if isinstance(x, Slice) and isinstance(y, Slice):
        if x.base is y.base and ikey(x.off) == ikey(y.off):
            return True
        n = conc(x.n)
        if not isinstance(n, int):
            if x.base is y.base:
                d = conc(x.off - y.off) if isinstance(x.off - y.off, SymInt) else x.off - y.off
                if isinstance(d, int) and d == 0:
                    return True
            return rope_eq_raw(x, y)
        return And(*[x.base.select(x.off + k) == y.base.select(y.off + k) for k in range(n)])
    if isinstance(x, Slice) or isinstance(y, Slice):
        if isinstance(y, Slice):
            x, y = y, x
        l = y if type(y) is list else y.bytes()
        return And(*[x.base.select(x.off + k) == l[k] for k in range(len(l))])
    if isinstance(x, Word) and isinstance(y, Word):
        if x.order == y.order:
            return x.v == y.v
        return And(*[p == q for p, q in zip(x.bytes(), y.bytes())])
    if isinstance(x, Word) or isinstance(y, Word):
        if isinstance(y, Word):
            x, y = y, x
        if x._b is not None or any(isinstance(v, SymInt) for v in y):
            if x._b is not None:
                cs = [p == q for p, q in zip(x._b, y)]
                if all(c is True for c in cs):
                    return True
            return x.v == list_to_int(y, x.order)
        return x.v == list_to_int(y, x.order)
    out = []
    for p, q in zip(x, y):
        c = p == q
        if c is False:
            return False
        if len(out) < 4 and isinstance(c, SymBool):
            c = c.simp()
            if c is False:
                return False
        out.append(c)
    return And(*out)


def rope_eq_raw(x, y):
    """equality of two different unbounded slices: a quantified condition (used in positive checks only)"""
    k = z3.Int('k!%d' % len(K.C.constraints))
    n = x.n if isinstance(x.n, int) else x.n.z3()
    xo = z3.IntVal(x.off) if isinstance(x.off, int) else x.off.z3()
    yo = z3.IntVal(y.off) if isinstance(y.off, int) else y.off.z3()
    n = z3.IntVal(n) if isinstance(n, int) else n
    return SymBool('raw', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n),
                                                   z3.Select(x.base.arr, xo + k) == z3.Select(y.base.arr, yo + k))))


# ------------------------------------------------------------------------------------------------ text
def chartable(x):
    """(seq of code points, index) for a symbolic code point"""
    if x.prov is not None:
        return x.prov[0].seq, x.prov[1]
    lo, hi = x.rng()
    if lo is None or hi is None or hi > 2048:
        raise Unsupported('character of unrestricted range')
    return tuple(range(hi + 1)), x


def cpred(x, f):
    """SymBool: f(chr(x))"""
    if isinstance(x, int):
        return bool(f(chr(x)))
    seq, base = chartable(x)
    return in_set(base, [i for i, v in enumerate(seq) if f(chr(v))])


def cmap(x, f):
    """list of code points of f(chr(x)) ; forks on multi-character results"""
    if isinstance(x, int):
        return [ord(c) for c in f(chr(x))]
    seq, base = chartable(x)
    vals = [f(chr(v)) for v in seq]
    multi = [i for i, v in enumerate(vals) if len(v) != 1]
    if multi:
        if bool_of(in_set(base, multi)):
            i = K.C.force(base, why='char')
            return [ord(c) for c in vals[i]]
    return [table_get(tuple(ord(v[0]) if len(v) == 1 else 0 for v in vals), base)]


class SymStr(SymSeq):
    __slots__ = ('u',)

    def __init__(self, u):
        self.u = u

    def units(self):
        return self.u

    def mk(self, units):
        return mkstr(list(units))

    def coerce(self, x):
        if isinstance(x, str):
            return [ord(c) for c in x]
        if isinstance(x, SymStr):
            return x.units()
        return None

    def key(self):
        return tuple(ikey(x) for x in self.units())

    def length(self):
        return len(self.units())

    def __len__(self):
        return len(self.units())

    def __bool__(self):
        return len(self.units()) > 0

    def __iter__(self):
        for x in self.units():
            yield chr(x) if isinstance(x, int) else SymStr([x])

    def __reversed__(self):
        return iter([self.mk([x]) for x in self.units()[::-1]])

    def getitem(self, k):
        u = self.units()
        if isinstance(k, slice):
            k = slice(*[None if x is None else K.C.force(x, why='slice') for x in (k.start, k.stop, k.step)])
            return mkstr(u[k])
        if isinstance(k, (SymInt, SymBool)):
            k = K.C.force(K.tosym(k), why='index')
        return mkstr([u[k]])
    __getitem__ = getitem

    def __add__(self, o):
        c = self.coerce(o)
        return NotImplemented if c is None else mkstr(self.units() + c)

    def __radd__(self, o):
        c = self.coerce(o)
        return NotImplemented if c is None else mkstr(c + self.units())

    def __eq__(self, o):
        c = self.coerce(o)
        if c is None:
            return NotImplemented
        u = self.units()
        if len(c) != len(u):
            return False
        return And(*[ch_eq(p, q) for p, q in zip(u, c)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = SymSeq.__hash__

    def _sub_at(self, u, sub, i):
        return And(*[ch_eq(u[i + k], sub[k]) for k in range(len(sub))])

    def _space(self, x):
        return cpred(x, str.isspace)

    def __mod__(self, o):
        from . import fmt
        return fmt.percent(self, o)

    def _all(self, f):
        u = self.units()
        return And(*[cpred(x, f) for x in u]) if u else False

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isprintable(self):
        return And(*[cpred(x, str.isprintable) for x in self.units()])

    def isascii(self):
        return And(*[cpred(x, str.isascii) for x in self.units()])

    def islower(self):
        u = self.units()
        return And(Or(*[cpred(x, str.islower) for x in u]),
                   *[cpred(x, lambda c: c.islower() or not (c.isupper() or c.istitle())) for x in u])

    def isupper(self):
        u = self.units()
        return And(Or(*[cpred(x, str.isupper) for x in u]),
                   *[cpred(x, lambda c: c.isupper() or not (c.islower() or c.istitle())) for x in u])

    def _map(self, f):
        out = []
        for x in self.units():
            out.extend(cmap(x, f))
        return mkstr(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def swapcase(self):
        return self._map(str.swapcase)

    def translate(self, table):
        out = []
        for x in self.units():
            def f(c):
                r = table.get(ord(c), c) if hasattr(table, 'get') else table[ord(c)]
                return '' if r is None else chr(r) if isinstance(r, int) else r
            out.extend(cmap(x, f))
        return mkstr(out)

    def title(self):
        raise Unsupported('title')
    capitalize = title

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        out = []
        for x in self.units():
            if isinstance(x, int):
                out.extend(chr(x).encode(encoding, errors))
                continue
            if bool_of(cpred(x, str.isascii)):
                out.append(x)
                continue
            if enc in ('ascii', 'us-ascii'):
                raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')
            # utf-8 / others by table
            seq, base = chartable(x)
            def ln(v):
                try:
                    return len(chr(v).encode(encoding, errors))
                except UnicodeEncodeError:
                    return -1
            lens = [ln(v) for v in seq]
            for n in sorted(set(lens)):
                if bool_of(in_set(base, [i for i, l in enumerate(lens) if l == n])):
                    if n < 0:
                        raise UnicodeEncodeError(enc, '?', 0, 1, 'surrogates not allowed')
                    for k in range(n):
                        out.append(table_get(tuple(chr(v).encode(encoding, errors)[k] if lens[i] == n else 0
                                                   for i, v in enumerate(seq)), base))
                    break
        return from_units(out)

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')


def ch_eq(p, q):
    if isinstance(p, SymInt) and isinstance(q, SymInt):
        if p.prov is not None and q.prov is not None and p.prov[0] is q.prov[0] \
                and len(set(p.prov[0].seq)) == len(p.prov[0].seq):
            return p.prov[1] == q.prov[1]
        a, b = p.prov, q.prov
        if a is not None and b is not None and ikey(a[1]) == ikey(b[1]):
            return in_set(a[1], [i for i, (v, w) in enumerate(zip(a[0].seq, b[0].seq)) if v == w])
        for x, y in ((p, q), (q, p)):
            if x.prov is not None and ikey(x.prov[1]) == ikey(y):
                return in_set(y, [i for i, v in enumerate(x.prov[0].seq) if v == i])
        return p == q
    if isinstance(q, SymInt):
        p, q = q, p
    if isinstance(p, SymInt) and p.prov is not None:
        return in_set(p.prov[1], [i for i, v in enumerate(p.prov[0].seq) if v == q])
    return p == q


class Opaque:
    """text that is only supported as long as nobody looks at it"""
    def __init__(self, why):
        self.why = why

    def __format__(self, spec):
        raise Unsupported(self.why)


class LazyStr(SymStr):
    """Text with formatted symbolic parts, resolved only if its characters are used."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts
        self.u = None

    def units(self):
        if self.u is None:
            from . import fmt
            out = []
            for p in self.parts:
                if isinstance(p, str):
                    out.extend(ord(c) for c in p)
                else:
                    out.extend(fmt.resolve(*p))
            self.u = out
        return self.u


def mkstr(u):
    for x in u:
        if not isinstance(x, int):
            return SymStr(u)
    return ''.join(map(chr, u))
