"""Contract of libsecp256k1 (the C library behind electrumsv_secp256k1) for symbolic runs.

A public key is represented by its discrete logarithm.  The exponent is kept as a polynomial over the secret integers with
coefficients reduced modulo the group order, so that equal group expressions are syntactically equal; coordinates are arbitrary
functions of the exponent subject to: distinct points have distinct (x, parity), negation keeps x and flips parity.
ECDSA signing is an arbitrary function of (hash, secret) with low s, and verification accepts at least what was signed.
"""
import types
from . import core as K
from .core import SymInt, SymBool, And, Or, Not
from . import sbytes as B
from .sbytes import SymBytes, mkbytes, Word, bool_of

N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
Pm = 2 ** 256 - 2 ** 32 - 977
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
     0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


# ---------------------------------------------------------------------------------------------- concrete arithmetic
def padd(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % Pm == 0:
            return None
        s = 3 * p[0] * p[0] * pow(2 * p[1], -1, Pm)
    else:
        s = (q[1] - p[1]) * pow(q[0] - p[0], -1, Pm)
    x = (s * s - p[0] - q[0]) % Pm
    return x, (s * (p[0] - x) - p[1]) % Pm


def pmul(d, p=G):
    r = None
    d %= N
    while d:
        if d & 1:
            r = padd(r, p)
        p = padd(p, p)
        d >>= 1
    return r


def on_curve_x(x):
    """y with y*y = x^3+7 or None"""
    if x >= Pm:
        return None
    c = (x * x * x + 7) % Pm
    y = pow(c, (Pm + 1) // 4, Pm)
    return y if y * y % Pm == c else None


# ---------------------------------------------------------------------------------------------- symbolic points
def red(x):
    """exponent polynomial with coefficients mod N"""
    if not isinstance(x, SymInt):
        return x % N
    d = {}
    for m, c in x.p.items():
        c %= N
        if c:
            d[m] = c
    return K.mk(d)


def dkey(d):
    return d.key() if isinstance(d, SymInt) else d


class Point:
    __slots__ = ('d', 'rep', 'X', 'Y', 'par')

    def __init__(self, d, rep, X, Y, par):
        self.d, self.rep, self.X, self.Y, self.par = d, rep, X, Y, par


def st(name):
    return K.C.state.setdefault('ec_' + name, [])


def SB(x):
    if isinstance(x, SymBool):
        return x
    return SymBool('and', []) if x else SymBool('or', [])


def learn(c):
    if isinstance(c, SymBool):
        c = c.simp()
    if c is True:
        return
    K.C.lazy.append(SB(c))


def Iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def parity(y):
    return y % 2


def relate(p, q):
    same = p.rep == q.rep
    neg = p.rep + q.rep == N
    xs = p.X == q.X
    learn(Or(And(same, xs, p.Y == q.Y), And(neg, xs, p.Y + q.Y == Pm),
             And(Not(same), Not(neg), Not(xs))))


def new_point(d, rep, X=None, Y=None):
    """register the point with exponent d (canonical), integer representative rep"""
    pts = st('points')
    C = K.C
    if isinstance(d, int) and X is None:
        X, Y = pmul(d)
        rep = d
    if X is None:
        n = len(pts)
        X = C.fresh(0, Pm - 1, 'ecx_%d' % n)
        Y = C.fresh(1, Pm - 1, 'ecy_%d' % n)
    p = Point(d, rep, X, Y, None)
    for q in pts:
        relate(p, q)
    for bx in st('badx'):
        learn(Not(p.X == bx))
    for bx, by in st('badxy'):
        learn(Not(And(p.X == bx, Or(p.Y == by, p.Y + by == Pm))))
    pts.append(p)
    K.C.oracles.append(('ec', (rep,), (X, Y), None))
    return p


def point(d, rep):
    d = red(d)
    k = dkey(d)
    for p in st('points'):
        if dkey(p.d) == k:
            return p
    nd = red(-d) if isinstance(d, SymInt) else (-d) % N
    nk = dkey(nd)
    for p in st('points'):
        if dkey(p.d) == nk:
            return new_point(d, rep, p.X, Pm - p.Y)
    return new_point(d, rep)


def be(b):
    return B.bytes_to_int(b, 'big') if isinstance(b, SymBytes) else int.from_bytes(b, 'big')


def b32(x):
    if isinstance(x, SymInt):
        return mkbytes([Word(x, 32, 'big')])
    return x.to_bytes(32, 'big')


def need_bytes(b):
    if isinstance(b, UChar):
        return b.data
    if isinstance(b, SymBytes):
        if b.mutable or b.kind is memoryview:
            raise TypeError("initializer for ctype 'unsigned char *' must be a cdata pointer")
        return b
    if not isinstance(b, bytes):
        raise TypeError("initializer for ctype 'unsigned char *' must be a bytes or list or tuple, not %s" % type(b).__name__)
    return b


def take(b, n):
    b = need_bytes(b)
    ln = len(b)
    if ln == n:
        return b
    if ln < n:
        raise K.Unsupported('C function reads past a short buffer')
    return b.slice(0, n) if isinstance(b, SymBytes) else b[:n]


# ---------------------------------------------------------------------------------------------- ffi objects
class UChar:
    def __init__(self, n, data):
        self.n = n
        self.data = data

    def __repr__(self):
        return "<cdata 'unsigned char[%d]' owning %d bytes>" % (self.n, self.n)


class Box:
    def __init__(self, kind, v=None):
        self.kind = kind
        self.v = v

    def __getitem__(self, i):
        if i != 0:
            raise IndexError('cdata')
        return self.v

    def __setitem__(self, i, v):
        if i != 0:
            raise IndexError('cdata')
        self.v = v

    def __repr__(self):
        return "<cdata '%s' owning 64 bytes>" % self.kind


class FFI:
    NULL = None

    def new(self, kind, init=None):
        if not isinstance(kind, str):
            kind = str(kind)
        k = kind.replace(' ', '')
        if k.startswith('unsignedchar['):
            n = int(k[13:-1])
            if init is None:
                return UChar(n, bytes(n))
            init = need_bytes(init)
            if len(init) > n:
                raise IndexError('initializer bytes is too long')
            if len(init) < n:
                init = init + bytes(n - len(init))
            return UChar(n, init)
        return Box(kind, init)

    def buffer(self, x, n=None):
        n = x.n if n is None else n
        d = x.data
        if isinstance(n, SymInt) or isinstance(d, SymBytes) or n != len(d):
            return d[:n] if not isinstance(d, SymBytes) else d.slice(0, n)
        return d


def _fail_sig(cell):
    cell.v = (0, 0)


class Lib:
    SECP256K1_EC_COMPRESSED = 258
    SECP256K1_EC_UNCOMPRESSED = 2

    def secp256k1_ec_seckey_verify(self, ctx, secret):
        s = be(take(secret, 32))
        return 1 if bool_of(And(s >= 1, s < N)) else 0

    def secp256k1_ec_pubkey_create(self, ctx, pk, secret):
        s = be(take(secret, 32))
        if not bool_of(And(s >= 1, s < N)):
            return 0
        pk.v = point(s, s)
        return 1

    def secp256k1_ec_privkey_tweak_add(self, ctx, secret, tweak):
        t = be(take(tweak, 32))
        s = be(secret.data)
        if bool_of(t >= N):
            return 0
        r = (s + t) % N
        if bool_of(r == 0):
            return 0
        secret.data = b32(r)
        return 1

    def secp256k1_ec_privkey_tweak_mul(self, ctx, secret, tweak):
        t = be(take(tweak, 32))
        s = be(secret.data)
        if bool_of(Or(t >= N, t == 0)):
            return 0
        secret.data = b32(mulmod(s, t))
        return 1

    def secp256k1_ec_pubkey_tweak_add(self, ctx, pk, tweak):
        t = be(take(tweak, 32))
        if bool_of(t >= N):
            return 0
        r = (pk.v.rep + t) % N
        if bool_of(r == 0):
            return 0
        pk.v = point(pk.v.d + t, r)
        return 1

    def secp256k1_ec_pubkey_tweak_mul(self, ctx, pk, tweak):
        t = be(take(tweak, 32))
        if bool_of(Or(t >= N, t == 0)):
            return 0
        pk.v = point(pk.v.d * t, mulmod(pk.v.rep, t))
        return 1

    def secp256k1_ec_pubkey_combine(self, ctx, pk, keys, n):
        d = 0
        rep = 0
        for k in keys:
            d = d + k.v.d
            rep = rep + k.v.rep
        r = rep % N
        if bool_of(r == 0):
            return 0
        pk.v = point(d, r)
        return 1

    def secp256k1_ec_pubkey_serialize(self, ctx, out, size, pk, flag):
        p = pk.v
        if flag == self.SECP256K1_EC_COMPRESSED:
            y = p.Y % 2
            out.data = head(2 + y) + b32(p.X)
            size.v = 33
        else:
            out.data = b'\x04' + b32(p.X) + b32(p.Y)
            size.v = 65
        if len(out.data) != out.n:
            out.data = out.data + bytes(out.n - len(out.data)) if len(out.data) < out.n else out.data.slice(0, out.n)
        return 1

    def secp256k1_ec_pubkey_parse(self, ctx, pk, data, n):
        data = need_bytes(data)
        if isinstance(n, SymInt):
            n = K.C.force(n)
        if n != 33 and n != 65:
            pk.v = None
            return 0
        b = data.units() if isinstance(data, SymBytes) else list(data)
        x = be(data.slice(1, 33) if isinstance(data, SymBytes) else data[1:33])
        if n == 33:
            h = b[0]
            if not bool_of(Or(h == 2, h == 3)):
                return 0
            p = lift(x, h - 2)
        else:
            h = b[0]
            if not bool_of(Or(h == 4, h == 6, h == 7)):
                return 0
            y = be(data.slice(33, 65) if isinstance(data, SymBytes) else data[33:65])
            if not bool_of(h == 4):
                if not bool_of(parity(y) == h - 6):
                    return 0
            p = lift_xy(x, y)
        if p is None:
            return 0
        pk.v = p
        return 1

    # -- ECDSA
    def _sign(self, msg, secret):
        m = take(msg, 32)
        s = be(take(secret, 32))
        if not bool_of(And(s >= 1, s < N)):
            return None
        mi = be(m)
        for e in st('sigs'):
            if same(e[0], mi) and dkey(red(e[1])) == dkey(red(s)):
                return e
        C = K.C
        k = len(st('sigs'))
        r = C.fresh(1, N - 1, 'sig_r%d' % k)
        v = C.fresh(1, (N - 1) // 2, 'sig_s%d' % k)
        rid = C.fresh(0, 3, 'sig_id%d' % k)
        e = (mi, s, r, v, rid)
        for o in st('sigs'):
            learn(Or(Not(And(o[0] == mi, o[1] == s)), And(o[2] == r, o[3] == v, o[4] == rid)))
        for (r2, v2, m2, rep, res) in st('ver'):
            learn(Or(Not(And(r2 == r, v2 == v, m2 == mi, rep == s)), res == 1))
        st('sigs').append(e)
        C.oracles.append(('ecsign', (mi, s), (r, v, rid), None))
        return e

    def secp256k1_ecdsa_sign(self, ctx, sig, msg, secret, a, b):
        e = self._sign(msg, secret)
        if e is None:
            return 0
        sig.v = (e[2], e[3])
        return 1

    def secp256k1_ecdsa_sign_recoverable(self, ctx, sig, msg, secret, a, b):
        e = self._sign(msg, secret)
        if e is None:
            return 0
        sig.v = (e[2], e[3], e[4])
        return 1

    def secp256k1_ecdsa_verify(self, ctx, sig, msg, pk):
        r, s = sig.v
        m = be(take(msg, 32))
        p = pk.v
        if bool_of(Or(r == 0, s == 0, s > (N - 1) // 2)):
            return 0
        for e in st('sigs'):
            if same(e[0], m) and same(e[2], r) and same(e[3], s) and dkey(red(e[1])) == dkey(p.d):
                return 1
        for (r2, s2, m2, rep, res) in st('ver'):
            if same(r, r2) and same(s, s2) and same(m, m2) and same(rep, p.rep):
                return 1 if bool_of(res == 1) else 0
        C = K.C
        res = C.fresh(0, 1, 'ecver')
        for e in st('sigs'):
            learn(Or(Not(And(e[0] == m, e[2] == r, e[3] == s, e[1] == p.rep)), res == 1))
        for (r2, s2, m2, rep, res2) in st('ver'):
            learn(Or(Not(And(r == r2, s == s2, m == m2, rep == p.rep)), res == res2))
        st('ver').append((r, s, m, p.rep, res))
        C.oracles.append(('ecver', (r, s, m, p.rep), res, None))
        return 1 if bool_of(res == 1) else 0

    def secp256k1_ecdsa_recover(self, ctx, pk, sig, msg):
        r, s, rid = sig.v
        m = be(take(msg, 32))
        if bool_of(Or(r == 0, s == 0)):
            return 0
        for e in st('sigs'):
            if same(e[0], m) and same(e[2], r) and same(e[3], s) and same(e[4], rid):
                pk.v = point(e[1], e[1])
                return 1
        for (r2, s2, rid2, m2, ok, p) in st('rec'):
            if same(r, r2) and same(s, s2) and same(rid, rid2) and same(m, m2):
                if bool_of(ok == 1):
                    pk.v = p
                    return 1
                return 0
        C = K.C
        ok = C.fresh(0, 1, 'ecrec')
        for e in st('sigs'):
            learn(Or(Not(And(e[0] == m, e[2] == r, e[3] == s, e[4] == rid)), ok == 1))
        if not bool_of(ok == 1):
            st('rec').append((r, s, rid, m, ok, None))
            C.oracles.append(('ecrec', (r, s, rid, m), None, None))
            return 0
        rep = C.fresh(1, N - 1, 'ecrecd')
        p = point(rep, rep)
        for e in st('sigs'):
            learn(Or(Not(And(e[0] == m, e[2] == r, e[3] == s, e[4] == rid)), e[1] == rep))
        for (r2, s2, rid2, m2, ok2, p2) in st('rec'):
            c = And(r == r2, s == s2, rid == rid2, m == m2)
            learn(Or(Not(c), And(ok2 == 1, p2.rep == rep)) if p2 is not None else Not(c))
        st('rec').append((r, s, rid, m, ok, p))
        if bool_of(s <= (N - 1) // 2):
            res = 1
            st('ver').append((r, s, m, rep, res))
        C.oracles.append(('ecrec', (r, s, rid, m), rep, None))
        pk.v = p
        return 1

    def secp256k1_ecdsa_recoverable_signature_parse_compact(self, ctx, sig, data, recid):
        data = take(data, 64) if len(need_bytes(data)) != 64 else need_bytes(data)
        if bool_of(Or(recid < 0, recid > 3)):
            raise K.Unsupported('libsecp256k1 argument check aborts')
        r, s = be(data[:32] if not isinstance(data, SymBytes) else data.slice(0, 32)), \
            be(data[32:] if not isinstance(data, SymBytes) else data.slice(32, 64))
        if bool_of(Or(r >= N, s >= N)):
            sig.v = (0, 0, 0)
            return 0
        sig.v = (r, s, recid)
        return 1

    def secp256k1_ecdsa_recoverable_signature_serialize_compact(self, ctx, out, recid, sig):
        r, s, rid = sig.v
        out.data = b32(r) + b32(s)
        recid.v = rid
        return 1

    def secp256k1_ecdsa_recoverable_signature_convert(self, ctx, sig, rec):
        sig.v = (rec.v[0], rec.v[1])
        return 1

    def secp256k1_ecdsa_signature_parse_compact(self, ctx, sig, data):
        data = take(data, 64)
        r, s = be(data[:32] if not isinstance(data, SymBytes) else data.slice(0, 32)), \
            be(data[32:] if not isinstance(data, SymBytes) else data.slice(32, 64))
        if bool_of(Or(r >= N, s >= N)):
            sig.v = (0, 0)
            return 0
        sig.v = (r, s)
        return 1

    def secp256k1_ecdsa_signature_serialize_compact(self, ctx, out, sig):
        r, s = sig.v
        out.data = b32(r) + b32(s)
        return 1

    def secp256k1_ecdsa_signature_serialize_der(self, ctx, out, size, sig):
        body = b''
        for v in sig.v:
            n = der_len(v)
            body = body + bytes([2, n]) + int_bytes(v, n)
        d = bytes([0x30, len(body)]) + body
        if len(d) > out.n:
            return 0
        size.v = len(d)
        out.data = d + bytes(out.n - len(d))
        return 1

    def secp256k1_ecdsa_signature_parse_der(self, ctx, sig, data, n):
        data = need_bytes(data)
        u = data.units() if isinstance(data, SymBytes) else list(data)
        u = u[:n]
        sig.v = (0, 0)
        r = der_parse(u, data if len(u) == len(data) else None)
        if r is None:
            return 0
        sig.v = r
        return 1


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        return a.key() == b.key()
    return type(a) is type(b) and a == b


def mulmod(s, t):
    if not isinstance(s, SymInt) or not isinstance(t, SymInt):
        return s * t % N
    # nonlinear: the product is an arbitrary value of the group, identified by its polynomial
    key = ('ecmul', dkey(red(s * t)))
    m = K.C.state.get(key)
    if m is None:
        m = K.C.fresh(1, N - 1, 'ecmul', evalf=lambda mod, a=s, b=t: K.C.pv(a.p, mod) * K.C.pv(b.p, mod) % N or 1)
        K.C.state[key] = m
        K.C.state.setdefault('ecmuls', {})[m.key()] = red(s * t)
    return m


_red0 = red


def red(x):     # noqa: F811
    """as above, with product atoms expanded"""
    r = _red0(x)
    if isinstance(r, SymInt):
        muls = K.C.state.get('ecmuls')
        if muls:
            acc = 0
            hit = False
            for m, c in r.p.items():
                t = c
                for i in m:
                    a = SymInt({(i,): 1})
                    e = muls.get(a.key())
                    if e is not None:
                        hit = True
                        t = t * e
                    else:
                        t = t * a
                acc = acc + t
            if hit:
                return _red0(acc)
    return r


def lift(x, par):
    """point with x coordinate x and y parity par, or None"""
    C = K.C
    for p in st('points'):
        if same(p.X, x):
            if bool_of(parity(p.Y) == par):
                return p
            return point(-p.d, N - p.rep)
    for bx in st('badx'):
        if same(bx, x):
            return None
    if isinstance(x, int):
        y = on_curve_x(x)
        if y is None:
            return None
        par = K.C.force(par) if isinstance(par, SymInt) else par
        if y & 1 != par:
            y = Pm - y
        rep = C.fresh(1, N - 1, 'ecd')
        return new_point(rep, rep, x, y)
    if bool_of(x >= Pm):
        return None
    if C.choose(2):
        for p in st('points'):
            learn(Not(p.X == x))
        st('badx').append(x)
        C.oracles.append(('ecbad', (x,), None, None))
        return None
    for bx in st('badx'):
        learn(Not(x == bx))
    rep = C.fresh(1, N - 1, 'ecd')
    h = C.fresh(0, (Pm - 1) // 2, 'ech')
    y = 2 * h + par
    learn(And(y >= 1, y <= Pm - 1))
    return new_point(rep, rep, x, y)


def lift_xy(x, y):
    C = K.C
    for p in st('points'):
        if same(p.X, x) and same(p.Y, y):
            return p
    for bx, by in st('badxy'):
        if same(bx, x) and same(by, y):
            return None
    if isinstance(x, int) and isinstance(y, int):
        if x >= Pm or y >= Pm or (x ** 3 + 7 - y * y) % Pm:
            return None
        rep = C.fresh(1, N - 1, 'ecd')
        return new_point(rep, rep, x, y)
    if bool_of(Or(x >= Pm, y >= Pm, y == 0)):
        return None
    for p in st('points'):
        if bool_of(p.X == x):
            if bool_of(p.Y == y):
                return p
            if bool_of(p.Y + y == Pm):
                return point(-p.d, N - p.rep)
            return None
    if C.choose(2):
        st('badxy').append((x, y))
        C.oracles.append(('ecbad2', (x, y), None, None))
        return None
    for bx, by in st('badxy'):
        learn(Not(And(x == bx, y == by)))
    rep = C.fresh(1, N - 1, 'ecd')
    return new_point(rep, rep, x, y)


# ---------------------------------------------------------------------------------------------- DER
def der_len(v):
    """number of content bytes of a DER integer 0 <= v < 2^256"""
    if isinstance(v, int):
        return v.bit_length() // 8 + 1
    for n in range(33, 0, -1):
        if n == 1 or bool_of(v >= 1 << (8 * n - 9)):
            return n


def int_bytes(v, n):
    if isinstance(v, int):
        return v.to_bytes(n, 'big')
    return v.to_bytes(n, 'big') if n < 33 else b'\0' + b32(v)


def der_readlen(u, i):
    if i >= len(u):
        return None
    b1 = u[i]
    i += 1
    if bool_of(b1 < 128):
        n = K.C.force(b1, limit=200) if isinstance(b1, SymInt) else b1
        return n, i
    if bool_of(Or(b1 == 255, b1 == 128)):
        return None
    left = b1 & 127
    if bool_of(left > len(u) - i):
        return None
    left = K.C.force(left, limit=200) if isinstance(left, SymInt) else left
    if bool_of(u[i] == 0):
        return None
    if left > 8:
        return None
    n = 0
    for _ in range(left):
        n = n * 256 + u[i]
        i += 1
    if bool_of(n > len(u) - i):
        return None
    if bool_of(n < 128):
        return None
    n = K.C.force(n, limit=200) if isinstance(n, SymInt) else n
    return n, i


def der_int(u, i, data):
    if i == len(u) or not bool_of(u[i] == 2):
        return None
    r = der_readlen(u, i + 1)
    if r is None:
        return None
    n, i = r
    if n == 0 or i + n > len(u):
        return None
    end = i + n
    if n > 1 and bool_of(And(u[i] == 0, u[i + 1] < 128)):
        return None
    if n > 1 and bool_of(And(u[i] == 255, u[i + 1] >= 128)):
        return None
    if bool_of(u[i] >= 128):
        return 0, end
    if bool_of(u[i] == 0):
        i += 1
        n -= 1
    if n > 32:
        return 0, end
    if n == 0:
        return 0, end
    if isinstance(data, SymBytes):
        v = be(data.slice(i, end))
    else:
        v = 0
        for x in u[i:end]:
            v = v * 256 + x
    if bool_of(v >= N):
        return 0, end
    return v, end


def der_parse(u, data):
    if not u or not bool_of(u[0] == 0x30):
        return None
    r = der_readlen(u, 1)
    if r is None:
        return None
    n, i = r
    if n != len(u) - i:
        return None
    r = der_int(u, i, data)
    if r is None:
        return None
    rv, i = r
    r = der_int(u, i, data)
    if r is None:
        return None
    sv, i = r
    if i != len(u):
        return None
    return rv, sv


def head(x):
    return mkbytes([[x]]) if isinstance(x, SymInt) else bytes([x])


class ImportLib:
    """answers of the library while modules are imported (no symbolic run active)"""


def module():
    m = types.ModuleType('electrumsv_secp256k1')
    m.create_context = lambda *a: object()
    m.ffi = FFI()
    m.lib = Lib()
    return m
