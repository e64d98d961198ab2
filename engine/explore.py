"""Path exploration: runs a harness on symbolic inputs, one path per execution."""
import signal
import time
import traceback
import z3
from . import core as K
from .fresh import Fresh
from .core import SymInt, SymBool, And, Or, Not, Ctx, Control, Infeasible, PathEnd, Unsupported
from . import sbytes as B
from .sbytes import SymBytes, SymStr, SymSeq, Word, mkbytes, mkstr

# alphabet for text inputs: all ASCII plus code points with unusual digit/space/case/normalisation behaviour
SPECIAL = [0x85, 0xa0, 0xb2, 0xb5, 0xdf, 0xe9, 0x130, 0x131, 0x17f, 0x660, 0x663, 0x966, 0x2028, 0x212a, 0x2460, 0x3000, 0xff11,
           0xff41, 0xd800, 0x1d7ce, 0x1f600]
ALPHA = tuple(list(range(128)) + SPECIAL)


HASHES = ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'ripemd160', 'md5', 'hmac', 'pbkdf2', 'aesenc', 'aesdec')


class Sym:
    """The S object of symbolic runs."""
    symbolic = True

    def __init__(self, ctx):
        self.C = ctx
        self.nraw = 0

    # ---- inputs
    def _in(self, name, kind, val):
        assert name not in self.C.inputs, name
        self.C.inputs[name] = (kind, val)
        self.C.input_order.append(name)
        return val

    def int(self, name, lo=None, hi=None):
        return self._in(name, 'int', self.C.fresh(lo, hi, 'i_' + name))

    def bool(self, name):
        v = self.C.fresh(0, 1, 'b_' + name)
        self._in(name, 'bool', v)
        return v == 1

    def bytes(self, name, n, word=None):
        if n == 0:
            v = b''
        elif word == 'bits':
            v = mkbytes([[self._bits('%s_%d' % (name, i), 8) for i in range(n)]])
        elif word and n > 1:
            v = mkbytes([Word(self.C.fresh(0, (1 << 8 * n) - 1, 'w_' + name), n, word)])
        else:
            v = mkbytes([[self.C.fresh(0, 255, '%s_%d' % (name, i)) for i in range(n)]])
        return self._in(name, 'bytes', v)

    def _bits(self, name, w):
        return K.mkbits([(frozenset((self.C.bvar('%s_b%d' % (name, i)),)), 0) for i in range(w)])

    def bits(self, name, w):
        """integer 0 <= v < 2**w represented by its bits (for code that works by shifts and xor)"""
        return self._in(name, 'int', self._bits(name, w))

    def int_bytes(self, name, value, n, order='big'):
        return value.to_bytes(n, order)

    def blob(self, name, lo, hi):
        """byte string of symbolic length lo..hi"""
        n = self.C.fresh(lo, hi, 'len_' + name)
        base = B.Base(name)
        v = SymBytes([B.Slice(base, 0, n)]) if isinstance(n, SymInt) or n else b''
        return self._in(name, 'blob', v)

    def str(self, name, n, alphabet=None):
        if alphabet is None:
            al = ALPHA
        else:
            al = tuple(ord(c) if isinstance(c, str) else c for c in alphabet)
        u = []
        for i in range(n):
            x = self.C.fresh(0, len(al) - 1, '%s_%d' % (name, i))
            u.append(K.table_get(al, x) if isinstance(x, SymInt) else al[x])
        # keep provenance even for the identity part
        out = []
        for i, x in enumerate(u):
            out.append(x)
        return self._in(name, 'str', mkstr(out) if not all(isinstance(x, int) for x in out) else ''.join(map(chr, out)))

    def choice(self, name, seq):
        seq = list(seq)
        k = self.C.choose(len(seq))
        self.C.choices[name] = k
        return seq[k]

    def flag(self, name):
        return self.choice(name, [False, True])

    def draw(self, kind, n):
        i = self.C.state.get('draws', 0)
        self.C.state['draws'] = i + 1
        nm = '%s_%d' % (kind, i)
        f = self.C.opts.get('drawfn')
        b = f(self, i, n) if f else self.bytes(nm, n, word='big')
        self.C.state.setdefault('drawn', []).append(b)
        return b

    def drawn(self):
        """the bytes handed out by the default randomness source so far"""
        return list(self.C.state.get('drawn', []))

    # ---- files
    def file(self, name):
        """path of a scratch file (not created)"""
        from . import fs
        return fs.ROOT + name

    def file_bytes(self, path):
        from . import fs
        f = fs.fs().files.get(path)
        return None if f is None else f.read(0, f.size)

    def file_synced(self, path):
        """the part of the file that a failure of the machine leaves for sure (None if nothing)"""
        from . import fs
        f = fs.fs().files[path].disk
        return None if f is None else f.read(0, f.size)

    def file_set(self, path, data):
        from . import fs
        f = fs.fs().files[path] = fs.File()
        f.write(0, data)

    def file_remove(self, path):
        from . import fs
        fs.fs().files.pop(path, None)

    def crashing(self, fn, k, j=0):
        from . import fs
        return fs.fs().crashing(fn, k, j)

    # ---- conditions
    def assume(self, c):
        self.C.assume(c)

    def reach(self, label):
        self.C.reached.add(label)

    def observe(self, name, v):
        self.C.obs.append((name, v))

    def check(self, cond, label):
        C = self.C
        C.reached.add('check:' + label)
        C.checks += 1
        if isinstance(cond, SymBool):
            cond = cond.simp()
        if not isinstance(cond, SymBool):
            if cond:
                C.triv += 1
                return True
            self._candidate(None, label)
            raise PathEnd('check failed')
        if C.pos < len(C.prefix):
            C.assume_raw(cond)
            return True
        neg = cond.neg()
        C.prequery = True
        g = C.gf2_sat(neg) if C.model is not None else None
        r = z3.unsat if g is False else C.check(neg.z3())
        if r != z3.unsat and C.flush_lazy():
            r = C.check(neg.z3())
        if r == z3.sat:
            saved = C.model
            C.model = C.extract()
            self._candidate(neg, label)
            C.model = saved
            r2 = C.check(cond.z3())
            if r2 == z3.unsat:
                raise PathEnd('check failed')
        elif r == z3.unknown:
            C.unknowns.append('check ' + label)
        C.assume_raw(cond)
        return True

    def check_eq(self, a, b, label):
        from . import rt
        ta, tb = rt.pytype(a), rt.pytype(b)
        bl = (bytes, bytearray, memoryview)
        if not (ta is tb or (ta in bl and tb in bl) or (issubclass(ta, int) and issubclass(tb, int))):
            r = rt.eq(a, b)
            return self.check(r if isinstance(r, (bool, SymBool)) else bool(r), label)
        if isinstance(a, SymBytes) or isinstance(b, SymBytes):
            return self._check_bytes(a, b, label)
        r = rt.eq(a, b)
        return self.check(r if isinstance(r, (bool, SymBool)) else bool(r), label)

    def _check_bytes(self, a, b, label):
        la = a.length() if isinstance(a, SymBytes) else len(a)
        lb = b.length() if isinstance(b, SymBytes) else len(b)
        self.check(la == lb, label + ' (length)')
        return self.check(B.sb_eq(a, b), label)

    def fail(self, label):
        self.check(False, label)

    # ---- calls
    def attempt(self, fn, *a, **k):
        """(True, value) or (False, exception)"""
        from . import rt
        try:
            return True, rt.call(fn, *a, **k)
        except Exception as e:
            return False, e

    def ok(self, label, fn, *a, **k):
        """value of fn(*a); any exception is a violation"""
        from . import rt
        try:
            return rt.call(fn, *a, **k)
        except Exception as e:
            self.C.state['exc'] = ''.join(traceback.format_exception(e)[-6:])
            self.check(False, label + ': raised ' + type(e).__name__)

    def raises(self, label, types, fn, *a, **k):
        """fn(*a) must raise one of types"""
        from . import rt
        try:
            v = rt.call(fn, *a, **k)
        except types as e:
            self.C.reached.add('check:' + label)
            return e
        except Exception as e:
            self.C.state['exc'] = ''.join(traceback.format_exception(e)[-6:])
            self.check(False, label + ': raised ' + type(e).__name__)
        else:
            self.check(False, label + ': returned')
            return v

    def isa(self, e, types):
        return isinstance(e, types)

    def mulmod(self, a, b):
        """product modulo the secp256k1 group order"""
        from . import ec
        return ec.mulmod(a, b)

    # ---- candidates
    def _candidate(self, neg, label, exc=None):
        C = self.C
        if len(C.violations) >= 3:
            return
        if neg is None:
            C.flush_lazy()
            if not C.need_model():
                C.unknowns.append('violation ' + label)
                return
            C.model = dict(C.model)
        cands = []
        m0 = C.model
        # try to make the hash/oracle calls agree with the real functions
        if C.oracles and C.opts.get('cegar', True):
            m1 = self._pin(neg)
            if m1 is not None:
                C.model = m1
                cands.append(self.record(label, True))
            C.model = m0
            # or at least the curve arithmetic, with hash answers taken from a table in the replay
            if any(o[0].startswith('ec') for o in C.oracles) and any(o[0].split('_')[0] in HASHES for o in C.oracles):
                m1 = self._pin(neg, HASHES)
                if m1 is not None:
                    C.model = m1
                    cands.append(self.record(label, False))
        C.model = m0
        cands.append(self.record(label, not C.oracles))
        C.violations.append(dict(label=label, cands=cands, exc=exc or C.state.get('exc')))

    def _pin(self, neg, free=()):
        """model in which every oracle answer (other than those of the functions in free) is what the real function returns
        (None if not found)"""
        from . import real
        C = self.C
        s = C.solver
        C.flush_defs()
        C.newdefs = []
        s.push()
        saved = C.model
        t0 = time.time()
        try:
            if neg is not None:
                C.add(neg.z3())
            for (name, args, out, ol) in list(C.oracles):
                if name.startswith('hash:') or name.split('_')[0] in free:
                    continue
                if time.time() - t0 > 60:
                    return None
                if name == 'ec' and not isinstance(out[0], SymInt):
                    continue
                for attempt in range(12):
                    vals = [evb(C, a) for a in args]
                    if name in ('ecbad', 'ecbad2'):
                        if real.off_curve(vals):
                            break
                        C.add(z3.Or([K.tosym(a).z3() != v for a, v in zip(args, vals) if isinstance(a, SymInt)] or [z3.BoolVal(False)]))
                        C.flush_defs()
                        if s.check() != z3.sat:
                            return None
                        C._m = s.model()
                        C.model = C.extract()
                    else:
                        break
                else:
                    return None
                if name in ('ecbad', 'ecbad2'):
                    rv, cs = None, []
                else:
                    rv = real.call(name, vals, ol)
                    if rv is real.UNKNOWN:
                        return None
                    cs = []
                    if rv is None and out is not None or rv is not None and out is None:
                        return None
                    if isinstance(out, tuple):
                        cs = [eqc(o, v) for o, v in zip(out, rv)]
                    elif out is not None:
                        cs = [eqc(out, rv)]
                cs += [eqc(a, v) for a, v in zip(args, vals)]
                for c in cs:
                    if isinstance(c, SymBool):
                        c = c.simp()
                    if c is False:
                        return None
                    if isinstance(c, SymBool):
                        C.add(c.z3())
                C.flush_defs()
                if s.check() != z3.sat:
                    return None
                C._m = s.model()
                C.model = C.extract()
            return C.model
        finally:
            s.pop()
            for e in C.newdefs:
                s.add(e)
            C.model = saved

    def record(self, label, consistent):
        C = self.C
        ins = {}
        for n in C.input_order:
            kind, v = C.inputs[n]
            ins[n] = enc(C, kind, v)
        orc = [] if consistent else [[name, [jv(C, a) for a in args], jv(C, out)] for (name, args, out, ol) in C.oracles]
        return dict(label=label, inputs=ins, choices=dict(C.choices), oracles=orc, consistent=consistent,
                    facts=C.state.get('record_extra', lambda: None)() if callable(C.state.get('record_extra')) else None)


def jv(C, x):
    v = evb(C, x) if not isinstance(x, tuple) else tuple(jv(C, y) for y in x)
    return bytes(v).hex() if isinstance(v, (bytes, bytearray)) else v


def eqc(a, v):
    if isinstance(a, (SymBytes, bytes)):
        return B.sb_eq(a, v)
    return a == v


def evi(C, x):
    if isinstance(x, SymInt):
        return C.pv(x.p, C.model)
    if isinstance(x, SymBool):
        return bool(x.ev())
    return x


def evb(C, v):
    """evaluate bytes/int under the current model"""
    if isinstance(v, (SymInt, SymBool)):
        return evi(C, v)
    if isinstance(v, SymBytes):
        out = bytearray()
        for s in v.segs:
            if type(s) is list:
                out += bytes(evi(C, x) for x in s)
            elif isinstance(s, Word):
                out += evi(C, s.v).to_bytes(s.n, s.order)
            else:
                n = evi(C, s.n)
                off = evi(C, s.off)
                out += blob_bytes(C, s.base, off, n)
        return bytes(out)
    return v


def blob_bytes(C, base, off, n):
    m = C.model.get('z3')
    known = {}
    for k, r in base.memo.items():
        idx = k if isinstance(k, int) else C.pv(dict(k), C.model)
        known[idx] = evi(C, r)
    if n > 50_000_000:
        raise MemoryError('blob too long')
    default = 0
    data = bytearray(n)
    if m is not None and n <= 4096:
        for i in range(n):
            v = m.eval(z3.Select(base.arr, z3.IntVal(off + i)), model_completion=True)
            try:
                data[i] = v.as_long() % 256
            except Exception:
                data[i] = default
    elif n:
        pat = bytes(range(1, 252))
        data = bytearray((pat * (n // len(pat) + 1))[:n])
    for i, v in known.items():
        if off <= i < off + n:
            data[i - off] = v
    return bytes(data)


def enc(C, kind, v):
    if kind == 'int':
        return ['int', evi(C, v)]
    if kind == 'bool':
        return ['bool', evi(C, v)]
    if kind in ('bytes', 'blob'):
        return ['bytes', evb(C, v).hex()]
    if kind == 'str':
        if isinstance(v, str):
            return ['str', [ord(c) for c in v]]
        return ['str', [evi(C, x) for x in v.units()]]
    raise AssertionError(kind)


def enc_obs(C, v, depth=3):
    """JSON-able canonical rendering of an observation"""
    from . import rt
    if isinstance(v, SymBool):
        return bool(evi(C, v))
    if isinstance(v, SymInt):
        return evi(C, v)
    if isinstance(v, SymBytes):
        return 'b:' + evb(C, v).hex()
    if isinstance(v, SymStr):
        return 's:' + ''.join(chr(evi(C, x)) for x in v.units())
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return 'b:' + bytes(v).hex()
    if isinstance(v, str):
        return 's:' + v
    if v is None:
        return None
    if isinstance(v, BaseException) or isinstance(v, type):
        return 'x:' + (v if isinstance(v, type) else type(v)).__name__
    if isinstance(v, (list, tuple)) and depth:
        return [enc_obs(C, x, depth - 1) for x in v]
    return 'o:' + rt.pytype(v).__name__


def _stop(*_):
    raise PathEnd('deadline')


FRESH = [None]


def run_path(h, case, prefix, opts):
    if FRESH[0] is None:
        FRESH[0] = Fresh('bitcoinx')
    FRESH[0].restore()
    C = Ctx(prefix, opts)
    K.set_ctx(C)
    S = Sym(C)
    C.harness = S
    C.deadline = opts.get('deadline')
    status = 'done'
    err = None
    # code that runs on without asking the solver anything is stopped as well
    lim = opts.get('path_limit', 200)
    if C.deadline:
        lim = max(1, min(lim, C.deadline + 2 - time.time()))
    try:
        try:
            signal.signal(signal.SIGALRM, _stop)
            signal.setitimer(signal.ITIMER_REAL, lim, 5)
            h.fn(S, **case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except MemoryError:
        status = 'ended'
        C.partial.append('memory')
    except Infeasible:
        status = 'infeasible'
    except PathEnd as e:
        status = 'ended' if str(e) != 'deadline' else 'deadline'
    except Unsupported as e:
        status = 'unsupported'
        err = '%s [%s]' % (e, where(e))
    except Exception as e:
        status = 'exception'
        err = ''.join(traceback.format_exception(e)[-8:])
        try:
            S._candidate(None, 'uncaught ' + type(e).__name__, exc=err)
        except Control:
            status = 'infeasible'
    return C, S, status, err


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/engine/' not in f.filename:
            return '%s:%d' % (f.filename.split('/')[-1], f.lineno)
    return '?'


def run_task(h, case, prefixes, opts, budget, sample=4):
    t0 = time.time()
    stack = list(prefixes)
    res = dict(paths=0, statuses={}, decisions=0, queries=0, solver_s=0.0, checks=0, triv=0, unknowns=[], partial=[],
               violations=[], reached=set(), funcs=set(), samples=[], unsupported=[], probes=[], feasible=0)
    while stack and time.time() - t0 < budget:
        prefix = stack.pop()
        C, S, status, err = run_path(h, case, prefix, opts)
        res['paths'] += 1
        res['statuses'][status] = res['statuses'].get(status, 0) + 1
        res['decisions'] += len(C.decisions) - len(prefix) + 1
        res['checks'] += C.checks
        res['triv'] += C.triv
        res['unknowns'] += C.unknowns[:5]
        res['partial'] += [p for p in C.partial[:5]]
        for p in C.pending:
            stack.append(p)
        if status == 'infeasible':
            res['queries'] += C.queries
            res['solver_s'] += C.solver_s
            continue
        for v in C.violations:
            v['decisions'] = len(C.decisions)
            res['violations'].append(v)
        # end-of-path feasibility (vacuity) and samples for translation validation
        try:
            feas = None
            if not C.violations or status == 'done':
                feas = C.need_model()
            if feas:
                res['feasible'] += 1
                res['reached'] |= C.reached
                if status == 'done' and len(res['samples']) < sample and not C.partial:
                    C.flush_lazy()
                    if not C.need_model():
                        continue
                    pure = not C.oracles
                    if any(o[0].startswith('ec') for o in C.oracles):
                        m = S._pin(None)
                        if m is None:
                            res['unpinned'] = res.get('unpinned', 0) + 1
                            continue
                        C.model = m
                        pure = True
                    rec = S.record('', pure)
                    rec['obs'] = [[n, enc_obs(C, v)] for n, v in C.obs]
                    res['samples'].append(rec)
                elif (status in ('unsupported', 'deadline') or C.partial or C.unknowns) and len(res['probes']) < 8:
                    res['probes'].append(S.record('probe', not C.oracles))
        except Infeasible:
            res['statuses']['infeasible_end'] = res['statuses'].get('infeasible_end', 0) + 1
        except (Control, MemoryError, ValueError, OverflowError):
            pass
        if status == 'unsupported':
            res['unsupported'].append(err)
        if status == 'exception' and not C.violations:
            res['unsupported'].append('exception without model: ' + str(err)[-300:])
        if status == 'deadline':
            res['unknowns'].append('deadline')
        res['queries'] += C.queries
        res['solver_s'] += C.solver_s
        res['funcs'] |= C.funcs
        if len(res['violations']) >= 6:
            break
    res['stack'] = stack
    res['wall'] = time.time() - t0
    K.set_ctx(None)
    return res
