"""Terms, path state and solver interface of the symbolic executor.

Integers are polynomials over z3 Int atoms (SymInt), conditions are SymBool.  All state is per path: a path is
re-executed from the start with a recorded list of decisions, so a context (Ctx) lives for one path only.
"""
import math
import time
import z3

INF = None


class Control(BaseException):
    """Internal control flow; never caught by code under test (it catches Exception at most)."""


class Infeasible(Control):
    pass


class PathEnd(Control):
    pass


class Unsupported(Control):
    """The encoding cannot represent this operation; the path is undecided."""


class Yield(Control):
    pass


C = None          # current context


def set_ctx(c):
    global C
    C = c


# ------------------------------------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'expr', 'lo', 'hi', 'evalf', 'name', 'gf2', 'is_const', 'defs')

    def __init__(self, id, expr, lo, hi, evalf, name, gf2=None, is_const=True):
        self.id = id
        self.expr = expr
        self.lo = lo
        self.hi = hi
        self.evalf = evalf
        self.name = name
        self.gf2 = gf2
        self.is_const = is_const
        self.defs = None


def _iadd(a, b):
    return None if a is None or b is None else a + b


class Ctx:
    def __init__(self, prefix=(), opts=None):
        self.opts = opts
        self.atoms = []
        self.facts = {}
        self.divmemo = {}
        self.quot = {}
        self.mono = {}           # atom id -> ('q', y, d): floor(y/d); ('bl', y, None): bit length of y >= 0
        self.todefs = []
        self.newdefs = []
        self.forms = {}          # GF(2) forms (frozenset of variables) known to the solver -> z3 boolean
        self.formvs = []         # the independent ones
        self.formexpr = []       # their z3 booleans
        self.ech = {}            # echelon system over bit variables and forms: pivot -> (variables, forms/constant) bit masks
        self.ydeps = []          # linear dependencies between forms not yet given to the solver
        self.bitmemo = {}
        self.gf2atom = {}
        self.gf2basis = {}       # pivot -> (frozenset, const)
        self.bvars = []          # z3 Bool for gf2 variables
        self.bvar_eval = []
        self.tabmemo = {}
        self.itememo = {}
        self.nexpr = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('timeout_ms', 10000) if opts else 10000)
        self.model = {}          # python model of atoms: id -> value ; or None when unknown
        self.bmodel = {}
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.pending = []        # alternative prefixes discovered
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = []
        self.partial = []
        self.obs = []
        self.inputs = {}         # name -> spec for concretisation
        self.input_order = []
        self.oracles = []        # oracle call log
        self.oracle_idx = {}
        self.violations = []
        self.reached = set()
        self.checks = 0
        self.triv = 0
        self.funcs = set()
        self.constraints = []    # SymBool list (all assumed)
        self.lazy = []           # consistency facts of oracles, asserted only when a candidate violation needs them
        self.strconst = 0
        self.arrs = 0
        self.deadline = None
        self.extra_model = None
        self.steps = 0
        self.state = {}          # for stubs
        self.choices = {}

    # ---- atoms
    def atom(self, lo, hi, name=None, evalf=None, expr=None, gf2=None, defs=None):
        """defs: function giving the z3 definition of the atom, asserted only once the atom reaches the solver"""
        i = len(self.atoms)
        const = expr is None
        if const:
            expr = z3.Int(name or 'v%d' % i)
            if defs is None:
                if lo is not None:
                    self.solver.add(expr >= lo)
                if hi is not None:
                    self.solver.add(expr <= hi)
        a = Atom(i, expr, lo, hi, evalf, name or 'v%d' % i, gf2, const)
        if defs is not None:
            def full(lo=lo, hi=hi):
                return [defs()] + ([expr >= lo] if lo is not None else []) + ([expr <= hi] if hi is not None else [])
            a.defs = full
        self.atoms.append(a)
        return a

    def fresh(self, lo, hi, name=None, evalf=None, defs=None):
        if lo is not None and lo == hi:
            return lo
        a = self.atom(lo, hi, name, evalf, None, None, defs)
        return SymInt({(a.id,): 1})

    def ex(self, i):
        a = self.atoms[i]
        if a.gf2 is not None and type(a.expr) is int:
            a.expr = z3.If(gf2_expr(self, a.gf2[0]), z3.IntVal(1), z3.IntVal(0))
        elif callable(a.expr):
            a.expr = a.expr()
        if a.defs is not None:
            self.todefs.append(a.defs)
            a.defs = None
        return a.expr

    def flush_defs(self):
        while self.todefs:
            for e in self.todefs.pop()():
                self.solver.add(e)
                self.newdefs.append(e)
        while self.ydeps:
            e = z3.Not(self.ysum(self.ydeps.pop()))
            self.solver.add(e)
            self.newdefs.append(e)

    # ---- the linear system: variables are eliminated here, the solver sees only forms and the dependencies between them
    def ech_reduce(self, m, y, extra=None):
        ech = self.ech
        while m:
            v = m & -m
            r = ech.get(v)
            if r is None and extra is not None:
                r = extra.get(v)
            if r is None:
                break
            m ^= r[0]
            y ^= r[1]
        return m, y

    def ech_add(self, m, y):
        m, y = self.ech_reduce(m, y)
        if m:
            self.ech[m & -m] = (m, y)
        elif y:
            self.ydeps.append(y)

    def form(self, vs):
        """z3 boolean of the sum of variables"""
        e = self.forms.get(vs)
        if e is None:
            one = min(vs) if len(vs) == 1 else None
            if one is None:
                for v in vs:
                    if self.bvar_eval[v] is not None:
                        self.form(frozenset((v,)))
            m, y = self.ech_reduce(mask(vs), 0)
            if m or one is not None and self.bvar_eval[one] is not None:
                k = len(self.formexpr)
                e = self.bvars[one] if one is not None else z3.Bool('form%d' % k)
                self.formvs.append(vs)
                self.formexpr.append(e)
                self.ech_add(m, y ^ (2 << k))
            else:
                e = self.ysum(y)
            self.forms[vs] = e
        return e

    def ysum(self, y):
        es = [self.formexpr[k] for k in range(y.bit_length() - 1) if y >> (k + 1) & 1]
        e = z3.BoolVal(bool(y & 1)) if y & 1 or not es else es.pop()
        for x in es:
            e = z3.Xor(e, x)
        return e

    def gf2_solve(self, vals, yv):
        """complete bit values: forms have values yv(k), free variables vals(i)"""
        out = {}
        ycache = {}

        def ysum(y):
            t = y & 1
            y >>= 1
            while y:
                b = y & -y
                k = b.bit_length() - 1
                if k not in ycache:
                    ycache[k] = yv(k)
                t ^= ycache[k]
                y ^= b
            return t
        acc = 0
        for i in range(len(self.bvars) - 1, -1, -1):
            r = self.ech.get(1 << i)
            if r is None:
                if self.bvar_eval[i] is not None:   # in no equation: computed from its operands when asked for
                    continue
                v = vals(i)
            else:
                v = ((r[0] & ~(1 << i) & acc).bit_count() & 1) ^ ysum(r[1])
            out[('b', i)] = v
            if v:
                acc |= 1 << i
        return out

    def add(self, e):
        self.flush_defs()
        self.solver.add(e)

    # ---- gf2 variables
    def bvar(self, name=None, evalf=None, expr=None):
        i = len(self.bvars)
        self.bvars.append(expr if expr is not None else z3.Bool(name or 'bit%d' % i))
        self.bvar_eval.append(evalf)
        return i

    def gf2_int(self, form):
        """SymInt 0/1 for a gf2 form (frozenset vars, const)"""
        vs, c = self.gf2_reduce(form)
        if not vs:
            return c
        a = self.gf2atom.get((vs, 0))
        if a is None:
            a = self.atom(0, 1, evalf=lambda m, vs=vs: gf2_ev(self, vs, 0, m), expr=0, gf2=(vs, 0))
            self.gf2atom[(vs, 0)] = a
        s = SymInt({(a.id,): 1})
        return s if c == 0 else 1 - s

    def gf2_reduce(self, form):
        vs, c = form
        if not self.gf2basis or not vs:
            return form
        changed = True
        while changed:
            changed = False
            for v in vs:
                r = self.gf2basis.get(v)
                if r is not None:
                    vs = vs ^ r[0]
                    c ^= r[1]
                    changed = True
                    break
        return vs, c

    # ---- ranges
    def poly_range(self, p):
        lo = hi = 0
        for m, c in p.items():
            if not m:
                lo = _iadd(lo, c)
                hi = _iadd(hi, c)
                continue
            ml, mh = self.mono_range(m)
            if c < 0:
                ml, mh = mh, ml
            lo = None if (lo is None or ml is None) else lo + ml * c
            hi = None if (hi is None or mh is None) else hi + mh * c
        return lo, hi

    def mono_range(self, m):
        a = self.atoms[m[0]]
        if len(m) == 1:
            q = self.mono.get(m[0])
            if q is not None:
                lo, hi = q[1].rng()
                if q[0] == 'q':
                    if lo is not None and (a.lo is None or lo // q[2] > a.lo):
                        a.lo = lo // q[2]
                    if hi is not None and (a.hi is None or hi // q[2] < a.hi):
                        a.hi = hi // q[2]
                else:
                    if lo is not None and lo > 0 and lo.bit_length() > a.lo:
                        a.lo = lo.bit_length()
                    if hi is not None and hi >= 0 and hi.bit_length() < a.hi:
                        a.hi = hi.bit_length()
            return a.lo, a.hi
        lo, hi = a.lo, a.hi
        for i in m[1:]:
            b = self.atoms[i]
            if lo is None or b.lo is None or lo < 0 or b.lo < 0:
                if None in (lo, hi, b.lo, b.hi):
                    return None, None
                c = [lo * b.lo, lo * b.hi, hi * b.lo, hi * b.hi]
                lo, hi = min(c), max(c)
            else:
                lo = lo * b.lo
                hi = None if hi is None or b.hi is None else hi * b.hi
        return lo, hi

    # ---- z3 of normalised polynomial
    def z3poly(self, p):
        terms = []
        k = 0
        for m, c in p.items():
            if not m:
                k = c
                continue
            e = self.ex(m[0])
            for i in m[1:]:
                e = e * self.ex(i)
            terms.append(e if c == 1 else e * z3.IntVal(c))
        if k or not terms:
            terms.append(z3.IntVal(k))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    # ---- model evaluation
    def av(self, i, m):
        v = m.get(i)
        if v is None:
            a = self.atoms[i]
            if a.evalf is not None:
                v = a.evalf(m)
            else:
                v = a.lo if a.lo is not None else (min(a.hi, 0) if a.hi is not None else 0)
            m[i] = v
        return v

    def bv(self, i):
        return self.bval(i, self.model)

    def bval(self, i, m):
        v = m.get(('b', i))
        if v is None:
            f = self.bvar_eval[i]
            v = f(m) if f is not None else 0
            m[('b', i)] = v
        return v

    def pv(self, p, m):
        t = 0
        for mono, c in p.items():
            for i in mono:
                c *= self.av(i, m)
            t += c
        return t

    # ---- assertion of facts
    def assume_raw(self, sb):
        """Add sb (SymBool) to the path condition without feasibility check."""
        self.constraints.append(sb)
        pure = pure_gf2(sb)
        if not pure:
            self.add(sb.z3())
        old = self.model
        if self.model is not None:
            try:
                ok = sb.ev()
            except NoEval:
                ok = False
            if not ok:
                self.model = None
        sb.learn(self)
        if pure and old is not None and self.model is None:
            self.model = self.gf2_model(old)

    def gf2_model(self, old):
        """the model old with its bit variables moved into the GF(2) system, the solver's forms kept as they are"""
        rev = self.formvs

        def yv(k):
            t = 0
            for v in rev[k]:
                x = old.get(('b', v))
                if x is None:
                    x = self.bval(v, old)
                t ^= x
            return t
        for y in self.ydeps:
            t = y & 1
            y >>= 1
            k = 0
            while y:
                if y & 1:
                    t ^= yv(k)
                y >>= 1
                k += 1
            if t:
                return None
        m = {k: v for k, v in old.items() if k == 'z3' or (isinstance(k, int) and self.atoms[k].is_const and self.atoms[k].evalf is None)}
        m.update(self.gf2_solve(lambda i: self.bval(i, old), yv))
        return m

    def gf2_consistent(self, sbs):
        """do these gf2 conditions have a common solution together with the constraints? None: only the solver can tell"""
        extra = {}
        ask = False
        for sb in sbs:
            m, y = self.ech_reduce(mask(sb.a), sb.b, extra)
            if m:
                extra[m & -m] = (m, y)
            elif y == 1:
                return False
            elif y:
                ask = True
        return None if ask else True

    def gf2_sat(self, sb):
        """feasibility of a linear condition; None if it is not one or only the solver can tell"""
        if pure_gf2(sb):
            return self.gf2_consistent([sb] if sb.k == 'gf2' else sb.a)
        if sb.k == 'or' and all(x.k == 'gf2' for x in sb.a):
            rs = [self.gf2_consistent([x]) for x in sb.a]
            return True if True in rs else None if None in rs else False
        return None

    def flush_lazy(self):
        if not self.lazy:
            return False
        l, self.lazy = self.lazy, []
        for sb in l:
            self.assume_raw(sb)
        return True

    def define(self, expr_sb):
        """Constraint that holds by construction of fresh atoms having evalf definitions."""
        self.constraints.append(expr_sb)
        self.add(expr_sb.z3())
        if self.model is not None:
            try:
                if not expr_sb.ev():
                    self.model = None
            except NoEval:
                self.model = None

    def check(self, *extra):
        self.queries += 1
        t = time.time()
        if self.deadline and t > self.deadline:
            raise PathEnd('deadline')
        self.flush_defs()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        try:
            r = self.solver.check()
            if r == z3.sat:
                self._m = self.solver.model()
            elif r == z3.unknown:
                if self.opts.get('retry', True):
                    s2 = z3.SolverFor(self.opts['logic']) if self.opts.get('logic') else z3.Tactic('default').solver()
                    s2.set('timeout', self.opts.get('retry_ms', 20000))
                    s2.add(self.solver.assertions())
                    r = s2.check()
                    if r == z3.sat:
                        self._m = s2.model()
        finally:
            if extra:
                self.solver.pop()
            self.solver_s += time.time() - t
        return r

    def extract(self):
        """python model from the last sat z3 model"""
        m = self._m
        out = {}
        for a in self.atoms:
            if a.is_const:
                v = m[a.expr]
                if v is not None:
                    out[a.id] = v.as_long()
        if self.bvars:
            out.update(self.gf2_solve(lambda i: self.bval(i, out), lambda k: 1 if z3.is_true(m.eval(self.formexpr[k], True)) else 0))
        out['z3'] = m
        return out

    def need_model(self):
        """Make sure self.model is a model of the path condition; raise Infeasible if none."""
        if self.model is not None:
            return True
        r = self.check()
        if r == z3.sat:
            self.model = self.extract()
            return True
        if r == z3.unsat:
            raise Infeasible()
        self.unknowns.append('path feasibility')
        return False

    # ---- branching
    def decide(self, sb):
        """Return a Python bool for a SymBool, forking if both outcomes are feasible."""
        sb = sb.simp()
        if sb is True or sb is False:
            return sb
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            take = bool(d)
            self.assume_raw(sb if take else sb.neg())
            return take
        self.steps += 1
        if self.steps > self.opts.get('max_steps', 20000):
            self.partial.append('decision limit')
            raise PathEnd('decision limit')
        have = self.need_model()
        nsb = sb.neg()
        val = None
        if have:
            try:
                val = bool(sb.ev())
            except NoEval:
                val = None
        if val is None:
            r = self.check(sb.z3())
            if r == z3.sat:
                val = True
                self.model = self.extract()
            elif r == z3.unsat:
                self.decisions.append(0)
                self.pos += 1
                self.prefix.append(0)
                self.assume_raw(nsb)
                return False
            else:
                self.unknowns.append('branch')
                val = True
        other = nsb if val else sb
        g = self.gf2_sat(other) if have else None
        r = self.check(other.z3()) if g is None else z3.sat if g else z3.unsat
        d = 1 if val else 0
        if r == z3.sat:
            self.pending.append(self.decisions + [1 - d])
        elif r == z3.unknown:
            self.unknowns.append('branch')
            self.pending.append(self.decisions + [1 - d])
        self.decisions.append(d)
        self.prefix.append(d)
        self.pos += 1
        self.assume_raw(sb if val else nsb)
        return val

    def choose(self, n):
        """nondeterministic choice in range(n), all options explored"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.pending.append(self.decisions + [k])
            d = 0
            self.prefix.append(0)
        self.pos += 1
        self.decisions.append(d)
        return d

    def force(self, x, limit=None, why='value'):
        """Concretise SymInt x by forking over all its feasible values."""
        if not isinstance(x, SymInt):
            return x
        limit = limit or self.opts.get('force_limit', 300)
        n = 0
        while True:
            lo, hi = x.rng()
            if lo is not None and lo == hi:
                return lo
            if lo is not None and hi is not None and hi - lo <= 3:
                v = lo
                while v <= hi:
                    c = x == v
                    if isinstance(c, SymBool):
                        c = c.simp()
                    if c is False:
                        v += 1
                        continue
                    if c is True or self.decide(c):
                        return v
                    break
                else:
                    raise Infeasible()
                n += 1
                continue
            # candidate from model (recorded in the decision list for replay)
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                if v is None:
                    self.partial.append('concretised ' + why)
                    self.pos += 1
                    self.decisions.append(None)
                    v = self.prefix[self.pos]
                    self.pos += 1
                    self.decisions.append(v)
                    self.assume_raw(mk_eq(x, v))
                    return v
                v = v[1]
                self.pos += 1
                self.decisions.append(('v', v))
            else:
                if not self.need_model():
                    raise Unsupported('no model to concretise ' + why)
                v = x.ev()
                if n >= limit:
                    self.partial.append('concretised ' + why)
                    self.decisions.extend([None, v])
                    self.prefix.extend([None, v])
                    self.pos += 2
                    self.assume_raw(mk_eq(x, v))
                    return v
                self.decisions.append(('v', v))
                self.prefix.append(('v', v))
                self.pos += 1
            if self.decide(x == v):
                return v
            n += 1

    def assume(self, c):
        """Harness assumption."""
        if isinstance(c, SymBool):
            c = c.simp()
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if not isinstance(c, SymBool):
            if not c:
                raise Infeasible()
            return
        self.assume_raw(c)


class NoEval(Exception):
    pass


def gf2_expr(ctx, vs):
    return ctx.form(vs)


def mask(vs):
    m = 0
    for v in vs:
        m |= 1 << v
    return m


def gf2_ev(ctx, vs, c, m=None):
    if m is None:
        m = ctx.model
    for v in vs:
        c ^= ctx.bval(v, m)
    return c


# ------------------------------------------------------------------------------------------------ booleans
def pure_gf2(sb):
    return sb.k == 'gf2' or sb.k == 'and' and all(x.k == 'gf2' for x in sb.a)


class SymBool:
    """kinds: le/ge/eq/ne over (N key dict, bound); and/or lists; gf2; not(z)"""
    __slots__ = ('k', 'a', 'b', '_z')

    def __init__(self, k, a, b=None):
        self.k = k
        self.a = a
        self.b = b
        self._z = None

    def z3(self):
        if self._z is None:
            k = self.k
            if k in ('le', 'ge', 'eq', 'ne'):
                e = C.nexpr.get(self.a)
                if e is None:
                    e = C.z3poly(dict(self.a))
                    C.nexpr[self.a] = e
                v = z3.IntVal(self.b)
                self._z = e <= v if k == 'le' else e >= v if k == 'ge' else e == v if k == 'eq' else e != v
            elif k == 'and':
                self._z = z3.And([x.z3() for x in self.a])
            elif k == 'or':
                self._z = z3.Or([x.z3() for x in self.a])
            elif k == 'gf2':
                if not self.a:
                    raise AssertionError('constant gf2 form')
                e = gf2_expr(C, self.a)
                self._z = e if self.b else z3.Not(e)
            elif k == 'raw':
                self._z = self.a
            else:
                raise AssertionError(k)
        return self._z

    def key(self):
        k = self.k
        if k in ('and', 'or'):
            return (k,) + tuple(x.key() for x in self.a)
        if k == 'raw':
            return k, self.a.get_id()
        return k, self.a, self.b

    def ev(self, m=None):
        k = self.k
        if m is None:
            m = C.model
        if k in ('le', 'ge', 'eq', 'ne'):
            v = C.pv(dict(self.a), m)
            return v <= self.b if k == 'le' else v >= self.b if k == 'ge' else v == self.b if k == 'eq' else v != self.b
        if k == 'and':
            return all(x.ev(m) for x in self.a)
        if k == 'or':
            return any(x.ev(m) for x in self.a)
        if k == 'gf2':
            return gf2_ev(C, self.a, 0, m) == self.b
        if k == 'raw':
            if self.b is not None:
                return self.b()
            raise NoEval()

    def neg(self):
        k = self.k
        if k == 'le':
            return SymBool('ge', self.a, self.b + 1)
        if k == 'ge':
            return SymBool('le', self.a, self.b - 1)
        if k == 'eq':
            return SymBool('ne', self.a, self.b)
        if k == 'ne':
            return SymBool('eq', self.a, self.b)
        if k == 'and':
            return SymBool('or', [x.neg() for x in self.a])
        if k == 'or':
            return SymBool('and', [x.neg() for x in self.a])
        if k == 'gf2':
            return SymBool('gf2', self.a, 1 - self.b)
        f = self.b
        return SymBool('raw', z3.Not(self.a), (lambda: not f()) if f is not None else None)

    def simp(self):
        """Decide by ranges and facts; returns bool or SymBool."""
        k = self.k
        if k in ('le', 'ge', 'eq', 'ne'):
            lo, hi = nrange(self.a)
            b = self.b
            if k == 'le':
                if hi is not None and hi <= b:
                    return True
                if lo is not None and lo > b:
                    return False
            elif k == 'ge':
                if lo is not None and lo >= b:
                    return True
                if hi is not None and hi < b:
                    return False
            else:
                if (lo is not None and lo > b) or (hi is not None and hi < b):
                    return k == 'ne'
                if lo is not None and lo == hi:
                    return (lo == b) == (k == 'eq')
                f = C.facts.get(('ne', self.a))
                if f and b in f:
                    return k == 'ne'
            return self
        if k == 'gf2':
            vs, c = C.gf2_reduce((self.a, self.b))
            if not vs:
                return c == 0
            return self if vs is self.a else SymBool('gf2', vs, c)
        if k == 'and':
            out = []
            for x in self.a:
                x = x.simp()
                if x is False:
                    return False
                if x is not True:
                    out.append(x)
            if not out:
                return True
            return out[0] if len(out) == 1 else SymBool('and', out)
        if k == 'or':
            out = []
            for x in self.a:
                x = x.simp()
                if x is True:
                    return True
                if x is not False:
                    out.append(x)
            if not out:
                return False
            return out[0] if len(out) == 1 else SymBool('or', out)
        return self

    def learn(self, ctx):
        k = self.k
        if k == 'and':
            for x in self.a:
                x.learn(ctx)
            return
        if k == 'gf2':
            for v in self.a:
                if ctx.bvar_eval[v] is not None:
                    ctx.form(frozenset((v,)))
            ctx.ech_add(mask(self.a), self.b)
            vs, c = ctx.gf2_reduce((self.a, self.b))
            if vs:
                pv = min(vs)
                # eliminate pv from existing rows
                for q, (rv, rc) in list(ctx.gf2basis.items()):
                    if pv in rv:
                        ctx.gf2basis[q] = (rv ^ vs, rc ^ c)
                ctx.gf2basis[pv] = (vs, c)
            return
        if k not in ('le', 'ge', 'eq', 'ne'):
            return
        a, b = self.a, self.b
        if len(a) == 1:
            (mono, coef), = a
            if len(mono) == 1 and coef == 1:
                at = ctx.atoms[mono[0]]
                if k in ('le', 'eq') and (at.hi is None or at.hi > b):
                    at.hi = b
                if k in ('ge', 'eq') and (at.lo is None or at.lo < b):
                    at.lo = b
                if k == 'ne':
                    if at.lo is not None and at.lo == b:
                        at.lo = b + 1
                    elif at.hi is not None and at.hi == b:
                        at.hi = b - 1
                    else:
                        ctx.facts.setdefault(('ne', a), set()).add(b)
                        return
                if k != 'eq':
                    f = ctx.facts.get(('ne', a))
                    if f:
                        while at.lo is not None and at.lo in f:
                            at.lo += 1
                        while at.hi is not None and at.hi in f:
                            at.hi -= 1
                return
        lo, hi = nrange(a)
        if k in ('le', 'eq') and (hi is None or hi > b):
            hi = b
        if k in ('ge', 'eq') and (lo is None or lo < b):
            lo = b
        if k == 'ne':
            if lo is not None and lo == b:
                lo = b + 1
            elif hi is not None and hi == b:
                hi = b - 1
            else:
                ctx.facts.setdefault(('ne', a), set()).add(b)
                return
        ctx.facts[a] = (lo, hi)

    def __bool__(self):
        return C.decide(self)

    def __hash__(self):
        return hash(bool(self))

    # int behaviour of bools
    def as_int(self):
        s = self.simp()
        if s is True:
            return 1
        if s is False:
            return 0
        if s.k == 'gf2':
            v = C.gf2_int((s.a, 0))
            return v if s.b else 1 - v
        key = ('bool', s.key())
        a = C.itememo.get(key)
        if a is None:
            def evalf(m, s=s):
                return 1 if s.ev(m) else 0
            a = C.atom(0, 1, evalf=evalf, expr=lambda: z3.If(s.z3(), z3.IntVal(1), z3.IntVal(0)))
            C.itememo[key] = a
            C.itememo[('keep', a.id)] = s
            C.itememo[('sb', a.id)] = s
        return SymInt({(a.id,): 1})

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return And(self, o)
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return Or(self, o)
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return self.neg() if o else self
        return self.as_int() ^ (o.as_int() if isinstance(o, SymBool) else o)
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else self.neg()
        return self.as_int() == (o.as_int() if isinstance(o, SymBool) else o)

    def __ne__(self, o):
        return Not(self == o)

    def _i(name):
        def f(self, *a):
            x = self.as_int()
            return getattr(x, name)(*a)
        return f
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lshift__', '__rlshift__',
               '__rshift__', '__rrshift__', '__neg__', '__lt__', '__le__', '__gt__', '__ge__', '__index__',
               '__int__', '__floordiv__', '__mod__'):
        locals()[_n] = _i(_n)
    del _i, _n

    def __repr__(self):
        return 'SymBool(%s)' % self.k


def nrange(key):
    """range of a normalised (frozenset) non-constant polynomial"""
    lo, hi = C.poly_range(dict(key))
    f = C.facts.get(key)
    if f:
        if f[0] is not None and (lo is None or f[0] > lo):
            lo = f[0]
        if f[1] is not None and (hi is None or f[1] < hi):
            hi = f[1]
    return lo, hi


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            x = x.simp()
        if x is False:
            return False
        if x is True:
            continue
        if not isinstance(x, SymBool):
            if not x:
                return False
            continue
        if x.k == 'and':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool('and', out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            x = x.simp()
        if x is True:
            return True
        if x is False:
            continue
        if not isinstance(x, SymBool):
            if x:
                return True
            continue
        if x.k == 'or':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool('or', out)


def Not(x):
    if isinstance(x, SymBool):
        return x.neg()
    return not x


# ------------------------------------------------------------------------------------------------ integers
def norm(p):
    """p dict -> (N key, sign*g, const): p = sg * N + const, or (None, 0, const)"""
    c = p.get((), 0)
    g = 0
    for m, v in p.items():
        if m:
            g = math.gcd(g, v)
    if g == 0:
        return None, 0, c
    lead = p[min(m for m in p if m)]
    if lead < 0:
        g = -g
    if g == 1:
        key = frozenset((m, v) for m, v in p.items() if m)
    else:
        key = frozenset((m, v // g) for m, v in p.items() if m)
    return key, g, c


def mono_of(key):
    if len(key) == 1:
        (m, c), = key
        if len(m) == 1 and c == 1:
            return C.mono.get(m[0])
    return None


def mono_le(q, b):
    kind, y, d = q
    if kind == 'q':
        return y <= b * d + d - 1
    return y <= (1 << b) - 1 if b >= 0 else False


def mono_ge(q, b):
    kind, y, d = q
    if kind == 'q':
        return y >= b * d
    return y >= 1 << (b - 1) if b >= 1 else True


def mk_le0(p):
    """p <= 0"""
    key, g, c = norm(p)
    if key is None:
        return c <= 0
    q = mono_of(key)
    if q is not None:
        return mono_le(q, (-c) // g) if g > 0 else mono_ge(q, -((-c) // -g))
    if g > 0:
        sb = SymBool('le', key, (-c) // g)
    else:
        # g*N <= -c  ->  N >= -c/g  (ceil)
        sb = SymBool('ge', key, -((-c) // -g))
        # N >= ceil(-c / g) with g<0: -c/g = c/|g| ; ceil(c/|g|) = -((-c)//|g|)
    return sb.simp()


def mk_eq0(p):
    key, g, c = norm(p)
    if key is None:
        return c == 0
    if c % g:
        return False
    q = mono_of(key)
    if q is not None:
        return And(mono_le(q, -c // g), mono_ge(q, -c // g))
    sb = SymBool('eq', key, -c // g)
    return sb.simp()


def mk_eq(a, b):
    r = (a == b)
    if r is True:
        return SymBool('and', [])
    if r is False:
        raise Infeasible()
    return r


def tosym(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        x = x.as_int()
        if isinstance(x, SymInt):
            return x
    if isinstance(x, int):
        return SymInt({(): int(x)} if x else {})
    return None


def mk(p, cls=None):
    """SymInt or int from poly"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    s = SymInt(p)
    return s


class SymInt:
    __slots__ = ('_p', '_k', 'bits', 'cls', 'prov', 'fmt')

    def __init__(self, p=None, bits=None, cls=int):
        self._p = p
        self._k = None
        self.bits = bits
        self.cls = cls
        self.prov = None

    @property
    def p(self):
        if self._p is None:
            acc = {}
            for i, f in enumerate(self.bits):
                v = C.gf2_int(f)
                if isinstance(v, int):
                    if v:
                        acc[()] = acc.get((), 0) + (v << i)
                else:
                    for m, c in v.p.items():
                        acc[m] = acc.get(m, 0) + (c << i)
            self._p = {m: c for m, c in acc.items() if c}
        return self._p

    def key(self):
        if self._k is None:
            self._k = frozenset(self.p.items())
        return self._k

    def rng(self):
        key, g, c = norm(self.p)
        if key is None:
            return c, c
        lo, hi = nrange(key)
        if g < 0:
            lo, hi = hi, lo
        return (None if lo is None else lo * g + c), (None if hi is None else hi * g + c)

    def ev(self):
        return C.pv(self.p, C.model)

    def z3(self):
        return C.z3poly(self.p)

    def __repr__(self):
        return '<sym>'
    __str__ = __repr__

    # --- arithmetic
    def __add__(self, o):
        if isinstance(o, float):
            raise Unsupported('float arithmetic')
        o = tosym(o)
        if o is None:
            return NotImplemented
        p = dict(self.p)
        for m, c in o.p.items():
            v = p.get(m, 0) + c
            if v:
                p[m] = v
            else:
                p.pop(m, None)
        return mk(p)
    __radd__ = __add__

    def __neg__(self):
        return mk({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return mk(self.p)

    def __sub__(self, o):
        o = tosym(o)
        if o is None:
            return NotImplemented
        p = dict(self.p)
        for m, c in o.p.items():
            v = p.get(m, 0) - c
            if v:
                p[m] = v
            else:
                p.pop(m, None)
        return mk(p)

    def __rsub__(self, o):
        o = tosym(o)
        if o is None:
            return NotImplemented
        return o.__sub__(self)

    def __mul__(self, o):
        if isinstance(o, float):
            raise Unsupported('float arithmetic')
        if isinstance(o, (bytes, str, list, tuple)):
            return o * C.force(self, why='repeat count')
        s = tosym(o)
        if s is None:
            return NotImplemented
        a, b = self, s
        if len(b.p) == 1 and () in b.p:
            c = b.p[()]
            return mk({m: v * c for m, v in a.p.items()})
        if not b.p:
            return 0
        if len(a.p) > 3:
            a = a.atomize()
        if len(b.p) > 3:
            b = b.atomize()
        p = {}
        for m1, c1 in a.p.items():
            for m2, c2 in b.p.items():
                m = tuple(sorted(m1 + m2))
                # 0/1 atoms are idempotent
                if len(m) == 2 and m[0] == m[1] and C.atoms[m[0]].lo == 0 and C.atoms[m[0]].hi == 1:
                    m = (m[0],)
                v = p.get(m, 0) + c1 * c2
                if v:
                    p[m] = v
                else:
                    p.pop(m, None)
        return mk(p)
    __rmul__ = __mul__

    def atomize(self):
        """A SymInt equal to self consisting of a single atom (plus nothing else)."""
        if len(self.p) == 1:
            (m, c), = self.p.items()
            if len(m) == 1 and c == 1:
                return self
        key = ('atomize', self.key())
        r = C.divmemo.get(key)
        if r is None:
            lo, hi = self.rng()
            r = C.fresh(lo, hi, evalf=lambda m, p=self.p: C.pv(p, m), defs=lambda: C.atoms[i0].expr == self.z3())
            i0 = len(C.atoms) - 1
            C.divmemo[key] = r
        return r if isinstance(r, SymInt) else SymInt({(): r} if r else {})

    def __divmod__(self, d):
        return int_divmod(self, d)

    def __rdivmod__(self, o):
        return int_divmod(tosym(o), self)

    def __floordiv__(self, d):
        if not isinstance(d, (int, SymInt, SymBool)):
            return NotImplemented
        return int_divmod(self, d)[0]

    def __mod__(self, d):
        if not isinstance(d, (int, SymInt, SymBool)):
            return NotImplemented
        return int_divmod(self, d)[1]

    def __rfloordiv__(self, o):
        o = tosym(o)
        return NotImplemented if o is None else int_divmod(o, self)[0]

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        o = tosym(o)
        return NotImplemented if o is None else int_divmod(o, self)[1]

    def __truediv__(self, o):
        o = tosym(o)
        return NotImplemented if o is None else quotient(self, o)

    def __rtruediv__(self, o):
        o = tosym(o)
        return NotImplemented if o is None else quotient(o, self)

    def __float__(self):
        raise Unsupported('float conversion')

    def __pow__(self, e, mod=None):
        if mod is not None:
            raise Unsupported('modular power')
        e = C.force(e, why='exponent') if isinstance(e, SymInt) else e
        if e < 0:
            raise Unsupported('negative power')
        r = 1
        for _ in range(e):
            r = r * self
        return r

    def __rpow__(self, b, mod=None):
        e = C.force(self, why='exponent')
        return pow(b, e, mod)

    def __lshift__(self, n):
        if isinstance(n, (SymInt, SymBool)):
            n = C.force(tosym(n), why='shift')
        if n < 0:
            raise ValueError('negative shift count')
        if self.bits is not None:
            return mkbits([ZERO] * n + self.bits)
        return self * (1 << n)

    def __rlshift__(self, x):
        return x << C.force(self, why='shift')

    def __rshift__(self, n):
        if isinstance(n, (SymInt, SymBool)):
            n = C.force(tosym(n), why='shift')
        if n < 0:
            raise ValueError('negative shift count')
        if self.bits is not None:
            return mkbits(self.bits[n:])
        return int_divmod(self, 1 << n)[0]

    def __rrshift__(self, x):
        return x >> C.force(self, why='shift')

    def __and__(self, o):
        return int_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return int_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return int_xor(self, o)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        return -self if self < 0 else mk(self.p)

    # --- comparisons
    def __le__(self, o):
        if isinstance(o, float):
            return fcmp(self, o, 'le')
        s = tosym(o)
        if s is None:
            return NotImplemented
        d = self - s
        return mk_le0(d.p) if isinstance(d, SymInt) else d <= 0

    def __lt__(self, o):
        if isinstance(o, float):
            return fcmp(self, o, 'lt')
        s = tosym(o)
        if s is None:
            return NotImplemented
        d = self - s + 1
        return mk_le0(d.p) if isinstance(d, SymInt) else d <= 0

    def __ge__(self, o):
        if isinstance(o, float):
            return fcmp(self, o, 'ge')
        s = tosym(o)
        if s is None:
            return NotImplemented
        d = s - self
        return mk_le0(d.p) if isinstance(d, SymInt) else d <= 0

    def __gt__(self, o):
        if isinstance(o, float):
            return fcmp(self, o, 'gt')
        s = tosym(o)
        if s is None:
            return NotImplemented
        d = s - self + 1
        return mk_le0(d.p) if isinstance(d, SymInt) else d <= 0

    def __eq__(self, o):
        if isinstance(o, SymInt) and self.bits is not None and (o.bits is not None):
            return bits_eq(self.bits, o.bits)
        if isinstance(o, int) and self.bits is not None:
            if o < 0 or o >> len(self.bits):
                return False
            return bits_eq(self.bits, [(E0, (int(o) >> i) & 1) for i in range(len(self.bits))])
        s = tosym(o)
        if s is None:
            if isinstance(o, float) and o == int(o):
                return self == int(o)
            return NotImplemented
        d = self - s
        return mk_eq0(d.p) if isinstance(d, SymInt) else d == 0

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else C.decide(r)

    def __hash__(self):
        return 0

    def __index__(self):
        return C.force(self, why='index')
    __int__ = __index__
    __trunc__ = __index__

    # --- int methods
    def bit_length(self):
        lo, hi = self.rng()
        if lo is None or lo < 0 or hi is None:
            x = abs(self)
            if not isinstance(x, SymInt):
                return x.bit_length()
            lo, hi = x.rng()
            if hi is None:
                raise Unsupported('bit_length of unbounded integer')
            lo = max(lo, 0) if lo is not None else 0
        else:
            x = self
        l0, l1 = lo.bit_length(), hi.bit_length()
        if l0 == l1:
            return l0
        key = ('bl', x.key())
        r = C.divmemo.get(key)
        if r is None:
            def defs():
                xe, re_ = x.z3(), C.atoms[i0].expr
                return z3.And([(re_ <= k) == (xe <= (1 << k) - 1) for k in range(l0, l1)])
            r = C.fresh(l0, l1, evalf=lambda m, p=x.p: C.pv(p, m).bit_length(), defs=defs)
            i0 = len(C.atoms) - 1
            C.mono[i0] = ('bl', x, None)
            C.divmemo[key] = r
            C.divmemo[('blx', r.key())] = x
        return r

    def bit_count(self):
        raise Unsupported('bit_count')

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import sbytes
        return sbytes.int_to_bytes(self, length, byteorder, signed)

    def conjugate(self):
        return self
    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def is_integer(self):
        return True

    def __format__(self, spec):
        return '<sym>'

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self


def fcmp(x, f, op):
    if math.isinf(f):
        return (f > 0) == (op in ('le', 'lt'))
    fl = math.floor(f)
    if op == 'le':
        return x <= fl
    if op == 'gt':
        return x > fl
    ce = math.ceil(f)
    if op == 'lt':
        return x < ce
    return x >= ce


E0 = frozenset()
ZERO = (E0, 0)
ONE = (E0, 1)


def mkbits(bits):
    n = len(bits)
    while n and bits[n - 1] == ZERO:
        n -= 1
    bits = bits[:n]
    if all(not f[0] for f in bits):
        return sum(f[1] << i for i, f in enumerate(bits))
    return SymInt(None, bits)


def bits_eq(a, b):
    n = max(len(a), len(b))
    cs = []
    for i in range(n):
        x = a[i] if i < len(a) else ZERO
        y = b[i] if i < len(b) else ZERO
        vs = x[0] ^ y[0]
        c = x[1] ^ y[1]
        vs, c = C.gf2_reduce((vs, c))
        if not vs:
            if c:
                return False
            continue
        cs.append(SymBool('gf2', vs, c))
    return And(*cs)


def sat_range(x):
    lo, hi = x.rng()
    return lo, hi


def bits_of(x):
    """GF(2) bit forms of a non-negative int/SymInt (list little-endian), or None."""
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, int):
        if x < 0:
            return None
        return [(E0, (x >> i) & 1) for i in range(x.bit_length())]
    if x.bits is not None:
        return x.bits
    lo, hi = x.rng()
    if lo is None or hi is None or lo < 0 or hi >= 1 << 320:
        return None
    key = x.key()
    r = C.bitmemo.get(key)
    if r is not None:
        return r
    # sum of 2^k * gf2 atoms with disjoint positions?
    w = hi.bit_length()
    out = [ZERO] * w
    ok = True
    for m, c in x.p.items():
        if not m:
            if c < 0:
                ok = False
                break
            for i in range(c.bit_length()):
                if (c >> i) & 1:
                    if i >= w or out[i] != ZERO:
                        ok = False
                        break
                    out[i] = ONE
            if not ok:
                break
            continue
        if len(m) == 1 and c > 0 and C.atoms[m[0]].gf2 is not None and c & (c - 1) == 0:
            i = c.bit_length() - 1
            if out[i] == ZERO:
                out[i] = C.atoms[m[0]].gf2
                continue
        ok = False
        break
    if not ok:
        # split x = sum of parts with disjoint bit ranges where possible
        vs = [C.bvar(evalf=lambda m, p=x.p, i=i: (C.pv(p, m) >> i) & 1) for i in range(w)]
        out = [(frozenset((v,)), 0) for v in vs]
        s = z3.Sum([z3.If(C.form(frozenset((v,))), z3.IntVal(1 << i), z3.IntVal(0)) for i, v in enumerate(vs)]) if w else z3.IntVal(0)
        C.define(SymBool('raw', x.z3() == s, lambda: True))
    C.bitmemo[key] = out
    return out


def int_divmod(x, d):
    if isinstance(d, SymBool):
        d = d.as_int()
    if isinstance(x, (int, SymBool)):
        x = tosym(x)
    if isinstance(d, SymInt):
        lo, hi = d.rng()
        if lo is not None and lo == hi:
            d = lo
    if isinstance(d, SymInt):
        if d == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if d < 0:
            q, r = int_divmod(-x, -d)
            return q, -r
        if (x - d) < 0 and x >= 0:
            return 0, mk(x.p)
        key = (x.key(), d.key())
        q = C.divmemo.get(key)
        if q is None:
            xl, xh = x.rng()
            dl, dh = d.rng()
            dl = max(dl or 1, 1)
            lo = None if xl is None else (xl // dl if xl < 0 else (0 if dh is None else xl // dh))
            hi = None if xh is None else (xh // dl if xh >= 0 else -1)
            q = C.fresh(lo, hi, evalf=lambda m, x=x, d=d: C.pv(x.p, m) // C.pv(d.p, m))
            if isinstance(q, SymInt):
                xe, de, qe = x.z3(), d.atomize().z3(), q.z3()
                C.define(SymBool('raw', z3.And(qe * de <= xe, xe < qe * de + de), lambda: True))
            C.divmemo[key] = q
        r = x - q * d
        return q, r
    d = int(d)
    if d == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if d < 0:
        q, r = int_divmod(-x, -d)
        return q, -r
    if d == 1:
        return mk(x.p), 0
    if x.bits is not None and d & (d - 1) == 0:
        k = d.bit_length() - 1
        return mkbits(x.bits[k:]), mkbits(x.bits[:k])
    A = {}
    B = {}
    for m, c in x.p.items():
        if m:
            if c % d == 0:
                A[m] = c // d
            else:
                B[m] = c
        else:
            if c // d:
                A[()] = c // d
            if c % d:
                B[()] = c % d
    Bs = mk(B)
    if isinstance(Bs, int):
        q, r = divmod(Bs, d)
        return mk(_padd(A, {(): q} if q else {})), r
    lo, hi = Bs.rng()
    if lo is not None and hi is not None and lo // d == hi // d:
        q = lo // d
        return mk(_padd(A, {(): q} if q else {})), Bs - q * d
    key = (Bs.key(), d)
    q = C.divmemo.get(key)
    if q is None:
        # floor(floor(y/a)/b) == floor(y/(a*b))
        base = (Bs, d)
        if len(Bs.p) == 1:
            (m0, c0), = Bs.p.items()
            if c0 == 1 and len(m0) == 1 and m0[0] in C.quot:
                y, d1 = C.quot[m0[0]]
                base = (y, d1 * d)
                q = C.divmemo.get((y.key(), d1 * d))
        if q is not None:
            r = Bs - q * d
            if isinstance(r, SymInt):
                mk_ge_fact(r, 0, d - 1)
            C.divmemo[key] = q
    if q is None:
        y, D = base

        def defs():
            ye, qe = y.z3(), C.atoms[i0].expr
            return z3.And(qe * D <= ye, ye <= qe * D + (D - 1))
        q = C.fresh(None if lo is None else lo // d, None if hi is None else hi // d,
                    evalf=lambda m, p=Bs.p: C.pv(p, m) // d, defs=defs)
        i0 = len(C.atoms) - 1
        r = Bs - q * d
        if isinstance(r, SymInt):
            # range fact 0 <= r < d
            mk_ge_fact(r, 0, d - 1)
        if isinstance(q, SymInt):
            C.mono[i0] = ('q', y, D)
        C.divmemo[key] = q
        C.divmemo[(base[0].key(), base[1])] = q
        if isinstance(q, SymInt) and len(q.p) == 1:
            (mq, cq), = q.p.items()
            if len(mq) == 1 and cq == 1:
                C.quot[mq[0]] = base
    r = Bs - q * d
    return (mk(_padd(A, q.p)) if isinstance(q, SymInt) else mk(_padd(A, {(): q} if q else {}))), r


def mk_ge_fact(x, lo, hi):
    for sb in (SymBool0(x, 'ge', lo), SymBool0(x, 'le', hi)):
        if isinstance(sb, SymBool):
            sb.learn(C)


def SymBool0(x, op, v):
    return x >= v if op == 'ge' else x <= v


def _padd(a, b):
    p = dict(a)
    for m, c in b.items():
        v = p.get(m, 0) + c
        if v:
            p[m] = v
        else:
            p.pop(m, None)
    return p


def _trail2(x):
    """number of known-zero low bits of SymInt/int"""
    if isinstance(x, int):
        return 10 ** 9 if x == 0 else (x & -x).bit_length() - 1
    g = 0
    for m, c in x.p.items():
        g = math.gcd(g, c)
    return (g & -g).bit_length() - 1


def _width(x):
    if isinstance(x, int):
        return x.bit_length() if x >= 0 else None
    lo, hi = x.rng()
    if lo is None or hi is None or lo < 0:
        return None
    return hi.bit_length()


def _disjoint(a, b):
    wa, wb = _width(a), _width(b)
    if wa is None or wb is None:
        return False
    return _trail2(a) >= wb or _trail2(b) >= wa


def int_and(x, o):
    if isinstance(o, SymBool):
        o = o.as_int()
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, int) and isinstance(o, int):
        return x & o
    if isinstance(x, int):
        x, o = o, x
    if isinstance(o, int):
        o = int(o)
        if x.bits is not None and o >= 0:
            return mkbits([f if (o >> i) & 1 else ZERO for i, f in enumerate(x.bits)])
        if o == 0:
            return 0
        if o < 0:
            return x - int_and(x, ~o)     # x & ~k = x - (x & k)
        r = 0
        i = 0
        while o >> i:
            if (o >> i) & 1:
                j = i
                while (o >> j) & 1:
                    j += 1
                t = int_divmod(x, 1 << i)[0] if i else x
                t = int_divmod(t, 1 << (j - i))[1] if isinstance(t, SymInt) else t % (1 << (j - i))
                r = t * (1 << i) + r
                i = j
            else:
                i += 1
        return r
    if not isinstance(o, SymInt):
        return NotImplemented
    if _disjoint(x, o):
        return 0
    if x.key() == o.key():
        return mk(x.p)
    # single-bit mask times const: (-(bit)) & K
    for a, b in ((x, o), (o, x)):
        lo, hi = a.rng()
        if lo == -1 and hi == 0:
            return ite(a == 0, 0, b)
        if lo == 0 and hi == 1:
            return ite(a == 0, 0, int_and(b, 1))
    return bitwise(x, o, 'and')


def int_or(x, o):
    if isinstance(o, SymBool):
        o = o.as_int()
    if isinstance(o, int) and o == 0:
        return mk(x.p) if x.bits is None else x
    if not isinstance(o, (int, SymInt)):
        return NotImplemented
    if isinstance(o, int) and x.bits is not None and o >= 0:
        n = max(len(x.bits), o.bit_length())
        return mkbits([ONE if (o >> i) & 1 else (x.bits[i] if i < len(x.bits) else ZERO) for i in range(n)])
    if _disjoint(x, o):
        if x.bits is not None and isinstance(o, SymInt) and o.bits is not None:
            n = max(len(x.bits), len(o.bits))
            g = lambda b, i: b[i] if i < len(b) else ZERO
            if all(g(x.bits, i) == ZERO or g(o.bits, i) == ZERO for i in range(n)):
                return mkbits([g(x.bits, i) if g(o.bits, i) == ZERO else g(o.bits, i) for i in range(n)])
        return x + o
    a = int_and(x, o)
    if isinstance(a, (int, SymInt)) and (isinstance(o, int) or not isinstance(a, SymInt)):
        return x + o - a
    return bitwise(x, o, 'or')


def int_xor(x, o):
    if isinstance(o, SymBool):
        o = o.as_int()
    if isinstance(o, int) and o == 0:
        return mk(x.p) if x.bits is None else x
    if not isinstance(o, (int, SymInt)):
        return NotImplemented
    ob = o.bits if isinstance(o, SymInt) else None
    if x.bits is None and ob is None:
        w = _width(x)
        if isinstance(o, int) and o >= 0 and w is not None and o & (o + 1) == 0 and o >> w == 0 and o.bit_length() >= w:
            return o - x
        if isinstance(o, int) and o >= 0 and w is None:
            return x + o - 2 * int_and(x, o)
        if isinstance(o, int) and o < 0:
            return -int_xor(x, ~o) - 1 if ~o else -x - 1
        if isinstance(o, SymInt) and _disjoint(x, o):
            return x + o
        if isinstance(o, int) and len(x.p) == 1 and _disjoint(x, o):
            return x + o
    a, b = bits_of(x), bits_of(o)
    if a is None or b is None:
        if isinstance(o, int):
            return x + o - 2 * int_and(x, o)
        raise Unsupported('xor of wide values')
    n = max(len(a), len(b))
    out = []
    for i in range(n):
        f = a[i] if i < len(a) else ZERO
        g = b[i] if i < len(b) else ZERO
        out.append((f[0] ^ g[0], f[1] ^ g[1]))
    return mkbits(out)


def bitwise(x, o, op):
    a, b = bits_of(x), bits_of(o)
    if a is None or b is None:
        raise Unsupported('bitwise %s of wide values' % op)
    n = max(len(a), len(b))
    out = []
    for i in range(n):
        f = a[i] if i < len(a) else ZERO
        g = b[i] if i < len(b) else ZERO
        if not f[0]:
            r = (g if f[1] else ZERO) if op == 'and' else (ONE if f[1] else g)
        elif not g[0]:
            r = (f if g[1] else ZERO) if op == 'and' else (ONE if g[1] else f)
        elif f == g:
            r = f
        else:
            key = (op, f, g)
            v = C.bitmemo.get(key)
            if v is None:
                ef, eg = gf2_expr(C, f[0]), gf2_expr(C, g[0])
                if f[1]:
                    ef = z3.Not(ef)
                if g[1]:
                    eg = z3.Not(eg)
                ex = z3.And(ef, eg) if op == 'and' else z3.Or(ef, eg)

                def evalf(m, f=f, g=g):
                    u, w = gf2_ev(C, *f, m), gf2_ev(C, *g, m)
                    return (u & w) if op == 'and' else (u | w)
                v = C.bvar(evalf=evalf, expr=ex)
                C.bitmemo[key] = v
            r = (frozenset((v,)), 0)
        out.append(r)
    return mkbits(out)


def cond_form(c):
    """GF(2) form of a condition if it is one."""
    if isinstance(c, SymBool):
        if c.k == 'gf2':
            return (c.a, 1 - c.b)      # c true iff xor(a)==b  -> value = xor(a) ^ b ^ 1
        if c.k in ('eq', 'ne') and len(c.a) == 1:
            (m, co), = c.a
            if len(m) == 1 and co == 1 and C.atoms[m[0]].gf2 is not None and c.b in (0, 1):
                f = C.atoms[m[0]].gf2
                val = c.b if c.k == 'eq' else 1 - c.b
                return (f[0], f[1] ^ 1 ^ val)
    return None


def ite(c, a, b):
    """int ite; c SymBool or bool; a,b ints/SymInts"""
    if isinstance(c, SymBool):
        c = c.simp()
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, SymBool):
        a = a.as_int()
    if isinstance(b, SymBool):
        b = b.as_int()
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    sa, sb_ = tosym(a), tosym(b)
    if sa.bits is not None or sb_.bits is not None:
        f = cond_form(c)
        if f is not None:
            x, y = bits_of(a), bits_of(b)
            if x is not None and y is not None:
                n = max(len(x), len(y))
                out = []
                ok = True
                for i in range(n):
                    u = x[i] if i < len(x) else ZERO
                    v = y[i] if i < len(y) else ZERO
                    d = (u[0] ^ v[0], u[1] ^ v[1])
                    if d[0]:
                        ok = False
                        break
                    if d[1]:
                        out.append((v[0] ^ f[0], v[1] ^ f[1]))
                    else:
                        out.append(v)
                if ok:
                    return mkbits(out)
    if sa.key() == sb_.key():
        return a
    d = a - b
    if isinstance(d, int):
        t = c.as_int()
        return b + t * d
    key = ('ite', c.key(), sa.key(), sb_.key())
    r = C.itememo.get(key)
    if r is None:
        la, ha = sa.rng()
        lb, hb = sb_.rng()
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)

        def evalf(m, c=c, sa=sa, sb_=sb_):
            return C.pv(sa.p, m) if c.ev(m) else C.pv(sb_.p, m)
        at = C.atom(lo, hi, evalf=evalf, expr=lambda: z3.If(c.z3(), sa.z3(), sb_.z3()))
        r = SymInt({(at.id,): 1})
        C.itememo[key] = r
        C.itememo[('keep', at.id)] = c
    return r


# ------------------------------------------------------------------------------------------------ tables
class Table:
    """A concrete lookup table indexed by range(n)."""
    _memo = {}

    def __new__(cls, seq):
        seq = tuple(seq)
        t = cls._memo.get(seq)
        if t is None:
            t = object.__new__(cls)
            t.seq = seq
            t.runs = None
            cls._memo[seq] = t
        return t


def table_get(seq, idx):
    """seq: sequence of ints, idx SymInt known to lie in range(len(seq)). Returns SymInt."""
    lo, hi = idx.rng()
    n = len(seq)
    lo = max(lo or 0, 0)
    hi = n - 1 if hi is None else min(hi, n - 1)
    if lo == hi:
        return seq[lo]
    if idx.prov is not None:
        # compose with the table the index itself came from
        t, base = idx.prov
        if all(0 <= v < n for v in t.seq):
            return table_get(tuple(seq[v] for v in t.seq), base)
    if all(seq[i] == i for i in range(lo, hi + 1)):
        return idx
    v0 = seq[lo]
    if all(seq[i] == v0 for i in range(lo, hi + 1)):
        return v0
    dl = seq[lo + 1] - seq[lo]
    if all(seq[i] - v0 == (i - lo) * dl for i in range(lo, hi + 1)):
        return v0 + (idx - lo) * dl
    if idx.bits is not None and n == 1 << len(idx.bits) and all(isinstance(v, int) and v >= 0 for v in seq):
        w = len(idx.bits)
        cols = [seq[1 << i] ^ seq[0] for i in range(w)]
        lin = True
        for i in range(n):
            v = seq[0]
            for j in range(w):
                if (i >> j) & 1:
                    v ^= cols[j]
            if v != seq[i]:
                lin = False
                break
        if lin:
            width = max(v.bit_length() for v in seq)
            out = []
            for b in range(width):
                vs, c = E0, (seq[0] >> b) & 1
                for j in range(w):
                    if (cols[j] >> b) & 1:
                        vs = vs ^ idx.bits[j][0]
                        c ^= idx.bits[j][1]
                out.append((vs, c))
            return mkbits(out)
    t = Table(seq)
    key = (id(t), idx.key())
    r = C.tabmemo.get(key)
    if r is None:
        # runs of value = index + const
        runs = []
        i = lo
        while i <= hi:
            j = i
            dlt = seq[i] - i
            while j + 1 <= hi and seq[j + 1] - (j + 1) == dlt:
                j += 1
            if j == i:
                while j + 1 <= hi and seq[j + 1] == seq[i]:
                    j += 1
                runs.append((i, j, None, seq[i]))
            else:
                runs.append((i, j, dlt, None))
            i = j + 1

        def val(run, ie):
            return ie + run[2] if run[2] is not None else z3.IntVal(run[3])
        mn, mx = min(seq[lo:hi + 1]), max(seq[lo:hi + 1])
        if len(runs) <= 64:
            def expr():
                ie = idx.z3()
                e = val(runs[-1], ie)
                for run in reversed(runs[:-1]):
                    e = z3.If(ie <= run[1], val(run, ie), e)
                return e
            at = C.atom(mn, mx, evalf=lambda m, p=idx.p: seq[min(max(C.pv(p, m), 0), n - 1)], expr=expr)
        else:
            def defs():
                cons = []
                ie = idx.z3()
                for run in runs:
                    c = ie == run[0] if run[0] == run[1] else z3.And(ie >= run[0], ie <= run[1])
                    cons.append(z3.Implies(c, at.expr == val(run, ie)))
                return z3.And(cons)
            at = C.atom(mn, mx, evalf=lambda m, p=idx.p: seq[min(max(C.pv(p, m), 0), n - 1)], defs=defs)
        r = SymInt({(at.id,): 1})
        r.prov = (t, idx)
        C.tabmemo[key] = r
        C.tabmemo[('k', id(t))] = t
    return r


def in_set(x, vals):
    """SymBool: x in vals (set of ints) as intervals."""
    lo, hi = x.rng()
    vals = sorted(v for v in set(vals) if (lo is None or v >= lo) and (hi is None or v <= hi))
    if x.prov is not None:
        t, base = x.prov
        vs = set(vals)
        return in_set(base, [i for i, v in enumerate(t.seq) if v in vs])
    out = []
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        if i == j:
            out.append(x == vals[i])
        else:
            out.append(And(x >= vals[i], x <= vals[j]))
        i = j + 1
    return Or(*out)


def is_sym(x):
    return isinstance(x, (SymInt, SymBool)) or getattr(x, '_symbolic', False)


def quotient(a, b):
    if b == 0:
        raise ZeroDivisionError('division by zero')
    return Quotient(a, b)


class Quotient:
    """float nearest to a / b; only equality is decided (by the exact quotients: unequal quotients may still round alike, so a
    reported difference has to be confirmed on the real code, as every counterexample is)"""
    _pytype = float

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        if isinstance(o, Quotient):
            if isinstance(self.a, int) and self.a and isinstance(o.a, int) and self.a == o.a:
                return self.b == o.b
            return self.a * o.b == o.a * self.b
        if isinstance(o, float):
            if o != o or o in (float('inf'), float('-inf')):
                return False
            n, d = o.as_integer_ratio()
            return self.a * d == n * self.b
        o = tosym(o)
        return NotImplemented if o is None else self.a == o * self.b

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = None

    def __getattr__(self, n):
        raise Unsupported('float ' + n)

    def _no(self, *a):
        raise Unsupported('float arithmetic')
    for _n in 'add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod pow lt le gt ge neg abs float int str repr format bool'.split():
        locals()['__%s__' % _n] = _no
