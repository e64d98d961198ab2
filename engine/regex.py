"""Backtracking regular expression matching over symbolic text (re semantics, greedy order)."""
import re
from re import _parser as sre
from re import _constants as sc
from . import core as K
from .core import SymInt, Or, Not, Unsupported, in_set
from .sbytes import SymStr, SymBytes, SymSeq, bool_of, mkstr, cpred, chartable


class Match:
    _pytype = re.Match

    def __init__(self, text, groups, pat):
        self.string = text
        self.g = groups
        self.re = pat
        self.lastindex = max([i for i in groups if i], default=None)

    def _idx(self, n):
        return self.re.groupindex[n] if isinstance(n, str) else n

    def group(self, *ns):
        if not ns:
            ns = (0,)
        r = tuple(self._one(n) for n in ns)
        return r[0] if len(r) == 1 else r

    def _one(self, n, d=None):
        n = self._idx(n)
        if n > self.re.groups:
            raise IndexError('no such group')
        s = self.g.get(n)
        return d if s is None else self.string[s[0]:s[1]]

    def __getitem__(self, n):
        return self._one(n)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def start(self, n=0):
        s = self.g.get(self._idx(n))
        return -1 if s is None else s[0]

    def end(self, n=0):
        s = self.g.get(self._idx(n))
        return -1 if s is None else s[1]

    def span(self, n=0):
        return self.start(n), self.end(n)

    def __bool__(self):
        return True


CATS = {sc.CATEGORY_DIGIT: str.isdecimal, sc.CATEGORY_SPACE: str.isspace,
        sc.CATEGORY_WORD: lambda c: c.isalnum() or c == '_'}
NCATS = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE,
         sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD}


def catf(c, flags):
    if c in NCATS:
        f = catf(NCATS[c], flags)
        return lambda ch: not f(ch)
    f = CATS[c]
    if flags & re.ASCII:
        return lambda ch: ch.isascii() and f(ch)
    return f


def charset(items, flags):
    neg = False
    fs = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            fs.append(lambda ch, v=av: ord(ch) == v)
        elif op is sc.RANGE:
            fs.append(lambda ch, v=av: v[0] <= ord(ch) <= v[1])
        elif op is sc.CATEGORY:
            fs.append(catf(av, flags))
        else:
            raise Unsupported('regex set')
    if flags & re.IGNORECASE:
        gs = fs
        fs = [lambda ch: any(g(c) for g in gs for c in (ch, ch.lower(), ch.upper()) if len(c) == 1)]
    return lambda ch: any(f(ch) for f in fs) != neg


def m(nodes, i, u, pos, g, flags, k):
    """match nodes[i:] at pos; k(pos, groups) continuation -> result or None"""
    if i == len(nodes):
        return k(pos, g)
    op, av = nodes[i]
    nxt = lambda p, gg: m(nodes, i + 1, u, p, gg, flags, k)
    n = len(u)

    def one(f):
        if pos < n and bool_of(cpred(u[pos], f)):
            return nxt(pos + 1, g)
        return None
    if op is sc.LITERAL:
        if flags & re.IGNORECASE:
            return one(charset([(op, av)], flags))
        return one(lambda c: ord(c) == av)
    if op is sc.NOT_LITERAL:
        return one(lambda c: ord(c) != av)
    if op is sc.ANY:
        return one((lambda c: True) if flags & re.DOTALL else (lambda c: c != '\n'))
    if op is sc.IN:
        return one(charset(av, flags))
    if op is sc.AT:
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if av is sc.AT_BEGINNING and flags & re.MULTILINE:
                raise Unsupported('multiline')
            return nxt(pos, g) if pos == 0 else None
        if av is sc.AT_END_STRING:
            return nxt(pos, g) if pos == n else None
        if av is sc.AT_END:
            if flags & re.MULTILINE:
                raise Unsupported('multiline')
            if pos == n or (pos == n - 1 and bool_of(cpred(u[pos], lambda c: c == '\n'))):
                return nxt(pos, g)
            return None
        raise Unsupported('regex anchor')
    if op is sc.SUBPATTERN:
        gid, af, df, p = av
        fl = (flags | af) & ~df

        def after(p2, gg):
            if gid is not None:
                gg = dict(gg)
                gg[gid] = (pos, p2)
            return nxt(p2, gg)
        return m(list(p), 0, u, pos, g, fl, after)
    if op is sc.BRANCH:
        for alt in av[1]:
            r = m(list(alt), 0, u, pos, g, flags, nxt)
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
        lo, hi, p = av
        p = list(p)
        hi = n + 1 if hi is sc.MAXREPEAT else hi

        def rep(cnt, p0, gg):
            if op is sc.MIN_REPEAT and cnt >= lo:
                r = nxt(p0, gg)
                if r is not None:
                    return r
            if cnt < hi:
                r = m(p, 0, u, p0, gg, flags, lambda p2, g2: rep(cnt + 1, p2, g2) if p2 > p0 or cnt < lo else None)
                if r is not None:
                    return r
            if op is sc.MAX_REPEAT and cnt >= lo:
                return nxt(p0, gg)
            return None
        if op is sc.POSSESSIVE_REPEAT:
            raise Unsupported('possessive')
        return rep(0, pos, g)
    if op in (sc.ASSERT, sc.ASSERT_NOT):
        d, p = av
        if d != 1:
            raise Unsupported('lookbehind')
        r = m(list(p), 0, u, pos, g, flags, lambda p2, gg: (p2, gg))
        if (r is not None) == (op is sc.ASSERT):
            return nxt(pos, g if r is None else r[1])
        return None
    if op is sc.GROUPREF:
        s = g.get(av)
        if s is None:
            return None
        l = s[1] - s[0]
        if pos + l > n:
            return None
        for j in range(l):
            if not bool_of(u[s[0] + j] == u[pos + j]):
                return None
        return nxt(pos + l, g)
    raise Unsupported('regex op %s' % op)


def run(pat, s, start, full):
    if isinstance(s, SymBytes):
        s2 = SymStr(list(s.units()))
    else:
        s2 = s
    pattern = pat.pattern.decode('latin-1') if isinstance(pat.pattern, bytes) else pat.pattern
    fl = pat.flags | (re.ASCII if isinstance(pat.pattern, bytes) else 0)
    tree = list(sre.parse(pattern, pat.flags & ~re.UNICODE))
    u = s2.units()

    def k(p, g):
        if full and p != len(u):
            return None
        g = dict(g)
        g[0] = (start, p)
        return Match(s, g, pat)
    return m(tree, 0, u, start, {}, fl, k)


def chk(pat, s):
    if isinstance(s, SymSeq):
        if isinstance(pat.pattern, bytes) != isinstance(s, SymBytes):
            raise TypeError('cannot use a pattern of the wrong kind')
        return True
    return False


def p_match(pat, s, *a):
    if chk(pat, s):
        return run(pat, s, 0, False)
    return pat.match(s, *a)


def p_fullmatch(pat, s, *a):
    if chk(pat, s):
        return run(pat, s, 0, True)
    return pat.fullmatch(s, *a)


def p_search(pat, s, *a):
    if chk(pat, s):
        for i in range(len(s.units()) + 1):
            r = run(pat, s, i, False)
            if r is not None:
                return r
        return None
    return pat.search(s, *a)


def p_finditer(pat, s, *a):
    if not chk(pat, s):
        return pat.finditer(s, *a)
    out = []
    i = 0
    n = len(s.units())
    while i <= n:
        r = None
        for j in range(i, n + 1):
            r = run(pat, s, j, False)
            if r is not None:
                break
        if r is None:
            break
        out.append(r)
        i = r.end() if r.end() > r.start() else r.end() + 1
    return iter(out)


def p_findall(pat, s, *a):
    if not chk(pat, s):
        return pat.findall(s, *a)
    return [x.group(0) if pat.groups == 0 else x.group(1) if pat.groups == 1 else x.groups() for x in p_finditer(pat, s)]


def p_split(pat, s, maxsplit=0):
    if not chk(pat, s):
        return pat.split(s, maxsplit)
    out = []
    pos = 0
    for x in p_finditer(pat, s):
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(s[pos:x.start()])
        out.extend(x.groups())
        pos = x.end()
    out.append(s[pos:])
    return out


def p_sub(pat, repl, s, count=0):
    if not chk(pat, s):
        return pat.sub(repl, s, count)
    if callable(repl) or '\\' in repl:
        raise Unsupported('sub')
    out = []
    pos = 0
    u = s.units()
    for x in p_finditer(pat, s):
        out.extend(u[pos:x.start()])
        out.extend(map(ord, repl))
        pos = x.end()
    out.extend(u[pos:])
    return s.mk(out)
