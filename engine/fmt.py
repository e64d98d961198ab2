"""Formatting and parsing of text with symbolic parts."""
import string
from . import core as K
from .core import SymInt, SymBool, And, Or, Unsupported, table_get, in_set
from .sbytes import SymStr, SymBytes, LazyStr, SymSeq, bool_of, mkstr, mkbytes, hexdigit, cpred, chartable
import types

FuncT = types.FunctionType


def wrap(s):
    if isinstance(s, (str, SymStr)):
        return s
    return LazyStr([s])


def fmt_value(v, conv, spec):
    """str, or a lazy (value, conv, spec) tuple when symbolic"""
    if isinstance(v, (SymInt, SymBool, SymSeq)):
        if isinstance(v, SymStr) and not spec and conv in (-1, 115):
            return (v, -1, '')
        return (v, conv, spec)
    if isinstance(v, (list, tuple, dict)):
        from . import rt
        if rt.deep_sym(v):
            return (v, conv, spec)
    if not isinstance(v, (int, float, str, bytes, type(None), list, tuple, dict, BaseException, type)):
        if conv == 114:
            m = getattr(type(v), '__repr__', None)
            if isinstance(m, FuncT):
                r = m(v)
                return r if isinstance(r, str) else (r, -1, '')
        elif not spec:
            m = getattr(type(v), '__str__', None)
            if isinstance(m, FuncT) and type(v).__format__ is object.__format__:
                r = m(v)
                return r if isinstance(r, str) else (r, -1, '')
    if isinstance(v, BaseException):
        from . import rt
        if rt.deep_sym(v.args):
            return (v.args[0], -1, '') if len(v.args) == 1 else '<exception>'
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    if isinstance(spec, SymSeq):
        raise Unsupported('symbolic format spec')
    return format(v, spec)


def digits(x, base, chars):
    """list of code points of non-negative SymInt x in the given base (forks on the number of digits)"""
    n = 1
    while bool_of(x >= base ** n):
        n += 1
        if n > 200:
            raise Unsupported('too many digits')
    out = []
    v = x
    for _ in range(n):
        if isinstance(v, int):
            v, d = divmod(v, base)
            out.append(chars[d])
        else:
            v, d = K.int_divmod(v, base)
            out.append(chars[d] if isinstance(d, int) else table_get(chars, d))
    return out[::-1]


DEC = tuple(b'0123456789')
HEXL = tuple(b'0123456789abcdef')
HEXU = tuple(b'0123456789ABCDEF')


def resolve(v, conv, spec):
    """code points of a formatted symbolic value"""
    if isinstance(v, SymBool):
        if spec or conv == 114 and False:
            v = v.as_int()
        else:
            return [ord(c) for c in str(bool(v))]
    if isinstance(v, SymStr):
        if conv in (114, 97):
            return [39] + list(v.units()) + [39]
        if spec:
            return pad(list(v.units()), spec)
        return v.units()
    if isinstance(v, SymBytes):
        return [ord(c) for c in "b'"] + [ord('?')] * len(v.units()) + [39]
    if isinstance(v, SymInt):
        if v.cls is not int and not spec:
            for name in (('__repr__',) if conv == 114 else ('__str__', '__repr__')):
                m = getattr(v.cls, name, None)
                if isinstance(m, FuncT):
                    r = m(v)
                    return [ord(c) for c in r] if isinstance(r, str) else r.units()
        return fmt_int(v, spec)
    if isinstance(v, (list, tuple, dict)):
        return [ord(c) for c in repr(v)]
    s = fmt_value(v, conv, spec)
    return [ord(c) for c in s] if isinstance(s, str) else resolve(*s)


def fmt_int(v, spec):
    import re
    m = re.fullmatch(r'(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([bcdoxXn])?', spec)
    if not m or m.group(8):
        raise Unsupported('format spec ' + spec)
    fill, align, sign, alt, zero, width, group, _, typ = m.groups()
    typ = typ or 'd'
    if typ == 'c':
        return [v]
    neg = bool_of(v < 0)
    a = -v if neg else v
    base, chars = {'d': (10, DEC), 'n': (10, DEC), 'b': (2, DEC), 'o': (8, DEC), 'x': (16, HEXL), 'X': (16, HEXU)}[typ]
    if isinstance(a, int):
        ds = [ord(c) for c in format(a, typ)]
    else:
        if zero and not align and not group and width:
            w = int(width) - (1 if neg or sign in ('+', ' ') else 0) - (2 if alt and typ in 'boxX' else 0)
            if w > 0 and bool_of(a < base ** w):
                # zero padded: the number of significant digits does not show
                ds = []
                for _ in range(w):
                    if isinstance(a, int):
                        a, d = divmod(a, base)
                    else:
                        a, d = K.int_divmod(a, base)
                    ds.append(chars[d] if isinstance(d, int) else table_get(chars, d))
                ds.reverse()
            else:
                ds = digits(a, base, chars)
        else:
            ds = digits(a, base, chars)
    if group:
        g = 3 if typ == 'd' else 4
        out = []
        for i, d in enumerate(reversed(ds)):
            if i and i % g == 0:
                out.append(ord(group))
            out.append(d)
        ds = out[::-1]
    pre = []
    if neg:
        pre.append(45)
    elif sign in ('+', ' '):
        pre.append(ord(sign))
    if alt and typ in 'boxX':
        pre += [48, ord(typ)]
    w = int(width or 0)
    n = len(pre) + len(ds)
    if n >= w:
        return pre + ds
    if zero and not align:
        if group:
            raise Unsupported('grouped zero padding')
        return pre + [48] * (w - n) + ds
    f = ord(fill or ' ')
    align = align or '>'
    if align == '=':
        return pre + [f] * (w - n) + ds
    if align == '<':
        return pre + ds + [f] * (w - n)
    if align == '>':
        return [f] * (w - n) + pre + ds
    l = (w - n) // 2
    return [f] * l + pre + ds + [f] * (w - n - l)


def pad(u, spec):
    import re
    m = re.fullmatch(r'(?:(.)?([<>^]))?(0)?(\d+)?(?:\.(\d+))?s?', spec)
    if not m:
        raise Unsupported('format spec ' + spec)
    fill, align, zero, width, prec = m.groups()
    if prec:
        u = u[:int(prec)]
    w = int(width or 0) - len(u)
    if w <= 0:
        return u
    f = ord(fill or ' ')
    if align == '>':
        return [f] * w + u
    if align == '^':
        return [f] * (w // 2) + u + [f] * (w - w // 2)
    return u + [f] * w


def str_format(s, a, k):
    from . import rt
    if not rt.deep_sym(a) and not rt.deep_sym(tuple(k.values())):
        return s.format(*a, **k)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported('format field')
        if '{' in (spec or ''):
            raise Unsupported('nested format spec')
        out.append(fmt_value(v, ord(conv) if conv else -1, spec or ''))
    if all(isinstance(x, str) for x in out):
        return ''.join(out)
    return LazyStr(out)


def percent(s, args):
    import re
    if isinstance(s, SymStr):
        raise Unsupported('symbolic format string')
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    pos = 0
    it = iter(args)
    for m in re.finditer(r'%([-#0 +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        flags, width, prec, typ = m.groups()
        if typ == '%':
            out.append('%')
            continue
        v = next(it)
        if prec:
            raise Unsupported('percent precision')
        if typ in 'di':
            spec = ('<' if '-' in flags else '') + ('+' if '+' in flags else '') + ('0' if '0' in flags and '-' not in flags else '') + width + 'd'
            out.append(fmt_value(v, -1, spec))
        elif typ in 'xX':
            out.append(fmt_value(v, -1, ('#' if '#' in flags else '') + ('0' if '0' in flags else '') + width + typ))
        elif typ == 's':
            out.append(fmt_value(v, 115, ('<' if '-' in flags else '>') + width if width else ''))
        elif typ == 'r':
            out.append(fmt_value(v, 114, width))
        elif typ == 'c':
            out.append((v, -1, ''))
        else:
            raise Unsupported('percent ' + typ)
    out.append(s[pos:])
    out = [x for x in out if x != '']
    if all(isinstance(x, str) for x in out):
        return ''.join(out)
    return LazyStr(out)


# ------------------------------------------------------------------------------------------------ parsing
def digit_value(x, base):
    """(SymBool is-digit, value) following int(): any Unicode decimal digit or ASCII letter"""
    import unicodedata

    def val(c):
        d = unicodedata.decimal(c, None)
        if d is None:
            if c.isascii() and c.isalpha():
                d = ord(c.lower()) - 87
            else:
                return -1
        return d if d < base else -1
    if isinstance(x, int):
        v = val(chr(x))
        return v >= 0, v
    seq, b = chartable(x)
    vals = [val(chr(v)) for v in seq]
    ok = in_set(b, [i for i, v in enumerate(vals) if v >= 0])
    return ok, (lambda: table_get(tuple(max(v, 0) for v in vals), b))


def parse_int(s, base):
    import sys
    if not isinstance(base, int):
        raise Unsupported('symbolic base')
    u = list(s.units())
    sp = lambda x: cpred(x, lambda c: c.isspace())
    a, b = 0, len(u)
    while a < b and bool_of(sp(u[a])):
        a += 1
    while b > a and bool_of(sp(u[b - 1])):
        b -= 1
    u = u[a:b]
    neg = False

    def bad():
        raise ValueError('invalid literal for int()')
    if u:
        if bool_of(eqc(u[0], 45)):
            neg = True
            u = u[1:]
        elif bool_of(eqc(u[0], 43)):
            u = u[1:]
    if base in (2, 8, 16) or base == 0:
        letters = {2: 'bB', 8: 'oO', 16: 'xX'}
        if len(u) >= 2:
            for bb, ls in letters.items():
                if base in (0, bb) and bool_of(Or(eqc(u[1], ord(ls[0])), eqc(u[1], ord(ls[1])))) and bool_of(eqc(u[0], 48)):
                    u = u[2:]
                    base = bb
                    if u and bool_of(eqc(u[0], 95)):
                        u = u[1:]
                    break
        if base == 0:
            raise Unsupported('int base 0')
    if not u:
        bad()
    v = 0
    prev_us = True
    nd = 0
    for i, x in enumerate(u):
        if bool_of(eqc(x, 95)):
            if prev_us or i == len(u) - 1:
                bad()
            prev_us = True
            continue
        ok, val = digit_value(x, base)
        if not bool_of(ok):
            bad()
        nd += 1
        v = v * base + (val() if callable(val) else val)
        prev_us = False
    if base & (base - 1) and nd > sys.get_int_max_str_digits() > 0:
        raise ValueError('Exceeds the limit for integer string conversion')
    return -v if neg else v


def eqc(x, c):
    from .sbytes import ch_eq
    return ch_eq(x, c)


def hexval(x, err=ValueError):
    if isinstance(x, int):
        c = chr(x)
        if c not in '0123456789abcdefABCDEF':
            raise err('non-hexadecimal number found')
        return int(c, 16)
    seq, b = chartable(x)
    vals = [('0123456789abcdef'.find(chr(v).lower()) if v < 128 else -1) for v in seq]
    if not bool_of(in_set(b, [i for i, v in enumerate(vals) if v >= 0])):
        raise err('non-hexadecimal number found')
    return table_get(tuple(max(v, 0) for v in vals), b)


def fromhex(s):
    u = s.units()
    out = []
    i = 0
    sp = lambda x: cpred(x, lambda c: c in ' \t\n\r\x0b\x0c')
    while i < len(u):
        if bool_of(sp(u[i])):
            i += 1
            continue
        h = hexval(u[i])
        if i + 1 >= len(u):
            raise ValueError('non-hexadecimal number found in fromhex()')
        l = hexval(u[i + 1])
        out.append(h * 16 + l)
        i += 2
    return mkbytes([out])
