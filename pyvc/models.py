"""Semantics of operators, builtins and the library functions the repository uses (the trusted models of the verifier)."""
import ast
import builtins
import codecs
import copy as _copy
import datetime as _dt
import logging
import math
import re
import string as _string
import sys
import threading
import time as _time
import types
import weakref
from fractions import Fraction
import z3
from .core import *
from .seq import *
from .values import *


def lift(I, v):
    for real, stand_in in ctx().anchors.get('stand_in', ()):      # objects of the environment
        if v is real: return stand_in
    return v


# -- numbers -----------------------------------------------------------------------------------------------------------
def as_rat(x):
    if isinstance(x, SReal): return x.num, x.den
    if isinstance(x, float):
        f = Fraction(x).limit_denominator(10**9)
        if float(f) != x: raise Unsupported('float constant')
        return f.numerator, f.denominator
    if isinstance(x, (bool, SBool)): return SInt(zi(x)), 1
    if is_int(x): return x, 1
    raise Unsupported('number expected')


def is_num(x): return is_intlike(x) or isinstance(x, (float, SReal))


def mkreal(n, d):
    if isinstance(n, int):
        f = Fraction(n, d)
        return SReal(f.numerator, f.denominator)
    return SReal(n, d)


def floordiv(a, b):
    if isinstance(b, int) and not isinstance(b, bool):
        if b == 0: throw(ZeroDivisionError, 'division by zero')
        if isinstance(a, int): return a // b
        return mi(zi(a) / b) if b > 0 else mi((-zi(a)) / (-b))
    raise Unsupported('division by a symbolic value')


def mod(a, b):
    if isinstance(b, int):
        if b == 0: throw(ZeroDivisionError, 'modulo by zero')
        if isinstance(a, int): return a % b
        if b > 0: return mi(zi(a) % b)
    raise Unsupported('modulo by a symbolic value')


def trunc(x):
    """int(x) of a rational"""
    n, d = as_rat(x)
    if isinstance(n, int): return int(Fraction(n, d))
    if d == 1: return n
    return mi(z3.If(zi(n) >= 0, zi(n) / d, -((-zi(n)) / d)))


def binop(I, op, a, b):
    for v in (a, b):
        if isinstance(v, Poison): raise Unsupported('stale value %s' % v.name)
    h = getattr(a, 'vbinop', None)
    if h: return h(I, op, b, False)
    h = getattr(b, 'vbinop', None)
    if h: return h(I, op, a, True)
    if is_num(a) and is_num(b):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            za, zb_ = zb(a), zb(b)
            return mb(z3.And(za, zb_) if isinstance(op, ast.BitAnd) else z3.Or(za, zb_) if isinstance(op, ast.BitOr) else z3.Xor(za, zb_))
        if isinstance(a, (SBool, bool)): a = int(a) if isinstance(a, bool) else SInt(zi(a))
        if isinstance(b, (SBool, bool)): b = int(b) if isinstance(b, bool) else SInt(zi(b))
        real = isinstance(a, (float, SReal)) or isinstance(b, (float, SReal))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(op, ast.Div):
            if isinstance(op, ast.LShift) and b > 4096: raise Unsupported('huge shift')
            import operator as o
            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow, ast.LShift: o.lshift,
                 ast.RShift: o.rshift, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.BitXor: o.xor}[type(op)]
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and b == 0: throw(ZeroDivisionError)
            if isinstance(op, (ast.LShift, ast.RShift)) and b < 0: throw(ValueError, 'negative shift count')
            return f(a, b)
        if isinstance(op, ast.Div):
            (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
            if not isinstance(n2, int): raise Unsupported('division by a symbolic value')
            if n2 == 0: throw(ZeroDivisionError, 'division by zero')
            s = 1 if n2 > 0 else -1
            return mkreal(mul(n1, d2 * s), d1 * abs(n2))
        if real:
            (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
            if isinstance(op, ast.Add): return mkreal(add(mul(n1, d2), mul(n2, d1)), d1 * d2)
            if isinstance(op, ast.Sub): return mkreal(sub(mul(n1, d2), mul(n2, d1)), d1 * d2)
            if isinstance(op, ast.Mult): return mkreal(mul(n1, n2), d1 * d2)
            raise Unsupported('float operator')
        if isinstance(op, ast.Add): return add(a, b)
        if isinstance(op, ast.Sub): return sub(a, b)
        if isinstance(op, ast.Mult): return mul(a, b)
        if isinstance(op, ast.FloorDiv): return floordiv(a, b)
        if isinstance(op, ast.Mod): return mod(a, b)
        if isinstance(op, (ast.LShift, ast.RShift)):
            if not isinstance(b, int) and ctx().branch(cmp('<', b, 0)): throw(ValueError, 'negative shift count')
            return shl(a, b) if isinstance(op, ast.LShift) else shr(a, b)
        if isinstance(op, ast.BitAnd):
            if isinstance(b, int) and b >= 0: return mask_int(a, b)
            if isinstance(a, int) and a >= 0: return mask_int(b, a)
            raise Unsupported('& of two symbolic integers')
        if isinstance(op, ast.BitOr): return or_int(a, b)
        raise Unsupported('integer operator %s' % type(op).__name__)
    if isinstance(op, ast.Add):
        if is_str(a) and is_str(b): return mkstr(str_seq(a) + str_seq(b))
        if isinstance(a, (VList, list)) and isinstance(b, (VList, list)): return VList(list_seq(a) + list_seq(b))
        if isinstance(a, (VBytes, bytes)) and isinstance(b, (VBytes, bytes)): return VBytes(bytes_seq(a) + bytes_seq(b))
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if is_td(a) and is_td(b): return mk_td(add(td_us(a), td_us(b)))
        if hasattr(a, 'vadd'): return a.vadd(b)
        if type(a) is not type(b): throw(TypeError, 'unsupported operand types for +')
    if isinstance(op, ast.Sub):
        if is_td(a) and is_td(b): return mk_td(sub(td_us(a), td_us(b)))
        if isinstance(a, VSet) and isinstance(b, VSet): return VSet([x for x in a.items if not truth_in(I, x, b)])
    if isinstance(op, ast.Mult):
        if is_str(b) or isinstance(b, (VList, list)): a, b = b, a
        if isinstance(a, str) and isinstance(b, int): return a * b
        if isinstance(a, str) and isinstance(b, SInt):
            n = mi(z3.If(b.z < 0, 0, b.z))
            if len(a) == 1: return mkstr(Seq((Gen(CompBase('rep', lambda k: ord(a), key=('rep', a)), 0, n),)))
            return mkstr(Seq((texts('rep ' + a, lambda k: lit([ord(x) for x in a]), 0, n),)))
        if isinstance(a, (VList, list)) and isinstance(b, int): return VList(lit(list(list_seq(a).items) * b)) if list_seq(a).concrete else unsupported('list repetition')
        if isinstance(a, (VList, list)) and isinstance(b, SInt):
            s = list_seq(a)
            if s.concrete and len(s.items) == 1:
                x = s.items[0]
                n = mi(z3.If(b.z < 0, 0, b.z))
                return VList(Seq((Gen(CompBase('rep', lambda k: x, key=('rep', x)), 0, n),)))
        if is_td(a) or is_td(b):
            if is_td(b): a, b = b, a
            n, d = as_rat(b)
            if d == 1: return mk_td(mul(td_us(a), n))
    if isinstance(op, ast.Mod) and is_str(a): raise Unsupported('% formatting')
    raise Unsupported('operator %s on %s, %s' % (type(op).__name__, type(a).__name__, type(b).__name__))


def list_seq(v): return v.seq if isinstance(v, VList) else lit(v)


def truth_in(I, x, s): return ctx().branch(contains(I, s, x))


def contains(I, cont, x):
    h = getattr(cont, 'vcontains', None)
    if h: return h(I, x)
    if is_str(cont):
        if isinstance(cont, str) and isinstance(x, str): return x in cont
        if not is_str(x): throw(TypeError, 'in <string> requires string')
        h = getattr(x, 'seq', None)
        xs = str_seq(x)
        if xs.concrete and len(xs.items) == 1 and isinstance(cont, str):
            return bor(*[cmp('==', xs.items[0], ord(c)) for c in sorted(set(cont))]) if cont else False
        from . import rx
        return rx.substring(str_seq(cont), xs)
    if isinstance(cont, VDict): items = [k for k, _ in cont.items]
    elif isinstance(cont, VSet): items = cont.items
    elif isinstance(cont, VList):
        if not cont.seq.concrete: raise Unsupported('in symbolic list')
        items = cont.seq.items
    elif isinstance(cont, (tuple, list, dict, set, frozenset)): items = list(cont)
    elif isinstance(cont, type({}.keys())): items = list(cont)
    elif isinstance(cont, VIter):
        items = I.list_items(cont)
    elif isinstance(cont, VObj):
        m = find_attr(cont.cls, '__contains__')
        if m: return I.call(Bound(cont, m), [x])
        throw(TypeError, 'not iterable')
    elif isinstance(cont, VRange) and is_int(x) and isinstance(cont.step, int) and cont.step == 1:
        return band(cmp('<=', cont.start, x), cmp('<', x, cont.stop))
    else: throw(TypeError, 'argument is not iterable')
    if isinstance(x, SStr) and isinstance(cont, (VList, list, tuple)) and len(items) > 3 and ctx().anchors.get('loose') and all(isinstance(y, str) for y in items):
        ctx().anchors['lossy'] = True
        return ctx().fresh_bool('in')
    r = []
    for y in items:
        if type(y) is type(x) is str or (isinstance(x, (int, str)) and isinstance(y, (int, str))): c = x == y
        else: c = val_eq(x, y)
        if c is True: return True
        if c is not False: r.append(c)
    return bor(*r) if r else False


def compare(I, op, a, b):
    for v in (a, b):
        if isinstance(v, Poison): raise Unsupported('stale value %s' % v.name)
    if isinstance(op, (ast.Is, ast.IsNot)):
        if isinstance(a, (SBool,)) or isinstance(b, SBool):
            if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, SBool) and isinstance(b, SBool)): r = mb(zb(a) == zb(b))
            else: r = False
        elif a is b: r = True
        elif a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            h = getattr(a if b is None else b, 'vis_none', None) if (a is None or b is None) else None
            r = h() if h else False
        elif isinstance(a, Heap) or isinstance(b, Heap): r = a.same(b) if hasattr(a, 'same') else b.same(a) if hasattr(b, 'same') else False
        elif isinstance(a, type) or isinstance(b, type): r = False
        else: raise Unsupported('"is" on values')
        return r if isinstance(op, ast.Is) else bnot(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, b, a)
        return r if isinstance(op, ast.In) else bnot(r)
    if isinstance(op, (ast.Eq, ast.NotEq)):
        for x, y in ((a, b), (b, a)):
            if y is None:
                h = getattr(x, 'vis_none', None)
                if h: return h() if isinstance(op, ast.Eq) else bnot(h())
        if (a is None) != (b is None): r = False
        elif is_td(a) and is_td(b): r = cmp('==', td_us(a), td_us(b))
        else:
            try: r = val_eq(a, b)
            except Unsupported:
                if not (ctx().anchors.get('loose') and is_str(a) and is_str(b)): raise
                ctx().anchors['lossy'] = True
                r = ctx().fresh_bool('equal')
        return r if isinstance(op, ast.Eq) else bnot(r)
    o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
    if is_num(a) and is_num(b):
        (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
        return cmp(o, mul(n1, d2), mul(n2, d1))
    if is_td(a) and is_td(b): return cmp(o, td_us(a), td_us(b))
    if isinstance(a, str) and isinstance(b, str): return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
    if a is None or b is None or is_str(a) != is_str(b): throw(TypeError, 'unorderable types')
    xs, ys = (str_seq(v) if is_str(v) else None for v in (a, b))
    if xs is not None and ys is not None and xs.concrete and ys.concrete and len(xs.items) == len(ys.items) == 1:
        return cmp(o, xs.items[0], ys.items[0])
    raise Unsupported('ordering comparison')


# -- datetime ------------------------------------------------------------------------------------------------------------
US = 1000000
TD = _dt.timedelta


def is_td(v): return isinstance(v, TD) or (isinstance(v, VObj) and v.cls is TD)


def td_us(v):
    if isinstance(v, TD): return (v.days * 86400 + v.seconds) * US + v.microseconds
    return v.get('us')


def mk_td(us):
    if isinstance(us, int): return TD(microseconds=us)
    return VObj(TD, {'us': us})


def td_attr(v, n):
    us = td_us(v)
    if n == 'days': return floordiv(us, 86400 * US)
    if n == 'seconds': return mod(floordiv(us, US), 86400)
    if n == 'microseconds': return mod(us, US)
    if n == 'total_seconds': return Model(n, lambda I, a, k: mkreal(us, US))
    raise Unsupported('timedelta.' + n)


def make_td(I, args, kwargs):
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    unit = dict(days=86400 * US, seconds=US, microseconds=1, milliseconds=1000, minutes=60 * US, hours=3600 * US, weeks=7 * 86400 * US)
    kw = dict(zip(names, args)); kw.update(kwargs)
    tot = 0
    for k, v in kw.items():
        n, d = as_rat(v)
        if unit[k] % d == 0: tot = add(tot, mul(n, unit[k] // d))
        elif isinstance(n, int):
            tot = add(tot, round(Fraction(n * unit[k], d)))
        else: raise Unsupported('timedelta fraction')
    if not isinstance(tot, int):
        lim = 86400 * US * 999999999
        if not ctx().branch(band(cmp('<=', -lim, tot), cmp('<=', tot, lim))): throw(OverflowError, 'date value out of range')
    return mk_td(tot)


DTF = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


def dim(y, m):
    """days in month"""
    if isinstance(y, int) and isinstance(m, int):
        return [31, 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    y, m = zi(y), zi(m)
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return mi(z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31))))


def mk_dt(fields, tzinfo=None):
    return VObj(_dt.datetime, dict(zip(DTF, fields), tzinfo=tzinfo))


def dt_method(v, n):
    def utcoffset(I, a, k):
        tz = v.get('tzinfo')
        if tz is None: return None
        return I.call(I.getattr(tz, 'utcoffset'), [v])
    def replace(I, a, k):
        d = {f: v.get(f) for f in DTF + ('tzinfo',)}
        for kk, x in k.items():
            if kk != 'tzinfo': raise Unsupported('datetime.replace(%s)' % kk)
            d[kk] = x
        return VObj(_dt.datetime, d)
    def strftime(I, a, k):
        out = []
        fmt = a[0]
        i = 0
        if not isinstance(fmt, str): raise Unsupported('strftime format')
        while i < len(fmt):
            if fmt[i] == '%':
                f = {'y': 'year', 'm': 'month', 'd': 'day', 'H': 'hour', 'M': 'minute', 'S': 'second'}.get(fmt[i + 1])
                if f is None: raise Unsupported('strftime %' + fmt[i + 1])
                x = v.get(f)
                if f == 'year': x = mod(x, 100)
                out += [add(48, floordiv(x, 10)), add(48, mod(x, 10))]
                i += 2
            else: out.append(ord(fmt[i])); i += 1
        return mkstr(lit(out))
    m = {'utcoffset': utcoffset, 'replace': replace, 'strftime': strftime}.get(n)
    if m is None: raise Unsupported('datetime.' + n)
    return Model('datetime.' + n, m)


def strptime(I, args, kwargs):
    s, fmt = args
    if isinstance(s, str):
        try: d = _dt.datetime.strptime(s, fmt)
        except ValueError as e: throw(ValueError, str(e))
        return mk_dt([getattr(d, f) for f in DTF])
    if ctx().anchors.get('approx'):      # any text: some date and time, or refused
        c = ctx()
        if c.choice([None, None]): throw(ValueError, 'time data does not match format')
        return mk_dt([c.fresh_int(f) for f in DTF])
    q = str_seq(s)
    f, i = dict(year=1900, month=1, day=1, hour=0, minute=0, second=0), 0
    nd = fmt.count('%')
    need = len(fmt) - 2 * nd + 2 * nd
    c = ctx()
    n = seq_len(q)
    if not c.branch(cmp('==', n, need)):
        if c.entails(cmp('>', n, need)): throw(ValueError, 'unconverted data remains')
        raise Unsupported('strptime on a string that is not in two-digit fields')
    l = fixed(q, need)
    k = 0
    rng = {'y': (0, 99), 'm': (1, 12), 'd': (1, 31), 'H': (0, 23), 'M': (0, 59), 'S': (0, 61)}
    while i < len(fmt):
        if fmt[i] == '%':
            a, b = l[k], l[k + 1]
            ok = band(*[band(cmp('<=', 48, x), cmp('<=', x, 57)) for x in (a, b)])
            if not c.branch(ok): raise Unsupported('strptime on non-digits') if len(fmt) != 2 * nd else PyExc(VObj(ValueError, {'args': ()}))
            x = add(mul(sub(a, 48), 10), sub(b, 48))
            t = fmt[i + 1]
            lo, hi = rng[t]
            if not c.branch(band(cmp('<=', lo, x), cmp('<=', x, hi))): throw(ValueError, 'time data does not match format')
            f[{'y': 'year', 'm': 'month', 'd': 'day', 'H': 'hour', 'M': 'minute', 'S': 'second'}[t]] = \
                ite(cmp('<=', x, 68), add(x, 2000), add(x, 1900)) if t == 'y' else x
            i += 2; k += 2
        else:
            if not c.branch(cmp('==', l[k], ord(fmt[i]))): throw(ValueError, 'time data does not match format')
            i += 1; k += 1
    if not c.branch(cmp('<=', f['day'], dim(f['year'], f['month']))): throw(ValueError, 'day is out of range for month')
    if not c.branch(cmp('<=', f['second'], 59)): throw(ValueError, 'second must be in 0..59')
    return mk_dt([f['year'], f['month'], f['day'], f['hour'], f['minute'], f['second'], 0])


def fixed(q, n):
    """the first n elements of a rope whose length is known to be >= n"""
    out = []
    for _ in range(n):
        r = uncons(q)
        if r is None: raise PathEnd()
        out.append(r[0]); q = r[1]
    return out


# -- strings -----------------------------------------------------------------------------------------------------------------
def dec_digits(x, width):
    """decimal digit chars of x (0 <= x < 10**width), zero padded"""
    return [add(48, mod(floordiv(x, 10 ** (width - 1 - i)), 10)) for i in range(width)]


def hexdigit(x, upper):
    if isinstance(x, int): return ord('%X' % x if upper else '%x' % x)
    return mi(z3.If(zi(x) < 10, zi(x) + 48, zi(x) + (55 if upper else 87)))


def dec_str(x):
    """str(x) of an integer"""
    if isinstance(x, (bool, SBool)): return 'True' if ctx().branch(x) else 'False'
    if isinstance(x, int): return str(x)
    c = ctx()
    if not c.branch(cmp('>=', x, 0)):
        return mkstr(lit([45]) + Seq((Dec(sub(0, x)),)))
    return mkstr(Seq((Dec(x),)))


def to_str(I, x):
    if is_str(x): return x
    if isinstance(x, (SInt, bool, SBool, int)): return dec_str(x)
    if x is None: return 'None'
    h = getattr(x, 'vstr', None)
    if h: return h(I)
    if isinstance(x, VObj):
        m = find_attr(x.cls, '__str__')
        if isinstance(m, types.FunctionType): return I.call(Bound(x, m), [])
        if issubclass(x.cls, BaseException):
            return mkstr(lit([]) + Seq((opaque_str(('excstr', id(x))),)))
    return mkstr(Seq((opaque_str(('str', id(x))),)))


def loose(key):
    """the text an operation yields, of which nothing but (non)emptiness is used: the same one for the same operands"""
    c = ctx()
    c.anchors['lossy'] = True
    reg = c.anchors.setdefault('loosetexts', [])
    for k, r in reg:
        if len(k) == len(key) and all(x is y or (isinstance(x, str) and x == y) if isinstance(x, str) or isinstance(y, str) else x is y or (is_str(x) and is_str(y) and seq_same(str_seq(x), str_seq(y))) for x, y in zip(k, key)): return r
    n = c.fresh_int('n_text', 0, sys.maxsize - 1)
    if key[0] in ('upper', 'lower'): c.assume(mb((zi(n) == 0) == (zi(seq_len(str_seq(key[1]))) == 0)))
    r = mkstr(Seq((Gen(SymBase(key[0], n, lambda v, k: band(cmp('<=', 0, v), cmp('<', v, 0x110000))), 0, n),)))
    reg.append((key, r))
    return r


def opaque_str(key):
    """a piece of unknown text (only used in log and error messages)"""
    c = ctx()
    reg = c.anchors.setdefault('opaquestr', {})
    if key not in reg:
        n = c.fresh_int('osl', 0)
        reg[key] = Gen(SymBase('os', n, lambda v, k: band(cmp('<=', 0, v), cmp('<', v, 0x110000))), 0, n)
        _hold.append(key)
    return reg[key]


_hold = []


def to_format(I, x, spec, conv=None):
    if conv: return mkstr(Seq((opaque_str(('repr', id(x))),)))
    if not spec or not isinstance(spec, str): return to_str(I, x)
    if isinstance(x, (int, str, float)): return format(x, spec)
    if is_str(x) and ctx().anchors.get('loose'): return loose(('format' + spec, x))
    m = re.match(r'^0>(\d)(X?)$|^0(\d)([dX])$', spec)
    if is_int(x) and m:
        w, hx = int(m.group(1) or m.group(3)), 'X' in spec
        b = 16 if hx else 10
        if not ctx().branch(cmp('>=', x, 0)): raise Unsupported('padded negative number')
        for n in range(1, 9):
            if ctx().branch(cmp('<', x, b ** n)):
                n = max(n, w)
                ds = [hexdigit(mod(floordiv(x, 16 ** (n - 1 - i)), 16), True) for i in range(n)] if hx else dec_digits(x, n)
                return mkstr(lit(ds))
        raise Unsupported('wide number')
    if is_str(x) and m and not m.group(2) and m.group(1):
        w = int(m.group(1))
        n = concretize_len(str_seq(x), w)
        return mkstr(lit([48] * max(0, w - n)) + str_seq(x)) if n is not None else x
    raise Unsupported('format spec %r' % (spec,))


def concretize_len(s, limit):
    """length if smaller than limit (forks), else None"""
    n = seq_len(s)
    if isinstance(n, int): return n
    for k in range(limit):
        if ctx().branch(cmp('==', n, k)): return k
    return None


def str_format(I, fmt, args, kwargs):
    out = EMPTY
    auto = 0
    if not isinstance(fmt, str):
        return rope_format(I, fmt, args, kwargs)
    for text, field, spec, conv in _string.Formatter().parse(fmt):
        out = out + str_seq(text)
        if field is None: continue
        if field == '': field = str(auto); auto += 1
        if field.isdigit():
            if int(field) >= len(args): throw(IndexError, 'format index')
            x = args[int(field)]
        elif field in kwargs: x = kwargs[field]
        else: raise Unsupported('format field %r' % field)
        out = out + str_seq(to_format(I, x, spec or '', conv))
    return mkstr(out)


def rope_format(I, fmt, args, kwargs):
    """format() of a rope: concrete text is parsed; symbolic pieces must be provably free of braces"""
    out, run = EMPTY, ''
    c = ctx()

    def flush():
        nonlocal out, run
        if run: out = out + str_seq(str_format(I, run, args, kwargs)); run = ''
    for p in str_seq(fmt).pieces:
        for x in (p.items if isinstance(p, Lit) else [p]):
            if isinstance(x, int): run += chr(x); continue
            if run.count('{') != run.count('}'): raise Unsupported('brace around symbolic text')
            flush()
            if isinstance(x, Piece):
                if isinstance(x, Dec): pass
                elif isinstance(x, Flat) and isinstance(x.fn, TextFn):
                    f = x.fn.f
                    out = out + Seq((texts('formatted', lambda e, f=f: str_seq(str_format(I, mkstr(f(e)), args, kwargs)), x.lo, x.hi),)); continue
                elif isinstance(x, Gen):
                    if c.branch(cmp('<', x.lo, x.hi)):
                        k = c.fresh_int('bk', x.lo); c.assume(cmp('<', k, x.hi))
                        e = x.base.elem(k)
                        if not c.entails(band(cmp('!=', e, 123), cmp('!=', e, 125))): raise Unsupported('braces in symbolic format text')
                else: raise Unsupported('format of %r' % (x,))
                out = out + Seq((x,))
            else:
                if not c.entails(band(cmp('!=', x, 123), cmp('!=', x, 125))):
                    if c.branch(bor(cmp('==', x, 123), cmp('==', x, 125))): raise Unsupported('brace in symbolic format text')
                out = out + lit([x])
    flush()
    return mkstr(out)


def by_term(f):
    """character predicate, computed once per term"""
    memo = {}

    def g(c):
        if not isinstance(c, SInt): return f(c)
        r = memo.get(c.z.get_id())
        if r is None:
            if len(memo) > 200000: memo.clear()
            r = memo[c.z.get_id()] = (f(c), c.z)
        return r[0]
    return g


@by_term
def is_space(c):
    if isinstance(c, int): return chr(c).isspace()
    z = zi(c)
    return mb(z3.Or(z == 32, z3.And(z >= 9, z <= 13), z3.And(z >= 28, z <= 31), z3.And(z >= 128, z3.Or([z == k for k in (133, 160, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000)] + [z3.And(z >= 0x2000, z <= 0x200a)]))))


@by_term
def is_decimal(c):
    """\\d: an ASCII digit, or one of the other scripts' digits (uninterpreted)"""
    if isinstance(c, int): return chr(c).isdecimal()
    z = zi(c)
    return mb(z3.Or(z3.And(z >= 48, z <= 57), z3.And(z >= 1632, z3.Not(zb(is_space(c))), z3.Function('cc_nd', z3.IntSort(), z3.BoolSort())(z))))


def digit_value(c):
    if isinstance(c, int): return int(chr(c))
    z = zi(c)
    v = z3.Function('ndval', z3.IntSort(), z3.IntSort())(z)
    if ctx().entails(cmp('<=', c, 57)): return sub(c, 48)
    ctx().assume(z3.And(v >= 0, v <= 9))
    return mi(z3.If(z <= 57, z - 48, v))


def is_digit(c): return band(cmp('<=', 48, c), cmp('<=', c, 57))


def int_of_str(I, s, base=10):
    if isinstance(s, str):
        try: return int(s, base)
        except ValueError as e: throw(ValueError, str(e))
    c = ctx()
    if c.anchors.get('approx'):       # any text: some integer, or refused
        if c.choice([None, None]): throw(ValueError, 'invalid literal for int()')
        return c.fresh_int('someint')
    q = str_seq(s)
    if len(q.pieces) == 1 and isinstance(q.pieces[0], Dec) and base == 10: return q.pieces[0].n
    neg = False
    if q.concrete:
        l = list(q.items)
        if not l: throw(ValueError, 'invalid literal for int()')
        if len(l) > 1 and base == 10 and not c.entails(is_digit(l[0])):
            if c.branch(cmp('==', l[0], 45)): neg = True; l = l[1:]
            elif c.branch(cmp('==', l[0], 43)): l = l[1:]
            elif c.branch(cmp('==', l[0], 32)): return int_of_str(I, mkstr(lit(l[1:])), base)
        v = 0
        for x in l:
            if base == 10:
                if c.entails(is_decimal(x)):
                    v = add(mul(v, 10), digit_value(x)); continue
                if not c.branch(is_digit(x)):
                    if c.entails(bor(cmp('<', x, 48), cmp('>', x, 57))) and c.entails(cmp('<', x, 128)) and c.entails(band(cmp('!=', x, 95), bnot(is_space(x)))):
                        throw(ValueError, 'invalid literal for int()')
                    if not c.branch(cmp('<', x, 128)): raise Unsupported('int() of a non-ASCII character')
                    raise Unsupported('int() of a non-digit')
                v = add(mul(v, 10), sub(x, 48))
            elif base == 16:
                if c.branch(is_digit(x)): d = sub(x, 48)
                elif c.branch(band(cmp('<=', 65, x), cmp('<=', x, 70))): d = sub(x, 55)
                elif c.branch(band(cmp('<=', 97, x), cmp('<=', x, 102))): d = sub(x, 87)
                elif len(l) == 1 or c.entails(band(*[bnot(bor(is_space(y), cmp('==', y, 43), cmp('==', y, 45), cmp('==', y, 95), cmp('>=', y, 128))) for y in l])):
                    throw(ValueError, 'invalid literal for int() with base 16')
                else: raise Unsupported('int(_, 16) of a non-digit')
                v = add(mul(v, 16), d)
            else: raise Unsupported('int base')
        return sub(0, v) if neg else v
    # unknown length: digits only
    if base == 10:
        for p in q.pieces:
            if isinstance(p, Dec): continue
            if isinstance(p, Lit):
                if not c.entails(band(*[is_decimal(x) for x in p.items])): raise Unsupported('int() of mixed text')
            elif isinstance(p, Gen):
                k = c.fresh_int('dk', p.lo)
                if not c.entails(imp(cmp('<', k, p.hi), is_decimal(p.base.elem(k)))): raise Unsupported('int() of text of unknown content')
            else: raise Unsupported('int() of %r' % (p,))
        if not c.branch(cmp('>', seq_len(q), 0)): throw(ValueError, 'invalid literal for int()')
        return int_value(q)
    raise Unsupported('int() of symbolic text')


def int_value(q):
    """the (uninterpreted) value of a run of decimal digits"""
    c = ctx()
    reg = c.anchors.setdefault('intval', [])
    for s, v in reg:
        if seq_same(s, q): return v
    v = c.fresh_int('intval', 0)
    reg.append((q, v))
    return v


def find_attr(cls, n):
    over = ctx().anchors.get('classattrs') or {}     # class attributes the unit makes arbitrary
    for k in cls.__mro__:
        if (k, n) in over: return over[k, n]
        if n in k.__dict__: return k.__dict__[n]
    return None


def starts_with(q, prefix):
    """condition: rope q starts with the concrete/symbolic fixed-length items (forks on lengths)"""
    c = ctx()
    conds = []
    if not isinstance(prefix, tuple): prefix = tuple(prefix)
    if len(q.pieces) == 1 and isinstance(q.pieces[0], Gen):
        p = q.pieces[0]
        return band(cmp('>=', p.len(), len(prefix)), *[cmp('==', p.base.elem(add(p.lo, i)), x) for i, x in enumerate(prefix)])
    for x in prefix:
        u = uncons(q)
        if u is None: return False
        conds.append(cmp('==', u[0], x))
        if conds[-1] is False: return False
        q = u[1]
    return band(*conds) if conds else True


def strip_ws(s, left, right):
    q = str_seq(s)
    c = ctx()
    while left:
        if not q.pieces: break
        p = q.pieces[0]
        if isinstance(p, Gen):
            st = all_or_none(p, is_space)
            if st == 'none':
                if c.branch(cmp('<', p.lo, p.hi)): break
                q = Seq(q.pieces[1:]); continue
            if st == 'all': q = Seq(q.pieces[1:]); continue
            if isinstance(p.base, SymBase):
                from . import rx
                e = rx.lead_run(p, is_space, 'space')
                if c.branch(cmp('>=', e, p.hi)): q = Seq(q.pieces[1:]); continue
                q = Seq((Gen(p.base, e, p.hi),) + q.pieces[1:]); break
        if isinstance(p, (Dec,)): break
        u = uncons(q)
        if u is None: q = EMPTY; break
        if c.branch(is_space(u[0])): q = u[1]
        else: q = lit([u[0]]) + u[1]; break
    while right:
        if not q.pieces: break
        p = q.pieces[-1]
        if isinstance(p, Gen):
            st = all_or_none(p, is_space)
            if st == 'none':
                if c.branch(cmp('<', p.lo, p.hi)): break
                q = Seq(q.pieces[:-1]); continue
            if st == 'all': q = Seq(q.pieces[:-1]); continue
            if isinstance(p.base, SymBase):
                from . import rx
                e = rx.trail_run(p, is_space, 'space')
                if c.branch(cmp('<=', e, p.lo)): q = Seq(q.pieces[:-1]); continue
                q = Seq(q.pieces[:-1] + (Gen(p.base, p.lo, e),)); break
        if isinstance(p, (Dec,)): break
        u = unsnoc(q)
        if u is None: q = EMPTY; break
        if c.branch(is_space(u[1])): q = u[0]
        else: q = u[0] + lit([u[1]]); break
    return mkstr(q)


def all_or_none(p, pred):
    """'all' / 'none' / None: pred holds for every / no element of a Gen piece"""
    c = ctx()
    k = c.anchors.setdefault('anyindex', {}).get(id(p.base))
    if k is None: c.anchors['anyindex'][id(p.base)] = k = (c.fresh_int('ak'), p.base)      # about which nothing is assumed
    k = k[0]
    inr = band(cmp('<=', 0, k), cmp('<=', p.lo, k), cmp('<', k, p.hi))
    e = p.base.elem(k)
    if c.entails(imp(inr, pred(e))): return 'all'
    if c.entails(imp(inr, bnot(pred(e)))): return 'none'
    return None


def str_method(v, n):
    I_ = None
    def m(f): return Model('str.' + n, f)
    if isinstance(v, str) and n in ('upper', 'lower', 'isspace', 'capitalize', 'title'):
        return m(lambda I, a, k: getattr(v, n)(*a))
    if n == 'format': return m(lambda I, a, k: str_format(I, v, a, k))
    if n == 'join': return m(lambda I, a, k: str_join(I, v, a[0]))
    if n in ('startswith', 'endswith'):
        def f(I, a, k):
            x = a[0]
            if isinstance(x, tuple):
                return bor(*[str_method(v, n).fn(I, [y], {}) for y in x])
            if isinstance(v, str) and isinstance(x, str): return getattr(v, n)(x)
            if hasattr(x, 'vprefix_of') and n == 'startswith': return x.vprefix_of(v)
            if not is_str(x): throw(TypeError, 'startswith first arg must be str')
            xs = str_seq(x)
            if not xs.concrete: raise Unsupported('startswith symbolic text')
            if n == 'startswith': return starts_with(str_seq(v), xs.items)
            q, cs = str_seq(v), []
            for y in reversed(xs.items):
                u = unsnoc(q)
                if u is None: return False
                cs.append(cmp('==', u[1], y)); q = u[0]
            return band(*cs) if cs else True
        return m(f)
    if n == 'find' and isinstance(v, str):
        def f(I, a, k):
            x = a[0]
            if isinstance(x, str): return v.find(x, *a[1:])
            q = str_seq(x)
            if not (q.concrete and len(q.items) == 1) or len(a) > 1: raise Unsupported('find of symbolic text')
            z = zi(-1)
            for i in range(len(v) - 1, -1, -1): z = z3.If(zi(q.items[0]) == ord(v[i]), z3.IntVal(i), z)
            return mi(z)
        return m(f)
    if n == 'isdigit' or n == 'isalnum' or n == 'isspace':
        def f(I, a, k):
            if isinstance(v, str): return getattr(v, n)()
            c = ctx()
            r = c.anchors.get('charclass')
            pred = (lambda e: char_class(n, e))
            q = str_seq(v)
            nonempty = False
            conds = []
            for p in q.pieces:
                if isinstance(p, Lit):
                    nonempty = True
                    conds += [pred(x) for x in p.items]
                elif isinstance(p, Dec): nonempty = True
                elif isinstance(p, Gen):
                    st = all_or_none(p, pred)
                    if st == 'all':
                        if not nonempty and len(q.pieces) == 1: conds.append(cmp('<', p.lo, p.hi))
                    elif st == 'none': conds.append(cmp('>=', p.lo, p.hi))
                    elif isinstance(p.base, SymBase):
                        if not all_of(p, pred): return False
                        if not nonempty and len(q.pieces) == 1: conds.append(cmp('<', p.lo, p.hi))
                    else: raise Unsupported('%s of mixed text' % n)
                else: raise Unsupported(n)
            return band(*conds) if conds else nonempty
        return m(f)
    if n in ('strip', 'lstrip', 'rstrip'):
        def f(I, a, k):
            if isinstance(v, str) and all(isinstance(x, str) for x in a): return getattr(v, n)(*a)
            if a: raise Unsupported('strip of given characters')
            return strip_ws(v, n != 'rstrip', n != 'lstrip')
        return m(f)
    if n == 'zfill':
        def f(I, a, k):
            w = a[0]
            ln = concretize_len(str_seq(v), w)
            return v if ln is None else mkstr(lit([48] * (w - ln)) + str_seq(v))
        return m(f)
    if n == 'split':
        def f(I, a, k):
            if isinstance(v, str) and all(not isinstance(x, (SStr, SInt)) for x in a): return VList(lit(v.split(*a)))
            return str_split(I, v, *a)
        return m(f)
    if n == 'encode':
        def f(I, a, k):
            if isinstance(v, str):
                try: return v.encode(*a)
                except UnicodeError as e: throw(type(e), *e.args)
            raise Unsupported('encode')
        return m(f)
    if n in ('upper', 'lower'):
        def f(I, a, k):
            if ctx().anchors.get('loose'): return loose((n, v))
            def conv(x):
                if isinstance(x, int): 
                    r = getattr(chr(x), n)()
                    if len(r) != 1: raise Unsupported('case mapping')
                    return ord(r)
                if not ctx().entails(cmp('<', x, 128)): raise Unsupported('case of non-ASCII text')
                lo, hi, d = (97, 122, -32) if n == 'upper' else (65, 90, 32)
                return mi(z3.If(z3.And(zi(x) >= lo, zi(x) <= hi), zi(x) + d, zi(x)))
            out = []
            for p in str_seq(v).pieces:
                if isinstance(p, Lit): out.append(Lit([conv(x) for x in p.items]))
                elif isinstance(p, Dec): out.append(p)
                elif isinstance(p, Gen):
                    b = p.base
                    out.append(Gen(CompBase(n, lambda k, b=b: conv(b.elem(k)), key=(n, b), length=b.length), p.lo, p.hi))
                else: raise Unsupported(n)
            return mkstr(Seq(out))
        return m(f)
    if n == 'replace':
        def f(I, a, k):
            if isinstance(v, str) and all(isinstance(x, str) for x in a): return v.replace(*a)
            if ctx().anchors.get('loose'): return loose(('replace', v) + tuple(a))
            raise Unsupported('replace')
        return m(f)
    if n == '__len__': return m(lambda I, a, k: seq_len(str_seq(v)))
    raise Unsupported('str.' + n)


def _ranges(n, hi):
    out = []
    for i in range(hi):
        if getattr(chr(i), n)():
            if out and out[-1][1] == i - 1: out[-1][1] = i
            else: out.append([i, i])
    return out


_CLASSES = {}
ALNUM_TOP = 0x2100       # str.isalnum is modelled exactly below, uninterpreted above; str.isdigit exactly everywhere


def char_class(n, e):
    if isinstance(e, int): return getattr(chr(e), n)()
    if n not in _CLASSES: _CLASSES[n] = _ranges(n, ALNUM_TOP if n == 'isalnum' else 0x110000)
    z = zi(e)
    c = ctx()
    top = 128 if c.entails(cmp('<', e, 128)) else 0x110000
    known = z3.Or([z3.And(z >= a, z <= b) if a < b else z == a for a, b in _CLASSES[n] if a < top])
    if n == 'isalnum' and top > 128: return mb(z3.If(z < ALNUM_TOP, known, z3.Function('cc_' + n, z3.IntSort(), z3.BoolSort())(z)))
    return mb(known)


def all_of(p, pred):
    """condition 'pred holds for every element of the Gen piece' (a ghost Boolean: its consequences are added when the path
    takes a side; the caller must branch on it at once)"""
    c = ctx()
    if c.choice([None, None]) == 0:
        lo, hi = p.lo, p.hi
        p.base.constrain(lambda v, k: imp(band(cmp('<=', lo, k), cmp('<', k, hi)), pred(v)))
        return True
    k = c.fresh_int('witness', p.lo)
    c.assume(cmp('<', k, p.hi))
    c.assume(bnot(pred(p.base.elem(k))))
    return False


def str_split(I, v, sep=None, maxsplit=-1):
    if not isinstance(sep, str) or len(sep) != 1: raise Unsupported('split')
    c = ctx()
    out, cur = [], EMPTY
    q = str_seq(v)
    o = ord(sep)
    left = maxsplit
    while q.pieces:
        p = q.pieces[0]
        if left == 0: cur = cur + q; break
        if isinstance(p, Dec): cur = cur + Seq((p,)); q = Seq(q.pieces[1:]); continue
        if isinstance(p, Gen):
            st = all_or_none(p, lambda e: cmp('==', e, o))
            if st == 'none': cur = cur + Seq((p,)); q = Seq(q.pieces[1:]); continue
            if st is None:
                from . import rx
                if left > 0:      # up to the first separator
                    r = rx.lead_run(p, lambda e: cmp('!=', e, o), ('split', o))
                    if c.branch(cmp('>=', r, p.hi)): cur = cur + Seq((p,)); q = Seq(q.pieces[1:]); continue
                    out.append(mkstr(cur + Seq((Gen(p.base, p.lo, r),)))); cur = EMPTY; left -= 1
                    q = Seq((Gen(p.base, add(r, 1), p.hi),) + q.pieces[1:]); continue
                if len(q.pieces) > 1 or out or cur.pieces: raise Unsupported('split of symbolic text')
                return VList(Seq((split_parts(q, o),)))
        u = uncons(q)
        if u is None: break
        q = u[1]
        if c.branch(cmp('==', u[0], o)):
            out.append(mkstr(cur)); cur = EMPTY; left -= 1
        else: cur = cur + lit([u[0]])
    out.append(mkstr(cur))
    return VList(lit(out))


def split_parts(q, o):
    """the parts of text of unknown content between separators: an unknown number (at least one) of unknown texts without the
    separator, the same ones each time"""
    c = ctx()
    reg = c.anchors.setdefault('split', [])
    for s, x, g in reg:
        if x == o and seq_same(s, q): return g
    n = c.fresh_int('n_parts', 1)
    memo = {}

    def part(k):
        kk = z3.simplify(zi(k)).sexpr()
        if kk not in memo:
            m = c.fresh_int('n_part', 0)
            memo[kk] = SStr(Seq((Gen(SymBase('part', m, lambda v, j: band(cmp('<=', 0, v), cmp('<', v, 0x110000), cmp('!=', v, o))), 0, m),)))
        return memo[kk]
    g = Gen(CompBase('split', part, length=n), 0, n)
    reg.append((q, o, g))
    return g


def comp_texts(sp, p):
    """(separator + element) for the elements of a computed list of str"""
    def f(k, b=p.base):
        x = b.elem(k)
        if not is_str(x): raise Unsupported('join of values that may not be str')
        return sp + str_seq(x)
    return Seq((texts('joined', f, p.lo, p.hi),))


def str_join(I, sep, it):
    c = ctx()
    if hasattr(it, 'vjoin'): return it.vjoin(I, sep)
    r = I.iter_rope(it)
    sp = str_seq(sep)
    if r.concrete:
        out = EMPTY
        for i, x in enumerate(r.items):
            if not is_str(x): throw(TypeError, 'sequence item: expected str')
            out = out + (sp if i else EMPTY) + str_seq(x)
        return mkstr(out)
    if not sp.pieces:
        out = []
        for p in r.pieces:
            if isinstance(p, Lit):
                for x in p.items:
                    if not is_str(x): throw(TypeError, 'sequence item: expected str')
                    out.extend(str_seq(x).pieces)
            elif isinstance(p, Gen) and isinstance(p.base, CharsBase): out.append(Gen(p.base.inner, p.lo, p.hi))
            elif isinstance(p, Gen) and isinstance(p.base, CompBase):
                b = p.base
                def ch(k, b=b):
                    s = str_seq(b.elem(k))
                    if not (s.concrete and len(s.items) == 1): raise Unsupported('join of symbolic strings')
                    return s.items[0]
                if getattr(b, 'chars', None) is not None: out.append(Gen(b.chars, p.lo, p.hi)); continue
                out.append(Gen(CompBase('join_' + b.name, ch, key=('join', b), length=b.length), p.lo, p.hi))
            else: raise Unsupported('join of %r' % (p,))
        return mkstr(Seq(out))
    if all(isinstance(p, (Gen, Lit)) for p in r.pieces):
        # first element, then (separator + element) groups
        u = uncons(r)
        if u is None: return ''
        first, rest = u
        if not is_str(first): throw(TypeError, 'sequence item: expected str')
        out = str_seq(first)
        for p in rest.pieces:
            if isinstance(p, Lit):
                for x in p.items:
                    if not is_str(x): throw(TypeError, 'sequence item: expected str')
                    out = out + sp + str_seq(x)
            elif isinstance(p.base, CharsBase): out = out + Seq((texts('joined', lambda k, b=p.base.inner: sp + lit([b.elem(k)]), p.lo, p.hi),))
            elif isinstance(p.base, CompBase): out = out + comp_texts(sp, p)
            else: raise Unsupported('join')
        return mkstr(out)
    raise Unsupported('join with separator over symbolic list')


# -- attribute access ----------------------------------------------------------------------------------------------------
def getattribute(I, o, n):
    h = getattr(o, 'vgetattr', None)
    if h:
        r = h(I, n)
        if r is not NotImplemented: return r
    if isinstance(o, Poison): raise Unsupported('stale value ' + o.name)
    if o is None:
        if n == '__class__': return type(None)
        throw(AttributeError, "'NoneType' object has no attribute " + n)
    if is_str(o): return str_method(o, n)
    if is_td(o): return td_attr(o, n)
    if isinstance(o, VObj):
        if o.cls is _dt.datetime:
            return o.get(n) if o.has(n) else dt_method(o, n)
        if n == '__class__': return o.cls
        a = find_attr(o.cls, n)
        if isinstance(a, property): return I.call(a.fget, [o])
        if o.has(n): return o.get(n)
        if a is None:
            if issubclass(o.cls, BaseException) and n == 'args': return ()
            g = find_attr(o.cls, '__getattr__')
            if g: return I.call(Bound(o, g), [n])
            hook = getattr(o, 'missing', None)
            if hook: return hook(I, n)
            if o.partial: raise Unsupported('attribute %s is not part of the modelled state' % n)
            throw(AttributeError, n)
        if isinstance(a, types.FunctionType): return Bound(o, a)
        if isinstance(a, classmethod): return Bound(o.cls, a.__func__)
        if isinstance(a, staticmethod): return a.__func__
        return lift(I, a)
    if isinstance(o, VBytes): return bytes_method(o, n)
    if isinstance(o, VList): return list_method(o, n)
    if isinstance(o, (VDict, dict)): return dict_method(o, n)
    if isinstance(o, VSet): return set_method(o, n)
    if isinstance(o, VIter):
        if n in ('__next__', 'next'): return Model(n, lambda I, a, k: do_next(I, o))
    if isinstance(o, re.Pattern):
        from . import rx
        if n == 'pattern': return o.pattern
        return Model('re.' + n, lambda I, a, k: rx.pattern_method(I, o, n, a, k))
    if isinstance(o, logging.Logger): return Model('log.' + n, lambda I, a, k: None)
    if isinstance(o, Closure):
        if n in o.attrs: return o.attrs[n]
    if o is _dt.datetime and n == 'strptime': return Model('strptime', strptime)
    if isinstance(o, (tuple, list, set, frozenset, bytes)):
        return Model(n, lambda I, a, k: getattr(o, n)(*a))
    if isinstance(o, (types.ModuleType, type)):
        if not hasattr(o, n): throw(AttributeError, n)
        if isinstance(o, type) and ctx().anchors.get('classattrs'):
            v = find_attr(o, n)
            if any(v is x for x in ctx().anchors['classattrs'].values()): return v
        v = getattr(o, n)
        key = (o.__name__, n)
        if key in FUNCS and isinstance(o, types.ModuleType): return Model('%s.%s' % key, FUNCS[key])
        if (o is dict) and n in ('keys', 'values', 'items'):
            return Model('dict.' + n, lambda I, a, k: I.call(getattribute(I, a[0], n), []))
        return lift(I, v)
    raise Unsupported('attribute %s of %r' % (n, type(o).__name__))


def setattribute(I, o, n, v):
    h = getattr(o, 'vsetattr', None)
    if h: return h(I, n, v)
    if isinstance(o, VObj):
        a = find_attr(o.cls, n)
        if isinstance(a, property):
            if a.fset is None: throw(AttributeError, n)
            I.call(a.fset, [o, v]); return
        if o.partial and not o.has(n): raise Unsupported('attribute %s is not part of the modelled state' % n)
        o.set(n, v); return
    if isinstance(o, Closure): o.attrs[n] = v; return
    if isinstance(o, type):
        I.globals_written[(id(o), n)] = v
        hook = ctx().anchors.get('classattr')
        if hook: hook(o, n, v); return
    raise Unsupported('attribute assignment on %r' % type(o).__name__)


def do_next(I, it, *default):
    r = I.next_of(it)
    if r is None:
        if default: return default[0]
        throw(StopIteration)
    return r[0]


def list_method(v, n):
    def m(f): return Model('list.' + n, f)
    if n == 'append':
        def f(I, a, k): v.seq = v.seq + lit([a[0]])
        return m(f)
    if n == 'extend':
        def f(I, a, k): v.seq = v.seq + I.iter_rope(a[0])
        return m(f)
    if n == 'insert':
        def f(I, a, k):
            i = norm_index(v.seq, a[0])
            l, r = split_at(v.seq, i)
            v.seq = l + lit([a[1]]) + r
        return m(f)
    if n == 'pop':
        def f(I, a, k):
            if not a or (isinstance(a[0], int) and a[0] == -1):
                u = unsnoc(v.seq)
                if u is None: throw(IndexError, 'pop from empty list')
                v.seq = u[0]; return u[1]
            if isinstance(a[0], int) and a[0] == 0:
                u = uncons(v.seq)
                if u is None: throw(IndexError, 'pop from empty list')
                v.seq = u[1]; return u[0]
            i = a[0]
            n_ = seq_len(v.seq)
            c = ctx()
            if c.branch(cmp('<', i, 0)): i = add(i, n_)
            if c.branch(bor(cmp('<', i, 0), cmp('>=', i, n_))): throw(IndexError, 'pop index out of range')
            l, r = split_at(v.seq, i)
            u = uncons(r)
            v.seq = l + u[1]; return u[0]
        return m(f)
    if n == 'index': pass
    if n == 'copy': return m(lambda I, a, k: VList(v.seq))
    if n == 'reverse' and v.seq.concrete:
        def f(I, a, k): v.seq = lit(list(reversed(v.seq.items)))
        return m(f)
    raise Unsupported('list.' + n)


def bytes_method(v, n):
    def m(f): return Model('bytearray.' + n, f)
    if n == 'append':
        def f(I, a, k): I.check_byte(a[0]); v.seq = v.seq + lit([a[0]])
        return m(f)
    if n == 'extend':
        def f(I, a, k): v.seq = v.seq + I.byte_rope(a[0])
        return m(f)
    if n == 'copy': return m(lambda I, a, k: VBytes(v.seq))
    raise Unsupported('bytearray.' + n)


def live_items(d):
    return d.items if isinstance(d, VDict) else list(dict.items(d))


def dict_find(I, d, k):
    """index of the entry equal to k (forks) or None"""
    for i, (kk, _) in enumerate(live_items(d)):
        c = (kk == k) if isinstance(k, (int, str)) and isinstance(kk, (int, str)) else val_eq(kk, k)
        if c is False: continue
        if ctx().branch(c): return i
    return None


def dict_method(v, n):
    def m(f): return Model('dict.' + n, f)
    if n == 'keys': return m(lambda I, a, k: VList(lit([x for x, _ in live_items(v)])))
    if n == 'values': return m(lambda I, a, k: VList(lit([x for _, x in live_items(v)])))
    if n == 'items': return m(lambda I, a, k: VList(lit([(x, y) for x, y in live_items(v)])))
    if n == 'get':
        def f(I, a, k):
            if isinstance(a[0], (SInt, SStr)) and isinstance(v, dict):
                pass
            i = dict_find(I, v, a[0])
            return live_items(v)[i][1] if i is not None else (a[1] if len(a) > 1 else None)
        return m(f)
    if n == 'update':
        def f(I, a, k):
            for kk, x in live_items(a[0]): setitem(I, v, kk, x)
            for kk, x in k.items(): setitem(I, v, kk, x)
        return m(f)
    if n == 'pop':
        def f(I, a, k):
            i = dict_find(I, v, a[0])
            if i is None:
                if len(a) > 1: return a[1]
                throw(KeyError, a[0])
            x = v.items[i][1]; v.items = v.items[:i] + v.items[i + 1:]
            return x
        return m(f)
    if n == 'setdefault':
        def f(I, a, k):
            i = dict_find(I, v, a[0])
            if i is not None: return v.items[i][1]
            setitem(I, v, a[0], a[1]); return a[1]
        return m(f)
    if n == 'clear':
        def f(I, a, k): v.items = []
        return m(f)
    if n == 'copy': return m(lambda I, a, k: VDict(live_items(v)))
    raise Unsupported('dict.' + n)


def set_method(v, n):
    def f_add(I, a, k):
        if not ctx().branch(contains(I, v, a[0])): v.items = v.items + [a[0]]
    def f_discard(I, a, k):
        for i, x in enumerate(v.items):
            if ctx().branch(val_eq(x, a[0])): v.items = v.items[:i] + v.items[i + 1:]; return
    if n == 'add': return Model(n, f_add)
    if n == 'discard': return Model(n, f_discard)
    raise Unsupported('set.' + n)


def make_set(I, items):
    s = VSet()
    for x in items: set_method(s, 'add').fn(I, [x], {})
    return s


# -- subscripts ------------------------------------------------------------------------------------------------------------
def plain_slice(k):
    return k.step is None or (isinstance(k.step, int) and k.step == 1)


def getitem(I, o, k):
    h = getattr(o, 'vgetitem', None)
    if h: return h(I, k)
    if isinstance(k, Poison) or isinstance(o, Poison): raise Unsupported('stale value')
    if o is None: throw(TypeError, "'NoneType' object is not subscriptable")
    if isinstance(k, slice):
        if isinstance(o, (str, tuple, bytes)) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)): return o[k]
        if not plain_slice(k):
            s = str_seq(o) if is_str(o) else o.seq
            if isinstance(k.step, int) and k.step == -1 and k.start is None and k.stop is None and s.concrete: r = lit(list(reversed(s.items)))
            else: raise Unsupported('slice step')
        else: r = seq_slice(str_seq(o) if is_str(o) else bytes_seq(o) if isinstance(o, (VBytes, bytes)) else list_seq(o), k.start, k.stop)
        if is_str(o): return mkstr(r)
        return VBytes(r) if isinstance(o, (VBytes, bytes)) else VList(r)
    if is_str(o):
        if isinstance(o, str) and isinstance(k, int):
            try: return o[k]
            except IndexError: throw(IndexError, 'string index out of range')
        if not is_intlike(k): throw(TypeError, 'string indices must be integers')
        if isinstance(o, str): return table_char(o, k)
        r = seq_index(str_seq(o), k)
        if r is None: throw(IndexError, 'string index out of range')
        return mkstr(lit([r[0]]))
    if isinstance(o, (VList, VBytes, list, bytes)):
        if not is_intlike(k): throw(TypeError, 'list indices must be integers')
        r = seq_index(bytes_seq(o) if isinstance(o, (VBytes, bytes)) else list_seq(o), k)
        if r is None: throw(IndexError, 'list index out of range')
        return r[0]
    if isinstance(o, tuple):
        if isinstance(k, int):
            try: return o[k]
            except IndexError: throw(IndexError, 'tuple index out of range')
        r = seq_index(lit(o), k)
        if r is None: throw(IndexError)
        return r[0]
    if isinstance(o, dict) and not isinstance(k, (int, str, bool, type(None), type)):
        return live_dict_get(I, o, k)
    if isinstance(o, (VDict, dict)):
        i = dict_find(I, o, k)
        if i is None: throw(KeyError, k)
        return live_items(o)[i][1]
    if isinstance(o, VObj):
        m = find_attr(o.cls, '__getitem__')
        if m: return I.call(Bound(o, m), [k])
    throw(TypeError, 'object is not subscriptable')


def table_char(s, k):
    """constant string indexed by a symbolic integer"""
    c = ctx()
    if c.branch(cmp('<', k, 0)): raise Unsupported('negative table index')
    if not c.branch(cmp('<', k, len(s))): throw(IndexError, 'string index out of range')
    z = z3.IntVal(ord(s[-1]))
    for i in range(len(s) - 2, -1, -1): z = z3.If(zi(k) == i, z3.IntVal(ord(s[i])), z)
    return mkstr(lit([mi(z)]))


def live_dict_get(I, d, k):
    """constant table looked up with a symbolic key: single value when all values are single characters"""
    c = ctx()
    if is_str(k) and all(isinstance(x, str) and len(x) == 1 for x in d) and all(isinstance(x, str) and len(x) == 1 for x in d.values()):
        q = str_seq(k)
        if q.concrete and len(q.items) == 1:
            x = q.items[0]
            if not c.branch(bor(*[cmp('==', x, ord(y)) for y in d])): throw(KeyError, k)
            z = None
            for y, v in d.items(): z = z3.IntVal(ord(v)) if z is None else z3.If(zi(x) == ord(y), z3.IntVal(ord(v)), z)
            return mkstr(lit([mi(z)]))
    i = dict_find(I, d, k)
    if i is None: throw(KeyError, k)
    return live_items(d)[i][1]


def setitem(I, o, k, v):
    h = getattr(o, 'vsetitem', None)
    if h: return h(I, k, v)
    if isinstance(o, VDict):
        i = dict_find(I, o, k)
        if i is None: o.items = o.items + [(k, v)]
        else: o.items = o.items[:i] + [(o.items[i][0], v)] + o.items[i + 1:]
        return
    if isinstance(o, (VList, VBytes)):
        if isinstance(k, slice):
            if not plain_slice(k): raise Unsupported('extended slice assignment')
            n = seq_len(o.seq)
            a = 0 if k.start is None else norm_index(o.seq, k.start, n)
            b = n if k.stop is None else norm_index(o.seq, k.stop, n)
            if ctx().branch(cmp('<', b, a)): b = a
            l, r = split_at(o.seq, a)
            _, r = split_at(r, sub(b, a))
            o.seq = l + I.iter_rope(v) + r
            return
        n = seq_len(o.seq)
        c = ctx()
        if c.branch(cmp('<', k, 0)): k = add(k, n)
        if c.branch(bor(cmp('<', k, 0), cmp('>=', k, n))): throw(IndexError, 'assignment index out of range')
        l, r = split_at(o.seq, k)
        o.seq = l + lit([v]) + uncons(r)[1]
        return
    if isinstance(o, VObj):
        m = find_attr(o.cls, '__setitem__')
        if m: I.call(Bound(o, m), [k, v]); return
    raise Unsupported('item assignment')


def delitem(I, o, k):
    h = getattr(o, 'vdelitem', None)
    if h: return h(I, k)
    if isinstance(o, VDict):
        i = dict_find(I, o, k)
        if i is None: throw(KeyError, k)
        o.items = o.items[:i] + o.items[i + 1:]; return
    if isinstance(o, (VList, VBytes)):
        n = seq_len(o.seq)
        c = ctx()
        if isinstance(k, slice):
            if not plain_slice(k): raise Unsupported('del slice step')
            a = 0 if k.start is None else norm_index(o.seq, k.start, n)
            l, r = split_at(o.seq, a)
            if k.stop is None: o.seq = l; return
            b = norm_index(o.seq, k.stop, n)
            if c.branch(cmp('<=', b, a)): return
            o.seq = l + split_at(r, sub(b, a))[1]; return
        if c.branch(cmp('<', k, 0)): k = add(k, n)
        if c.branch(bor(cmp('<', k, 0), cmp('>=', k, n))): throw(IndexError, 'index out of range')
        l, r = split_at(o.seq, k)
        o.seq = l + uncons(r)[1]; return
    if isinstance(o, VObj):
        m = find_attr(o.cls, '__delitem__')
        if m: I.call(Bound(o, m), [k]); return
    raise Unsupported('del item')


# -- construction and builtins ---------------------------------------------------------------------------------------------
class Super:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
    def vgetattr(self, I, n):
        mro = (self.obj.cls if isinstance(self.obj, VObj) else self.obj).__mro__
        for k in mro[mro.index(self.cls) + 1:]:
            if n in k.__dict__:
                a = k.__dict__[n]
                if isinstance(a, staticmethod) or n == '__new__':
                    if issubclass(k, BaseException) and not isinstance(a, staticmethod): return Model('exception new', lambda I, a, kw: VObj(a[0], {'args': tuple(a[1:])}))
                    if k is object: return Model('object.__new__', lambda I, a, kw: VObj(a[0]))
                    return a.__func__ if isinstance(a, staticmethod) else a
                if isinstance(a, classmethod): return Bound(self.obj, a.__func__)
                if isinstance(a, property): return I.call(a.fget, [self.obj])
                if k is object and n == '__init__': return Model('object.__init__', lambda I, a, kw: None)
                if issubclass(k, BaseException) and not isinstance(a, types.FunctionType):
                    o = self.obj
                    if n == '__init__':
                        def init(I, a, kw): o.set('args', tuple(a))
                        return Model('exc init', init)
                    if n == '__str__': return Model('exc str', lambda I, a, kw: mkstr(Seq((opaque_str(('excstr', id(o))),))))
                return Bound(self.obj, a) if isinstance(a, types.FunctionType) else lift(I, a)
        throw(AttributeError, n)


def make_super(I, args, fr):
    if args: return Super(args[0], args[1])
    # zero-argument form: the class named by the enclosing class definition
    f = fr
    cls = fr.globals.get(fr.clsname)
    first = next(iter(fr.locals.values()))
    return Super(cls, first)


def construct(I, cls, args, kwargs):
    h = ctx().anchors.get('construct', {}).get(cls)
    if h: return h(I, args, kwargs)
    if cls is TD: return make_td(I, args, kwargs)
    if cls is _dt.datetime: raise Unsupported('datetime()')
    if cls is bytearray:
        if not args: return VBytes()
        if is_int(args[0]): raise Unsupported('bytearray(n)')
        return VBytes(I.byte_rope(args[0]))
    if cls is bytes:
        if args and isinstance(args[0], str): return call_plain(bytes, args, kwargs)
        if args and isinstance(args[0], SStr):
            if list(args[1:]) != ['ascii'] or kwargs: raise Unsupported('bytes(text)')
            q = str_seq(args[0])
            for p in q.pieces:
                if isinstance(p, Lit): ok = ctx().branch(band(*[cmp('<', x, 128) for x in p.items]))
                elif isinstance(p, Gen):
                    ok = all_or_none(p, lambda e: cmp('<', e, 128)) == 'all'
                    if not ok:
                        if not isinstance(p.base, SymBase): raise Unsupported('bytes(text)')
                        ok = all_of(p, lambda e: cmp('<', e, 128))
                else: raise Unsupported('bytes(text)')
                if not ok: throw(UnicodeEncodeError, 'ascii', '', 0, 1, 'ordinal not in range(128)')
            return imm_bytes(q)
        if args and isinstance(args[0], (VBytes, bytes)): return imm_bytes(bytes_seq(args[0]))
        raise Unsupported('bytes()')
    if cls is list: return VList(I.iter_rope(args[0]) if args else EMPTY)
    if cls is tuple: return tuple(I.list_items(args[0])) if args else ()
    if cls is dict:
        d = VDict()
        if args: dict_method(d, 'update').fn(I, args, kwargs)
        for k, v in kwargs.items(): setitem(I, d, k, v)
        return d
    if cls in (set, frozenset): return make_set(I, I.list_items(args[0]) if args else [])
    if cls is int:
        if not args: return 0
        x = args[0]
        if is_str(x): return int_of_str(I, x, *args[1:])
        if isinstance(x, (SReal, float)): return trunc(x)
        if isinstance(x, (bool, SBool)): return mi(zi(x))
        if is_int(x): return x
        h = getattr(x, 'vint', None)
        if h: return h(I)
        if x is None: throw(TypeError, 'int() argument must be a string or a number')
        raise Unsupported('int()')
    if cls is float:
        n, d = as_rat(args[0])
        return mkreal(n, d)
    if cls is bool: return I.truth_cond(args[0]) if args else False
    if cls is str:
        if len(args) == 2 and isinstance(args[0], VBytes) and args[1] == 'ascii':
            for p in args[0].seq.pieces:
                if isinstance(p, Lit): ok = ctx().branch(band(*[cmp('<', x, 128) for x in p.items]))
                else: ok = isinstance(p, Gen) and all_or_none(p, lambda e: cmp('<', e, 128)) == 'all'
                if not ok: raise Unsupported('str(octets)')
            return mkstr(args[0].seq)
        if len(args) > 1: raise Unsupported('str()')
        return to_str(I, args[0]) if args else ''
    if cls is type: return type_of(args[0])
    if cls in (range,):
        a = list(args)
        if len(a) == 1: a = [0, a[0], 1]
        if len(a) == 2: a.append(1)
        return VRange(*a)
    if cls is zip: return do_zip(I, args)
    if cls is map: return do_map(I, args)
    if cls is enumerate: return do_enumerate(I, args)
    if cls is reversed:
        return VIter(lit(list(reversed(I.list_items(args[0])))))
    if cls is weakref.WeakValueDictionary: return VDict()
    from . import binding
    new = find_attr(cls, '__new__')
    if isinstance(new, staticmethod): new = new.__func__
    if issubclass(cls, BaseException):
        o = I.call(new, [cls] + list(args), kwargs) if isinstance(new, types.FunctionType) and binding.in_repo(new) else VObj(cls, {'args': tuple(args)})
        if not (isinstance(o, VObj) and issubclass(o.cls, cls)): return o
        init = find_attr(o.cls, '__init__')
        if isinstance(init, types.FunctionType): I.call(Bound(o, init), args, kwargs)
        return o
    if isinstance(new, types.FunctionType) and binding.in_repo(new): o = I.call(new, [cls] + list(args), kwargs)
    elif cls.__module__.startswith(('gsmmodem', 'gsmtermlib')) or issubclass(cls, _dt.tzinfo): o = VObj(cls)
    else: raise Unsupported('construction of %s.%s' % (cls.__module__, cls.__name__))
    if isinstance(o, VObj) and issubclass(o.cls, cls):
        init = find_attr(o.cls, '__init__')
        if isinstance(init, types.FunctionType): I.call(Bound(o, init), args, kwargs)
        elif args or kwargs: throw(TypeError, 'object() takes no parameters')
    return o


def type_of(v):
    if isinstance(v, (SInt,)): return int
    if hasattr(v, 'vtype'): return v.vtype
    if isinstance(v, SBool): return bool
    if isinstance(v, SReal): return float
    if is_str(v): return str
    if isinstance(v, (VBytes, VList, VDict, VSet, VObj)): return v.cls
    h = getattr(v, 'vtype', None)
    if h: return h
    if isinstance(v, (VIter, VRange, Closure, Model, Bound, Opaque)): return getattr(v, 'cls', object)
    return type(v)


def do_zip(I, args):
    its = [I.get_iter(a) for a in args]
    if all(not hasattr(i, 'vnext') for i in its) and any(not i.rest.concrete for i in its):
        # positional pairing of ropes (consumes what zip would consume)
        if any(i is a for i, a in zip(its, args)): ctx().anchors['lossy'] = True
        rs = [i.rest for i in its]
        if len(rs) != 2: raise Unsupported('zip')
        a, b = rs
        c = ctx()
        la, lb = seq_len(a), seq_len(b)
        if c.branch(cmp('<=', la, lb)):
            l, r = split_at(b, la)
            first, second = a, l
            its[0].rest = EMPTY; its[1].rest = r
        else:
            l, r = split_at(a, add(lb, 1))       # zip takes one more from the first before noticing the end of the second
            first, second = split_at(a, lb)[0], b
            its[0].rest = r; its[1].rest = EMPTY
        w0, w1 = its[0].wrap, its[1].wrap
        n = la if second is l else lb
        key = None

        def at(s, w, k):
            r = seq_index(s, k)
            if r is None: raise PathEnd()
            return w(r[0])
        base = CompBase('zip', lambda k: (at(first, w0, k), at(second, w1, k)))
        it = VIter(Seq((Gen(base, 0, n),)))
        if getattr(its[1], 'plain', False): it.pairsecond = second
        it.origins = its[0].origins + its[1].origins
        return it
    out = []
    while True:
        row = []
        for i in its:
            r = I.next_of(i)
            if r is None: return VIter(lit(out))
            row.append(r[0])
        out.append(tuple(row))
        if len(out) > 5000: raise Unsupported('zip')


def do_map(I, args):
    f, it = args[0], I.get_iter(args[1])
    if hasattr(it, 'vnext'): return VIter(lit([I.call(f, [x]) for x in I.iter_items(it)]))
    if it is args[1]: ctx().anchors['lossy'] = True
    r, w = it.rest, it.wrap
    it.rest = EMPTY
    out = VIter(r, lambda e: I.call(f, [w(e)]))
    out.origins = it.origins
    return out


def do_enumerate(I, args):
    it = I.get_iter(args[0])
    if hasattr(it, 'vnext') or isinstance(it, VEnum): raise Unsupported('enumerate')
    return VEnum(it, args[1] if len(args) > 1 else 0)


def call_plain(f, args, kwargs):
    try: return f(*args, **kwargs)
    except Exception as e: throw(type(e), *e.args)


def is_plain(v):
    if isinstance(v, (int, float, str, bytes, bool, type(None), type, re.Pattern)): return True
    if isinstance(v, (tuple,)): return all(map(is_plain, v))
    return False


def b_len(I, a, k):
    v = a[0]
    if is_str(v): return seq_len(str_seq(v))
    if isinstance(v, (VBytes, VList)): return seq_len(v.seq)
    if isinstance(v, (VDict, VSet)): return len(v.items)
    if isinstance(v, (tuple, list, dict, bytes, set, frozenset)): return len(v)
    if isinstance(v, VRange):
        s = v.seq(); return seq_len(s)
    h = getattr(v, 'vlen', None)
    if h: return h()
    if isinstance(v, VObj):
        m = find_attr(v.cls, '__len__')
        if m: return I.call(Bound(v, m), [])
    throw(TypeError, 'object has no len()')


def b_ord(I, a, k):
    if isinstance(a[0], bytes) and len(a[0]) == 1: return a[0][0]
    s = str_seq(a[0]) if is_str(a[0]) else None
    if s is None: throw(TypeError, 'ord() expected string of length 1')
    if not s.concrete or len(s.items) != 1:
        if s.concrete: throw(TypeError, 'ord() expected a character')
        raise Unsupported('ord')
    return s.items[0]


def b_chr(I, a, k):
    x = a[0]
    if isinstance(x, int):
        if not 0 <= x < 0x110000: throw(ValueError, 'chr() arg not in range')
        return chr(x)
    if not ctx().branch(band(cmp('<=', 0, x), cmp('<', x, 0x110000))): throw(ValueError, 'chr() arg not in range')
    return mkstr(lit([x]))


def b_hex(I, a, k):
    x = a[0]
    if isinstance(x, int): return hex(x)
    c = ctx()
    if not c.entails(band(cmp('<=', 0, x), cmp('<', x, 256))): raise Unsupported('hex')
    return HexStr(x, 0)


class HexStr(SStr):
    """hex(x)[drop:] of an octet; its length is only decided (forking) when it matters"""
    __slots__ = ('x', 'drop', 'got')
    def __init__(self, x, drop): self.x, self.drop, self.got = x, drop, None
    @property
    def seq(self):
        if self.got is None:
            x = self.x
            l = [48, 120, hexdigit(x, False)] if ctx().branch(cmp('<', x, 16)) else [48, 120, hexdigit(floordiv(x, 16), False), hexdigit(mod(x, 16), False)]
            self.got = lit(l[self.drop:])
        return self.got
    def vgetitem(self, I, k):
        if isinstance(k, slice) and k.step is None and k.stop is None and isinstance(k.start, int) and self.drop == 0 and k.start == 2: return HexStr(self.x, 2)
        return getitem(I, SStr(self.seq), k)
    def vgetattr(self, I, n):
        if n == 'zfill' and self.drop == 2:
            def f(I, a, k):
                if a[0] == 2: return mkstr(lit([hexdigit(floordiv(self.x, 16), False), hexdigit(mod(self.x, 16), False)]))
                return str_method(SStr(self.seq), n).fn(I, a, k)
            return Model('str.zfill', f)
        return NotImplemented


def b_isinstance(I, a, k):
    t = type_of(a[0])
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(issubclass(t, x) for x in ts)


def b_minmax(f):
    def g(I, a, k):
        if k: raise Unsupported('min/max with keywords')
        vals = list(a) if len(a) > 1 else I.list_items(a[0])
        if not vals: throw(ValueError, 'empty sequence')
        r = vals[0]
        for x in vals[1:]:
            if not (is_int(r) and is_int(x)): raise Unsupported('min/max')
            r = ite(cmp('<', x, r), x, r) if f is min else ite(cmp('>', x, r), x, r)
        return r
    return g


def b_anyall(isany):
    def g(I, a, k):
        for x in I.iter_items(I.get_iter(a[0])):
            if I.truth(x) == isany: return isany
        return not isany
    return g


def b_getattr(I, a, k):
    try: return getattribute(I, a[0], a[1])
    except PyExc as e:
        if issubclass(e.cls, AttributeError) and len(a) > 2: return a[2]
        raise


def b_hasattr(I, a, k):
    try: getattribute(I, a[0], a[1]); return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError): return False
        raise


def b_sum(I, a, k):
    r = a[1] if len(a) > 1 else 0
    for x in I.list_items(a[0]): r = add(r, x)
    return r


def b_sorted(I, a, k):
    items = I.list_items(a[0])
    if all(isinstance(x, (int, str)) for x in items) and not k: return VList(lit(sorted(items)))
    raise Unsupported('sorted')


def b_round(I, a, k):
    if isinstance(a[0], int): return a[0]
    n, d = as_rat(a[0])
    if isinstance(n, int): return round(Fraction(n, d))
    # round half to even
    z = zi(n)
    q, r = z / d, z % d
    return mi(z3.If(2 * r < d, q, z3.If(2 * r > d, q + 1, z3.If(q % 2 == 0, q, q + 1))))


def b_abs(I, a, k):
    x = a[0]
    if isinstance(x, int): return abs(x)
    return mi(z3.If(zi(x) < 0, -zi(x), zi(x)))


def b_ceil(I, a, k):
    n, d = as_rat(a[0])
    if isinstance(n, int): return math.ceil(Fraction(n, d))
    return mi((zi(n) + (d - 1)) / d)


def b_iter(I, a, k): return I.get_iter(a[0])


def throw_exit(a): raise PyExc(VObj(SystemExit, {'args': tuple(a)}))


BUILTINS = {len: b_len, ord: b_ord, chr: b_chr, hex: b_hex, isinstance: b_isinstance, min: b_minmax(min), max: b_minmax(max), any: b_anyall(True), all: b_anyall(False),
            getattr: b_getattr, hasattr: b_hasattr, sum: b_sum, sorted: b_sorted, round: b_round, abs: b_abs, math.ceil: b_ceil, iter: b_iter,
            next: lambda I, a, k: do_next(I, *a), print: lambda I, a, k: (ctx().anchors.get('print') or (lambda a, k: None))(a, k),
            math.floor: lambda I, a, k: floordiv(*as_rat(a[0])),
            issubclass: lambda I, a, k: issubclass(*a),
            sys.exit: lambda I, a, k: throw_exit(a),
            callable: lambda I, a, k: isinstance(a[0], (Bound, Closure, Model, types.FunctionType, type)),
            repr: lambda I, a, k: mkstr(Seq((opaque_str(('repr', id(a[0]))),))),
            divmod: lambda I, a, k: (floordiv(*a), mod(*a)),
            dict.items: lambda I, a, k: I.call(getattribute(I, a[0], 'items'), []),
            dict.keys: lambda I, a, k: I.call(getattribute(I, a[0], 'keys'), []),
            dict.values: lambda I, a, k: I.call(getattribute(I, a[0], 'values'), []),
            weakref.proxy: lambda I, a, k: a[0]}


def call_builtin(I, f, args, kwargs):
    h = None
    try: h = ctx().anchors.get('construct', {}).get(f) or BUILTINS.get(f)
    except TypeError: pass
    if h is None:
        for k, v in BUILTINS.items():
            if k is f: h = v
    if h: return h(I, args, kwargs)
    h = getattr(f, 'vcall', None)
    if h: return h(I, args, kwargs)
    if isinstance(f, VObj):
        m = find_attr(f.cls, '__call__')
        if m: return I.call(Bound(f, m), args, kwargs)
        throw(TypeError, 'object is not callable')
    if f is None or isinstance(f, (int, str, VList, VBytes)): throw(TypeError, 'object is not callable')
    s = getattr(f, '__self__', None)
    if isinstance(s, dict) and all(is_plain(a) for a in args): return call_plain(f, args, kwargs)
    if isinstance(f, types.MethodWrapperType) or isinstance(f, types.BuiltinFunctionType):
        if s is None or isinstance(s, types.ModuleType) or is_plain(s):
            key = (getattr(f, '__module__', None), f.__name__)
            if key in FUNCS: return FUNCS[key](I, args, kwargs)
            if all(map(is_plain, args)) and all(map(is_plain, kwargs.values())) and key[0] in ('builtins', 'math', 'operator'): return call_plain(f, args, kwargs)
    raise Unsupported('call of %r' % (f,))


# -- library functions ---------------------------------------------------------------------------------------------------------
def f_copy(I, a, k):
    o = a[0]
    if isinstance(o, VObj): return VObj(o.cls, dict(o._attrs))
    if isinstance(o, VList): return VList(o.seq)
    if isinstance(o, VBytes): return VBytes(o.seq)
    if isinstance(o, VDict): return VDict(o.items)
    raise Unsupported('copy')


def f_sleep(I, a, k):
    h = ctx().anchors.get('sleep')
    return h(I, a) if h else None


class HexBase(Base):
    """ASCII codes of the lower-case hexadecimal digits of octets"""
    def __init__(self, b): self.b = b; self.name = 'hex_' + b.name; self.length = None if b.length is None else mul(2, b.length)
    def elem(self, k):
        e = zi(self.b.elem(mi(zi(k) / 2)))
        d = mi(z3.If(zi(k) % 2 == 0, e / 16, e % 16))
        return hexdigit(d, False)
    def same(self, o): return self is o or (isinstance(o, HexBase) and self.b.same(o.b))


def is_hex(x): return bor(is_digit(x), band(cmp('<=', 65, x), cmp('<=', x, 70)), band(cmp('<=', 97, x), cmp('<=', x, 102)))


def hexval(x): return mi(z3.If(zi(x) <= 57, zi(x) - 48, z3.If(zi(x) <= 70, zi(x) - 55, zi(x) - 87)))


class UnhexBase(Base):
    """octets given by pairs of hexadecimal digits, from position lo"""
    def __init__(self, b, lo): self.b, self.lo = b, lo; self.name = 'unhex_' + b.name; self.length = None
    def elem(self, k):
        j = add(self.lo, mul(2, k))
        return mi(16 * zi(hexval(self.b.elem(j))) + zi(hexval(self.b.elem(add(j, 1)))))


def f_decode(I, a, k):
    import binascii
    x, enc = a[0], a[1]
    if is_plain(x) and is_plain(enc):
        try: return call_plain(codecs.decode, a, k)
        except PyExc as e: raise
    if enc not in ('hex_codec', 'hex') or not isinstance(x, (VBytes, bytes)): raise Unsupported('codecs.decode')
    q, c = bytes_seq(x), ctx()
    if not c.branch(mb(zi(seq_len(q)) % 2 == 0)): throw(binascii.Error, 'Odd-length string')
    if q.concrete:
        if not c.branch(band(*[is_hex(e) for e in q.items])): throw(binascii.Error, 'Non-hexadecimal digit found')
        l = q.items
        return imm_bytes(lit([mi(16 * zi(hexval(l[i])) + zi(hexval(l[i + 1]))) for i in range(0, len(l), 2)]))
    if len(q.pieces) != 1 or not isinstance(q.pieces[0], Gen): raise Unsupported('hex decoding of %r' % (q,))
    g = q.pieces[0]
    st = all_or_none(g, is_hex)
    if st != 'all':
        if not isinstance(g.base, SymBase): raise Unsupported('hex decoding of mixed text')
        if not all_of(g, is_hex): throw(binascii.Error, 'Non-hexadecimal digit found')
    return imm_bytes(Seq((Gen(UnhexBase(g.base, g.lo), 0, mi((zi(g.hi) - zi(g.lo)) / 2)),)))


def imm_bytes(seq):
    b = VBytes(seq); b.cls = bytes
    return b


def f_encode(I, a, k):
    x, enc = a[0], a[1]
    if enc in ('hex_codec', 'hex') and isinstance(x, VBytes):
        out = []
        for p in x.seq.pieces:
            if isinstance(p, Lit):
                for e in p.items: out.append(Lit([hexdigit(floordiv(e, 16), False), hexdigit(mod(e, 16), False)]))
            elif isinstance(p, Gen): out.append(Gen(HexBase(p.base), mul(2, p.lo), mul(2, p.hi)))
            else: raise Unsupported('hex of symbolic octets')
        return imm_bytes(Seq(out))
    raise Unsupported('codecs.encode')


def f_re_compile(I, a, k):
    if is_plain(a[0]): return call_plain(re.compile, a, k)
    h = getattr(a[0], 'vcompile', None)
    if h: return h(I)
    raise Unsupported('re.compile of symbolic pattern')


def f_re_match(n):
    def f(I, a, k):
        from . import rx
        return rx.pattern_method(I, f_re_compile(I, [a[0]] + a[2:], k), n, [a[1]], {})
    return f


def f_open(I, a, k):
    h = ctx().anchors.get('open')
    if h: return h(I, a, k)
    raise Unsupported('open')


FUNCS = {('copy', 'copy'): f_copy, ('io', 'open'): f_open, ('_io', 'open'): f_open, ('time', 'sleep'): f_sleep, ('codecs', 'decode'): f_decode, ('codecs', 'encode'): f_encode, ('_codecs', 'decode'): f_decode, ('_codecs', 'encode'): f_encode,
         ('re', 'compile'): f_re_compile, ('re', 'match'): f_re_match('match'), ('re', 'search'): f_re_match('search'), ('re', 'fullmatch'): f_re_match('fullmatch'),
         ('_weakref', 'proxy'): lambda I, a, k: a[0], ('_datetime', 'strptime'): strptime}
