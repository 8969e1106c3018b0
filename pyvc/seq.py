"""Symbolic sequences as immutable ropes.

A Seq is a tuple of pieces: Lit (explicit elements), Gen (a slice of a base sequence whose elements are computed on
demand), Flat (the concatenation of f(x) over a slice of a base), ZS (a z3 string).  Lengths and positions are
mathematical integers.  Operations that depend on undecided lengths fork the current path.
"""
import z3
from .core import *


class Base:
    """An infinite/finite indexed family of elements; identity (or same()) decides equality of bases."""
    name = '?'
    length = None
    def elem(self, k): raise NotImplementedError
    def same(self, other): return self is other


class SymBase(Base):
    """Uninterpreted integer sequence; cons(x) is assumed for every element read (the type invariant of the elements)."""
    def __init__(self, name, length, cons=None):
        c = ctx()
        self.name = c.name(name)
        self.length = length
        self.fn = z3.Function('el_' + self.name, z3.IntSort(), z3.IntSort())
        self.cons = [cons] if cons else []
        self.read = {}
    def constrain(self, cons):
        """assume a predicate for every element (ghost fact)"""
        self.cons.append(cons)
        for k in list(self.read.values()): ctx().assume(zb(cons(mi(self.fn(zi(k))), k)))
    def elem(self, k):
        z = self.fn(z3.simplify(zi(k)))
        key = z3.simplify(zi(k)).sexpr()
        v = SInt(z)
        if key not in self.read:
            self.read[key] = k
            for p in self.cons:
                r = p(v, k)
                if self.length is not None:
                    r = z3.Implies(z3.And(zi(k) >= 0, zi(k) < zi(self.length)), zb(r))
                ctx().assume(r)
        return v


class CompBase(Base):
    """Computed elements: f(k)."""
    def __init__(self, name, f, key=None, length=None):
        self.name, self.f, self.key, self.length = name, f, key, length
    def elem(self, k): return self.f(k)
    def same(self, other):
        return self is other or (isinstance(other, CompBase) and self.key is not None and other.key is not None
                                 and keys_same(self.key, other.key))


def keys_same(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(keys_same(x, y) for x, y in zip(a, b))
    if isinstance(a, Base) and isinstance(b, Base): return a.same(b)
    if isinstance(a, Seq) and isinstance(b, Seq): return a is b or a.pieces == b.pieces or seq_same(a, b)
    if is_int(a) and is_int(b):
        r = cmp('==', a, b)
        return r if isinstance(r, bool) else ctx().entails(r)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if type(a) != type(b): return False
    return a == b


class Piece: pass


class Lit(Piece):
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return 'Lit%r' % (self.items,)


class Gen(Piece):
    __slots__ = ('base', 'lo', 'hi')
    def __init__(self, base, lo, hi): self.base, self.lo, self.hi = base, lo, hi
    def __repr__(self): return 'Gen(%s,%s,%s)' % (self.base.name, self.lo, self.hi)
    def len(self): return sub(self.hi, self.lo)


class FlatFn:
    """f(x) -> python list of elements (may fork); lmin/lmax bound its length."""
    def __init__(self, name, f, lmin, lmax): self.name, self.f, self.lmin, self.lmax = name, f, lmin, lmax


class TextFn(FlatFn):
    """f(k) -> Seq (rope of characters) for an index k (base INDEX); compared by what it gives for an arbitrary index"""
    def __init__(self, name, f): super().__init__(ctx().name(name), f, 0, None)
    def same(self, o, lo, hi):
        if self is o: return True
        if not ctx().branch(cmp('<', lo, hi)): return True
        k = ctx().fresh_int('grp', lo)
        ctx().assume(cmp('<', k, hi))
        return seq_same(self.f(k), o.f(k))


class IndexBase(Base):
    name = 'index'
    def elem(self, k): return k


INDEX = IndexBase()


def texts(name, f, lo, hi): return Flat(TextFn(name, f), INDEX, lo, hi)


def fn_same(p, q):
    f, g = p.fn, q.fn
    return f is g or (isinstance(f, TextFn) and isinstance(g, TextFn) and f.same(g, p.lo, p.hi))


class Flat(Piece):
    __slots__ = ('fn', 'base', 'lo', 'hi')
    def __init__(self, fn, base, lo, hi): self.fn, self.base, self.lo, self.hi = fn, base, lo, hi
    def __repr__(self): return 'Flat(%s,%s,%s,%s)' % (self.fn.name, self.base.name, self.lo, self.hi)
    def W(self, k):
        return z3.Function('W_%s_%s' % (self.fn.name, self.base.name), z3.IntSort(), z3.IntSort())(z3.simplify(zi(k)))
    def len(self):
        if isinstance(self.lo, int) and isinstance(self.hi, int) and self.lo == self.hi: return 0
        d = self.W(self.hi) - self.W(self.lo)
        n = zi(self.hi) - zi(self.lo)
        ctx().assume(d >= self.fn.lmin * n)
        if self.fn.lmax is not None: ctx().assume(d <= self.fn.lmax * n)
        return mi(d)
    def gseq(self, k):
        if not isinstance(self.fn, TextFn): return lit(self.group(k))
        s = self.fn.f(self.base.elem(k))
        ctx().assume(self.W(add(k, 1)) == self.W(k) + zi(seq_len(s)))
        return s
    def group(self, k):
        """elements of f(base[k]) (forks); records the length fact"""
        items = list(self.fn.f(self.base.elem(k)))
        ctx().assume(self.W(add(k, 1)) == self.W(k) + len(items))
        return items


class ZS(Piece):
    """z3 string; cls: frozenset-like character class or None; used as str only"""
    __slots__ = ('z', 'cls', 'minlen')
    def __init__(self, z, cls=None, minlen=0): self.z, self.cls, self.minlen = z, cls, minlen
    def __repr__(self): return 'ZS(%s)' % self.z
    def len(self): return mi(z3.Length(self.z))


class Dec(Piece):
    """decimal representation of a non-negative integer (as str)"""
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return 'Dec(%s)' % (self.n,)
    def len(self):
        f = z3.Function('declen', z3.IntSort(), z3.IntSort())
        ctx().assume(f(zi(self.n)) >= 1)
        return mi(f(zi(self.n)))


class Seq:
    __slots__ = ('pieces',)
    def __init__(self, pieces=()):
        out = []
        for p in pieces:
            if isinstance(p, Lit):
                if not p.items: continue
                if out and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].items + p.items); continue
            elif isinstance(p, (Gen, Flat)):
                if isinstance(p.lo, int) and isinstance(p.hi, int) and p.hi <= p.lo: continue
                if out and type(out[-1]) is type(p) and out[-1].base is p.base and \
                        (isinstance(p, Gen) or out[-1].fn is p.fn) and synt_eq(out[-1].hi, p.lo):
                    q = out[-1]
                    out[-1] = Gen(p.base, q.lo, p.hi) if isinstance(p, Gen) else Flat(p.fn, p.base, q.lo, p.hi)
                    continue
            out.append(p)
        self.pieces = tuple(out)
    def __repr__(self): return 'Seq%r' % (list(self.pieces),)
    def __add__(self, other): return Seq(self.pieces + other.pieces)
    @property
    def concrete(self): return all(isinstance(p, Lit) for p in self.pieces)
    @property
    def items(self): return self.pieces[0].items if self.pieces else ()


def synt_eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = z3.simplify(zi(a) - zi(b))
    return z3.is_int_value(d) and d.as_long() == 0


def lit(items): return Seq((Lit(items),))
EMPTY = Seq()


def seq_len(s):
    n = 0
    for p in s.pieces:
        n = add(n, len(p.items) if isinstance(p, Lit) else p.len())
    return n


def uncons(s):
    """None if empty, else (head, tail); forks when undecided"""
    while s.pieces:
        p, rest = s.pieces[0], s.pieces[1:]
        if isinstance(p, Lit): return p.items[0], Seq((Lit(p.items[1:]),) + rest)
        if isinstance(p, (Gen, Flat)):
            if ctx().branch(cmp('<', p.lo, p.hi)):
                if isinstance(p, Gen): return p.base.elem(p.lo), Seq((Gen(p.base, add(p.lo, 1), p.hi),) + rest)
                s = p.gseq(p.lo) + Seq((Flat(p.fn, p.base, add(p.lo, 1), p.hi),) + rest)
                continue
            s = Seq(rest); continue
        if isinstance(p, ZS):
            n = z3.Length(p.z)
            if ctx().branch(mb(n > 0)):
                return SInt(z3.StrToCode(z3.SubString(p.z, 0, 1))), Seq((ZS(z3.SubString(p.z, 1, n - 1), p.cls, max(0, p.minlen - 1)),) + rest)
            s = Seq(rest); continue
        if isinstance(p, Dec) and isinstance(p.n, int):
            s = Seq((Lit([ord(c) for c in str(p.n)]),) + rest); continue
        raise Unsupported('uncons of %r' % (p,))
    return None


def unsnoc(s):
    while s.pieces:
        p, rest = s.pieces[-1], s.pieces[:-1]
        if isinstance(p, Lit): return Seq(rest + (Lit(p.items[:-1]),)), p.items[-1]
        if isinstance(p, (Gen, Flat)):
            if ctx().branch(cmp('<', p.lo, p.hi)):
                h = sub(p.hi, 1)
                if isinstance(p, Gen): return Seq(rest + (Gen(p.base, p.lo, h),)), p.base.elem(h)
                s = Seq(rest + (Flat(p.fn, p.base, p.lo, h),)) + p.gseq(h); continue
            s = Seq(rest); continue
        if isinstance(p, ZS):
            n = z3.Length(p.z)
            if ctx().branch(mb(n > 0)):
                return Seq(rest + (ZS(z3.SubString(p.z, 0, n - 1), p.cls, max(0, p.minlen - 1)),)), SInt(z3.StrToCode(z3.SubString(p.z, n - 1, 1)))
            s = Seq(rest); continue
        raise Unsupported('unsnoc of %r' % (p,))
    return None


def split_at(s, k):
    """(s[:k], s[k:]) for 0 <= k; k beyond the end gives (s, empty); forks when undecided"""
    c = ctx()
    left, rest = [], list(s.pieces)
    while True:
        if isinstance(k, int) and k <= 0: return Seq(left), Seq(rest)
        if not isinstance(k, int) and synt_eq(k, 0): return Seq(left), Seq(rest)
        if not rest: return Seq(left), EMPTY
        p = rest[0]
        if isinstance(p, Lit):
            n = len(p.items)
            if isinstance(k, int):
                if k >= n: left.append(p); rest.pop(0); k -= n; continue
                return Seq(left + [Lit(p.items[:k])]), Seq([Lit(p.items[k:])] + rest[1:])
            if c.branch(cmp('>=', k, n)): left.append(p); rest.pop(0); k = sub(k, n); continue
            kk = concretize(k, n + 1)
            return Seq(left + [Lit(p.items[:kk])]), Seq([Lit(p.items[kk:])] + rest[1:])
        n = p.len()
        if c.branch(cmp('>=', k, n)): left.append(p); rest.pop(0); k = sub(k, n); continue
        if isinstance(p, Gen):
            m = add(p.lo, k)
            if c.branch(cmp('<=', k, 0)): return Seq(left), Seq(rest)
            return Seq(left + [Gen(p.base, p.lo, m)]), Seq([Gen(p.base, m, p.hi)] + rest[1:])
        if isinstance(p, Flat):
            if c.branch(cmp('<=', k, 0)): return Seq(left), Seq(rest)
            if isinstance(k, int) and k <= 8:
                h, t = uncons(Seq(rest))
                left.append(Lit([h])); rest = list(t.pieces); k -= 1; continue
            d = sub(n, k)
            if c.branch(cmp('<=', d, 2)):
                d = concretize(d, 4)
                right = []
                cur = Seq([p])
                for _ in range(d):
                    cur, e = unsnoc(cur); right.insert(0, e)
                return Seq(left) + cur, Seq([Lit(right)] + rest[1:])
            raise Unsupported('split inside flattened sequence')
        if isinstance(p, ZS):
            if c.branch(cmp('<=', k, 0)): return Seq(left), Seq(rest)
            z = zi(k)
            return Seq(left + [ZS(z3.SubString(p.z, 0, z), p.cls)]), Seq([ZS(z3.SubString(p.z, z, z3.Length(p.z) - z), p.cls)] + rest[1:])
        if isinstance(p, Dec) and isinstance(k, int) and False: pass
        raise Unsupported('split of %r' % (p,))


def norm_index(s, k, n=None):
    """python slice bound -> clamped to 0..len"""
    if n is None: n = seq_len(s)
    c = ctx()
    if isinstance(k, int) and isinstance(n, int):
        return max(0, k + n) if k < 0 else min(k, n)
    if c.branch(cmp('<', k, 0)):
        k = add(k, n)
        if c.branch(cmp('<', k, 0)): return 0
        return k
    if c.branch(cmp('>', k, n)): return n
    return k


def seq_slice(s, a, b):
    if a is None: a = 0
    if b is None:
        if isinstance(a, int) and a >= 0: return split_at(s, a)[1]
        if isinstance(a, int) and a < 0:      # last -a elements: take from the right
            out, cur = [], s
            for _ in range(-a):
                r = unsnoc(cur)
                if r is None: break
                cur, e = r; out.insert(0, e)
            return lit(out)
        return split_at(s, norm_index(s, a))[1]
    if isinstance(a, int) and a >= 0 and isinstance(b, int) and b < 0:   # drop -b from the right
        cur = s
        for _ in range(-b):
            r = unsnoc(cur)
            if r is None: return EMPTY
            cur = r[0]
        return split_at(cur, a)[1]
    if isinstance(a, int) and a == 0 and isinstance(b, int) and b >= 0: return split_at(s, b)[0]
    n = seq_len(s)
    a, b = norm_index(s, a, n), norm_index(s, b, n)
    if ctx().branch(cmp('>=', a, b)): return EMPTY
    l, _ = split_at(s, b)
    return split_at(l, a)[1]


def seq_index(s, k):
    """element at k (python index); raises IndexError via return None"""
    c = ctx()
    if isinstance(k, int) and k < 0:
        cur = s
        for i in range(-k):
            r = unsnoc(cur)
            if r is None: return None
            cur, e = r
        return (e,)
    if not isinstance(k, int):
        if c.branch(cmp('<', k, 0)):
            k = add(k, seq_len(s))
            if c.branch(cmp('<', k, 0)): return None
    for p in s.pieces:
        if isinstance(p, Lit):
            n = len(p.items)
            if isinstance(k, int):
                if k < n: return (p.items[k],)
            elif c.branch(cmp('<', k, n)):
                return (p.items[concretize(k, n + 1)],)
        elif isinstance(p, Gen):
            n = p.len()
            if c.branch(cmp('<', k, n)): return (p.base.elem(add(p.lo, k)),)
        elif isinstance(p, ZS):
            n = p.len()
            if c.branch(cmp('<', k, n)): return (SInt(z3.StrToCode(z3.SubString(p.z, zi(k), 1))),)
        elif isinstance(p, Flat) and isinstance(k, int):
            _, t = split_at(Seq([p]), k)
            r = uncons(t)
            if r is not None: return (r[0],)
            n = p.len()
        else:
            raise Unsupported('index into %r' % (p,))
        k = sub(k, n)
    return None


# -- equality -----------------------------------------------------------------------------------------------------
value_eq_hook = None     # set by interp: element equality as a z3 Bool / bool


def seq_same(a, b):
    """cheap structural equality (no forking on lengths); True means equal"""
    if len(a.pieces) != len(b.pieces): return False
    for p, q in zip(a.pieces, b.pieces):
        if type(p) is not type(q): return False
        if isinstance(p, Lit):
            if len(p.items) != len(q.items): return False
            for x, y in zip(p.items, q.items):
                if x is y: continue
                if is_intlike(x) and is_intlike(y):
                    if not ctx().entails(cmp('==', x, y)): return False
                elif not (type(x) == type(y) and keys_same(getattr(x, 'seq', x), getattr(y, 'seq', y))): return False
        elif isinstance(p, ZS):
            if not p.z.eq(q.z) and not ctx().entails(mb(p.z == q.z)): return False
        elif isinstance(p, Dec):
            if not keys_same(p.n, q.n): return False
        else:
            if isinstance(p, Flat) and not (p.base.same(q.base) and fn_same(p, q)): return False
            if not p.base.same(q.base): return False
            if not (keys_same(p.lo, q.lo) and keys_same(p.hi, q.hi)): return False
    return True


def same_elem(x, y):
    if x is y: return True
    if is_intlike(x) and is_intlike(y): return ctx().entails(cmp('==', x, y))
    if is_intlike(x) or is_intlike(y): return False
    from .values import val_eq
    return ctx().entails(val_eq(x, y))


def refold(s):
    """[Flat(f,b,lo,hi)] + Lit(f(b[hi])...) -> Flat(f,b,lo,hi+1)...; same for Gen followed by its next element"""
    c = ctx()
    pieces = list(s.pieces)
    i = 0
    while i + 1 < len(pieces):
        p, q = pieces[i], pieces[i + 1]
        if isinstance(p, Gen) and isinstance(q, Lit) and is_intlike(q.items[0]) and \
                (p.base.length is None or c.entails(cmp('<', p.hi, p.base.length))):
            e = p.base.elem(p.hi)
            if is_intlike(e) and c.entails(cmp('==', e, q.items[0])):
                pieces[i] = Gen(p.base, p.lo, add(p.hi, 1)); pieces[i + 1] = Lit(q.items[1:])
                pieces = list(Seq(pieces).pieces); continue
        if isinstance(p, Flat) and isinstance(q, Lit) and not isinstance(p.fn, TextFn) and p.base.length is not None and c.entails(cmp('<', p.hi, p.base.length)):
            g = p.group(p.hi)
            if len(g) <= len(q.items) and all(same_elem(x, y) for x, y in zip(g, q.items)):
                pieces[i] = Flat(p.fn, p.base, p.lo, add(p.hi, 1)); pieces[i + 1] = Lit(q.items[len(g):])
                pieces = list(Seq(pieces).pieces); continue
        if isinstance(p, Lit) and isinstance(q, Gen) and is_intlike(p.items[-1]) and not (isinstance(q.lo, int) and q.lo <= 0):
            e = q.base.elem(sub(q.lo, 1))
            if is_intlike(e) and c.entails(band(cmp('>', q.lo, 0), cmp('==', e, p.items[-1]))):
                pieces[i] = Lit(p.items[:-1]); pieces[i + 1] = Gen(q.base, sub(q.lo, 1), q.hi)
                pieces = list(Seq(pieces).pieces); i = max(0, i - 1); continue
        i += 1
    return Seq(pieces)


def seq_eq(a, b, elem_eq):
    """Decides a == b on the current path, forking on undecided lengths: yields a list of element equalities whose
    conjunction is equivalent to a == b on this (sub)path, or None when the lengths differ."""
    c = ctx()
    conds = []
    for _ in range(10000):
        while a.pieces and b.pieces:
            p, q = a.pieces[0], b.pieces[0]
            if isinstance(p, (Gen, Flat)) and type(p) is type(q) and \
                    p.base.same(q.base) and keys_same(p.lo, q.lo) and (isinstance(p, Gen) or fn_same(p, q)):
                if keys_same(p.hi, q.hi):
                    a, b = Seq(a.pieces[1:]), Seq(b.pieces[1:]); continue
                if c.branch(cmp('<', p.hi, q.hi)):
                    if c.branch(cmp('<=', p.hi, p.lo)): a = Seq(a.pieces[1:]); continue
                    a, b = Seq(a.pieces[1:]), Seq((type(q)(*(((q.fn,) if isinstance(q, Flat) else ()) + (q.base, p.hi, q.hi))),) + b.pieces[1:]); continue
                if c.branch(cmp('<', q.hi, p.hi)):
                    if c.branch(cmp('<=', q.hi, q.lo)): b = Seq(b.pieces[1:]); continue
                    b, a = Seq(b.pieces[1:]), Seq((type(p)(*(((p.fn,) if isinstance(p, Flat) else ()) + (p.base, q.hi, p.hi))),) + a.pieces[1:]); continue
                a, b = Seq(a.pieces[1:]), Seq(b.pieces[1:]); continue
            if isinstance(p, Dec) and isinstance(q, Dec):
                conds.append(cmp('==', p.n, q.n)); a, b = Seq(a.pieces[1:]), Seq(b.pieces[1:]); continue
            if isinstance(p, ZS) and isinstance(q, ZS) and (p.z.eq(q.z) or (len(a.pieces) == len(b.pieces) == 1)):
                if not p.z.eq(q.z): conds.append(mb(p.z == q.z))
                a, b = Seq(a.pieces[1:]), Seq(b.pieces[1:]); continue
            break
        else:
            rest = a if a.pieces else b
            for p in rest.pieces:
                if isinstance(p, Flat) and not isinstance(p.fn, TextFn):
                    d = sub(p.hi, p.lo)
                    if not isinstance(d, int): d = next((i for i in (0, 1, 2) if c.entails(cmp('==', d, i))), d)
                    if isinstance(d, int) and d <= 4:
                        if any(p.group(add(p.lo, i)) for i in range(d)): return None
                        continue
                n = len(p.items) if isinstance(p, Lit) else p.len()
                if not isinstance(n, int):
                    if c.branch(cmp('>', n, 0)): return None
                elif n: return None
            return conds
        # trailing equal pieces
        pe, qe = a.pieces[-1], b.pieces[-1]
        if pe is not a.pieces[0] and qe is not b.pieces[0] and isinstance(pe, (Gen, Flat)) and type(pe) is type(qe) and \
                pe.base.same(qe.base) and (isinstance(pe, Gen) or fn_same(pe, qe)) and keys_same(pe.hi, qe.hi) and keys_same(pe.lo, qe.lo):
            a, b = Seq(a.pieces[:-1]), Seq(b.pieces[:-1]); continue
        # elementwise generic comparison of two different bases of provably equal length
        if isinstance(p, Gen) and isinstance(q, Gen) and not (p.base.same(q.base) and keys_same(p.lo, q.lo)):
            n1, n2 = p.len(), q.len()
            less = c.entails(cmp('<=', n1, n2))
            if less or c.entails(cmp('<=', n2, n1)) or True:
                if not less and not c.entails(cmp('<=', n2, n1)): less = c.branch(cmp('<=', n1, n2))
                n = n1 if less else n2
                if c.branch(cmp('>', n, 0)):
                    k = c.fresh_int('eqk', 0)
                    c.assume(cmp('<', k, n))
                    conds.append(('forall', elem_eq(p.base.elem(add(p.lo, k)), q.base.elem(add(q.lo, k))), k))
                eq = keys_same(n1, n2)
                a = Seq((() if eq or less else (Gen(p.base, add(p.lo, n), p.hi),)) + a.pieces[1:])
                b = Seq((() if eq or not less else (Gen(q.base, add(q.lo, n), q.hi),)) + b.pieces[1:])
                continue
        if isinstance(p, (ZS, Dec)) or isinstance(q, (ZS, Dec)):
            from . import strz
            za, zb_ = strz.to_z3(a), strz.to_z3(b)
            conds.append(mb(za == zb_)); return conds
        ua = uncons(a)
        ub = uncons(b)
        if ua is None or ub is None:
            if ua is None and ub is None: return conds
            return None
        conds.append(elem_eq(ua[0], ub[0]))
        a, b = ua[1], ub[1]
        if not isinstance(conds[-1], bool) and not isinstance(conds[-1], tuple):
            pass
    raise Unsupported('sequence comparison does not terminate')
