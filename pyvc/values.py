"""Heap values of the interpreter."""
import z3
from .core import *
from .seq import *


class Heap:
    """mutable object: oid gives creation order on the path; writes are reported to the active loops"""
    def __init__(self):
        c = ctx()
        self.oid = c.objcount
        c.objcount += 1


loop_write = None    # set by loops: fn(obj, field)


def wrote(obj, field):
    if ctx().anchors.get('loopstack'): loop_write(obj, field)


class VBytes(Heap):
    cls = bytearray
    def __init__(self, seq=EMPTY):
        super().__init__(); self._seq = seq
    @property
    def seq(self): return self._seq
    @seq.setter
    def seq(self, s): wrote(self, 'seq'); self._seq = s
    def __repr__(self): return 'VBytes(%r)' % (self._seq,)


class VList(Heap):
    cls = list
    def __init__(self, seq=EMPTY):
        super().__init__(); self._seq = seq
    @property
    def seq(self): return self._seq
    @seq.setter
    def seq(self, s): wrote(self, 'seq'); self._seq = s
    def __repr__(self): return 'VList(%r)' % (self._seq,)


class VDict(Heap):
    cls = dict
    def __init__(self, items=()):
        super().__init__(); self._items = list(items)      # list of (key, value), insertion ordered
    @property
    def items(self): return self._items
    @items.setter
    def items(self, v): wrote(self, 'items'); self._items = v
    def __repr__(self): return 'VDict(%r)' % (self._items,)


class VSet(Heap):
    cls = set
    def __init__(self, items=()):
        super().__init__(); self._items = list(items)
    @property
    def items(self): return self._items
    @items.setter
    def items(self, v): wrote(self, 'items'); self._items = v
    def __repr__(self): return 'VSet(%r)' % (self._items,)


class VObj(Heap):
    partial = False          # the attributes given are all that is known of the state: others may exist
    def __init__(self, cls, attrs=None):
        super().__init__(); self.cls = cls; self._attrs = dict(attrs or {})
    def get(self, name, default=None): return self._attrs.get(name, default)
    def has(self, name): return name in self._attrs
    def set(self, name, v):
        wrote(self, name); self._attrs[name] = v
    def delete(self, name):
        wrote(self, name); del self._attrs[name]
    def __repr__(self): return 'VObj(%s,%r)' % (self.cls.__name__, sorted(self._attrs))


class VIter(Heap):
    """iterator over a rope; wrap converts an element to the value delivered"""
    origins = ()        # lists it reads from, with their contents when it was made
    def __init__(self, rest, wrap=None):
        super().__init__(); self._rest = rest; self.wrap = wrap or (lambda e: e)
    @property
    def rest(self): return self._rest
    @rest.setter
    def rest(self, s): wrote(self, 'rest'); self._rest = s
    def __repr__(self): return 'VIter(%r)' % (self._rest,)


class VEnum(VIter):
    """enumerate(): advancing it advances its source and the other way round"""
    def __init__(self, src, start):
        self.src, self.first, self.dead = src, src.rest, False
        self.offsets, i = [], start
        for p in self.first.pieces:
            self.offsets.append(i)
            i = add(i, len(p.items) if isinstance(p, Lit) else p.len())
        super().__init__(None)
        self.left, self.origins = src._rest, src.origins

    def index(self, p, n):
        """index of the first element of p, the n-th piece from the end"""
        if self.dead: return Poison('index')
        k = len(self.first.pieces) - n
        q = self.first.pieces[k] if k >= 0 else None
        if isinstance(p, Lit) and isinstance(q, Lit): return add(self.offsets[k], len(q.items) - len(p.items))
        if isinstance(p, Gen) and isinstance(q, Gen) and p.base is q.base: return add(self.offsets[k], sub(p.lo, q.lo))
        raise Unsupported('index of enumerate')

    def settled(self):
        if not self.dead and self.src._rest is not self.left: raise Unsupported('iterator advanced below enumerate')

    @property
    def rest(self):
        self.settled()
        ps, out, w = self.src.rest.pieces, [], self.src.wrap
        for j, p in enumerate(ps):
            i = self.index(p, len(ps) - j)
            if isinstance(p, Lit): out.append(Lit([(add(i, m), w(x)) for m, x in enumerate(p.items)]))
            elif isinstance(p, Gen): out.append(Gen(CompBase('enum', lambda k, p=p, i=i: (add(i, sub(k, p.lo)), w(p.base.elem(k))), length=p.base.length), p.lo, p.hi))
            else: raise Unsupported('enumerate')
        return Seq(tuple(out))
    @rest.setter
    def rest(self, s):
        if s.pieces: raise Unsupported('enumerate')
        self.src.rest = self.left = s

    def pop(self, I):
        self.settled()
        ps = self.src.rest.pieces
        if len(ps) and isinstance(ps[0], (Lit, Gen)) and not self.dead: i = self.index(ps[0], len(ps))
        elif len(ps) and not self.dead: raise Unsupported('index of enumerate')
        else: i = Poison('index')
        r = I.next_of(self.src)
        self.left = self.src._rest
        return r and (i, r[0]),


class SStr:
    """symbolic (immutable) str; elements are code points"""
    __slots__ = ('seq',)
    def __init__(self, seq): self.seq = seq
    def __repr__(self): return 'SStr(%r)' % (self.seq,)


class VRange:
    def __init__(self, start, stop, step): self.start, self.stop, self.step = start, stop, step
    def seq(self):
        st = self.step
        if not isinstance(st, int) or st == 0: raise Unsupported('range step')
        d = sub(self.stop, self.start) if st > 0 else sub(self.start, self.stop)
        a = abs(st)
        if isinstance(d, int): n = max(0, -(-d // a))
        else:
            if ctx().branch(cmp('<=', d, 0)): n = 0
            else: n = d if a == 1 else mi((zi(d) + (a - 1)) / a)
        if isinstance(n, int): return lit([add(self.start, st * k) for k in range(n)]) if n <= 4096 else None
        start = self.start
        return Seq((Gen(CompBase('range', lambda k: add(start, mul(k, st)), key=('range', start, st)), 0, n),))


class Poison:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Poison(%s)' % self.name


class Bound:
    def __init__(self, obj, fn): self.obj, self.fn = obj, fn
    def __repr__(self): return 'Bound(%r)' % (self.fn,)


class Closure:
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name
        self.attrs = {}


class Model:
    """a modelled builtin/external callable: fn(interp, args, kwargs)"""
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return 'Model(%s)' % self.name


class PyExc(Exception):
    """an exception of the interpreted program"""
    def __init__(self, obj):
        self.obj = obj
    @property
    def cls(self): return self.obj.cls
    def __repr__(self): return 'PyExc(%s)' % self.obj.cls.__name__


def throw(cls, *args):
    raise PyExc(VObj(cls, {'args': tuple(args)}))


def mkstr(seq):
    if seq.concrete and all(isinstance(x, int) for x in seq.items):
        return ''.join(map(chr, seq.items))
    return SStr(seq)


def is_str(v): return isinstance(v, (str, SStr))


def str_seq(v):
    if isinstance(v, str): return lit([ord(c) for c in v])
    return v.seq


class CharsBase(Base):
    """list of the single-character strings of a character base"""
    def __init__(self, inner): self.inner = inner; self.name = 'chars_' + inner.name; self.length = inner.length
    def elem(self, k): return mkstr(lit([self.inner.elem(k)]))
    def same(self, o): return self is o or (isinstance(o, CharsBase) and self.inner.same(o.inner))


def chars_of(strseq):
    """rope of single-character strings of a str rope"""
    out = []
    for p in strseq.pieces:
        if isinstance(p, Lit): out.append(Lit([mkstr(lit([e])) for e in p.items]))
        elif isinstance(p, Gen): out.append(Gen(CharsBase(p.base), p.lo, p.hi))
        else: raise Unsupported('characters of %r' % (p,))
    return Seq(out)


class Opaque:
    """an uninterpreted value (identity by key)"""
    def __init__(self, key, cls=object): self.key, self.cls = key, cls
    def __repr__(self): return 'Opaque%r' % (self.key,)


# -- equality of values ---------------------------------------------------------------------------------------------
def val_eq(a, b):
    """a == b as bool/SBool; may fork"""
    if a is b and not isinstance(a, (SReal,)): return True
    if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('comparison with stale value %r' % (a,))
    if is_intlike(a) and is_intlike(b): return cmp('==', SInt(zi(a)) if isinstance(a, (SBool, bool)) else a, SInt(zi(b)) if isinstance(b, (SBool, bool)) else b)
    if isinstance(a, SReal) or isinstance(b, SReal):
        if isinstance(a, (SReal, int, SInt, float)) and isinstance(b, (SReal, int, SInt, float)):
            from .models import as_rat
            (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
            return cmp('==', mul(n1, d2), mul(n2, d1))
        return False
    if is_str(a) and is_str(b):
        if isinstance(a, str) and isinstance(b, str): return a == b
        for x, y in ((a, b), (b, a)):
            if hasattr(x, 'veq'): return x.veq(y)
        return seq_cond(str_seq(a), str_seq(b))
    if isinstance(a, (VBytes, bytes)) and isinstance(b, (VBytes, bytes)):
        return seq_cond(bytes_seq(a), bytes_seq(b))
    if isinstance(a, (VList, list)) and isinstance(b, (VList, list)):
        return seq_cond(a.seq if isinstance(a, VList) else lit(a), b.seq if isinstance(b, VList) else lit(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        r = True
        for x, y in zip(a, b):
            r = band(r, val_eq(x, y))
            if r is False: return False
        return r
    if isinstance(a, VDict) and isinstance(b, VDict):
        if len(a.items) != len(b.items): return False
        r = True
        for k, v in a.items:
            w = [x for kk, x in b.items if kk == k]
            if not w: return False
            r = band(r, val_eq(v, w[0]))
        return r
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.key == b.key: return True
        z = opaque_bool(('eq',) + tuple(sorted([repr(a.key), repr(b.key)])))
        return z
    for x, y in ((a, b), (b, a)):
        h = getattr(x, 'veq', None)
        if h is not None: return h(y)
    if isinstance(a, Heap) or isinstance(b, Heap):
        return False if not (isinstance(a, VObj) and hasattr(a.cls, '__eq__') and a.cls.__eq__ is not object.__eq__) else unsupported('__eq__')
    if isinstance(a, (SStr, SInt, SBool, Opaque)) or isinstance(b, (SStr, SInt, SBool, Opaque)): return False
    return a == b


def bytes_seq(v):
    return lit(list(v)) if isinstance(v, (bytes, bytearray)) else v.seq


def opaque_bool(key):
    c = ctx()
    reg = c.anchors.setdefault('opaque', {})
    if key not in reg: reg[key] = z3.Bool('ob_' + str(key))
    return SBool(reg[key])


def lit_vs_gen(a, b):
    """equality of explicit elements with a rope having exactly one piece of unknown length, without forking; None: not of that form"""
    if not a.concrete: a, b = b, a
    if not a.concrete or b.concrete: return None
    gens = [p for p in b.pieces if not isinstance(p, Lit)]
    if len(gens) != 1 or not isinstance(gens[0], Gen) or not all(is_intlike(x) for x in a.items): return None
    g = gens[0]
    d = len(a.items) - sum(len(p.items) for p in b.pieces if isinstance(p, Lit))
    if d < 0: return False
    conds, i = [cmp('==', g.len(), d)], 0
    if conds[0] is False: return False
    for p in b.pieces:
        for y in (p.items if isinstance(p, Lit) else [g.base.elem(add(g.lo, j)) for j in range(d)]):
            if not is_intlike(y): return None
            e = cmp('==', a.items[i], y)
            if e is False: return False
            conds.append(e); i += 1
    return band(*conds)


def seq_cond(a, b):
    r = lit_vs_gen(a, b)
    if r is not None: return r
    conds = seq_eq(a, b, val_eq)
    if conds is None: return False
    r = True
    for cnd in conds:
        if isinstance(cnd, tuple):
            if ctx().entails(cnd[1]): continue
            raise Unsupported('equality of two symbolic sequences used as a condition')
        r = band(r, cnd)
        if r is False: return False
    return r


def entails_eq(a, b):
    """path condition proves a == b (values); forks possible"""
    if isinstance(a, (VBytes, VList, SStr, str, bytes)) and isinstance(b, (VBytes, VList, SStr, str, bytes)):
        if is_str(a) != is_str(b) or isinstance(a, VList) != isinstance(b, VList): return False
        g = lambda v: str_seq(v) if is_str(v) else (v.seq if isinstance(v, VList) else bytes_seq(v))
        return entails_seq(g(a), g(b))
    r = val_eq(a, b)
    return ctx().entails(r)


def entails_seq(a, b):
    conds = seq_eq(a, b, val_eq)
    if conds is None: return False
    for cnd in conds:
        if not ctx().entails(cnd[1] if isinstance(cnd, tuple) else cnd): return False
    return True


def prove_eq(a, b, label):
    """obligation(s): a == b"""
    c = ctx()
    g = None
    if is_str(a) and is_str(b): g = str_seq
    elif isinstance(a, (VBytes, bytes)) and isinstance(b, (VBytes, bytes)): g = bytes_seq
    elif isinstance(a, VList) and isinstance(b, VList): g = lambda v: v.seq
    if g is not None:
        conds = seq_eq(g(a), g(b), val_eq)
        if conds is None: c.prove(False, label + ' (lengths differ)'); return
        if not conds: c.prove(True, label)
        zs = [zb(x[1] if isinstance(x, tuple) else x) for x in conds]
        if zs: c.prove(mb(z3.And(zs)), label)
        return
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): c.prove(False, label + ' (tuple lengths differ)'); return
        for i, (x, y) in enumerate(zip(a, b)): prove_eq(x, y, '%s[%d]' % (label, i))
        return
    if type(a) is not type(b) and (a is None or b is None or is_str(a) != is_str(b)):
        c.prove(False, '%s (%s where %s expected)' % (label, type(a).__name__, type(b).__name__)); return
    c.prove(val_eq(a, b), label)
