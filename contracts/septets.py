"""Contracts of septet packing and unpacking (C02)."""
from .lib import *

P = 'gsmmodem.pdu.'


def split_mod(k, n):
    """k = n*m + s with s concrete (forks over the feasible residues): (m, s)"""
    if isinstance(k, int): return k // n, k % n
    s = concretize(mi(zi(k) % n), n + 1)
    m = ctx().fresh_int('m')
    ctx().assume(zi(k) == n * m.z + s)
    return m, s


class PackBase(Base):
    """octet j of the GSM 03.38 bit stream of septets t, starting at bit `start` of t (t = septets, or a zero septet of which
    the last 7-start bits are the fill bits, followed by the septets)"""
    def __init__(self, s, n, pad):
        self.s, self.n, self.pad = s, n, pad
        self.name = 'packed'
        self.lead = 1 if pad else 0
        self.length = self.count()
        self.memo = {}
    def count(self):
        bits = sub(mul(7, add(self.n, self.lead)), self.pad)
        return mi((zi(bits) + 7) / 8)
    def t(self, g):
        e = zi(self.s.elem(sub(g, self.lead)))
        nt = zi(self.n) + self.lead
        inr = z3.And(zi(g) >= self.lead, zi(g) < nt)
        return z3.If(inr, e, z3.IntVal(0))
    def elem(self, j):
        kk = z3.simplify(zi(j)).sexpr()
        if kk not in self.memo:
            m, s = split_mod(j, 7)
            bit = 8 * s + self.pad
            g = add(mul(8, m), bit // 7)
            r = bit % 7
            lo, hi = self.t(g), self.t(add(g, 1))
            self.memo[kk] = mi(lo / (1 << r) + (hi * (1 << (7 - r))) % 256)
        return self.memo[kk]
    def same(self, o): return self is o or (isinstance(o, PackBase) and self.pad == o.pad and self.s.same(o.s) and keys_same(self.n, o.n))


def pack_loop(base, pad):
    pk = base
    def inv(L, p):
        x = p if pad else sub(p, 1)                     # septets of the stream consumed after the first
        a = zi(x) + pad
        L.eq('shift', mi(a % 8))
        L.eq('prevSeptet', mi(pk.t(x)))
        L.seq('result', Seq((Gen(pk, 0, mi(zi(x) - a / 8)),)))
    return inv


def septets(u, name='septets', minlen=0):
    return u.bytes(name, minlen, cons=lambda v, k: cmp('<=', v, 127))


for _pad in range(8):
    @unit('C02', P + 'packSeptets', 'the GSM bit stream in the fewest octets, padBits=%d' % _pad, budget=100)
    def _(u, pad=_pad):
        b, n = septets(u)
        u.replay('pack_stream', lambda ev: (ev(Seq((Gen(b, 0, n),))), pad))
        pk = PackBase(b, n, pad)
        u.use({('packSeptets', 0): pack_loop(pk, pad)})
        r = u.returns(u.call(VBytes(Seq((Gen(b, 0, n),))), *([pad] if pad else [])))
        u.prove(isinstance(r, VBytes), 'a bytearray')
        u.prove_eq(r, VBytes(Seq((Gen(pk, 0, pk.length),))), 'octets of the bit stream')


class GroupBase(Base):
    """7-bit group e of the octets o (preceded by the octet prev), starting at bit `start`"""
    def __init__(self, o, prev, start):
        self.o, self.prev, self.start = o, prev, start
        self.name = 'groups'
        self.length = None
        self.memo = {}
    def octet(self, a):
        if self.prev is None: return zi(self.o.elem(sub(a, 1)))
        return z3.If(zi(a) == 0, zi(self.prev), zi(self.o.elem(sub(a, 1))))
    def elem(self, e):
        kk = z3.simplify(zi(e)).sexpr()
        if kk not in self.memo:
            m, s = split_mod(e, 8)
            bit = 7 * s + self.start
            a, r = add(mul(7, m), bit // 8), bit % 8
            if r <= 1: v = (self.octet(a) / (1 << r)) % 128
            else: v = self.octet(a) / (1 << r) + (self.octet(add(a, 1)) * (1 << (8 - r))) % 128
            self.memo[kk] = mi(v)
        return self.memo[kk]
    def same(self, o):
        return self is o or (isinstance(o, GroupBase) and self.start == o.start and self.o.same(o.o) and (self.prev is o.prev or (self.prev is not None and o.prev is not None and keys_same(self.prev, o.prev))))


def groups_before(p, s0):
    """7-bit groups delivered before octet p, the group that ends exactly with the last octet being held back"""
    if s0 is None: return mi(z3.If(zi(p) <= 0, z3.IntVal(0), zi(p) + (zi(p) - 1) / 7))
    return mi(zi(p) + (zi(p) + s0 - 1) / 7)


def unpack_loop(gb, b, prev, s0):
    def inv(L, p):
        L.eq('i', p)
        L.eq('shift', mi(((7 if s0 is None else s0) - 1 + zi(p)) % 7 + 1))
        if ctx().branch(cmp('<=', p, 0)): L.eq('prevOctet', prev)
        else: L.eq('prevOctet', b.elem(sub(p, 1)))
        L.seq('result', Seq((Gen(gb, 0, groups_before(p, s0)),)))
    return inv


def unpacked(u, gb, N, s0):
    """all complete groups of N octets, a zero group that ends exactly at the end left out"""
    full = mi((8 * zi(N)) / 7) if s0 is None else mi((8 * zi(N) + s0) / 7)
    exact = mb((8 * zi(N)) % 7 == 0) if s0 is None else mb((8 * zi(N) + s0) % 7 == 0)
    if u.branch(band(exact, cmp('>', full, 0))):
        if u.branch(cmp('==', gb.elem(sub(full, 1)), 0)): full = sub(full, 1)
    return Seq((Gen(gb, 0, full),))


def octet_replay(u, b, n):
    u.replay('unpack_groups', lambda ev: bytes(ev(Seq((Gen(b, 0, n),)))))


@unit('C02', P + 'unpackSeptets', 'all 7-bit groups of the octets', budget=100)
def _(u):
    b, n = u.bytes('octets')
    octet_replay(u, b, n)
    gb = GroupBase(b, None, 8)
    u.use({('unpackSeptets', 0): unpack_loop(gb, b, None, None)})
    r = u.returns(u.call(VBytes(Seq((Gen(b, 0, n),)))))
    u.prove(isinstance(r, VBytes), 'a bytearray')
    u.prove_eq(r, VBytes(unpacked(u, gb, n, None)), '7-bit groups in order')


@unit('C02', P + 'unpackSeptets', 'limited to a number of octets of an iterator: groups of those, nothing more consumed', budget=100)
def _(u):
    b, n = u.bytes('octets', 1)
    lim = u.int('limit', 1)
    u.assume(cmp('<=', lim, n))
    octet_replay(u, b, lim)
    gb = GroupBase(b, None, 8)
    u.use({('unpackSeptets', 0): unpack_loop_limited(gb, b, lim)})
    it = VIter(Seq((Gen(b, 0, n),)))
    r = u.returns(u.call(it, lim))
    u.prove_eq(r, VBytes(unpacked(u, gb, lim, None)), '7-bit groups in order')
    u.prove_eq(VList(it.rest), VList(Seq((Gen(b, lim, n),))), 'consumes exactly the given number of octets')


def unpack_loop_limited(gb, b, lim):
    f = unpack_loop(gb, b, None, None)
    def inv(L, p):
        f(L, p)
        L.fact(cmp('<', p, lim), 'position below the limit')
    return inv


for _s in range(2, 8):
    @unit('C02', P + 'unpackSeptets', 'after a header: groups from bit %d of the first octet' % (8 - _s), budget=100)
    def _(u, s0=_s):
        b, n = u.bytes('octets')
        prev = u.int('first', 0, 255)
        gb = GroupBase(b, prev, 8 - s0)
        u.use({('unpackSeptets', 0): unpack_loop(gb, b, prev, s0)})
        r = u.returns(u.call(VBytes(Seq((Gen(b, 0, n),))), None, prev, s0))
        u.prove_eq(r, VBytes(unpacked(u, gb, n, s0)), '7-bit groups in order')


@unit('C02', P + 'unpackSeptets', 'inverse of packSeptets (lemma over both contracts)')
def _(u):
    b, n = septets(u)
    pk = PackBase(b, n, 0)
    gb = GroupBase(pk, None, 8)
    got = unpacked(u, gb, pk.length, None)
    m = got.pieces[0].hi if got.pieces else 0
    k = u.int('k', 0)
    u.assume(band(cmp('<', k, m), cmp('<', k, n)))
    u.prove_eq(gb.elem(k), b.elem(k), 'unpacking gives the packed values back')
    u.prove(cmp('<=', m, n), 'no further values')
    u.prove(bor(cmp('==', m, n), band(cmp('==', m, sub(n, 1)), mb(zi(n) % 8 == 0), cmp('==', b.elem(sub(n, 1)), 0))), 'only a final zero that ends exactly at the last octet is left out')


for _p in range(1, 7):
    @unit('C02', P + 'unpackSeptets', 'inverse of packSeptets with padBits=%d (lemma over both contracts)' % _p)
    def _(u, pad=_p):
        b, n = septets(u)
        pk = PackBase(b, n, pad)
        tail = ShiftBase(pk)
        gb = GroupBase(tail, pk.elem(0), 7 - pad)
        got = unpacked(u, gb, sub(pk.length, 1), pad + 1)
        m = got.pieces[0].hi if got.pieces else 0
        k = u.int('k', 0)
        u.assume(band(cmp('<', k, m), cmp('<', k, n)))
        u.prove_eq(gb.elem(k), b.elem(k), 'unpacking gives the packed values back')
        spare = sub(sub(mul(8, pk.length), 7 - pad), mul(7, n))     # unused bits at the end
        u.prove(bor(cmp('==', m, n), band(cmp('==', m, sub(n, 1)), cmp('==', spare, 0), cmp('==', b.elem(sub(n, 1)), 0))), 'only a final zero that ends exactly at the last octet is left out')


class ShiftBase(Base):
    """the octets after the first"""
    def __init__(self, b): self.b = b; self.name = 'rest_' + b.name; self.length = sub(b.length, 1)
    def elem(self, k): return self.b.elem(add(k, 1))


class RopeBase(Base):
    """the elements of a rope, by position"""
    def __init__(self, rope, lo=0, hi=127):
        self.rope = rope
        self.name = ctx().name('rope')
        self.length = seq_len(rope)
        self.fn = z3.Function('el_' + self.name, z3.IntSort(), z3.IntSort())
        self.lo, self.hi = lo, hi
    def elem(self, k):
        v = SInt(self.fn(z3.simplify(zi(k))))
        ctx().assume(band(cmp('<=', self.lo, v), cmp('<=', v, self.hi)))
        return v
    def same(self, o): return self is o or (isinstance(o, RopeBase) and seq_same(self.rope, o.rope))


def septet_rope(rope):
    """obligation: all elements are 0..127"""
    from .alphabet import ENC, ENCD
    c = ctx()
    for p in rope.pieces:
        if isinstance(p, Lit): c.prove(band(*[band(cmp('<=', 0, x), cmp('<=', x, 127)) for x in p.items]), 'packSeptets precondition: values 0..127')
        elif isinstance(p, Flat) and p.fn in (ENC, ENCD): pass       # the unit 'values are 0..127' of encodeGsm7
        elif isinstance(p, Gen):
            k = c.fresh_int('pk', p.lo)
            e = p.base.elem(k)
            c.prove(imp(cmp('<', k, p.hi), band(cmp('<=', 0, e), cmp('<=', e, 127))), 'packSeptets precondition: values 0..127')
        else: raise Unsupported('packSeptets of %r' % (p,))


def names(args, kwargs, *spec):
    """bind the arguments of a contract: spec = (name, default) or name"""
    out, kw = [], dict(kwargs)
    for i, s in enumerate(spec):
        n, d = s if isinstance(s, tuple) else (s, None)
        if i < len(args): out.append(args[i])
        elif n in kw: out.append(kw.pop(n))
        elif isinstance(s, tuple): out.append(d)
        else: raise Unsupported('contract: missing argument ' + n)
    if len(args) > len(spec) or any(k not in [s[0] if isinstance(s, tuple) else s for s in spec] for k in kw): raise Unsupported('contract: arguments')
    return out


def pack_spec(rope, pad):
    """octets of the bit stream of a rope of septets"""
    n = seq_len(rope)
    pk = PackBase(RopeBase(rope), n, pad)
    pk.rope = rope
    pk.name = ctx().name('packed')
    ctx().anchors.setdefault('packed', []).append(pk)
    return Seq((Gen(pk, 0, pk.length),))


@contract('packSeptets', P + 'packSeptets', proved_by=[P + 'packSeptets', (P + 'encodeGsm7', 'values are')])
def _(I, args, kwargs):
    s, pad = names(args, kwargs, 'octets', ('padBits', 0))
    if not isinstance(s, VBytes) or not is_int(pad): raise Unsupported('packSeptets contract: argument types')
    pad = concretize(pad, 9)
    if not 0 <= pad <= 7: raise Unsupported('packSeptets contract: padBits')
    septet_rope(s.seq)
    return VBytes(pack_spec(s.seq, pad))


def all_but_final_zero(rope, exact):
    """the rope, without its last element if that is zero and ends exactly at the last octet"""
    c = ctx()
    if not c.branch(exact): return rope
    u = unsnoc(rope)
    if u is None: return EMPTY
    if c.branch(cmp('==', u[1], 0)): return u[0]
    return refold(u[0] + lit([u[1]]))


@contract('unpackSeptets', P + 'unpackSeptets', proved_by=[P + 'unpackSeptets', P + 'packSeptets'])
def _(I, args, kwargs):
    """of octets that are a packed sequence (all of them, as the lemmas 'inverse of packSeptets' state it)"""
    s, limit, prev, shift = names(args, kwargs, 'septets', ('numberOfSeptets', None), ('prevOctet', None), ('shift', 7))
    c = ctx()
    if isinstance(s, VBytes): rest = s.seq
    elif isinstance(s, VIter): rest = s.rest
    else: raise Unsupported('unpackSeptets contract: argument types')
    rest = drop_empty(rest)
    if not rest.pieces:
        if not isinstance(s, VBytes): raise Unsupported('unpackSeptets contract: empty input')
        if prev is None: return VBytes()
        for pk in c.anchors.get('packed', []):      # the one octet of a packed sequence
            if pk.pad == concretize(shift, 9) - 1 and c.entails(band(cmp('==', pk.length, 1), cmp('==', prev, pk.elem(0)))):
                rest = Seq((Gen(pk, 1, pk.length),)); break
        if not rest.pieces: raise Unsupported('unpackSeptets contract: empty input')
    g = rest.pieces[0]
    if not (isinstance(g, Gen) and isinstance(g.base, PackBase)): raise Unsupported('unpackSeptets contract: octets of unknown origin')
    pk = g.base
    n = pk.n
    if prev is None:
        if not (isinstance(shift, int) and shift == 7 and pk.pad == 0 and c.entails(cmp('==', g.lo, 0))): raise Unsupported('unpackSeptets contract: alignment')
        exact = mb(z3.And(zi(n) % 8 == 0, zi(n) > 0))
    else:
        shift = concretize(shift, 9)
        if not (2 <= shift <= 7 and pk.pad == shift - 1 and c.entails(cmp('==', g.lo, 1)) and c.entails(cmp('==', prev, pk.elem(0)))): raise Unsupported('unpackSeptets contract: alignment')
        exact = mb(z3.And((7 * zi(n) + 7 - pk.pad) % 8 == 0, zi(n) > 0))
    if not c.entails(cmp('==', g.hi, pk.length)): raise Unsupported('unpackSeptets contract: part of the octets')
    if limit is None:
        if len(rest.pieces) > 1: raise Unsupported('unpackSeptets contract: more octets')
    else:
        if prev is not None or not c.entails(band(cmp('==', limit, pk.length), cmp('>=', limit, 1))): raise Unsupported('unpackSeptets contract: limit')
    if isinstance(s, VIter): s.rest = Seq(rest.pieces[1:])
    return VBytes(all_but_final_zero(pk.rope, exact))
