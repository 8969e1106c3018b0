"""Contracts of the UCS2 coding (used by C08, C09, C10)."""
from .lib import *
from .septets import names

P = 'gsmmodem.pdu.'


def bmp(v, k=None): return band(cmp('<=', 0, v), cmp('<', v, 0x10000))


class Ucs2Base(Base):
    """big-endian octets of the characters b[0..]"""
    def __init__(self, b): self.b = b; self.name = 'ucs2_' + b.name; self.length = None if b.length is None else mul(2, b.length)
    def elem(self, k):
        c = zi(self.b.elem(mi(zi(k) / 2)))
        return mi(z3.If(zi(k) % 2 == 0, c / 256, c % 256))
    def same(self, o): return self is o or (isinstance(o, Ucs2Base) and self.b.same(o.b))


def ucs2(rope):
    out = []
    for p in rope.pieces:
        if isinstance(p, Gen): out.append(Gen(Ucs2Base(p.base), mul(2, p.lo), mul(2, p.hi)))
        elif isinstance(p, Lit):
            for x in p.items: out.append(Lit([mi(zi(x) / 256), mi(zi(x) % 256)]))
        else: raise Unsupported('UCS2 of %r' % (p,))
    return Seq(out)


def enc_loop(ub):
    def inv(L, p): L.seq('result', Seq((Gen(ub, 0, mul(2, p)),)))
    return inv


@unit('C09', P + 'encodeUcs2', 'two octets per character, high octet first')
def _(u):
    b, n = u.chars('text', cons=bmp)
    ub = Ucs2Base(b)
    u.use({('encodeUcs2', 0): enc_loop(ub)})
    r = u.returns(u.call(mkstr(Seq((Gen(b, 0, n),)))))
    u.prove(isinstance(r, VBytes), 'a bytearray')
    u.prove_eq(r, VBytes(Seq((Gen(ub, 0, mul(2, n)),))), 'octets')


def dec_loop(ub, n, rest):
    def inv(L):
        i = L.any('i', 0)
        L.fact(mb(zi(i) % 2 == 0), 'whole characters')
        L.fact(cmp('<=', i, mul(2, n)), 'within the octets')
        L.seq('userData', Seq((Gen(CharsBase(ub.b), 0, mi(zi(i) / 2)),)))
        L.seq('byteIter', Seq((Gen(ub, i, mul(2, n)),)) + rest)
        L.variant(sub(mul(2, n), i))
    return inv


@unit('C10', P + 'decodeUcs2', 'one character per two octets, consumes exactly those')
def _(u):
    b, n = u.chars('text', cons=bmp)
    ub = Ucs2Base(b)
    rb, rn = u.bytes('rest')
    rest = Seq((Gen(rb, 0, rn),))
    u.use({('decodeUcs2', 0): dec_loop(ub, n, rest)})
    it = VIter(Seq((Gen(ub, 0, mul(2, n)),)) + rest)
    r = u.returns(u.call(it, mul(2, n)))
    u.prove_eq(r, mkstr(Seq((Gen(b, 0, n),))), 'the characters')
    u.prove_eq(VList(it.rest), VList(rest), 'consumes exactly the octets')


@unit('C10', P + 'decodeUcs2', 'stops at the end of the octets')
def _(u):
    b, n = u.chars('text', cons=bmp)
    ub = Ucs2Base(b)
    extra = u.int('extra', 0)
    u.use({('decodeUcs2', 0): dec_loop(ub, n, EMPTY)})
    it = VIter(Seq((Gen(ub, 0, mul(2, n)),)))
    r = u.returns(u.call(it, add(mul(2, n), extra)))
    u.prove_eq(r, mkstr(Seq((Gen(b, 0, n),))), 'the characters')


@contract('encodeUcs2', P + 'encodeUcs2', proved_by=[P + 'encodeUcs2'])
def _(I, args, kwargs):
    t, = names(args, kwargs, 'text')
    if not is_str(t): raise Unsupported('encodeUcs2 contract: argument')
    c = ctx()
    for p in str_seq(t).pieces:
        if isinstance(p, Lit): c.prove(band(*[bmp(x) for x in p.items]), 'encodeUcs2 precondition: UCS2 characters')
        elif isinstance(p, Gen):
            k = c.fresh_int('uk', p.lo)
            c.prove(imp(cmp('<', k, p.hi), bmp(p.base.elem(k))), 'encodeUcs2 precondition: UCS2 characters')
        else: raise Unsupported('encodeUcs2 of %r' % (p,))
    return VBytes(ucs2(str_seq(t)))


@contract('decodeUcs2', P + 'decodeUcs2', proved_by=[P + 'decodeUcs2'])
def _(I, args, kwargs):
    """of the octets of a text, all of them"""
    it, nb = names(args, kwargs, 'byteIter', 'numBytes')
    c = ctx()
    if not isinstance(it, VIter): raise Unsupported('decodeUcs2 contract: argument')
    if c.entails(cmp('==', nb, 0)): return ''
    it.rest = drop_empty(it.rest)
    g = it.rest.pieces[0] if it.rest.pieces else None
    if g is None: return ''
    if not (isinstance(g, Gen) and isinstance(g.base, Ucs2Base) and c.entails(mb(z3.And(zi(g.lo) % 2 == 0, zi(g.hi) % 2 == 0, zi(g.hi) >= zi(g.lo))))):
        raise Unsupported('decodeUcs2 contract: octets of unknown origin')
    if not (c.entails(cmp('==', nb, sub(g.hi, g.lo))) or (len(it.rest.pieces) == 1 and c.entails(cmp('>=', nb, sub(g.hi, g.lo))))):
        raise Unsupported('decodeUcs2 contract: number of octets')
    it.rest = Seq(it.rest.pieces[1:])
    return mkstr(Seq((Gen(g.base.b, mi(zi(g.lo) / 2), mi(zi(g.hi) / 2)),)))
