"""Contracts of the GSM-7 alphabet coding (C01)."""
from .lib import *
import spec

P = 'gsmmodem.pdu.'
BASIC = {c: v[0] for c, v in spec.CODE.items() if len(v) == 1}
EXT = {c: v[1] for c, v in spec.CODE.items() if len(v) == 2}


def isin(x, t):
    if isinstance(x, int): return chr(x) in t
    cs = sorted(map(ord, t))
    rs, i = [], 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1: j += 1
        rs.append(z3.And(zi(x) >= cs[i], zi(x) <= cs[j]) if j > i else zi(x) == cs[i])
        i = j + 1
    return mb(z3.Or(rs))


def lookup(x, t):
    if isinstance(x, int): return t[chr(x)]
    z = None
    for c, v in t.items(): z = z3.IntVal(v) if z is None else z3.If(zi(x) == ord(c), z3.IntVal(v), z)
    return mi(z)


def valid(x): return bor(isin(x, BASIC), isin(x, EXT))


def _enc(x):
    """septets of one character (GSM 03.38); x is a code point of the alphabets"""
    if ctx().branch(isin(x, BASIC)): return [lookup(x, BASIC)]
    if ctx().branch(isin(x, EXT)): return [27, lookup(x, EXT)]
    raise PathEnd()


def _encd(x):
    if ctx().branch(isin(x, BASIC)): return [lookup(x, BASIC)]
    if ctx().branch(isin(x, EXT)): return [27, lookup(x, EXT)]
    return []


ENC = FlatFn('enc', _enc, 1, 2)
ENCD = FlatFn('encd', _encd, 0, 2)


def codepoint(v, k): return band(cmp('<=', 0, v), cmp('<', v, 0x110000))


def gsm_text(u, name='text', minlen=0, maxlen=None):
    return u.chars(name, minlen, maxlen, cons=lambda v, k: valid(v))


class Validity:
    """ghost predicate: character k is in the alphabets"""
    def __init__(self, base):
        self.V = z3.Function('V_' + base.name, z3.IntSort(), z3.BoolSort())
        base.cons.append(lambda v, k: mb(self.V(zi(k)) == zb(valid(v))))
    def all_before(self, p):
        k = z3.Int('k')
        return mb(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(p)), self.V(k))))


def enc_loop(base, fn, vd=None):
    def inv(L, p):
        L.seq('result', Seq((Flat(fn, base, 0, p),)))
        if vd: L.fact(vd.all_before(p), 'every character so far is in the alphabets')
    return inv


@unit('C01', P + 'encodeGsm7', 'septets of every character in order; ValueError exactly for other characters')
def _(u):
    b, n = u.chars('text', cons=codepoint)
    vd = Validity(b)
    u.replay('gsm7_refuse', lambda ev: (''.join(map(chr, ev(Seq((Gen(b, 0, n),))))), '', ''))
    u.replay('gsm7_roundtrip', lambda ev: ''.join(map(chr, ev(Seq((Gen(b, 0, n),))))))
    u.use({('encodeGsm7', 0): enc_loop(b, ENC, vd)})
    r = u.call(mkstr(Seq((Gen(b, 0, n),))))
    if isinstance(r, Raised):
        u.raises(r, ValueError)
        u.prove(bnot(vd.all_before(n)), 'refused only when a character is in neither alphabet')
        return
    u.prove(vd.all_before(n), 'accepted only when every character is in the alphabets')
    u.prove(isinstance(r, VBytes), 'a bytearray')
    u.prove_eq(r, VBytes(Seq((Flat(ENC, b, 0, n),))), 'one septet per default character, escape and one per extension character')


@unit('C01', P + 'encodeGsm7', 'discarding: as the text without the other characters')
def _(u):
    b, n = u.chars('text', cons=codepoint)
    u.replay('gsm7_refuse', lambda ev: (''.join(map(chr, ev(Seq((Gen(b, 0, n),))))), '', ''))
    u.replay('gsm7_roundtrip', lambda ev: ''.join(map(chr, ev(Seq((Gen(b, 0, n),))))))
    u.use({('encodeGsm7', 0): enc_loop(b, ENCD)})
    r = u.returns(u.call(mkstr(Seq((Gen(b, 0, n),))), True))
    u.prove_eq(r, VBytes(Seq((Flat(ENCD, b, 0, n),))), 'octets')


@unit('C01', P + 'encodeGsm7', 'values are 0..127')
def _(u):
    x = u.int('char', 0, 0x10FFFF)
    u.assume(valid(x))
    r = u.returns(u.call(mkstr(lit([x]))))
    u.prove(r.seq.concrete and len(r.seq.items) in (1, 2), 'one or two values')
    for e in r.seq.items: u.prove(band(cmp('<=', 0, e), cmp('<=', e, 127)), 'value within 0..127')
    u.prove(imp(isin(x, BASIC), len(r.seq.items) == 1), 'one value for a default character')


def dec_loop(base):
    def inv(L, p): L.seq('result', Seq((Gen(CharsBase(base), 0, p),)))
    return inv


@unit('C01', P + 'decodeGsm7', 'inverse of the encoding')
def _(u):
    b, n = gsm_text(u)
    u.replay('gsm7_roundtrip', lambda ev: ''.join(map(chr, ev(Seq((Gen(b, 0, n),))))))
    u.use({('decodeGsm7', 0): dec_loop(b)})
    r = u.returns(u.call(VBytes(Seq((Flat(ENC, b, 0, n),)))))
    u.prove(is_str(r), 'a string')
    u.prove_eq(r, mkstr(Seq((Gen(b, 0, n),))), 'the identical text')


def text_is_gsm(rope):
    """forks: every character of the text is in the alphabets?"""
    c = ctx()
    ok = True
    for p in rope.pieces:
        if isinstance(p, Lit): good = band(*[valid(x) for x in p.items])
        elif isinstance(p, Gen):
            k = c.fresh_int('gk', p.lo)
            if c.entails(imp(cmp('<', k, p.hi), valid(p.base.elem(k)))): continue
            if not isinstance(p.base, SymBase): raise Unsupported('alphabet of %r' % (p,))
            good = all_of(p, valid)
        else: raise Unsupported('alphabet of %r' % (p,))
        if not c.branch(good): return False
    return True


def enc_spec(rope):
    out = []
    for p in rope.pieces:
        if isinstance(p, Lit):
            for x in p.items: out.append(Lit(_enc(x)))
        else: out.append(Flat(ENC, p.base, p.lo, p.hi))
    return Seq(out)


@contract('encodeGsm7', P + 'encodeGsm7', proved_by=[(P + 'encodeGsm7', 'septets of'), (P + 'encodeGsm7', 'values are')])
def _(I, args, kwargs):
    from .septets import names
    text, discard = names(args, kwargs, 'plaintext', ('discardInvalid', False))
    if not is_str(text): raise Unsupported('encodeGsm7 contract: argument types')
    if discard is not False: raise Unsupported('encodeGsm7 contract: discarding')
    q = str_seq(text)
    if not text_is_gsm(q): throw(ValueError, 'Cannot encode character')
    return VBytes(enc_spec(q))


@contract('decodeGsm7', P + 'decodeGsm7', proved_by=[P + 'decodeGsm7'])
def _(I, args, kwargs):
    """of a sequence of septets that encodes a text"""
    from .septets import names
    s, = names(args, kwargs, 'encodedText')
    if not isinstance(s, VBytes): raise Unsupported('decodeGsm7 contract: argument types')
    q = refold(s.seq)
    if not q.pieces: return ''
    if len(q.pieces) == 1 and isinstance(q.pieces[0], Flat) and q.pieces[0].fn is ENC:
        p = q.pieces[0]
        return mkstr(Seq((Gen(p.base, p.lo, p.hi),)))
    raise Unsupported('decodeGsm7 contract: septets of unknown origin %r' % (q,))
