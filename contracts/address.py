"""Contracts of semi-octet and address field coding (C03)."""
from .lib import *
from .alphabet import ENC, gsm_text, valid, enc_spec
from .septets import names, pack_spec, PackBase

P = 'gsmmodem.pdu.'


def digit(v, k): return band(cmp('<=', 48, v), cmp('<=', v, 57))


class SemiBase(Base):
    """octets of the digits d[0..n) of a number, first digit in the low half, an odd last one filled with 15"""
    def __init__(self, d, n):
        self.d, self.n = d, n
        self.name = 'semi_' + d.name
        self.length = mi((zi(n) + 1) / 2)
    def elem(self, k):
        lo, hi = zi(self.d.elem(mul(2, k))) - 48, zi(self.d.elem(add(mul(2, k), 1))) - 48
        return mi(lo + 16 * z3.If(2 * zi(k) + 1 < zi(self.n), hi, z3.IntVal(15)))
    def same(self, o): return self is o or (isinstance(o, SemiBase) and self.d.same(o.d) and keys_same(self.n, o.n))


def digits(u, maxlen, name='digits', minlen=1): return u.chars(name, minlen, maxlen, cons=digit)


def semi(b, n):
    s = SemiBase(b, n)
    return Seq((Gen(s, 0, s.length),))


def text(b, n, plus=False): return mkstr((lit([43]) if plus else EMPTY) + Seq((Gen(b, 0, n),)))


@unit('C03', P + 'encodeSemiOctets', 'two digits per octet, first digit low, odd end filled')
def _(u):
    b, n = digits(u, None, minlen=0)
    u.replay('address_number', lambda ev: (ev(text(b, n)), False, b''))
    r = u.returns(u.call(text(b, n)))
    u.prove(isinstance(r, VBytes), 'a bytearray')
    u.prove_eq(r, VBytes(semi(b, n)), 'octets')


def semi_loop(b, count):
    def inv(L, p):
        L.seq('number', Seq((Gen(CharsBase(b), 0, mul(2, p)),)))
        L.eq('i', p)
        L.fact(cmp('<', p, count), 'position below the limit')
    return inv


@unit('C03', P + 'decodeSemiOctets', 'inverse of the encoding, consumes exactly the given number of octets')
def _(u):
    b, n = digits(u, MAXLEN, minlen=0)
    rb, rn = u.bytes('rest')
    u.replay('address_number', lambda ev: (ev(text(b, n)), False, bytes(ev(Seq((Gen(rb, 0, rn),))))))
    s = SemiBase(b, n)
    rest = Seq((Gen(rb, 0, rn),))
    u.use({('decodeSemiOctets', 0): semi_loop(b, s.length)})
    it = VIter(Seq((Gen(s, 0, s.length),)) + rest)
    r = u.returns(u.call(it, s.length))
    u.prove(is_str(r), 'a string')
    u.prove_eq(r, text(b, n), 'the digits')
    u.prove_eq(VList(it.rest), VList(rest), 'consumes exactly the octets')


@contract('encodeSemiOctets', P + 'encodeSemiOctets', proved_by=[P + 'encodeSemiOctets'])
def _(I, args, kwargs):
    t, = names(args, kwargs, 'number')
    q = str_seq(t) if is_str(t) else unsupported('encodeSemiOctets contract: argument')
    if q.concrete or len(q.pieces) != 1 or not isinstance(q.pieces[0], Gen) or not keys_same(q.pieces[0].lo, 0):
        return I.call_function(resolve(P + 'encodeSemiOctets'), args, kwargs)
    g = q.pieces[0]
    k = ctx().fresh_int('dk', g.lo)
    ctx().prove(imp(cmp('<', k, g.hi), digit(g.base.elem(k), k)), 'encodeSemiOctets precondition: decimal digits')
    return VBytes(semi(g.base, g.hi))


@contract('decodeSemiOctets', P + 'decodeSemiOctets', proved_by=[P + 'decodeSemiOctets', P + 'encodeSemiOctets'])
def _(I, args, kwargs):
    it, limit = names(args, kwargs, 'encodedNumber', ('numberOfOctets', None))
    if not isinstance(it, VIter) or limit is None: raise Unsupported('decodeSemiOctets contract: arguments')
    g = it.rest.pieces[0] if it.rest.pieces else None
    c = ctx()
    if not (isinstance(g, Gen) and isinstance(g.base, SemiBase) and c.entails(band(cmp('==', g.lo, 0), cmp('==', g.hi, g.base.length), cmp('==', limit, g.hi)))):
        return I.call_function(resolve(P + 'decodeSemiOctets'), args, kwargs)
    it.rest = Seq(it.rest.pieces[1:])
    return mkstr(Seq((Gen(g.base.d, 0, g.base.n),)))


# -- the address field --------------------------------------------------------------------------------------------------
def number_field(b, n, plus, smsc):
    s = SemiBase(b, n)
    return lit([add(s.length, 1) if smsc else n, 0x91 if plus else 0xA1]) + Seq((Gen(s, 0, s.length),))


def name_field(rope):
    """rope: the characters of the name"""
    q = enc_spec(rope)
    return lit([mi((7 * zi(seq_len(q)) + 3) / 4), 0xD0]) + pack_spec(q, 0), q


MAXDIG, MAXDIG_SMSC, MAXSEPT = 255, 508, 145          # what the length octet can express


for _smsc in (False, True):
    for _plus in (False, True):
        _nm = '%s%s' % ('international ' if _plus else '', 'service centre number' if _smsc else 'number')

        @unit('C03', P + '_encodeAddressField', _nm, uses=['encodeSemiOctets'])
        def _(u, smsc=_smsc, plus=_plus):
            b, n = digits(u, MAXDIG_SMSC if smsc else MAXDIG)
            u.replay('address_number', lambda ev: (ev(text(b, n, plus)), smsc, b''))
            r = u.returns(u.call(text(b, n, plus), *([True] if smsc else [])))
            u.prove(isinstance(r, VBytes), 'a bytearray')
            u.prove_eq(r, VBytes(number_field(b, n, plus, smsc)), 'octets')

        @unit('C03', P + '_decodeAddressField', _nm, uses=['decodeSemiOctets'])
        def _(u, smsc=_smsc, plus=_plus):
            b, n = digits(u, MAXDIG_SMSC if smsc else MAXDIG)
            rb, rn = u.bytes('rest')
            rest = Seq((Gen(rb, 0, rn),))
            u.replay('address_number', lambda ev: (ev(text(b, n, plus)), smsc, bytes(ev(rest))))
            f = number_field(b, n, plus, smsc)
            it = VIter(f + rest)
            r = u.returns(u.call(it, *([True] if smsc else [])))
            u.prove(isinstance(r, tuple) and len(r) == 2, 'a pair')
            u.prove_eq(r[0], text(b, n, plus), 'the number')
            u.prove_eq(r[1], seq_len(f), 'number of octets')
            u.prove_eq(VList(it.rest), VList(rest), 'consumes exactly the field')


def name_input(u):
    """a name in the alphabets that is not a number: some character prevents that"""
    b, n = gsm_text(u, 'name', 1)
    w = u.int('w', 0)
    u.assume(cmp('<', w, n))
    u.assume(bnot(digit(b.elem(w), w)))                                  # not all digits
    if not u.branch(cmp('!=', b.elem(0), 43)):                             # begins with +
        if u.branch(cmp('>', n, 1)):
            v = u.int('v', 1)
            u.assume(cmp('<', v, n))
            u.assume(bnot(digit(b.elem(v), v)))
    u.assume(cmp('<=', Flat(ENC, b, 0, n).len(), MAXSEPT))
    return b, n


@unit('C03', P + '_encodeAddressField', 'name in the GSM alphabet', uses=['encodeGsm7', 'packSeptets'])
def _(u):
    b, n = name_input(u)
    u.replay('address_name', lambda ev: (ev(text(b, n)), b''))
    r = u.returns(u.call(text(b, n)))
    u.prove_eq(r, VBytes(name_field(Seq((Gen(b, 0, n),)))[0]), 'octets')


@unit('C03', P + '_decodeAddressField', 'name in the GSM alphabet', uses=['unpackSeptets', 'decodeGsm7'])
def _(u):
    b, n = name_input(u)
    rb, rn = u.bytes('rest')
    rest = Seq((Gen(rb, 0, rn),))
    u.replay('address_name', lambda ev: (ev(text(b, n)), bytes(ev(rest))))
    f = name_field(Seq((Gen(b, 0, n),)))[0]
    it = VIter(f + rest)
    r = u.returns(u.call(it))
    u.prove_eq(r[0], text(b, n), 'the name')
    u.prove_eq(r[1], seq_len(f), 'number of octets')
    u.prove_eq(VList(it.rest), VList(rest), 'consumes exactly the field')


@unit('C03', P + '_decodeAddressField', 'empty field', uses=())
def _(u):
    rb, rn = u.bytes('rest')
    rest = Seq((Gen(rb, 0, rn),))
    it = VIter(lit([0]) + rest)
    r = u.returns(u.call(it, True))
    u.prove_eq(r, (None, 1), 'no address, one octet')
    u.prove_eq(VList(it.rest), VList(rest), 'consumes exactly the field')


# -- addresses for callers: any valid address and its field ---------------------------------------------------------------
class AddrField(Base):
    """octets of the address field of a valid address (text: characters b[0..n))"""
    def __init__(self, b, n, smsc):
        c = ctx()
        self.b, self.n, self.smsc = b, n, smsc
        self.name = c.name('field_' + b.name)
        self.length = c.fresh_int('len_' + self.name, 2, 257)
    def elem(self, k): raise Unsupported('octet of an address field')
    def same(self, o): return self is o


def an_address(u, name, number=False):
    """a valid address: a number, or (number=False) also a name in the GSM alphabet, as large as the field can express"""
    b = SymBase(name, u.int('n_' + name, 1, 509), lambda v, k: band(cmp('<=', 0, v), cmp('<', v, 0x110000)))
    ctx().anchors.setdefault('addresses', []).append((b, number))
    return mkstr(Seq((Gen(b, 0, b.length),))), b


def address_field(b, smsc=False):
    reg = ctx().anchors.setdefault('addrfields', {})
    if (b, smsc) not in reg: reg[(b, smsc)] = AddrField(b, b.length, smsc)
    f = reg[(b, smsc)]
    return Seq((Gen(f, 0, f.length),))


@contract('_encodeAddressField', P + '_encodeAddressField', proved_by=[P + '_encodeAddressField'])
def _(I, args, kwargs):
    a, smsc = names(args, kwargs, 'address', ('smscField', False))
    q = str_seq(a) if is_str(a) else unsupported('_encodeAddressField contract: argument')
    if not isinstance(smsc, bool) or len(q.pieces) != 1 or not isinstance(q.pieces[0], Gen): raise Unsupported('_encodeAddressField contract: arguments')
    g = q.pieces[0]
    for b, number in ctx().anchors.get('addresses', []):
        if b is g.base and (number or not smsc) and keys_same(g.lo, 0) and keys_same(g.hi, b.length): return VBytes(address_field(b, smsc))
    raise Unsupported('_encodeAddressField contract: not a known address')


@contract('_decodeAddressField', P + '_decodeAddressField', proved_by=[P + '_decodeAddressField', P + '_encodeAddressField'])
def _(I, args, kwargs):
    it, smsc, log = names(args, kwargs, 'byteIter', ('smscField', False), ('log', False))
    if not isinstance(it, VIter) or not isinstance(smsc, bool): raise Unsupported('_decodeAddressField contract: arguments')
    g = it.rest.pieces[0] if it.rest.pieces else None
    if isinstance(g, Lit): return I.call_function(resolve(P + '_decodeAddressField'), args, kwargs)
    if not (isinstance(g, Gen) and isinstance(g.base, AddrField) and g.base.smsc == smsc and keys_same(g.lo, 0) and keys_same(g.hi, g.base.length)):
        raise Unsupported('_decodeAddressField contract: not an address field')
    it.rest = Seq(it.rest.pieces[1:])
    return (mkstr(Seq((Gen(g.base.b, 0, g.base.n),))), g.hi)
