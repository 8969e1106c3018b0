"""Totality of decoding (C11): for arbitrary octets every function terminates and returns a value of the right kind or raises
an Exception; decodeSmsPdu turns every such exception into EncodingError."""
from .lib import *
from .septets import names, GroupBase, unpack_loop, unpacked
from pyvc.models import UnhexBase, HexBase, hexdigit, mk_dt, is_td, DTF

P = 'gsmmodem.pdu.'


class AnyError(Exception):
    """stands for every exception class other than EncodingError"""


def octets(u, name='octets', minlen=0):
    b, n = u.bytes(name, minlen)
    it = VIter(Seq((Gen(b, 0, n),))); it.plain = True
    return b, n, it


def anystr():
    c = ctx()
    n = c.fresh_int('n_some', 0)
    return mkstr(Seq((Gen(SymBase('some', n, lambda v, k: band(cmp('<=', 0, v), cmp('<', v, 0x110000))), 0, n),)))


def anybytes():
    c = ctx()
    n = c.fresh_int('n_some', 0)
    return VBytes(Seq((Gen(SymBase('some', n, lambda v, k: band(cmp('<=', 0, v), cmp('<=', v, 255))), 0, n),)))


def advance(it):
    """the callee consumed some of the octets"""
    if not isinstance(it, VIter) or len(it.rest.pieces) > 1 or not all(isinstance(p, Gen) for p in it.rest.pieces): raise Unsupported('contract: iterator')
    for g in it.rest.pieces:
        ctx().assume(cmp('<=', g.lo, g.hi))
        it.rest = Seq((Gen(g.base, ctx().fresh_int('pos', g.lo, g.hi), g.hi),))


def may_raise():
    if ctx().choice([None, None]): throw(AnyError)


def outcome(u, r, ok, what):
    """a result of the right kind, or an Exception"""
    if isinstance(r, Raised): u.prove(issubclass(r.cls, Exception), 'raises only Exceptions'); return
    u.prove(ok(r), what)


def kept(u, b, n, it):
    """the iterator still stands within the same octets"""
    ps = it.rest.pieces
    u.prove(len(ps) <= 1 and all(isinstance(p, Gen) and p.base is b for p in ps) and band(*[band(cmp('<=', 0, p.lo), cmp('==', p.hi, n)) for p in ps]), 'consumes a prefix of the octets')


# -- leaf functions ---------------------------------------------------------------------------------------------------------
@unit('C11', P + 'decodeSemiOctets', 'any octets: a string or an Exception')
def _(u):
    b, n, it = octets(u)
    def inv(L, p):
        L.anychars('number')
        L.any('i', 0)
    u.use({('decodeSemiOctets', 0): inv})
    r = u.call(it, u.int('limit'))
    outcome(u, r, is_str, 'a string')
    kept(u, b, n, it)


@unit('C11', P + 'unpackSeptets', 'limit beyond the octets available: a bytearray', budget=100)
def _(u):
    b, n = u.bytes('octets')
    lim = u.int('limit', 1)
    u.assume(cmp('>', lim, n))
    gb = GroupBase(b, None, 8)
    u.use({('unpackSeptets', 0): unpack_loop(gb, b, None, None)})
    it = VIter(Seq((Gen(b, 0, n),)))
    r = u.call(it, lim)
    outcome(u, r, lambda r: isinstance(r, VBytes), 'a bytearray')


@unit('C11', P + 'decodeGsm7', 'any octets: a string or an Exception')
def _(u):
    b, n = u.bytes('octets')
    def inv(L, p): L.anychars('result')
    u.use({('decodeGsm7', 0): inv})
    r = u.call(VBytes(Seq((Gen(b, 0, n),))))
    outcome(u, r, is_str, 'a string')


@unit('C11', P + 'decodeUcs2', 'any octets: a string or an Exception')
def _(u):
    b, n, it = octets(u)
    lim = u.int('limit', 0, 255)
    def inv(L):
        L.anychars('userData')
        i = L.any('i', 0)
        L.anyiter('byteIter', b, n)
        L.variant(sub(256, i))
    u.use({('decodeUcs2', 0): inv})
    r = u.call(it, lim)
    outcome(u, r, is_str, 'a string')


@unit('C11', P + 'InformationElement.decode', 'any octets: an element of at least two octets or an Exception')
def _(u):
    from pyvc.models import b_len
    b, n, it = octets(u)
    def inv(L, p):
        L.anybytes('ieData')
        L.anyiter('byteIter', b, n)
    u.use({('InformationElement.decode', 0): inv})
    cls = resolve(P + 'InformationElement')
    r = u.call(cls, it)
    outcome(u, r, lambda r: isinstance(r, VObj) and issubclass(r.cls, cls), 'an element')
    if not isinstance(r, Raised): u.prove(cmp('>=', b_len(u.I, [r], {}), 2), 'at least two octets long')
    kept(u, b, n, it)


class AnyElem:
    def __init__(self): self.n = ctx().fresh_int('elemlen', 2); self.cls = resolve(P + 'InformationElement')
    def vlen(self): return self.n


@contract('any InformationElement.decode', P + 'InformationElement.decode', proved_by=[(P + 'InformationElement.decode', 'any octets')])
def _(I, args, kwargs):
    may_raise(); advance(args[-1]); return AnyElem()


@contract('any decodeSemiOctets', P + 'decodeSemiOctets', proved_by=[(P + 'decodeSemiOctets', 'any octets')])
def _(I, args, kwargs):
    it, limit = names(args, kwargs, 'encodedNumber', ('numberOfOctets', None))
    if not is_int(limit): raise Unsupported('contract: limit')
    may_raise(); advance(it); return anystr()


@contract('any unpackSeptets', P + 'unpackSeptets', proved_by=[(P + 'unpackSeptets', t) for t in ('all 7-bit', 'limited', 'after a header', 'limit beyond')])
def _(I, args, kwargs):
    s, limit, prev, shift = names(args, kwargs, 'septets', ('numberOfSeptets', None), ('prevOctet', None), ('shift', 7))
    c = ctx()
    if isinstance(s, VIter):
        c.prove(prev is None and shift == 7 and limit is not None and cmp('>=', limit, 1), 'unpackSeptets precondition: limit')
        advance(s)
    elif isinstance(s, VBytes):
        c.prove(limit is None, 'unpackSeptets precondition: no limit')
        if prev is None: c.prove(val_eq(shift, 7), 'unpackSeptets precondition: shift')
        else: c.prove(band(cmp('<=', 0, prev), cmp('<=', prev, 255), cmp('<=', 2, shift), cmp('<=', shift, 7)), 'unpackSeptets precondition: octet and shift')
    else: raise Unsupported('contract: argument')
    return anybytes()


@contract('any decodeGsm7', P + 'decodeGsm7', proved_by=[(P + 'decodeGsm7', 'any octets')])
def _(I, args, kwargs):
    if len(args) != 1 or not isinstance(args[0], VBytes): raise Unsupported('contract: argument')
    may_raise(); return anystr()


@contract('any decodeUcs2', P + 'decodeUcs2', proved_by=[(P + 'decodeUcs2', 'any octets')])
def _(I, args, kwargs):
    it, lim = names(args, kwargs, 'byteIter', 'numBytes')
    ctx().prove(band(cmp('<=', 0, lim), cmp('<=', lim, 255)), 'decodeUcs2 precondition: an octet')
    may_raise(); advance(it); return anystr()


# -- fields -------------------------------------------------------------------------------------------------------------------
for _s in (False, True):
    @unit('C11', P + '_decodeAddressField', 'any octets: an address and a size, or an Exception (service centre form: %s)' % _s, uses=['any decodeSemiOctets', 'any unpackSeptets', 'any decodeGsm7'])
    def _(u, smsc=_s):
        b, n, it = octets(u)
        r = u.call(it, smsc)
        outcome(u, r, lambda r: isinstance(r, tuple) and len(r) == 2 and (r[0] is None or is_str(r[0])) and is_int(r[1]), 'an address and a size')
        kept(u, b, n, it)


@unit('C11', P + '_decodeTimestamp', 'any octets: a point in time or an Exception', uses=['any decodeSemiOctets'])
def _(u):
    b, n, it = octets(u)
    ctx().anchors['approx'] = True
    r = u.call(it)
    outcome(u, r, lambda r: isinstance(r, VObj) and r.cls.__name__ == 'datetime', 'a datetime')
    kept(u, b, n, it)


@unit('C11', P + '_decodeUserData', 'any octets: a text and the announced header, or an Exception', uses=['any InformationElement.decode', 'any unpackSeptets', 'any decodeGsm7', 'any decodeUcs2'])
def _(u):
    b, n, it = octets(u)
    udl, coding, hdr = u.int('udl', 0, 255), u.int('coding', 0, 3), u.branch(u.bool('header'))
    def header(L):
        x = L.any('ieLenRead', 0)
        res = L.entry_val('result')
        lst = dict(res.items).get('udh') if isinstance(res, VDict) else None
        if not isinstance(lst, VList): raise Unsupported('loop annotation: result[udh]')
        L.cover(lst, 'seq')
        if L.mode == 'havoc':
            m = ctx().fresh_int('m', 0)
            lst._seq = Seq((Gen(CompBase('elems', lambda k: AnyElem()), 0, m),))
        L.anyiter('byteIter', b, n)
        L.variant(sub(256, x))
    def body(L, p): L.anychars('userData')
    u.use({('_decodeUserData', 0): header, ('_decodeUserData', 1): body})
    r = u.call(it, udl, coding, hdr)
    outcome(u, r, lambda r: isinstance(r, VDict) and set(k for k, _ in r.items) == ({'text', 'udh'} if hdr else {'text'}) and is_str(dict(r.items)['text']), 'a text, and header elements exactly when announced')


@contract('any _decodeAddressField', P + '_decodeAddressField', proved_by=[(P + '_decodeAddressField', 'any octets')])
def _(I, args, kwargs):
    it, smsc, log = names(args, kwargs, 'byteIter', ('smscField', False), ('log', False))
    may_raise(); advance(it)
    return (None if ctx().choice([None, None]) else anystr(), ctx().fresh_int('size'))


@contract('any _decodeTimestamp', P + '_decodeTimestamp', proved_by=[(P + '_decodeTimestamp', 'any octets')])
def _(I, args, kwargs):
    may_raise(); advance(args[0])
    return mk_dt([ctx().fresh_int(f) for f in DTF])


@contract('any _decodeUserData', P + '_decodeUserData', proved_by=[(P + '_decodeUserData', 'any octets')])
def _(I, args, kwargs):
    it, udl, coding, hdr = names(args, kwargs, 'byteIter', 'userDataLen', 'dataCoding', 'udhPresent')
    c = ctx()
    c.prove(band(cmp('<=', 0, udl), cmp('<=', udl, 255)), '_decodeUserData precondition: length')
    c.prove(band(cmp('<=', 0, coding), cmp('<=', coding, 3)), '_decodeUserData precondition: coding')
    may_raise(); advance(it)
    d = [('text', anystr())]
    if c.branch(I.truth_cond(hdr)): d.append(('udh', VList()))
    return VDict(d)


FIELDS = {'SMS-DELIVER': {'smsc', 'tpdu_length', 'type', 'number', 'protocol_id', 'time', 'text'},
          'SMS-SUBMIT': {'smsc', 'tpdu_length', 'type', 'reference', 'number', 'protocol_id', 'text'},
          'SMS-STATUS-REPORT': {'smsc', 'tpdu_length', 'type', 'reference', 'number', 'time', 'discharge', 'status'}}


def complete(r):
    if not isinstance(r, VDict): return False
    d = dict(r.items)
    if d.get('type') not in FIELDS or not FIELDS[d['type']] <= set(d): return False
    text = lambda v: v is None or is_str(v)
    time = lambda v: isinstance(v, VObj) and v.cls.__name__ == 'datetime'
    octet = lambda v: is_int(v)
    kind = dict(smsc=text, number=text, text=is_str, tpdu_length=is_int, type=is_str, protocol_id=octet, reference=octet, status=octet, time=time, discharge=time)
    return all(kind[k](d[k]) for k in FIELDS[d['type']])


@unit('C11', P + '_decodePduOctets', 'any octets: a complete description, or an Exception', uses=['any _decodeAddressField', 'any _decodeTimestamp', 'any _decodeUserData', '_decodeRelativeValidityPeriod'])
def _(u):
    b, n = u.bytes('octets')
    u.replay('decode_total', lambda ev: bytes(ev(Seq((Gen(b, 0, n),)))))
    r = u.call(VBytes(Seq((Gen(b, 0, n),))))
    outcome(u, r, complete, 'all fields of the message type')


class Complete:
    """the complete description of the octets"""
    def __init__(self, rope): self.rope = rope
    def veq(self, o): return isinstance(o, Complete) and seq_cond(self.rope, o.rope)


@contract('any _decodePduOctets', P + '_decodePduOctets', proved_by=[(P + '_decodePduOctets', 'any octets')])
def _(I, args, kwargs):
    c = ctx()
    if len(args) != 1 or kwargs or not isinstance(args[0], VBytes): c.prove(False, '_decodePduOctets precondition: a bytearray')
    c.anchors['decoded'] = args[0].seq
    i = c.choice([None, None, None])
    if i == 1: throw(AnyError)
    if i == 2: throw(resolve('gsmmodem.exceptions.EncodingError'))
    return Complete(args[0].seq)


def total(u, r):
    if isinstance(r, Raised): u.prove(r.cls is resolve('gsmmodem.exceptions.EncodingError'), 'raises nothing but EncodingError'); return
    u.prove(isinstance(r, Complete), 'the complete description')


@unit('C11', P + 'decodeSmsPdu', 'any octets: a complete description or EncodingError', uses=['any _decodePduOctets'])
def _(u):
    b, n = u.bytes('octets')
    u.replay('decode_total', lambda ev: bytes(ev(Seq((Gen(b, 0, n),)))))
    v = VBytes(Seq((Gen(b, 0, n),)))
    total(u, u.call(v))


@unit('C11', P + 'decodeSmsPdu', 'any text or byte string: a complete description or EncodingError', uses=['any _decodePduOctets'])
def _(u):
    if u.branch(u.bool('istext')):
        b, n = u.chars('pdu')
        v = mkstr(Seq((Gen(b, 0, n),)))
    else:
        b, n = u.bytes('pdu')
        v = VBytes(Seq((Gen(b, 0, n),))); v.cls = bytes
    u.replay('decode_total', lambda ev: ev(v))
    total(u, u.call(v))


@unit('C09 C10', P + 'decodeSmsPdu', 'hexadecimal digits (either case) of any octets: the description of those octets', uses=['any _decodePduOctets'])
def _(u):
    b, n = u.bytes('octets')
    h = HexBase(b)
    if u.branch(u.bool('upper')): h = CompBase('up', lambda k, h=h: mi(z3.If(zi(h.elem(k)) >= 97, zi(h.elem(k)) - 32, zi(h.elem(k)))))
    r = u.call(mkstr(Seq((Gen(h, 0, mul(2, n)),))))
    u.prove('decoded' in ctx().anchors, 'the octets are decoded')
    u.prove_eq(VBytes(ctx().anchors['decoded']), VBytes(Seq((Gen(b, 0, n),))), 'exactly those octets')
    if not isinstance(r, Raised): u.prove(isinstance(r, Complete), 'result passed on')


@unit('C09', P + 'Pdu.__str__', 'two upper-case hexadecimal digits per octet')
def _(u):
    b, n = u.bytes('octets')
    o = u.returns(u.call_other(resolve(P + 'Pdu'), VBytes(Seq((Gen(b, 0, n),))), u.int('length')), 'construction')
    r = u.returns(u.call(o))
    u.prove(is_str(r), 'a string')
    def digit(k):
        e = zi(b.elem(mi(zi(k) / 2)))
        return hexdigit(mi(z3.If(zi(k) % 2 == 0, e / 16, e % 16)), True)
    u.prove_eq(r, mkstr(Seq((Gen(CompBase('hexdigits', digit), 0, mul(2, n)),))), 'the digits')
