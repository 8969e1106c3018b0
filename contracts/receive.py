"""Contracts of PDU decoding (C09 submit, C10 deliver and status report)."""
from .lib import *
from .alphabet import gsm_text, enc_spec
from .septets import names, pack_spec
from .ucs2 import bmp, ucs2
from .address import an_address, address_field
from .times import a_stamp, check_stamp, mk_td, td_us, is_td, table, US
from pyvc.models import live_items

P = 'gsmmodem.pdu.'


# -- user data header: any number of elements --------------------------------------------------------------------------------
class Header:
    """a well-formed header of U octets h: element j occupies octets O(j) .. O(j+1)"""
    def __init__(self, u, maxlen=253):
        c = ctx()
        self.h, self.U = u.bytes('header', 0, maxlen)
        self.m = u.int('elements', 0)
        self.fn = z3.Function(c.name('O'), z3.IntSort(), z3.IntSort())
        u.assume(band(cmp('==', self.O(0), 0), cmp('==', self.O(self.m), self.U)))
        c.anchors['header'] = self
    def O(self, j): return mi(self.fn(zi(j)))
    def id(self, j): return self.h.elem(self.O(j))
    def len(self, j): return self.h.elem(add(self.O(j), 1))
    def well_formed(self, j):
        i, l = self.id(j), self.len(j)
        return band(*[imp(cmp('==', i, k), cmp('==', l, n)) for k, n in ((0, 3), (8, 4), (4, 2), (5, 4))])
    def know(self, j):
        ctx().assume(imp(band(cmp('<=', 0, j), cmp('<', j, self.m)),
                         band(cmp('>=', self.O(j), 0), cmp('<=', add(self.O(j), 2), self.U), cmp('==', self.O(add(j, 1)), add(add(self.O(j), 2), self.len(j))), cmp('<=', self.O(add(j, 1)), self.U), self.well_formed(j))))
    def octets(self): return Seq((Gen(self.h, 0, self.U),))
    def elements(self, n=None): return Seq((Gen(ElemBase(self), 0, self.m if n is None else n),))


class Elem:
    """the object decoding element j gives (kind, values and length as the header contracts state)"""
    def __init__(self, hd, j): self.hd, self.j = hd, j; self.cls = resolve(P + 'InformationElement')
    def vlen(self): return add(2, self.hd.len(self.j))
    def vtruth(self): return True
    def veq(self, o): return isinstance(o, Elem) and o.hd is self.hd and cmp('==', self.j, o.j)


class ElemBase(Base):
    def __init__(self, hd): self.hd = hd; self.name = 'elements'; self.length = None
    def elem(self, k): return Elem(self.hd, k)
    def same(self, o): return self is o or (isinstance(o, ElemBase) and o.hd is self.hd)


@contract('InformationElement.decode', P + 'InformationElement.decode', proved_by=[P + 'InformationElement.decode', P + 'Concatenation.__init__', P + 'PortAddress.__init__', (P + 'Concatenation.encode', 'survives'), (P + 'PortAddress.encode', 'survives')])
def _(I, args, kwargs):
    it = args[-1]
    hd, c = ctx().anchors.get('header'), ctx()
    g = it.rest.pieces[0] if isinstance(it, VIter) and it.rest.pieces else None
    if hd is None: return I.call_function(resolve(P + 'InformationElement.decode'), args, kwargs)
    j = c.anchors.get('element')
    if kwargs or j is None or not (isinstance(g, Gen) and g.base is hd.h and c.entails(cmp('==', g.lo, hd.O(j))) and c.entails(band(cmp('<=', 0, j), cmp('<', j, hd.m)))):
        raise Unsupported('InformationElement.decode contract: not at an element')
    hd.know(j)
    c.prove(hd.well_formed(j), 'InformationElement.decode precondition: well-formed element')
    it.rest = Seq((Gen(hd.h, hd.O(add(j, 1)), g.hi),) + it.rest.pieces[1:])
    return Elem(hd, j)


def header_loop(hd, rest):
    def inv(L):
        c = ctx()
        if L.mode == 'havoc':
            j = c.fresh_int('j', 0, hd.m)
            hd.know(j)
            c.anchors['element'] = L.store['j'] = j
        else: j = 0 if L.mode == 'entry' else add(L.store['j'], 1)
        L.fact(cmp('<=', j, hd.m), 'elements read')
        L.eq('ieLenRead', hd.O(j))
        res = L.entry_val('result')
        lst = dict(res.items).get('udh') if isinstance(res, VDict) else None
        if not isinstance(lst, VList): raise Unsupported('loop annotation: result[udh]')
        L.objseq(lst, hd.elements(j), 'udh')
        L.seq('byteIter', Seq((Gen(hd.h, hd.O(j), hd.U),)) + rest)
        L.variant(sub(hd.U, hd.O(j)))
    return inv


def chars8_loop(b, n):
    def inv(L, p): L.seq('userData', Seq((Gen(CharsBase(b), 0, p),)))
    return inv


class UserData:
    """user data carrying `text` in a coding (0 GSM-7, 1 8-bit, 2 UCS2), after an optional header"""
    def __init__(self, u, coding, header):
        self.coding, self.hd = coding, Header(u) if header else None
        hlen = add(self.hd.U, 1) if header else 0
        if coding == 0: self.b, self.n = gsm_text(u, 'text')
        else: self.b, self.n = u.chars('text', cons=bmp if coding == 2 else lambda v, k: band(cmp('<=', 0, v), cmp('<=', v, 255)))
        chars = Seq((Gen(self.b, 0, self.n),))
        self.text = mkstr(chars)
        if coding == 0:
            s = enc_spec(chars)
            pad = concretize(mi((8 * zi(hlen)) % 7), 8)
            self.body = pack_spec(s, pad)
            self.udl = add(mi((8 * zi(hlen) + 6) / 7), seq_len(s))
        else:
            self.body = ucs2(chars) if coding == 2 else chars
            self.udl = add(hlen, seq_len(self.body)) if coding == 1 else seq_len(self.body)
        if coding == 2: self.udl = add(hlen, self.udl)
        u.assume(cmp('<=', self.udl, 255))
    def octets(self): return (lit([self.hd.U]) + self.hd.octets() if self.hd else EMPTY) + self.body
    def check(self, u, r, pre=''):
        d = dict(r.items)
        u.prove('text' in d and is_str(d['text']), pre + 'a text')
        u.prove_eq(d['text'], self.text, pre + 'exactly the text')
        if self.hd:
            u.prove(isinstance(d.get('udh'), VList), pre + 'header elements')
            u.prove_eq(d['udh'], VList(self.hd.elements()), pre + 'the header elements, in order')
        else: u.prove('udh' not in d, pre + 'no header')


def ud_replay(u, ud):
    def build(ev):
        h = bytes(ev(ud.hd.octets())) if ud.hd else None
        ies, i = [], 0
        while h is not None and i + 1 < len(h):
            ies.append((h[i], h[i + 2:i + 2 + h[i + 1]])); i += 2 + h[i + 1]
        return dict(smsc=None, number='+27821234567', pid=0, dcs=ud.coding * 4, when=(2013, 1, 2, 3, 4, 5), q=8, text=ev(ud.text), ies=ies if h is not None else None)
    u.replay('deliver_decode', build)


for _h in (False, True):
    for _c in (0, 1, 2):
        @unit('C10', P + '_decodeUserData', '%s%s' % (('GSM-7 text', '8-bit data', 'UCS2 text')[_c], ', any header' if _h else ', no header'), uses=['InformationElement.decode', 'unpackSeptets', 'decodeGsm7', 'decodeUcs2'])
        def _(u, h=_h, coding=_c):
            ud = UserData(u, coding, h)
            ud_replay(u, ud)
            ann = {}
            if h: ann[('_decodeUserData', 0)] = header_loop(ud.hd, ud.body)
            if coding == 1: ann[('_decodeUserData', 1)] = chars8_loop(ud.b, ud.n)
            u.use(ann)
            it = VIter(ud.octets()); it.plain = True
            r = u.returns(u.call(it, ud.udl, coding, h))
            u.prove(isinstance(r, VDict), 'a dictionary')
            ud.check(u, r)


# -- whole PDUs ----------------------------------------------------------------------------------------------------------------
class UdBase(Base):
    """the user data octets of some message, see the units of _decodeUserData"""
    def __init__(self, udl, coding, header, result):
        self.udl, self.coding, self.header, self.result = udl, coding, header, result
        self.name = 'userdata'; self.length = ctx().fresh_int('n_userdata', 0)
    def elem(self, k): raise Unsupported('octet of user data')


@contract('_decodeUserData', P + '_decodeUserData', proved_by=[(P + '_decodeUserData', t) for t in ('GSM-7 text', '8-bit data', 'UCS2 text')])
def _(I, args, kwargs):
    it, udl, coding, hdr = names(args, kwargs, 'byteIter', 'userDataLen', 'dataCoding', 'udhPresent')
    g = it.rest.pieces[0] if isinstance(it, VIter) and len(it.rest.pieces) == 1 else None
    if not (isinstance(g, Gen) and isinstance(g.base, UdBase) and keys_same(g.lo, 0)): raise Unsupported('_decodeUserData contract: octets of unknown origin')
    b, c = g.base, ctx()
    for what, x, y in (('length', udl, b.udl), ('coding', coding, b.coding), ('header flag', hdr, b.header)):
        c.prove(val_eq(x, y), 'user data %s passed on' % what)
    it.rest = EMPTY
    return VDict(list(b.result.items()))


def user_data(u):
    """arbitrary user data: coding octet, its meaning"""
    coding, dcs = u.int('coding', 0, 2), u.int('dcs', 0, 63)
    u.assume(mb((zi(dcs) / 4) % 4 == zi(coding)))
    hdr = u.branch(u.bool('header'))
    tb, tn = u.chars('text')
    text = mkstr(Seq((Gen(tb, 0, tn),)))
    ub = UdBase(u.int('udl', 0, 255), coding, hdr, {})
    res = {'text': text}
    if hdr: res['udh'] = Opaque(('udh',), list)
    ub.result = res
    return dcs, hdr, ub, res


def first_octet(u, kind, hdr=None, extra=0):
    """any first octet of a message type (low two bits) and header flag; extra: mask of further bits that are fixed by the caller"""
    hi = u.int('first', 0, 255)
    z = zi(hi)
    u.assume(z % 4 == kind)
    if hdr is not None: u.assume((z / 64) % 2 == (1 if hdr else 0))
    return hi


def smsc_part(u, given):
    if not given: return None, lit([0])
    a, b = an_address(u, 'smsc', number=True)
    return a, address_field(b, True)


def check_fields(u, r, want, stamps):
    u.prove(isinstance(r, VDict), 'a dictionary')
    d = dict(r.items)
    u.prove(set(d) == set(want) | set(stamps), 'exactly the fields of the message type')
    for k, v in want.items(): u.prove_eq(d[k], v, k)
    for k, (f, q) in stamps.items(): check_stamp(u, d[k], f, q, k + ': ')


WHOLE = ['_decodeAddressField', '_decodeTimestamp', '_decodeRelativeValidityPeriod', '_decodeUserData']

for _s in (False, True):
    _nm = 'given service centre' if _s else 'no service centre'

    @unit('C10', P + '_decodePduOctets', 'SMS-DELIVER, ' + _nm, uses=WHOLE)
    def _(u, given=_s):
        smsc, sf = smsc_part(u, given)
        number, nb = an_address(u, 'number')
        dcs, hdr, ub, res = user_data(u)
        _, stamp, f, q = a_stamp(u)
        pid = u.int('pid', 0, 255)
        pdu = sf + lit([first_octet(u, 0, hdr)]) + address_field(nb) + lit([pid, dcs]) + stamp + lit([ub.udl]) + Seq((Gen(ub, 0, ub.length),))
        r = u.returns(u.call(VBytes(pdu)))
        want = dict(smsc=smsc, tpdu_length=sub(seq_len(pdu), seq_len(sf)), type='SMS-DELIVER', number=number, protocol_id=pid, **res)
        check_fields(u, r, want, {'time': (f, q)})

    @unit('C10', P + '_decodePduOctets', 'SMS-STATUS-REPORT, ' + _nm, uses=WHOLE)
    def _(u, given=_s):
        smsc, sf = smsc_part(u, given)
        number, nb = an_address(u, 'number')
        _, s1, f1, q1 = a_stamp(u)
        _, s2, f2, q2 = a_stamp(u, '2')
        ref, status = u.int('reference', 0, 255), u.int('status', 0, 255)
        ob, on = u.bytes('optional')
        pdu = sf + lit([first_octet(u, 2), ref]) + address_field(nb) + s1 + s2 + lit([status]) + Seq((Gen(ob, 0, on),))
        r = u.returns(u.call(VBytes(pdu)))
        want = dict(smsc=smsc, tpdu_length=sub(seq_len(pdu), seq_len(sf)), type='SMS-STATUS-REPORT', number=number, reference=ref, status=status)
        check_fields(u, r, want, {'time': (f1, q1), 'discharge': (f2, q2)})

    for _v in (None, 'relative', 'absolute'):
        @unit('C09', P + '_decodePduOctets', 'SMS-SUBMIT, %s, %s validity' % (_nm, _v or 'no'), uses=WHOLE)
        def _(u, given=_s, v=_v):
            smsc, sf = smsc_part(u, given)
            number, nb = an_address(u, 'number')
            dcs, hdr, ub, res = user_data(u)
            pid, ref = u.int('pid', 0, 255), u.int('reference', 0, 255)
            fo = first_octet(u, 1, hdr)
            u.assume(mb((zi(fo) / 8) % 4 == {None: 0, 'relative': 2, 'absolute': 3}[v]))
            want, stamps, vp = {}, {}, EMPTY
            if v == 'relative':
                code = u.int('vp', 0, 255)
                vp = lit([code])
            elif v:
                _, vp, f, q = a_stamp(u)
                stamps = {'validity': (f, q)}
            pdu = sf + lit([fo, ref]) + address_field(nb) + lit([pid, dcs]) + vp + lit([ub.udl]) + Seq((Gen(ub, 0, ub.length),))
            r = u.returns(u.call(VBytes(pdu)))
            want.update(smsc=smsc, tpdu_length=sub(seq_len(pdu), seq_len(sf)), type='SMS-SUBMIT', number=number, protocol_id=pid, reference=ref, **res)
            if v == 'relative':
                d = dict(r.items) if isinstance(r, VDict) else {}
                u.prove('validity' in d and is_td(d['validity']) and cmp('==', td_us(d['validity']), mul(table(code), US)), 'validity')
                want['validity'] = d['validity']
            check_fields(u, r, want, stamps)
