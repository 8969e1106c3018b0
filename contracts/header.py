"""Contracts of the user data header elements (C07)."""
from .lib import *

P = 'gsmmodem.pdu.'
IE = P + 'InformationElement.'


def tail(u):
    b, n = u.bytes('rest')
    return Seq((Gen(b, 0, n),))


def decode(u, octets, rest):
    it = VIter(octets + rest)
    r = u.returns(u.call_other(resolve(IE + 'decode'), resolve(P + 'InformationElement'), it), 'decoding: no exception')
    u.prove_eq(VList(it.rest), VList(rest), 'decoding consumes exactly the element')
    return r


def fields(u, o, cls, vals, what):
    u.prove(isinstance(o, VObj) and o.cls is resolve(P + cls), '%s: an element of the same kind' % what)
    for n, v in vals.items(): u.prove_eq(u.I.getattr(o, n), v, '%s: %s' % (what, n))


def concat_form(u, ref, parts, num):
    if u.branch(cmp('>', ref, 255)):
        z = zi(ref)
        return lit([8, 4, mi(z / 256), mi(z % 256), parts, num])
    return lit([0, 3, ref, parts, num])


def port_form(u, d, s):
    if u.branch(bor(cmp('>', d, 255), cmp('>', s, 255))):
        a, b = zi(d), zi(s)
        return lit([5, 4, mi(a / 256), mi(a % 256), mi(b / 256), mi(b % 256)])
    return lit([4, 2, d, s])


def sym_concat(u, tag=''): return u.int('reference' + tag, 0, 65535), u.int('parts' + tag, 0, 255), u.int('number' + tag, 0, 255)


def sym_ports(u, tag=''): return u.int('destination' + tag, 0, 65535), u.int('source' + tag, 0, 65535)


def ie_len(u, o, octets):
    from pyvc.models import b_len
    u.prove_eq(b_len(u.I, [o], {}), seq_len(octets), 'len() is the number of octets')


for _cls, _sym, _form, _names in (('Concatenation', sym_concat, concat_form, ('reference', 'parts', 'number')), ('PortAddress', sym_ports, port_form, ('destination', 'source'))):
    @unit('C07', P + _cls + '.encode', 'short form when the values fit, long form otherwise')
    def _(u, cls=_cls, sym=_sym, form=_form, names=_names):
        v = sym(u)
        u.replay('concatenation' if cls == 'Concatenation' else 'ports', lambda ev: tuple(ev(v)) + (b'',))
        o = u.returns(u.call_other(resolve(P + cls)), 'construction: no exception')
        for n, x in zip(names, v): u.I.setattr(o, n, x)
        r = u.returns(u.call(o), 'encoding: no exception')
        u.prove(isinstance(r, VBytes), 'a bytearray')
        want = form(u, *v)
        u.prove_eq(r, VBytes(want), 'octets')
        ie_len(u, o, want)
        fields(u, o, cls, dict(zip(names, v)), 'encoding leaves the values')

    @unit('C07', P + _cls + '.encode', 'survives decoding; re-encoding reflects changed values')
    def _(u, cls=_cls, sym=_sym, form=_form, names=_names):
        v, w = sym(u), sym(u, '2')
        u.replay('concatenation' if cls == 'Concatenation' else 'ports', lambda ev: tuple(ev(v)) + (b'',))
        rest = tail(u)
        o = decode(u, form(u, *v), rest)
        fields(u, o, cls, dict(zip(names, v)), 'decoded')
        ie_len(u, o, form(u, *v))
        for n, x in zip(names, w): u.I.setattr(o, n, x)
        r = u.returns(u.call(o), 're-encoding: no exception')
        u.prove_eq(r, VBytes(form(u, *w)), 're-encoded octets')


@unit('C07', P + 'Concatenation.__init__', 'received 16-bit form of any reference')
def _(u):
    v = sym_concat(u)
    rest = tail(u)
    z = zi(v[0])
    o = decode(u, lit([8, 4, mi(z / 256), mi(z % 256), v[1], v[2]]), rest)
    fields(u, o, 'Concatenation', dict(zip(('reference', 'parts', 'number'), v)), 'decoded')


@unit('C07', P + 'PortAddress.__init__', 'received 16-bit form of any ports')
def _(u):
    v = sym_ports(u)
    rest = tail(u)
    a, b = zi(v[0]), zi(v[1])
    o = decode(u, lit([5, 4, mi(a / 256), mi(a % 256), mi(b / 256), mi(b % 256)]), rest)
    fields(u, o, 'PortAddress', dict(zip(('destination', 'source'), v)), 'decoded')


def element_loop(base, n, rest):
    def inv(L, p):
        L.seq('ieData', Seq((Gen(base, 0, p),)))
        L.seq('byteIter', Seq((Gen(base, p, n),)) + rest)
    return inv


@unit('C07', IE + 'decode', 'unknown element: identifier and data unchanged, consumes exactly its octets')
def _(u):
    iei = u.int('iei', 0, 255)
    u.assume(band(*[cmp('!=', iei, k) for k in (0, 4, 5, 8)]))
    b, n = u.bytes('data', 0, 255)
    rest = tail(u)
    u.replay('unknown_element', lambda ev: (ev(iei), bytes(ev(Seq((Gen(b, 0, n),)))), b'\x01\x02'))
    u.use({('InformationElement.decode', 0): element_loop(b, n, rest)})
    it = VIter(lit([iei, n]) + Seq((Gen(b, 0, n),)) + rest)
    o = u.returns(u.call(resolve(P + 'InformationElement'), it), 'decoding: no exception')
    u.prove_eq(VList(it.rest), VList(rest), 'decoding consumes exactly the element')
    u.prove(isinstance(o, VObj) and o.cls is resolve(P + 'InformationElement'), 'an InformationElement')
    u.prove_eq(o.get('id'), iei, 'identifier')
    u.prove_eq(o.get('data'), VList(Seq((Gen(b, 0, n),))), 'data')
    ie_len(u, o, lit([iei, n]) + Seq((Gen(b, 0, n),)))
    r = u.returns(u.call_other(resolve(IE + 'encode'), o), 'encoding: no exception')
    u.prove_eq(r, VBytes(lit([iei, n]) + Seq((Gen(b, 0, n),))), 're-encoded octets')
