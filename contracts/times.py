"""Contracts of the validity-period and timestamp functions (C04, C05, C06)."""
from .lib import *
from pyvc.models import TD, US, mk_td, td_us, mk_dt, is_td, dim

P = 'gsmmodem.pdu.'
DAY = 86400


def table(v):
    """GSM 03.40 9.2.3.12, seconds, as a z3 term"""
    v = zi(v)
    return mi(z3.If(v <= 143, (v + 1) * 300, z3.If(v <= 167, 43200 + (v - 143) * 1800, z3.If(v <= 196, (v - 166) * DAY, (v - 192) * 7 * DAY))))


@unit('C06', P + '_decodeRelativeValidityPeriod', 'table value for every octet')
def _(u):
    v = u.int('tpVp', 0, 255)
    u.replay('relative_decode', lambda ev: ev(v))
    r = u.returns(u.call(v))
    u.prove(is_td(r), 'a timedelta')
    u.prove(cmp('==', td_us(r), mul(table(v), US)), 'period of the GSM 03.40 table')


@unit('C06', P + '_decodeRelativeValidityPeriod', 'rejects larger values')
def _(u):
    v = u.int('tpVp', 256)
    u.replay('relative_decode', lambda ev: ev(v))
    u.raises(u.call(v), ValueError)


@unit('C06', P + '_encodeRelativeValidityPeriod', 'longest period not exceeding')
def _(u):
    s, us = u.int('seconds', 300, 441 * DAY + DAY - 1), u.int('us', 0, US - 1)
    u.replay('relative_encode', lambda ev: (ev(s), ev(us)))
    r = u.returns(u.call(mk_td(add(mul(s, US), us))))
    u.prove(is_int(r), 'an integer')
    u.prove(band(cmp('<=', 0, r), cmp('<=', r, 255)), 'fits one octet')
    u.prove(cmp('<=', table(r), s), 'not longer than the period asked for')
    u.prove(bor(cmp('==', r, 255), cmp('>', table(add(r, 1)), s)), 'no longer table period fits')


@unit('C06', P + '_encodeRelativeValidityPeriod', 'refuses more than 441 whole days')
def _(u):
    d, s, us = u.int('days', 442, 999999998), u.int('seconds', 0, DAY - 1), u.int('us', 0, US - 1)
    u.replay('relative_refuse', lambda ev: (ev(d), ev(s)))
    u.raises(u.call(mk_td(add(mul(add(mul(d, DAY), s), US), us))), ValueError)


# -- timestamps ---------------------------------------------------------------------------------------------------------
class Zone:
    """an arbitrary tzinfo object with a fixed offset"""
    cls = object
    def __init__(self, off): self.off = off
    def vgetattr(self, I, n):
        if n == 'utcoffset': return Model('tzinfo.utcoffset', lambda I, a, k: self.off)
        return NotImplemented
    def veq(self, o): return self is o


def sym_date(u, lo=1969, hi=2068):
    y, mo, d = u.int('year', lo, hi), u.int('month', 1, 12), u.int('day', 1, 31)
    u.assume(cmp('<=', d, dim(y, mo)))
    return [y, mo, d, u.int('hour', 0, 23), u.int('minute', 0, 59), u.int('second', 0, 59), u.int('us', 0, US - 1)]


def bcd(x):
    """semi-octet swapped octet of a number 0..99"""
    z = zi(x)
    return mi((z % 10) * 16 + z / 10)


def zone_octet(q):
    """time zone octet of q quarter hours (sign bit in the low semi-octet's top bit)"""
    z = zi(q)
    a = z3.If(z < 0, -z, z)
    return mi((a % 10) * 16 + a / 10 + z3.If(z < 0, z3.IntVal(8), z3.IntVal(0)))


def stamp_octets(f, q):
    y2 = mi(zi(f[0]) % 100)
    return lit([bcd(y2)] + [bcd(x) for x in f[1:6]] + [zone_octet(q)])


@unit('C04', P + '_encodeTimestamp', 'seven octets of the local time and offset')
def _(u):
    f, q = sym_date(u), u.int('quarters', -79, 79)
    u.replay('timestamp', lambda ev: (tuple(ev(f[:6])), ev(q)))
    r = u.returns(u.call(mk_dt(f, Zone(mk_td(mul(q, 900 * US))))))
    u.prove(isinstance(r, VBytes), 'a bytearray')
    u.prove_eq(r, VBytes(stamp_octets(f, q)), 'octets')


@unit('C04', P + '_encodeTimestamp', 'refuses a timestamp without offset')
def _(u):
    f = sym_date(u, 1, 9999)
    u.replay('timestamp_naive', lambda ev: tuple(ev(f[:6])))
    u.raises(u.call(mk_dt(f, None)), ValueError)


def check_stamp(u, r, f, q, pre=''):
    u.prove(isinstance(r, VObj) and r.cls.__name__ == 'datetime', pre + 'a datetime')
    for n, x in zip(('year', 'month', 'day', 'hour', 'minute', 'second'), f): u.prove_eq(r.get(n), x, pre + n)
    u.prove_eq(r.get('microsecond'), 0, pre + 'microsecond')
    off = u.call_other(u.I.getattr(r, 'utcoffset'))
    u.returns(off, pre + 'no exception')
    u.prove(is_td(off), pre + 'has a UTC offset')
    u.prove(cmp('==', td_us(off), mul(q, 900 * US)), pre + 'UTC offset')


@unit('C04', P + '_decodeTimestamp', 'decodes the seven octets, consumes no more')
def _(u):
    f, q = sym_date(u), u.int('quarters', -79, 79)
    u.replay('timestamp', lambda ev: (tuple(ev(f[:6])), ev(q)))
    b, n = u.bytes('rest')
    rest = Seq((Gen(b, 0, n),))
    it = VIter(stamp_octets(f, q) + rest)
    r = u.returns(u.call(it))
    check_stamp(u, r, f, q)
    u.prove_eq(VList(it.rest), VList(rest), 'consumes exactly seven octets')


@unit('C04', P + '_decodeTimestamp', 'inverse of _encodeTimestamp')
def _(u):
    f, q = sym_date(u), u.int('quarters', -79, 79)
    u.replay('timestamp', lambda ev: (tuple(ev(f[:6])), ev(q)))
    r = u.returns(u.call_other(resolve(P + '_encodeTimestamp'), mk_dt(f, Zone(mk_td(mul(q, 900 * US))))))
    b, n = u.bytes('rest')
    it = VIter(r.seq + Seq((Gen(b, 0, n),)))
    r = u.returns(u.call(it))
    check_stamp(u, r, f, q)


# -- text-mode time strings ------------------------------------------------------------------------------------------------
G = 'gsmmodem.util.'


def two(x): return [add(48, mi(zi(x) / 10)), add(48, mi(zi(x) % 10))]


@unit('C05', G + 'parseTextModeTimeStr', 'exact local time and UTC offset')
def _(u):
    f, q, neg = sym_date(u), u.int('quarters', 0, 95), u.bool('negative')
    sg = ite(neg, ord('-'), ord('+'))
    y2 = mi(zi(f[0]) % 100)
    u.replay('text_time', lambda ev: ((ev(f[0]) % 100,) + tuple(ev(f[1:6])), '%s%02d' % (chr(ev(sg)), ev(q))))
    s = two(y2) + [47] + two(f[1]) + [47] + two(f[2]) + [44] + two(f[3]) + [58] + two(f[4]) + [58] + two(f[5]) + [sg] + two(q)
    r = u.returns(u.call(mkstr(lit(s))))
    sq = ite(neg, sub(0, q), q)
    check_stamp(u, r, f, sq)
    dst = u.returns(u.call_other(u.I.getattr(r.get('tzinfo'), 'dst'), r))
    u.prove(is_td(dst) and td_us(dst) == 0, 'no daylight saving')


@unit('C05', G + 'SimpleOffsetTzInfo.utcoffset', 'reports the offset it was built with')
def _(u):
    q = u.int('quarters', -96, 96)
    u.replay('fixed_offset', lambda ev: ev(q))
    from pyvc.models import mkreal
    z = u.returns(u.call_other(resolve(G + 'SimpleOffsetTzInfo'), mkreal(q, 4)))
    off = u.returns(u.call(z, None))
    u.prove(is_td(off), 'a timedelta')
    u.prove(cmp('==', td_us(off), mul(q, 900 * US)), 'UTC offset')
    dst = u.returns(u.call_other(u.I.getattr(z, 'dst'), None))
    u.prove(is_td(dst) and td_us(dst) == 0, 'no daylight saving')


# -- for callers ------------------------------------------------------------------------------------------------------------
class StampBase(Base):
    """the seven octets of a timestamp"""
    length = 7
    def __init__(self, f, q): self.f, self.q = f, q; self.name = ctx().name('stamp')
    def elem(self, k): raise Unsupported('octet of a timestamp')
    def same(self, o): return self is o or (isinstance(o, StampBase) and keys_same(tuple(self.f[:6]), tuple(o.f[:6])) and keys_same(self.q, o.q))


def a_stamp(u, tag=''):
    """(datetime, octets) of an arbitrary timestamp the format can express"""
    f, q = sym_date(u), u.int('quarters' + tag, -79, 79)
    return mk_dt(f, Zone(mk_td(mul(q, 900 * US)))), Seq((Gen(StampBase(f, q), 0, 7),)), f, q


@contract('_encodeTimestamp', P + '_encodeTimestamp', proved_by=[P + '_encodeTimestamp'])
def _(I, args, kwargs):
    if len(args) != 1 or kwargs or not (isinstance(args[0], VObj) and args[0].cls.__name__ == 'datetime'): raise Unsupported('_encodeTimestamp contract: argument')
    d = args[0]
    if not isinstance(d.get('tzinfo'), Zone): raise Unsupported('_encodeTimestamp contract: time zone')
    us = td_us(d.get('tzinfo').off)
    f = [d.get(n) for n in ('year', 'month', 'day', 'hour', 'minute', 'second')]
    c = ctx()
    c.prove(band(cmp('<=', 1969, f[0]), cmp('<=', f[0], 2068), mb(zi(us) % (900 * US) == 0), cmp('<=', -79 * 900 * US, us), cmp('<=', us, 79 * 900 * US)), '_encodeTimestamp precondition')
    return VBytes(Seq((Gen(StampBase(f, mi(zi(us) / (900 * US))), 0, 7),)))


@contract('_decodeTimestamp', P + '_decodeTimestamp', proved_by=[P + '_decodeTimestamp', P + '_encodeTimestamp'])
def _(I, args, kwargs):
    it = args[0]
    g = it.rest.pieces[0] if isinstance(it, VIter) and it.rest.pieces else None
    if len(args) != 1 or kwargs or not (isinstance(g, Gen) and isinstance(g.base, StampBase) and keys_same(g.lo, 0) and keys_same(g.hi, 7)): raise Unsupported('_decodeTimestamp contract: not a timestamp')
    it.rest = Seq(it.rest.pieces[1:])
    return mk_dt(list(g.base.f[:6]) + [0], Zone(mk_td(mul(g.base.q, 900 * US))))


def is_code(v, s):
    """v is the code of the longest table period not exceeding s seconds"""
    return band(cmp('<=', 0, v), cmp('<=', v, 255), cmp('<=', table(v), s), bor(cmp('==', v, 255), cmp('>', table(add(v, 1)), s)))


@contract('_encodeRelativeValidityPeriod', P + '_encodeRelativeValidityPeriod', proved_by=[P + '_encodeRelativeValidityPeriod'])
def _(I, args, kwargs):
    if len(args) != 1 or kwargs or not is_td(args[0]): raise Unsupported('_encodeRelativeValidityPeriod contract: argument')
    s = mi(zi(td_us(args[0])) / US)
    c = ctx()
    c.prove(band(cmp('<=', 300, s), cmp('<', s, 442 * DAY)), '_encodeRelativeValidityPeriod precondition')
    v = c.fresh_int('code')
    c.assume(is_code(v, s))
    return v


@contract('_decodeRelativeValidityPeriod', P + '_decodeRelativeValidityPeriod', proved_by=[P + '_decodeRelativeValidityPeriod'])
def _(I, args, kwargs):
    v = args[0]
    c = ctx()
    if len(args) != 1 or kwargs or not is_int(v): raise Unsupported('_decodeRelativeValidityPeriod contract: argument')
    if not c.branch(band(cmp('<=', 0, v), cmp('<=', v, 255))): throw(ValueError, 'tpVp must be in range [0, 255]')
    return mk_td(mul(table(v), US))
