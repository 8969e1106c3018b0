"""C01-C04, C06-C11: message coding"""
import itertools
from datetime import datetime, timedelta, timezone
import spec
from .base import case, checked, eq, expect, raises, Skip, Mismatch, short
import gsmmodem.pdu as P
from gsmmodem.exceptions import EncodingError

A = spec.ALPHABET


def need(name):
    f = getattr(P, name, None)
    if f is None: raise Skip()
    return f


# -- random text ------------------------------------------------------------------------------------------------
POOLS = ['@', '@a', 'ab', spec.SIMPLE, spec.EXTENDED, A, ['a', '{'], ['@', '\u20ac', ' '], '0123456789+', ['\r', '\n', 'x']]


def rtext(rng, n, pools=POOLS):
    p = rng.choice(pools)
    return ''.join(rng.choice(p) for _ in range(n))


def rany(rng, n):
    return ''.join(rng.choice((rng.choice(A), chr(rng.choice((rng.randrange(1, 0xD800), rng.randrange(0x20, 0x250)))))) for _ in range(n))


# -- C01 ----------------------------------------------------------------------------------------------------------
@case('C01', fixed=lambda: [''.join(A), ''] + [c + d for c in A for d in A], gen=lambda r: rtext(r, r.choice((0, 1, 2, 3, 5, 30, 200))))
@checked
def gsm7_roundtrip(text):
    if spec.gsm7(text) is None: raise Skip()
    enc = P.encodeGsm7(text)
    eq(enc, bytes(spec.gsm7(text)), 'encodeGsm7(%s)' % short(text))
    eq(P.decodeGsm7(enc), text, 'decodeGsm7(encodeGsm7(%s))' % short(text))
    eq(P.decodeGsm7(bytearray(enc)), text, 'decodeGsm7 of a bytearray')
    eq(P.encodeGsm7(text, True), bytes(spec.gsm7(text)), 'encodeGsm7(%s, discardInvalid)' % short(text))


@case('C01', fixed=lambda: [(a, chr(c), b) for c in range(0x10000) if not 0xD800 <= c < 0xE000 and chr(c) not in spec.CODE for a, b in (('', ''),)] +
      [(a, c, b) for c in '\x1b\u0416`\u00c0\x00\U0001F600\u00c7\u20ac'[:6] for a in ('x', '{', '') for b in ('y', '^', '')],
      gen=lambda r: (rtext(r, r.randrange(6)), rany(r, r.randrange(1, 4)), rtext(r, r.randrange(6))))
@checked
def gsm7_refuse(inp):
    text = ''.join(inp)
    if spec.gsm7(text) is not None: raise Skip()
    raises(lambda: P.encodeGsm7(text), ValueError)
    keep = ''.join(c for c in text if c in spec.CODE)
    eq(P.encodeGsm7(text, True), bytes(spec.gsm7(keep)), 'encodeGsm7(%s, discardInvalid)' % short(text))


# -- C02 ----------------------------------------------------------------------------------------------------------
def septs(r):
    n = r.choice((0, 1, 2, 6, 7, 8, 9, 13, 14, 15, 16, r.randrange(0, 165)))
    m = r.choice((lambda: r.randrange(128), lambda: r.choice((0, 127)), lambda: 0, lambda: r.choice((0, 1, 64)), lambda: 127))
    return [m() for _ in range(n)]


@case('C02', fixed=lambda: [([], p) for p in range(7)] + [([v] * n, p) for n in range(1, 20) for p in range(7) for v in (0, 1, 64, 127)],
      gen=lambda r: (septs(r), r.randrange(7)))
@checked
def pack_stream(inp):
    s, pad = inp
    f = spec.fill(pad)
    want = spec.pack(s, f)
    eq(P.packSeptets(bytearray(s), pad), want, 'packSeptets(%s, padBits=%d)' % (short(s), pad))
    if pad == 0: eq(P.packSeptets(bytearray(s)), want, 'packSeptets(%s)' % short(s))
    eq(P.packSeptets(''.join(map(chr, s)), padBits=pad), want, 'packSeptets of a str')
    if pad == 0:
        got = list(P.unpackSeptets(bytearray(want)))
        w = spec.groups(want)
        if w and (8 * len(want)) % 7 == 0 and w[-1] == 0 and len(got) == len(w) - 1: w = w[:-1]
        eq(got, w, 'unpackSeptets(packSeptets(%s))' % short(s))


@case('C02', fixed=lambda: [bytes([v] * n) for n in range(16) for v in (0, 1, 2, 128, 254, 255)] + [bytes([0] * (n - 1) + [v]) for n in range(1, 16) for v in (1, 2, 254)],
      gen=lambda r: bytes(r.choice((0, 255, r.randrange(256))) for _ in range(r.choice((1, 6, 7, 8, 13, 14, 15, r.randrange(1, 150))))))
@checked
def unpack_groups(octets):
    def expected(f):
        w = spec.groups(octets, f)
        if w and (8 * len(octets) - f) % 7 == 0 and w[-1] == 0: w = w[:-1]
        return w
    eq(list(P.unpackSeptets(bytearray(octets))), expected(0), 'unpackSeptets(%s)' % short(octets))
    eq(list(P.unpackSeptets(''.join(map(chr, octets)))), expected(0), 'unpackSeptets of a str')
    tail = iter(bytearray(octets) + bytearray(b'tail'))
    if octets:
        eq(list(P.unpackSeptets(tail, len(octets))), expected(0), 'unpackSeptets(%s + more, %d octets)' % (short(octets), len(octets)))
        eq(bytes(tail), b'tail', 'octets left after unpacking a limited number of octets')
    if len(octets) >= 1:
        for r in range(1, 7):
            f = 7 - r
            got = list(P.unpackSeptets(bytearray(octets[1:]), None, octets[0], r + 1))
            if len(octets) == 1: continue
            eq(got, expected(f), 'unpackSeptets(%s, fill bits %d)' % (short(octets), f))


# -- C03 ----------------------------------------------------------------------------------------------------------
def rnum(r, lo=1, hi=20):
    return r.choice(('', '+')) + ''.join(r.choice('0123456789') for _ in range(r.randrange(lo, hi + 1)))


def rname(r):
    while True:
        t = rtext(r, r.randrange(1, 12), [A, spec.SIMPLE, '@a', '@', 'ab1', '0a', '+0', ['\u20ac', 'a', '@'], '01+@ '])
        s = spec.gsm7(t)
        if len(s) <= 11 and not spec.is_digits(t) and not (t[0] == '+' and spec.is_digits(t[1:])): return t


@case('C03', fixed=lambda: [(p + '1234567890123456789012'[:n], smsc, t) for p in ('', '+') for n in range(1, 21) for smsc in (False, True) for t in (b'', b'\xff', b'\x00\x11\xf2')] +
      [(p + d * n, s, b'\xf0') for p in ('', '+') for d in '059' for n in (1, 2, 9) for s in (False, True)],
      gen=lambda r: (rnum(r), r.random() < .4, bytes(r.randrange(256) for _ in range(r.randrange(4)))))
@checked
def address_number(inp):
    num, smsc, tail = inp
    E, D = need('_encodeAddressField'), need('_decodeAddressField')
    enc = E(num, smscField=smsc) if smsc else E(num)
    eq(enc, spec.address(num, smsc), '_encodeAddressField(%r, smscField=%s)' % (num, smsc))
    it = iter(bytearray(enc) + bytearray(tail))
    got = D(it, smscField=smsc) if smsc else D(it)
    eq(tuple(got)[:2], (num, len(enc)), '_decodeAddressField(_encodeAddressField(%r))' % num)
    eq(bytes(it), tail, 'octets after the address field')


@case('C03', fixed=lambda: [('@' * n, t) for n in range(1, 12) for t in (b'', b'\xff')] + [('a' * n, b'\x80') for n in range(1, 12)] + [('abcdefghij@'[:n], b'') for n in range(1, 12)] + [('\u20ac' * n, b'\xff') for n in range(1, 6)] + [('+', b''), ('+a', b''), ('1a', b''), ('A B', b''), ('12 ', b'')],
      gen=lambda r: (rname(r), bytes(r.randrange(256) for _ in range(r.randrange(4)))))
@checked
def address_name(inp):
    name, tail = inp
    E, D = need('_encodeAddressField'), need('_decodeAddressField')
    s = spec.gsm7(name)
    if s is None or len(s) > 11 or not name or spec.is_digits(name) or (name[0] == '+' and spec.is_digits(name[1:])): raise Skip()
    enc = E(name)
    it = iter(bytearray(enc) + bytearray(tail))
    got = D(it)
    eq(tuple(got)[:2], (name, len(enc)), '_decodeAddressField(_encodeAddressField(%s))' % short(name))
    eq(bytes(it), tail, 'octets after the address field')
    it = iter(bytearray(spec.alpha_address(name)) + bytearray(tail))
    eq(tuple(D(it))[0], name, '_decodeAddressField of the GSM address field of %s' % short(name))
    eq(bytes(it), tail, 'octets after the GSM address field')


# -- C04 ----------------------------------------------------------------------------------------------------------
def tz(q): return timezone(timedelta(minutes=15 * q))


@case('C04', fixed=lambda: [((y, mo, d, h, mi, s), q) for (y, mo, d) in ((1969, 1, 1), (2068, 12, 31), (2000, 2, 29), (2012, 10, 9), (1999, 12, 31)) for (h, mi, s) in ((0, 0, 0), (23, 59, 59), (9, 10, 11)) for q in range(-79, 80)],
      gen=lambda r: ((r.randrange(1969, 2069), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)), r.randrange(-79, 80)))
@checked
def timestamp(inp):
    f, q = inp
    E, D = need('_encodeTimestamp'), need('_decodeTimestamp')
    dt = datetime(*f, tzinfo=tz(q))
    enc = E(dt)
    eq(enc, spec.timestamp(dt, q), '_encodeTimestamp(%s)' % dt)
    for tail in (b'', b'\xff\x00'):
        it = iter(bytearray(enc) + bytearray(tail))
        back = D(it)
        eq((back.replace(tzinfo=None), back.utcoffset()), (dt.replace(tzinfo=None), dt.utcoffset()), 'decoded timestamp of %s' % dt)
        eq(bytes(it), tail, 'octets after the timestamp')


@case('C04', fixed=lambda: [(2012, 1, 2, 3, 4, 5), (1970, 1, 1, 0, 0, 0)])
@checked
def timestamp_naive(f):
    E = need('_encodeTimestamp')
    raises(lambda: E(datetime(*f)), ValueError)


# -- C06 ----------------------------------------------------------------------------------------------------------
@case('C06', fixed=lambda: list(range(256)) + [256, 257, 1000])
@checked
def relative_decode(v):
    D = need('_decodeRelativeValidityPeriod')
    if v > 255: raises(lambda: D(v), ValueError); return
    eq(D(v), timedelta(minutes=spec.relative_minutes(v)), '_decodeRelativeValidityPeriod(%d)' % v)


@case('C06', fixed=lambda: [(s + e, us) for s in spec.REL for e in (-1, 0, 1) for us in (0, 999999) if 300 <= s + e <= spec.REL[-1]] + [(441 * 86400 + 86399, 0)],
      gen=lambda r: (r.choice((r.randrange(300, 90000), r.randrange(300, spec.REL[-1] + 1))), r.choice((0, r.randrange(1000000)))))
@checked
def relative_encode(inp):
    s, us = inp
    E = need('_encodeRelativeValidityPeriod')
    eq(E(timedelta(seconds=s, microseconds=us)), spec.relative_code(s), '_encodeRelativeValidityPeriod(%ds)' % s)


@case('C06', fixed=[(442, 0), (442, 1), (500, 5), (100000, 0)], gen=lambda r: (r.randrange(442, 5000), r.randrange(86400)))
@checked
def relative_refuse(inp):
    E = need('_encodeRelativeValidityPeriod')
    raises(lambda: E(timedelta(days=inp[0], seconds=inp[1])), ValueError)


# -- C07 ----------------------------------------------------------------------------------------------------------
B8 = (0, 1, 2, 127, 128, 254, 255)
B16 = B8 + (256, 257, 511, 512, 32767, 32768, 65280, 65535)


@case('C07', fixed=lambda: [(r, p, n, t) for r in B16 for p in (0, 1, 255) for n in (0, 2, 255) for t in (b'', b'\x00\x03')] + [(r, 3, 2, b'') for r in range(0, 65536, 253)],
      gen=lambda r: (r.choice((r.randrange(256), r.randrange(65536))), r.randrange(256), r.randrange(256), bytes(r.randrange(256) for _ in range(r.randrange(3)))))
@checked
def concatenation(inp):
    ref, parts, num, tail = inp
    ie = P.Concatenation()
    for first in (None, 7, 40000):        # re-encoding after a change reflects the change
        if first is not None:
            ie.reference, ie.parts, ie.number = first, 9, 8
            ie.encode()
        ie.reference, ie.parts, ie.number = ref, parts, num
        enc = ie.encode()
        want = bytes([0, 3, ref, parts, num]) if ref < 256 else bytes([8, 4, ref >> 8, ref & 255, parts, num])
        eq(enc, want, 'Concatenation(%d,%d,%d).encode()' % (ref, parts, num))
        eq(len(ie), len(want), 'len() of the element')
    it = iter(bytearray(enc) + bytearray(tail))
    d = P.InformationElement.decode(it)
    eq((type(d), d.reference, d.parts, d.number, d.id, list(d.data), len(d)), (P.Concatenation, ref, parts, num, want[0], list(want[2:]), len(want)), 'decoded concatenation element')
    eq(bytes(it), tail, 'octets after the element')
    eq(d.encode(), want, 're-encoded element')


@case('C07', fixed=lambda: [(a, b, t) for a in B16 for b in B16 for t in (b'', b'\x05\x04')],
      gen=lambda r: (r.choice((r.randrange(256), r.randrange(65536))), r.choice((r.randrange(256), r.randrange(65536))), b''))
@checked
def ports(inp):
    dst, src, tail = inp
    ie = P.PortAddress()
    for first in (None, (1, 2), (256, 2), (3, 70 * 256)):
        if first is not None:
            ie.destination, ie.source = first
            ie.encode()
        ie.destination, ie.source = dst, src
        enc = ie.encode()
        want = bytes([4, 2, dst, src]) if dst < 256 and src < 256 else bytes([5, 4, dst >> 8, dst & 255, src >> 8, src & 255])
        eq(enc, want, 'PortAddress(%d,%d).encode()' % (dst, src))
    it = iter(bytearray(enc) + bytearray(tail))
    d = P.InformationElement.decode(it)
    eq((type(d), d.destination, d.source, d.id, list(d.data), len(d)), (P.PortAddress, dst, src, want[0], list(want[2:]), len(want)), 'decoded port element')
    eq(bytes(it), tail, 'octets after the element')
    eq(d.encode(), want, 're-encoded element')


@case('C07', fixed=lambda: [(i, bytes(range(n)), b'\x01\x02') for i in range(256) for n in (0, 1, 5)] + [(0x70, bytes(255), b''), (0x24, b'\xff' * 200, b'\x00')],
      gen=lambda r: (r.randrange(256), bytes(r.randrange(256) for _ in range(r.randrange(20))), b'\x09'))
@checked
def unknown_element(inp):
    iei, data, tail = inp
    if iei in (0, 8, 4, 5): raise Skip()
    it = iter(bytearray([iei, len(data)]) + bytearray(data) + bytearray(tail))
    d = P.InformationElement.decode(it)
    eq((d.id, list(d.data), d.dataLength, len(d)), (iei, list(data), len(data), len(data) + 2), 'decoded element %d' % iei)
    eq(bytes(it), tail, 'octets after the element')
    eq(d.encode(), bytes([iei, len(data)]) + data, 're-encoded element')


# -- PDU building and parsing ------------------------------------------------------------------------------------------
def parse_addr(b, i, smsc=False):
    n = b[i]
    if n == 0: return None, i + 1
    toa = b[i + 1]
    if smsc:
        raw, j = b[i + 2:i + 1 + n], i + 1 + n
        nd = None
    else:
        k = (n + 1) // 2
        raw, j, nd = b[i + 2:i + 2 + k], i + 2 + k, n
    if (toa >> 4) & 7 == 5:
        return spec.ungsm7(spec.groups(raw)[:n * 4 // 7]), j
    s = ''.join('0123456789ABCDEF'[o & 15] + '0123456789ABCDEF'[o >> 4] for o in raw)
    if nd is not None:
        if nd % 2 and s[-1] != 'F': raise Mismatch('odd number without F filler')
        s = s[:nd]
    elif s.endswith('F'): s = s[:-1]
    return ('+' if (toa >> 4) & 7 == 1 else '') + s, j


def parse_submit(b):
    """independent SMS-SUBMIT parser -> dict; Mismatch when malformed"""
    b = bytes(b)
    d = {}
    try:
        d['smsc'], i = parse_addr(b, 0, True)
        d['tpdu'] = len(b) - i
        fo = b[i]; d['fo'] = fo; i += 1
        expect(fo & 3 == 1, 'first octet %02x is not SMS-SUBMIT' % fo)
        d['ref'] = b[i]; i += 1
        d['number'], i = parse_addr(b, i)
        d['pid'] = b[i]; d['dcs'] = b[i + 1]; i += 2
        vpf = (fo >> 3) & 3
        d['vpf'] = vpf
        if vpf == 2: d['vp'] = b[i:i + 1]; i += 1
        elif vpf == 3: d['vp'] = b[i:i + 7]; i += 7
        else: d['vp'] = b''
        udl = b[i]; i += 1
        ud = b[i:]
        d['ud'] = ud
        hdr = 0
        d['udh'] = None
        if fo & 0x40:
            hdr = ud[0] + 1
            d['udh'] = ud[1:hdr]
        alpha = (d['dcs'] >> 2) & 3
        if alpha == 0:
            expect(len(ud) == (udl * 7 + 7) // 8, 'user data length %d does not match %d octets' % (udl, len(ud)))
            hs = (hdr * 8 + 6) // 7
            g = spec.groups(ud)[hs:udl]
            expect(len(g) == udl - hs, 'user data too short')
            d['septets'] = g
            d['text'] = spec.ungsm7(g)
        elif alpha == 2:
            expect(len(ud) == udl, 'user data length %d does not match %d octets' % (udl, len(ud)))
            body = ud[hdr:]
            expect(len(body) % 2 == 0, 'odd UCS2 data')
            d['text'] = ''.join(chr(body[k] << 8 | body[k + 1]) for k in range(0, len(body), 2))
        else: raise Mismatch('unexpected data coding %02x' % d['dcs'])
    except IndexError:
        raise Mismatch('PDU is truncated: %s' % b.hex())
    return d


def rsubmit_text(r):
    kind = r.randrange(5)
    n = r.choice((0, 1, 2, 7, 8, 69, 70, 71, 80, 134, 135, 152, 153, 154, 159, 160, 161, 162, 305, 306, 307, 308, r.randrange(700)))
    if kind == 0: return rtext(r, n)
    if kind == 1: return ''.join(r.choice(['a', 'b', '@', r.choice(A)]) for _ in range(n))
    if kind == 2:
        t = rtext(r, n, ['ab', ['a', '\u20ac']])
        k = r.randrange(len(t) + 1)
        return t[:k] + r.choice(('{', '[]', '\u20ac', '~' * 3)) + t[k:]
    if kind == 3: return rany(r, n)
    return rtext(r, n) + r.choice(('\u0416', '`', '\x1b', '\uffff'))


def submit_fixed():
    out = []
    for c in ('a', '@', '{', '\u0416', 'ab{'):
        for n in (0, 1, 66, 67, 68, 69, 70, 71, 76, 77, 79, 80, 81, 133, 134, 135, 136, 140, 141, 151, 152, 153, 154, 155, 159, 160, 161, 162, 201, 202, 268, 304, 305, 306, 307, 308, 459, 460, 461):
            out.append((c * n)[:n])
    for k in range(148, 166):
        out.append('a' * k + '\u20ac')
        out.append('a' * k + '\u20ac' + 'b' * 20)
        out.append('a' * k + '{{{' + 'b' * 200)
        out.append('b' * (k + 153) + '^' + 'c' * 40)
    return out


@case('C08', fixed=lambda: [(t, 0) for t in submit_fixed()] + [(('xy{' * n)[:n], 9) for n in (153 * 17, 153 * 101)] + [('ab' * (153 * 255 // 2), 1)] + [('\u0416z' * (67 * 128 // 2), 3)], gen=lambda r: (rsubmit_text(r), r.randrange(256)))
@checked
def split_parts(inp):
    text, ref = inp
    if any(ord(c) > 0xffff for c in text): raise Skip()
    s = spec.gsm7(text)
    pdus = P.encodeSmsSubmitPdu('+27820001111', text, reference=ref)
    single = (len(s) <= 160) if s is not None else (len(text) <= 70)
    ds = [parse_submit(p.data) for p in pdus]
    eq(''.join(str(d['text']) for d in ds), text, 'texts of the %d parts joined' % len(ds))
    for d in ds:
        expect(len(d['ud']) <= 140, 'a part has %d octets of user data' % len(d['ud']))
    if single:
        eq(len(ds), 1, 'number of parts for a text that fits one message')
    if len(ds) == 1:
        expect(single, 'text too long for one message sent as one part')
        expect(ds[0]['udh'] is None, 'single part has a header')
    else:
        expect(len(ds) > 1, 'no parts')
        for k, d in enumerate(ds):
            expect(d['text'] != '', 'part %d is empty' % (k + 1))
            h = d['udh']
            expect(h is not None, 'part %d has no header' % (k + 1))
            eq(h, bytes([0, 3, ref, len(ds), k + 1]), 'header of part %d' % (k + 1))
            x = P.decodeSmsPdu(bytearray(pdus[k].data))
            eq(x['text'], d['text'], 'text decoded from part %d' % (k + 1))
            eq([(type(u).__name__, u.reference, u.parts, u.number) for u in x['udh']], [('Concatenation', ref, len(ds), k + 1)], 'decoded header')


VALID = [None, ('r', 300), ('r', 86400), ('r', 63 * 7 * 86400), ('r', 5 * 3600 + 7), ('r', 2 * 86400), ('r', 40 * 86400), ('a', (2014, 1, 2, 3, 4, 5), 8), ('a', (1999, 12, 31, 23, 59, 59), -79), ('a', (2068, 2, 29, 1, 0, 0), 0)]


def mkvalid(v):
    if v is None: return None
    if v[0] == 'r': return timedelta(seconds=v[1])
    return datetime(*v[1], tzinfo=tz(v[2]))


def rsub(r):
    v = r.choice(VALID)
    if r.random() < .3: v = ('r', r.randrange(300, spec.REL[-1]))
    return dict(number=r.choice((rnum(r), rnum(r), rname(r))), text=rsubmit_text(r), reference=r.randrange(256), validity=v, smsc=r.choice((None, None, rnum(r))),
                srr=r.random() < .5, rd=r.random() < .5, flash=r.random() < .3)


def submit_opts():
    out = []
    for text in ('', 'hi', '@', '\u0416', 'a' * 200, '\u0416' * 90, 'x' * 159 + '\u20ac'):
        for v in VALID:
            for srr, rd, flash in itertools.product((False, True), repeat=3):
                out.append(dict(number='+2782123456', text=text, reference=0x5A, validity=v, smsc=None, srr=srr, rd=rd, flash=flash))
    for num in ('1', '12', '+1', '+12345', '123456789012345', 'abc', 'A@', '@', 'Net Info', '\u20ac\u20aca'):
        for smsc in (None, '+2782913593', '1', '12', '082'):
            out.append(dict(number=num, text='hello @', reference=255, validity=None, smsc=smsc, srr=True, rd=False, flash=False))
    return out


@case('C09', fixed=submit_opts, gen=rsub)
@checked
def submit_meaning(o):
    text = o['text']
    if any(ord(c) > 0xffff for c in text): raise Skip()
    v = mkvalid(o['validity'])
    pdus = P.encodeSmsSubmitPdu(o['number'], text, reference=o['reference'], validity=v, smsc=o['smsc'], requestStatusReport=o['srr'], rejectDuplicates=o['rd'], sendFlash=o['flash'])
    gsm = spec.gsm7(text) is not None
    got = ''
    for p in pdus:
        d = parse_submit(p.data)
        eq(d['smsc'], o['smsc'], 'service centre in the PDU')
        eq(d['number'], o['number'], 'destination in the PDU')
        eq(d['ref'], o['reference'], 'message reference')
        eq(p.tpduLength, d['tpdu'], 'declared TPDU length')
        eq(str(p), bytes(p.data).hex().upper(), 'str(Pdu)')
        fo = 1 | (0x20 if o['srr'] else 0) | (0x04 if o['rd'] else 0) | (0x40 if len(pdus) > 1 else 0) | (0 if v is None else 0x10 if o['validity'][0] == 'r' else 0x18)
        eq(d['fo'], fo, 'first octet (request flags)')
        eq(d['pid'], 0, 'protocol identifier')
        eq(d['dcs'], (0x10 if o['flash'] else 0) | (0 if gsm else 8), 'data coding octet')
        if v is None: eq(d['vp'], b'', 'validity')
        elif o['validity'][0] == 'r': eq(d['vp'], bytes([spec.relative_code(o['validity'][1])]), 'relative validity octet')
        else: eq(d['vp'], spec.timestamp(v, o['validity'][2]), 'absolute validity')
        got += d['text'] or ''
        x = P.decodeSmsPdu(bytearray(p.data))
        y = P.decodeSmsPdu(str(p))
        for z in (x, y):
            eq((z['type'], z['smsc'], z['number'], z['reference'], z['protocol_id'], z['text'], z['tpdu_length']), ('SMS-SUBMIT', o['smsc'], o['number'], o['reference'], 0, d['text'], d['tpdu']), 'decodeSmsPdu of the PDU')
            eq('udh' in z, len(pdus) > 1, 'header present after decoding')
            if v is None: eq('validity' in z, False, 'validity decoded')
            elif o['validity'][0] == 'r': eq(z['validity'], timedelta(seconds=spec.REL[spec.relative_code(o['validity'][1])]), 'decoded validity')
            else: eq((z['validity'].replace(tzinfo=None), z['validity'].utcoffset()), (v.replace(tzinfo=None), v.utcoffset()), 'decoded validity')
    eq(got, text, 'texts of all parts')


@case('C09', fixed=['5', 5, 300.0, (1, 2)])
@checked
def submit_bad_validity(v):
    raises(lambda: P.encodeSmsSubmitPdu('+27821', 'x', validity=v), TypeError)


# -- C10 ----------------------------------------------------------------------------------------------------------------
def mkhdr(ies):
    h = b''.join(bytes([i, len(d)]) + d for i, d in ies)
    return bytes([len(h)]) + h


def rheader(r):
    out = []
    total = 0
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        i = r.choice((0, 8, 4, 5, 0x24, 0x70, r.randrange(9, 256)))
        n = {0: 3, 8: 4, 4: 2, 5: 4}.get(i, r.choice((0, 1, 2, 3, 4, 5, 6, 7, r.randrange(30))))
        if total + n + 2 > 120: break
        total += n + 2
        out.append((i, bytes(r.randrange(256) for _ in range(n))))
    return out


def retype(a, toa, num):
    """another type-of-address octet with the same meaning: any numbering plan; any non-international number type"""
    if toa is None: return a
    ton = 1 if num.startswith('+') else (0, 2, 3, 4, 6)[(toa >> 4) % 5]
    return bytes([a[0], 0x80 | ton << 4 | toa & 15]) + bytes(a[2:])


def deliver(o):
    """octets of a DELIVER PDU and the expected fields"""
    b = bytearray(spec.address(o['smsc'], True) if o['smsc'] else b'\0')
    n0 = len(b)
    hdr = mkhdr(o['udh']) if o['udh'] is not None else b''
    b.append((o['flags'] & 0xBC) | (0x40 if hdr else 0))
    num = o['number']
    isnum = spec.is_digits(num) or (num[0] == '+' and spec.is_digits(num[1:]))
    b += retype(spec.address(num), o.get('toa'), num) if isnum else spec.alpha_address(num)
    b.append(o['pid'])
    alpha = (o['dcs'] >> 2) & 3
    b.append(o['dcs'])
    dt = datetime(*o['time'], tzinfo=tz(o['q']))
    b += spec.timestamp(dt, o['q'])
    text = o['text']
    if alpha == 0:
        s = spec.gsm7(text)
        hs = (len(hdr) * 8 + 6) // 7
        v = int.from_bytes(hdr, 'little')
        for k, x in enumerate(s): v |= x << (7 * (hs + k))
        udl = hs + len(s)
        b.append(udl)
        b += v.to_bytes(max(len(hdr), (udl * 7 + 7) // 8), 'little')
    elif alpha == 2:
        body = spec.ucs2(text)
        b.append(len(hdr) + len(body)); b += hdr + body
    else:
        body = bytes(ord(c) for c in text)
        b.append(len(hdr) + len(body)); b += hdr + body
    return b, dt, len(b) - n0


def rdeliver(r):
    udh = rheader(r) if r.random() < .5 else None
    dcs = r.randrange(64)
    while (dcs >> 2) & 3 == 3: dcs = r.randrange(64)
    hl = len(mkhdr(udh)) if udh is not None else 0
    room = max(0, 140 - hl)
    alpha = (dcs >> 2) & 3
    if alpha == 0:
        mx = max(0, 160 - (hl * 8 + 6) // 7)
        n = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, mx, max(0, mx - 1), r.randrange(mx + 1)))
        text = rtext(r, min(n, mx), ['@', '@a', 'ab', spec.SIMPLE])
        if r.random() < .3: text = rtext(r, min(n, mx) // 2)
        if r.random() < .3 and text: text = text[:-1] + '@'
    elif alpha == 2: text = ''.join(chr(r.choice((r.randrange(0x10000), 65, 0, 0xD83D, 0xDE00))) for _ in range(r.randrange(room // 2 + 1)))
    else: text = ''.join(chr(r.choice((0, 255, r.randrange(256)))) for _ in range(r.randrange(room + 1)))
    return dict(smsc=r.choice((None, rnum(r))), flags=r.randrange(256), number=r.choice((rnum(r), rnum(r), rname(r))), pid=r.randrange(256), dcs=dcs,
                time=(r.randrange(1969, 2069), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)), q=r.randrange(-79, 80), udh=udh, text=text, toa=r.choice((None, None, r.randrange(256))))


def deliver_fixed():
    out = []
    base = dict(smsc='+2782913593', flags=0x04, number='+2782123456', pid=0, dcs=0, time=(2014, 6, 7, 8, 9, 10), q=8, udh=None, text='')
    for n in range(0, 18):
        for c in ('@', 'a', '\u00e0'):
            for h in (None, [], [(0, b'\x01\x02\x01')], [(0x24, b'\x01')], [(0x70, b'')], [(0x24, b'\x01\x02')], [(8, b'\1\2\2\1')], [(0x71, b'12345')], [(0x71, b'123456')], [(4, b'\1\2'), (0x24, b'\3')]):
                out.append(dict(base, text=c * n, udh=h))
    for dcs in range(64):
        if (dcs >> 2) & 3 == 3: continue
        out.append(dict(base, dcs=dcs, text='abc@'))
        out.append(dict(base, dcs=dcs, text='abc@', udh=[(0, b'\x01\x02\x01')]))
    out.append(dict(base, text='@' * 160))
    for toa in range(0, 256, 3):
        for n in ('+27', '27821', '278'): out.append(dict(base, text='abc', number=n, toa=toa))
    return out


def check_fields(x, o, dt, tpdu):
    eq((x['type'], x['smsc'], x['number'], x['protocol_id']), ('SMS-DELIVER', o['smsc'], o['number'], o['pid']), 'decoded type, service centre, sender, protocol')
    eq((x['time'].replace(tzinfo=None), x['time'].utcoffset()), (dt.replace(tzinfo=None), dt.utcoffset()), 'decoded time')
    eq(x['text'], o['text'], 'decoded text (coding %02x, header %s)' % (o['dcs'], o['udh']))
    eq(x['tpdu_length'], tpdu, 'TPDU length')
    if o['udh'] is None: eq('udh' in x, False, 'header reported')
    else: eq([(u.id, bytes(u.data), u.dataLength) for u in x['udh']], [(i, d, len(d)) for i, d in o['udh']], 'decoded header elements')


@case('C10', fixed=deliver_fixed, gen=rdeliver, weight=3)
@checked
def deliver_decode(o):
    if o['udh'] == [] and False: raise Skip()
    b, dt, tpdu = deliver(o)
    check_fields(P.decodeSmsPdu(bytearray(b)), o, dt, tpdu)
    check_fields(P.decodeSmsPdu(bytes(b).hex().upper()), o, dt, tpdu)


@case('C10', fixed=lambda: [(bytes(range(1, n + 1)), k) for n in (0, 1, 2, 3, 4, 6, 9) for k in (0, 1, 2, 3, 4, 6, 8)], gen=lambda r: (bytes(r.choice((0, 1, 65, 0x20)) for _ in range(r.randrange(60))), r.randrange(40)))
@checked
def ucs2_text(inp):
    """the declared number of octets is decoded, whatever follows; a text that is cut short is decoded as far as it goes"""
    data, n = inp
    f = getattr(P, 'decodeUcs2', None)
    if f is None: raise Skip()
    n += n % 2
    got = f(iter(bytearray(data)), n)
    eq(got, ''.join(chr(data[i] << 8 | data[i + 1]) for i in range(0, min(n, len(data) - 1), 2)), 'text of %d of %d octets' % (n, len(data)))


@case('C10', fixed=lambda: [dict(smsc=s, flags=f, ref=r, number=n, t1=((2014, 1, 2, 3, 4, 5), a), t2=((2069 - 1, 12, 31, 23, 59, 59), b), status=st)
                            for s in (None, '+2782') for f in (0, 4, 0x20) for r in (0, 255) for n in ('123', '+1234') for a, b in ((0, 8), (-13, 79)) for st in (0, 68, 255)],
      gen=lambda r: dict(smsc=r.choice((None, rnum(r))), flags=r.randrange(256) & 0xBC, ref=r.randrange(256), number=rnum(r), t1=((r.randrange(1969, 2069), 2, 28, 1, 2, r.randrange(60)), r.randrange(-79, 80)),
                         t2=((r.randrange(1969, 2069), 7, 31, r.randrange(24), 2, 3), r.randrange(-79, 80)), status=r.randrange(256), toa=r.choice((None, r.randrange(256)))))
@checked
def report_decode(o):
    b = bytearray(spec.address(o['smsc'], True) if o['smsc'] else b'\0')
    n0 = len(b)
    b += bytes([o['flags'] & 0xBC | 2, o['ref']]) + retype(spec.address(o['number']), o.get('toa'), o['number'])
    t1 = datetime(*o['t1'][0], tzinfo=tz(o['t1'][1])); t2 = datetime(*o['t2'][0], tzinfo=tz(o['t2'][1]))
    b += spec.timestamp(t1, o['t1'][1]) + spec.timestamp(t2, o['t2'][1]) + bytes([o['status']])
    for x in (P.decodeSmsPdu(bytearray(b)), P.decodeSmsPdu(bytes(b).hex())):
        eq((x['type'], x['smsc'], x['reference'], x['number'], x['status'], x['tpdu_length']), ('SMS-STATUS-REPORT', o['smsc'], o['ref'], o['number'], o['status'], len(b) - n0), 'decoded status report')
        for k, t in (('time', t1), ('discharge', t2)):
            eq((x[k].replace(tzinfo=None), x[k].utcoffset()), (t.replace(tzinfo=None), t.utcoffset()), 'decoded ' + k)


# -- C11 ----------------------------------------------------------------------------------------------------------------
FIELDS = {'SMS-DELIVER': ('smsc', 'tpdu_length', 'number', 'protocol_id', 'time', 'text'),
          'SMS-SUBMIT': ('smsc', 'tpdu_length', 'reference', 'number', 'protocol_id', 'text'),
          'SMS-STATUS-REPORT': ('smsc', 'tpdu_length', 'reference', 'number', 'time', 'discharge', 'status')}


def rgarbage(r):
    k = r.randrange(6)
    if k == 0: return bytes(r.randrange(256) for _ in range(r.randrange(60)))
    if k == 1:
        b = bytearray(deliver(rdeliver(r))[0])
        for _ in range(r.randrange(4)): b[r.randrange(len(b))] = r.choice((0, 255, r.randrange(256)))
        return bytes(b[:r.randrange(len(b) + 1)]) if r.random() < .5 else bytes(b)
    if k == 2:
        o = rsub(r)
        b = bytearray(P.encodeSmsSubmitPdu(o['number'], o['text'][:60], reference=1, smsc=o['smsc'])[0].data)
        for _ in range(r.randrange(4)): b[r.randrange(len(b))] = r.randrange(256)
        return bytes(b[:r.randrange(len(b) + 1)])
    if k == 3: return ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(r.randrange(60)))
    if k == 4: return ''.join(r.choice('0123456789abcdefg xZ\u20ac\n\x00\u0660') for _ in range(r.randrange(30)))
    return bytes([0, r.choice((0, 1, 2, 3, 0x40, 0x41, 0x51)), 0x91]) + bytes(r.choice((0, 1, 0x0c, 0x91, 0xd0, 255)) for _ in range(r.randrange(40)))


def garbage_fixed():
    out = [b'', b'\0', '', '0', 'zz', '\u20ac', '00', 'F' * 40]
    good = bytes(deliver(deliver_fixed()[40])[0])
    out += [good[:k] for k in range(len(good) + 1)]
    good = bytes(P.encodeSmsSubmitPdu('+2782', 'hello' * 50, reference=1, validity=timedelta(1))[0].data)
    out += [good[:k] for k in range(len(good) + 1)]
    out += [bytes([0, a, 0x91, b, 0, 0] + [0] * 7 + [5, 1]) for a in range(256) for b in (0, 1, 255)]
    return out


@case('C11', fixed=garbage_fixed, gen=rgarbage)
@checked
def decode_total(pdu):
    arg = bytearray(pdu) if isinstance(pdu, bytes) else pdu
    try:
        r = P.decodeSmsPdu(arg)
    except EncodingError:
        return
    except Exception as e:
        raise Mismatch('decodeSmsPdu(%s) raised %s: %s' % (short(pdu), type(e).__name__, short(str(e), 60)))
    expect(isinstance(r, dict) and r.get('type') in FIELDS, 'decodeSmsPdu(%s) returned %s' % (short(pdu), short(r)))
    missing = [f for f in FIELDS[r['type']] if f not in r]
    expect(not missing, 'decodeSmsPdu(%s): fields %s missing' % (short(pdu), missing))
    octets = pdu if isinstance(pdu, bytes) else bytes.fromhex(pdu)
    i = 1 + octets[0] if octets[0] else 1
    if i < len(octets) and not any(x >> 4 == 15 for x in octets[2:i]):
        fo = octets[i]
        expect({0: 'SMS-DELIVER', 1: 'SMS-SUBMIT', 2: 'SMS-STATUS-REPORT'}.get(fo & 3) == r['type'] or octets[1] & 0x70 == 0x50, 'type %s for first octet %02x' % (r['type'], fo))
        if octets[1:2] and octets[1] & 0x70 != 0x50 and fo & 3 != 2:
            expect(('udh' in r) == bool(fo & 0x40), 'header field for first octet %02x' % fo)
            if fo & 3 == 1: expect(('validity' in r) == bool(fo & 0x10), 'validity field for first octet %02x' % fo)
