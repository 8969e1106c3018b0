"""Independent definitions (written from GSM 03.38/03.40/27.005, not from the code) shared by the contracts and the run-time oracles."""
from datetime import timedelta

BASIC = ('@\u00a3$\u00a5\u00e8\u00e9\u00f9\u00ec\u00f2\u00c7\n\u00d8\u00f8\r\u00c5\u00e5'
         '\u0394_\u03a6\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e\x1b\u00c6\u00e6\u00df\u00c9'
         ' !"#\u00a4%&\'()*+,-./0123456789:;<=>?\u00a1'
         'ABCDEFGHIJKLMNOPQRSTUVWXYZ\u00c4\u00d6\u00d1\u00dc\u00a7\u00bf'
         'abcdefghijklmnopqrstuvwxyz\u00e4\u00f6\u00f1\u00fc\u00e0')
assert len(BASIC) == 128
EXT = {0x0A: '\x0c', 0x14: '^', 0x28: '{', 0x29: '}', 0x2F: '\\', 0x3C: '[', 0x3D: '~', 0x3E: ']', 0x40: '|', 0x65: '\u20ac'}
CODE = {c: [i] for i, c in enumerate(BASIC) if i != 0x1B}
CODE.update({c: [0x1B, i] for i, c in EXT.items()})
ALPHABET = sorted(CODE)
SIMPLE = [c for c in ALPHABET if len(CODE[c]) == 1]
EXTENDED = [c for c in ALPHABET if len(CODE[c]) == 2]


def gsm7(text):
    """septets, or None when some character is not in the alphabet"""
    out = []
    for c in text:
        if c not in CODE: return None
        out += CODE[c]
    return out


def ungsm7(septets):
    """text of septets; None when an escape has no known successor (undefined by the property)"""
    out, i = [], 0
    while i < len(septets):
        s = septets[i]
        if s == 0x1B:
            if i + 1 >= len(septets) or septets[i + 1] not in EXT: return None
            out.append(EXT[septets[i + 1]]); i += 2
        else:
            out.append(BASIC[s]); i += 1
    return ''.join(out)


def fill(pad):
    return (7 - pad) % 7 if pad else 0


def pack(septets, fillbits=0):
    if not septets and not fillbits: return b''
    n = fillbits + 7 * len(septets)
    v, pos = 0, fillbits
    for s in septets:
        v |= (s & 0x7f) << pos; pos += 7
    return v.to_bytes((n + 7) // 8, 'little')


def groups(octets, fillbits=0):
    """all complete 7-bit groups after fillbits bits"""
    v = int.from_bytes(bytes(octets), 'little') >> fillbits
    n = max(0, (8 * len(octets) - fillbits) // 7)
    return [(v >> (7 * i)) & 0x7f for i in range(n)]


def semi(digits):
    """semi-octets of a digit string (hex digits allowed)"""
    if len(digits) % 2: digits += 'F'
    return bytes(int(digits[i + 1] + digits[i], 16) for i in range(0, len(digits), 2))


def is_digits(s):
    return len(s) > 0 and all(c in '0123456789' for c in s)


def address(number, smsc=False):
    """address field of a number"""
    toa = 0x91 if number.startswith('+') else 0xA1
    d = number.lstrip('+')
    v = semi(d)
    return bytes([len(v) + 1 if smsc else len(d), toa]) + v


def alpha_address(name):
    s = gsm7(name)
    return bytes([(7 * len(s) + 3) // 4, 0xD0]) + pack(s)


def timestamp(dt, quarters):
    """7 octets of a local time with an offset in quarter hours"""
    f = lambda n: (n % 10) << 4 | n // 10
    z = f(abs(quarters)) | (0x08 if quarters < 0 else 0)
    return bytes([f(dt.year % 100), f(dt.month), f(dt.day), f(dt.hour), f(dt.minute), f(dt.second), z])


def relative_minutes(v):
    """GSM 03.40 9.2.3.12.1, in minutes"""
    if v <= 143: return (v + 1) * 5
    if v <= 167: return 12 * 60 + (v - 143) * 30
    if v <= 196: return (v - 166) * 24 * 60
    return (v - 192) * 7 * 24 * 60


REL = [relative_minutes(v) * 60 for v in range(256)]   # seconds, strictly increasing


def relative_code(seconds):
    """largest v whose period does not exceed the given number of seconds (>= 300)"""
    v = 0
    for i, s in enumerate(REL):
        if s <= seconds: v = i
    return v


def ucs2(text):
    return b''.join(bytes([ord(c) >> 8, ord(c) & 0xff]) for c in text)
