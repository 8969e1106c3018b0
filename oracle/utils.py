"""C05, C26"""
import re
from datetime import datetime, timedelta
from .base import case, checked, eq, expect, raises, Skip, Mismatch, short
import gsmmodem.util as U


@case('C05', fixed=lambda: [((y, mo, d, h, mi, s), z) for (y, mo, d, h, mi, s) in ((0, 1, 1, 0, 0, 0), (99, 12, 31, 23, 59, 59), (14, 2, 28, 1, 2, 3), (68, 6, 7, 8, 9, 10), (69, 6, 7, 8, 9, 10)) for z in ['%s%02d' % (sg, q) for sg in '+-' for q in range(96)]],
      gen=lambda r: ((r.randrange(100), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)), r.choice('+-') + '%02d' % r.randrange(96)))
@checked
def text_time(inp):
    f, z = inp
    t = U.parseTextModeTimeStr('%02d/%02d/%02d,%02d:%02d:%02d' % f + z)
    y = f[0] + (2000 if f[0] <= 68 else 1900)
    eq(t.replace(tzinfo=None), datetime(y, *f[1:]), 'local time')
    eq(t.utcoffset(), timedelta(minutes=15 * int(z)), 'UTC offset of %s' % z)
    eq(t.dst(), timedelta(0), 'daylight saving')


@case('C05', fixed=lambda: [q for q in range(-96, 97)], gen=lambda r: r.randrange(-95, 96))
@checked
def fixed_offset(q):
    z = U.SimpleOffsetTzInfo(q / 4.0)
    for dt in (None, datetime(2014, 7, 1), datetime(2014, 1, 1)):
        eq(z.utcoffset(dt), timedelta(minutes=15 * q), 'utcoffset')
        eq(z.dst(dt), timedelta(0), 'dst')
    if q % 4 == 0: eq(U.SimpleOffsetTzInfo(q // 4).utcoffset(None), timedelta(hours=q // 4), 'utcoffset')


WORDS = ['', '+', '+C', '+CUSD', '+CUSD: 1', '+CUSD: 2', 'OK', 'ERROR', 'O', ' +C', '+cusd', '+CUSDX', '\u20ac+C', 'a+CUSD: 1']


def rlines(r):
    return ([r.choice(WORDS) for _ in range(r.randrange(7))], r.choice(WORDS))


@case('C26', fixed=lambda: [([], '+C')] + [([a, b], p) for a in WORDS for b in WORDS for p in WORDS], gen=rlines)
@checked
def starting(inp):
    lines, p = inp
    want = next((l for l in lines if l[:len(p)] == p), None)
    for form in (list, tuple):
        arg = form(lines)
        eq(U.lineStartingWith(p, arg), want, 'lineStartingWith(%r, %r)' % (p, lines))
        eq(list(arg), lines, 'lines after the search')


PATS = [r'\+CUSD: (\d)', r'^\+C', r'.*SD', r'^$', r'OK|ERROR', r'(?P<x>O)K?$', r'']


@case('C26', fixed=lambda: [([], r'a')] + [([a, b], p) for a in WORDS for b in WORDS for p in PATS], gen=lambda r: ([r.choice(WORDS) for _ in range(r.randrange(7))], r.choice(PATS)))
@checked
def matching(inp):
    lines, pat = inp
    rx = re.compile(pat)
    want = [(m.string, m.span(), m.groups()) for m in map(rx.match, lines) if m]
    k = lambda m: None if m is None else (m.string, m.span(), m.groups())
    a = list(lines)
    eq(k(U.lineMatching(pat, a)), want[0] if want else None, 'lineMatching(%r, %r)' % (pat, lines))
    eq(k(U.lineMatchingPattern(rx, a)), want[0] if want else None, 'lineMatchingPattern(%r, %r)' % (pat, lines))
    got = U.allLinesMatchingPattern(rx, a)
    expect(isinstance(got, list), 'allLinesMatchingPattern returned %r' % (got,))
    eq([k(m) for m in got], want, 'allLinesMatchingPattern(%r, %r)' % (pat, lines))
    eq(a, lines, 'lines after the search')


class NeverMatch:
    """a pattern object that is only asked for match(); used to check which lines are consulted"""
