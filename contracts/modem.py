"""The world GsmModem's methods are verified in: commands go through the contract of GsmModem.write, response lines are searched
through the contracts of gsmmodem.util.  PIN handling (C21), network status (C22)."""
import re
import threading
from .command import *

UTIL = 'gsmmodem.util.'
def cls(pattern): return rx.compile_prog(rx.rp.parse(pattern), False)[0][1]


SPACE = rx.compile_prog(rx.rp.parse(r'\s'), False)[0][1]


# -- contracts ---------------------------------------------------------------------------------------------------------------
@contract('GsmModem.write', M + 'write', proved_by=[M + 'write'])
def _(I, args, kwargs):
    return ctx().anchors['world'].command(args[0], write_args(args, kwargs))


def search(lines, key, pred):
    """first line with pred (contract of the search functions) -> (line, ) or None"""
    c = ctx()
    if not isinstance(lines, VList): raise Unsupported('search in something that is not a list')
    for p in lines.seq.pieces:
        if isinstance(p, Gen) and isinstance(getattr(p.base, 'rows', None), Rows):
            k = p.base.rows.first(key, pred, p.lo, p.hi)
            if k is not None: return p.base.rows.line(k)
        elif isinstance(p, Lit):
            for x in p.items:
                if not is_str(x): raise Unsupported('search in something that is not a list of lines')
                if c.branch(pred(x)): return x
        else: raise Unsupported('search in %r' % (p,))
    return None


def starts(prefix): return lambda line: models.starts_with(str_seq(line), [ord(x) for x in prefix])


@contract('lineStartingWith', UTIL + 'lineStartingWith', proved_by=[UTIL + 'lineStartingWith'])
def _(I, args, kwargs):
    a = dict(zip(('string', 'lines'), args), **kwargs)
    if not isinstance(a['string'], str): raise Unsupported('search for an unknown prefix')
    return search(a['lines'], ('starts', a['string']), starts(a['string']))


@contract('lineMatching', UTIL + 'lineMatching', proved_by=[UTIL + 'lineMatching'])
def _(I, args, kwargs):
    a = dict(zip(('regexStr', 'lines'), args), **kwargs)
    pat = models.f_re_compile(I, [a['regexStr']], {})
    if not isinstance(pat, re.Pattern): raise Unsupported('search for an unknown pattern')
    l = search(a['lines'], ('match', pat.pattern, pat.flags), lambda line: rx.pattern_method(I, pat, 'match', [line], {}) is not None)
    if l is None: return None
    m = rx.pattern_method(I, pat, 'match', [l], {})
    if m is None: raise PathEnd()
    return m


# -- spec text -----------------------------------------------------------------------------------------------------------------
def parse(line, *parts):
    """spec parser: parts are str (exactly that text), ('run', class, min[, max]) (the longest run), 'end' markers via END.
    -> list of the texts of the runs, or None (forks)"""
    c = ctx()
    q = str_seq(line)
    out = []
    for p in parts:
        if p is END:
            if uncons(q) is not None: return None
        elif p is EOL:       # end, or a final newline
            if not rx.at_end(q): return None
        elif isinstance(p, str):
            t = rx.take(q, len(p))
            if t is None or not c.branch(band(*[cmp('==', x, ord(y)) for x, y in zip(t[0], p)])): return None
            q = t[1]
        elif p[0] == 'one':
            t = rx.take(q, 1)
            if t is None or not c.branch(p[1](t[0][0])): return None
            out.append(mkstr(lit(t[0]))); q = t[1]
        else:
            run, q = rx.max_run(q, p[1])
            if not c.branch(cmp('>=', seq_len(Seq(run)), p[2])): return None
            out.append(mkstr(Seq(run)))
    return out


END, EOL = object(), object()


def run(cls, least=0): return ('run', cls, least)


def one(cls): return ('one', cls)


def number(s): return models.int_of_str(None, s)


# -- world -----------------------------------------------------------------------------------------------------------------------
ERRORS = [X.CommandError, X.CmeError, X.PinRequiredError, X.IncorrectPinError, X.PukRequiredError, X.CmsError, X.SmscNumberUnknownError]


class Modem(World):
    """errors: the exceptions a command may end with"""
    errors = ERRORS + [X.TimeoutException, serial.SerialException]

    def __init__(self, u, **attrs):
        self.u = u
        self.log = []            # what was done, in order
        d = dict(alive=True, _smsTextMode=False, _smscNumber=None)
        d.update(attrs)
        self.obj = VolObj(GM.GsmModem, d)
        u.c.anchors['world'] = self
        u.c.anchors['sleep'] = self.sleep

    def sleep(self, I, a): pass

    def fail(self, cls, **attrs):
        c = ctx()
        d = {'args': ()}
        if issubclass(cls, X.CommandError):
            d.update(command=None, type=None, code=None)
            if cls in (X.CmeError, X.CmsError):
                code = c.fresh_int('code', 0)
                special = [k for (t, k) in SPECIAL if t == cls.__name__[:3].upper()]
                for k in special: c.assume(cmp('!=', code, k))
                d.update(type=cls.__name__[:3].upper(), code=code)
            else:
                for (t, k), e in SPECIAL.items():
                    if e is cls: d.update(type=t, code=k)
        if issubclass(cls, X.TimeoutException): d['data'] = None
        d.update(attrs)
        self.exc = VObj(cls, d)
        raise PyExc(self.exc)

    def outcome(self, name='answer'):
        """a command ends in any way GsmModem.write's contract allows -> list of at least one line"""
        c = ctx()
        w = c.choice([None] * (1 + len(self.errors)))
        self.exc = None
        if w: self.fail(self.errors[w - 1])
        r = Rows(self.u, name, 1)
        self.rows = r
        self.resp = VList(r.seq)
        return self.resp

    def command(self, o, a):
        """a command is issued; overridden or extended by units"""
        self.u.prove(o is self.obj, 'the command goes to this modem')
        self.log.append(a)
        if self.u.branch(self.u.I.truth_cond(a['waitForResponse'])): return self.outcome()
        w = ctx().choice([None, None])
        self.exc = None
        if w: self.fail(serial.SerialException)
        return None

    def sent(self, i, text, label):
        """the i-th command is text with the usual terminator, and waits"""
        u = self.u
        a = self.log[i]
        if not is_str(a['data']): u.prove(False, label); return
        u.prove_eq(a['data'], text, label)
        u.prove_eq(a['writeTerm'], '\r', label + ' (terminator)')
        u.prove(a['waitForResponse'] is True and a['expectedResponseTermSeq'] is None, label + ' (waits for the response)')

    def passed_on(self, r, label='the error is passed on'):
        self.u.prove(isinstance(r, Raised) and r.obj is self.exc, label)


def cat(*parts):
    out = EMPTY
    for p in parts: out = out + str_seq(p)
    return mkstr(out)


# -- C21 -------------------------------------------------------------------------------------------------------------------------
class Pin(Modem):
    """ready: what the SIM reports (None: no status was obtained)"""
    def __init__(self, u, given):
        super().__init__(u)
        self.pin = anychars(u, 'pin', 0)[0] if given else None
        self.ready = None
        self.line = None

    def command(self, o, a):
        u, c = self.u, ctx()
        if self.log:
            u.prove(self.ready is not None and not self.ready, 'no PIN is sent unless the SIM reports that it is not ready')
            u.prove(self.pin is not None and len(self.log) == 1, 'a PIN is sent at most once')
            return super().command(o, a)
        u.prove_eq(a['data'], 'AT+CPIN?', 'the status is asked for first')
        w = c.choice([None] * 3)
        if w == 0:
            r = super().command(o, a)
            self.status(self.rows, False)
            return r
        self.log.append(a)
        if w == 1: self.fail(X.TimeoutException)
        rows = Rows(u, 'partial', 1)
        self.status(rows, True)
        self.fail(X.TimeoutException, data=VList(rows.seq))

    def status(self, rows, partial):
        k = rows.first('spec status', starts('+CPIN'))
        if k is None: self.ready = None if partial else False
        else:
            self.line = rows.line(k)
            self.ready = ctx().branch(val_eq(self.line, '+CPIN: READY'))


for _given in (True, False):
    @unit('C21', M + '_unlockSim', 'PIN %s' % ('given' if _given else 'not given'), uses=('GsmModem.write', 'lineStartingWith'))
    def _(u, given=_given):
        w = Pin(u, given)

        def build(ev):
            if w.line is None: return (None, ev(w.pin) if w.pin is not None else None, 'noise', 'OK')
            return (ev(w.line), ev(w.pin) if w.pin is not None else None, 'ok', 'OK')
        u.replay('unlock', build)
        r = u.call(w.obj, w.pin)
        u.prove(len(w.log) >= 1, 'the status is asked for')
        if w.ready is None:
            u.prove(len(w.log) == 1, 'no PIN is sent without a status')
            w.passed_on(r, 'the timeout or error of the query is passed on')
        elif w.ready:
            u.prove(len(w.log) == 1, 'no PIN is sent when the SIM is ready')
            u.returns(r)
        elif w.pin is None:
            u.prove(len(w.log) == 1, 'nothing more is written without a PIN')
            u.raises(r, X.PinRequiredError)
            if isinstance(r, Raised) and r.obj.has('code'): u.prove_eq(r.obj.get('code'), 11, 'the code of the error')
        else:
            u.prove(len(w.log) == 2, 'the PIN is sent once')
            w.sent(1, cat('AT+CPIN="', w.pin, '"'), 'the PIN command')
            if w.exc is not None: w.passed_on(r)
            else: u.returns(r)


# -- C22 -------------------------------------------------------------------------------------------------------------------------
def signal_spec(line):
    """the reported value, or None"""
    p = parse(line, '+CSQ:', run(SPACE), run(DIGIT, 1), ',')
    return None if p is None else number(p[1])


@unit('C22', M + 'signalStrength', 'the reported value, -1 for unknown, CommandError otherwise', uses=('GsmModem.write',))
def _(u):
    w = Modem(u)
    r = u.call(w.obj)
    u.prove(len(w.log) == 1, 'one command')
    w.sent(0, 'AT+CSQ', 'signal query')
    if w.exc is not None: w.passed_on(r); return
    line = w.rows.line(0)
    u.replay('signal', lambda ev: ('line', ev(line)))
    v = signal_spec(line)
    if v is None: u.raises(r, X.CommandError); return
    u.returns(r)
    u.prove(is_int(r), 'an integer')
    if u.branch(cmp('==', v, 99)): u.prove_eq(r, -1, '-1 exactly when unknown')
    else: u.prove_eq(r, v, 'the reported value')


@contract('signalStrength', M + 'signalStrength', proved_by=[M + 'signalStrength'])
def _(I, args, kwargs): return ctx().anchors['world'].signal(args[0])


class Coverage(Modem):
    """ok: registration was reported, or the modem could not report it; fired: the timer has run out"""
    def __init__(self, u, timed):
        super().__init__(u)
        self.timed, self.timer, self.started, self.fired, self.ok, self.denied = timed, None, False, False, False, False
        self.last = None
        self.timeout = u.int('timeout', 0) if timed else None
        u.c.anchors.setdefault('construct', {})[threading.Timer] = self.make_timer

    def make_timer(self, I, a, k):
        self.u.prove(self.timed and self.timer is None, 'one timer, for the timeout')
        self.u.prove_eq(a[0] if a else k.get('interval'), self.timeout, 'the timer runs for the given time')
        self.fn = a[1] if len(a) > 1 else k.get('function')
        self.timer = self
        return self

    vtype = threading.Timer

    def vgetattr(self, I, n):
        def start(I, a, k): self.started = True; self.chance()
        if n == 'start': return Model('Timer.start', start)
        if n == 'cancel': return Model('Timer.cancel', lambda I, a, k: None)
        raise Unsupported('Timer.' + n)

    def vsetattr(self, I, n, v):
        if n not in ('daemon', 'name'): raise Unsupported('Timer.' + n)

    def chance(self):
        """the timer may run out now"""
        if self.started and not ctx().branch(self.fired) and ctx().choice([None, None]):
            self.fired = True
            self.u.I.call(self.fn, [])

    def sleep(self, I, a): self.chance()

    def signal(self, o):
        u, c = self.u, ctx()
        u.prove(o is self.obj, 'signal strength of this modem')
        u.prove(self.ok, 'signal strength is read after registration (or when it cannot be reported)')
        w = c.choice([None] * (1 + len(self.errors)))
        self.exc = None
        if w: self.fail(self.errors[w - 1])
        self.last = c.fresh_int('signal', -1)
        return self.last

    def command(self, o, a):
        u, c = self.u, ctx()
        u.prove_eq(a['data'], 'AT+CREG?', 'the registration query')
        u.prove(self.started == self.timed, 'the timer runs exactly when a timeout was given')
        u.prove(a['parseError'] is False and a['waitForResponse'] is True, 'an error answer counts as "cannot report"')
        r = super().command(o, a)
        k = self.rows.first('spec creg', creg_line)
        if k is None: self.ok = True
        else:
            st = number(parse(self.rows.line(k), '+CREG:', run(SPACE), one(DIGIT), ',', one(DIGIT))[2])
            if c.branch(bor(cmp('==', st, 1), cmp('==', st, 5))): self.ok = True
            elif c.branch(bor(cmp('==', st, 0), cmp('==', st, 3))): self.denied = True
        return r


def creg_line(line):
    """+CREG: mode,status, possibly followed by location information"""
    p = ('+CREG:', run(SPACE), one(DIGIT), ',', one(DIGIT))
    return parse(line, *p, EOL) is not None or parse(line, *p, ',') is not None


def coverage_loop(w):
    def inv(L):
        if L.mode == 'havoc': w.ok = ctx().fresh_bool('ok'); w.fired = ctx().fresh_bool('fired') if w.started else False
        c = L.anybool('checkCreg')
        L.fact(bor(c, w.ok), 'the signal is only looked at after registration')
        L.fact(bnot(w.denied), 'a refusal ends the wait')
        L.seq('block', lit([bnot(w.fired)]))
        L.mentioned.add('ss')
        if L.mode == 'havoc': L.fr.locals['ss'] = Poison('ss')
    return inv


for _timed in (True, False):
    @unit('C22', M + 'waitForNetworkCoverage', 'with a timeout' if _timed else 'without a timeout', uses=('GsmModem.write', 'signalStrength', 'lineMatching'), budget=120)
    def _(u, timed=_timed):
        w = Coverage(u, timed)
        w.errors = [X.CommandError, X.TimeoutException]
        w.exc = None
        u.use({('GsmModem.waitForNetworkCoverage', 0): coverage_loop(w)})
        r = u.call(w.obj, w.timeout) if timed else u.call(w.obj)
        if w.exc is not None: w.passed_on(r, 'a failing command is passed on'); return
        if not isinstance(r, Raised):
            u.prove(r is w.last, 'the signal strength just read is returned')
            u.prove(cmp('>', r, 0), 'only a positive signal strength')
            u.prove(w.ok, 'only after registration')
        elif issubclass(r.cls, X.TimeoutException): u.prove(w.fired, 'TimeoutException only after the timeout fired')
        else:
            u.raises(r, X.InvalidStateException)
            u.prove(w.denied, 'only when registration is denied or not being sought')
        if w.denied: u.raises(r, X.InvalidStateException)


# +COPS: d,d,"name"[,][digits]; the name ends at the last quote for which the rest fits
OPERATOR = re.compile(r'^\+COPS: (\d),(\d),"(.+)",{0,1}\d*$')


@unit('C22', M + 'networkName', 'the operator name in the answer, or None', uses=('GsmModem.write', 'lineMatching'), budget=60)
def _(u):
    w = Modem(u)
    r = u.call(w.obj)
    u.prove(len(w.log) == 1, 'one command')
    w.sent(0, 'AT+COPS?', 'operator query')
    if w.exc is not None: w.passed_on(r); return
    u.returns(r)
    k = w.rows.first(('match', OPERATOR.pattern, OPERATOR.flags), lambda l: rx.match(OPERATOR, l) is not None)
    if k is None: u.prove(r is None, 'None when the answer has no name')
    else:
        u.prove(is_str(r), 'a name when the answer has one')
        m = rx.match(OPERATOR, w.rows.line(k))
        if m is None: raise PathEnd()
        u.prove_eq(r, m.grp(3), 'the name in the answer')


@unit('C22', M + 'supportedCommands', 'the commands in the answer, or None', uses=('GsmModem.write',))
def _(u):
    w = Modem(u)
    r = u.call(w.obj)
    u.prove(len(w.log) == 1, 'one command')
    w.sent(0, 'AT+CLAC', 'command list query')
    if w.exc is not None:
        if issubclass(w.exc.cls, X.CommandError): u.prove(r is None, 'None when the modem cannot tell')
        else: w.passed_on(r)
        return
    u.returns(r)
    n = w.rows.n
    if u.branch(cmp('<', n, 2)): u.prove(r is None, 'None when the answer has no list'); return
    u.prove(isinstance(r, VList), 'a list')
    if u.branch(cmp('==', n, 2)):
        line = w.rows.line(0)
        q = str_seq(line)
        if u.branch(models.starts_with(q, [ord(x) for x in '+CLAC'])): q = seq_slice(q, 6, None)
        parts = str_seq_split(mkstr(q))
        want = VList(map_seq(parts, lambda x: models.strip_ws(x, True, True)))
    else: want = VList(map_seq(Seq((Gen(w.rows.base, 0, sub(n, 1)),)), lambda x: models.strip_ws(x, True, True)))
    u.prove_eq(r, want, 'exactly the commands, in order, without surrounding blanks')


def str_seq_split(s): return models.str_split(None, s, ',').seq


def map_seq(q, f):
    out = []
    for p in q.pieces:
        if isinstance(p, Lit): out.append(Lit([f(x) for x in p.items]))
        else: out.append(Gen(CompBase('spec', lambda k, b=p.base: f(b.elem(k))), p.lo, p.hi))
    return Seq(out)
