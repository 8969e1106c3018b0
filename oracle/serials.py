"""C13, C14"""
import re
from .base import case, checked, eq, expect, raises, Skip, Mismatch, short
from .env import Env
import gsmmodem.serial_comms as S
from gsmmodem.exceptions import TimeoutException
import serial as pyserial


class ReadPort:
    """delivers the characters one per read ('' is a read timeout); ends the loop by clearing alive or by failing"""
    def __init__(self, comms, data, fail, expects=None):
        self.c, self.data, self.pos, self.fail, self.closed = comms, data, 0, fail, 0
        self.expects = expects or {}
    def read(self, n=1):
        expect(n == 1, 'read(%r)' % n)
        expect(not self.closed, 'read after close')
        if self.pos in self.expects: self.c._expectResponseTermSeq = self.expects[self.pos] and list(self.expects[self.pos])
        if self.pos >= len(self.data):
            if self.fail: raise pyserial.SerialException('port failed')
            self.c.alive = False
            return ''
        ch = self.data[self.pos]; self.pos += 1
        return ch
    def inWaiting(self): return 0
    def close(self):
        self.closed += 1
        if self.fail == 2: raise pyserial.SerialException('close failed')


def frames(data, expects):
    out, buf, term = [], '', None
    for i, ch in enumerate(data):
        if i in expects: term = expects[i] or None
        if ch == '': continue
        buf += ch
        if buf.endswith('\r\n'):
            if buf != '\r\n': out.append((buf[:-2], True))
            buf = ''
        elif term and buf.endswith(term):
            out.append((buf, False)); buf = ''
    return out


CH = ['\r', '\n', '\r\n', 'a', '>', ' ', '> ', '', 'OK\r\n', '\r\r\n', '\n\r', '+CMTI: 1', '\x00', '\u20ac', '>>']


def rstream(r):
    data = []
    for _ in range(r.randrange(25)):
        data += list(r.choice(CH)) or ['']
    ex = {}
    if r.random() < .6: ex[r.randrange(len(data) + 1)] = r.choice(('> ', '>', 'a> ', '\n', '\r', '> \r'))
    if r.random() < .3: ex[r.randrange(len(data) + 1)] = r.choice((False, '> '))
    return (data, ex, r.choice((0, 0, 1, 2)))


@case('C13', fixed=lambda: [(list(a + b + c), e, f) for a in CH for b in CH for c in CH for e in ({}, {0: '> '}) for f in (0,)] + [(list('ab\r\n'), {}, f) for f in (1, 2)] + [([], {}, f) for f in (0, 1, 2)] +
      [(list('> x> \r\n'), {0: '> '}, 1), (list('ab> cd\r\n> '), {0: '> ', 4: False}, 0), (list('\r\n' * 3 + 'x'), {}, 1)], gen=rstream)
@checked
def framing(inp):
    data, ex, fail = inp
    errors, got = [], []
    c = S.SerialComms('x', fatalErrorCallbackFunc=lambda *a: errors.append(a))
    c._handleLineRead = lambda line, checkForResponseTerm=True: got.append((line, checkForResponseTerm))
    c.serial = port = ReadPort(c, data, fail, ex)
    c.alive = True
    c._readLoop()
    eq(got, frames(data, ex), 'lines handed on for %s (prompt %s)' % (short(data), ex))
    eq(port.pos, len(data), 'characters read')
    eq(len(errors), 1 if fail else 0, 'error handler calls')
    if fail:
        expect(len(errors[0]) == 1 and isinstance(errors[0][0], pyserial.SerialException), 'error handler arguments')
        eq((c.alive, port.closed), (False, 1), 'alive flag and close calls after a failure')
    else: eq(port.closed, 0, 'close calls')


@case('C13', fixed=lambda: [(n, e, j) for n in (0, 1) for e in (0, 1) for j in (0, 1)])
@checked
def lifecycle(inp):
    """a real connection over a port that has nothing to say: opened, read, closed; j: some lines arrive first"""
    note, err, j = inp if isinstance(inp, tuple) else (1, 1, 0)
    import time
    opened, ports, notes, errors, bad = [], [], [], [], []

    class FakePort:
        timeout = None
        def __init__(self, data): self.data, self.closed, self.reads, self.reader = list(data), 0, 0, None
        def read(self, n=1):
            self.reads += 1
            self.reader = S.threading.current_thread()
            if self.closed: bad.append('read after close'); raise pyserial.SerialException('closed')
            if self.data: return self.data.pop(0)
            time.sleep(0.002)
            return ''
        def inWaiting(self): return len(self.data)
        in_waiting = property(inWaiting)
        def close(self):
            self.closed += 1
            if self.reader is not None and self.reader.is_alive(): bad.append('the port is closed while the reader is using it')

    def new(*a, **k):
        d = dict(zip(('port', 'baudrate'), a), **k)
        opened.append((d.get('port'), d.get('baudrate'), bool(d.get('timeout'))))
        ports.append(FakePort('RING\r\nOK\r\n' if j else ''))
        return ports[-1]

    def until(f):
        end = time.time() + 3
        while not f() and time.time() < end: time.sleep(0.001)
    kw = {}
    if note: kw['notifyCallbackFunc'] = lambda l: notes.append(list(l))
    if err: kw['fatalErrorCallbackFunc'] = lambda *a: errors.append(a)
    real, S.serial.Serial, c = S.serial.Serial, new, None
    try:
        c, other = S.SerialComms('name', 9600, **kw), S.SerialComms('other', 1)
        expect(not any(getattr(c, n, None) for n in ('_responseEvent', '_expectResponseTermSeq', '_notification', 'alive')), 'a new connection starts with something waiting, pending or expected')
        expect(all(getattr(c, n, 0) is not getattr(other, n, 1) for n in ('_notification', '_txLock')), 'two connections share state')
        c.notifyCallback([]) if not note else None
        c.fatalErrorCallback(None) if not err else None
        c.connect()
        eq(opened, [('name', 9600, True)], 'ports opened (name, speed, with a timeout)')
        port = ports[0]
        until(lambda: port.reads > len('RING\r\nOK\r\n') * j + 1)
        if port.reader is None: raise Mismatch('the port is not being read')
        expect(port.reader.is_alive() and port.reader.daemon, 'the reader is running, without keeping the program alive')
        eq(port.closed, 0, 'close calls before close()')
        c.close()
        eq((port.closed, port.reader.is_alive()), (1, False), 'after close(): close calls, reader running')
        eq(errors, [], 'error handler calls')
        if note: eq([l for n in notes for l in n], ['RING', 'OK'] if j else [], 'lines notified')
        eq(bad, [], 'misuse of the port')
    finally:
        S.serial.Serial = real
        if c is not None: c.alive = False           # ends a reader that is still there


TERMS = ['OK', 'ERROR', '+CME ERROR: 3', '+CMS ERROR: 12345', '+CMS ERROR: 330', 'COMMAND NOT SUPPORT', 'OK  ', 'ERROR ', '+CME ERROR: 515 \t']
NONTERMS = ['OKAY', 'OK then', ' OK', 'ERRORS', '+CME ERROR: x', '+CME ERROR:3', '+CME ERROR: ', '+CMX ERROR: 3', 'COMMAND NOT SUPPORTED', 'ok', '+CME ERROR: 3x', 'x', 'RING', '> ', '0', 'NO CARRIER', 'ERROR: 3', '+CMS ERROR: -1', 'COMMAND NOT SUPPORT!', 'O', 'xOK', '+CUSD: 1,"OK"', 'OK.', 'OKOK', 'ERROROK', '+CMS ERROR: 3OK']


def is_term(line):
    return re.match(r'(OK|ERROR|\+CM[ES] ERROR: [0-9]+|COMMAND NOT SUPPORT)[ \t]*\Z', line) is not None


def rlines(r):
    n = r.randrange(7)
    ev = []
    for _ in range(n):
        ev.append((r.choice(TERMS + NONTERMS * 1), r.random() < .85, r.choice((0, 0, 1, 5))))
    return (ev, r.choice((True, True, True, False)))


@case('C14', fixed=lambda: [([(t, True, 0)], w) for t in TERMS + NONTERMS for w in (True, False)] + [([('x', True, 0), (t, True, 0), ('y', True, 1), ('z', True, 0)], w) for t in TERMS + NONTERMS for w in (True, False)] +
      [([('a', True, 0), ('> ', False, 0)], True), ([], True), ([('> ', False, 0), ('RING', True, 0)], True)], gen=rlines)
@checked
def dispatch(inp):
    """one command is written (or not); the lines then arrive, each with the number of characters still waiting"""
    ev, waiting = inp
    env = Env()
    with env:
        notes, kept = [], []
        c = S.SerialComms('x', notifyCallbackFunc=lambda lines: (notes.append(list(lines)), kept.append(lines)))

        class Port:
            written = []
            cur = 0
            def write(self, d): self.written = self.written + [d]
            def inWaiting(self): return self.cur
            in_waiting = property(lambda s: s.cur)
        c.serial = Port()

        def arrive():
            for line, check, w in ev:
                c.serial.cur = w
                c._handleLineRead(line) if check else c._handleLineRead(line, checkForResponseTerm=False)
        # reference
        resp, note, wantnotes, done = [], [], [], False
        for line, check, w in ev:
            if waiting and not done:
                resp.append(line)
                if not check or is_term(line): done = True
            else:
                note.append(line)
                if w == 0: wantnotes.append(note); note = []
        if waiting:
            env.idle.append(arrive)
            if done:
                got = c.write('AT\r', timeout=3)
                eq(got, resp, 'response for lines %s' % short(ev))
            else:
                e = raises(lambda: c.write('AT\r', timeout=3), TimeoutException)
                eq(e.data or None, resp or None, 'data of the TimeoutException for lines %s' % short(ev))
            eq(c.serial.written, ['AT\r'], 'data written')
            eq(env.waits, [3], 'waits')
        else:
            arrive()
        eq(notes, wantnotes, 'notifications for lines %s' % short(ev))
        eq([list(k) for k in kept], notes, 'lines of the notifications once the handlers (in threads of their own) look at them')
        # afterwards nothing waits any more
        expect(not c._responseEvent, 'a wait remains registered')
        expect(not c._expectResponseTermSeq, 'a prompt remains expected')
        c.serial.cur = 0
        before = len(notes)
        c._handleLineRead('LATE')
        eq(notes[before:], [note + ['LATE']], 'line received after the exchange')
        # and the next command starts afresh
        env.idle.append(lambda: (c._handleLineRead('fresh'), c._handleLineRead('OK')))
        eq(c.write('AT2\r'), ['fresh', 'OK'], 'response of the next command')
        if waiting and done: eq(got, resp, 'response of the first command, after the next one')


@case('C14', fixed=lambda: [(k, t, ans, ok) for k in range(1, 9) for t in (None, '> ') for ans in ([], ['a']) for ok in (True, False)])
@checked
def schedule(inp):
    """the reader hands on a line right after the k-th step of the writer: it must not get lost or appear twice"""
    k, term, ans, ok = inp
    env = Env()
    with env:
        notes, steps = [], [0]

        class Comms(S.SerialComms):
            armed = False
            def __setattr__(self, n, v):
                object.__setattr__(self, n, v)
                if self.armed:
                    steps[0] += 1
                    if steps[0] == k:
                        self.armed = False
                        self._handleLineRead('the line')
        c = Comms('x', notifyCallbackFunc=lambda lines: notes.extend(lines))

        class Port:
            def write(self, d): pass
            def inWaiting(self): return 0
            in_waiting = 0
        c.serial = Port()

        def arrive():
            for l in ans: c._handleLineRead(l)
            if ok: c._handleLineRead('OK')
        env.idle.append(arrive)
        c.armed = True
        kw = dict(expectedResponseTermSeq=term) if term else {}
        if ok: got = c.write('AT\r', **kw)
        else: got = raises(lambda: c.write('AT\r', **kw), TimeoutException).data or []
        c.armed = False
        if steps[0] < k: return
        eq(sorted(got + notes), sorted(['the line'] + ans + (['OK'] if ok else [])), 'lines in the response and in notifications when one arrives after step %d of the exchange' % k)
        eq([l for l in got if l != 'the line'], ans + (['OK'] if ok else []), 'response without that line')
        expect(not c._responseEvent, 'a wait remains registered')


@case('C14', fixed=lambda: [(t, ok) for t in ('> ', 'x') for ok in (True, False)])
@checked
def prompt_forgotten(inp):
    """after a command that expected a prompt, text ending like the prompt no longer ends a line"""
    term, ok = inp
    env = Env()
    with env:
        notes = []
        c = S.SerialComms('x', notifyCallbackFunc=lambda lines: notes.append(list(lines)))
        text = list('ab' + term + 'cd\r\n')

        class Port:
            def write(self, d): pass
            def inWaiting(self): return len(text)
            in_waiting = property(lambda s: len(text))
            def close(self): pass
            def read(self, n=1):
                if not text: c.alive = False
                return text.pop(0) if text else ''
        c.serial = Port()
        if ok: env.idle.append(lambda: c._handleLineRead(term, checkForResponseTerm=False))
        if ok: eq(c.write('AT\r', expectedResponseTermSeq=term), [term], 'response')
        else: raises(lambda: c.write('AT\r', expectedResponseTermSeq=term), TimeoutException)
        c.alive = True
        c._readLoop()
        eq(notes, [['ab' + term + 'cd']], 'lines received after a command with a prompt (%s)' % ('answered' if ok else 'timed out'))


@case('C14', fixed=[None, '> ', 'x'])
@checked
def no_wait(term):
    env = Env()
    with env:
        c = S.SerialComms('x')
        w = []
        class Port:
            def write(self, d): w.append(d)
            def inWaiting(self): return 0
        c.serial = Port()
        eq(c.write('AT\r', waitForResponse=False), None, 'result without waiting')
        eq(w, ['AT\r'], 'data written')
        eq(env.waits, [], 'waits')
        expect(not c._responseEvent, 'a wait remains registered')
        seen = []
        def arrive():
            seen.append(c._expectResponseTermSeq and ''.join(c._expectResponseTermSeq))
            c._handleLineRead(term or 'x', checkForResponseTerm=False)
        env.idle.append(arrive)
        eq(c.write('AT+CMGS\r', expectedResponseTermSeq=term), [term or 'x'], 'response ended by the prompt')
        eq(seen, [term], 'expected prompt')
        expect(not c._expectResponseTermSeq, 'a prompt remains expected')
