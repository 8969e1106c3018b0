"""Contracts of the serial layer: framing (C13), response/notification dispatch and the command exchange (C14)."""
import serial
from .world import *
from gsmmodem import serial_comms as S
from gsmmodem.exceptions import TimeoutException

M = 'gsmmodem.serial_comms.SerialComms.'
FINAL = ('OK', 'ERROR', 'COMMAND NOT SUPPORT')


def final_line(line):
    """spec: the line, trailing blanks aside, is exactly OK, ERROR, COMMAND NOT SUPPORT or a numeric CME/CMS error (forks)"""
    c = ctx()
    t = models.strip_ws(line, False, True)
    if c.branch(bor(*[val_eq(t, w) for w in FINAL])): return True
    q = str_seq(t)
    pre = [ord(x) for x in '+CM']
    tk = rx.take(q, 12)
    if tk is None: return False
    items, rest = tk
    want = [ord(x) for x in '+CM? ERROR: ']
    cond = band(*[cmp('==', x, w) if w != 63 else bor(cmp('==', x, 69), cmp('==', x, 83)) for x, w in zip(items, want)])
    if not c.branch(cond): return False
    run, left = rx.max_run(rest, DIGIT)
    if uncons(left) is not None: return False
    return c.branch(cmp('>=', seq_len(Seq(run)), 1))


DIGIT = rx.compile_prog(rx.rp.parse(r'\d'), False)[0][1]


class Dispatch(World):
    """a SerialComms object in an arbitrary state, as the reader thread finds it"""
    def __init__(self, u, waiting):
        self.u = u
        self.old = Rows(u, 'received')
        self.note = Rows(u, 'pending')
        self.resp = VList(self.old.seq)
        self.notes = VList(self.note.seq)
        self.ev = Ev(self)
        self.waiting = waiting
        self.reads = 0
        self.calls = []
        self.avail = u.int('avail', 0)
        vol = {}
        if waiting: vol['_responseEvent'] = self.event
        attrs = dict(_responseEvent=None, _response=self.resp, _notification=self.notes, _expectResponseTermSeq=False, alive=True,
                     serial=Port(inWaiting=lambda I, a, k: self.avail), notifyCallback=Model('notifyCallback', self.notify))
        self.obj = VolObj(S.SerialComms, attrs, vol)

    def event(self):
        """the waiting thread may give up (time out) at any moment after the first look"""
        self.reads += 1
        if self.reads > 1 and not self.ev.flag and ctx().choice([None, None]): return None
        return self.ev

    def notify(self, I, a, k):
        self.u.prove(len(a) == 1 and isinstance(a[0], VList), 'the notification handler gets the list of lines')
        self.calls.append((a[0], a[0].seq))

    def post_notification(self, line):
        u = self.u
        want = VList(self.note.seq + lit([line]))
        u.prove(self.resp.seq is self.old.seq and self.obj.get('_response') is self.resp, 'the response is untouched')
        n = self.obj.get('_notification')
        u.prove(isinstance(n, VList), 'pending notification is a list')
        if u.branch(cmp('==', self.avail, 0)):
            u.prove(len(self.calls) == 1, 'handler called once when no input is waiting')
            lst, at_call = self.calls[0]
            u.prove_eq(VList(at_call), want, 'handler gets exactly the pending lines and this one')
            u.prove_eq(VList(n.seq), VList(EMPTY), 'nothing stays pending')
            u.prove(n is not lst, 'later lines do not change the list handed out')
            u.prove_eq(VList(lst.seq), want, 'the list handed out is left alone')
        else:
            u.prove(not self.calls, 'handler not called while input is waiting')
            u.prove_eq(VList(n.seq), want, 'the line is kept for the notification')


def dispatch_input(u, d, line, check):
    def build(ev):
        w = ev(d.avail)
        return ([(ev(line), True if check else False, min(w, 5))], bool(d.waiting))
    u.replay('dispatch', build)


for _check in (True, False):
    @unit('C14', M + '_handleLineRead', 'a command waits: the line joins its response%s' % ('' if _check else ', prompt'))
    def _(u, check=_check):
        d = Dispatch(u, True)
        line, b, n = anychars(u, 'line')
        dispatch_input(u, d, line, check)
        fin = final_line(line) if check else True
        r = u.call(d.obj, line) if check else u.call(d.obj, line, checkForResponseTerm=False)
        u.returns(r)
        u.prove(d.obj.get('_response') is d.resp, 'same response list')
        u.prove_eq(VList(d.resp.seq), VList(d.old.seq + lit([line])), 'the line is appended to the response, nothing else')
        u.prove(d.ev.flag == fin, 'the response ends %s' % ('exactly at a final result line' if check else 'at the prompt'))
        u.prove(not d.calls and d.notes.seq is d.note.seq and d.obj.get('_notification') is d.notes, 'no notification')

    for _state in ('none', 'ended'):
        @unit('C14', M + '_handleLineRead', 'nothing waits (%s): the line is part of a notification%s' % ('no command' if _state == 'none' else 'response already complete', '' if _check else ', prompt'))
        def _(u, check=_check, state=_state):
            d = Dispatch(u, state == 'ended')
            if state == 'ended': d.ev.flag = True
            line, b, n = anychars(u, 'line')
            d.waiting = False
            dispatch_input(u, d, line, check)
            r = u.call(d.obj, line) if check else u.call(d.obj, line, checkForResponseTerm=False)
            u.returns(r)
            d.post_notification(line)


class Exchange(World):
    """SerialComms.write: while it waits, the reader thread appends lines to the registered response and, when one ends the
    response, sets the registered event (the contract of _handleLineRead)"""
    def __init__(self, u, wait):
        self.u, self.wait = u, wait
        self.lock = Lock()
        self.rows = Rows(u, 'answer')
        self.timeout = Opaque('timeout')
        self.written = []
        self.waits = 0
        self.failed = False
        self.stale = VList(Rows(u, 'earlier').seq)
        self.early, self.late, self.done = EMPTY, EMPTY, None
        self.obj = VolObj(S.SerialComms, dict(_responseEvent=None, _response=self.stale, _expectResponseTermSeq=False, _notification=VList(), alive=True, _txLock=self.lock, serial=Port(write=self.port_write)),
                          {'=_responseEvent': self.set_event})
        self.events(u)

    def set_event(self, ev):
        """the reader acts as soon as the wait is registered, and until it is not"""
        o, u = self.obj, self.u
        if isinstance(ev, Ev) and self.wait and not self.early.pieces and not self.waits:
            o.set('_responseEvent', ev)
            rs = o.get('_response')
            if isinstance(rs, VList) and ctx().choice([None, None]):
                self.early = Rows(u, 'early').seq
                rs.seq = rs.seq + self.early
            return
        if ev is None and self.done is False and not self.late.pieces and o.get('_responseEvent') is self.ev and ctx().choice([None, None]):
            self.late = lit([anychars(u, 'late')[0]])
            self.resp.seq = self.resp.seq + self.late
        o.set('_responseEvent', ev)

    def port_write(self, I, a, k):
        u, o = self.u, self.obj
        self.written.append(a[0] if len(a) == 1 else None)
        if self.wait:
            u.prove(self.lock.held > 0, 'the exchange has the port for itself')
            ev = o.get('_responseEvent')
            u.prove(isinstance(ev, Ev) and not ev.flag, 'the wait is registered before the command is sent')
            rs = o.get('_response')
            u.prove(isinstance(rs, VList) and rs is not self.stale, 'a new response is started before the command is sent')
            u.prove_eq(VList(rs.seq), VList(self.early), 'the response holds the lines received since the wait was registered, and nothing else')
            pr = o.get('_expectResponseTermSeq')
            if self.prompt is None: u.prove(not self.truthy(pr), 'no prompt is expected')
            else:
                u.prove(isinstance(pr, VList), 'the prompt is registered before the command is sent')
                u.prove_eq(VList(pr.seq), VList(chars_of(str_seq(self.prompt))), 'the prompt is the expected one')
            self.ev, self.resp = ev, rs
        if ctx().choice([None, None]):
            self.failed = True
            throw(serial.SerialException, 'port failed')
        return a[0]

    def truthy(self, v): return ctx().branch(self.u.I.truth_cond(v))

    def ev_wait(self, e, timeout):
        u = self.u
        u.prove(self.wait and self.written and e is self.ev, 'waits for this command\'s response')
        u.prove(timeout is self.timeout, 'waits for the given time')
        u.prove(self.lock.held > 0, 'the exchange has the port for itself')
        u.prove(self.obj.get('_responseEvent') is self.ev and self.obj.get('_response') is self.resp, 'the wait stays registered while waiting')
        self.waits += 1
        u.prove(self.waits == 1, 'waits once')
        done = ctx().choice([None, None]) == 0
        if done: ctx().assume(cmp('>=', self.rows.n, 1))
        self.resp.seq = self.resp.seq + self.rows.seq
        self.done = done
        if done: e.flag = True
        return done


@unit('C14', M + 'write', 'with a wait: response, timeout, nothing left behind')
def _(u):
    w = Exchange(u, True)
    data, _, _ = anychars(u, 'data')
    w.prompt = None
    kw = {}
    if u.c.choice([None, None]):
        w.prompt, _, _ = anychars(u, 'prompt', 1)
        kw['expectedResponseTermSeq'] = w.prompt
    r = u.call(w.obj, data, timeout=w.timeout, **kw)
    u.prove(len(w.written) == 1 and w.written[0] is not None, 'written once')
    u.prove_eq(w.written[0], data, 'exactly the data is written')
    u.prove(w.lock.held == 0, 'the port is released')
    o = w.obj
    u.prove(not w.truthy(o.get('_responseEvent')), 'no wait remains registered')
    u.prove(not w.truthy(o.get('_expectResponseTermSeq')), 'no prompt remains expected')
    if w.failed:
        u.raises(r, serial.SerialException); return
    u.prove(w.waits == 1, 'waits for the response')
    if w.done:
        u.returns(r)
        u.prove(isinstance(r, VList), 'a list of lines')
        u.prove_eq(VList(r.seq), VList(w.early + w.rows.seq), 'the lines received, in order')
    else:
        u.raises(r, TimeoutException)
        d = r.obj.get('data')
        got = w.early + w.rows.seq + w.late
        if u.branch(cmp('==', seq_len(got), 0)): u.prove(d is None or (isinstance(d, VList) and not d.seq.pieces), 'no data when nothing arrived')
        else:
            u.prove(isinstance(d, VList), 'carries the lines received')
            u.prove_eq(VList(d.seq), VList(got), 'exactly the lines received so far')


@unit('C14', M + 'write', 'without a wait: written, nothing registered')
def _(u):
    w = Exchange(u, False)
    data, _, _ = anychars(u, 'data')
    r = u.call(w.obj, data, waitForResponse=False, timeout=w.timeout)
    u.prove(len(w.written) == 1 and w.written[0] is not None, 'written once')
    u.prove_eq(w.written[0], data, 'exactly the data is written')
    u.prove(w.lock.held == 0 and w.waits == 0, 'no waiting')
    u.prove(w.obj.get('_responseEvent') is None and w.obj.get('_response') is w.stale, 'nothing is registered')
    if w.failed: u.raises(r, serial.SerialException)
    else: u.prove(r is None, 'nothing is returned')


# -- framing -----------------------------------------------------------------------------------------------------------------
def no_crlf(b):
    return lambda v, k: mb(z3.Not(z3.And(zi(v) == 13, b[0].fn(zi(k) + 1) == 10, zi(k) + 1 < zi(b[0].length))))


class Stream:
    """the port as the reader thread sees it, and what must be handed on.  buf: characters received since the last line end."""
    def __init__(self, u):
        self.u = u
        self.buf = EMPTY           # rope of characters
        self.expect = []           # lines still to be handed on in this step: (text, ends response)
        self.prompt = None         # the prompt registered when the last character arrived
        self.prompt_reads = 0
        self.closed, self.errors, self.failed, self.stopped = 0, [], None, False
        self.fresh = False
        self.trace, self.start = [], None          # for replays
        self.obj = VolObj(S.SerialComms, dict(serial=Port(read=self.read, close=self.close), fatalErrorCallback=Model('fatalErrorCallback', self.fatal)),
                          {'alive': self.alive, '=alive': self.set_alive, '_expectResponseTermSeq': self.get_prompt})
        self.dead = False

    def alive(self):
        if self.dead: return False
        self.settled()
        if ctx().choice([None, None]): self.stopped = True; return False
        return True

    def set_alive(self, v):
        if v is False: self.dead = True
        else: raise Unsupported('alive')

    def get_prompt(self):
        self.prompt_reads += 1
        if not self.fresh: raise Unsupported('prompt looked at before a character arrived')
        if self.prompt is None: return False
        if self.prompt_reads > 1 and ctx().choice([None, None]): return False      # the waiting thread gave up meanwhile
        return VList(lit([mkstr(lit([x])) for x in self.prompt]))

    def settled(self):
        self.u.prove(not self.expect, 'every complete line is handed on before the next character is read')

    def read(self, I, a, k):
        u, c = self.u, ctx()
        u.prove(not self.dead and not self.closed, 'no reading after the end')
        self.settled()
        n = a[0] if a else k.get('size', 1)
        if n != 1: raise Unsupported('reading several characters at once')
        what = c.choice([None, None, None])
        if what == 1: return ''                      # timeout
        if what == 2:
            self.failed = VObj(serial.SerialException, {'args': ('port failed',)})
            raise PyExc(self.failed)
        x = c.fresh_int('ch', 0, 0x10ffff)
        self.fresh, self.prompt_reads = True, 0
        m = c.choice([None] * 4)
        self.prompt = [c.fresh_int('pr', 0, 0x10ffff) for _ in range(m)] or None
        self.trace.append((self.start, x, self.prompt)); self.start = None
        # what must happen
        s = self.buf + lit([x])
        self.buf = s
        t = seq_slice(s, -2, None)
        if len(t.items) == 2 and c.branch(band(cmp('==', t.items[0], 13), cmp('==', t.items[1], 10))):
            line = unsnoc(unsnoc(s)[0])[0]
            self.buf = EMPTY
            if c.branch(cmp('>', seq_len(line), 0)): self.expect.append((line, True))
        elif self.prompt:
            t = seq_slice(s, -m, None)
            if len(t.items) == m and c.branch(band(*[cmp('==', p, q) for p, q in zip(t.items, self.prompt)])):
                self.expect.append((s, False)); self.buf = EMPTY
        return mkstr(lit([x]))

    def handed(self, line, check):
        u = self.u
        u.prove(bool(self.expect), 'only complete lines are handed on, once')
        want, term = self.expect.pop(0)
        if not is_str(line): u.prove(False, 'a str is handed on'); return
        u.prove_eq(line, mkstr(want), 'exactly the characters received')
        u.prove(check == term, 'marked as ending the response only at a prompt' if term else 'marked as ending the response')

    def close(self, I, a, k):
        self.closed += 1
        w = ctx().choice([None, None, None])
        if w == 1: throw(serial.SerialException, 'close failed')
        if w == 2: throw(OSError, 'close failed')

    def fatal(self, I, a, k): self.errors.append(tuple(a))


@contract('_handleLineRead', M + '_handleLineRead', proved_by=[M + '_handleLineRead'])
def _(I, args, kwargs):
    o = args[0]
    st = ctx().anchors['stream']
    line = args[1]
    check = args[2] if len(args) > 2 else kwargs.get('checkForResponseTerm', True)
    st.handed(line, check)
    return None


def frame_loop(st):
    def inv(L):
        if L.mode == 'havoc':
            n = ctx().fresh_int('n_buf', 0, MAXLEN)
            b = []
            b.append(SymBase('buf', n, char))
            b[0].constrain(no_crlf(b))
            st.buf = Seq((Gen(b[0], 0, n),))
            st.fresh = False
            st.trace, st.start = [], st.buf
        L.newlist('rxBuffer', chars_of(st.buf))
        if L.mode == 'back': st.settled()
    return inv


@unit('C13', M + '_readLoop', 'lines are framed exactly, until asked to stop or the port fails', uses=('_handleLineRead',))
def _(u):
    st = Stream(u)
    u.c.anchors['stream'] = st
    u.use({('SerialComms._readLoop', 0): frame_loop(st)})

    def build(ev):
        data, ex = [], {}
        for start, x, prompt in st.trace:
            if start is not None: data += list(ev(mkstr(start)))
            ex[len(data)] = ''.join(chr(ev(k)) for k in prompt) if prompt else False
            data.append(chr(ev(x)))
        return (data + list('\r\nz\r\n'), {**ex, len(data): False}, 1 if st.failed is not None else 0)
    u.replay('framing', build)
    r = u.call(st.obj)
    u.returns(r, 'no exception leaves the reader')
    u.prove(not st.expect, 'nothing complete is left behind')
    if st.failed is not None:
        u.prove(st.closed == 1, 'the port is closed once')
        u.prove(st.dead, 'the reader is marked as stopped')
        u.prove(len(st.errors) == 1 and len(st.errors[0]) == 1 and st.errors[0][0] is st.failed, 'the error handler is told once')
    else:
        u.prove(st.stopped, 'stops only when asked to')
        u.prove(st.closed == 0 and not st.errors, 'a normal stop closes nothing and reports nothing')


@contract('SerialComms.write', M + 'write', proved_by=[M + 'write'])
def _(I, args, kwargs):
    a = dict(zip(('data', 'waitForResponse', 'timeout', 'expectedResponseTermSeq'), args[1:]), **kwargs)
    return ctx().anchors['world'].exchange(args[0], a['data'], a.get('waitForResponse', True), a.get('timeout', 5), a.get('expectedResponseTermSeq'))
