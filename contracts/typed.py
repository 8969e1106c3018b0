"""What the terminal sends to the modem and shows to the user (C29): the line entered, the message typed, every line received."""
import ast
from .modem import cat
from .editor import *


class Typing(Editor):
    """an editor whose output to the port and to the screen is recorded"""
    def __init__(self, u):
        super().__init__(u)
        self.sent, self.prints, self.prompted, self.silent, self.entered = [], [], None, None, None
        u.c.anchors['print'] = lambda a, k: self.prints.append((a, k))
        u.replay('typing', lambda ev: 0)

    def port(self, I, a, k):
        super().port(I, a, k)
        self.sent.append(a[0])

    def exchange(self, o, data, wait, timeout, prompt):
        u = self.u
        u.prove(o is self.obj and self.prompted is None, 'one command is written by this terminal')
        u.prove(wait is True and prompt == '> ', 'the prompt of a message is waited for')
        if not is_str(data): raise Unsupported('command')
        self.sent.append(data)
        self.prompted = True
        r = ctx().choice([None, None])
        self.silent = bool(r)
        if r: raise PyExc(VObj(T.TimeoutException, {'args': (None,), 'data': None}))
        return Rows(u, 'reply', 1).list

    def whole(self, lo=0, hi=None):
        """the text of (a part of) the line the editor started with"""
        q = self.line.pieces[0]
        return mkstr(part(Seq((Gen(q.base.inner, 0, q.hi),)), lo, q.hi if hi is None else hi))

    def sends(self, t, what):
        self.u.prove_eq(cat(*self.sent) if self.sent else '', t, what)

    def nothing(self): self.sends('', 'nothing is sent')


def is_true(u, v): return u.branch(u.I.truth_cond(v))


def method(u, s, n, *a): return models.str_method(s, n).fn(u.I, list(a), {})


def own_command(u, e):
    """is the text one of the terminal's own commands: 'help', 'ls' or 'load', or False"""
    n = seq_len(str_seq(e))
    if u.branch(cmp('>', n, 2)):
        if is_true(u, method(u, e, 'startswith', '?')): return 'help'
        if is_true(u, method(u, e, 'endswith', '??')): return 'help'
    low = method(u, e, 'lower')
    for w in ('help', 'ls', 'load'):
        if is_true(u, method(u, low, 'startswith', w)): return w
    return False


def entering(w):
    """the lines of a script are entered one after the other, each as if it had been typed"""
    def inv(L, p):
        u = w.u
        script(w)(L, p)
        if L.mode == 'havoc': w.entered = []
        elif L.mode == 'back':
            line = models.strip_ws(w.rows.line(L.p), True, True)
            if not u.branch(cmp('>', seq_len(str_seq(line)), 0)) or is_true(u, method(u, line, 'startswith', '#')):
                u.prove(not w.entered, 'blank lines and comments are not entered'); return
            u.prove(len(w.entered) == 1, 'the line is entered once')
            if w.entered: u.prove_eq(w.entered[0], line, 'the line of the script')
        if L.mode != 'entry': w.entered = []
    return inv


@unit('C29', G + '_doConfirmInput', 'sends exactly the line entered, unless it is a command of the terminal', budget=200, uses=DRAW + ('GsmTerm._printCommandHelp', 'GsmTerm._addToHistory', 'SerialComms.write', 'GsmTerm._doConfirmInput'))
def _(u):
    w = Typing(u)
    cur, sms = w.cur, w.sms
    opened = []

    def open_(I, a, k):
        if not (a and is_str(a[0])): throw(TypeError, 'file name')
        opened.append(a[0])
        if ctx().choice([None, None]): throw(FileNotFoundError, 2, 'no such file')
        w.loaded, w.rows = True, Rows(u, 'script')
        return Port(readlines=lambda I, a, k: w.rows.list, close=lambda I, a, k: None)
    u.c.anchors['open'] = open_

    def handled(name):
        if not w.loaded: raise Unsupported('enters the line again')
        b = w.obj.get('inputBuffer')
        w.entered.append(chars_text(b))
        w.arbitrary()
        w.obj.set('cursorPos', 0)
    w.handled, w.log = handled, []
    u.use({('GsmTerm._doConfirmInput', i): (lambda L, p: entering(w)(L, p) if w.loaded else prints()(L, p)) for i in range(6)})
    u.returns(u.call(w.obj))
    o = w.obj
    if u.branch(sms):
        w.sends(w.whole(0, cur), 'the text before the cursor is sent, nothing else')
        return
    if opened:
        u.prove(len(opened) == 1, 'one script')
        w.nothing(); return
    e = models.strip_ws(w.whole(), True, True)
    if not u.branch(cmp('>', seq_len(str_seq(e)), 0)): w.nothing(); return
    own = own_command(u, e)
    if own == 'ls':
        if not w.sent: u.prove(any_of(u, e), 'only a listing of the commands is not sent'); return
    elif own == 'load' and not is_true(u, models.contains(u.I, e, ' ')): pass       # no file is named: a command like any other
    elif own:
        w.nothing(); return
    w.sends(cat(e, T.RawTerm.WRITE_TERM), 'exactly the line entered, and its terminator')
    cmgs = is_true(u, method(u, method(u, e, 'lower'), 'startswith', 'at+cmgs='))
    u.prove(bool(w.prompted) == cmgs, 'only a send command waits for the prompt of a message')
    u.prove(is_true(u, o.get('_typingSms')) == bool(cmgs and not w.silent), 'a message is typed if and only if the modem asked for it')


def chars_text(b):
    """the characters of the line as a text"""
    out = []
    for p in b.seq.pieces:
        if isinstance(p, Lit):
            for x in p.items: out.extend(str_seq(x).pieces)
        elif isinstance(p, Gen) and isinstance(p.base, CharsBase): out.append(Gen(p.base.inner, p.lo, p.hi))
        else: raise Unsupported('contents of the line')
    return mkstr(Seq(tuple(out)))


def any_of(u, e):
    """'ls' or 'lscat', or with a blank in it: a listing"""
    low = method(u, e, 'lower')
    for x in ('ls', 'lscat'):
        if is_true(u, models.compare(u.I, ast.Eq(), low, x)): return True
    return is_true(u, models.contains(u.I, low, ' '))


@unit('C29', G + '_handleCtrlZ', 'sends the rest of the message and its end', uses=DRAW)
def _(u):
    w = Typing(u)
    u.returns(u.call(w.obj))
    if u.branch(w.sms): w.sends(cat(w.whole(), '\x1a'), 'the line and the end mark')
    else: w.nothing()


@unit('C29', G + '_handleEsc', 'cancels the message', uses=DRAW)
def _(u):
    w = Typing(u)
    u.returns(u.call(w.obj))
    if u.branch(w.sms): w.sends('\x1b', 'the cancel mark, nothing of the line')
    else: w.nothing()


for _n in ('_cursorLeft', '_cursorRight', '_cursorUp', '_cursorDown', '_handleBackspace', '_handleDelete', '_handleHome', '_handleEnd'):
    @unit('C29', G + _n, 'sends nothing', uses=DRAW)
    def _(u, n=_n):
        w = Typing(u)
        u.returns(u.call(w.obj))
        w.nothing()


@unit('C29', G + '_doCommandCompletion', 'sends nothing', budget=150, uses=DRAW + ('GsmTerm.__printCommandSyntax',))
def _(u):
    w = Typing(u)
    u.use({('GsmTerm._doCommandCompletion', i): prints() for i in range(3)})
    u.returns(u.call(w.obj))
    w.nothing()


for _n in ('_refreshInputPrompt', '_removeInputPrompt'):
    @unit('C29', G + _n, 'sends nothing')
    def _(u, n=_n):
        w = Typing(u)
        u.returns(u.call(w.obj, u.int('clear')) if n == '_refreshInputPrompt' and u.c.choice([None, None]) else u.call(w.obj))
        w.nothing()


@unit('C29', G + '_printCommandHelp', 'sends nothing', uses=DRAW)
def _(u):
    w = Typing(u)
    u.use({('GsmTerm._printCommandHelp', i): prints('syntax') for i in range(4)})
    u.returns(u.call(w.obj, text('command')) if u.c.choice([None, None]) else u.call(w.obj))
    w.nothing()


@unit('C29', G + '_GsmTerm__printCommandSyntax', 'sends nothing', uses=DRAW)
def _(u):
    w = Typing(u)
    u.returns(u.call(w.obj, text('command')))
    w.nothing()


@unit('C29', G + '_addToHistory', 'sends nothing')
def _(u):
    w = Typing(u)
    u.returns(u.call(w.obj, text('entered')))
    w.nothing()


@unit('C29', G + '_exit', 'sends nothing; the terminal is stopped', uses=DRAW + ('RawTerm.stop', 'GsmTerm._removeInputPrompt'))
def _(u):
    w = Typing(u)
    u.returns(u.call(w.obj))
    w.nothing()
    u.prove(w.obj.get('alive') is False, 'the terminal is stopped')


# -- keys --------------------------------------------------------------------------------------------------------------------------------
@unit('C29', G + '_inputLoop', 'a key sends nothing but what its handler sends', uses=DRAW + ('GsmTerm._doConfirmInput', 'serial.to_bytes') + tuple('key ' + n for n in HANDLERS if n != '_doConfirmInput'))
def _(u):
    w = Typing(u)

    def turn(): w.nothing()
    input_loop(u, w, turn)


@unit('C29', R + '_inputLoop', 'the raw terminal sends every key, at once, once', uses=('RawTerm.stop',))
def _(u):
    w = Typing(u)
    o, w.key = w.obj, None
    quit_ = T.RawTerm.EXIT_CHARACTER

    def getkey():
        u.prove(w.key is None, 'one key at a time')
        w.key = [lambda: quit_, lambda: '\n', lambda: text('key')][u.c.choice([None] * 3)]()
        if not isinstance(w.key, str): u.assume(bnot(is_eq(u, w.key, quit_))); u.assume(bnot(is_eq(u, w.key, '\n')))
        return w.key
    w.getkey = getkey

    def inv(L):
        if L.mode == 'havoc':
            o._attrs['alive'] = u.bool('alive')
            L.covered.add((o.oid, 'alive'))
        elif L.mode == 'back':
            u.prove(w.key is not None, 'every turn reads a key')
            if w.key is None: return
            if w.key is quit_:
                w.nothing(); u.prove(o.get('alive') is False, 'the terminal is stopped')
            elif isinstance(w.key, str): w.sends(T.RawTerm.WRITE_TERM, 'the end of a command')
            else: w.sends(w.key, 'exactly the key')
            if w.key is not quit_: u.prove(o.get('alive') is not False, 'the terminal goes on')
        w.sent, w.key = [], None
    u.use({('RawTerm._inputLoop', 0): inv})
    u.returns(u.call(o))


def is_eq(u, a, b): return models.compare(u.I, ast.Eq(), a, b)


# -- start ------------------------------------------------------------------------------------------------------------------------------
@contract('SerialComms.connect', 'gsmmodem.serial_comms.SerialComms.connect', proved_by=['gsmmodem.serial_comms.SerialComms.connect'])
def _(I, args, kwargs): ctx().anchors['world'].connected(args[0])


@unit('C29', R + 'start', 'connects, then reads the keys', uses=('SerialComms.connect',))
def _(u):
    w = Typing(u)
    o, trace = w.obj, []
    o._attrs.update(alive=False, inputThread=None)

    def connected(c):
        u.prove(c is o, 'this terminal')
        trace.append('connect')
        o.set('alive', True)
    w.connected = connected

    def thread(I, a, k):
        a = dict(zip(('group', 'target', 'name'), a), **k)
        t = a.get('target')
        if not (isinstance(t, Bound) and t.obj is o and t.fn is T.RawTerm._inputLoop): raise Unsupported('a thread that does something else')

        class Th:
            vtype = threading.Thread
            daemon = a.get('daemon')
            def vsetattr(s, I, n, v):
                if n == 'daemon': s.daemon = v
            def vgetattr(s, I, n):
                if n != 'start': raise Unsupported('Thread.' + n)
                return Model('Thread.start', lambda I, a, k: begin(s))
        return Th()

    def begin(t):
        u.prove(trace == ['connect'], 'the port is open when the first key is read')
        u.prove(is_true(u, o.get('alive')), 'the input is not told to stop when it starts')
        u.prove(o.get('inputThread') is t and t.daemon is True, 'the thread is remembered')
        trace.append('input')
    o.cls = T.RawTerm
    u.c.anchors.setdefault('construct', {})[threading.Thread] = thread
    u.returns(u.call(o))
    u.prove(trace == ['connect', 'input'], 'connected once, keys read by one thread')
    w.nothing()


@unit('C29', R + '__init__', 'what is received goes to this terminal')
def _(u):
    u.c.anchors.setdefault('construct', {})[threading.RLock] = lambda I, a, k: Opaque('lock')
    port, baud = text('port'), u.int('baud', 1)
    u.replay('typing', lambda ev: 0)
    o = u.returns(u.call_other(T.RawTerm, port, baud))
    if isinstance(o, Raised): return
    u.prove(o.get('port') is port and o.get('baudrate') is baud, 'the given port and speed')
    f = o.get('notifyCallback')
    u.prove(isinstance(f, Bound) and f.obj is o and f.fn is T.RawTerm._handleModemNotification, 'the handler of this terminal')


# -- what is received -----------------------------------------------------------------------------------------------------------------
import re as _re


def shown(u, w, t):
    """exactly this text has been printed, on lines of its own, possibly coloured"""
    u.prove(len(w.prints) == 1 and len(w.prints[0][0]) == 1 and not w.prints[0][1], 'printed once')
    if len(w.prints) != 1: return
    s = w.prints[0][0][0]
    if not is_str(s): u.prove(False, 'a text'); return
    colour = u.branch(u.I.truth_cond(w.obj.get('useColor')))
    if not colour: u.prove_eq(s, t, 'the lines received, in order'); return
    q = str_seq(s)
    head = q.pieces[0] if q.pieces else None
    m = isinstance(head, Lit) and all(isinstance(x, int) for x in head.items[:12]) and _re.match('\x1b\\[[0-9;]*m', ''.join(chr(x) if isinstance(x, int) else '?' for x in head.items))
    reset = T.GsmTerm.RESET_SEQ
    u.prove(bool(m), 'a colour')
    if m: u.prove_eq(s, cat(m.group(), t, reset), 'the lines received, in order, in this colour')


@unit('C29', G + '_handleModemNotification', 'every line received is shown; what is being typed is kept', uses=DRAW + ('GsmTerm._removeInputPrompt',))
def _(u):
    w = Typing(u)
    lines = Rows(u, 'received', 1)
    u.returns(u.call(w.obj, lines.list))
    w.nothing()
    w.state(sms=w.sms)
    shown(u, w, models.str_join(u.I, '\n', lines.list))


@unit('C29', R + '_handleModemNotification', 'every line received is shown, in order')
def _(u):
    w = Typing(u)
    lines = Rows(u, 'received', 0)

    def inv(L, p):
        if L.mode == 'back':
            u.prove(len(w.prints) == 1 and len(w.prints[0][0]) == 1 and not w.prints[0][1], 'printed once')
            if len(w.prints) == 1: u.prove_eq(w.prints[0][0][0], lines.line(L.p), 'the line received')
        elif L.mode == 'entry': u.prove(not w.prints and keys_same(p, 0), 'nothing but the lines is printed')
        w.prints = []
    u.use({('RawTerm._handleModemNotification', 0): inv})
    u.returns(u.call(w.obj, lines.list))
    w.nothing()
    u.prove(not w.prints, 'nothing else is printed')
