"""Dispatch of unsolicited notifications (C23)."""
import threading
from .active import *

HANDLERS = {'RING': '_handleIncomingCall', '+CMTI': '_handleSmsReceived', '+CUSD': '_handleUssd', '+CDSI': '_handleSmsStatusReport'}
WORKER = M + '_GsmModem__threadedHandleModemNotification'


def handler(name):
    @contract('notification handler ' + name, M + name, trusted='nothing is assumed about what it does: the obligation is on its invocation, its effects are those of its own contract')
    def _(I, args, kwargs): ctx().anchors['world'].handle(name, args, kwargs)


for _n in HANDLERS.values(): handler(_n)


class Pattern:
    """the expression of entry j of the call status table: an arbitrary predicate on lines"""
    vtype = re.Pattern
    def __init__(self, w, j): self.w, self.j = w, j
    def vtruth(self): return True
    def vgetattr(self, I, n):
        if n != 'match': raise Unsupported('pattern.' + n)
        def f(I, a, k):
            if len(a) != 1 or not isinstance(a[0], RSStr) or a[0].row[0] is not self.w.lines: raise Unsupported('match of something else')
            return MatchOf(self.w, self.j, a[0].row[1]) if ctx().branch(self.w.hits(self.j, a[0].row[1])) else None
        return Model('pattern.match', f)


class MatchOf:
    def __init__(self, w, j, k): self.w, self.j, self.k = w, j, k
    def vtruth(self): return True
    def vgetattr(self, I, n): raise Unsupported('match.' + n)


class Handler:
    def __init__(self, w, j): self.w, self.j = w, j
    def vtruth(self): return True
    def vcall(self, I, a, k):
        w = self.w
        ok = len(a) == 1 and not k and isinstance(a[0], MatchOf) and a[0].w is w
        w.u.prove(ok, 'a call status handler gets the match')
        if not ok: raise PathEnd()
        w.u.prove(band(cmp('==', a[0].j, self.j), cmp('==', a[0].k, w.at)), 'the match of its own expression, on the line recognised')
        w.handled.append(('table', self.j))


class Dispatch(Modem):
    """at: the line looked at, all before it being recognised by nothing; j: the entry of the table looked at, no earlier one matching that line"""
    def __init__(self, u):
        c = ctx()
        self.lines = Rows(u, 'note')
        self.list = VList(self.lines.seq)
        self.m = c.fresh_int('n_table', 0, MAXLEN)
        self.P = z3.Function(c.name('hits'), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.at = self.j = 0
        self.handled = []
        memo = {}
        def el(j): return memo.setdefault(z3.simplify(zi(j)).sexpr(), (Pattern(self, j), Handler(self, j)))
        super().__init__(u, _callStatusUpdates=VList(Seq((Gen(CompBase('updates', el, length=self.m), 0, self.m),))))

    def hits(self, j, k): return SBool(self.P(zi(j), zi(k)))

    def kind(self, line):
        """the handler a line is for by its text, or None"""
        for p in ('+CMTI', '+CUSD', '+CDSI'):
            if ctx().branch(starts(p)(line)): return HANDLERS[p]
        return HANDLERS['RING'] if ctx().branch(rx.substring(str_seq(line), lit([ord(x) for x in 'RING']))) else None

    def handle(self, name, args, kwargs):
        u = self.u
        a = list(args[1:]) + list(kwargs.values())
        u.prove(args[0] is self.obj and len(a) == 1, 'the handler of this modem, with one argument')
        if name in ('_handleSmsReceived', '_handleSmsStatusReport'):
            ok = isinstance(a[0], RSStr) and a[0].row[0] is self.lines
            u.prove(ok, 'the handler gets a line of the notification')
            if not ok: raise PathEnd()
            u.prove(cmp('==', a[0].row[1], self.at), 'the handler gets the line recognised')
        else:
            u.prove(isinstance(a[0], VList), 'the handler gets the notification')
            if name == HANDLERS['RING']: u.prove_eq(a[0], VList(seq_slice(self.lines.seq, self.at, None)), 'the handler gets the notification from the ring on')
            else: u.prove_eq(a[0], VList(self.lines.seq), 'the handler gets the whole notification')
        self.handled.append(name)


def lines_loop(w):
    def inv(L, p):
        u = w.u
        if L.mode == 'back':
            u.prove(not w.handled, 'a recognised line ends the dispatch')
            u.prove(w.kind(w.lines.line(L.p)) is None, 'no recognised line is passed over')
            u.prove(cmp('==', w.j, w.m), 'every call status update is tried before a line is passed over')
        elif L.mode == 'havoc': w.at, w.j = p, 0
        for n in ('match', 'updateRegex', 'handlerFunc'): L.mentioned.add(n)
        if L.mode == 'havoc':
            for n in ('match', 'updateRegex', 'handlerFunc'): L.fr.locals[n] = Poison(n)
    return inv


def table_loop(w):
    def inv(L, p):
        u = w.u
        if L.mode == 'back':
            u.prove(not w.handled, 'a matching update ends the dispatch')
            u.prove(bnot(w.hits(L.p, w.at)), 'no matching update is passed over')
        elif L.mode == 'havoc': w.j = p
    return inv


@unit('C23', WORKER, 'the first recognised line decides, one handler, once', uses=tuple('notification handler ' + n for n in HANDLERS.values()))
def _(u):
    w = Dispatch(u)
    f = 'GsmModem.__threadedHandleModemNotification'
    u.use({(f, 0): lines_loop(w), (f, 1): table_loop(w)})
    r = u.call(w.obj, w.list)
    u.returns(r)
    u.prove(len(w.handled) <= 1, 'at most one handler, once')
    if not w.handled:
        u.prove(cmp('==', w.at, w.lines.n), 'no handler only when no line is recognised'); return
    k = w.kind(w.lines.line(w.at))
    h = w.handled[0]
    if k is not None: u.prove(h == k, 'the handler the line is for')
    else:
        u.prove(h[0] == 'table', 'only a call status update is left')
        u.prove(band(cmp('==', h[1], w.j), w.hits(h[1], w.at)), 'the first entry of the table that matches')


@contract('notification worker', WORKER, proved_by=[WORKER])
def _(I, args, kwargs): ctx().anchors['world'].dispatch(args, kwargs)


@unit('C23', M + '_handleModemNotification', 'dispatched once, in a thread of its own', uses=('notification worker',))
def _(u):
    w = Modem(u)
    lines = Rows(u, 'note').list
    made, ran = [], []

    class T:
        vtype = threading.Thread
        def __init__(s, a, k): s.a, s.k, s.runs = a, k, 0; made.append(s)
        def vtruth(s): return True
        def vsetattr(s, I, n, v):
            if n not in ('daemon', 'name'): raise Unsupported('Thread.' + n)
        def vgetattr(s, I, n):
            def start(I, a, k): s.runs += 1
            if n == 'start': return Model('start', start)
            if n == 'setDaemon': return Model('setDaemon', lambda I, a, k: None)
            raise Unsupported('Thread.' + n)
    u.c.anchors.setdefault('construct', {})[threading.Thread] = lambda I, a, k: T(a, k)
    w.dispatch = lambda a, k: ran.append((a, k))
    u.returns(u.call(w.obj, lines))
    u.prove(not ran and len(made) == 1 and made[0].runs == 1, 'one thread is started; nothing is handled in the reader')
    if len(made) != 1: return
    k = dict(zip(('group', 'target', 'name', 'args', 'kwargs'), made[0].a)); k.update(made[0].k)
    if 'target' not in k: raise Unsupported('a thread without target')
    kw = k.get('kwargs')
    if kw is None: kw = {}
    elif isinstance(kw, VDict): kw = dict(kw.items)
    u.I.call(k['target'], list(k.get('args') or ()), kw)
    u.prove(len(ran) == 1, 'the thread dispatches once')
    if len(ran) != 1: return
    a, kk = ran[0]
    a = list(a) + list(kk.values())
    u.prove(len(a) == 2 and a[0] is w.obj and isinstance(a[1], VList), 'this modem\'s notification')
    u.prove_eq(a[1], VList(lines.seq), 'the lines received')


def cmti(line):
    """(memory, index) announced by a new message notification, or None"""
    p = parse(line, '+CMTI:', run(SPACE), '"', run(NQ, 1), '",', run(DIGIT, 1), EOL)
    return None if p is None else p[1:]


class Received(Reports):
    def __init__(self, u):
        super().__init__(u)
        self.report = VObj(GM.ReceivedSms, dict(number=anychars(u, 'from')[0], text=anychars(u, 'msg')[0], time=None, smsc=None, status=0, _gsmModem=self.obj))
        self.obj.set('smsReceivedCallback', Model('smsReceivedCallback', self.callback))

    def callback(self, I, a, k):
        self.u.prove(len(a) == 1 and a[0] is self.report, 'the callback gets the message read')
        self.log2.append('callback')


@unit('C23', M + '_handleSmsReceived', 'read, deleted, given to the callback once', uses=('readStoredSms', 'deleteStoredSms'))
def _(u):
    w = Received(u)
    w.exc = None
    line = anychars(u, 'line')[0]
    w.where = cmti(line)
    r = u.call(w.obj, line)
    if w.where is None: u.returns(r); u.prove(not w.log2, 'nothing is done for other lines'); return
    u.prove('read' in w.log2, 'the message is read')
    if w.exc is not None: w.passed_on(r); return
    u.returns(r)
    u.prove(w.log2 == ['read', 'delete', 'callback'], 'read, then deleted, then given to the callback once')
