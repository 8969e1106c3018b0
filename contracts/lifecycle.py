"""Life of a connection: what a new one starts with, opening, closing (C13); replies to received messages (C15)."""
import ast
import threading
import weakref
import serial
from .settings import *
from gsmmodem import serial_comms as S
from gsmmodem import modem as GM

C = 'gsmmodem.serial_comms.SerialComms.'


def harmless(u, f):
    """a handler that may be called with anything and does nothing"""
    r = u.call_other(f, VList(lit([u.int('arg')])))
    return not isinstance(r, Raised)


@unit('C13', C + '__init__', 'a new connection has nothing waiting, pending or expected')
def _(u):
    made = []

    def lock(I, a, k):
        made.append(Lock()); return made[-1]
    u.c.anchors.setdefault('construct', {})[threading.RLock] = lock
    port, baud = anychars(u, 'port')[0], u.int('baud', 1)
    note, fatal = [u.c.choice([None, None]) for _ in range(2)]
    given = [Model('notify', lambda I, a, k: None), Model('fatal', lambda I, a, k: None)]
    objs = []
    for _ in range(2):
        kw = {}
        if note: kw['notifyCallbackFunc'] = given[0]
        if fatal: kw['fatalErrorCallbackFunc'] = given[1]
        r = u.returns(u.call_other(S.SerialComms, port, baud, **kw))
        if isinstance(r, Raised): return
        objs.append(r)
    o = objs[0]
    u.prove(o.get('port') is port and o.get('baudrate') is baud, 'the given port and speed')
    u.prove(not truth_of(u, attr(u, o, 'alive')), 'the reader is not running')
    u.prove(not truth_of(u, attr(u, o, '_responseEvent')), 'no wait is registered')
    u.prove(not truth_of(u, attr(u, o, '_expectResponseTermSeq')), 'no prompt is expected')
    n = attr(u, o, '_notification')
    u.prove(isinstance(n, VList) and not n.seq.pieces, 'no line is pending')
    u.prove(n is not attr(u, objs[1], '_notification') and attr(u, o, '_txLock') is not attr(u, objs[1], '_txLock'), 'connections share no state')
    if note: u.prove(o.get('notifyCallback') is given[0], 'the given notification handler')
    else: u.prove(harmless(u, o.get('notifyCallback')), 'without a notification handler notifications are ignored')
    if fatal: u.prove(o.get('fatalErrorCallback') is given[1], 'the given error handler')
    else: u.prove(harmless(u, o.get('fatalErrorCallback')), 'without an error handler errors are ignored')


class Life:
    """a connection, its port and its reader thread; what happens to them, in order"""
    def __init__(self, u, running):
        self.u, self.trace = u, []
        self.port, self.baud = anychars(u, 'port')[0], u.int('baud', 1)
        hooks = u.c.anchors.setdefault('construct', {})
        hooks[serial.Serial] = self.open
        hooks[threading.Thread] = self.thread
        self.serial = Port(close=lambda I, a, k: self.closing())
        self.daemon = None
        self.obj = VolObj(S.SerialComms, dict(port=self.port, baudrate=self.baud, alive=running, serial=self.serial if running else None, rxThread=self.reader() if running else None))

    def open(self, I, a, k):
        a = dict(zip(('port', 'baudrate'), a), **k)
        self.u.prove(a.get('port') is self.port and a.get('baudrate') is self.baud, 'the given port and speed')
        t = a.get('timeout')
        self.u.prove(t is not None and truth_of(self.u, cmp('>', t, 0)), 'reads end after a while, so that the reader notices that it is to stop')
        self.trace.append('open')
        return self.serial

    def thread(self, I, a, k):
        a = dict(zip(('group', 'target', 'name'), a), **k)
        t = a.get('target')
        if not (isinstance(t, Bound) and t.obj is self.obj and t.fn is S.SerialComms._readLoop): raise Unsupported('a thread that does something else')
        if 'daemon' in a: self.daemon = a['daemon']
        self.t = self.reader()
        return self.t

    def reader(self):
        w = self

        class T:
            vtype = threading.Thread
            def vsetattr(s, I, n, v):
                if n == 'daemon': w.daemon = v
            def vgetattr(s, I, n):
                if n == 'start': return Model('Thread.start', lambda I, a, k: w.start())
                if n == 'join': return Model('Thread.join', lambda I, a, k: w.join(a, k))
                if n == 'setDaemon': return Model('Thread.setDaemon', lambda I, a, k: setattr(w, 'daemon', a[0]))
                raise Unsupported('Thread.' + n)
        return T()

    def start(self):
        u = self.u
        u.prove(self.trace == ['open'] and self.obj.get('serial') is self.serial, 'the port is open when the reader starts')
        u.prove(truth_of(u, self.obj.get('alive')), 'the reader is not told to stop when it starts')
        u.prove(self.daemon is True, 'the reader does not keep the program from ending')
        self.trace.append('start')

    def join(self, a, k):
        u = self.u
        u.prove(not a and not k, 'waits until the reader has stopped, however long it takes')
        u.prove(not truth_of(u, self.obj.get('alive')), 'the reader is asked to stop before it is waited for')
        self.trace.append('join')

    def closing(self): self.trace.append('close')


def truth_of(u, v): return u.branch(u.I.truth_cond(v))


@unit('C13', C + 'connect', 'opens the port once, then starts one reader')
def _(u):
    w = Life(u, False)
    u.returns(u.call(w.obj))
    u.replay('lifecycle', lambda ev: 0)
    u.prove(w.trace == ['open', 'start'], 'opened once, then one reader started')
    u.prove(w.obj.get('serial') is w.serial and w.obj.get('rxThread') is w.t, 'the port and the reader are remembered')


@unit('C13', C + 'close', 'asks the reader to stop, waits for it, closes the port')
def _(u):
    w = Life(u, True)
    u.replay('lifecycle', lambda ev: 0)
    u.returns(u.call(w.obj))
    u.prove(w.trace == ['join', 'close'], 'the reader is waited for, then the port is closed, once')
    u.prove(not truth_of(u, w.obj.get('alive')), 'the connection is marked as stopped')


@unit('C15', 'gsmmodem.modem.ReceivedSms.reply', 'the text goes to the sender')
def _(u):
    number, text, answer, sent = anychars(u, 'number')[0], anychars(u, 'text')[0], Opaque('sent message'), []
    fails = u.c.choice([None, None])

    def send(I, a, k):
        a = dict(zip(('destination', 'text', 'waitForDeliveryReport', 'deliveryTimeout', 'sendFlash'), a), **k)
        u.prove(not sent, 'sent once')
        sent.append(a)
        u.prove_eq(a.get('destination'), number, 'to the sender')
        u.prove_eq(a.get('text'), text, 'the given text')
        u.prove(not a.get('waitForDeliveryReport', False) and not a.get('sendFlash', False), 'an ordinary message')
        if fails: throw(S.TimeoutException)
        return answer

    class Sender:
        def vgetattr(s, I, n):
            if n != 'sendSms': raise Unsupported('GsmModem.' + n)
            return Model('sendSms', send)
    o = VObj(GM.ReceivedSms, dict(number=number, _gsmModem=Sender()))
    u.replay('reply', lambda ev: (''.join(ev(number)) or '1', ev(text)))
    r = u.call(o, text)
    u.prove(len(sent) == 1, 'a message is sent')
    if fails: u.raises(r, S.TimeoutException)
    else: u.returns(r); u.prove(r is answer, 'the sent message is returned')


# -- a new modem --------------------------------------------------------------------------------------------------------------------
HANDLERS = [('incomingCallCallbackFunc', 'incomingCallCallback'), ('smsReceivedCallbackFunc', 'smsReceivedCallback'), ('smsStatusReportCallback', 'smsStatusReportCallback')]


def new_modem(u, handler=None):
    """a modem as the constructor makes it: given a handler or not; the other handlers do not matter"""
    hooks = u.c.anchors.setdefault('construct', {})
    hooks[threading.RLock] = lambda I, a, k: Lock()
    hooks[weakref.WeakValueDictionary] = lambda I, a, k: NewMap(a, k)
    kw = {n: Model(n, lambda I, a, k: None) for n, _ in HANDLERS if n != handler}
    given = Model('handler', lambda I, a, k: None) if handler and u.c.choice([None, None]) else None
    if given: kw[handler] = given
    u.replay('new_modem', lambda ev: 0)
    o = u.returns(u.call_other(GM.GsmModem, anychars(u, 'port')[0], u.int('baud', 1), **kw))
    if isinstance(o, Raised): raise PathEnd()
    if handler:
        f = o.get(dict(HANDLERS)[handler])
        if given: u.prove(f is given, 'the given handler')
        else: u.prove(harmless(u, f), 'without a handler nothing is called')
    return o


class NewMap:
    """a weak dictionary that has just been made"""
    vtype = weakref.WeakValueDictionary
    def __init__(self, a, k): self.empty = not a and not k
    def vlen(self): return 0 if self.empty else ctx().fresh_int('len', 0)
    def vtruth(self): return self.vlen() != 0


def attr(u, o, n):
    """the attribute of the new object (a constructor that no longer sets it: other names, other representation)"""
    if not o.has(n): raise Unsupported('attribute %s is not part of the modelled state' % n)
    return o.get(n)


@unit('C12', M + '__init__', 'a new modem does not wait for less than no time after commands')
def _(u):
    o = new_modem(u)
    u.prove(models.compare(u.I, ast.GtE(), attr(u, o, '_writeWait'), 0), 'the wait after commands is not negative')


@unit('C15', M + '__init__', 'the first reference of a new modem is within 0-255; nothing has been sent')
def _(u):
    o = new_modem(u)
    r = attr(u, o, '_smsRef')
    u.prove(models.compare(u.I, ast.GtE(), r, 0), 'not below 0')
    u.prove(models.compare(u.I, ast.LtE(), r, 255), 'not above 255')
    u.prove(not truth_of(u, attr(u, o, 'sentSms')), 'no message is waiting for its report')


@unit('C16', M + '__init__', 'reports go to the given handler; nobody waits for one')
def _(u):
    o = new_modem(u, 'smsStatusReportCallback')
    u.prove(not truth_of(u, attr(u, o, '_smsStatusReportEvent')), 'nobody waits for a report')


@unit('C18', M + '__init__', 'incoming calls go to the given handler; there are no calls, and nobody waits for one')
def _(u):
    o = new_modem(u, 'incomingCallCallbackFunc')
    u.prove(not truth_of(u, attr(u, o, 'activeCalls')), 'no calls')
    u.prove(not truth_of(u, attr(u, o, '_dialEvent')), 'nobody is dialling')


@unit('C20', M + '__init__', 'nobody waits for a USSD answer')
def _(u):
    o = new_modem(u)
    u.prove(not truth_of(u, attr(u, o, '_ussdSessionEvent')), 'no session is waited for')


@unit('C23', M + '__init__', 'notifications go to the dispatcher of this modem; messages to the given handler')
def _(u):
    o = new_modem(u, 'smsReceivedCallbackFunc')
    f = attr(u, o, 'notifyCallback')
    u.prove(isinstance(f, Bound) and f.obj is o and f.fn is GM.GsmModem._handleModemNotification, 'the dispatcher of this modem')
