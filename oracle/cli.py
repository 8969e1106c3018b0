"""The command line tools (C30) run for real, with the methods of the modem replaced by stand-ins that record their calls."""
import builtins, importlib, io, sys
from .modems import *
from .term import terminal
import gsmmodem.modem as GM


class Failure(Exception): pass


class Owner: pass


OWNER = Owner()


EXC = {'pin': lambda: X.PinRequiredError('AT+CPIN'), 'wrong': lambda: X.IncorrectPinError('AT+CPIN'), 'timeout': lambda: TimeoutException(), 'cme': lambda: X.CmeError('AT', 10), 'cms': lambda: CmsError('AT', 500),
       'other': lambda: Failure()}


def run_tool(name, argv, methods, typed=''):
    """-> (exit status or None | exception, stdout, stderr)"""
    try: mod = importlib.import_module(name)
    except ImportError: raise Skip()
    old = {}
    real = sys.argv, sys.stdout, sys.stderr, sys.stdin, builtins.input
    ask = methods.pop('input', None)
    for n, f in methods.items():
        old[n] = GM.GsmModem.__dict__.get(n)
        setattr(GM.GsmModem, n, f)
    sys.argv, sys.stdout, sys.stderr, sys.stdin = [name] + list(argv), io.StringIO(), io.StringIO(), io.StringIO(typed + '\n')
    asked = []

    def typing(prompt=''):
        if ask: ask()
        sys.stdout.write(prompt)
        return typed
    builtins.input = typing
    raw = getattr(mod, 'raw_input', None)
    if raw is real[4]: mod.raw_input = typing
    try:
        try: mod.main(); r = None
        except SystemExit as e: r = e.code
        except Exception as e: r = e
        return r, sys.stdout.getvalue(), sys.stderr.getvalue()
    finally:
        if raw is not None: mod.raw_input = raw
        sys.argv, sys.stdout, sys.stderr, sys.stdin, builtins.input = real
        for n, f in old.items():
            if f is None: delattr(GM.GsmModem, n)
            else: setattr(GM.GsmModem, n, f)


def base_methods(log, connect=None):
    def init(self, port, baudrate=115200, *a, **k): log.append(('modem', port, int(baudrate)))

    def conn(self, pin=None, waitingForModemToStartInSeconds=0):
        log.append(('connect', pin))
        if connect: raise EXC[connect]()

    def close(self): log.append(('close',))
    return dict(__init__=init, connect=conn, close=close)


def args(port, baud, pin, flag, rest, long):
    out = []
    if port is not None: out += ['--port' if long else '-i', port]
    if baud is not None: out += ['--baud' if long else '-b', str(baud)]
    if pin is not None: out += ['--pin' if long else '-p', pin]
    if flag: out += [flag]
    return out + rest


def rsend(r):
    return dict(port=r.choice(('/dev/ttyX', 'COM3', '/dev/ttyX', None)), baud=r.choice((None, 9600)), pin=r.choice((None, '1234', '0000')), deliver=r.random() < .5, to=r.choice(('+27123', '0821', '1')), long=r.random() < .3,
                connect=r.choice((None, None, None, None, 'pin', 'wrong', 'timeout', 'cme')), coverage=r.choice((None, None, None, 'timeout', 'other')), typed=r.choice(('hello', ' two  words ', '', 'x' * 200, '\u20ac {0}', '%s')),
                send=r.choice((None, None, None, 'timeout', 'cms')), report=r.choice((None, 0, 1, 2, 3, 70)))


def send_cases():
    d = dict(port='/dev/ttyX', baud=None, pin=None, deliver=False, to='123', long=False, connect=None, coverage=None, typed='hi', send=None, report=None)
    return [dict(d, **x) for x in ([dict(), dict(typed='  in the middle  '), dict(port=None), dict(pin='1234', baud=9600, deliver=True), dict(connect='pin'), dict(connect='wrong', pin='1'), dict(connect='cme'), dict(coverage='timeout'), dict(coverage='other'),
                                    dict(send='timeout', deliver=True), dict(send='cms'), dict(long=True, pin='9', baud=300)] + [dict(report=s, deliver=True) for s in (0, 1, 2, 48, 70, None)])]


@case('C30', fixed=send_cases, gen=rsend)
@checked
def sendsms(o):
    if not isinstance(o, dict): o = send_cases()[0]
    log = []
    m = base_methods(log, o['connect'])

    def coverage(self, timeout=None):
        log.append(('coverage',))
        if o['coverage']: raise EXC[o['coverage']]()
        return 5

    def send(self, destination, text, waitForDeliveryReport=False, deliveryTimeout=15, sendFlash=False):
        log.append(('send', destination, text, bool(waitForDeliveryReport), bool(sendFlash)))
        if o['send']: raise EXC[o['send']]()
        rep = None
        if o['report'] is not None: rep = GM.StatusReport(OWNER, 0, 5, destination, None, None, o['report'])
        s = GM.SentSms(destination, text, 5, None)
        s.report = rep
        return s
    m.update(waitForNetworkCoverage=coverage, sendSms=send, input=lambda: log.append(('input',)))
    r, out, err = run_tool('sendsms', args(o['port'], o['baud'], o['pin'], ('--deliver' if o['long'] else '-d') if o['deliver'] else None, [o['to']], o['long']), m, o['typed'])
    want = [('modem', o['port'], o['baud'] or 115200), ('connect', o['pin'])]
    sent = ('send', o['to'], o['typed'], o['deliver'], False)
    if o['port'] is None: eq((r, log, bool(err or out)), (1, [], True), 'without a port: exit status, what happened, and an error message'); return
    eq(log[:2], want, 'connecting')
    if o['connect']:
        eq(log, want, 'what happened after connecting failed')
        if o['connect'] in ('pin', 'wrong'): eq((r, bool(err or out.rstrip().rpartition('onnecting')[2].partition('\n')[2])), (1, True), 'exit status when the PIN is missing or wrong, and an error message')
        else: expect(isinstance(r, Exception), 'a failure to connect is hidden')
        return
    eq(log[2:3], [('coverage',)], 'asked after connecting')
    if o['coverage'] == 'timeout': eq((r, log[3:]), (1, [('close',)]), 'exit status and what happened without coverage'); return
    if o['coverage']: expect(isinstance(r, Failure) and sent not in log, 'an error is hidden'); return
    eq([x for x in log[3:] if x != ('close',)], [('input',), sent], 'what was typed and sent')
    said = out[out.lower().rfind('sending'):].lower()
    if o['send'] == 'timeout': eq((r, log[-1:], bool(said.partition('\n')[2].strip() or err)), (1, [('close',)], True), 'exit status, last step and message when sending times out'); return
    if o['send']: expect(isinstance(r, CmsError), 'an error of sending is hidden'); return
    eq((r, log[-1], log.count(('close',))), (None, ('close',), 1), 'exit status and closing after sending')
    said = said.split('\n', 1)[1]
    expect('sent' in said, 'it is not told that the message was sent: %r' % said)
    if o['report'] is None: expect('deliver' not in said, 'delivery is mentioned without a report: %r' % said)
    elif o['report'] == GM.StatusReport.DELIVERED: expect('delivered' in said and 'fail' not in said, 'delivery is not told: %r' % said)
    else: expect('fail' in said, 'a failed delivery is not told: %r' % said)


VALUES = dict(manufacturer='ACME corp', model='M-17', revision='rev 9z', imei='356938035643809', imsi='310150123456789', networkName='Net 77', signalStrength=23)
QUESTIONS = ('ATI', 'AT+CGMI', 'AT+CGMM', 'AT+CGMR', 'AT+CFUN=?', 'AT+WIND=?', 'AT+WIND?', 'AT+CPMS=?', 'AT+CNMI=?', 'AT+CVHU=?', 'AT+CSMP?', 'AT+GCAP', 'AT+CPIN?', 'AT+CLAC')


@case('C30', fixed=[('/dev/ttyX', b, p, d, l, c, n) for b in (None, 300) for p in (None, '1234') for d in (True, False) for l in (True, False) for c in (None, 'pin', 'wrong', 'timeout') for n in ((), ('revision',), ('imei', 'imsi'))])
@checked
def identify_tool(o):
    if not isinstance(o, tuple): o = ('/dev/ttyX', None, None, False, False, None, ())
    port, baud, pin, debug, long, connect, none = o
    log, asked = [], []
    m = base_methods(log, connect)

    def write(self, data, waitForResponse=True, timeout=5, parseError=True, writeTerm='\r', expectedResponseTermSeq=None):
        asked.append(data)
        eq((waitForResponse, parseError), (True, False), 'how %s is asked' % data)
        return ['answer %d to %s' % (len(asked), data), 'OK']

    def fact(n):
        def f(self):
            asked.append(n)
            return None if n in none else VALUES[n]
        return property(f)
    m.update(write=write, **{n: fact(n) for n in VALUES})
    r, out, err = run_tool('identify-modem', args(None, baud, pin, ('--debug' if long else '-d') if debug else None, [port], long), m)
    eq(log[:2], [('modem', port, baud or 115200), ('connect', pin)], 'connecting')
    if connect:
        eq(asked, [], 'asked of a modem that is not connected')
        if connect in ('pin', 'wrong'): eq((r, bool(err or out.rstrip().rpartition('onnecting')[2].partition('\n')[2])), (1, True), 'exit status when the PIN is missing or wrong, and an error message')
        else: expect(isinstance(r, Exception), 'a failure to connect is hidden')
        return
    eq(r, None, 'exit status')
    if debug:
        for q in asked: expect('=' not in q or q.endswith('=?'), '%s is not a question' % q)
        for q in QUESTIONS: expect(q in asked, '%s is not asked' % q)
        for i, q in enumerate(asked): expect('answer %d to %s' % (i + 1, q) in out, 'the answer to %s is not shown' % q)
    else:
        eq(sorted(set(asked)), sorted(VALUES), 'asked')
        for n, v in VALUES.items(): expect(str(v) in out or n in none, 'the %s is not shown: %r' % (n, out))
        for n in none: expect('N/A' in out, 'the missing %s is not shown as such' % n)


@case('C30', fixed=[(b, raw, l) for b in (None, 9600) for raw in (False, True) for l in (False, True)])
@checked
def terminal_tool(o):
    if not isinstance(o, tuple): o = (None, False, False)
    baud, raw, long = o
    T = terminal()
    log = []

    class Thread:
        def join(self, *a): log.append(('join',) + a)

    def init(name):
        def f(self, port, baudrate=115200, *a, **k): log.append((name, port, int(baudrate)))
        return f

    def start(self): log.append('start'); self.rxThread = Thread()
    saved = {(c, n): c.__dict__.get(n) for c in (T.RawTerm, T.GsmTerm) for n in ('__init__', 'start')}
    try:
        for c in (T.RawTerm, T.GsmTerm): c.__init__ = init(c.__name__); c.start = start
        r, out, err = run_tool('gsmterm', args(None, baud, None, ('--raw' if long else '-r') if raw else None, ['/dev/ttyY'], long), {})
    finally:
        for (c, n), f in saved.items():
            if f is None: delattr(c, n)
            else: setattr(c, n, f)
    eq((r, log), (None, [('RawTerm' if raw else 'GsmTerm', '/dev/ttyY', baud or 115200), 'start', ('join',)]), 'exit status and what happened')
