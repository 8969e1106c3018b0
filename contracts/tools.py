"""The command line tools (C30): sendsms, identify-modem, gsmterm."""
import argparse
import builtins
import sys
from .modem import *
from .editor import T as TERM

SEND, IDENT, START = 'sendsms.', 'identify-modem.', 'gsmterm.'


def cli(u, **kinds):
    """what the user's arguments may be"""
    class Args:
        def vgetattr(self, I, n):
            if n in d: return d[n]
            raise Unsupported('argument ' + n)
    d = {}
    for n, k in kinds.items():
        if k == 'text': d[n] = anychars(u, n)[0]
        elif k == 'maybe': d[n] = anychars(u, n)[0] if u.c.choice([None, None]) else None
        elif k == 'flag': d[n] = u.c.choice([None, None]) == 0
        else: d[n] = Opaque(n)
    o = Args()
    o.d = d
    return o


class Screen:
    """stderr, stdout"""
    def __init__(self, w): self.w = w
    def vgetattr(self, I, n):
        if n == 'write': return Model('write', lambda I, a, k: self.w.err.append(a[0]))
        if n == 'flush': return Model('flush', lambda I, a, k: None)
        raise Unsupported('stream.' + n)


class Tool:
    """the environment of a tool: its arguments, the modem, the user; what happens, in order"""
    connecting = [X.PinRequiredError, X.IncorrectPinError, X.PukRequiredError, X.CmeError, X.TimeoutException, serial.SerialException]

    def __init__(self, u, args):
        self.u, self.args, self.log, self.shown, self.err, self.parsed = u, args, [], [], [], 0
        hooks = u.c.anchors.setdefault('construct', {})
        hooks[GM.GsmModem] = self.make
        hooks[builtins.input] = self.input
        u.c.anchors['print'] = self.show
        u.c.anchors['stand_in'] = [(sys.stderr, Screen(self)), (sys.stdout, Screen(self))]
        u.c.anchors['world'] = self
        self.exc = None
        self.modem = None
        self.text = anychars(u, 'typed')[0]

    def arguments(self):
        self.parsed += 1
        self.u.prove(self.parsed == 1, 'the arguments are read once')
        return self.args

    def make(self, I, a, k):
        u = self.u
        a = dict(zip(('port', 'baudrate'), a), **k)
        u.prove(not self.log, 'one modem')
        u.prove_eq(a.get('port'), self.args.d['port'], 'the port given')
        u.prove(a.get('baudrate') is self.args.d['baud'], 'the speed given')
        self.log.append('modem')
        self.modem = Handle(self)
        return self.modem

    def input(self, I, a, k):
        self.log.append('input')
        return self.text

    def show(self, a, k):
        if isinstance(k.get('file'), Screen): self.err.append(a)
        else: self.shown.append((len(self.log), a))

    def told(self, since):
        """something was said after the since-th event"""
        return bool(self.err) or any(n >= since for n, a in self.shown)

    def fail(self, cls):
        if cls: self.exc = VObj(cls, dict(args=(), data=None, command=None, type=None, code=None)); raise PyExc(self.exc)

    def connect(self, a, k):
        a = dict(zip(('pin', 'waitingForModemToStartInSeconds'), a), **k)
        u = self.u
        u.prove(self.log == ['modem'], 'connects first')
        pin = self.args.d['pin']
        u.prove(a.get('pin') is None if pin is None else a.get('pin') is not None and val_eq(a['pin'], pin), 'with the PIN given')
        self.log.append('connect')
        self.fail(([None] + self.connecting)[u.c.choice([None] * (1 + len(self.connecting)))])

    def coverage(self, a, k):
        u = self.u
        u.prove('connect' in self.log and 'close' not in self.log, 'asks a connected modem')
        self.log.append('coverage')
        l = [None, X.TimeoutException, X.InvalidStateException, X.CommandError]
        self.fail(l[u.c.choice([None] * len(l))])

    def send(self, a, k):
        u = self.u
        a = dict(zip(('destination', 'text', 'waitForDeliveryReport', 'deliveryTimeout', 'sendFlash'), a), **k)
        u.prove('send' not in self.log, 'sent at most once')
        u.prove('coverage' in self.log and 'close' not in self.log and self.exc is None, 'sent only by a connected modem that has coverage')
        u.prove_eq(a.get('destination'), self.args.d['destination'], 'to the destination given')
        u.prove_eq(a.get('text'), self.text, 'the text typed')
        u.prove(u.branch(u.I.truth_cond(a.get('waitForDeliveryReport', False))) == self.args.d['deliver'], 'waits for a delivery report exactly if asked to')
        u.prove(not a.get('sendFlash'), 'not a flash message')
        self.log.append('send')
        l = [None, X.TimeoutException, X.CommandError, ValueError]
        self.fail(l[u.c.choice([None] * len(l))])
        self.report = None
        if u.c.choice([None, None]):
            self.report = VObj(GM.StatusReport, dict(deliveryStatus=u.int('status', 0))); self.report.partial = True
        o = VObj(GM.SentSms, dict(report=self.report, number=a['destination'], text=a['text'], reference=u.int('reference', 0, 255)))
        o.partial = True
        return o

    def close(self, a, k):
        self.u.prove('connect' in self.log and 'close' not in self.log, 'closed once, after it was connected')
        self.log.append('close')

    def words(self, since):
        """what was shown after the since-th event"""
        out = ''
        for n, a in self.shown:
            if n < since: continue
            for x in a:
                if not isinstance(x, str): raise Unsupported('text shown')
                out += x + '\n'
        return out.lower()


class Handle:
    """the modem as a tool sees it"""
    vtype = GM.GsmModem
    METHODS = dict(connect='connect', waitForNetworkCoverage='coverage', sendSms='send', close='close', write='ask')
    def __init__(self, w): self.w = w
    def vtruth(self): return True
    def vgetattr(self, I, n):
        w = self.w
        if n in self.METHODS and hasattr(w, self.METHODS[n]):
            f = getattr(w, self.METHODS[n])
            return Model(n, lambda I, a, k: f(a, k))
        if hasattr(w, 'fact'): return w.fact(n)
        raise Unsupported('modem.' + n)


@contract('sendsms.parseArgs', SEND + 'parseArgs', proved_by=[SEND + 'parseArgs'])
def _(I, args, kwargs): return ctx().anchors['world'].arguments()


@contract('identify-modem.parseArgs', IDENT + 'parseArgs', proved_by=[IDENT + 'parseArgs'])
def _(I, args, kwargs): return ctx().anchors['world'].arguments()


@contract('gsmterm.parseArgs', START + 'parseArgs', proved_by=[START + 'parseArgs'])
def _(I, args, kwargs): return ctx().anchors['world'].arguments()


def exits(u, r, what):
    u.prove(isinstance(r, Raised) and r.cls is SystemExit, what + ': exits')
    if isinstance(r, Raised) and r.cls is SystemExit:
        a = r.obj.get('args')
        u.prove(len(a) == 1 and isinstance(a[0], int) and a[0] == 1, what + ': with status 1')


@unit('C30', SEND + 'main', 'sends what was typed to the destination given, once, or tells that it did not', uses=('sendsms.parseArgs',))
def _(u):
    w = Tool(u, cli(u, port='maybe', baud='any', pin='maybe', deliver='flag', destination='text'))
    u.replay('sendsms', lambda ev: 0)
    r = u.call()
    log, exc = w.log, w.exc
    if w.args.d['port'] is None:
        u.prove(not log, 'nothing happens without a port'); exits(u, r, 'no port'); u.prove(w.told(0), 'no port: tells it'); return
    u.prove(log[:2] == ['modem', 'connect'], 'connects')
    if log[-1:] == ['connect'] and exc is not None:
        if exc.cls in (X.PinRequiredError, X.IncorrectPinError): exits(u, r, 'PIN missing or wrong'); u.prove(w.told(2), 'PIN missing or wrong: tells it')
        else: u.prove(isinstance(r, Raised) and r.obj is exc, 'another failure to connect is not hidden')
        return
    u.prove(log[2:3] == ['coverage'], 'makes sure of network coverage')
    if 'send' not in log:
        u.prove(exc is not None, 'sends, if there is coverage')
        if exc is None: return
        if exc.cls is X.TimeoutException:
            exits(u, r, 'no coverage'); u.prove(log == ['modem', 'connect', 'coverage', 'close'], 'no coverage: the modem is closed'); u.prove(w.told(3), 'no coverage: tells it')
        else: u.prove(isinstance(r, Raised) and r.obj is exc, 'another failure is not hidden')
        return
    u.prove([x for x in log if x != 'close'] == ['modem', 'connect', 'coverage', 'input', 'send'], 'the message is typed once there is coverage, then sent')
    said = w.words(5)
    if exc is not None:
        if exc.cls is X.TimeoutException:
            exits(u, r, 'sending timed out'); u.prove(log[-1] == 'close', 'sending timed out: the modem is closed'); u.prove(w.told(5), 'sending timed out: tells it')
        else: u.prove(isinstance(r, Raised) and r.obj is exc, 'another failure to send is not hidden')
        return
    u.returns(r)
    u.prove(log[-1] == 'close', 'the modem is closed')
    u.prove('sent' in said, 'tells that the message was sent')
    if w.report is None: u.prove('deliver' not in said, 'nothing is said about delivery without a report')
    elif u.branch(cmp('==', w.report.get('deliveryStatus'), GM.StatusReport.DELIVERED)): u.prove('delivered' in said and 'fail' not in said, 'tells that the message was delivered')
    else: u.prove('fail' in said, 'tells that the delivery failed')


class Asking(Tool):
    """the modem is only asked"""
    def __init__(self, u, args):
        super().__init__(u, args)
        self.asked, self.known = [], {}

    def answer(self, q):
        self.u.prove(self.log[:2] == ['modem', 'connect'] and self.exc is None and 'close' not in self.log, 'asks a connected modem')
        o = Opaque(q)
        self.asked.append((q, o))
        return o

    def fact(self, n):
        if n not in ('manufacturer', 'model', 'revision', 'imei', 'imsi', 'networkName', 'signalStrength', 'supportedCommands', 'smsc', 'smsTextMode'): raise Unsupported('modem.' + n)
        if n not in self.known:
            o = self.answer(n)
            self.known[n] = None if n in ('revision', 'imei', 'imsi') and ctx().choice([None, None]) else o
        return self.known[n]

    def ask(self, a, k):
        a = dict(zip(('data', 'waitForResponse', 'timeout', 'parseError', 'writeTerm', 'expectedResponseTermSeq'), a), **k)
        u = self.u
        if not isinstance(a.get('data'), str): raise Unsupported('command')
        u.prove(a.get('waitForResponse', True) is True and a.get('parseError', True) is False, 'an error answer is an answer')
        q = a['data'].upper()
        u.prove(q.startswith('AT') and ('=' not in q or q.endswith('=?')), 'only questions')
        return self.answer(a['data'])


FACTS = ['imei', 'imsi', 'manufacturer', 'model', 'networkName', 'revision', 'signalStrength']


@unit('C30', IDENT + 'main', 'asks the modem and shows its answers', uses=('identify-modem.parseArgs',))
def _(u):
    w = Asking(u, cli(u, port='text', baud='any', pin='maybe', debug='flag'))
    u.replay('identify_tool', lambda ev: 0)
    r = u.call()
    u.prove(w.log[:2] == ['modem', 'connect'], 'connects')
    if w.exc is not None:
        if w.exc.cls in (X.PinRequiredError, X.IncorrectPinError): exits(u, r, 'PIN missing or wrong'); u.prove(w.told(2), 'PIN missing or wrong: tells it')
        else: u.prove(isinstance(r, Raised) and r.obj is w.exc, 'another failure to connect is not hidden')
        u.prove(not w.asked, 'nothing is asked of a modem that is not connected')
        return
    u.returns(r)
    shown = [x for n, a in w.shown for x in a]
    for q, o in w.asked:
        u.prove(any(x is o for x in shown) or any(x == 'N/A' for x in shown) and q in ('revision', 'imei', 'imsi'), 'every answer is shown')
    if w.args.d['debug']:
        for q in ('ATI', 'AT+CGMI', 'AT+CGMM', 'AT+CGMR', 'AT+CFUN=?', 'AT+WIND=?', 'AT+WIND?', 'AT+CPMS=?', 'AT+CNMI=?', 'AT+CVHU=?', 'AT+CSMP?', 'AT+GCAP', 'AT+CPIN?', 'AT+CLAC'):
            u.prove(any(x[0] == q for x in w.asked), 'asks %s' % q)
    else: u.prove(sorted(set(x[0] for x in w.asked)) == FACTS, 'the facts about the modem')


@unit('C30', START + 'main', 'starts the terminal asked for and returns when its connection has ended', uses=('gsmterm.parseArgs',))
def _(u):
    w = Tool(u, cli(u, port='text', baud='any', raw='flag'))
    u.replay('terminal_tool', lambda ev: 0)
    trace = []

    class Thread:
        def vgetattr(self, I, n):
            if n == 'join': return Model('join', lambda I, a, k: (u.prove(not a and not k, 'however long it takes'), trace.append('join')) and None)
            raise Unsupported('Thread.' + n)

    class Terminal:
        def vtruth(self): return True
        def vgetattr(self, I, n):
            if n == 'start': return Model('start', lambda I, a, k: trace.append('start'))
            if n == 'rxThread':
                if 'start' not in trace: throw(AttributeError, 'rxThread')
                return Thread()
            raise Unsupported('terminal.' + n)

    def make(name):
        def f(I, a, k):
            a = dict(zip(('port', 'baudrate'), a), **k)
            u.prove_eq(a.get('port'), w.args.d['port'], 'the port given')
            u.prove(a.get('baudrate') is w.args.d['baud'], 'the speed given')
            trace.append(name)
            return Terminal()
        return f
    hooks = u.c.anchors['construct']
    hooks[TERM.GsmTerm], hooks[TERM.RawTerm] = make('GsmTerm'), make('RawTerm')
    u.returns(u.call())
    u.prove(trace == ['RawTerm' if w.args.d['raw'] else 'GsmTerm', 'start', 'join'], 'the terminal asked for is started and waited for')


OPTIONS = {SEND: dict(port='-i', baud='-b', pin='-p', deliver='-d', destination=None), IDENT: dict(port=None, baud='-b', pin='-p', debug='-d'), START: dict(port=None, baud='-b', raw='-r')}
LONG = dict(port='--port', baud='--baud', pin='--pin', deliver='--deliver', debug='--debug', raw='--raw')

for _tool, _spec in OPTIONS.items():
    @unit('C30', _tool + 'parseArgs', 'what the user can say')
    def _(u, tool=_tool, spec=_spec):
        parser = argparse.ArgumentParser()
        u.replay({SEND: 'sendsms', IDENT: 'identify_tool', START: 'terminal_tool'}[tool], lambda ev: 0)
        result = Opaque('arguments')

        class Parser:
            def vgetattr(self, I, n):
                if n == 'add_argument': return Model(n, add)
                if n == 'parse_args': return Model(n, parse)
                raise Unsupported('parser.' + n)

        def add(I, a, k):
            if not all(isinstance(x, (str, int, type(None), bool)) for x in list(a) + list(k.values())): raise Unsupported('argument of a kind of its own')
            parser.add_argument(*a, **k)       # the library's reading of the declaration
            return None

        def parse(I, a, k):
            if a or k: raise Unsupported('other arguments than those of the command line')
            return result
        u.c.anchors.setdefault('construct', {})[argparse.ArgumentParser] = lambda I, a, k: Parser()
        r = u.returns(u.call())
        u.prove(r is result, 'the arguments read')
        acts = {x.dest: x for x in parser._actions if x.dest != 'help'}
        u.prove(set(spec) <= set(acts) and all(not x.required for d, x in acts.items() if d not in spec), 'the arguments the tool has')
        for d, flag in spec.items():
            x = acts.get(d)
            if x is None: continue
            if flag is None: u.prove(not x.option_strings and x.required and x.nargs is None and x.type is None, '%s: to be given' % d)
            else:
                u.prove(flag in x.option_strings and LONG[d] in x.option_strings and not x.required, '%s: an option' % d)
                if d in ('deliver', 'debug', 'raw'): u.prove(x.nargs == 0 and x.const is True and not x.default, '%s: a flag, off unless given' % d)
                elif d == 'baud': u.prove(x.nargs is None and x.type in (None, int) and int(x.default) == 115200, '%s: 115200 unless given' % d)
                else: u.prove(x.nargs is None and x.type is None and x.default is None, '%s: nothing unless given' % d)
