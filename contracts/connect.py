"""Connecting (C28): connect() is verified in five parts, cut at top-level statements of its body (assertions between them: what a
part guarantees at its end is what the next may assume; a part starts from an arbitrary state satisfying that)."""
import ast
from .settings import *

CONNECT = M + 'connect'
BASIC = ('ATZ', 'ATE0', 'AT+CFUN?', 'AT+CFUN=1', 'AT+CMEE=1')
FRESH = {k: v for k, v in GM.GsmModem('-- PORT --').__dict__.items() if v is None or isinstance(v, (bool, int, str))}


def mentions(text):
    """picks the statement with this text constant or attribute"""
    def pick(s):
        return any(isinstance(n, ast.Constant) and n.value == text or isinstance(n, ast.Attribute) and n.attr == text for n in ast.walk(s))
    return pick


IDENTIFY, MESSAGES, MEMORY, NOTIFY = mentions('supportedCommands'), mentions('AT+COPS=3,0'), mentions('AT+CPMS=?'), mentions('AT+CNMI=2,1,0,2')


@contract('unlockSim', M + '_unlockSim', proved_by=[M + '_unlockSim'])
def _(I, args, kwargs):
    return ctx().anchors['world'].unlock(*args, **kwargs)


class Setup(Modem):
    """a modem that has just been created (and configured); commands: the texts written, with their outcomes"""
    refused = [X.CommandError, X.CmeError, X.CmsError]
    broken = [X.TimeoutException, serial.SerialException]

    def __init__(self, u, **attrs):
        super().__init__(u, **dict(FRESH, alive=True, **attrs) if 'alive' not in attrs else dict(FRESH, **attrs))
        regexes(self.obj)
        self.obj.set('log', GM.GsmModem.log)
        self.exc, self.done = None, []

    def answer(self, data, a): return None

    def command(self, o, a):
        u = self.u
        u.prove(o is self.obj, 'the command goes to this modem')
        u.prove(a['waitForResponse'] is True, 'every command waits for its answer')
        d = a['data']
        if not is_str(d): raise Unsupported('command')
        self.before_command(d)
        self.log.append(a)
        self.errors = (self.refused if a['parseError'] is True else []) + self.broken
        self.done.append((d, False))
        r = self.answer(d, a)
        if r is None: r = self.outcome()
        self.done[-1] = (d, True)
        return r

    def before_command(self, d): pass

    def maybe_fail(self):
        w = ctx().choice([None] * (1 + len(self.errors)))
        self.exc = None
        if w: self.fail(self.errors[w - 1])

    def line_answer(self, prefix, line):
        """an answer with this line, which is the only one beginning so, in it"""
        self.maybe_fail()
        b, a = Rows(self.u, 'before', 0), Rows(self.u, 'after', 1)
        for r in (b, a):
            if r.first(('spec', prefix), starts(prefix)) is not None: raise PathEnd()
        return VList(b.seq + lit([line]) + a.seq)

    def index(self, text, last=True):
        """place of the last accepted command with this text, or None"""
        l = [i for i, (d, ok) in enumerate(self.done) if ok and isinstance(d, str) and d == text]
        return l[-1] if l else None

    def failed(self, r, *harmless):
        """the part ended with an exception: that of a command (not one of those that may be refused), passed on"""
        u = self.u
        self.passed_on(r, 'the error of a command is passed on')
        if isinstance(r, Raised) and issubclass(r.cls, X.CommandError):
            u.prove(not (self.done and self.done[-1][0] in harmless and not self.unlocking), 'the modem may refuse this command')
    unlocking = False


# -- opening the port, reset, PIN --------------------------------------------------------------------------------------------------
class Opening(Setup):
    def __init__(self, u):
        self.port, self.baud = anychars(u, 'port')[0], u.int('baud', 1)
        super().__init__(u, port=self.port, baudrate=self.baud, alive=False, serial=None, rxThread=None)
        self.pin = [lambda: None, lambda: anychars(u, 'pin')[0]][u.c.choice([None, None])]()
        self.opened = self.started = 0
        self.unlocked, self.cfun = [], None
        hooks = u.c.anchors.setdefault('construct', {})
        hooks[serial.Serial] = self.open
        hooks[threading.Thread] = self.thread

    def open(self, I, a, k):
        u = self.u
        a = dict(zip(('port', 'baudrate'), a), **k)
        u.prove(a.get('port') is self.port and a.get('baudrate') is self.baud, 'the given port and speed')
        u.prove(a.get('timeout') is not None, 'reads end after a while')
        self.opened += 1
        self.serial = Port()
        return self.serial

    def thread(self, I, a, k):
        a = dict(zip(('group', 'target', 'name'), a), **k)
        t = a.get('target')
        ok = isinstance(t, Bound) and t.obj is self.obj and t.fn is GM.GsmModem._readLoop
        if not ok: raise Unsupported('a thread that does something else')

        class T:
            vtype = threading.Thread
            def vsetattr(s, I, n, v): pass
            def vgetattr(s, I, n):
                if n != 'start': raise Unsupported('Thread.' + n)
                return Model('Thread.start', lambda I, a, k: self.start())
        return T()

    def start(self):
        u = self.u
        u.prove(self.opened == 1 and self.obj.get('serial') is self.serial, 'the port is open when the reader starts')
        u.prove(truth_of(u, self.obj.get('alive')), 'the reader is not told to stop when it starts')
        self.started += 1

    def before_command(self, d):
        self.u.prove(self.opened == 1 and self.started == 1, 'the port is open and being read when a command is written')
        if not self.unlocked: self.u.prove(isinstance(d, str) and d in BASIC, 'nothing that needs the SIM is written before it is unlocked')

    def unlock(self, o, pin):
        u = self.u
        u.prove(o is self.obj and pin is self.pin, 'the SIM of this modem, the given PIN')
        u.prove(not self.unlocked, 'the SIM is unlocked once')
        self.unlocked.append(len(self.done))
        l = [X.PinRequiredError, X.IncorrectPinError, X.PukRequiredError, X.CommandError] + self.broken
        w = ctx().choice([None] * (1 + len(l)))
        if w: self.unlocking = True; self.fail(l[w - 1])

    def answer(self, d, a):
        if d == 'AT+CFUN?':
            self.cfun = digits(self.u, 'cfun')[0]
            return self.line_answer('+CFUN:', cat('+CFUN: ', self.cfun))


def truth_of(u, v): return u.branch(u.I.truth_cond(v))


@unit('C28', CONNECT, 'opens the port, resets, unlocks the SIM once before anything that needs it', uses=('GsmModem.write', 'lineStartingWith', 'unlockSim'))
def _(u):
    w = Opening(u)
    r = u.segment([w.obj, w.pin], stop=IDENTIFY)
    if isinstance(r, Raised):
        first = [i for i, (d, ok) in enumerate(w.done) if d == 'ATZ'][:1] == [len(w.done) - 1]
        w.failed(r, 'AT+CFUN?', 'AT+CFUN=1', *(['ATZ'] if first and not w.unlocked else []))
        return
    u.prove(not isinstance(r, tuple), 'goes on')
    u.prove(w.opened == 1 and w.started == 1, 'the port is open and being read')
    u.prove(truth_of(u, w.obj.get('alive')), 'the modem is taken as connected')
    u.prove(len(w.unlocked) == 1, 'the SIM has been unlocked')
    z, e, m = w.index('ATZ'), w.index('ATE0'), w.index('AT+CMEE=1')
    u.prove(z is not None, 'the modem has been reset')
    u.prove(e is not None and z is not None and e > z, 'no echo after the reset')
    u.prove(m is not None and z is not None and m > z, 'error codes enabled after the reset')
    i = w.index('AT+CFUN?')
    if i is not None and not u.branch(cmp('==', models.int_of_str(None, w.cfun), 1)):
        u.prove(('AT+CFUN=1' in [d for d, ok in w.done]), 'the modem is switched to full functionality')


# -- which modem is it ---------------------------------------------------------------------------------------------------------------
class Listed:
    """the list of supported commands; what it holds is decided when asked"""
    def __init__(self): self.memo = {}
    def has(self, x):
        if x not in self.memo: self.memo[x] = ctx().fresh_bool('lists')
        return self.memo[x]
    def vcontains(self, I, x):
        if not isinstance(x, str): raise Unsupported('membership of an unknown command')
        return self.has(x)
    def veq(self, o): return self is o
    def vtruth(self): return True
    def vis_none(self): return False


class Maker:
    """the manufacturer's name"""
    def __init__(self, huawei): self.huawei = huawei
    def vgetattr(self, I, n):
        if n in ('lower', 'upper', 'strip', 'casefold'): return Model('str.' + n, lambda I, a, k: self)
        raise Unsupported('manufacturer.' + n)
    def veq(self, o):
        if isinstance(o, str) and o.lower() == 'huawei': return self.huawei
        raise Unsupported('comparison of the manufacturer')
    def vtruth(self): return True


@contract('supportedCommands', M + 'supportedCommands', proved_by=[M + 'supportedCommands'])
def _(I, args, kwargs): return ctx().anchors['world'].supported(args[0])


@contract('manufacturer', M + 'manufacturer', proved_by=[M + 'manufacturer'])
def _(I, args, kwargs): return ctx().anchors['world'].maker(args[0])


class Kind(Setup):
    def __init__(self, u):
        super().__init__(u)
        self.obj.set('_callStatusUpdates', VList())
        self.list = [lambda: None, Listed][u.c.choice([None, None])]()
        self.huawei = u.bool('huawei')
        self.asked, self.cls = [], {}
        u.c.anchors['classattr'] = lambda o, n, v: self.cls.__setitem__((o, n), v)

    def attempt(self, o, what):
        self.u.prove(o is self.obj, 'this modem')
        self.asked.append(what)
        w = ctx().choice([None] * 3)
        self.exc = None
        if w: self.fail(self.broken[w - 1])

    def supported(self, o): self.attempt(o, 'list'); return self.list
    def maker(self, o): self.attempt(o, 'maker'); return Maker(self.huawei)

    def answer(self, d, a):
        if d == 'AT+WIND?':
            self.wind = digits(self.u, 'wind')[0]
            return self.line_answer('+WIND:', cat('+WIND: ', self.wind))

    def lists(self, x): return self.list is not None and self.u.branch(self.list.has(x))

    def kind(self):
        """which modem the answers show"""
        u = self.u
        if self.lists('+WIND'): return 'wavecom'
        if self.list is None and self.index('AT+WIND?') is not None: return 'wavecom'
        if self.lists('+ZPAS'): return 'zte'
        if self.lists('^DTMF') and not self.lists('+VTS'): return 'huawei'
        if u.branch(self.huawei): return 'huawei'
        return 'zte' if self.index('AT+ZPAS?') is not None else 'other'


H = {n: GM.GsmModem.__dict__['_handleCall' + n] for n in ('Initiated', 'Answered', 'Ended', 'Rejected')}


def forms(u, kind):
    """call updates of each kind of modem: (parts, handler); digits are the groups"""
    d = lambda: mkstr(lit([u.int('d', 48, 57)]))
    ds = lambda: digits(u, 'ds')[0]
    if kind == 'huawei':
        return [(['^ORIG:', d(), ',', d()], 'Initiated'), (['^CONN:', d(), ',', d()], 'Answered'), (['^CEND:', d(), ',', ds(), ',', ds(), ',', ds()], 'Ended')]
    if kind == 'wavecom': return [(['+WIND: 5,', d()], 'Initiated'), (['OK'], 'Answered'), (['+WIND: 6,', d()], 'Ended')]
    if kind == 'zte': return [(['CONNECT'], 'Answered'), (['HANGUP: ', ds()], 'Ended'), (['OK'], 'Rejected')]
    return []


FLAGS = {'huawei': dict(_mustPollCallStatus=False, _waitForAtdResponse=True, _waitForCallInitUpdate=True), 'wavecom': dict(_mustPollCallStatus=False, _waitForAtdResponse=False, _waitForCallInitUpdate=True),
         'zte': dict(_mustPollCallStatus=False, _waitForAtdResponse=False, _waitForCallInitUpdate=False), 'other': dict(_mustPollCallStatus=True, _waitForAtdResponse=True, _waitForCallInitUpdate=True)}


@unit('C28', CONNECT, 'recognises the modem and expects its call updates', uses=('GsmModem.write', 'lineStartingWith', 'supportedCommands', 'manufacturer'), budget=120)
def _(u):
    w = Kind(u)
    r = u.segment([w.obj, None], start=IDENTIFY, stop=MESSAGES)
    if isinstance(r, Raised): w.failed(r, 'AT+WIND?', 'AT+ZPAS?'); return
    u.prove(not isinstance(r, tuple), 'goes on')
    kind = w.kind()
    for n, v in FLAGS[kind].items(): u.prove(w.obj.get(n) is v, '%s: %s' % (kind, n))
    if kind == 'wavecom' and w.index('AT+WIND?') is not None and not u.branch(cmp('==', models.int_of_str(None, w.wind), 50)):
        u.prove(w.index('AT+WIND=50') is not None, 'wavecom: call updates are switched on')
    if w.lists('^CVOICE'): u.prove('AT^CVOICE=0' in [d for d, ok in w.done], 'voice calls are switched on')
    if w.lists('^USSDMODE'): u.prove('AT^USSDMODE=0' in [d for d, ok in w.done], 'USSD in text')
    base = w.cls.get((GM.Call, 'DTMF_COMMAND_BASE'))
    if kind == 'huawei': u.prove_eq(base, '^DTMF={cid},', 'huawei: its tone syntax')
    else: u.prove(base is None, 'standard tone syntax')
    tones = w.lists('+VTS') or kind == 'huawei' or kind in ('wavecom', 'zte') and w.list is None
    u.prove((w.cls.get((GM.Call, 'dtmfSupport')) is True) == tones, 'tones are supported when the modem has a command for them')
    if kind == 'other':
        x = w.obj.get('_pollCallStatusRegex')
        u.prove(isinstance(x, re.Pattern), 'the expression for polling')
        return
    table = w.obj.get('_callStatusUpdates')
    table = u.I.list_items(table)
    for parts, handler in forms(u, kind):
        line = cat(*parts)
        for e in table:
            rx_, h = u.I.list_items(e)
            m = rx.match(rx_, line)
            if m is None: continue
            u.prove(isinstance(h, Bound) and h.obj is w.obj and h.fn is H[handler], '%s: %s goes to its handler' % (kind, parts[0]))
            groups = [p for p in parts if not isinstance(p, str)]
            got = rx_.groups
            u.prove(got == len(groups), '%s: %s with its fields' % (kind, parts[0]))
            for i, g in enumerate(groups[:got]): u.prove_eq(m.grp(i + 1), g, '%s: fields of %s' % (kind, parts[0]))
            break
        else: u.prove(False, '%s: %s is recognised' % (kind, parts[0]))


# -- message mode and service centre ---------------------------------------------------------------------------------------------------
class Number(Name):
    def veq(self, o):
        if o is None or o is self: return o is self
        if isinstance(o, Number): return False
        if is_str(o) and same_text(o, self): return True
        return unsupported('comparison of a number')


def same_text(a, b):
    a, b = str_seq(a), str_seq(b)
    return seq_same(a, b) or len(a.pieces) == len(b.pieces) and all(isinstance(x, Lit) == isinstance(y, Lit) and getattr(x, 'base', None) is getattr(y, 'base', None) for x, y in zip(a.pieces, b.pieces)) and ctx().entails(val_eq(mkstr(a), mkstr(b)))


class Centre(Setup):
    """centre: the service centre number the modem uses"""
    def __init__(self, u):
        self.given = [lambda: None, lambda: Number(u, 'given')][u.c.choice([None, None])]()
        self.own = [lambda: None, lambda: Number(u, 'own')][u.c.choice([None, None])]()
        self.centre = self.own
        self.mode = bool(u.c.choice([None, None]))
        super().__init__(u, _smscNumber=self.given, _smsTextMode=self.mode)

    def answer(self, d, a):
        if isinstance(d, str) and d == 'AT+CSMP=49,167,0,0':
            r = self.outcome()
            if ctx().choice([None, None]): self.centre = None       # some modems forget it
            return r
        if isinstance(d, str) and d == 'AT+CSCA?':
            if self.centre is None:
                if ctx().choice([None, None]): self.exc = None; self.fail(X.SmscNumberUnknownError)
                self.maybe_fail()
                rows = Rows(self.u, 'answer', 1)
                if rows.first(('spec', '+CSCA'), starts('+CSCA')) is not None: raise PathEnd()
                return VList(rows.seq)
            return self.line_answer('+CSCA', cat('+CSCA: "', self.centre, '",', digits(self.u, 'ton')[0]))
        if not isinstance(d, str):
            for n in (self.given, self.own):
                if n is not None and same_text(d, cat('AT+CSCA="', n, '"')):
                    r = self.outcome()
                    self.centre = n
                    return r
            self.u.prove(False, 'only the given or the previous service centre is set')


def clean(n):
    """a number: no comma, no quote"""
    if n is not None:
        b = n.seq.pieces[0].base
        b.constrain(lambda v, k: band(cmp('!=', v, 44), cmp('!=', v, 34), cmp('!=', v, 10)))
        ctx().assume(cmp('>=', seq_len(n.seq), 1))


@unit('C28', CONNECT, 'the configured message mode and service centre, or the modem\'s own service centre, are in force', uses=('GsmModem.write', 'lineMatching'), budget=120)
def _(u):
    w = Centre(u)
    clean(w.given); clean(w.own)
    r = u.segment([w.obj, None], start=MESSAGES, stop=MEMORY)
    if isinstance(r, Raised): w.failed(r); return
    u.prove(not isinstance(r, tuple), 'goes on')
    modes = [d for d, ok in w.done if ok and isinstance(d, str) and d.startswith('AT+CMGF')]
    u.prove(modes[-1:] == ['AT+CMGF=%d' % w.mode], 'the message mode is the configured one')
    u.prove(w.obj.get('_smsTextMode') is w.mode, 'the configured mode is unchanged')
    if w.given is not None: u.prove(w.centre is w.given, 'the given service centre is in force')
    elif w.own is not None: u.prove(w.centre is w.own, 'the modem\'s service centre is in force')
    known = w.obj.get('_smscNumber')
    if known is not None:
        u.prove(w.centre is not None, 'the number known is the one in force')
        if w.centre is not None: u.prove_eq(known, w.centre, 'the number known is the one in force')
    u.prove(w.index('AT+CSMP=49,167,0,0') is not None, 'status reports are asked for in text mode')
    want = VolObj(GM.GsmModem, dict(_smsTextMode=w.mode))
    regexes(want)
    u.call_other(GM.GsmModem._compileSmsRegexes, want)
    for n in sorted(vars(GM.GsmModem)):
        if vars(GM.GsmModem)[n] is None and want.get(n) is not None: u.prove(w.obj.get(n) is want.get(n), 'the expressions of the mode are compiled')


# -- memories and notifications ----------------------------------------------------------------------------------------------------------
PREFERRED = ('"ME"', '"SM"', '"SR"')


class Group:
    """the memories offered for one purpose"""
    def __init__(self, empty): self.empty, self.memo = empty, {}
    def has(self, x):
        if self.empty: return False
        if x not in self.memo: self.memo[x] = ctx().fresh_bool('offers')
        return self.memo[x]
    def vcontains(self, I, x):
        if not isinstance(x, str) or x not in PREFERRED: raise Unsupported('membership of another memory')
        return self.has(x)
    def vlen(self): return 0 if self.empty else ctx().fresh_int('len', 1)
    def vtruth(self): return not self.empty
    def veq(self, o): return (o == '' and self.empty) if o == '' else unsupported('comparison of offered memories')


class Offer(SStr):
    """+CPMS: (...),(...),(...)"""
    def __init__(self, w, seq): self.w, self.seq = w, seq
    def vgetattr(self, I, n):
        if n == 'split':
            def f(I, a, k):
                if list(a) not in ([' ', 1], [' ']): raise Unsupported('split of the offered memories')
                return VList(lit(['+CPMS:', Groups(self.w)]))
            return Model('str.split', f)
        raise Unsupported('offered memories: ' + n)


class Groups:
    def __init__(self, w): self.w = w
    def vgetattr(self, I, n):
        if n != 'split': raise Unsupported('offered memories: ' + n)
        def f(I, a, k):
            if list(a) != ['),(']: raise Unsupported('split of the offered memories')
            return VList(lit(list(self.w.groups)))
        return Model('str.split', f)


class Memories(Setup):
    def __init__(self, u):
        super().__init__(u)
        self.groups = [Group(bool(u.c.choice([None, None]))) for _ in range(1 + u.c.choice([None] * 3))]

    def answer(self, d, a):
        if isinstance(d, str) and d == 'AT+CPMS=?':
            self.maybe_fail()
            b, e = Rows(self.u, 'before', 0), Rows(self.u, 'after', 1)
            if b.first(('spec', '+CPMS'), starts('+CPMS')) is not None: raise PathEnd()
            return VList(b.seq + lit([Offer(self, str_seq(cat('+CPMS: ', anychars(self.u, 'offer')[0])))]) + e.seq)


@unit('C28', CONNECT, 'only memories the modem offers are selected', uses=('GsmModem.write', 'lineStartingWith'), budget=120, max_paths=20000)
def _(u):
    w = Memories(u)
    r = u.segment([w.obj, None], start=MEMORY, stop=NOTIFY)
    if isinstance(r, Raised): w.failed(r, 'AT+CPMS=?'); return
    u.prove(not isinstance(r, tuple), 'goes on')
    ok = w.index('AT+CPMS=?') is not None and not any(g.empty for g in w.groups)
    sets = [d for d, k in w.done if not isinstance(d, str) or d.startswith('AT+CPMS=') and d != 'AT+CPMS=?']
    u.prove(len(sets) == (1 if ok else 0), 'memories are selected once, when the modem offers some')
    u.prove(w.obj.get('_smsReadSupported') is ok, 'reading messages is unavailable exactly when the modem offers no memories')
    want = ['']
    if ok:
        want = []
        for g in w.groups: want.append(next((m for m in PREFERRED if u.branch(g.has(m))), ''))
        u.prove_eq(sets[0], 'AT+CPMS=' + ','.join(want), 'for each purpose the preferred memory of those offered')
    mem = w.obj.get('_smsMemReadDelete')
    if want[0]: u.prove_eq(mem, want[0], 'the memory in use is the one the modem was told')
    else: u.prove(mem is None, 'the memory in use is not known')


@unit('C28', CONNECT, 'notifications of messages and calls as far as the modem accepts them', uses=('GsmModem.write',))
def _(u):
    ok = bool(u.c.choice([None, None]))
    w = Setup(u, _smsReadSupported=ok, _callingLineIdentification=u.c.fresh_bool('earlier'))       # as an earlier connection left it
    r = u.segment([w.obj, None], start=NOTIFY)
    if isinstance(r, Raised): w.failed(r, 'AT+CNMI=2,1,0,2', 'AT+CLIP=1', 'AT+CRC=1', 'AT+CVHU=0'); return
    u.prove(not isinstance(r, tuple) or r[1] is None, 'connected')
    written = [d for d, k in w.done]
    if ok: u.prove('AT+CNMI=2,1,0,2' in written, 'message notifications are asked for')
    u.prove(w.obj.get('_smsReadSupported') is (ok and w.index('AT+CNMI=2,1,0,2') is not None), 'reading messages is available exactly when the modem offers memories and accepts to notify')
    u.prove('AT+CLIP=1' in written, 'caller numbers are asked for')
    u.prove(w.obj.get('_callingLineIdentification') is (w.index('AT+CLIP=1') is not None), 'caller numbers are expected when the modem accepted to send them')
    u.prove(w.obj.get('_extendedIncomingCallIndication') is (w.index('AT+CRC=1') is not None), 'extended ring indications are expected when the modem accepted to send them')
