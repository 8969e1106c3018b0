"""Sending messages (C15) and status reports (C16)."""
from .calls import *
import gsmmodem.pdu as PDU

# -- C15 -----------------------------------------------------------------------------------------------------------------------


class PduBaseSym(Base):
    """the PDUs of a message: their lengths and texts are arbitrary"""
    length = None
    name = 'pdus'

    def __init__(self, u, n):
        self.n, self.memo = n, {}
        self.tpdu = z3.Function(ctx().name('tpdu'), z3.IntSort(), z3.IntSort())
        self.rows = Rows(u, 'hex')

    def elem(self, k):
        key = z3.simplify(zi(k)).sexpr()
        if key not in self.memo: self.memo[key] = OnePdu(self, k)
        return self.memo[key]

    def length_of(self, k):
        v = mi(self.tpdu(zi(k)))
        ctx().assume(cmp('>=', v, 1))
        return v


class OnePdu:
    vtype = PDU.Pdu
    def __init__(self, base, k): self.base, self.k = base, k
    def vtruth(self): return True
    def veq(self, o): return isinstance(o, OnePdu) and o.base is self.base and cmp('==', self.k, o.k)
    def vstr(self, I=None): return self.base.rows.line(self.k)
    def vgetattr(self, I, n):
        if n == 'tpduLength': return self.base.length_of(self.k)
        if n == '__str__': return Model('Pdu.__str__', lambda I, a, k: self.vstr())
        raise Unsupported('Pdu.' + n)


@contract('encodeSmsSubmitPdu', 'gsmmodem.pdu.encodeSmsSubmitPdu', proved_by=[('gsmmodem.pdu.encodeSmsSubmitPdu', 'parts, headers'), ('gsmmodem.pdu.encodeSmsSubmitPdu', 'no validity, default')])
def _(I, args, kwargs):
    a = dict(reference=0, validity=None, smsc=None, requestStatusReport=True, rejectDuplicates=False, sendFlash=False)
    a.update(zip(('number', 'text', 'reference', 'validity', 'smsc', 'requestStatusReport', 'rejectDuplicates', 'sendFlash'), args))
    a.update(kwargs)
    return ctx().anchors['world'].encode(a)


class SentMap:
    """the weak table of sent messages: what is stored"""
    vtype = dict
    def __init__(self): self.stored = []
    def vsetitem(self, I, k, v): self.stored.append((k, v))
    def vgetattr(self, I, n): raise Unsupported('sentSms.' + n)


class Sending(Modem):
    def __init__(self, u, textmode):
        self.map = SentMap()
        self.ref = u.int('ref', 0, 255)
        super().__init__(u, _smsTextMode=textmode, _smsRef=self.ref, sentSms=self.map, _smsStatusReportEvent=None)
        self.textmode = textmode
        self.number, self.text = anychars(u, 'number')[0], anychars(u, 'text')[0]
        self.flash = u.bool('flash')
        self.pos, self.encoded, self.exc, self.last, self.refused = 0, None, None, None, False
        self.waited = []
        self.events(u)

    def encode(self, a):
        u, c = self.u, ctx()
        u.prove(not self.textmode and self.encoded is None and self.pos == 0, 'encoded once, in PDU mode')
        u.prove_eq(a['number'], self.number, 'the destination'); u.prove_eq(a['text'], self.text, 'the text')
        u.prove(is_intlike(a['reference']) and band(cmp('<=', 0, a['reference']), cmp('<=', a['reference'], 255)), 'reference within 0-255')
        u.prove(a['validity'] is None and a['smsc'] is None, 'no validity, default service centre')
        u.prove(truth(u, a['sendFlash']) == truth(u, self.flash), 'flash as asked')
        if c.choice([None, None]):
            self.refused = True
            throw(ValueError, 'cannot be encoded')
        n = c.fresh_int('parts', 1, MAXLEN)
        self.encoded = PduBaseSym(u, n)
        return VList(Seq((Gen(self.encoded, 0, n),)))

    def total(self): return 2 if self.textmode else mi(2 * zi(self.encoded.n))

    def command(self, o, a):
        u, c = self.u, ctx()
        u.prove(o is self.obj, 'the command goes to this modem')
        u.prove(self.textmode or self.encoded is not None, 'nothing is written before the message is encoded')
        u.prove(not self.map.stored, 'nothing is recorded before every part was sent')
        u.prove(cmp('<', self.pos, self.total()), 'every part is written once')
        k = mi(zi(self.pos) / 2) if not isinstance(self.pos, int) else self.pos // 2
        first = c.branch(cmp('==', mi(zi(self.pos) % 2), 0))
        if not is_str(a['data']): u.prove(False, 'text is written'); raise PathEnd()
        if first:
            want = cat('AT+CMGS="', self.number, '"') if self.textmode else cat('AT+CMGS=', mkstr(Seq((Dec(self.encoded.length_of(k)),))))
            u.prove_eq(a['data'], want, 'send command, %s' % ('destination' if self.textmode else 'TPDU length of the part'))
            u.prove_eq(a['writeTerm'], '\r', 'send command (terminator)')
            u.prove(a['expectedResponseTermSeq'] in ('> ', '>'), 'the prompt is awaited')
        else:
            want = self.text if self.textmode else self.encoded.rows.line(k)
            u.prove_eq(a['data'], want, 'the text' if self.textmode else 'the part in hexadecimal')
            u.prove_eq(a['writeTerm'], chr(26), 'terminated by control-Z')
            u.prove(a['expectedResponseTermSeq'] is None, 'no prompt is awaited')
        u.prove(a['waitForResponse'] is True and a['parseError'] is True, 'waits, errors are reported')
        self.pos = add(self.pos, 1)
        self.last = None
        r = self.outcome()
        if not first: self.last = self.rows
        return r

    def sleep(self, I, a): pass

    def ev_wait(self, e, timeout):
        u = self.u
        u.prove(self.wait, 'waits for a report only when asked to')
        u.prove(self.obj.get('_smsStatusReportEvent') is e and not e.flag, 'the wait is registered')
        u.prove(len(self.map.stored) == 1, 'the message can be found when its report arrives')
        got = ctx().choice([None, None]) == 0
        self.waited.append(got)
        if got: e.flag = True
        return got

    def reference(self):
        """what the answer to the last part reports, or None (spec)"""
        k = self.last.first(('starts', '+CMGS:'), starts('+CMGS:'))
        if k is None: return None
        p = parse(self.last.line(k), '+CMGS:', run(SPACE), run(DIGIT, 1))
        return None if p is None else number(p[1])


def send_loop(w):
    def inv(L, p):
        if L.mode == 'havoc':
            w.pos = ctx().fresh_int('pos', 0)
        L.fact(cmp('==', w.pos, mi(2 * zi(p))), 'each part was written before the next')
        L.mentioned.add('result')
        if ctx().branch(cmp('==', p, 0)):
            if L.mode == 'havoc' : w.last = None
            return
        # the answer to the last part
        if L.mode == 'havoc':
            w.last = Rows(w.u, 'lastanswer', 1)
            k = w.last.first(('starts', '+CMGS:'), starts('+CMGS:'))
            L.fr.locals['result'] = None if k is None else w.last.line(k)
        else:
            k = w.last.first(('starts', '+CMGS:'), starts('+CMGS:'))
            v = L.local('result')
            w.u.prove(v is None if k is None else is_str(v), L.lab() + ': the answer to the last part')
            if k is not None: w.u.prove_eq(v, w.last.line(k), L.lab() + ': the answer to the last part')
    return inv


def answer_text(u, w, ev):
    return dict(text=ev(w.text), number=ev(w.number), mode='text' if w.textmode else 'pdu', flash=bool(ev(w.flash)), refs=[5, 6, 7], start=ev(w.ref), fail=None, at=0, prompt=True)


for _tm in (True, False):
    for _wait in (False, True):
        @unit('C15 C16' if _wait else 'C15', M + 'sendSms', '%s mode%s' % ('text' if _tm else 'PDU', ', waiting for the report' if _wait else ''), uses=('GsmModem.write', 'lineStartingWith') + (() if _tm else ('encodeSmsSubmitPdu',)))
        def _(u, tm=_tm, wait=_wait):
            w = Sending(u, tm)
            w.wait = wait
            u.use({('GsmModem.sendSms', 0): send_loop(w)})
            u.replay('send_message', lambda ev: answer_text(u, w, ev))
            kw = dict(waitForDeliveryReport=True, deliveryTimeout=Opaque('timeout')) if wait else {}
            r = u.call(w.obj, w.number, w.text, sendFlash=w.flash, **kw)
            st = w.map.stored
            if w.refused: u.raises(r, ValueError); u.prove(not st, 'a message that cannot be encoded is not recorded'); return
            u.prove(w.obj.get('_smsStatusReportEvent') is None, 'no wait for a report is left behind')
            if w.exc is not None:
                w.passed_on(r, 'the error of a part is passed on'); u.prove(not st, 'a message that was not sent is not recorded')
                u.prove(w.obj.get('_smsRef') is w.ref, 'reference unchanged'); return
            u.prove(cmp('==', w.pos, w.total()), 'every part was written')
            ref = w.reference()
            if ref is None:
                u.raises(r, X.CommandError)
                u.prove(not st, 'no sent message without a reference'); return
            u.prove(len(st) == 1, 'recorded once')
            sms = st[0][1]
            u.prove_eq(st[0][0], ref, 'recorded under the reference the modem reported for the last part')
            u.prove(isinstance(sms, VObj) and sms.cls is GM.SentSms, 'a SentSms')
            u.prove_eq(sms.get('reference'), ref, 'its reference is the one reported for the last part')
            u.prove_eq(sms.get('number'), w.number, 'its destination'); u.prove_eq(sms.get('text'), w.text, 'its text')
            u.prove(sms.get('report') is None, 'no report yet')
            nxt = w.obj.get('_smsRef')
            u.prove(is_intlike(nxt) and band(cmp('<=', 0, nxt), cmp('<=', nxt, 255)), 'the next reference stays within 0-255')
            u.prove(len(w.waited) == (1 if wait else 0), 'waits for the report exactly when asked to')
            if wait and not w.waited[0]: u.raises(r, X.TimeoutException)
            else: u.returns(r); u.prove(r is sms, 'the message recorded is returned')


# -- C16 -----------------------------------------------------------------------------------------------------------------------
NQ = cls(r'[^"]')


def cdsi(line):
    """(memory, index) announced by a status report notification, or None"""
    p = parse(line, '+CDSI:', run(SPACE), '"', run(NQ, 1), '",', run(DIGIT, 1), EOL)
    return None if p is None else p[1:]


def same_index(a, b):
    """index a (text or number) is the one written b"""
    if is_str(a): return val_eq(a, b)
    return is_intlike(a) and cmp('==', a, number(b))


@contract('readStoredSms', M + 'readStoredSms', proved_by=[M + 'readStoredSms'])
def _(I, args, kwargs):
    a = dict(memory=None); a.update(zip(('index', 'memory'), args[1:])); a.update(kwargs)
    return ctx().anchors['world'].read_stored(args[0], a['index'], a['memory'])


@contract('deleteStoredSms', M + 'deleteStoredSms', proved_by=[M + 'deleteStoredSms'])
def _(I, args, kwargs):
    a = dict(memory=None); a.update(zip(('index', 'memory'), args[1:])); a.update(kwargs)
    return ctx().anchors['world'].delete_stored(args[0], a['index'], a['memory'])


class WeakSent:
    """the weak table of sent messages: any entry may be there, and disappear at any time"""
    vtype = dict
    def __init__(self, w): self.w = w
    def key(self, k): self.w.u.prove_eq(k, self.w.report.get('reference'), 'looks up the message with the report\'s reference'); self.w.looked = True; return ctx().choice([None, None]) == 0
    def vtruth(self):
        if ctx().choice([None, None]): return True
        self.w.looked = True           # it is empty
        return False
    def vgetitem(self, I, k):
        if self.key(k): self.w.found = True; return self.w.sms
        throw(KeyError, 'gone')
    def vcontains(self, I, k): return self.key(k)
    def vgetattr(self, I, n):
        def get(I, a, k):
            if self.key(a[0]): self.w.found = True; return self.w.sms
            return a[1] if len(a) > 1 else None
        if n == 'get': return Model('sentSms.get', get)
        raise Unsupported('sentSms.' + n)


class Reports(Modem):
    def __init__(self, u):
        self.found, self.looked, self.log2, self.seen, self.memory = False, False, [], [], None
        ref = u.int('report_ref', 0)
        self.report = VObj(GM.StatusReport, dict(reference=ref, deliveryStatus=u.int('status', 0, 255), number=anychars(u, 'number')[0], status=0, timeSent=None, timeFinalized=None, text=None, smsc=None))
        self.earlier = VObj(GM.StatusReport, dict(reference=ref, deliveryStatus=u.int('earlier_status', 0, 255), number='', status=0, timeSent=None, timeFinalized=None, text=None, smsc=None)) if ctx().choice([None, None]) else None
        self.sms = VObj(GM.SentSms, dict(reference=ref, report=self.earlier, number=anychars(u, 'to')[0], text=anychars(u, 'text')[0], smsc=None))
        super().__init__(u, sentSms=WeakSent(self), smsStatusReportCallback=Model('smsStatusReportCallback', self.callback))
        self.obj.volatile['_smsStatusReportEvent'] = self.event
        self.ev = Ev(self)

    def event(self):
        """the waiting sender may appear or give up at any time"""
        self.seen.append(ctx().choice([None, None]) == 0)
        return self.ev if self.seen[-1] else None

    def attached(self):
        self.u.prove(self.looked, 'the message with the reference is looked for before the report is handed on')
        if self.found: self.u.prove(self.sms.get('report') is self.report, 'its message has the report when it is handed on')

    def callback(self, I, a, k):
        self.u.prove(len(a) == 1 and a[0] is self.report, 'the callback gets the report')
        self.attached()
        self.log2.append('callback')

    def ev_set(self, e):
        self.attached()
        self.log2.append('sender')

    def read_stored(self, o, index, memory):
        u = self.u
        u.prove(o is self.obj and not self.log2, 'read once')
        u.prove(same_index(index, self.where[1]), 'read at the announced index')
        u.prove(val_eq(memory, self.where[0]) if is_str(memory) else False, 'read from the announced memory')
        self.log2.append('read')
        if ctx().choice([None, None]): self.fail(X.CommandError)
        self.memory = memory
        return self.report

    def delete_stored(self, o, index, memory):
        u = self.u
        u.prove(o is self.obj and self.log2 == ['read'], 'deleted once, after it was read')
        u.prove(same_index(index, self.where[1]), 'deleted at the announced index')
        m = self.memory if memory is None else memory
        u.prove(val_eq(m, self.where[0]) if is_str(m) else False, 'deleted from the announced memory')
        self.log2.append('delete')
        if ctx().choice([None, None]): self.fail(X.CommandError)


@unit('C16', M + '_handleSmsStatusReport', 'read, deleted, given to its message and handed on once', uses=('readStoredSms', 'deleteStoredSms'))
def _(u):
    w = Reports(u)
    w.exc = None
    line = anychars(u, 'line')[0]
    w.where = cdsi(line)
    r = u.call(w.obj, line)
    if w.where is None:
        u.returns(r); u.prove(not w.log2 and w.sms.get('report') is w.earlier, 'nothing is done for other lines'); return
    u.prove('read' in w.log2, 'the report is read')
    if w.exc is not None:
        w.passed_on(r)
        if w.log2 == ['read']: u.prove(w.sms.get('report') is w.earlier, 'no report was read')
        return
    u.returns(r)
    u.prove(w.log2[:2] == ['read', 'delete'], 'read, then deleted')
    u.prove(len(w.log2) == 3, 'handed on once')
    u.prove((w.log2[2] == 'sender' and True in w.seen) or (w.log2[2] == 'callback' and False in w.seen), 'to the waiting sender if there is one, otherwise to the callback')
    if w.found: u.prove(w.sms.get('report') is w.report, 'its message receives the report')


@unit('C16', 'gsmmodem.modem.SentSms.status', 'en route, delivered or failed')
def _(u):
    st = u.int('status', 0)
    has = u.bool('has')
    rep = VObj(GM.StatusReport, dict(deliveryStatus=st)) if truth(u, has) else None
    o = VObj(GM.SentSms, dict(report=rep, reference=u.int('ref', 0), number='', text='', smsc=None))
    r = u.returns(u.call(o))
    if rep is None: u.prove_eq(r, GM.SentSms.ENROUTE, 'en route without a report')
    elif u.branch(cmp('==', st, 0)): u.prove_eq(r, GM.SentSms.DELIVERED, 'delivered')
    else: u.prove_eq(r, GM.SentSms.FAILED, 'failed')
