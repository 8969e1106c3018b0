"""C12, C15-C23: modem level"""
import gc
import re
from datetime import datetime, timedelta
import spec
from .base import case, checked, eq, expect, raises, Skip, Mismatch, short
from .env import Env, script
from . import codec
import gsmmodem.modem as M
import gsmmodem.exceptions as X
from gsmmodem.exceptions import CommandError, CmeError, CmsError, TimeoutException, InvalidStateException, InterruptedException

BUSY = (14, 515)
NOISE = ['+FOO: 1', ' ', '\t ', 'OKAY', 'ERROR IN LINE', ' OK', 'ok', '+CME ERROR: abc', 'ERRORS', '> ', 'x' * 200, 'COMMAND NOT SUPPORTED', '+CMS ERROR: 515 x', 'AT', '\u20ac', '0']
CMDS = ['AT', 'ATZ', 'AT+CPIN="1234"', 'AT+CMGS=23', 'A' * 300, '00AB']


def textmode(m, text):
    m.smsTextMode = not text
    m.smsTextMode = text


# -- C12 -------------------------------------------------------------------------------------------------------------
def expected_error(kind, code):
    return {('CME', 11): X.PinRequiredError, ('CME', 16): X.IncorrectPinError, ('CME', 12): X.PukRequiredError, ('CMS', 330): X.SmscNumberUnknownError}.get((kind, code), CmeError if kind == 'CME' else CmsError)


def rcommand(r):
    busy = [(r.choice(('CME', 'CMS')), r.choice(BUSY)) for _ in range(r.choice((0, 0, 0, 1, 1, 2, 3, 6)))]
    k = r.randrange(6)
    if k == 0: fin = ('ok', None)
    elif k == 1: fin = (r.choice(('CME', 'CMS')), r.choice((0, 3, 11, 12, 16, 30, 100, 330, 500, 512, 515, 5151, 140, 141, 1, 10, 17, r.randrange(1000))))
    elif k == 2: fin = ('ERROR', None)
    elif k == 3: fin = ('COMMAND NOT SUPPORT', None)
    elif k == 4: fin = ('prompt', None)
    else: fin = ('ok', None)
    if fin[1] in BUSY: fin = (fin[0], 500)
    return dict(cmd=r.choice(CMDS), term=r.choice(('\r', '\r', chr(26), '')), busy=busy, final=fin, lines=[r.choice(NOISE) for _ in range(r.choice((0, 0, 1, 2, 5)))], pad=r.choice(('', '', ' ', '  \t')),
                parse=r.random() < .8, wait=r.random() < .9, pre=r.choice((0, 0, .1, .2, .5)))


def command_fixed():
    out = []
    for fin in [('ok', None), ('ERROR', None), ('COMMAND NOT SUPPORT', None), ('prompt', None)] + [(k, c) for k in ('CME', 'CMS') for c in (0, 3, 10, 11, 12, 13, 15, 16, 17, 30, 100, 329, 330, 331, 513, 516, 51, 5, 1, 140, 5150)]:
        for parse in (True, False):
            for busy in ([], [('CME', 14)], [('CMS', 515)], [('CME', 515), ('CMS', 14)]):
                for pad in ('', ' '):
                    out.append(dict(cmd='AT+X?', term='\r', busy=busy, final=fin, lines=['+X: 1', 'y'], pad=pad, parse=parse, wait=True, pre=0))
    for ls in ([' '], ['a', ' \t', 'b'], [' x '], ['  ', ' ']):
        for parse in (True, False): out.append(dict(cmd='AT+X?', term='\r', busy=[], final=('ok', None), lines=ls, pad='', parse=parse, wait=True, pre=0))
    for pre in (0, .1):
        out.append(dict(cmd='AT+X?', term='\r', busy=[('CME', 14)] * 5, final=('ok', None), lines=[], pad='', parse=True, wait=True, pre=pre))
    out += [dict(cmd='ATD1;', term='\r', busy=[], final=('ok', None), lines=[], pad='', parse=p, wait=False, pre=w) for p in (True, False) for w in (0, .1)]
    return out


@case('C12', fixed=command_fixed, gen=rcommand)
@checked
def command_outcome(o):
    kind, code = o['final']
    if kind == 'ok': last = 'OK'
    elif kind in ('CME', 'CMS'): last = '+%s ERROR: %d' % (kind, code)
    elif kind == 'prompt': last = '> '
    else: last = kind
    if kind != 'prompt': last += o['pad']
    answers = [['+Y: 2', '+%s ERROR: %d' % (t, c) + o['pad']] for t, c in o['busy']]
    final = o['lines'] + [('P:' if kind == 'prompt' else '') + last]
    with Env(script(*(answers + [final]))) as env:
        m = env.modem()
        if hasattr(m, '_writeWait'): m._writeWait = o['pre']
        kw = dict(timeout=5, parseError=o['parse'], writeTerm=o['term'], waitForResponse=o['wait'])
        if kind == 'prompt': kw['expectedResponseTermSeq'] = '> '
        full = o['cmd'] + o['term']
        if not o['wait']:
            env.respond = lambda d: []
            eq(m.write(o['cmd'], **kw), None, 'result without waiting')
            eq(env.sent, [full], 'written without waiting')
            return
        if o['busy'] and not o['parse']:
            eq(m.write(o['cmd'], **kw), answers[0], 'response lines with error parsing disabled')
            eq(env.sent, [full], 'written with error parsing disabled')
            return
        want = o['lines'] + [last]
        exc = None
        if o['parse'] and kind not in ('ok', 'prompt'):
            exc = expected_error(kind, code) if kind in ('CME', 'CMS') else CommandError
        if exc is None:
            eq(m.write(o['cmd'], **kw), want, 'outcome')
        else:
            try:
                got = m.write(o['cmd'], **kw)
            except Exception as e:
                eq(type(e), exc, 'exception for %r' % last)
                if kind in ('CME', 'CMS'):
                    eq((e.code, e.command, e.type), (code, o['cmd'], kind), 'code, command and type of the exception')
                else: eq((e.code, e.type), (None, None), 'code and type of a plain CommandError')
            else: raise Mismatch('returned %s for the error line %r' % (short(got), last))
        eq(env.sent, [full] * (len(o['busy']) + 1), 'commands written')
        waits, cur = [], None
        for k, v in env.log:
            if k == 'w':
                if cur is not None: waits.append(cur)
                cur = 0
            else:
                expect(v >= 0, 'negative sleep')
                cur += v
        for a, b in zip([0] + waits, waits): expect(b > a, 'waits before the retries do not grow: %s' % waits)
        expect(not [e for e in (m._responseEvent,) if e], 'a wait remains registered')
        # the next command is issued normally
        env.respond = lambda d: ['OK']
        n = len(env.sent)
        eq(m.write('AT+NEXT'), ['OK'], 'next command')
        eq(env.sent[n:], ['AT+NEXT\r'], 'next command written')


@case('C12', fixed=[(['+A: 1'],), ([],), (['x', 'ERROR X'],)])
@checked
def command_timeout(inp):
    with Env(lambda d: list(inp[0])) as env:
        m = env.modem()
        e = raises(lambda: m.write('AT+Q', timeout=2), TimeoutException)
        eq(e.data, inp[0] or None, 'data of the timeout')
        eq(env.sent, ['AT+Q\r'], 'written')


# -- C15 -------------------------------------------------------------------------------------------------------------
FINALS = {'ok': lambda n: ['+CMGS: %d' % n, 'OK'], 'noref': lambda n: ['OK'], 'cms': lambda n: ['+CMS ERROR: 500'], 'error': lambda n: ['ERROR'], 'silent': lambda n: [],
          'sp': lambda n: ['+CMGS:%d' % n, 'OK'], 'more': lambda n: ['+FOO: 1', '+CMGS: %d' % n, 'OK'], '330': lambda n: ['+CMS ERROR: 330'], 'lone': lambda n: ['+CMGS', 'OK'],
          'fields': lambda n: ['+CMGS: %d,"14/01/02,03:04:05+08"' % n, 'OK'], 'spfields': lambda n: ['+CMGS:%d,0' % n, 'OK'], 'neg': lambda n: ['+CMGS: -%d' % (n + 1), 'OK']}


def rsend(r):
    return dict(text=r.choice((codec.rsubmit_text(r), codec.rtext(r, r.randrange(40)) or 'a')) or 'x', number=codec.rnum(r), mode=r.choice(('pdu', 'pdu', 'text')), flash=r.random() < .3, refs=[r.randrange(256) for _ in range(3)],
                start=r.randrange(256), fail=r.choice((None, None, None, 'noref', 'cms', 'error', 'silent', '330')), at=r.randrange(4), prompt=True, form=r.choice(('ok', 'ok', 'sp', 'more', 'fields', 'spfields')))


def send_fixed():
    out = []
    for text in ('', 'a', '@' * 160, 'a' * 161, '\u0416' * 71, 'b{' * 100, 'c' * 400):
        for mode in ('pdu', 'text'):
            for start, refs in ((0, [0, 1, 2]), (255, [255, 255, 0]), (254, [3, 254, 255])):
                for fail in (None, 'noref', 'cms', 'error', 'silent', '330'):
                    for at in ((0, 1) if fail else (0,)):
                        if text == '' and mode == 'pdu': continue
                        out.append(dict(text=text, number='+27821234567', mode=mode, flash=False, refs=refs, start=start, fail=fail, at=at, prompt=True))
    out += [dict(text=t, number='123', mode=m, flash=False, refs=[21, 22, 23], start=0, fail=None, at=0, prompt=True, form=f) for t in ('abc', 'a' * 400) for m in ('pdu', 'text') for f in ('sp', 'more', 'fields', 'spfields')]
    out += [dict(text='abc', number='123', mode=m, flash=False, refs=[21], start=0, fail=f, at=0, prompt=True) for m in ('pdu', 'text') for f in ('lone', 'neg')]
    out.append(dict(text='abc', number='123', mode='pdu', flash=False, refs=[1], start=0, fail=None, at=0, prompt=False))
    out.append(dict(text='abc', number='123', mode='text', flash=False, refs=[1], start=0, fail=None, at=0, prompt=False))
    return out


def check_part(cmd, hexline, number, flash, ref=None):
    mm = re.match(r'^AT\+CMGS=(\d+)\r$', cmd)
    expect(mm, 'send command is %r' % cmd)
    expect(hexline.endswith(chr(26)) and re.match('^[0-9A-Fa-f]*$', hexline[:-1]), 'PDU line is %r' % short(hexline))
    b = bytes.fromhex(hexline[:-1])
    d = codec.parse_submit(b)
    eq(int(mm.group(1)), d['tpdu'], 'announced TPDU length')
    eq(d['number'], number, 'destination')
    if ref is not None: eq(d['ref'], ref, 'message reference of the next message')
    return d


@case('C15', fixed=send_fixed, gen=rsend)
@checked
def send_message(o):
    state = dict(part=-1)

    def respond(data):
        if data.startswith('AT+CMGS'):
            state['part'] += 1
            return ['P:> '] if o['prompt'] else ['ERROR']
        i = min(state['part'], len(o['refs']) - 1)
        return FINALS[o['fail'] if o['fail'] and state['part'] == o['at'] else o.get('form', 'ok')](o['refs'][i])
    with Env(respond) as env:
        m = env.modem(_smsTextMode=o['mode'] == 'text')
        if not hasattr(m, '_smsRef'): raise Skip()
        m._smsRef = o['start']
        kw = dict(sendFlash=True) if o['flash'] else {}
        plan = dict(text=o['text'])
        n = 1
        if o['mode'] == 'pdu': n = len(M.encodeSmsSubmitPdu(o['number'], o['text'], reference=o['start'], sendFlash=o['flash']))
        failing = not o['prompt'] or (o['fail'] and o['at'] < n)
        # a part without a reference is only an error for the last part
        if o['fail'] == 'noref' and o['at'] < n - 1: failing = False
        if failing:
            e = raises(lambda: m.sendSms(o['number'], o['text'], **kw), CommandError, TimeoutException)
            if o['prompt'] and o['fail'] == 'silent': eq(type(e), TimeoutException, 'exception when nothing is answered')
            elif o['prompt'] and o['fail'] == 'cms': eq((type(e), e.code), (CmsError, 500), 'exception')
            elif o['prompt'] and o['fail'] == '330': eq(type(e), X.SmscNumberUnknownError, 'exception')
            eq(len(m.sentSms), 0, 'sent messages recorded after a failure')
            expect(len(env.sent) <= 2 * (o['at'] + 1), 'parts written after the failure')
        else:
            sms = m.sendSms(o['number'], o['text'], **kw)
            ref = o['refs'][min(n - 1, len(o['refs']) - 1)]
            eq((sms.reference, sms.number, sms.text, sms.status, sms.report), (ref, o['number'], o['text'], M.SentSms.ENROUTE, None), 'sent message')
            expect(m.sentSms.get(ref) is sms, 'message is not tracked under its reference')
            eq(len(m.sentSms), 1, 'tracked messages')
            eq(len(env.sent), 2 * n, 'writes')
            if o['mode'] == 'text':
                eq(env.sent, ['AT+CMGS="%s"\r' % o['number'], o['text'] + chr(26)], 'written in text mode')
            else:
                text = ''
                for i in range(n):
                    d = check_part(env.sent[2 * i], env.sent[2 * i + 1], o['number'], o['flash'])
                    text += d['text']
                eq(text, o['text'], 'text of the parts written')
            # the next message
            state['part'] = -1
            env.respond = lambda d: ['P:> '] if d.startswith('AT+CMGS') else ['+CMGS: 77', 'OK']
            k = len(env.sent)
            m._smsTextMode = False
            s2 = m.sendSms('123', 'next')
            d = check_part(env.sent[k], env.sent[k + 1], '123', False)
            expect(0 <= d['ref'] <= 255 and 0 <= m._smsRef <= 255, 'next reference out of range')
            if ref != 77: expect(m.sentSms.get(ref) is sms and m.sentSms.get(77) is s2, 'messages are not found by their references')


@case('C15', name='reply', fixed=lambda: [(n, t, f) for n in ('1', '+27820001234', 'Vodacom') for t in ('', 'x', 'h\u00e9 {}', 'a' * 400) for f in (0, 1)], gen=lambda r: (r.choice(('0', '+1', 'abc')) + str(r.randrange(10 ** 9)), ''.join(r.choice('ab {}\u20ac\n"') for _ in range(r.randrange(30))), r.randrange(2)))
@checked
def reply(inp):
    number, text, fails = inp if len(inp) == 3 else inp + (0,)
    sent, answer = [], object()

    class Modem:
        def sendSms(self, destination, text, waitForDeliveryReport=False, deliveryTimeout=15, sendFlash=False):
            sent.append((destination, text, bool(waitForDeliveryReport), bool(sendFlash)))
            if fails: raise TimeoutException()
            return answer
    modem = Modem()                        # the message refers to it weakly
    sms = M.ReceivedSms(modem, 0, number, None, 'before')
    if fails: raises(lambda: sms.reply(text), TimeoutException)
    else: expect(sms.reply(text) is answer, 'the sent message is not returned')
    eq(sent, [(number, text, False, False)], 'messages sent (number, text, wait, flash)')


@case(['C12', 'C15', 'C16', 'C18', 'C20', 'C23'], fixed=[0], gen=lambda r: 0, weight=.05)
@checked
def new_modem(inp):
    """what a modem starts with, before it is connected"""
    got = []

    class Modem(M.GsmModem):
        def _handleModemNotification(self, lines): got.append(lines)
    names = [('incomingCallCallbackFunc', 'incomingCallCallback'), ('smsReceivedCallbackFunc', 'smsReceivedCallback'), ('smsStatusReportCallback', 'smsStatusReportCallback')]
    for given in range(8):
        kw = {n: [].append for i, (n, _) in enumerate(names) if given >> i & 1}
        m = Modem('x', 9600, **kw)
        for n, a in names:
            if n in kw: expect(getattr(m, a) is kw[n], 'the given %s is not used' % n)
            else: getattr(m, a)(object())
        m.notifyCallback(['RING'])
        eq(got, [['RING']], 'notifications handed to the dispatcher of this modem')
        del got[:]
        expect(0 <= getattr(m, '_smsRef', 0) <= 255, 'the first reference of a new modem')
        expect(getattr(m, '_writeWait', 0) >= 0, 'the wait after commands of a new modem')
        expect(not m.sentSms and not m.activeCalls, 'a new modem has messages or calls')
        expect(not any(getattr(m, n, None) for n in ('_smsStatusReportEvent', '_dialEvent', '_ussdSessionEvent')), 'a new modem waits for something')


# -- C16 -------------------------------------------------------------------------------------------------------------
def report_pdu(ref, number, status, t=((2014, 1, 2, 3, 4, 5), 8), t2=((2014, 1, 2, 3, 4, 9), 8)):
    b = bytearray(b'\0' + bytes([6, ref]) + spec.address(number))
    for f, q in (t, t2): b += spec.timestamp(datetime(*f, tzinfo=codec.tz(q)), q)
    b.append(status)
    return bytes(b).hex().upper()


def report_text(ref, number, status, st='REC UNREAD', quote='"'):
    return '+CMGR: %s,6,%d,%s%s%s,129,"14/01/02,03:04:05+08","14/01/02,03:04:09+08",%d' % ('"%s"' % st if st else '', ref, quote, number, quote, status)


def rreport(r):
    refs = r.sample(range(256), r.choice((0, 1, 2, 4, 8)))
    return dict(sent=refs, report=r.choice(refs) if refs and r.random() < .8 else r.randrange(256), status=r.choice((0, 0, 1, 48, 68, 255, r.randrange(256))), text=r.random() < .4, mem=r.choice(('SM', 'ME', 'SR', 'BM')), cur=r.choice((None, 'SM', 'ME')),
                idx=r.choice((0, 1, 25, 300)), waiting=r.random() < .3)


@case('C16', fixed=lambda: [dict(sent=s, report=rep, status=st, text=t, mem='SR', cur=c, idx=3, waiting=w) for s in ([], [5], [4, 5, 6], [0, 255], [1, 2, 3]) for rep in (5, 0, 255) for st in (0, 1, 68, 255) for t in (False, True) for c in (None, 'SR') for w in (False, True)], gen=rreport)
@checked
def status_report(o):
    got = []
    num = '+27829999'

    def respond(data):
        if data.startswith('AT+CMGR'):
            if o['text']: return [report_text(o['report'], num, o['status']), 'OK']
            return ['+CMGR: 0,,24', report_pdu(o['report'], num, o['status']), 'OK']
        return ['OK']
    with Env(respond) as env:
        m = env.modem(smsStatusReportCallback=got.append, _smsMemReadDelete=o['cur'])
        textmode(m, o['text'])
        del env.sent[:]
        # the report may give the recipient's number in another form than the sender used
        sms = {k: M.SentSms((num, '0829999')[k % 2], 'x', k) for k in o['sent']}
        if o['idx'] == 3:
            for k in sms: sms[k].report = M.StatusReport(m, 0, k, num, None, None, 48)          # an earlier, preliminary one
        old = {k: sms[k].report for k in sms}
        for k in sms: m.sentSms[k] = sms[k]
        note = ['+CDSI: "%s",%d' % (o['mem'], o['idx'])]
        mine = None
        if o['waiting']:
            normal = env.respond

            def sending(data):
                if data.startswith('AT+CMGS'): return ['P:> ']
                if data.endswith(chr(26)): return ['+CMGS: %d' % o['report'], 'OK']
                return normal(data)
            env.respond = sending
            # the acknowledgement comes first, then the report while the sender waits
            def arrive(): env.feed(note)
            real = env.idle
            waits0 = len(env.waits)
            class Idle(list):
                pass
            env.deliver_report = arrive
            # sendSms performs its response waits with the event already set, so the first wait on an unset event is the one for the report
            env.idle.append(arrive)
            mine = m.sendSms(num, 'x', waitForDeliveryReport=True)
            sms[o['report']] = mine
            n = next(i for i, d in enumerate(env.sent) if d.endswith(chr(26)))
            del env.sent[:n + 1]
            eq(got, [], 'report callback while a sender waits')
        else:
            env.feed(note)
            eq(len(got), 1, 'calls of the report callback')
            r = got[0]
            eq((type(r), r.reference, r.number, r.deliveryStatus), (M.StatusReport, o['report'], num, o['status']), 'report given to the callback')
        want = (['AT+CPMS="%s"\r' % o['mem']] if o['cur'] != o['mem'] else []) + ['AT+CMGR=%d\r' % o['idx'], 'AT+CMGD=%d,0\r' % o['idx']]
        eq(env.sent, want, 'commands written for the report')
        for k in sms:
            if k == o['report']:
                rep = sms[k].report
                expect(rep is not None and rep is not old.get(k), 'the message with reference %d did not get its report' % k)
                eq((rep.reference, rep.deliveryStatus, rep.number), (o['report'], o['status'], num), 'report of the message')
                eq((rep.timeSent.isoformat(), rep.timeFinalized.isoformat()), ('2014-01-02T03:04:05+02:00', '2014-01-02T03:04:09+02:00'), 'times of the report')
                if not o['waiting']: expect(rep is got[0], 'different report objects')
                eq(sms[k].status, M.SentSms.DELIVERED if o['status'] == 0 else M.SentSms.FAILED, 'status of the message')
            else:
                expect(sms[k].report is old[k] and (old[k] is not None or sms[k].status == M.SentSms.ENROUTE), 'message %d got a report for %d' % (k, o['report']))
        # a waiting sender wakes up only when its message has the report
        if o['report'] in sms and mine is None:
            seen = []
            sms[o['report']].report = None

            class Waiting:
                def is_set(self): return False
                def set(self): seen.append(sms[o['report']].report)
            if not hasattr(m, '_smsStatusReportEvent'): raise Skip()
            m._smsStatusReportEvent = Waiting()
            env.feed(note)
            m._smsStatusReportEvent = None
            expect(len(seen) == 1 and seen[0] is not None, 'the waiting sender is woken before its message has the report')
        # a second report is handled on its own
        del env.sent[:]
        k0 = len(got)
        env.feed(note)
        eq(len(got), k0 + 1, 'second report')


@case('C16', fixed=[(0,), (1,)])
@checked
def status_wait_timeout(inp):
    with Env(lambda d: ['P:> '] if d.startswith('AT+CMGS') else ['+CMGS: 5', 'OK']) as env:
        got = []
        m = env.modem(smsStatusReportCallback=got.append)
        textmode(m, False)
        raises(lambda: m.sendSms('12', 'x', waitForDeliveryReport=True), TimeoutException)
        env.respond = lambda d: ['+CMGR: 0,,24', report_pdu(5, '12', 0), 'OK'] if 'CMGR' in d else ['OK']
        env.feed(['+CDSI: "SM",1'])
        eq(len(got), 1, 'report callback after the sender gave up')


# -- C17 -------------------------------------------------------------------------------------------------------------
TSTAT = {'REC UNREAD': 0, 'REC READ': 1, 'STO UNSENT': 2, 'STO SENT': 3}


def rstored(r):
    k = r.choice(('deliver', 'deliver', 'deliver', 'report', 'submit', 'garbage', 'other'))
    d = dict(kind=k, idx=r.randrange(1, 100), stat=r.choice((0, 1, 1, 2, 3)))
    if k == 'deliver':
        d['pdu'] = codec.rdeliver(r)
        d['number'] = codec.rnum(r); d['lines'] = [r.choice(('hello', 'a "b", c', 'x' * 50, ' OK', 'two words', '> ', '+CMG', '', 'OKAY')) for _ in range(r.choice((0, 1, 1, 1, 2, 4)))]
        d['time'] = '14/0%d/12,1%d:02:03' % (r.randrange(1, 10), r.randrange(10)); d['q'] = r.randrange(-48, 57); d['alpha'] = r.choice(('', '"Bob"', '""'))
    elif k == 'report': d.update(ref=r.randrange(256), number=codec.rnum(r), status=r.randrange(256), blank=r.random() < .3)
    elif k == 'submit': d.update(number=codec.rnum(r))
    elif k == 'garbage': d.update(line=r.choice(('zz', '00', '', 'hello', '0791')))
    else: d.update(line=r.choice(('ABC', '+FOO: 1', '^RSSI:3')))
    return d


def tline(m): return '%s%s%02d' % (m['time'], '+' if m['q'] >= 0 else '-', abs(m['q']))


def received_fields(x): return (type(x), x.status, x.number, x.time.isoformat(), x.text, x.smsc)


def expect_pdu_message(m, got):
    if m['kind'] == 'deliver':
        o = m['pdu']
        dt = datetime(*o['time'], tzinfo=codec.tz(o['q']))
        eq((type(got), got.status, got.number, got.text, got.smsc), (M.ReceivedSms, m['stat'], o['number'], o['text'], o['smsc']), 'message returned')
        eq((got.time.replace(tzinfo=None), got.time.utcoffset()), (dt.replace(tzinfo=None), dt.utcoffset()), 'time of the message')
    else:
        eq((type(got), got.status, got.reference, got.number, got.deliveryStatus, got.timeSent.isoformat(), got.timeFinalized.isoformat()),
           (M.StatusReport, m['stat'], m['ref'], m['number'], m['status'], '2014-01-02T03:04:05+02:00', '2014-01-02T03:04:09+02:00'), 'report returned')


def pdu_of(m):
    if m['kind'] == 'deliver': return bytes(codec.deliver(m['pdu'])[0]).hex().upper()
    if m['kind'] == 'report': return report_pdu(m['ref'], m['number'], m['status'])
    if m['kind'] == 'submit': return '0001' + '00' + spec.address(m['number']).hex().upper() + '0000' + '01' + '61'
    return m['line']


def expect_text_message(m, got):
    dt = datetime.strptime(m['time'], '%y/%m/%d,%H:%M:%S')
    eq((type(got), got.status, got.number, got.text), (M.ReceivedSms, m['stat'], m['number'], '\n'.join(m['lines'])), 'message returned')
    eq((got.time.replace(tzinfo=None), got.time.utcoffset()), (dt, timedelta(minutes=15 * m['q'])), 'time of the message')


BASED = dict(smsc='+2782913593', flags=0x04, number='+2782123456', pid=0, dcs=0, time=(2014, 6, 7, 8, 9, 10), q=8, udh=None, text='hello')


def sample_messages():
    d1 = dict(kind='deliver', idx=3, stat=0, pdu=BASED, number='+27821', lines=['hello'], time='14/06/12,11:02:03', q=8, alpha='')
    d2 = dict(kind='deliver', idx=7, stat=1, pdu=dict(BASED, text='', dcs=8), number='0821', lines=[], time='14/01/31,10:02:03', q=-22, alpha='""')
    d3 = dict(kind='deliver', idx=12, stat=1, pdu=dict(BASED, text='two@', udh=[(0, b'\1\2\1')]), number='1', lines=['a', '', 'b'], time='14/01/31,10:02:03', q=23, alpha='"x"')
    rep = dict(kind='report', idx=4, stat=1, ref=99, number='+27821', status=68, blank=False)
    sub = dict(kind='submit', idx=5, stat=3, number='123')
    gar = dict(kind='garbage', idx=6, stat=0, line='zz')
    oth = dict(kind='other', idx=8, stat=0, line='^RSSI:3')
    return d1, d2, d3, rep, sub, gar, oth


def read_fixed():
    out = []
    for m in sample_messages():
        for text in (False, True):
            for cur, mem in ((None, None), ('SM', None), ('SM', 'SM'), ('SM', 'ME'), (None, 'SM')):
                for variant in range(4): out.append(dict(msg=m, text=text, cur=cur, mem=mem, variant=variant))
    return out


@case('C17', fixed=read_fixed, gen=lambda r: dict(msg=rstored(r), text=r.random() < .5, cur=r.choice((None, 'SM', 'ME')), mem=r.choice((None, 'SM', 'ME', 'BM')), variant=r.randrange(4)))
@checked
def read_stored(o):
    m = o['msg']; v = o['variant']
    names = {a: b for b, a in TSTAT.items()}
    if o['text']:
        if m['kind'] == 'deliver':
            if m['stat'] > 1: m = dict(m, stat=1)
            lines = ['+CMGR: "%s","%s",%s,"%s"' % (names[m['stat']], m['number'], m['alpha'], tline(m))] + m['lines']
        elif m['kind'] == 'report':
            blank = v == 1
            if blank: m = dict(m, stat=0)
            q = '' if v == 2 else '"'
            lines = [report_text(m['ref'], m['number'], m['status'], '' if blank else names[m['stat']], q)]
        elif m['kind'] == 'submit': lines = ['+CMGR: "STO SENT","123",', 'text']
        else: lines = [m['line'] or 'x', 'foo']
    else:
        if m['kind'] in ('deliver', 'report', 'submit'):
            blank = v == 1
            if blank: m = dict(m, stat=0)
            lines = ['+CMGR: %s,%s,%d' % ('' if blank else m['stat'], ('', '', '"Bob"', '""')[v], 20), pdu_of(m)]
        elif m['kind'] == 'garbage': lines = ['+CMGR: 0,,23', m['line'] or '0']
        else: lines = [m['line'], 'foo']
    with Env(lambda d: lines + ['OK'] if 'CMGR' in d else ['OK']) as env:
        mo = env.modem(_smsMemReadDelete=o['cur'])
        textmode(mo, o['text'])
        del env.sent[:]
        want = (['AT+CPMS="%s"\r' % o['mem']] if o['mem'] is not None and o['mem'] != o['cur'] else []) + ['AT+CMGR=%d\r' % m['idx']]
        call = lambda: mo.readStoredSms(m['idx'], o['mem']) if o['mem'] is not None else mo.readStoredSms(m['idx'])
        if m['kind'] in ('deliver', 'report'):
            got = call()
            if m['kind'] == 'deliver' and o['text']: expect_text_message(m, got)
            else: expect_pdu_message(m, got)
        elif m['kind'] == 'garbage' and not o['text']: raises(call, CommandError, X.EncodingError)
        else: raises(call, CommandError)
        eq(env.sent, want, 'commands written')
        del env.sent[:]
        env.respond = lambda d: ['OK']
        mo.deleteStoredSms(9, o['mem'])
        eq(env.sent, ['AT+CMGD=9,0\r'], 'delete after reading the same memory')


def list_answer(msgs, text):
    lines = []
    names = {a: b for b, a in TSTAT.items()}
    for m in msgs:
        if text:
            if m['kind'] == 'deliver':
                st = names[min(m['stat'], 1)]
                lines.append('+CMGL: %d,"%s","%s",%s,"%s"' % (m['idx'], st, m['number'], m['alpha'], tline(m)))
                lines += m['lines']
            elif m['kind'] == 'submit': lines += ['+CMGL: %d,"STO SENT","%s",' % (m['idx'], m['number']), 'sent text']
        else:
            if m['kind'] in ('deliver', 'report', 'submit'): lines += ['+CMGL: %d,%d,,%d' % (m['idx'], m['stat'], 23)] + m.get('mid', []) + [pdu_of(m)]
            elif m['kind'] == 'garbage': lines += ['+CMGL: %d,%d,,%d' % (m['idx'], m['stat'], 23), m['line']]
            else: lines.append(m['line'])
    return lines


def rlist(r):
    n = r.choice((0, 1, 2, 3, 5, 8))
    ms = [rstored(r) for _ in range(n)]
    idx = r.sample(range(1, 200), n)
    for m, i in zip(ms, idx):
        m['idx'] = i
        if r.random() < .1: m['mid'] = ['^RSSI:3']
    if r.random() < .6: ms = [m for m in ms if m['kind'] != 'submit']
    return dict(msgs=ms, text=r.random() < .5, cur=r.choice((None, 'SM')), mem=r.choice((None, 'SM', 'ME')), delete=r.random() < .5, status=r.choice((0, 1, 2, 3, 4, 4)), final=r.choice(('OK', 'OK', 'OK ', 'OK\t ')))


def list_fixed():
    d1, d2, d3, rep, sub, gar, oth = sample_messages()
    mid = lambda m, *l: dict(m, mid=list(l))          # other lines arrive between the header and the message
    groups = [[mid(d1, '^RSSI:3')], [d1, mid(d2, 'x', '^BOOT:1'), d3], [mid(rep, '^RSSI:3'), mid(d1, '+FOO: 1')], [], [d1], [d2], [d1, d2, d3], [d3, d2, d1], [rep], [d1, rep, d2], [gar, d1], [d1, gar, d2, gar], [oth, d1, oth], [d1, sub], [sub, d1], [d1, sub, d2], [d2, d2 and dict(d1, idx=9), dict(d3, idx=10)], [sub], [gar], [rep, rep and dict(rep, idx=20)]]
    return [dict(msgs=g, text=t, cur=c, mem=mm, delete=d, status=s) for g in groups for t in (False, True) for (c, mm) in ((None, None), ('SM', 'ME')) for d in (False, True) for s in (0, 1, 3, 4)] + \
        [dict(msgs=g, text=t, cur=None, mem=None, delete=True, status=4, final=f) for g in groups for t in (False, True) for f in ('OK ', 'OK \t')]


@case('C17', fixed=list_fixed, gen=rlist, weight=2)
@checked
def list_stored(o):
    # a garbage line under a header is "not a message"; the header it follows belongs to nothing
    msgs = o['msgs']
    if not o['text']:
        # a non-message line between header and PDU or after a message is skipped as well
        for i, m in enumerate(msgs[:-1]):
            if m['kind'] == 'garbage' and msgs[i + 1]['kind'] == 'other' and re.match('^[0-9A-Fa-f]*$', msgs[i + 1]['line']): pass
    lines = list_answer(msgs, o['text'])
    with Env(lambda d: lines + [o.get('final', 'OK')] if 'CMGL' in d else ['OK']) as env:
        mo = env.modem(_smsMemReadDelete=o['cur'])
        textmode(mo, o['text'])
        del env.sent[:]
        kw = {}
        if o['mem'] is not None: kw['memory'] = o['mem']
        if o['delete']: kw['delete'] = True
        st = {0: 'REC UNREAD', 1: 'REC READ', 2: 'STO UNSENT', 3: 'STO SENT', 4: 'ALL'}[o['status']]
        want = (['AT+CPMS="%s"\r' % o['mem']] if o['mem'] is not None and o['mem'] != o['cur'] else []) + ['AT+CMGL="%s"\r' % st if o['text'] else 'AT+CMGL=%d\r' % o['status']]
        bad = not o['text'] and any(m['kind'] == 'submit' for m in msgs)
        if bad:
            raises(lambda: mo.listStoredSms(status=o['status'], **kw), CommandError)
            eq(env.sent, want, 'commands written when an outgoing message is listed')
            return
        got = mo.listStoredSms(status=o['status'], **kw)
        exp = [m for m in msgs if m['kind'] in (('deliver',) if o['text'] else ('deliver', 'report'))]
        eq(len(got), len(exp), 'messages returned')
        for g, m in zip(got, exp):
            if o['text']: expect_text_message(dict(m, stat=min(m['stat'], 1)), g)
            else: expect_pdu_message(m, g)
        eq(env.sent[:len(want)], want, 'commands written to list')
        dels = env.sent[len(want):]
        if not o['delete']: eq(dels, [], 'commands written after the listing')
        elif o['status'] == 4: eq(dels, ['AT+CMGD=1,4\r'], 'clearing the memory')
        else: eq(sorted(dels), sorted(set('AT+CMGD=%d,0\r' % m['idx'] for m in exp)), 'slots deleted')


@case('C17', fixed=lambda: [(u, t) for u in (False, True) for t in (False, True)])
@checked
def process_stored(inp):
    unread, text = inp
    d1, d2, d3, rep = sample_messages()[:4]
    d1 = dict(d1, stat=0)
    old = [d2, d3] if text else [d2, rep, d3]
    read = list_answer(old, text); new = list_answer([d1], text)
    got = []

    def respond(d):
        if 'CMGL' in d: return (read if ('=1' in d or 'REC READ' in d) else new if ('=0' in d or 'REC UNREAD' in d) else []) + ['OK']
        return ['OK']
    with Env(respond) as env:
        m = env.modem(smsReceivedCallback=got.append)
        textmode(m, text)
        del env.sent[:]
        m.processStoredSms(unread)
        exp = ([] if unread else old) + [d1]
        eq(len(got), len(exp), 'messages given to the callback')
        for g, x in zip(got, exp): (expect_text_message if text else expect_pdu_message)(x, g)
        eq(sorted(d for d in env.sent if 'CMGD' in d), sorted('AT+CMGD=%d,0\r' % x['idx'] for x in exp), 'slots deleted')
        expect(not any('CMGD=1,' in d for d in env.sent), 'memory cleared')


@case('C17', fixed=lambda: [(t, op, cur) for t in (False, True) for op in ('read', 'list', 'delete', 'clear') for cur in (None, 'SM')])
@checked
def memory_refused(inp):
    """the modem refuses the memory once: nothing is read, listed or deleted there before it is really selected"""
    text, op, cur = inp
    d1 = dict(sample_messages()[0], stat=0)
    fails = [1]

    def respond(d):
        if 'CPMS' in d: return ['+CMS ERROR: 302'] if fails and fails.pop() else ['OK']
        if 'CMGR' in d: return (['+CMGR: "REC UNREAD","+27821",,"%s"' % tline(d1), 'hello'] if text else ['+CMGR: 0,,20', pdu_of(d1)]) + ['OK']
        if 'CMGL' in d: return list_answer([d1], text) + ['OK']
        return ['OK']
    with Env(respond) as env:
        m = env.modem(_smsMemReadDelete=cur)
        textmode(m, text)
        call, name = {'read': (lambda: m.readStoredSms(3, 'ME'), 'AT+CMGR=3\r'), 'list': (lambda: m.listStoredSms(memory='ME'), 'AT+CMGL="ALL"\r' if text else 'AT+CMGL=4\r'),
                      'delete': (lambda: m.deleteStoredSms(3, 'ME'), 'AT+CMGD=3,0\r'), 'clear': (lambda: m.deleteMultipleStoredSms(4, 'ME'), 'AT+CMGD=1,4\r')}[op]
        del env.sent[:]
        raises(call, CommandError)
        eq(env.sent, ['AT+CPMS="ME"\r'], 'commands written when the memory is refused')
        del env.sent[:]
        call()
        eq(env.sent, ['AT+CPMS="ME"\r', name], 'commands written after the memory was refused once')
        del env.sent[:]
        call()
        eq(env.sent, [name], 'commands written once the memory is selected')


@case('C17', fixed=lambda: [(f, c, m) for f in (-1, 0, 1, 2, 3, 4, 5, 100) for c, m in ((None, None), ('SM', 'ME'), ('SM', 'SM'))])
@checked
def delete_multiple(inp):
    f, cur, mem = inp
    with Env() as env:
        m = env.modem(_smsMemReadDelete=cur)
        if 1 <= f <= 4:
            m.deleteMultipleStoredSms(f, mem)
            eq(env.sent, (['AT+CPMS="%s"\r' % mem] if mem is not None and mem != cur else []) + ['AT+CMGD=1,%d\r' % f], 'commands written')
        else:
            raises(lambda: m.deleteMultipleStoredSms(f, mem), ValueError)
            eq(env.sent, [], 'commands written for an invalid flag')


@case('C17', fixed=lambda: [(s, t, c) for s in (-1, 5, 6, 99, 'ALL', None) for t in (False, True) for c in (None, 'ME')])
@checked
def invalid_status(inp):
    s, t, mem = inp
    with Env() as env:
        m = env.modem()
        textmode(m, t)
        del env.sent[:]
        raises(lambda: m.listStoredSms(status=s, memory=mem, delete=True), ValueError)
        eq(env.sent, [], 'commands written for an invalid status')


# -- C18 -------------------------------------------------------------------------------------------------------------
TABLES = ('huawei', 'wavecom', 'zte', 'poll')


def install_table(m, kind):
    """the call status tables connect() loads, obtained from connect() itself"""
    M.Call.DTMF_COMMAND_BASE = '+VTS='
    answers = {'huawei': ['+CLAC:^DTMF,+CMGF', 'OK'], 'wavecom': ['+CLAC:+WIND,+VTS', 'OK'], 'zte': ['+CLAC:+ZPAS,+VTS', 'OK'], 'poll': ['+CLAC:+CMGF,+VTS', 'OK']}[kind]

    def respond(d):
        if d.startswith('AT+CPIN?'): return ['+CPIN: READY', 'OK']
        if d.startswith('AT+CFUN?'): return ['+CFUN: 1', 'OK']
        if d.startswith('AT+CLAC'): return list(answers)
        if d.startswith('AT+CGMI'): return ['HUAWEI' if kind == 'huawei' else 'ACME', 'OK']
        if d.startswith('AT+ZPAS?'): return ['ERROR']
        if d.startswith('AT+WIND?'): return ['+WIND: 0', 'OK']
        if d.startswith('AT+CSCA?'): return ['+CSCA: "+27821",145', 'OK']
        if d.startswith('AT+CPMS=?'): return ['+CPMS: (("SM","BM","SR"),("SM"))', 'OK']
        return ['OK']
    return respond


def connected(env, kind, **attrs):
    """a modem whose connect() has run against a scripted modem of the given kind"""
    import gsmmodem.serial_comms as S
    import types
    m = M.GsmModem('-- TEST --')
    env.m = m
    from .env import FakeSerial
    fake = FakeSerial(env, m)
    saved = S.serial
    S.serial = types.SimpleNamespace(Serial=lambda *a, **k: fake, SerialException=saved.SerialException)
    env.run_threads = False
    try:
        env.respond = install_table(m, kind)
        m.connect()
    finally:
        S.serial = saved
        env.run_threads = True
    env.respond = lambda d: ['OK']
    del env.sent[:], env.log[:], env.sleeps[:], env.threads[:], env.waits[:]
    for k, v in attrs.items(): setattr(m, k, v)
    return m


NUMS = ['+27820000001', '0820000002', '555', None]


def rcalls(r):
    kind = r.choice(TABLES[:3])
    ev = []
    for _ in range(r.choice((2, 4, 8, 14))):
        k = r.choice(('ring', 'ring', 'ring', 'dial', 'dial', 'answered', 'ended', 'rejected', 'hangup', 'answer', 'hangup'))
        if k == 'ring': ev.append((k, r.choice(NUMS), r.choice(('VOICE', 'FAX', None, 'REL ASYNC'))))
        elif k == 'dial': ev.append((k, r.choice(NUMS[:3]), r.randrange(0, 7)))
        else: ev.append((k, r.randrange(6), r.randrange(0, 7)))
    return (kind, ev)


def calls_fixed():
    out = []
    R = lambda n: ('ring', n, 'VOICE')
    D = lambda n, i: ('dial', n, i)
    for kind in TABLES[:3]:
        out += [(kind, e) for e in (
            [R('555'), R('555'), R('555')], [R('555'), R(NUMS[0]), R('555')], [R(None), R(None)], [('ring', '555', 'FAX')], [('ring', '555', None)], [('ring', None, 'REL ASYNC'), R('555')], [D('555', 1), R('555'), R('555')], [R('555'), ('answer', 0, 0), R('555')],
            [R('555'), R(NUMS[0]), ('hangup', 0, 0), R(NUMS[1]), ('hangup', 1, 0), ('hangup', 2, 0)], [D('1', 1), ('answered', 0, 1), ('ended', 0, 1), ('hangup', 0, 0)],
            [R('1'), R('2'), ('hangup', 0, 0), D('3', 1), R('4'), ('hangup', 0, 0), ('ended', 1, 1)], [D('1', 1), D('2', 2), ('answered', 0, 1), ('answered', 0, 2), ('ended', 0, 2), ('ended', 0, 1)],
            [R('1'), R('2'), R('3'), ('hangup', 1, 0), R('4'), R('5')], [D('1', 2), R('5'), R('6'), ('hangup', 0, 0), R('7')], [R('1'), D('9', 1), ('hangup', 0, 0), ('hangup', 0, 0), R('2')],
            [D('1', 1), ('rejected', 0, 1), ('hangup', 0, 0)], [D('1', 0), ('answered', 0, 0), ('ended', 0, 0), ('hangup', 0, 0)], [R('1'), ('ended', 0, 1), R('1')], [D('1', 1), R('9'), ('answered', 0, 1), ('ended', 0, 1), ('hangup', 1, 0)],
            [R('1'), ('hangup', 0, 0), ('answer', 0, 0), R('1')], [D('1', 1), ('answered', 0, 1), D('2', 2), ('rejected', 0, 2), ('hangup', 0, 0)])]
    return out


@case('C18', fixed=calls_fixed, gen=rcalls, weight=2)
@checked
def call_tracking(inp):
    kind, events = inp
    with Env() as env:
        rung = []
        m = connected(env, kind, incomingCallCallback=rung.append)
        m._extendedIncomingCallIndication = True
        m._callingLineIdentification = True
        if kind in ('wavecom', 'zte'): env.respond = lambda d: [] if d.startswith('ATD') else ['OK']   # these answer only when the call is answered
        calls = []      # every call object ever seen, in order
        model = []      # [obj, alive, answered, incoming, number, rings, ringing]
        by = lambda c: next(x for x in model if x[0] is c)

        def sync(what):
            live = [x for x in model if x[1]]
            eq(len(set(x[0].id for x in live)), len(live), 'identifiers of the active calls after %s are distinct: %s' % (what, [x[0].id for x in live]))
            eq(len(m.activeCalls), len(live), 'number of active calls after %s' % what)
            for x in model:
                c = x[0]
                tracked = m.activeCalls.get(c.id) is c
                eq((tracked, bool(c.active), bool(c.answered)), (x[1], x[1], x[2]), 'tracked/active/answered of call %d after %s' % (model.index(x), what))
                if x[3]: eq(c.ringCount, x[5], 'ring count after %s' % what)
        for e in events:
            del env.sent[:]
            what = repr(e)
            if e[0] == 'ring':
                if e[2] is None: m._extendedIncomingCallIndication = False
                lines = ['+CRING: %s' % e[2] if e[2] else 'RING'] + (['+CLIP: "%s",129,,,,0' % e[1]] if e[1] else [])
                n = len(rung)
                env.feed(lines)
                m._extendedIncomingCallIndication = True
                eq(len(rung), n + 1, 'incoming call callbacks')
                c = rung[-1]
                known = [x for x in model if x[1] and x[3] and x[4] == e[1]]
                if known:
                    expect(any(x[0] is c for x in known), 'a further ring did not go to the known call')
                    for x in known: x[5] += 1
                else:
                    expect(not any(x[0] is c for x in model), 'a new call was not created for a new number')
                    eq(c.number, e[1], 'number of the new call')
                    eq(c.type, 0 if e[2] == 'VOICE' else e[2], 'kind of the new call')
                    model.append([c, True, False, True, e[1], 1, True])
                eq(env.sent, [], 'written while ringing')
            elif e[0] == 'dial':
                nid = e[2]
                live = [x for x in model if x[1]]
                if kind != 'zte' and any(x[0].id == nid for x in live): continue       # the network does not reuse an identifier in use
                if kind != 'zte':
                    env.idle.append(lambda: env.feed(['^ORIG:%d,0' % nid if kind == 'huawei' else '+WIND: 5,%d' % nid]))
                c = m.dial(e[1])
                eq(env.sent, ['ATD%s;\r' % e[1]], 'written to dial')
                expect(not any(x[0] is c for x in model), 'dial returned a known call')
                eq((c.number, bool(c.answered), bool(c.active)), (e[1], False, True), 'new outgoing call')
                if kind != 'zte': eq(c.id, nid, 'identifier assigned by the network')
                model.append([c, True, False, False, e[1], 0, False])
            elif e[0] == 'answered':
                out = [x for x in model if x[1] and not x[3]]
                if kind == 'huawei':
                    t = next((x for x in model if x[1] and x[0].id == e[2]), None)
                    if t is None or t[3]: continue
                    env.feed(['^CONN:%d,0' % e[2]]); t[2] = True
                else:
                    order = [x for x in out if not x[2]]
                    env.feed(['OK' if kind == 'wavecom' else 'CONNECT'])
                    if order:
                        ch = [x for x in order if x[0].answered]
                        eq(len(ch), 1, 'calls answered by one event')
                        ch[0][2] = True
            elif e[0] == 'ended':
                if kind in ('huawei', 'wavecom'):
                    env.feed(['^CEND:%d,10,29,16' % e[2] if kind == 'huawei' else '+WIND: 6,%d' % e[2]])
                    for x in model:
                        if x[1] and x[0].id == e[2]: x[1] = x[2] = False
                else:
                    env.feed(['HANGUP: %d' % e[2]])
                    for x in model:
                        if x[1] and x[0].id == e[2]: x[1] = x[2] = False
            elif e[0] == 'rejected':
                if kind != 'zte': continue
                env.feed(['OK'])
                cand = [x for x in model if x[1] and not x[3] and not x[2]]
                if cand:
                    ch = [x for x in cand if not x[0].active]
                    eq(len(ch), 1, 'calls ended by one rejection')
                    ch[0][1] = ch[0][2] = False
            elif e[0] == 'hangup':
                if e[1] >= len(model): continue
                x = model[e[1]]
                x[0].hangup()
                eq(env.sent, ['ATH\r'] if x[1] else [], 'written by hangup of %s call' % ('an active' if x[1] else 'an ended'))
                x[1] = x[2] = False; x[6] = False
            elif e[0] == 'answer':
                inc = [x for x in model if x[3]]
                if e[1] >= len(inc): continue
                x = inc[e[1]]
                if not x[1]: continue
                r = x[0].answer()
                expect(r is x[0], 'answer() does not return the call')
                eq(env.sent, ['ATA\r'] if x[6] else [], 'written by answer')
                if x[6]: x[6] = False; x[2] = True
            sync(what)


@case('C18', fixed=lambda: [(a, b, c, oth) for a in (0, 1, 3) for b in ('reject', 'answer-end') for c in (1, 2) for oth in (0, 1)])
@checked
def polled_call(inp):
    """call updates obtained by polling"""
    delay, mode, cid, others = inp
    with Env() as env:
        m = connected(env, 'poll')
        inc = None
        if others:
            got = []
            m.incomingCallCallback = got.append
            m._extendedIncomingCallIndication = False
            env.feed(['RING', '+CLIP: "999",129,,,,0'])
            inc = got[0]
            if inc.id == cid: cid += 1
        states = ['empty'] * 0 + [2] * (1 + delay) + [3] * delay
        if mode == 'reject': states += ['none']
        else: states += [0] * (1 + delay) + ['none']
        seen = []
        box = {}

        def respond(d):
            if d.startswith('AT+CLCC'):
                if not states: raise RuntimeError('polled after the call ended')
                s = states.pop(0)
                c = m.activeCalls.get(cid)
                seen.append((s, c and (c.answered, c.active)))
                if s == 'none': return ['OK']
                return ['+CLCC: %d,0,%d,0,0,"555",129' % (cid, s), 'OK']
            return ['OK']
        env.respond = respond
        # the poll thread runs while dial() waits; the first state lets dial() return, the rest is polled afterwards
        env.run_threads = False

        class Stop(Exception): pass

        def poll_first():
            t = env.threads[-1]
            n0 = env.sleep
            orig = m._dialEvent
            saved = list(states)
            del states[1:]
            try:
                t.target(*t.args, **t.kwargs)
            except RuntimeError: pass
            states.extend(saved[1:])
        env.idle.append(poll_first)
        c = m.dial('555')
        expect(m.activeCalls.get(cid) is c, 'dialled call is not tracked under its identifier')
        eq((c.id, c.number, bool(c.answered), bool(c.active)), (cid, '555', False, True), 'dialled call')
        del states[:]
        states.extend(([3] * delay + ['none']) if mode == 'reject' else ([2] * delay + [0] * (1 + delay) + ['none']))
        log = []
        c._callStatusUpdateCallbackFunc = lambda x: log.append(bool(x.answered))
        m._pollCallStatus(expectedState=1, callId=cid, timeout=5)
        eq((bool(c.answered), bool(c.active), cid in m.activeCalls), (False, False, False), 'polled call after its end')
        eq(log, [False] if mode == 'reject' else [True, False], 'answered states reported')
        if inc is not None: expect(m.activeCalls.get(inc.id) is inc and inc.active, 'another call changed')


@case('C18', fixed=[('huawei',), ('wavecom',), ('poll',)])
@checked
def dial_timeout(inp):
    with Env() as env:
        m = connected(env, inp[0])
        if inp[0] == 'poll': env.run_threads = False
        raises(lambda: m.dial('123'), TimeoutException)
        eq(len(m.activeCalls), 0, 'calls tracked after a failed dial')
        env.feed(['^ORIG:1,0'] if inp[0] == 'huawei' else ['+WIND: 5,1'])
        eq(len(m.activeCalls), 0, 'calls tracked after a late update')
        env.respond = lambda d: ['+CME ERROR: 30']
        if inp[0] != 'wavecom':
            raises(lambda: m.dial('123'), CommandError)
            eq(len(m.activeCalls), 0, 'calls tracked after a refused dial')


@case('C18', fixed=lambda: [(k, i, t) for k in ('huawei', 'wavecom') for i in (1, 2, 3) for t in (0, 1)])
@checked
def dial_woken(inp):
    """dial() goes on as soon as it is woken, before the notification's handler has ended"""
    kind, i, t = inp
    with Env() as env:
        m = connected(env, kind)
        env.handoff = True
        env.idle.append(lambda: env.feed(['^ORIG:%d,%d' % (i, t)] if kind == 'huawei' else ['+WIND: 5,%d' % i]))
        try: c = m.dial('123')
        finally: env.release()
        eq((c.id, c.number), (i, '123'), 'call dialled')
        if kind == 'huawei': eq(c.type, t, 'type of the call')
        expect(m.activeCalls.get(i) is c and len(m.activeCalls) == 1, 'the call is tracked under its identifier')


@case('C18', fixed=lambda: [(inc, ans, err) for inc in (False, True) for ans in (False, True) for err in ('ERROR', '+CME ERROR: 3', '+CME ERROR: 100')])
@checked
def hangup_refused(inp):
    """the modem refuses to hang up: the call goes on, and hanging up again tries again"""
    inc, ans, err = inp
    with Env() as env:
        m = env.modem()
        c = M.IncomingCall(m, '1', '129', None, 1, None) if inc else M.Call(m, 1, 0, '1')
        m.activeCalls[1] = c
        if ans:
            if inc: c.answer()
            else: c.answered = True
        del env.sent[:]
        env.respond = lambda d: [err]
        raises(c.hangup, CommandError)
        expect(c.active and bool(c.answered) == ans and m.activeCalls.get(1) is c, 'a call the modem did not hang up is treated as ended')
        env.respond = lambda d: ['OK']
        if inc and not ans:
            c.answer()
            eq(env.sent, ['ATH\r', 'ATA\r'], 'written to hang up (refused) and then answer')
            expect(c.answered, 'the call was not answered')
            return
        c.hangup()
        eq(env.sent, ['ATH\r', 'ATH\r'], 'written to hang up twice, refused once')
        expect(not c.active and not c.answered and 1 not in m.activeCalls, 'the call is still active')
        c.hangup()
        eq(len(env.sent), 2, 'commands written, after hanging up an ended call')


@case('C18', fixed=lambda: [(a, b) for a in (129, 145) for b in (129, 145)])
@checked
def ring_again(inp):
    """the same number rings again, announced with another type of number"""
    with Env() as env:
        got = []
        m = env.modem(_callingLineIdentification=True, incomingCallCallback=got.append)
        for t in inp: env.feed(['RING', '+CLIP: "27831234567",%d,,,,0' % t])
        expect(len(got) == 2 and got[0] is got[1] and len(m.activeCalls) == 1, 'a further ring is another call')
        eq(got[0].ringCount, 2, 'rings counted')


# -- C19 -------------------------------------------------------------------------------------------------------------
TONES = '0123456789*#ABCD'


def rtones(r):
    return dict(tones=''.join(r.choice(TONES) for _ in range(r.choice((1, 1, 2, 3, 8, 30)))), base=r.choice(('+VTS=', '^DTMF={cid},')), answered=r.random() < .8, cid=r.randrange(1, 12), err=r.choice((None, None, None, 3, 30, 100, 11, 4, 300)), incoming=r.random() < .3)


@case('C19', fixed=lambda: [dict(tones=t, base=b, answered=a, cid=c, err=e, incoming=i) for t in ('5', '12', '*123#', '111', '0*#ABCD') for b in ('+VTS=', '^DTMF={cid},') for a in (True, False) for c in (1, 12) for e in (None, 3, 30, 100, 4, 'ERROR', 'silent') for i in (False, True)], gen=rtones)
@checked
def dtmf(o):
    with Env() as env:
        m = env.modem()
        M.Call.DTMF_COMMAND_BASE = o['base']
        if o['incoming']: c = M.IncomingCall(m, '1', '129', None, o['cid'], None)
        else: c = M.Call(m, o['cid'], 0, '1')
        m.activeCalls[o['cid']] = c
        c.answered = o['answered']
        env.respond = lambda d: ['OK'] if o['err'] is None else [] if o['err'] == 'silent' else ['ERROR'] if o['err'] == 'ERROR' else ['+CME ERROR: %d' % o['err']]
        call = lambda: c.sendDtmfTone(o['tones'])
        if not o['answered']:
            e = raises(call, InvalidStateException)
            eq(type(e), InvalidStateException, 'exception for a call that is not answered')
            eq(env.sent, [], 'written for a call that is not answered')
            return
        if o['err'] is None:
            call()
            expect(not env.waits or env.waits[-1] is None or env.waits[-1] >= len(o['tones']), 'the modem has %r s for %d tones' % (env.waits and env.waits[-1], len(o['tones'])))
        else:
            e = raises(call, InterruptedException, CommandError, TimeoutException)
            if o['err'] in (3, 30):
                eq(type(e), InterruptedException, 'exception for CME %d' % o['err'])
                eq((type(e.cause), e.cause.code), (CmeError, o['err']), 'cause')
            elif o['err'] == 'silent': eq(type(e), TimeoutException, 'exception')
            elif o['err'] == 'ERROR': eq(type(e), CommandError, 'exception')
            else: eq((type(e), e.code), (expected_error('CME', o['err']), o['err']), 'exception for CME %d' % o['err'])
        b = o['base'].replace('{cid}', str(o['cid']))
        eq(env.sent, ['AT' + ';'.join(b + t for t in o['tones']) + '\r'], 'tone command')
        eq(bool(c.answered), True, 'answered after the tones')


@case('C19', fixed=lambda: [(a, b, c) for a in (0, 1, 2) for b in (False, True) for c in (None, 'ERROR')])
@checked
def answering(inp):
    times, hung, err = inp
    with Env() as env:
        m = env.modem()
        log = []
        c = M.IncomingCall(m, '1', '129', None, 1, 'VOICE')
        m.activeCalls[1] = c
        eq((bool(c.ringing), bool(c.answered), c.type), (True, False, 0), 'new incoming call')
        if hung:
            c.hangup(); del env.sent[:]
            c.answer()
            eq((env.sent, bool(c.answered)), ([], False), 'answering a call that no longer rings')
            return
        if err:
            env.respond = lambda d: ['ERROR']
            raises(c.answer, CommandError)
            eq((env.sent, bool(c.answered), bool(c.ringing)), (['ATA\r'], False, True), 'refused answer')
            env.respond = lambda d: ['OK']
            del env.sent[:]
        for k in range(times + 1): expect(c.answer() is c, 'answer() does not return the call')
        eq((env.sent, bool(c.answered), bool(c.ringing)), (['ATA\r'], True, False), 'answered call')


# -- C20 -------------------------------------------------------------------------------------------------------------
UTEXT = ['', 'Your balance is R10.00', 'Menu\r\n1. Data\r\n2. SMS', '04120041', 'a, b: c', '+CUSD', "it's 5, ok", 'line\r\n\r\nend']


def cusd(code, text, dcs=15, sp=' '): return '+CUSD:%s%d,"%s",%d' % (sp, code, text, dcs)


def russd(r):
    n = r.choice((1, 1, 1, 2, 3))
    ans = [(r.choice((0, 1, 1, 2, 4, 5)) if n == 1 else 2, r.choice(UTEXT)) for _ in range(n)]
    if n > 1: ans[r.randrange(n)] = (r.choice((0, 1, 1)), r.choice(UTEXT))
    return dict(answers=ans, how=r.choice(('ack', 'later', 'later')), sp=r.choice(('', ' ', '  ')), dcs=r.choice((0, 15, 68, 72)), noise=r.choice(((), (), ('^RSSI:1',))), reply=r.choice((None, 'reply', 'cancel')))


def ussd_fixed():
    out = []
    for how in ('ack', 'later'):
        for t in UTEXT:
            for c in (0, 1, 2, 4, 5): out.append(dict(answers=[(c, t)], how=how, sp=' ', dcs=15, noise=(), reply=('reply', 'cancel')[c % 2]))
        for a in ([(1, 'menu'), (2, 'bye')], [(2, 'bye'), (1, 'menu')], [(0, 'info'), (2, 'x')], [(2, 'x'), (0, 'info')], [(2, 'x'), (1, 'menu\r\nitem'), (2, 'y')], [(2, ''), (0, '')]):
            out.append(dict(answers=a, how=how, sp=' ', dcs=15, noise=(), reply='cancel'))
            out.append(dict(answers=a, how=how, sp='', dcs=72, noise=(), reply='reply'))
    return out


def ussd_expected(ans):
    if len(ans) == 1: return ans[0][1], ans[0][0] == 1
    main = [a for a in ans if a[0] != 2][0]
    return main[1], False if any(a[0] == 2 for a in ans) else main[0] == 1


@case('C20', fixed=ussd_fixed, gen=russd)
@checked
def ussd_flow(o):
    lines = []
    for c, t in o['answers']: lines += cusd(c, t, o['dcs'], o['sp']).split('\r\n')
    lines = [l for l in lines]
    text, active = ussd_expected(o['answers'])
    noise = list(o['noise']) if o['how'] == 'ack' else []
    with Env() as env:
        m = env.modem()
        first = [True]
        if o['how'] == 'ack': env.respond = lambda d: lines + noise + ['OK']
        else:
            env.respond = lambda d: ['OK']
            env.idle.append(lambda: env.feed(lines))
        u = m.sendUssd('*101#')
        eq(env.sent, ['AT+CUSD=1,"*101#",15\r'], 'written')
        eq((u.message, bool(u.sessionActive)), (text, active), 'USSD answer %s' % (lines,))
        expect(not m._ussdSessionEvent, 'a USSD wait remains')
        del env.sent[:]
        if o['reply'] == 'cancel':
            env.respond = lambda d: ['OK']
            u.cancel()
            eq(env.sent, ['AT+CUSD=2\r'] if active else [], 'written by cancel')
        elif o['reply'] == 'reply':
            env.respond = lambda d: ['+CUSD: 0,"done",15', 'OK']
            if active:
                v = u.reply('1')
                eq(env.sent, ['AT+CUSD=1,"1",15\r'], 'written by reply')
                eq((v.message, bool(v.sessionActive)), ('done', False), 'answer to the reply')
            else:
                raises(lambda: u.reply('1'), InvalidStateException)
                eq(env.sent, [], 'written by a reply to an ended session')


@case('C20', fixed=[('timeout',), ('error',), ('silent',)])
@checked
def ussd_failure(inp):
    with Env() as env:
        m = env.modem()
        if inp[0] == 'error': env.respond = lambda d: ['+CME ERROR: 30']
        if inp[0] == 'silent': env.respond = lambda d: []
        e = raises(lambda: m.sendUssd('*1#', responseTimeout=3), TimeoutException, CommandError)
        eq(type(e), CmeError if inp[0] == 'error' else TimeoutException, 'exception')
        expect(not m._ussdSessionEvent, 'a USSD wait remains')
        expect(not m._responseEvent, 'a response wait remains')
        # a late answer disturbs nothing, and the next request gets its own answer
        env.feed(['+CUSD: 1,"late",15'])
        env.respond = lambda d: ['OK']
        env.idle.append(lambda: env.feed(['+CUSD: 0,"mine",15']))
        u = m.sendUssd('*2#')
        eq((u.message, bool(u.sessionActive)), ('mine', False), 'next answer')


@case('C20', fixed=lambda: [(s, t, n) for s in (0, 1, 2) for t in ('', 'text', 'a\r\nb') for n in (1, 2)])
@checked
def ussd_woken(inp):
    """sendUssd() goes on as soon as it is woken, before the notification's handler has ended"""
    s, text, n = inp
    with Env() as env:
        m = env.modem()
        env.handoff = True
        for k in range(n):
            env.idle.append(lambda: env.feed(('+CUSD: %d,"%s%d",15' % (s, text, k)).split('\r\n')))
            try: u = m.sendUssd('*1#')
            finally: env.release()
            eq((u and u.message, bool(u and u.sessionActive)), ('%s%d' % (text, k), s == 1), 'answer')


# -- C21 -------------------------------------------------------------------------------------------------------------
def pin_fixed():
    out = []
    for st in ('+CPIN: READY', '+CPIN: SIM PIN', '+CPIN: SIM PUK', '+CPIN: PH-SIM PIN'):
        for pin in (None, '1234', '0000'):
            for end in ('ok', 'noend', 'extra'): out.append((st, pin, end))
    out += [(None, p, e) for p in (None, '1234') for e in ('noend', 'noise', 'error', 'cme11')]
    return out


def pin_respond(st, end, res='OK'):
    def respond(d):
        if d == 'AT+CPIN?\r':
            if st is None: return {'noend': [], 'noise': ['^BOOT:1'], 'error': ['ERROR'], 'cme11': ['+CME ERROR: 11']}[end]
            return {'ok': [st, 'OK'], 'noend': [st], 'extra': ['^BOOT:1', st]}[end]
        if d.startswith('AT+CPIN='): return [res]
        return None
    return respond


def pin_check(st, pin, end, call, writes, res):
    """writes(): PIN writes so far"""
    if st == '+CPIN: READY':
        call()
        eq(writes(), [], 'PIN written to a ready SIM')
    elif st is None:
        e = raises(call, TimeoutException, CommandError)
        if end in ('noend', 'noise'): eq(type(e), TimeoutException, 'exception')
        eq(writes(), [], 'PIN written without knowing the status')
    elif pin is None:
        e = raises(call, X.PinRequiredError)
        eq(e.code, 11, 'code of the exception')
        eq(writes(), [], 'PIN written although none was given')
    else:
        if res == 'OK': call()
        else: eq(type(raises(call, CommandError)), X.IncorrectPinError, 'exception for a wrong PIN')
        eq(writes(), ['AT+CPIN="%s"\r' % pin], 'PIN writes')


@case('C21', fixed=lambda: [x + (r,) for x in pin_fixed() for r in ('OK', '+CME ERROR: 16')])
@checked
def unlock(inp):
    st, pin, end, res = inp
    f = pin_respond(st, end, res)
    with Env(f) as env:
        m = env.modem()
        if not hasattr(m, '_unlockSim'): raise Skip()
        pin_check(st, pin, end, lambda: m._unlockSim(pin), lambda: [d for d in env.sent if d.startswith('AT+CPIN=')], res)
        eq(env.sent[:1], ['AT+CPIN?\r'], 'first command')


@case('C21', fixed=lambda: [x + (r, z, k) for x in pin_fixed() for r in ('OK', '+CME ERROR: 16') for z in (False, True) for k in ('poll', 'huawei', 'wavecom', 'zte')])
@checked
def connect_pin(inp):
    st, pin, end, res, atz, kind = inp
    import gsmmodem.serial_comms as S
    import types
    from .env import FakeSerial
    with Env() as env:
        m = M.GsmModem('-- TEST --')
        env.m = m
        base = install_table(m, kind)
        f = pin_respond(st, end, res)
        zs = [0]

        def respond(d):
            if d.startswith('ATZ') and atz:
                zs[0] += 1
                if zs[0] == 1: return ['ERROR']
            r = f(d)
            return base(d) if r is None else r
        env.respond = respond
        fake = FakeSerial(env, m)
        saved = S.serial
        S.serial = types.SimpleNamespace(Serial=lambda *a, **k: fake, SerialException=saved.SerialException)
        env.run_threads = False
        try:
            pin_check(st, pin, end, lambda: m.connect(pin) if pin else m.connect(), lambda: [d for d in env.sent if d.startswith('AT+CPIN=')], res)
        finally:
            S.serial = saved


# -- C22 -------------------------------------------------------------------------------------------------------------
@case('C22', fixed=lambda: list(range(100)) + ['bad', 'empty', 'nosp', 'error'])
@checked
def signal(v):
    if isinstance(v, tuple):
        mt = re.match(r'\+CSQ:\s*([0-9]+),', v[1])
        if re.match(r'(OK|ERROR|COMMAND NOT|\+CM[ES] ERROR)', v[1]): raise Skip()
        with Env(lambda d: [v[1], 'OK']) as env:
            m = env.modem()
            if mt is None: raises(lambda: m.signalStrength, CommandError)
            else: eq(m.signalStrength, -1 if int(mt.group(1)) == 99 else int(mt.group(1)), 'signal strength for %s' % short(v[1]))
        return
    ans = {'bad': ['+CSQ: x,99', 'OK'], 'empty': ['OK'], 'nosp': ['+CSQ:31,0', 'OK'], 'error': ['+CME ERROR: 100']}.get(v) or ['+CSQ: %d,%d' % (v, 99 if v % 2 else 0), 'OK']
    with Env(lambda d: ans) as env:
        m = env.modem()
        if v in ('bad', 'empty', 'error'): raises(lambda: m.signalStrength, CommandError)
        else: eq(m.signalStrength, {'nosp': 31, 99: -1}.get(v, v), 'signal strength for %s' % ans[0])
        eq(env.sent, ['AT+CSQ\r'], 'written')


OPS = ['MTN', 'vodacom SA', 'O2 - UK', '"', 'a,b', '65501', '\u00c9', 'A "B" C', 'x",y', '"",2 z']


@case('C22', fixed=lambda: [(o, tail, pre) for o in OPS for tail in ('', ',2', ',0') for pre in ((), ('+FOO: 1',))] + [(None, '', ()), (None, 'x', ())])
@checked
def operator(inp):
    op, tail, pre = inp
    ans = list(pre) + (['+COPS: 0,0,"%s"%s' % (op, tail)] if op is not None else ['+COPS: 0'] if not tail else ['+COPS: 1,2,3']) + ['OK']
    with Env(lambda d: ans) as env:
        m = env.modem()
        eq(m.networkName, op, 'operator of %s' % ans)
        eq(env.sent, ['AT+COPS?\r'], 'written')


@case('C22', fixed=[['+CLAC:&C,D,E,+CMGF', ], ['+CLAC: &C, D,E'], ['&C,D,E'], ['&C', 'D', '+CMGF '], ['A', 'B'], [' A,B '], ['FGH'], [], None, ['+CLAC:+CLAC']],
      gen=lambda r: [r.choice(['+CLAC:', '+CLAC: ', '']) + ','.join(r.choice(['&C', 'D', '^DTMF', '+CMGF', '+VTS', 'E']) for _ in range(r.randrange(1, 20)))] if r.random() < .5 else [r.choice(['&C', 'D', '^DTMF', '+CMGF', '+VTS ']) for _ in range(r.randrange(2, 20))])
@checked
def supported(lines):
    with Env(lambda d: ['ERROR'] if lines is None else list(lines) + ['OK']) as env:
        m = env.modem()
        if not lines: want = None
        elif len(lines) == 1:
            s = lines[0]
            if s.startswith('+CLAC'): s = s[6:]
            want = [c.strip() for c in s.split(',')]
        else: want = [c.strip() for c in lines]
        eq(m.supportedCommands, want, 'supported commands of %s' % (lines,))
        eq(env.sent, ['AT+CLAC\r'], 'written')


def rcoverage(r):
    seq = [r.choice((0, 1, 2, 2, 2, 3, 4, 5, None, 1)) for _ in range(r.randrange(1, 8))]
    return dict(creg=seq, csq=[r.choice((99, 0, 0, 1, 15, 31, 99)) for _ in range(r.randrange(1, 8))], timeout=r.choice((None, 1, 3, 5.5, 100)))


@case('C22', fixed=lambda: [dict(creg=c, csq=q, timeout=t) for c in ([1], [5], [2, 2, 1], [0], [3], [2, 3], [2, 0], [4, 1], [None], [2, None], [2] * 5 + [1]) for q in ([15], [99, 0, 20], [0, 0, 0, 31], [99], [0]) for t in (None, 2, 4, 50)] +
      [dict(creg=c, csq=q, timeout=t, loc=l) for c in ([1], [5], [2, 2, 1], [0], [3], [2, 3], [4, 1], [2]) for q in ([15], [0, 9]) for t in (3, 50) for l in (',"00C3","1A0F"', ',00C3,1A0F', ',"",""')] +
      [dict(creg=c, csq=q, timeout=t) for c in ([2], [1]) for q in ([0], [99]) for t in (0, .5)], gen=rcoverage)
@checked
def coverage(o):
    creg, csq = list(o['creg']), list(o['csq'])
    # a timeout is needed when the answers never lead to an end
    done = any(c in (0, 3) for c in creg)
    log = []

    def respond(d):
        if d.startswith('AT+CREG'):
            v = creg.pop(0) if len(creg) > 1 else creg[0]
            log.append(('creg', v))
            return ['+CREG: %d,%d%s' % (2 if o.get('loc') else 0, v, o.get('loc', '')), 'OK'] if v is not None else ['ERROR']
        v = csq.pop(0) if len(csq) > 1 else csq[0]
        log.append(('csq', v))
        return ['+CSQ: %d,99' % v, 'OK']
    # reference simulation over the answers
    c, q, t = list(o['creg']), list(o['csq']), 0
    check, res = True, None
    while True:
        if o['timeout'] is not None and t >= o['timeout']:
            res = 'timeout'; break
        if t > 200:
            if o['timeout'] is None: raise Skip()
            res = 'timeout'; break
        if check:
            v = c.pop(0) if len(c) > 1 else c[0]
            if v in (1, 5) or v is None: check = False
            elif v in (0, 3): res = 'state'; break
        else:
            v = q.pop(0) if len(q) > 1 else q[0]
            if 0 < v != 99: res = v; break
        t += 1
    with Env(respond) as env:
        m = env.modem()
        call = lambda: m.waitForNetworkCoverage(o['timeout']) if o['timeout'] is not None else m.waitForNetworkCoverage()
        if res == 'state':
            raises(call, InvalidStateException)
            expect(log[-1] in (('creg', 0), ('creg', 3)), 'InvalidStateException after %s' % (log,))
        else:
            try:
                got = call()
            except TimeoutException:
                expect(o['timeout'] is not None and env.now >= o['timeout'], 'TimeoutException before the timeout fired')
                expect(res == 'timeout', 'TimeoutException although coverage was reported: %s' % (log,))
            else:
                expect(res != 'timeout', 'no TimeoutException')
                expect(got > 0 and log and log[-1] == ('csq', got), 'returned %r after %s' % (got, log[-3:]))
                k = max(i for i, x in enumerate(log) if x[0] == 'creg') if any(x[0] == 'creg' for x in log) else None
                expect(k is not None and log[k][1] in (1, 5, None), 'coverage returned before registration: %s' % (log,))
                expect(all(x[0] == 'creg' for x in log[:k + 1]), 'signal strength read before registration')


# -- C23 -------------------------------------------------------------------------------------------------------------
NOTES = [['RING'], ['+CDS: 30', '+CMTI: "SM",3'], ['+CMTIX', 'RING'], ['+CRING: VOICE'], ['+CRING: VOICE', '+CLIP: "+2782",145'], ['RING', 'NO MATCH'], ['+CMTI: "SM",3'], ['+CMTI: "ME",12'], ['+CUSD: 0,"x",15'], ['+CUSD: 1,"multi', 'line",15'], ['+CDSI: "SM",4'],
         ['^RSSI:3'], ['^CONN:1,0'], ['^CEND:1,2,3,4'], ['^ORIG:1,0'], ['OK'], ['+CREG: 1', '+CMTI: "SM",3'], ['foo', 'RING'], ['x', '^CEND:1,2,3,4'], ['a', 'b', 'c'], ['+CMTI'], ['+CDSI: bad'], ['NO CARRIER'], ['BUSY'],
         ['^CONN:1,0', 'RING'], ['+CMTI: "SM",3', '+CDSI: "SM",4'], ['+CDSI: "SM",4', '+CMTI: "SM",3'], ['^BOOT:1,2', '+CUSD: 2,"",15'], ['CONNECT'], ['+WIND: 6,1'], ['HANGUP: 1'], ['+CUSD: 0,"RING ME",15'], ['+CUSD: 1,"a', 'RING b",15'], ['^RSSI:3', '+CRING: VOICE', '+CLIP: "+2782",145'], ['foo', 'bar', '+CRING: VOICE'], ['+cmti: "SM",3'], [' +CMTI: "SM",3'], ['STRING RING?'], ['+CMTI: "SM",x']]


@case('C23', fixed=lambda: [(n, w) for n in NOTES for w in (False, True)], gen=lambda r: ([x for _ in range(r.randrange(1, 3)) for x in r.choice(NOTES)], r.random() < .5))
@checked
def dispatch(inp):
    lines, waiting = inp
    rec = []
    table = [(re.compile(r'^\^CONN:(\d),(\d)$'), 'conn'), (re.compile(r'^\^CEND:(\d),(\d),(\d)+,(\d)+$'), 'cend'), (re.compile(r'^\^C.*$'), 'any-c'), (re.compile(r'^OK$'), 'ok'), (re.compile(r'^HANGUP:\s*(\d+)$'), 'hangup')]

    def want():
        for i, l in enumerate(lines):
            if l.startswith('+CMTI'):
                mm = re.match(r'^\+CMTI:\s*"([^"]+)",(\d+)$', l)
                return ('sms', mm.group(1), mm.group(2)) if mm else ('none',)
            if l.startswith('+CUSD'): return ('ussd',) if waiting else ('none',)
            if l.startswith('+CDSI'):
                mm = re.match(r'^\+CDSI:\s*"([^"]+)",(\d+)$', l)
                return ('report', mm.group(1), mm.group(2)) if mm else ('none',)
            if 'RING' in l: return ('ring', i)
            for rx, name in table:
                if rx.match(l): return ('table', name, l)
        return ('none',)
    exp = want()
    if exp[0] == 'ussd' and not re.search(r'\+CUSD:\s*(\d),"(.*?)",(\d+)', '\r\n'.join(lines), re.S): raise Skip()
    if exp[0] == 'ussd' and len(re.findall(r'\+CUSD:\s*(\d),"(.*?)",(\d+)', '\r\n'.join(lines), re.S)) > 1: raise Skip()

    def respond(d):
        if 'CMGR=3' in d or 'CMGR=12' in d: return ['+CMGR: 0,,23', bytes(codec.deliver(BASED)[0]).hex().upper(), 'OK']
        if 'CMGR=4' in d: return ['+CMGR: 0,,23', report_pdu(9, '123', 0), 'OK']
        return ['OK']
    with Env(respond) as env:
        m = env.modem(incomingCallCallback=lambda c: rec.append(('ring', c)), smsReceivedCallback=lambda s: rec.append(('smscb', s)), smsStatusReportCallback=lambda s: rec.append(('repcb', s)))
        textmode(m, False)
        m._callStatusUpdates = tuple((rx, lambda mt, name=name: rec.append(('table', name, mt.string))) for rx, name in table)
        m._callingLineIdentification = True
        del env.sent[:]
        if waiting:
            m._ussdSessionEvent = env.Event()
        env.feed(list(lines))
        ussd = bool(m._ussdSessionEvent and m._ussdSessionEvent.is_set())
        eq(ussd, exp[0] == 'ussd', 'USSD answer handled for %s' % (lines,))
        kinds = [x[0] for x in rec]
        if exp[0] == 'ring': eq(kinds, ['ring'], 'handlers run for %s' % (lines,)); eq([d for d in env.sent if 'CRC' not in d], [], 'written')
        if exp[0] == 'ring':
            nxt = (lines[exp[1] + 1:] + [''])[0]
            clip = re.match(r'^\+CLIP:\s*"(\+{0,1}\d+)",(\d+).*$', nxt)
            eq(rec[0][1].number, clip.group(1) if clip and m._callingLineIdentification else None, 'number of the call for %s' % (lines,))
        elif exp[0] == 'sms':
            eq(kinds, ['smscb'], 'handlers run for %s' % (lines,))
            eq(env.sent, ['AT+CPMS="%s"\r' % exp[1], 'AT+CMGR=%s\r' % exp[2], 'AT+CMGD=%s,0\r' % exp[2]], 'commands for a new message')
            eq((rec[0][1].text, rec[0][1].number), (BASED['text'], BASED['number']), 'message given to the callback')
        elif exp[0] == 'report':
            eq(kinds, ['repcb'], 'handlers run for %s' % (lines,))
            eq(env.sent, ['AT+CPMS="%s"\r' % exp[1], 'AT+CMGR=%s\r' % exp[2], 'AT+CMGD=%s,0\r' % exp[2]], 'commands for a status report')
        elif exp[0] == 'table':
            eq(rec, [exp], 'handlers run for %s' % (lines,)); eq(env.sent, [], 'written')
        else:
            eq(kinds, [], 'handlers run for %s' % (lines,)); eq(env.sent, [], 'written for %s' % (lines,))


@case('C23', fixed=lambda: [(t, c, w) for t in (False, True) for c in (None, 'SM', 'ME') for w in (1, 2, 3)])
@checked
def new_message(inp):
    text, cur, n = inp
    got = []
    d = sample_messages()[0]

    def respond(x):
        if 'CMGR' in x:
            return ['+CMGR: "REC UNREAD","%s",,"%s"' % (d['number'], tline(d)), 'hello', 'OK'] if text else ['+CMGR: 0,,23', pdu_of(d), 'OK']
        return ['OK']
    with Env(respond) as env:
        m = env.modem(smsReceivedCallback=got.append, _smsMemReadDelete=cur)
        textmode(m, text)
        del env.sent[:]
        for k in range(n): env.feed(['+CMTI: "SM",%d' % (k + 5)])
        eq(len(got), n, 'messages given to the callback')
        (expect_text_message if text else expect_pdu_message)(dict(d, stat=0), got[0])
        w = [] if cur == 'SM' else ['AT+CPMS="SM"\r']
        for k in range(n): w += ['AT+CMGR=%d\r' % (k + 5), 'AT+CMGD=%d,0\r' % (k + 5)]
        eq(env.sent, w, 'commands written')


@case('C23', fixed=lambda: [(t, i) for t in (False, True) for i in (0, 9, 10, 255, 999, 1000, 12345, 1234567)])
@checked
def new_message_slot(inp):
    text, i = inp
    got, pos = [], []
    d = sample_messages()[0]

    def respond(x):
        if 'CMGR' in x:
            return ['+CMGR: "REC UNREAD","%s",,"%s"' % (d['number'], tline(d)), 'hello', 'OK'] if text else ['+CMGR: 0,,23', pdu_of(d), 'OK']
        return ['OK']
    with Env(respond) as env:
        def received(sms): got.append(sms); pos.append(list(env.sent)); raise ValueError('the application fails')
        m = env.modem(smsReceivedCallback=received, _smsMemReadDelete='SM')
        textmode(m, text)
        del env.sent[:]
        try: env.feed(['+CMTI: "SM",%d' % i])
        except ValueError: pass
        want = ['AT+CMGR=%d\r' % i, 'AT+CMGD=%d,0\r' % i]
        eq(len(got), 1, 'messages given to the callback')
        eq(pos, [want], 'commands written before the message is given to the application')
        eq(env.sent, want, 'commands written')


# -- C27 -------------------------------------------------------------------------------------------------------------
class Settings:
    """a modem with a service centre number and a message mode; kind: how it answers the query"""
    def __init__(self, number, kind): self.number, self.kind, self.refuse, self.mode = number, kind, None, None
    def __call__(self, d):
        if self.refuse: return list(self.refuse)
        if d == 'AT+CSCA?\r':
            if self.number is None: return {'330': ['+CMS ERROR: 330'], 'none': ['OK'], 'other': ['+FOO: "1",2', 'OK']}.get(self.kind, ['OK'])
            return {'pre': ['+FOO: "77",1'], 'post': []}.get(self.kind, []) + ['+CSCA:%s"%s",%d' % ('' if self.kind == 'nosp' else ' ', self.number, 145)] + (['+CSCX: "88",1'] if self.kind == 'post' else []) + ['OK']
        m = re.match('^AT[+]CSCA="(.*)"\r$', d)
        if m: self.number = m.group(1); return ['OK']
        m = re.match('^AT[+]CMGF=([01])\r$', d)
        if m: self.mode = m.group(1) == '1'; return ['OK']
        if d.startswith('AT+CMGR='):
            return ['+CMGR: "REC READ","+27101","","14/01/02,03:04:05+08"' if self.mode else '+CMGR: 1,,%d' % (len(DELIVER) // 2 - 1), 'hello' if self.mode else DELIVER, 'OK']
        return ['OK']


DELIVER = '00040B917238880900F10000993092516195800AE8329BFD4697D9EC37'
REFUSALS = (None, None, ['ERROR'], ['+CMS ERROR: 302'], ['+CME ERROR: 100'], ['+CMS ERROR: 330'])


def rsettings(r):
    nums = ['+27831234567', '0123', '5', '+1', 'abc', '2' * 30]
    ops = [r.choice((('get', r.choice(REFUSALS)), ('set', r.choice(nums), r.choice(REFUSALS)), ('mode', r.random() < .5, r.choice(REFUSALS)), ('change', r.choice(nums)), ('read',), ('alive', r.random() < .7))) for _ in range(r.randrange(1, 8))]
    return dict(number=r.choice([None] + nums), kind=r.choice(('plain', 'nosp', 'pre', 'post', '330', 'none', 'other')), ops=ops)


def settings_fixed():
    out = []
    for number in (None, '+2712', '5'):
        for kind in ('plain', 'nosp', 'pre', 'post', '330', 'none', 'other'):
            for ops in ([('get', None), ('change', '99'), ('get', None)], [('set', '+3', None), ('get', None), ('set', '+3', None)], [('set', '+3', ['+CMS ERROR: 302']), ('get', None)],
                        [('get', None), ('set', '7', ['ERROR']), ('get', None), ('set', '7', None), ('get', None)], [('get', ['ERROR']), ('get', None)], [('get', ['+CMS ERROR: 330']), ('get', None)]):
                out.append(dict(number=number, kind=kind, ops=ops))
    for a in (True, False):
        for b in (True, False):
            for ref in (None, ['ERROR']):
                out.append(dict(number=None, kind='plain', ops=[('mode', a, None), ('read',), ('mode', b, ref), ('read',), ('mode', a, None), ('read',)]))
                out.append(dict(number=None, kind='plain', ops=[('mode', a, None), ('alive', False), ('mode', b, ref), ('set', '8', None), ('get', None), ('alive', True), ('mode', not b, None), ('read',)]))
    return out


@case('C27', fixed=settings_fixed, gen=rsettings)
@checked
def settings(o):
    dev = Settings(o['number'], o['kind'])
    with Env(dev) as env:
        m = env.modem()
        m.smsTextMode = True; m.smsTextMode = False
        dev.mode = False
        del env.sent[:]
        known, mode, alive = None, False, True
        for op in o['ops']:
            n = len(env.sent)
            new = lambda: env.sent[n:]
            if op[0] == 'change': dev.number = op[1]
            elif op[0] == 'alive': m.alive = alive = op[1]
            elif op[0] == 'get':
                dev.refuse = op[1]
                if known is not None: eq((m.smsc, new()), (known, []), 'known number')
                elif op[1] and op[1] != ['+CMS ERROR: 330']:
                    raises(lambda: m.smsc, CommandError); eq(new(), ['AT+CSCA?\r'], 'query')
                else:
                    want = None if op[1] else dev.number
                    eq((m.smsc, new()), (want, ['AT+CSCA?\r']), 'number of the modem')
                    known = want
            elif op[0] == 'set':
                dev.refuse = op[2]
                if op[1] == known or not alive: m.smsc = op[1]; eq(new(), [], 'nothing to write'); known = op[1]
                else:
                    if op[2]: raises(lambda: setattr(m, 'smsc', op[1]), CommandError)
                    else: m.smsc = op[1]; known = op[1]
                    eq(new(), ['AT+CSCA="%s"\r' % op[1]], 'number set')
                n = len(env.sent)
                if known is not None: eq((m.smsc, new()), (known, []), 'number after setting it')
            elif op[0] == 'mode':
                dev.refuse = op[2]
                if op[1] == mode or not alive: m.smsTextMode = op[1]; eq(new(), [], 'nothing to write'); mode = op[1]
                else:
                    if op[2]: raises(lambda: setattr(m, 'smsTextMode', op[1]), CommandError)
                    else: m.smsTextMode = op[1]; mode = op[1]
                    eq(new(), ['AT+CMGF=%d\r' % op[1]], 'mode set')
                eq(m.smsTextMode, mode, 'mode')
            elif op[0] == 'read':
                dev.refuse, dev.mode = None, mode
                eq(m.readStoredSms(1).text, 'hello' if mode else 'hellohello', 'message read in the mode that was set')


@case('C27', fixed=lambda: [(n, l, e) for n in ('manufacturer', 'model', 'revision', 'imei', 'imsi') for l in ('huawei', ' a b ', '358', '') for e in (None, 'ERROR', '+CME ERROR: 4', 'silent')])
@checked
def identify(inp):
    name, line, err = inp
    cmd = dict(manufacturer='AT+CGMI', model='AT+CGMM', revision='AT+CGMR', imei='AT+CGSN', imsi='AT+CIMI')[name]
    with Env(lambda d: [] if err == 'silent' else [err] if err else [line, 'second', 'OK']) as env:
        m = env.modem()
        if err is None: eq(getattr(m, name), line, name)
        elif err == 'silent': raises(lambda: getattr(m, name), TimeoutException)
        elif name == 'revision': eq(m.revision, None, 'revision the modem cannot tell')
        else: raises(lambda: getattr(m, name), CommandError)
        eq(env.sent, [cmd + '\r'], 'commands')


# -- C28 -------------------------------------------------------------------------------------------------------------
OFFERS = ['("SM","BM","SR"),("SM")', '("ME","SM","MT"),("ME","SM"),("SM")', '("BM"),("SM")', '(),()', '("SR"),("BM"),("ME","SR")', '', '("SM"),', '("ME")', None]


def rconnect(r):
    o = dict(kind=r.choice(['huawei', 'huawei2', 'wavecom', 'zte', 'poll']), clac=r.random() < .6, own=r.choice([None, '+27821', '12345']), given=r.choice([None, None, '+31000']), forgets=r.random() < .5,
             mode=r.random() < .5, offer=r.choice(OFFERS), cfun=r.choice([1, 0, 4, None]), wind=r.choice([0, 50, 63]), pin=r.choice([None, '1234']), fail=None, miss330=r.random() < .5,
             extra=r.choice(['', '', '^CVOICE', '^USSDMODE']), vts=r.random() < .6, again=r.random() < .3)
    o['refuse'] = [c for c in ('AT+CNMI', 'AT+CLIP', 'AT+CRC', 'AT+CVHU', 'AT+COPS=', 'AT+CSMP', 'AT^CVOICE', 'AT^USSDMODE') if r.random() < .2]
    if r.random() < .3: o['fail'] = r.choice(['ATE0', 'AT+CMEE', 'AT+CMGF', 'AT+CSCA=', 'AT+CPMS="', 'AT+WIND=50'])
    return o


def connect_fixed():
    base = dict(kind='poll', clac=True, own='+27821', given=None, forgets=False, mode=False, offer=OFFERS[0], cfun=1, wind=0, pin=None, fail=None, miss330=False, refuse=[], extra='', vts=True)
    out = [base]
    for k in ('huawei', 'huawei2', 'wavecom', 'zte', 'poll'):
        for c in (True, False):
            for v in (True, False): out.append(dict(base, kind=k, clac=c, vts=v, wind=50 if v else 0))
    for own in (None, '+27821'):
        for given in (None, '+31000'):
            for f in (True, False):
                for m in (True, False):
                    for e in (True, False): out.append(dict(base, own=own, given=given, forgets=f, miss330=m, mode=e))
    out += [dict(base, offer=x, refuse=r) for x in OFFERS for r in ([], ['AT+CNMI'])]
    out += [dict(base, refuse=[x], again=a) for a in (False, True) for x in ('AT+CNMI', 'AT+CLIP', 'AT+CRC', 'AT+CVHU', 'AT+COPS=', 'AT+CSMP')]
    out += [dict(base, fail=x, kind='wavecom', given='+31000') for x in ('ATE0', 'AT+CMEE', 'AT+CMGF', 'AT+CSCA=', 'AT+CPMS="', 'AT+WIND=50')]
    out += [dict(base, cfun=c) for c in (0, 4, None)] + [dict(base, extra=x, refuse=r) for x in ('^CVOICE', '^USSDMODE') for r in ([], ['AT^CVOICE', 'AT^USSDMODE'])]
    return out


@case('C28', fixed=connect_fixed, gen=rconnect)
@checked
def connecting(o):
    import gsmmodem.serial_comms as S
    import types
    from .env import FakeSerial
    kind = 'huawei' if o['kind'].startswith('huawei') else o['kind']
    st = dict(centre=o['own'], unlocked=False, mode=None, cnmi=False, wind=o['wind'])
    lists = ['+CMGF', '+CMGS'] + ({'huawei': ['^DTMF'], 'wavecom': ['+WIND'], 'zte': ['+ZPAS']}.get(o['kind'], [])) + (['+VTS'] if o['vts'] else []) + ([o['extra']] if o['extra'] else [])

    def respond(d):
        c = d[:-1]
        if c.startswith('AT+CPIN?'): st['unlocked'] = True; return ['+CPIN: READY', 'OK']
        if any(c.startswith(x) for x in o['refuse']): return ['ERROR']
        if o['fail'] and c.startswith(o['fail']): return ['+CME ERROR: 4']
        if c not in ('ATZ', 'ATE0', 'AT+CFUN?', 'AT+CFUN=1', 'AT+CMEE=1'): expect(st['unlocked'], '%s before the SIM is unlocked' % c)
        if c == 'AT+CFUN?': return ['ERROR'] if o['cfun'] is None else ['+CFUN: %d' % o['cfun'], 'OK']
        if c == 'AT+CLAC': return ['+CLAC:' + ','.join(lists), 'OK'] if o['clac'] else ['ERROR']
        if c == 'AT+CGMI': return ['HUAWEI' if kind == 'huawei' else 'ACME', 'OK']
        if c == 'AT+ZPAS?': return ['OK'] if kind == 'zte' else ['ERROR']
        if c == 'AT+WIND?': return ['+WIND: %d' % st['wind'], 'OK'] if kind == 'wavecom' else ['ERROR']
        if c == 'AT+WIND=50': st['wind'] = 50
        if c.startswith('AT+CMGF='): st['mode'] = c[8:]
        if c.startswith('AT+CSCA="'): st['centre'] = c[9:-1]
        if c == 'AT+CSMP=49,167,0,0' and o['forgets']: st['centre'] = None
        if c == 'AT+CSCA?':
            if st['centre'] is None: return ['+CMS ERROR: 330'] if o['miss330'] else ['OK']
            return ['+CSCA: "%s",145' % st['centre'], 'OK']
        if c == 'AT+CPMS=?': return ['ERROR'] if o['offer'] is None else ['+CPMS: (%s)' % o['offer'] if o['offer'] else '+CPMS: ', 'OK']
        return ['OK']
    with Env(respond) as env:
        M.Call.DTMF_COMMAND_BASE, M.Call.dtmfSupport = '+VTS=', False
        m = M.GsmModem('-- TEST --')
        env.m = m
        if o['given']: m.smsc = o['given']
        m.smsTextMode = o['mode']
        if o.get('again'): m._callingLineIdentification = True      # as an earlier connection left it
        eq(env.sent, [], 'written before connecting')
        fake = FakeSerial(env, m)
        opened = []
        saved = S.serial
        S.serial = types.SimpleNamespace(Serial=lambda *a, **k: opened.append(1) or fake, SerialException=saved.SerialException)
        env.run_threads = False
        try:
            go = lambda: m.connect(o['pin']) if o['pin'] else m.connect()
            reached = {'AT+CSCA=': o['given'] or o['own'] and o['forgets'] and 'AT+CSMP' not in o['refuse'], 'AT+CPMS="': o['offer'] not in (None, ''), 'AT+WIND=50': kind == 'wavecom' and o['wind'] != 50}
            if o['fail'] == 'AT+CPMS="' and not ('"ME"' in o['offer'].split('),(')[0] or '"SM"' in o['offer'].split('),(')[0] or '"SR"' in o['offer'].split('),(')[0] if o['offer'] else False): raise Skip()
            if o['offer'] and '' in ('(%s)' % o['offer']).split('),('): raise Skip()
            if o['fail'] and reached.get(o['fail'], True):
                raises(go, CommandError)
                return
            go()
        finally:
            S.serial = saved
        sent = [d[:-1] for d in env.sent]
        eq(len(opened), 1, 'port opened')
        expect(m.alive, 'the modem is not taken as connected')
        eq(sent.count('AT+CPIN?'), 1, 'SIM status queries')
        expect('ATE0' in sent[sent.index('ATZ'):] and 'AT+CMEE=1' in sent[sent.index('ATZ'):], 'echo off and error codes after the reset: %s' % sent[:5])
        eq('AT+CFUN=1' in sent, o['cfun'] not in (1, None), 'full functionality')
        # kind of the modem
        known = kind
        eq((m._mustPollCallStatus, m._waitForAtdResponse, m._waitForCallInitUpdate), {'huawei': (False, True, True), 'wavecom': (False, False, True), 'zte': (False, False, False), 'poll': (True, True, True)}[known], 'call update flags of %s' % known)
        for line, kinds, handler in (('^ORIG:1,0', 'huawei', 'Initiated'), ('^CONN:1,0', 'huawei', 'Answered'), ('^CEND:1,10,67,31', 'huawei', 'Ended'), ('+WIND: 5,1', 'wavecom', 'Initiated'), ('OK', 'wavecom', 'Answered'), ('+WIND: 6,1', 'wavecom', 'Ended'), ('CONNECT', 'zte', 'Answered'), ('HANGUP: 12', 'zte', 'Ended'), ('OK', 'zte', 'Rejected')):
            if known != kinds: continue
            hit = [h for x, h in m._callStatusUpdates if x.match(line)]
            expect(hit and hit[0] == getattr(m, '_handleCall' + handler), '%s: handler of %s' % (known, line))
        if known == 'wavecom': eq(st['wind'], 50, 'call updates switched on')
        if o['clac'] and o['extra']: expect('AT%s=0' % o['extra'] in sent, '%s not set' % o['extra'])
        eq(M.Call.DTMF_COMMAND_BASE, '^DTMF={cid},' if known == 'huawei' else '+VTS=', 'tone command')
        eq(bool(M.Call.dtmfSupport), bool(o['clac'] and o['vts'] or known == 'huawei' or not o['clac'] and known in ('wavecom', 'zte')), 'tone support')
        # messages
        eq(st['mode'], '1' if o['mode'] else '0', 'message mode')
        forgets = o['forgets'] and 'AT+CSMP' not in o['refuse']
        eq(st['centre'], o['given'] or o['own'], 'service centre in force')
        # memories
        groups = None if o['offer'] is None else ('(%s)' % o['offer']).split('),(') if o['offer'] else ['']
        ok = groups is not None and '' not in groups
        sets = [s for s in sent if s.startswith('AT+CPMS=') and s != 'AT+CPMS=?']
        want = [next((p for p in ('"ME"', '"SM"', '"SR"') if p in g), '') for g in groups or []]
        eq(sets, ['AT+CPMS=' + ','.join(want)] if ok else [], 'memories selected from %s' % (o['offer'],))
        eq(bool(m._smsReadSupported), ok and 'AT+CNMI' not in o['refuse'], 'reading messages')
        eq('AT+CNMI=2,1,0,2' in sent, ok, 'message notifications')
        expect('AT+CLIP=1' in sent, 'caller numbers not asked for')
        eq(bool(m._callingLineIdentification), 'AT+CLIP' not in o['refuse'], 'caller numbers')
        eq(bool(m._extendedIncomingCallIndication), 'AT+CLIP' not in o['refuse'] and 'AT+CRC' not in o['refuse'], 'ring indications')
