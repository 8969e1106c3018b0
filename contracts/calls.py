"""Calls: tones and answering (C19)."""
from .modem import *

CALL = 'gsmmodem.modem.Call.'
INC = 'gsmmodem.modem.IncomingCall.'


def call_obj(u, w, cls, **attrs):
    """a call of the modem in an arbitrary state"""
    d = dict(_gsmModem=w.obj, _callStatusUpdateCallbackFunc=None, id=u.int('cid', 0), type=u.int('ctype', 0), number=anychars(u, 'number')[0],
             _answered=False, active=True)
    if cls is GM.IncomingCall: d.update(ton=u.int('ton', 0), callerName=None, ringing=True, ringCount=u.int('rings', 1))
    d.update(attrs)
    o = VObj(cls, d)
    o.partial = True
    return o


def truth(u, v): return u.branch(u.I.truth_cond(v))


# -- C19 -----------------------------------------------------------------------------------------------------------------------
BASES = ['+VTS=', '^DTMF={cid},']

for _cls in (GM.Call, GM.IncomingCall):
    for _base in BASES:
        @unit('C19', CALL + 'sendDtmfTone', 'every tone once, in order, in the syntax %s; %s' % (_base, _cls.__name__), uses=('GsmModem.write',))
        def _(u, cls=_cls, base=_base):
            w = Modem(u)
            u.c.anchors['classattrs'] = {(GM.Call, 'DTMF_COMMAND_BASE'): base}
            answered = u.bool('answered')
            o = call_obj(u, w, cls, _answered=answered, active=u.bool('active'))
            n = u.int('n', 1, MAXLEN)
            b = SymBase('tone', n, lambda v, k: band(char(v), cmp('!=', v, 123), cmp('!=', v, 125)))
            tones = mkstr(Seq((Gen(b, 0, n),)))
            syntax = ('AT', '+VTS=') if base == BASES[0] else ('AT', '^DTMF=', mkstr(Seq((Dec(o.get('id')),))), ',')
            tone = cat(*syntax[1:])

            def build(ev):
                e = None if w.exc is None else w.exc.get('code') if w.exc.has('code') else 'silent' if issubclass(w.exc.cls, X.TimeoutException) else 'ERROR'
                return dict(tones=ev(tones), base=base, answered=bool(ev(answered)), cid=ev(o.get('id')), err=e if e is None or isinstance(e, str) else ev(e), incoming=cls is GM.IncomingCall)
            u.replay('dtmf', build)
            r = u.call(o, tones)
            u.prove(o.get('_answered') is answered, 'tones do not change the state of the call')
            if not truth(u, answered):
                u.prove(not w.log, 'nothing is written for a call that is not answered')
                u.raises(r, X.InvalidStateException)
                u.prove(not issubclass(r.cls, X.InterruptedException), 'not an interruption')
                return
            u.prove(len(w.log) == 1, 'one command')
            want = str_seq(cat('AT', tone)) + lit([b.elem(0)]) + Seq((texts('spec', lambda k: str_seq(cat(';', tone)) + lit([b.elem(k)]), 1, n),))
            w.sent(0, mkstr(want), 'the tones')
            u.prove(cmp('>=', w.log[0]['timeout'], n), 'the modem has at least a second for each tone')
            if w.exc is None: u.returns(r); return
            if issubclass(w.exc.cls, X.CmeError) and u.branch(bor(cmp('==', w.exc.get('code'), 3), cmp('==', w.exc.get('code'), 30))):
                u.raises(r, X.InterruptedException)
                u.prove(r.obj.get('cause') is w.exc, 'the interruption carries its cause')
            else: w.passed_on(r)


@unit('C19', INC + 'answer', 'written only while the call rings; answered only when the modem accepted it', uses=('GsmModem.write',))
def _(u):
    w = Modem(u)
    w.exc = None
    ringing, answered = u.bool('ringing'), u.bool('answered')
    o = call_obj(u, w, GM.IncomingCall, ringing=ringing, _answered=answered, active=u.bool('active'))
    note = []
    if u.c.choice([None, None]): o.set('_callStatusUpdateCallbackFunc', Model('callback', lambda I, a, k: note.append(a)))
    real = w.command

    def command(*a):
        u.prove(truth(u, o.get('_answered')) == was, 'marked answered only after the modem accepted the command')
        return real(*a)
    was = truth(u, answered)
    w.command = command
    r = u.call(o)
    if not truth(u, ringing):
        u.prove(not w.log, 'nothing is written when the call does not ring')
        u.returns(r); u.prove(r is o, 'the call')
        u.prove(truth(u, o.get('_answered')) == was and not truth(u, o.get('ringing')), 'state unchanged')
        return
    u.prove(len(w.log) == 1, 'one command')
    w.sent(0, 'ATA', 'answer')
    if w.exc is not None:
        w.passed_on(r)
        u.prove(truth(u, o.get('_answered')) == was and truth(u, o.get('ringing')), 'a refused answer changes nothing')
        return
    u.returns(r); u.prove(r is o, 'the call')
    u.prove(truth(u, o.get('_answered')) and not truth(u, o.get('ringing')), 'answered, no longer ringing')
