"""The command layer: contract of GsmModem.write (C12) and the modem world the higher functions are verified in."""
import serial
from .world import *
from .serialport import DIGIT
from gsmmodem import modem as GM
from gsmmodem import exceptions as X

M = 'gsmmodem.modem.GsmModem.'
SPECIAL = {('CME', 11): X.PinRequiredError, ('CME', 16): X.IncorrectPinError, ('CME', 12): X.PukRequiredError, ('CMS', 330): X.SmscNumberUnknownError}


def outcome_of(last):
    """spec: what a final line reports -> ('ok',) | ('error',) | ('CME'|'CMS', code) | ('unsupported',) (forks)"""
    c = ctx()
    t = models.strip_ws(last, False, True)
    tk = rx.take(str_seq(t), 12)
    if tk is not None:
        items, rest = tk
        for kind in ('CME', 'CMS'):
            if c.branch(band(*[cmp('==', x, ord(w)) for x, w in zip(items, '+%s ERROR: ' % kind)])):
                run, left = rx.max_run(rest, DIGIT)
                if uncons(left) is None and c.branch(cmp('>=', seq_len(Seq(run)), 1)):
                    return kind, models.int_of_str(None, mkstr(Seq(run)))
                return ('error',)
    if c.branch(models.contains(None, t, 'ERROR')): return ('error',)
    if c.branch(val_eq(t, 'COMMAND NOT SUPPORT')): return ('unsupported',)
    return ('ok',)


class Commands(World):
    """GsmModem.write on top of the contract of SerialComms.write"""
    def __init__(self, u, tries=1):
        self.u = u
        self.data, _, _ = anychars(u, 'data')
        self.term, _, _ = anychars(u, 'term')
        self.timeout = Opaque('timeout')
        self.prompt = None
        self.wait0 = SReal(u.int('wait_tenths', 0), 10)
        self.log = []              # ('w', rows) | ('s', time) | ('r',)
        self.tries = tries
        self.wait, self.parse = True, True
        self.obj = VolObj(GM.GsmModem, dict(_writeWait=self.wait0, alive=True))
        u.c.anchors['world'] = self
        u.c.anchors['sleep'] = self.sleep

    def sleep(self, I, a):
        t = a[0]
        self.u.prove(models.compare(I, ast_ge, t, 0), 'sleeps are not negative')
        self.log.append(('s', t))

    def exchange(self, o, data, wait, timeout, prompt):
        u = self.u
        u.prove(o is self.obj, 'same modem')
        u.prove_eq(data, mkstr(str_seq(self.data) + str_seq(self.term)), 'exactly the command and its terminator are written')
        u.prove(wait is self.wait, 'waits as asked')
        u.prove(timeout is self.timeout, 'the given timeout')
        u.prove(prompt is self.prompt, 'the given prompt')
        if sum(1 for k in self.log if k[0] == 'w') >= self.tries: raise PathEnd()
        w = ctx().choice([None] * 3)
        if w == 1: self.log.append(('w', None)); self.exc = VObj(X.TimeoutException, {'args': (None,), 'data': None}); raise PyExc(self.exc)
        if w == 2: self.log.append(('w', None)); self.exc = VObj(serial.SerialException, {'args': ()}); raise PyExc(self.exc)
        self.exc = None
        if not self.wait: self.log.append(('w', None)); return None
        r = Rows(u, 'answer', 1)
        self.log.append(('w', r))
        self.resp = VList(r.seq)
        return self.resp

    def call(self, f=None):
        kw = dict(timeout=self.timeout, parseError=self.parse, writeTerm=self.term)
        if self.prompt is not None: kw['expectedResponseTermSeq'] = self.prompt
        if not self.wait: kw['waitForResponse'] = False
        return self.u.call(self.obj, self.data, **kw)


import ast
ast_ge = ast.GtE()
ast_gt = ast.Gt()


def plus(a, b): return models.binop(None, ast.Add(), a, b)


def replay_command(u, w, last):
    def build(ev):
        l = ev(last).rstrip()
        import re
        m = re.match(r'\+(CM[ES]) ERROR: (\d+)$', l)
        final = (m.group(1), int(m.group(2))) if m else ('ok', 0) if l == 'OK' else (l, 0)
        return dict(cmd=ev(w.data), term=ev(w.term), busy=[], final=final, lines=[], pad=ev(last)[len(l):], parse=bool(w.parse), wait=bool(w.wait), pre=0)
    u.replay('command_outcome', build)


@contract('GsmModem.write again', M + 'write', proved_by=[M + 'write'])
def _(I, args, kwargs):
    w = ctx().anchors['world']
    return w.again(I, args, kwargs)


SIG = ('data', 'waitForResponse', 'timeout', 'parseError', 'writeTerm', 'expectedResponseTermSeq')
DEF = dict(waitForResponse=True, timeout=5, parseError=True, writeTerm='\r', expectedResponseTermSeq=None)


def write_args(args, kwargs):
    a = dict(DEF)
    a.update(zip(SIG, args[1:])); a.update(kwargs)
    if set(a) != set(SIG): raise Unsupported('arguments of write()')
    return a


class Retry(Commands):
    """one activation; a further activation is taken by contract"""
    def again(self, I, args, kwargs):
        u = self.u
        a = write_args(args, kwargs)
        u.prove(self.busy, 'the command is only repeated when the modem was busy')
        u.prove(args[0] is self.obj and not any(k[0] == 'r' for k in self.log), 'repeated once, on the same modem')
        u.prove_eq(a['data'], self.data, 'the identical command is issued again')
        u.prove_eq(a['writeTerm'], self.term, 'with the same terminator')
        u.prove(a['waitForResponse'] is True and a['parseError'] is True and a['timeout'] is self.timeout and a['expectedResponseTermSeq'] is self.prompt, 'with the same parameters')
        slept = [t for k, t in self.log[1:] if k == 's']
        u.prove(bool(slept), 'waits before repeating')
        tot = 0
        for t in slept: tot = plus(tot, t)
        u.prove(models.compare(I, ast_gt, tot, 0), 'waits before repeating (more than nothing)')
        self.log.append(('r', None))
        self.obj.set('_writeWait', SReal(ctx().fresh_int('later_wait', 0), 10))
        if ctx().choice([None, None]):
            self.later = VObj([X.CommandError, X.CmeError, X.CmsError, X.TimeoutException, serial.SerialException][ctx().choice([None] * 5)], {'args': ()})
            raise PyExc(self.later)
        self.later = VList(Rows(u, 'later', 1).seq)
        return self.later


@unit('C12', M + 'write', 'the outcome is what the last line of the answer says', uses=('SerialComms.write', 'GsmModem.write again'), budget=200)
def _(u):
    w = Retry(u)
    if u.c.choice([None, None]): w.prompt = anychars(u, 'prompt', 1)[0]
    w.busy = False
    real = w.exchange

    def exchange(*a):
        r = real(*a)
        w.kind = outcome_of(w.log[-1][1].line(sub(w.log[-1][1].n, 1)))
        replay_command(u, w, w.log[-1][1].line(sub(w.log[-1][1].n, 1)))
        w.busy = w.kind[0] in ('CME', 'CMS') and u.branch(bor(cmp('==', w.kind[1], 14), cmp('==', w.kind[1], 515)))
        return r
    w.exchange = exchange
    r = w.call()
    u.prove(sum(1 for k in w.log if k[0] == 'w') == 1, 'written once')
    u.prove(models.compare(u.I, ast_ge, w.obj.get('_writeWait'), 0), 'the wait after commands is not negative')
    if w.exc is not None:
        u.prove(isinstance(r, Raised) and r.obj is w.exc, 'a timeout or port failure is passed on'); return
    k = w.kind
    if w.busy:
        u.prove(w.log[-1][0] == 'r', 'a busy answer makes the command be issued again')
        u.prove((isinstance(r, Raised) and r.obj is w.later) or r is w.later, 'the outcome is that of the last try')
        return
    u.prove(all(x[0] != 'r' for x in w.log), 'the command is only repeated when the modem was busy')
    if k[0] == 'ok':
        u.returns(r)
        u.prove(r is w.resp, 'the response')
        u.prove_eq(VList(w.resp.seq), VList(w.log[0][1].seq), 'exactly the response lines')
        return
    if k[0] in ('error', 'unsupported'):
        u.raises(r, X.CommandError)
        u.prove(r.cls is X.CommandError, 'plain CommandError')
        u.prove(r.obj.get('type') is None and r.obj.get('code') is None, 'without code')
        return
    want = X.CmeError if k[0] == 'CME' else X.CmsError
    for (t, code), cls in SPECIAL.items():
        if t == k[0] and u.branch(cmp('==', k[1], code)): want = cls
    u.raises(r, want)
    u.prove(r.cls is want, 'the class for this code')
    u.prove_eq(r.obj.get('code'), k[1], 'the modem\'s code')
    u.prove(r.obj.get('type') == k[0], 'the kind of error')
    u.prove_eq(r.obj.get('command'), w.data, 'the command')


@unit('C12', M + 'write', 'error parsing disabled, or no wait: nothing is parsed', uses=('SerialComms.write',))
def _(u):
    w = Commands(u)
    which = u.c.choice([None, None, None])
    if which != 0: w.wait = False
    w.parse = which == 2
    r = w.call()
    u.prove(sum(1 for k in w.log if k[0] == 'w') == 1, 'written once')
    if w.exc is not None: u.prove(isinstance(r, Raised) and r.obj is w.exc, 'a timeout or port failure is passed on'); return
    u.returns(r)
    if w.wait:
        u.prove(r is w.resp, 'the response')
        u.prove_eq(VList(w.resp.seq), VList(w.log[0][1].seq), 'exactly the response lines')
    else: u.prove(r is None, 'nothing is returned')
    u.prove(w.obj.get('_writeWait') is w.wait0, 'the wait after commands is unchanged')


@unit('C12', M + 'write', 'the wait before each repetition is longer than before the previous one', uses=('SerialComms.write',), budget=200)
def _(u):
    """two consecutive repetitions from an arbitrary state (hence any two consecutive ones)"""
    w = Commands(u, 3)
    busies = []
    real = w.exchange

    def exchange(*a):
        n = sum(1 for k in w.log if k[0] == 'w')
        if n == 2:
            t, cur = [], 0
            for k, v in w.log[1:] + [('w', None)]:
                if k == 'w': t.append(cur); cur = 0
                else: cur = plus(cur, v)
            u.prove(models.compare(u.I, ast_gt, t[1], t[0]), 'the wait grows')
            raise PathEnd()
        r = real(*a)
        # a busy answer: the only way to a repetition (other unit)
        rows = w.log[-1][1]
        kind, code = ('CME', 'CMS')[ctx().choice([None, None])], (14, 515)[ctx().choice([None, None])]
        text = '+%s ERROR: %d' % (kind, code)
        w.resp.seq = Seq((Gen(rows.base, 0, sub(rows.n, 1)),)) + lit([text])
        return r
    w.exchange = exchange
    w.call()
