"""Modem settings and identification (C27)."""
from .stored import *


class Settings(Modem):
    """at most one command is written, and it goes out before anything is changed"""
    def __init__(self, u, **attrs):
        super().__init__(u, **attrs)
        regexes(self.obj)
        self.exc = None
        self.answer = None

    def command(self, o, a):
        self.u.prove(not self.log, 'one command')
        self.before = {n: self.obj.get(n) for n in ('_smscNumber', '_smsTextMode')}
        self.start = getattr(self, 'start', self.before)
        for n in self.before: self.u.prove(self.before[n] is self.first[n], 'nothing changes before the modem has accepted it')
        if self.answer is None: return super().command(o, a)
        self.log.append(a)
        w = ctx().choice([None] * (1 + len(self.errors)))
        if w: self.fail(self.errors[w - 1])
        return self.answer()

    def ready(self): self.first = {n: self.obj.get(n) for n in ('_smscNumber', '_smsTextMode')}

    def unchanged(self, *names):
        for n in names: self.u.prove(self.obj.get(n) is self.first[n], 'unchanged: ' + n)


# -- the service centre number -------------------------------------------------------------------------------------------------
class Csca(Settings):
    """number: the one in the answer, or None; the line that holds it stands between arbitrary others"""
    def __init__(self, u, cached):
        super().__init__(u, _smscNumber=cached)
        self.number = None
        self.answer = self.csca

    def csca(self):
        u, c = self.u, ctx()
        before = Rows(u, 'before', 0)
        if before.first('spec csca', starts('+CSCA')) is not None: raise PathEnd()
        q = before.seq
        if c.choice([None, None]):
            n = u.int('n_number', 1, MAXLEN)
            b = SymBase('number', n, lambda v, k: band(char(v), cmp('!=', v, 44), cmp('!=', v, 34), cmp('!=', v, 10)))
            self.number = mkstr(Seq((Gen(b, 0, n),)))
            blanks = anychars(u, 'blanks', 0, cons=lambda v, k: SPACE(v))[0]
            q = q + lit([cat('+CSCA:', blanks, '"', self.number, '",', digits(u, 'ton')[0])])
        after = Rows(u, 'after', 1)
        if after.first('spec csca', starts('+CSCA')) is not None: raise PathEnd()
        return VList(q + after.seq)


@unit('C27', M + 'smsc', 'the known number without asking; otherwise the one in the answer, or None', uses=('GsmModem.write', 'lineMatching'))
def _(u):
    known = u.c.choice([None, None])
    w = Csca(u, Name(u, 'cached') if known else None)
    w.ready()
    u.replay('settings', lambda ev: dict(number=ev(w.number) if w.number is not None else None, kind='330' if w.exc is not None else 'none', ops=([('set', ev(w.first['_smscNumber']), None)] if known else []) + [('get', None)] * 2))
    r = u.call(w.obj)
    w.unchanged('_smsTextMode')
    if known:
        u.prove(not w.log, 'nothing is asked for a known number')
        u.returns(r); u.prove(r is w.first['_smscNumber'], 'the known number')
        w.unchanged('_smscNumber')
        return
    u.prove(len(w.log) == 1, 'the modem is asked')
    w.sent(0, 'AT+CSCA?', 'service centre query')
    u.prove(w.log[0]['parseError'] is True, 'errors are reported')
    if w.exc is not None:
        w.unchanged('_smscNumber')
        if w.exc.cls is X.SmscNumberUnknownError: u.returns(r); u.prove(r is None, 'None when the modem knows no number')
        else: w.passed_on(r)
        return
    u.returns(r)
    if w.number is None:
        u.prove(r is None, 'None when the answer has no number')
        w.unchanged('_smscNumber')
    else:
        u.prove(is_str(r), 'a number')
        u.prove_eq(r, w.number, 'the number in the answer')
        u.prove_eq(w.obj.get('_smscNumber'), w.number, 'the number is known from then on')


def setter(u, name): return GM.GsmModem.__dict__[name].fset


@unit('C27', M + 'smsc', 'setting: one command when the number differs; known once the modem has accepted it', uses=('GsmModem.write',))
def _(u):
    cur = [lambda: None, lambda: Name(u, 'cached')][u.c.choice([None, None])]()
    new = cur if cur is not None and u.c.choice([None, None]) else Name(u, 'new')
    alive = u.bool('alive')
    w = Settings(u, _smscNumber=cur, alive=alive)
    w.ready()
    u.replay('settings', lambda ev: dict(number=None, kind='none', ops=([('set', ev(cur), None)] if cur is not None else []) + [('alive', bool(ev(alive))), ('set', ev(new), None if w.exc is None else ['ERROR']), ('get', None)]))
    r = u.call_other(setter(u, 'smsc'), w.obj, new)
    w.unchanged('_smsTextMode')
    if new is cur or not truth(u, alive): u.prove(not w.log, 'nothing is written'); u.returns(r)
    else:
        u.prove(len(w.log) == 1, 'one command')
        w.sent(0, cat('AT+CSCA="', new, '"'), 'the number is set')
        u.prove(w.log[0]['parseError'] is True, 'errors are reported')
        if w.exc is not None: w.passed_on(r); w.unchanged('_smscNumber'); return
        u.returns(r)
    u.prove_eq(w.obj.get('_smscNumber'), new, 'the number is known from then on')


# -- the message mode ----------------------------------------------------------------------------------------------------------
@unit('C27', M + 'smsTextMode', 'the mode last set')
def _(u):
    mode = u.bool('mode')
    w = Settings(u, _smsTextMode=mode)
    w.ready()
    r = u.call(w.obj)
    u.returns(r); u.prove(r is mode, 'the mode')
    u.prove(not w.log, 'nothing is written')


@unit('C27', M + 'smsTextMode', 'setting: one command when the mode differs; messages are then parsed in that mode', uses=('GsmModem.write',))
def _(u):
    cur, new = bool(u.c.choice([None, None])), bool(u.c.choice([None, None]))
    alive = u.bool('alive')
    w = Settings(u, _smsTextMode=cur, alive=alive)
    both = u.c.choice([None, None])          # the other mode was in use before
    if both:
        w.obj.set('_smsTextMode', not cur); u.call_other(GM.GsmModem._compileSmsRegexes, w.obj)
        w.obj.set('_smsTextMode', cur)
    u.call_other(GM.GsmModem._compileSmsRegexes, w.obj)
    w.ready()
    u.replay('settings', lambda ev: dict(number=None, kind='none', ops=[('mode', cur, None), ('alive', bool(ev(alive))), ('mode', new, None if w.exc is None else ['ERROR']), ('read',)]))
    r = u.call_other(setter(u, 'smsTextMode'), w.obj, new)
    w.unchanged('_smscNumber')
    if new is cur or not truth(u, alive): u.prove(not w.log, 'nothing is written'); u.returns(r)
    else:
        u.prove(len(w.log) == 1, 'one command')
        w.sent(0, 'AT+CMGF=%d' % new, 'the mode is set')
        u.prove(w.log[0]['parseError'] is True, 'errors are reported')
        if w.exc is not None: w.passed_on(r); w.unchanged('_smsTextMode'); return
        u.returns(r)
    u.prove(w.obj.get('_smsTextMode') is new, 'the mode is known from then on')
    want = VolObj(GM.GsmModem, dict(_smsTextMode=new))
    regexes(want)
    u.call_other(GM.GsmModem._compileSmsRegexes, want)
    for n in sorted(vars(GM.GsmModem)):
        if vars(GM.GsmModem)[n] is None and want.get(n) is not None:
            u.prove(w.obj.get(n) is want.get(n), 'the expressions of the mode are compiled')


# -- identification --------------------------------------------------------------------------------------------------------------
for _n, _cmd in (('manufacturer', 'AT+CGMI'), ('model', 'AT+CGMM'), ('revision', 'AT+CGMR'), ('imei', 'AT+CGSN'), ('imsi', 'AT+CIMI')):
    @unit('C27', M + _n, 'the first line of the answer' + (', or None' if _n == 'revision' else ''), uses=('GsmModem.write',))
    def _(u, n=_n, cmd=_cmd):
        w = Settings(u)
        w.ready()
        u.replay('identify', lambda ev: (n, ev(w.rows.line(0)) if w.exc is None else 'x', None if w.exc is None else 'ERROR'))
        r = u.call(w.obj)
        u.prove(len(w.log) == 1, 'one command')
        w.sent(0, cmd, 'the query')
        u.prove(w.log[0]['parseError'] is True, 'errors are reported')
        if w.exc is not None:
            if n == 'revision' and issubclass(w.exc.cls, X.CommandError): u.returns(r); u.prove(r is None, 'None when the modem cannot tell')
            else: w.passed_on(r)
            return
        u.returns(r)
        u.prove(r is w.rows.line(0), 'the first line of the answer, unchanged')
