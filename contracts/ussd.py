"""USSD answers and sessions (C20)."""
from .active import *

USSD = 'gsmmodem.modem.Ussd.'


class Part(RowBase):
    """characters of one part of the k-th answer"""
    def __init__(self, name, k, cons=None):
        c = ctx()
        reg = c.anchors.setdefault('ussdparts', {})
        if name not in reg: reg[name] = (z3.Function(c.name(name), z3.IntSort(), z3.IntSort(), z3.IntSort()), z3.Function(c.name('n' + name), z3.IntSort(), z3.IntSort()))
        el, ln = reg[name]
        n = mi(ln(zi(k)))
        c.assume(band(cmp('<=', 0, n), cmp('<=', n, MAXLEN)))
        super().__init__('%s_%s' % (name, z3.simplify(zi(k)).sexpr()), el, k, n)
        if cons: self.cons.append(lambda v, j: cons(self, v, j))

    def all(self): return Seq((Gen(self, 0, self.length),))

    def no(self, word, j):
        """word does not begin at position j"""
        z = zi(j)
        return z3.Not(z3.And(z + len(word) <= zi(self.length), *[self.fn(z + i) == ord(x) for i, x in enumerate(word)]))


class Text(SStr):
    """the text of the k-th answer"""
    def __init__(self, k, base): self.k, self.seq = k, base.all()


class Answer:
    """the k-th answer: text not starting an answer, +CUSD: blanks code,"text",coding, and what is between it and the next"""
    def __init__(self, k):
        c = ctx()
        self.k = k
        # what may follow a quote in the text: not a comma and a digit
        self.textbase = Part('text', k, lambda b, v, j: bnot(band(cmp('<=', add(j, 3), b.length), cmp('==', v, 34), mb(b.fn(zi(add(j, 1))) == 44), models.is_decimal(mi(b.fn(zi(add(j, 2))))))))
        self.text = Text(k, self.textbase)
        self.code = mi(z3.Function('ussdcode', z3.IntSort(), z3.IntSort())(zi(k)))
        c.assume(band(cmp('<=', 48, self.code), cmp('<=', self.code, 57)))
        self.blanks = Part('blanks', k, lambda b, v, j: SPACE(v)).all()
        dcs = Part('dcs', k, lambda b, v, j: band(cmp('<=', 48, v), cmp('<=', v, 57)))
        c.assume(cmp('>=', dcs.length, 1))
        self.dcs = dcs.all()
        self.before = noise(k)

    def rope(self): return str_seq('+CUSD:') + self.blanks + lit([self.code]) + str_seq(',"') + self.text.seq + str_seq('",') + self.dcs


def noise(k):
    """what is between the answers: neither beginning with a digit nor containing the beginning of an answer (plus: nor '+')"""
    reg = ctx().anchors.setdefault('ussdnoise', {})
    key = z3.simplify(zi(k)).sexpr()
    if key not in reg:
        if ctx().anchors['world'].anything != key: b = reg[key] = Part('noise', k, lambda b, v, j: band(cmp('!=', v, 43), imp(cmp('==', j, 0), bnot(models.is_decimal(v)))))
        else: b = reg[key] = Part('noise', k, lambda b, v, j: z3.And(b.no('+CUSD:', j), z3.Implies(zi(j) == 0, z3.Not(zb(models.is_decimal(v))))) if not isinstance(j, int) or j == 0 else b.no('+CUSD:', j))
        b.elem(0)
    return reg[key].all()


class Joined(SStr):
    """the joined lines: n answers"""
    def __init__(self, w, n): self.w, self.n, self.seq = w, n, Seq((Gen(SymBase('joined', 0, char), 0, MAXLEN),))
    def veq(self, o): return self is o or unsupported('comparison of the joined lines')

    def vrx(self, I, pat, name):
        if name != 'finditer': raise Unsupported('%s in the joined lines' % name)
        return VIter(Seq((Gen(CompBase('answers', lambda k: self.found(pat, k), length=self.n), 0, self.n),)))

    def found(self, pat, k):
        """the match of the k-th answer: the search goes on behind the answer before it"""
        w = self.w
        key = (pat, z3.simplify(zi(k)).sexpr())
        if key in w.found: return w.found[key]
        a = w.answer(k)
        after = noise(add(k, 1))
        st = rx.find(pat, a.before + a.rope() + after, ctx().branch(cmp('==', k, 0)))
        w.u.prove(st is not None, 'every answer is found')
        if st is None: raise PathEnd()
        conds = seq_eq(refold(drop_empty(st.rest)), refold(drop_empty(after)), val_eq)
        w.u.prove(conds is not None and (not conds or band(*[x[1] if isinstance(x, tuple) else x for x in conds])), 'the search for the next answer starts behind the answer')
        if ctx().branch(cmp('==', add(k, 1), self.n)): w.u.prove(rx.find(pat, after, False) is None, 'nothing is found behind the last answer')
        m = rx.SMatch(pat, st, self)
        w.found[key] = m
        return m


class Lines:
    """lines of text joined by CR LF: one line, or more"""
    vtype = list
    def __init__(self, u, joined, one): self.joined, self.one = joined, one; self.n = 1 if one else u.int('n_lines', 2, MAXLEN)
    def vtruth(self): return True
    def vlen(self): return self.n
    def vjoin(self, I, sep):
        if sep != '\r\n' and not self.one: raise Unsupported('lines joined by something else')
        return self.joined
    def vgetitem(self, I, k):
        if self.one and k in (0, -1): return self.joined
        raise Unsupported('one of the lines')


class Parsing(Modem):
    def __init__(self, u, one, anything):
        self.anything = anything      # index of the place between answers that may hold '+'
        super().__init__(u, _ussdSessionEvent=None, _ussdResponse=None)
        self.answers, self.found = {}, {}
        self.one = one
        if one:
            self.n = 1
            a = self.answer(0)
            self.lines = Lines(u, mkstr(a.rope() + noise(1)), True)
        else:
            self.n = u.int('n_answers', 1, MAXLEN) if anything is None else 1
            self.lines = Lines(u, Joined(self, self.n), False)
        self.message, self.active = None, True      # what the answers looked at so far mean, when there are several

    def answer(self, k):
        key = z3.simplify(zi(k)).sexpr()
        if key not in self.answers: self.answers[key] = Answer(k)
        return self.answers[key]

    def step(self, k):
        """one more answer (spec): a released session contributes only its end"""
        a, c = self.answer(k), ctx()
        if not c.branch(cmp('==', a.code, 50)): self.message = a.text
        if not c.branch(cmp('==', a.code, 49)): self.active = False


def answers_loop(w):
    def inv(L, p):
        c, u = ctx(), w.u
        L.mentioned |= {'message', 'sessionActive'}
        if L.mode == 'havoc':
            w.message = None if c.choice([None, None]) else w.answer(c.fresh_int('said', 0)).text
            w.active = c.choice([None, None]) == 0
            # nothing was said, and the session is open, before the first answer; a session stays open only if input was asked for
            if (w.message is not None or not w.active) and c.branch(cmp('==', p, 0)): raise PathEnd()
            if w.message is None and w.active and c.branch(cmp('>', p, 0)): raise PathEnd()
            L.fr.locals['message'] = w.message
            L.fr.locals['sessionActive'] = w.active
            return
        if L.mode == 'back': w.step(L.p)
        v = L.local('message')
        u.prove((v is None) == (w.message is None), L.lab() + ': the text')
        if v is not None and w.message is not None: u.prove_eq(v, w.message, L.lab() + ': the text')
        u.prove(truth(u, L.local('sessionActive')) == w.active, L.lab() + ': the state of the session')
    return inv


def flow(w, ev):
    n = ev(w.n)
    if n > 4: raise ValueError('many answers')
    answers = [(ev(w.answer(k).code) - 48, ev(w.answer(k).text)) for k in range(n)]
    if n > 1 and len([a for a in answers if a[0] != 2]) != 1: raise ValueError('not exactly one answer beside releases')
    return dict(answers=answers, how='later', sp=ev(mkstr(w.answer(0).blanks)), dcs=15, noise=(), reply=None)


for _one, _any, _name in ((True, '1', 'one line with an answer'), (False, '0', 'one answer over any number of lines, after anything'), (False, '1', 'one answer over any number of lines, before anything'),
                          (False, None, 'any number of answers over any number of lines')):
    @unit('C20', M + '_parseCusdResponse', _name)
    def _(u, one=_one, anything=_any):
        w = Parsing(u, one, anything)
        u.use({('GsmModem._parseCusdResponse', 0): answers_loop(w)})
        u.replay('ussd_flow', lambda ev: flow(w, ev))
        r = u.returns(u.call(w.obj, w.lines))
        if isinstance(r, Raised): return
        u.prove(isinstance(r, VObj) and r.cls is GM.Ussd, 'a Ussd object')
        if u.branch(cmp('==', w.n, 1)):
            a = w.answer(0)
            w.message, w.active = a.text, u.branch(cmp('==', a.code, 49))
        u.prove((r.get('message') is None) == (w.message is None), 'the text')
        if w.message is not None: u.prove_eq(r.get('message'), w.message, 'the text')
        u.prove(truth(u, r.get('sessionActive')) == w.active, 'active exactly when the network asked for further input')


@contract('_parseCusdResponse', M + '_parseCusdResponse', proved_by=[M + '_parseCusdResponse'])
def _(I, args, kwargs):
    a = dict(zip(('lines',), args[1:]), **kwargs)
    return ctx().anchors['world'].parsed(args[0], a['lines'])


# -- sending -----------------------------------------------------------------------------------------------------------------------
class Session(Modem):
    def __init__(self, u):
        self.text = anychars(u, 'text')[0]
        self.waited, self.reported, self.answer = [], None, None
        self.timeout = Opaque('timeout')
        super().__init__(u, _ussdSessionEvent=None, _ussdResponse=Opaque('an earlier answer'))
        self.made = self.events(u)

    def command(self, o, a):
        u = self.u
        u.prove(not self.log, 'sent once')
        e = self.obj.get('_ussdSessionEvent')
        u.prove(isinstance(e, Ev) and not e.flag, 'an answer arriving at once would be noticed')
        u.prove_eq(a['data'], cat('AT+CUSD=1,"', self.text, '",15'), 'the text is sent')
        r = super().command(o, a)
        if r is not None:       # a response ends with a final result line (C14)
            R = self.rows
            last = 0 if u.branch(cmp('==', R.n, 1)) else sub(R.n, 1)
            u.assume(bnot(starts('+')(R.line(last)))); R.look(last)
        return r

    def parsed(self, o, lines):
        u = self.u
        u.prove(o is self.obj and lines is self.resp and self.answer is None, 'the answer with the acknowledgement is read, once')
        u.prove(self.rows.first(('starts', '+CUSD'), starts('+CUSD')) is not None, 'only if there is one')
        self.answer = Opaque('answer')
        return self.answer

    def ev_wait(self, e, timeout):
        u = self.u
        u.prove(self.obj.get('_ussdSessionEvent') is e and len(self.log) == 1 and not self.waited, 'waits for the answer, noticeably, once')
        u.prove(self.answer is None, 'only if no answer came with the acknowledgement')
        got = ctx().choice([None, None]) == 0
        self.waited.append(got)
        if got:
            e.flag = True
            self.reported = Opaque('reported')
            self.obj.set('_ussdResponse', self.reported)
        return got


@unit('C20', M + 'sendUssd', 'the answer, with the acknowledgement or later, or TimeoutException; no wait remains', uses=('GsmModem.write', 'lineStartingWith', '_parseCusdResponse'))
def _(u):
    w = Session(u)
    r = u.call(w.obj, w.text, responseTimeout=w.timeout) if u.c.choice([None, None]) else u.call(w.obj, w.text)
    u.prove(len(w.log) == 1, 'sent once')
    u.prove(w.obj.get('_ussdSessionEvent') is None, 'no wait is left behind')
    if w.exc is not None: w.passed_on(r); return
    k = None if u.branch(cmp('<', w.rows.n, 2)) else w.rows.first(('starts', '+CUSD'), starts('+CUSD'))
    if k is not None: u.returns(r); u.prove(r is w.answer and r is not None, 'the answer that came with the acknowledgement'); return
    u.prove(len(w.waited) == 1, 'the answer is waited for')
    if w.waited and not w.waited[0]: u.raises(r, X.TimeoutException)
    else: u.returns(r); u.prove(r is w.reported, 'the answer reported while waiting')


@contract('sendUssd', M + 'sendUssd', proved_by=[M + 'sendUssd'])
def _(I, args, kwargs):
    a = dict(zip(('ussdString', 'responseTimeout'), args[1:]), **kwargs)
    return ctx().anchors['world'].ussd(args[0], a['ussdString'])


@unit('C20', M + '_handleUssd', 'the waiting exchange gets the answer before it is woken', uses=('_parseCusdResponse',))
def _(u):
    c = u.c
    w = Modem(u, _ussdResponse=None)
    e = Ev(w)
    waiting = c.choice([None, None]) == 0
    seen, order = [], []

    def event():
        seen.append(1)
        return e if waiting and (len(seen) == 1 or c.choice([None, None]) == 0) else None
    w.obj.volatile['_ussdSessionEvent'] = event
    w.ev_set = lambda ev: order.append(w.obj.get('_ussdResponse'))
    lines, parsed = VList(Rows(u, 'line', 1).seq), Opaque('answer')

    def parse_(o, l):
        u.prove(o is w.obj and l is lines, 'the lines of the notification are read')
        return parsed
    w.parsed = parse_
    r = u.call(w.obj, lines)
    u.returns(r)
    if waiting: u.prove(len(order) == 1 and order[0] is parsed, 'woken once, with this answer')
    else: u.prove(not order, 'nobody is woken')


# -- the session object -------------------------------------------------------------------------------------------------------------
def ussd_obj(u, w):
    active = u.bool('active')
    o = VObj(GM.Ussd, dict(_gsmModem=w.obj, sessionActive=active, message=anychars(u, 'message')[0]))
    return o, active


@unit('C20', USSD + 'reply', 'sends the reply in an active session only', uses=('sendUssd', 'GsmModem.write'))
def _(u):
    w = Modem(u)
    o, active = ussd_obj(u, w)
    text, answer, sent = anychars(u, 'reply')[0], Opaque('answer'), []
    w.exc = None

    def ussd(m, s):
        u.prove(m is w.obj and not sent, 'sent once'); u.prove_eq(s, text, 'the reply')
        sent.append(s)
        if u.c.choice([None, None]): w.fail(X.TimeoutException)
        return answer
    w.ussd = ussd
    r = u.call(o, text)
    u.prove(not w.log, 'nothing else is written')
    if not truth(u, active): u.raises(r, X.InvalidStateException); u.prove(not sent, 'nothing is sent in an ended session'); return
    u.prove(len(sent) == 1, 'the reply is sent')
    if w.exc is not None: w.passed_on(r); return
    u.returns(r); u.prove(r is answer, 'the answer to the reply')


@unit('C20', USSD + 'cancel', 'writes for an active session only', uses=('GsmModem.write',))
def _(u):
    w = Modem(u)
    w.exc = None
    o, active = ussd_obj(u, w)
    r = u.call(o)
    if not truth(u, active): u.prove(not w.log, 'nothing is written for an ended session'); u.returns(r); return
    u.prove(len(w.log) == 1, 'one command')
    w.sent(0, 'AT+CUSD=2', 'the session is cancelled')
    if w.exc is not None: w.passed_on(r)
    else: u.returns(r)
