"""The table of active calls (C18): incoming calls, dialling, call events, hanging up."""
import threading
from .stored import *

CALLS = {GM.Call: ('id', 'type', '_answered', 'active', '_gsmModem'), GM.IncomingCall: ('id', 'type', '_answered', 'active', '_gsmModem', 'ton', 'callerName', 'ringing', 'ringCount')}


class Num(SStr):
    """the number of an active call: an arbitrary text; same: whether it is the caller's"""
    def __init__(self, w, u, same): self.w, self.same, self.seq = w, same, str_seq(anychars(u, 'callnumber')[0])
    def veq(self, o):
        if o is self: return True
        if o is None: return False
        n = self.w.number
        if is_str(o) and n is not None and seq_same(str_seq(o), str_seq(n)): return self.same
        raise Unsupported('comparison of the number of a call')


class Callback:
    """a status callback, or None"""
    def __init__(self, w, o): self.w, self.o, self.on = w, o, ctx().fresh_bool('callback')
    def vtruth(self): return self.on
    def vis_none(self): return bnot(self.on)
    def vcall(self, I, a, k):
        self.w.u.prove(len(a) == 1 and a[0] is self.o, 'the callback of a call gets that call')


class CallTable:
    """n active calls under different identifiers, of which only those looked at are materialised; every call has the
    identifier it is stored under; at most one active incoming call of a number"""
    vtype = dict

    def __init__(self, u, w):
        self.u, self.w, c = u, w, ctx()
        self.n = c.fresh_int('n_calls', 0, MAXLEN)
        self.key = z3.Function(c.name('callkey'), z3.IntSort(), z3.IntSort())
        self.pos = z3.Function(c.name('callpos'), z3.IntSort(), z3.IntSort())
        self.has = z3.Function(c.name('callin'), z3.IntSort(), z3.BoolSort())
        self.seen = []         # (index, object, attributes at the start)
        self.writes = []       # (key, object or None), in order
        self.base = CompBase('calls', self.elem, length=self.n)
        self.incoming = None   # index of the active incoming call of the caller, see w.known
        self.special = {}      # what searches say about the calls: see first()

    # contents at the start
    def elem(self, k):
        c = ctx()
        for (j, o, d) in self.seen:
            if keys_same(j, k) or c.branch(cmp('==', j, k)): return o
        zk = z3.simplify(zi(k))
        kk = mi(self.key(zk))
        c.assume(band(mb(self.has(zi(kk))), cmp('==', mi(self.pos(zi(kk))), k), cmp('>=', kk, 0)))
        cls, d = self.w.shape(self, k)
        o = call_obj(self.u, self.w, cls, id=kk, **d)
        o.set('_callStatusUpdateCallbackFunc', Callback(self.w, o))
        if cls is GM.IncomingCall: o.set('ringing', c.fresh_bool('ringing'))
        self.seen.append((k, o, dict(o._attrs)))
        return o

    def original(self, k):
        """the call stored under k at the start, or None"""
        c = ctx()
        if not c.branch(mb(self.has(zi(k)))): return None
        p = mi(self.pos(zi(k)))
        c.assume(band(cmp('<=', 0, p), cmp('<', p, self.n), cmp('==', mi(self.key(zi(p))), k)))
        return self.elem(p)

    def unused(self, lo):
        """an identifier in [lo, lo+n] that is not in use: a table of n entries cannot hold n+1 identifiers"""
        c = ctx()
        v = c.fresh_int('free', lo)
        c.assume(band(cmp('<=', v, add(lo, self.n)), mb(z3.Not(self.has(zi(v))))))
        return v

    def size(self): return self.n if not self.writes else unsupported('size of the table after changes')

    # dict
    def vtruth(self): return cmp('>', self.size(), 0)
    def vlen(self): return self.size()
    def lookup(self, k):
        if not is_intlike(k): raise Unsupported('identifier of a call')
        for kk, o in reversed(self.writes):
            if keys_same(kk, k) or ctx().branch(cmp('==', kk, k)): return o
        return self.original(k)
    def vcontains(self, I, k):
        if k is None: return False
        return self.lookup(k) is not None if self.writes else mb(self.has(zi(k)))
    def vgetitem(self, I, k):
        o = None if k is None else self.lookup(k)
        if o is None: throw(KeyError, 'call')
        return o
    def vsetitem(self, I, k, v): self.lookup(k); self.writes.append((k, v))
    def vdelitem(self, I, k):
        if self.lookup(k) is None: throw(KeyError, 'call')
        self.writes.append((k, None))
    def viter(self, I): return I.get_iter(VList(Seq((Gen(CompBase('keys', lambda k: self.elem(k).get('id'), length=self.n), 0, self.size()),))))
    def vgetattr(self, I, n):
        if n == 'get': return Model('dict.get', lambda I, a, k: next((x for x in [None if a[0] is None else self.lookup(a[0])] if x is not None), a[1] if len(a) > 1 else None))
        if n in ('values', 'itervalues'): return Model('dict.values', lambda I, a, k: VList(Seq((Gen(self.base, 0, self.size()),))))
        if n in ('items', 'iteritems'): return Model('dict.items', lambda I, a, k: VList(Seq((Gen(CompBase('items', lambda j: (self.elem(j).get('id'), self.elem(j)), length=self.n), 0, self.size()),))))
        if n == 'keys': return Model('dict.keys', lambda I, a, k: VList(Seq((Gen(CompBase('keys', lambda j: self.elem(j).get('id'), length=self.n), 0, self.size()),))))
        if n == 'pop':
            def pop(I, a, k):
                o = None if a[0] is None else self.lookup(a[0])
                if o is None:
                    if len(a) > 1: return a[1]
                    throw(KeyError, 'call')
                self.writes.append((a[0], None)); return o
            return Model('dict.pop', pop)
        if n == '__contains__': return Model('in', lambda I, a, k: self.vcontains(I, a[0]))
        raise Unsupported('dict.' + n)

    # what may have changed
    def unchanged(self, *exempt):
        """no call but the given ones has changed"""
        for (k, o, d) in self.seen:
            if any(o is x for x in exempt): continue
            for n, v in d.items():
                x = o.get(n) if o.has(n) else None
                self.u.prove(x is v or (is_intlike(x) and is_intlike(v) and band(cmp('==', x, v))), 'no other call changes (.%s)' % n)

    def net(self):
        """changes to the table: [(key, object or None)], later ones of the same key only"""
        out = []
        for k, o in self.writes:
            for i, (kk, x) in enumerate(out):
                if keys_same(kk, k) or ctx().branch(cmp('==', kk, k)): out[i] = (kk, o); break
            else: out.append((k, o))
        return out


def cover_all(L, o):
    for n in CALLS[o.cls]: L.cover(o, n)


class Active(Modem):
    """a modem with an arbitrary table of active calls"""
    number = None

    def __init__(self, u, **attrs):
        super().__init__(u, **attrs)
        self.table = CallTable(u, self)
        self.obj.set('activeCalls', self.table)
        self.exc = None
        self.events(u)

    def shape(self, t, k):
        """class and attributes of the call at index k (any)"""
        u, c = self.u, ctx()
        cls = GM.IncomingCall if c.branch(c.fresh_bool('incoming')) else GM.Call
        return cls, dict(number=Num(self, u, c.fresh_bool('same')), _answered=c.fresh_bool('answered'), active=True)

    def new_id(self, k, label):
        self.u.prove(is_intlike(k) and mb(z3.Not(self.table.has(zi(k)))), label)


# -- identifiers -----------------------------------------------------------------------------------------------------------------
def unused_loop(w):
    def inv(L):
        free = L.remember('free', lambda: w.table.unused(L.local('callId')))
        k = L.any('callId', 1)
        L.fact(cmp('<=', k, free), 'an unused identifier lies ahead')
        L.variant(sub(free, k))
    return inv


@unit('C18', M + '_unusedCallId', 'an identifier no active call has')
def _(u):
    w = Active(u)
    u.use({('GsmModem._unusedCallId', 0): unused_loop(w)})
    r = u.returns(u.call(w.obj))
    u.prove(is_int(r) and cmp('>=', r, 1), 'a positive integer')
    w.new_id(r, 'no active call has the identifier')
    w.table.unchanged(); u.prove(not w.table.writes, 'the table is not changed')


@contract('unusedCallId', M + '_unusedCallId', proved_by=[M + '_unusedCallId'])
def _(I, args, kwargs):
    t = ctx().anchors['world'].table
    if t.writes: raise Unsupported('unusedCallId after changes')
    return t.unused(1)


# -- incoming calls --------------------------------------------------------------------------------------------------------------
class Ringing(Active):
    """known: index of the active incoming call of the caller, or None"""
    def __init__(self, u):
        self.extended, self.clip = u.bool('extended'), u.bool('clip')
        self.rung, self.known = [], None
        super().__init__(u, _extendedIncomingCallIndication=self.extended, _callingLineIdentification=self.clip, incomingCallCallback=Model('incomingCallCallback', self.callback))
        self.errors = [X.CommandError, X.CmeError, X.TimeoutException]

    def callback(self, I, a, k):
        self.u.prove(len(a) == 1, 'the callback gets the call')
        self.rung.append(a[0])

    def shape(self, t, k):
        c = ctx()
        if self.known is not None and c.branch(cmp('==', k, self.known)):
            return GM.IncomingCall, dict(number=None if self.number is None else Num(self, self.u, True), _answered=c.fresh_bool('answered'))
        cls, d = super().shape(t, k)
        if cls is GM.IncomingCall:
            if self.number is not None: d['number'] = None if c.branch(c.fresh_bool('unknown')) else Num(self, self.u, False)
        return cls, d


def ring_loop(w):
    def inv(L, p):
        c, t = ctx(), w.table
        L.mentioned.add('call')
        if L.mode == 'havoc' and c.branch(cmp('<', p, t.n)): cover_all(L, t.elem(p))
        if L.mode == 'back': t.unchanged(*([t.elem(w.known)] if w.known is not None else []))
        if w.known is None: want = None
        else:
            o = t.elem(w.known)
            past = c.branch(cmp('>', p, w.known))
            want = o if past else None
            old = next(d for (k, x, d) in t.seen if x is o)['ringCount']
            L.attr(o, 'ringCount', add(old, 1) if past else old)
        if L.mode == 'havoc': L.fr.locals['call'] = want
        else: w.u.prove(L.local('call') is want, L.lab() + ': the call found so far')
    return inv


CLIP = re.compile(r'^\+CLIP:\s*"(\+{0,1}\d+)",(\d+).*$')      # the lines that identify a caller


def clip_line(u, plus):
    """a line that identifies the caller, and the number it tells"""
    n = digits(u, 'callerdigits')[0]
    if plus: n = cat('+', n)
    ton = digits(u, 'ton')[0]
    rest, base, length = anychars(u, 'rest', cons=lambda v, k: band(cmp('!=', v, 10), imp(cmp('==', k, 0), bnot(DIGIT(v)))))
    return cat('+CLIP:', anychars(u, 'blanks', cons=lambda v, k: SPACE(v))[0], '"', n, '",', ton, rest), n


for _case in ('not identified', 'a number', 'an international number', 'another line'):
    for _known in (False, True):
        @unit('C18', M + '_handleIncomingCall', '%s; %s' % (_case, 'of an active incoming call: one more ring on that call' if _known else 'not active: tracked under an unused identifier'), uses=('GsmModem.write', 'unusedCallId'), budget=100)
        def _(u, case=_case, known=_known):
            c = u.c
            w = Ringing(u)
            R = Rows(u, 'line', 1)
            check = None
            if case == 'not identified':
                if truth(u, w.clip) and c.branch(cmp('>=', R.n, 2)): raise PathEnd()
            else:
                u.assume(w.clip); u.assume(cmp('>=', R.n, 2))
                if case == 'another line': check = not_matching(w, R.line(1), CLIP)
                else:
                    line, w.number = clip_line(u, 'inter' in case)
                    R.memo['1'] = RSStr(str_seq(line), (R, 1))
            if known: w.known = c.fresh_int('known', 0); c.assume(cmp('<', w.known, w.table.n))
            u.use({('GsmModem._handleIncomingCall', 0): ring_loop(w)})
            r = u.call(w.obj, VList(R.seq))
            t = w.table
            if isinstance(r, Raised):
                w.passed_on(r); u.prove(not t.writes and not w.rung, 'nothing is tracked or reported when re-enabling the indication fails'); t.unchanged()
                return
            if check and not (w.rung and isinstance(w.rung[0], VObj) and w.rung[0].get('number') is None): check()
            u.returns(r)
            net = t.net()
            u.prove(len(w.rung) == 1, 'reported once')
            if known:
                o = t.elem(w.known)
                u.prove(w.rung[0] is o, 'the known call is reported')
                u.prove(not net, 'no further call is tracked')
                old = next(d for (k, x, d) in t.seen if x is o)
                u.prove(cmp('==', o.get('ringCount'), add(old['ringCount'], 1)), 'one more ring')
                for n in ('id', 'number', '_answered', 'active'): u.prove(o.get(n) is old[n], 'nothing else of the call changes (.%s)' % n)
                t.unchanged(o)
                return
            t.unchanged()
            u.prove(len(net) == 1, 'one call is added')
            k, o = net[0]
            w.new_id(k, 'under an identifier no other active call has')
            u.prove(isinstance(o, VObj) and o.cls is GM.IncomingCall and w.rung[0] is o, 'an incoming call, the one reported')
            u.prove_eq(o.get('id'), k, 'its identifier is the one it is stored under')
            if w.number is None: u.prove(o.get('number') is None, 'no number without identification')
            else: u.prove_eq(o.get('number'), w.number, 'the number of the caller')
            u.prove_eq(o.get('ringCount'), 1, 'first ring')
            u.prove(o.get('active') is True and o.get('_answered') is False and o.get('ringing') is True, 'active, ringing, not answered')


for _kind in ('voice', 'another', 'none'):
    @unit('C18', M + '_handleIncomingCall', 'the kind of call announced: %s' % _kind, uses=('GsmModem.write', 'unusedCallId'))
    def _(u, kind=_kind):
        w = Ringing(u)
        R = Rows(u, 'line', 1)
        u.assume(bnot(w.clip))
        if kind == 'none': u.assume(bnot(w.extended)); want = None
        else:
            u.assume(w.extended)
            want = 'VOICE' if kind == 'voice' else anychars(u, 'kind', 1, cons=lambda v, k: band(cmp('>=', v, 32), cmp('<', v, 127)))[0]
            if kind == 'another': u.assume(bnot(val_eq(want, 'VOICE')))
            R.memo['0'] = RSStr(str_seq(cat('+CRING: ', want)), (R, 0))
            w.kind = want
        u.replay('call_tracking', lambda ev: ('huawei', [('ring', '555', None if want is None else ev(want))]))
        u.use({('GsmModem._handleIncomingCall', 0): ring_loop(w)})
        r = u.call(w.obj, VList(R.seq))
        u.returns(r)
        u.prove(len(w.rung) == 1, 'reported once')
        net = w.table.net()
        u.prove(len(net) == 1, 'one call is added')
        o = net[0][1]
        if not o.has('type'): raise Unsupported('the kind of a call')
        if kind == 'voice': u.prove_eq(o.get('type'), 0, 'a voice call')
        elif kind == 'another': u.prove_eq(o.get('type'), want, 'the kind announced')
        else: u.prove(o.get('type') is None, 'no kind announced')


# -- dialling ----------------------------------------------------------------------------------------------------------------------
class Dialling(Active):
    def __init__(self, u, wait, poll):
        self.dialled = anychars(u, 'number')[0]
        self.assigned = None
        self.arrived, self.threads = [], 0
        self.waitatd = u.bool('waitatd')
        super().__init__(u, _waitForCallInitUpdate=wait, _mustPollCallStatus=poll, _waitForAtdResponse=self.waitatd, _dialEvent=None, _dialResponse=None)
        u.c.anchors.setdefault('construct', {})[threading.Thread] = self.thread
        self.poll = poll

    def thread(self, I, a, k):
        self.u.prove(self.poll, 'polls only modems without call notifications')
        o = VObj(threading.Thread, {}); o.partial = True
        w = self

        class T:
            vtype = threading.Thread
            def vtruth(s): return True
            def vsetattr(s, I, n, v): pass
            def vgetattr(s, I, n):
                def start(I, a, k): w.threads += 1
                if n == 'start': return Model('start', start)
                raise Unsupported('Thread.' + n)
        return T()

    def ev_wait(self, e, timeout):
        u, c = self.u, ctx()
        u.prove(self.obj.get('_dialEvent') is e and len(self.log) == 1, 'the update is waited for after dialling')
        got = e.flag or c.choice([None, None]) == 0
        self.arrived.append(got)
        if got:
            e.flag = True
            self.assigned = (c.fresh_int('assigned', 0), c.fresh_int('kind', 0))
            self.obj.set('_dialResponse', self.assigned)
        return got


def dial_spec(u, w, r, waits):
    t = w.table
    u.prove(len(w.log) == 1, 'dialled once')
    u.prove_eq(w.log[0]['data'], cat('ATD', w.dialled, ';'), 'the dial command')
    u.prove_eq(w.log[0]['writeTerm'], '\r', 'the dial command (terminator)')
    t.unchanged()
    if waits: u.prove(w.obj.get('_dialEvent') is None, 'no wait is left behind')
    net = t.net()
    if w.exc is not None:
        w.passed_on(r); u.prove(not net, 'a call that could not be dialled is not tracked'); return
    if waits:
        u.prove(len(w.arrived) == 1, 'waits once for the update')
        if not w.arrived[0]:
            u.raises(r, X.TimeoutException); u.prove(not net, 'a call that was not established is not tracked'); return
    u.returns(r)
    u.prove(isinstance(r, VObj) and r.cls is GM.Call, 'an outgoing call')
    u.prove(len(net) == 1 and net[0][1] is r, 'the call returned is tracked')
    u.prove_eq(r.get('id'), net[0][0], 'under its identifier')
    if waits: u.prove_eq(r.get('id'), w.assigned[0], 'the identifier the network assigned'); u.prove_eq(r.get('type'), w.assigned[1], 'the type the network reported')
    else: w.new_id(net[0][0], 'an identifier no other active call has')
    u.prove_eq(r.get('number'), w.dialled, 'its number')
    u.prove(r.get('active') is True and r.get('_answered') is False, 'active, not answered')
    u.prove(r.get('_callStatusUpdateCallbackFunc') is w.callback, 'with the given callback')


for _wait, _poll in ((False, False), (True, False), (True, True)):
    @unit('C18', M + 'dial', ('waits for the network\'s identifier%s' % (' by polling' if _poll else '')) if _wait else 'no identifier from the network', uses=('GsmModem.write', 'unusedCallId'))
    def _(u, wait=_wait, poll=_poll):
        w = Dialling(u, wait, poll)
        w.callback = Opaque('callback')
        r = u.call(w.obj, w.dialled, callStatusUpdateCallbackFunc=w.callback)
        dial_spec(u, w, r, wait)


# -- call events -------------------------------------------------------------------------------------------------------------------
class Event:
    """match of a call status update with n groups of digits"""
    vtype = re.Match
    def __init__(self, u, n):
        self.g = tuple(digits(u, 'group')[0] for _ in range(n))
    def vtruth(self): return True
    def vgetattr(self, I, n):
        if n == 'groups': return Model('groups', lambda I, a, k: self.g)
        if n == 'group': return Model('group', lambda I, a, k: self.g[a[0] - 1] if a and isinstance(a[0], int) and 1 <= a[0] <= len(self.g) else unsupported('group'))
        raise Unsupported('match.' + n)


class Searching(Active):
    """first: index of the first call in table order the event is about, or None"""
    def __init__(self, u, unanswered):
        self.unanswered, self.first = unanswered, None
        super().__init__(u)

    def shape(self, t, k):
        c = ctx()
        cls, d = super().shape(t, k)
        if not self.searches: return cls, d
        if self.first is None or c.branch(cmp('<', k, self.first)): want = False
        elif c.branch(cmp('==', k, self.first)): want = True
        else: return cls, d
        if cls is GM.Call and self.unanswered: d['_answered'] = not want
        elif (cls is GM.Call) != want: raise PathEnd()
        return cls, d
    searches = loop = False

    def search(self):
        c = ctx()
        self.searches = True
        if c.choice([None, None]):
            self.first = c.fresh_int('first', 0); c.assume(cmp('<', self.first, self.table.n))
            return self.table.elem(self.first)
        return None


def search_loop(w):
    def inv(L, p):
        if L.mode == 'havoc' and ctx().branch(cmp('<', p, w.table.n)): cover_all(L, w.table.elem(p))
        if L.mode == 'back': w.table.unchanged()
        if w.first is not None: L.fact(cmp('<=', p, w.first), 'the call has not been passed')
        if w.loop: L.eq('callId', None)
    return inv


LIMIT = 'the event carries the identifier of no active call'

for _n in (None, 0, 1, 2, 3):
    @unit('C18', M + '_handleCallAnswered', 'only the call the update is about: %s' % ('identifier from polling' if _n is None else '%d groups' % _n))
    def _(u, n=_n):
        c = u.c
        w = Searching(u, True)
        m = None if n is None else Event(u, n)
        u.use({('GsmModem._handleCallAnswered', 0): search_loop(w)})
        t = w.table
        if n is None or n > 1:
            k = u.int('cid', 0) if n is None else number(m.g[0])
            o = t.original(k)
            if o is None: raise PathEnd()
            r = u.call(w.obj, None, k) if n is None else u.call(w.obj, m)
        else:
            o = w.search()
            r = u.call(w.obj, m)
        u.returns(r)
        u.prove(not t.writes, 'the table does not change')
        if o is None: t.unchanged(); return
        u.prove(truth(u, o.get('_answered')), 'the call is answered')
        old = next(d for (k, x, d) in t.seen if x is o)
        for a in ('id', 'number', 'active'): u.prove(o.get(a) is old[a], 'nothing else of the call changes (.%s)' % a)
        t.unchanged(o)


def ended(u, w, r, o, gone=None):
    """o was ended (None: no call was)"""
    t = w.table
    u.returns(r)
    net = t.net()
    if o is None: t.unchanged(); u.prove(not net, 'no call is forgotten'); return
    u.prove(not truth(u, o.get('_answered')) and not truth(u, o.get('active')), 'the ended call is inactive and unanswered')
    u.prove(len(net) == 1 and net[0][1] is None, 'one call is forgotten')
    u.prove_eq(net[0][0], o.get('id'), 'the ended one')
    old = next(d for (k, x, d) in t.seen if x is o)
    for a in ('id', 'number'): u.prove(o.get(a) is old[a], 'nothing else of the call changes (.%s)' % a)
    t.unchanged(o)


for _fn, _un in (('_handleCallEnded', False), ('_handleCallRejected', True)):
    for _n in (None, 0, 1, 2):
        @unit('C18', M + _fn, 'only the call the update is about: %s' % ('identifier from polling' if _n is None else '%d groups' % _n))
        def _(u, n=_n, un=_un):
            w = Searching(u, un)
            m = None if n is None else Event(u, n)
            u.use({('GsmModem._handleCallEnded', 0): search_loop(w)})
            t = w.table
            w.loop = True
            if n == 0:
                o = w.search()
                r = u.call(w.obj, m)
            elif n is None:
                k = None if u.c.choice([None, None]) else u.int('cid', 0)
                o = None if k is None else t.original(k)
                r = u.call(w.obj, None, k)
            else:
                o = t.original(number(m.g[0]))
                r = u.call(w.obj, m)
            ended(u, w, r, o)


for _n in (None, 1, 2, 3):
    @unit('C18', M + '_handleCallInitiated', 'gives dial() the identifier: %s' % ('from polling' if _n is None else '%d groups' % _n))
    def _(u, n=_n):
        w = Active(u, _dialResponse=None)
        m = None if n is None else Event(u, n)
        e = Ev(w)
        waiting = u.c.choice([None, None]) == 0
        seen = []

        def event():
            seen.append(1)
            return e if waiting and (len(seen) == 1 or u.c.choice([None, None]) == 0) else None
        w.obj.volatile['_dialEvent'] = event
        cid, kind = u.int('cid', 0), u.int('kind', 0)
        order = []
        w.ev_set = lambda ev: order.append(w.obj.get('_dialResponse'))
        r = u.call(w.obj, None, cid, kind) if n is None else u.call(w.obj, m)
        u.returns(r)
        u.prove(not w.table.writes, 'the table does not change'); w.table.unchanged()
        if not waiting: u.prove(not order, 'nothing is signalled without a waiting dial()'); return
        u.prove(len(order) == 1 and isinstance(order[0], tuple) and len(order[0]) == 2, 'the waiting dial() is woken once, after the identifier is there')
        u.prove_eq(order[0][0], cid if n is None else number(m.g[0]), 'the identifier')
        u.prove_eq(order[0][1], kind if n is None else number(m.g[1]) if n > 1 else 1, 'the type')


# -- hanging up --------------------------------------------------------------------------------------------------------------------
class Hanging(Active):
    """the table may change while the command runs: the call may have ended, and another may have its identifier"""
    def command(self, o, a):
        c, u = ctx(), self.u
        if self.log: return super().command(o, a)
        u.prove(truth(u, self.was), 'the hang-up command is written for an active call only')
        k = self.call.get('id')
        r = super().command(o, a)
        w = c.choice([None] * 3)
        if w: self.table.writes.append((k, None if w == 1 else self.other()))
        self.base = len(self.table.writes)
        return r
    base = 0

    def other(self):
        self.stranger = call_obj(self.u, self, GM.Call, id=self.call.get('id'))
        return self.stranger


for _cls in (GM.Call, GM.IncomingCall):
    @unit('C18', (CALL if _cls is GM.Call else INC) + 'hangup', 'one command for an active call, none for an ended one; forgets no other call', uses=('GsmModem.write',))
    def _(u, cls=_cls):
        c = u.c
        w = Hanging(u)
        t = w.table
        cid = u.int('cid', 0)
        w.was = c.fresh_bool('was')
        place = c.choice([None] * 3)     # this call is stored under its identifier, another is, or none is
        o = None
        if place < 2:
            o2 = t.original(cid)
            if o2 is None: raise PathEnd()
            if place == 0:
                if o2.cls is not cls: raise PathEnd()
                o = o2
        elif not c.branch(mb(z3.Not(t.has(zi(cid))))): raise PathEnd()
        if o is None: o = call_obj(u, w, cls, id=cid)
        answered = c.fresh_bool('answered_')
        o.set('active', w.was); o.set('_answered', answered); o.set('_callStatusUpdateCallbackFunc', Callback(w, o))
        w.call = o
        ringing = o.get('ringing') if cls is GM.IncomingCall else None
        r = u.call(o)
        was = truth(u, w.was)
        u.prove(len(w.log) == (1 if was else 0), 'one command for an active call, none for an ended one')
        if was: w.sent(0, 'ATH', 'hang up')
        if was and w.exc is not None:
            w.passed_on(r); t.unchanged(o); u.prove(len(t.writes) == 0, 'nothing is forgotten when the modem refuses')
            u.prove(truth(u, o.get('active')), 'the call stays active when the modem refuses')
            u.prove_eq(o.get('_answered'), answered, 'the call stays answered (or not) when the modem refuses')
            if ringing is not None: u.prove_eq(o.get('ringing'), ringing, 'the call stays ringing (or not) when the modem refuses')
            return
        u.returns(r)
        u.prove(not truth(u, o.get('active')), 'the call is not active any more')
        if was: u.prove(not truth(u, o.get('_answered')), 'nor answered')
        if cls is GM.IncomingCall: u.prove(not truth(u, o.get('ringing')), 'nor ringing')
        t.unchanged(o)
        changes = t.writes[w.base:]
        held = place == 0 and not (was and w.base)
        if held:
            u.prove(len(changes) == 1 and changes[0][1] is None, 'the call is forgotten')
            u.prove_eq(changes[0][0], cid, 'under its identifier')
        else: u.prove(not changes, 'no other call is forgotten')


# -- polling -----------------------------------------------------------------------------------------------------------------------
def handler(name):
    @contract('_handleCall' + name, M + '_handleCall' + name, proved_by=[M + '_handleCall' + name])
    def _(I, args, kwargs):
        a = dict(callId=None, callType=1); a.update(zip(('regexMatch', 'callId', 'callType'), args[1:])); a.update(kwargs)
        ctx().anchors['world'].event(name, a)


for _name in ('Initiated', 'Answered', 'Ended', 'Rejected'): handler(_name)


class Polling(Active):
    """state: 0 the call is to be initiated, 1 answered, 2 ended; call: its identifier"""
    def __init__(self, u, state):
        self.state, self.call, self.due, self.reported, self.done = state, None, None, None, False
        super().__init__(u, _pollCallStatusRegex=self)
        self.errors = [X.TimeoutException, X.CommandError, serial.SerialException]
        self.obj.volatile['alive'] = lambda: ctx().fresh_bool('alive')

    def vtruth(self): return True

    def vgetattr(self, I, n):
        if n == 'match': return Model('match', self.match)
        raise Unsupported('pattern.' + n)

    def match(self, I, a, k):
        u, c = self.u, ctx()
        if not same_line(a[0], self.rows.line(0)): raise Unsupported('another line of the answer')
        if c.choice([None, None]): self.answer(None); return None
        m = Event(u, 7)
        self.answer([number(x) for x in m.g[:4]])
        return m

    def answer(self, clcc):
        """what the answer means for the call (spec)"""
        c = ctx()
        self.due = None
        if clcc is None:
            if self.state == 1: self.due = ('Rejected', self.call)
            elif self.state == 2: self.due = ('Ended', self.call)
            return
        cid, direction, stat, kind = clcc
        if not c.branch(cmp('==', direction, 0)): return
        if self.state == 0 and c.branch(bor(cmp('==', stat, 2), cmp('==', stat, 3))): self.due = ('Initiated', cid, kind)
        elif self.state == 1 and c.branch(cmp('==', stat, 0)): self.due = ('Answered', cid)

    def command(self, o, a):
        u = self.u
        u.prove(not self.done and self.due is None, 'no further poll before the event was handled, or after the end')
        u.prove_eq(a['data'], 'AT+CLCC', 'the status is polled')
        try: return super().command(o, a)
        except PyExc as e:
            if issubclass(e.obj.cls, X.TimeoutException): self.answer(None)
            raise

    def event(self, name, a):
        u = self.u
        u.prove(a['regexMatch'] is None, 'the identifier is given')
        u.prove(self.due is not None and self.due[0] == name, 'an event is reported when the answer means it, once')
        if self.due is None or self.due[0] != name: raise PathEnd()
        if self.due[1] is None: u.prove(a['callId'] is None, 'the call the answer is about')
        else: u.prove_eq(a['callId'], self.due[1], 'the call the answer is about')
        if name == 'Initiated': u.prove_eq(a['callType'], self.due[2], 'its type'); self.state, self.call = 1, self.due[1]
        elif name == 'Answered': self.state, self.call = 2, self.due[1]
        else: self.done = True
        self.due = None


def poll_loop(w):
    def inv(L):
        c, u = ctx(), w.u
        L.mentioned |= {'expectedState', 'callId', 'callDone', 'timeLeft', 'clcc'}
        loc = L.fr.locals
        if L.mode == 'havoc':
            w.state = c.choice([None] * 3)
            w.call = None if c.choice([None, None]) else c.fresh_int('poll_cid', 0)
            w.done, w.due, w.exc = c.choice([None, None]) == 1, None, None
            loc.update(expectedState=w.state, callId=w.call, callDone=w.done, timeLeft=SReal(c.fresh_int('left').z, 2), clcc=Poison('clcc'))
            if 'timeout' in loc: loc['timeout'] = Poison('timeout'); L.mentioned.add('timeout')
            return
        u.prove_eq(L.local('expectedState'), w.state, L.lab() + ': the state waited for')
        u.prove(L.local('callId') is None if w.call is None else is_intlike(L.local('callId')), L.lab() + ': the call')
        if w.call is not None: u.prove_eq(L.local('callId'), w.call, L.lab() + ': the call')
        u.prove(truth(u, L.local('callDone')) == w.done, L.lab() + ': ended')
        u.prove(w.due is None, L.lab() + ': every event was reported')
        if not isinstance(L.local('timeLeft'), (int, SInt, SReal)): raise Unsupported('time left')
    return inv


@unit('C18', M + '_pollCallStatus', 'polled answers become events of the call they are about', uses=('GsmModem.write', '_handleCallInitiated', '_handleCallAnswered', '_handleCallEnded', '_handleCallRejected'))
def _(u):
    c = u.c
    st = c.choice([None] * 3)
    w = Polling(u, st)
    w.exc = None
    w.call = None if c.choice([None, None]) else u.int('callid', 0)
    u.use({('GsmModem._pollCallStatus', 0): poll_loop(w)})
    timeout = None if c.choice([None, None]) else u.int('timeout', 1)
    r = u.call(w.obj, st, w.call, timeout)
    if isinstance(r, Raised) and w.exc is not None and r.obj is w.exc: u.prove(not issubclass(r.cls, X.TimeoutException), 'a poll without an answer is not an error'); return
    u.prove(w.due is None, 'every event was reported')
    if isinstance(r, Raised): u.raises(r, X.TimeoutException)
    else: u.returns(r)
