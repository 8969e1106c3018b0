"""Stored messages (C17): reading, listing and deleting."""
from .sms import *
from gsmmodem.exceptions import EncodingError

STATUS = {'REC UNREAD': 0, 'REC READ': 1, 'STO UNSENT': 2, 'STO SENT': 3, 'ALL': 4}
PDUM = 'gsmmodem.pdu.'


# -- contracts of what is used -------------------------------------------------------------------------------------------------
class TimeOf:
    """the time a well-formed text denotes"""
    def __init__(self, text): self.text = text
    def veq(self, o): return isinstance(o, TimeOf) and val_eq(self.text, o.text)
    def vtruth(self): return True
    def vgetattr(self, I, n): raise Unsupported('datetime.' + n)


@contract('parseTextModeTimeStr', 'gsmmodem.util.parseTextModeTimeStr', proved_by=['gsmmodem.util.parseTextModeTimeStr', 'gsmmodem.util.SimpleOffsetTzInfo.utcoffset'])
def _(I, args, kwargs):
    if len(args) != 1 or kwargs or not is_str(args[0]): raise Unsupported('parseTextModeTimeStr contract: argument')
    return TimeOf(args[0])


KINDS = {'SMS-DELIVER': ('number', 'time', 'text', 'smsc'), 'SMS-STATUS-REPORT': ('number', 'time', 'discharge', 'reference', 'status', 'smsc'), 'SMS-SUBMIT': ('number', 'text', 'smsc')}


class Decoded:
    """what decoding one line gives: kind and fields, or kind None: EncodingError"""
    def __init__(self, k):
        self.kind = [None, 'SMS-DELIVER', 'SMS-STATUS-REPORT', 'SMS-SUBMIT'][ctx().choice([None] * 4)]
        self.fields = {n: Opaque(('decoded', ctx().name('field'), n)) for n in KINDS.get(self.kind, ())}
        self.line = k


@contract('decodeSmsPdu', PDUM + 'decodeSmsPdu', proved_by=[(PDUM + 'decodeSmsPdu', ''), (PDUM + '_decodePduOctets', 'SMS-DELIVER'), (PDUM + '_decodePduOctets', 'SMS-STATUS-REPORT'), (PDUM + '_decodePduOctets', 'SMS-SUBMIT')])
def _(I, args, kwargs):
    if len(args) != 1 or kwargs: raise Unsupported('decodeSmsPdu contract: argument')
    d = ctx().anchors['world'].decoded(args[0])
    if d.kind is None: throw(EncodingError, 'not a PDU')
    return VDict([('type', d.kind)] + list(d.fields.items()))


# -- world -----------------------------------------------------------------------------------------------------------------------
class Name(SStr):
    """an arbitrary text, different from the other Names"""
    def __init__(self, u, name): self.seq = str_seq(anychars(u, name)[0])
    def veq(self, o): return self is o if isinstance(o, Name) else o is not None and unsupported('comparison of a memory name')


def regexes(o):
    """the attributes holding compiled expressions start as the class has them"""
    for n, v in vars(GM.GsmModem).items():
        if v is None and not o.has(n): o.set(n, None)


class Store(Modem):
    """textmode, and a memory: None, the current one, or another one"""
    def __init__(self, u, textmode, memory, **attrs):
        self.cur = Name(u, 'current')
        self.mem = {'default': None, 'same': self.cur, 'other': Name(u, 'memory')}[memory]
        self.which = memory
        super().__init__(u, _smsMemReadDelete=self.cur, _smsMemWrite=Name(u, 'writemem'), _smsTextMode=textmode, **attrs)
        regexes(self.obj)
        self.textmode = textmode
        self.pdus, self.R, self.exc, self.want = {}, None, None, []
        u.call_other(GM.GsmModem._compileSmsRegexes, self.obj)

    def command(self, o, a):
        """the next of the wanted commands is written; the answer to the last is the listing"""
        u = self.u
        u.prove(o is self.obj, 'the command goes to this modem')
        i = len(self.log)
        self.log.append(a)
        w = (['AT+CPMS'] if self.which == 'other' else []) + self.want
        u.prove(i < len(w), 'no further command')
        if i >= len(w): raise PathEnd()
        self.sent(i, cat('AT+CPMS="', self.mem, '"') if w[i] == 'AT+CPMS' else w[i], 'memory selected' if w[i] == 'AT+CPMS' else 'the command')
        u.prove(a['parseError'] is True, 'errors are reported')
        r = self.outcome()
        if w[i] != 'AT+CPMS':
            self.R = self.rows
            self.answered()
        return r

    def answered(self): self.know(self.R, 0)

    def know(self, R, k):
        """the last line of an answer, and no other, is a final result code"""
        c = ctx()
        done = R.__dict__.setdefault('known', [])
        if any(keys_same(k, x) for x in done): return
        done.append(k)
        last = c.branch(cmp('==', add(k, 1), R.n))
        if (parse(R.line(k), 'OK', run(SPACE), END) is not None) != last: raise PathEnd()

    def decoded(self, line):
        row = getattr(line, 'row', None)
        if row is None or row[0] is not self.R: raise Unsupported('decodeSmsPdu of something else')
        key = z3.simplify(zi(row[1])).sexpr()
        if key not in self.pdus: self.pdus[key] = Decoded(row[1])
        return self.pdus[key]

    def memory_after(self):
        u = self.u
        ok = len(self.log) >= (1 if self.which == 'other' else 0) and not (self.which == 'other' and len(self.log) == 1 and self.exc is not None)
        u.prove(self.obj.get('_smsMemReadDelete') is (self.mem if self.which == 'other' and ok else self.cur), 'the memory in use is the one the modem was told')

    def complete(self):
        self.u.prove(len(self.log) == len(self.want) + (1 if self.which == 'other' else 0), 'every command is written')


def status_of(text):
    """number of a text-mode status; unknown ones are outside the domain"""
    c = ctx()
    for k, v in STATUS.items():
        if c.branch(val_eq(text, k)): return v
    raise PathEnd()


def check_received(u, x, w, status, number, time, text, smsc=None, pre=''):
    if not (isinstance(x, VObj) and x.cls is GM.ReceivedSms): u.prove(False, pre + 'a received message'); return
    u.prove(x.get('_gsmModem') is w.obj, pre + 'of this modem')
    for n, v in (('status', status), ('number', number), ('time', time), ('text', text), ('smsc', smsc)): u.prove_eq(x.get(n), v, pre + n)


def check_report(u, x, w, status, ref, number, sent, done, st, pre=''):
    if not (isinstance(x, VObj) and x.cls is GM.StatusReport): u.prove(False, pre + 'a status report'); return
    u.prove(x.get('_gsmModem') is w.obj, pre + 'of this modem')
    for n, v in (('status', status), ('reference', ref), ('number', number), ('timeSent', sent), ('timeFinalized', done), ('deliveryStatus', st)): u.prove_eq(x.get(n), v, pre + n)


def check_decoded(u, x, w, stat, d, pre=''):
    f = d.fields
    if d.kind == 'SMS-DELIVER': check_received(u, x, w, stat, f['number'], f['time'], f['text'], f['smsc'], pre)
    else: check_report(u, x, w, stat, f['reference'], f['number'], f['time'], f['discharge'], f['status'], pre)


def lines_text(u, R, lo, hi): return models.str_join(u.I, '\n', VList(Seq((Gen(R.base, lo, hi),))))


# -- readStoredSms -----------------------------------------------------------------------------------------------------------------
# These two are evaluated with the code's expression on the same line (Rows): what is specified is which field each group is.
REPORT = re.compile(r'^\+CMGR: ([^,]*),\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
PDUHEAD = re.compile(r'^\+CMGR: (\d*),"{0,1}([^"]*)"{0,1},(\d+)$')




def number_of(s): return models.int_of_str(None, s)


def quoted(u, name): return anychars(u, name, 1, cons=lambda v, k: cmp('!=', v, 34))[0]
def numeral(u, name, least=1): return anychars(u, name, least, cons=lambda v, k: band(cmp('<=', 48, v), cmp('<=', v, 57)))[0]


def not_matching(w, line, *pats):
    """the case that the line matches none of the patterns: their evaluation is skipped, and carried out only if the outcome
    is not the one required then"""
    memo = ctx().anchors.setdefault('rowmatch', {})
    for p in pats: memo[(p.pattern, p.flags, False, id(line))] = (line, None)

    def check():
        for p in pats:
            if rx.match1(p, line, False) is not None: raise PathEnd()
    return check


class Reading(Store):
    """line 0 of the answer is made by head()"""
    def know(self, R, k):
        if keys_same(k, 0) and self.head is not None:
            line = self.head()
            if line is not None:
                ctx().assume(cmp('>=', R.n, 2))
                R.memo[z3.simplify(zi(k)).sexpr()] = RSStr(str_seq(line), (R, k))
                return
        super().know(R, k)
    head = None


def a_status(w):
    """text of a status; -> (text, number)"""
    k = ctx().choice([None] * len(STATUS))
    return list(STATUS.items())[k]


def reading(u, tm, mem):
    w = Reading(u, tm, mem)
    idx = u.int('index', 0) if mem != 'same' else anychars(u, 'index')[0]
    w.want = [cat('AT+CMGR=', idx if is_str(idx) else mkstr(Seq((Dec(idx),))))]
    w.run = lambda: u.call(w.obj, idx, w.mem) if w.mem is not None else u.call(w.obj, idx)
    w.idx = idx
    return w


def finished(u, w, r):
    """False when a command failed"""
    w.memory_after()
    if w.exc is not None: w.passed_on(r); return False
    w.complete()
    return True


TEXTHEAD = re.compile(r'^\+CMGR: "([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
READ = M + 'readStoredSms'
MEMS = ('default', 'same', 'other')

for _mem in MEMS:
    @unit('C17', READ, 'text mode, %s memory: a received message, with exactly its fields' % _mem, uses=('GsmModem.write', 'parseTextModeTimeStr'))
    def _(u, mem=_mem):
        w = reading(u, True, mem)
        (st, num), number, alpha, when = a_status(w), quoted(u, 'number'), anychars(u, 'alpha', cons=lambda v, k: cmp('!=', v, 44))[0], quoted(u, 'time')
        w.head = lambda: cat('+CMGR: "', st, '","', number, '",', alpha, ',"', when, '"')
        r = w.run()
        if not finished(u, w, r): return
        u.returns(r)
        check_received(u, r, w, num, number, TimeOf(when), lines_text(u, w.R, 1, sub(w.R.n, 1)))

    @unit('C17', READ, 'text mode, %s memory: a status report, with exactly its fields' % _mem, uses=('GsmModem.write', 'parseTextModeTimeStr'))
    def _(u, mem=_mem):
        w = reading(u, True, mem)
        fo, ref, toa, sent, done, code = numeral(u, 'fo'), numeral(u, 'ref'), numeral(u, 'toa', 0), quoted(u, 'sent'), quoted(u, 'done'), numeral(u, 'code')
        k = u.c.choice([None] * 4)
        st, num = (('', 0), ('""', 0))[k] if k < 2 else a_status(w)
        if k == 2: st = '"%s"' % st
        if u.c.choice([None, None]):
            number = anychars(u, 'number', cons=lambda v, k: cmp('!=', v, 34))[0]
            field = cat('"', number, '"')
        else: field = number = anychars(u, 'number', cons=lambda v, k: band(cmp('!=', v, 34), cmp('!=', v, 44)))[0]
        w.head = lambda: cat('+CMGR: ', st, ',', fo, ',', ref, ',', field, ',', toa, ',"', sent, '","', done, '",', code)
        r = w.run()
        if not finished(u, w, r): return
        u.returns(r)
        check_report(u, r, w, num, number_of(ref), number, TimeOf(sent), TimeOf(done), number_of(code))

    @unit('C17', READ, 'PDU mode, %s memory: the message in the second line, with the status of the first' % _mem, uses=('GsmModem.write', 'decodeSmsPdu'))
    def _(u, mem=_mem):
        w = reading(u, False, mem)
        st, length = numeral(u, 'stat', 0), numeral(u, 'length')
        if u.c.choice([None, None]): field = cat('"', anychars(u, 'alpha', cons=lambda v, k: cmp('!=', v, 34))[0], '"')
        else: field = anychars(u, 'alpha', cons=lambda v, k: band(cmp('!=', v, 34), cmp('!=', v, 44)))[0]
        w.head = lambda: cat('+CMGR: ', st, ',', field, ',', length)
        r = w.run()
        if not finished(u, w, r): return
        num = 0 if u.branch(cmp('==', seq_len(str_seq(st)), 0)) else number_of(st)
        d = w.decoded(w.R.line(1))
        if d.kind is None: u.prove(isinstance(r, Raised) and issubclass(r.cls, (X.CommandError, EncodingError)), 'a message that cannot be decoded is refused')
        elif d.kind == 'SMS-SUBMIT': u.raises(r, X.CommandError)
        else:
            u.returns(r)
            check_decoded(u, r, w, num, d)

    @unit('C17', READ, '%s memory: CommandError for any other header' % _mem, uses=('GsmModem.write', 'parseTextModeTimeStr', 'decodeSmsPdu'))
    def _(u, mem=_mem):
        tm = bool(u.c.choice([None, None]))
        w = reading(u, tm, mem)
        chk = []

        def none():
            chk.append(not_matching(w, w.rows.line(0), *((TEXTHEAD, REPORT) if tm else (PDUHEAD,))))
        w.head = none
        r = w.run()
        if not finished(u, w, r): return
        if not (isinstance(r, Raised) and issubclass(r.cls, X.CommandError)): chk[0]()
        u.raises(r, X.CommandError)


# -- deleting ------------------------------------------------------------------------------------------------------------------------
for _mem in MEMS:
    @unit('C17', M + 'deleteStoredSms', '%s memory: exactly that slot' % _mem, uses=('GsmModem.write',))
    def _(u, mem=_mem):
        w = Store(u, False, mem)
        idx = u.int('index', 0) if mem != 'same' else anychars(u, 'index')[0]
        w.want = [cat('AT+CMGD=', idx if is_str(idx) else mkstr(Seq((Dec(idx),))), ',0')]
        r = u.call(w.obj, idx, w.mem) if w.mem is not None else u.call(w.obj, idx)
        w.memory_after()
        if w.exc is not None: w.passed_on(r); return
        u.returns(r); w.complete()

    @unit('C17', M + 'deleteMultipleStoredSms', '%s memory: flags 1 to 4 only' % _mem, uses=('GsmModem.write',))
    def _(u, mem=_mem):
        w = Store(u, False, mem)
        flag = u.int('flag')
        ok = u.branch(band(cmp('<=', 1, flag), cmp('<=', flag, 4)))
        u.replay('delete_multiple', lambda ev: (ev(flag), 'SM', {'default': None, 'same': 'SM', 'other': 'ME'}[mem]))
        w.want = [cat('AT+CMGD=1,', mkstr(Seq((Dec(flag),))))]
        r = u.call(w.obj, flag, w.mem) if w.mem is not None else u.call(w.obj, flag)
        if not ok:
            u.raises(r, ValueError); u.prove(not w.log, 'nothing is written for an invalid flag'); return
        w.memory_after()
        if w.exc is not None: w.passed_on(r); return
        u.returns(r); w.complete()


# -- listing -------------------------------------------------------------------------------------------------------------------------
class SlotSet:
    """the set the listing collects slots in: slots of the messages returned so far, then `added`"""
    vtype = set
    def __init__(self, w): self.w, self.added = w, []
    def vtruth(self): raise Unsupported('truth of the set of slots')
    def vgetattr(self, I, n):
        if n == 'add':
            def add_(I, a, k):
                self.w.u.prove(is_intlike(a[0]), 'slots are numbers'); self.added.append(a[0])
            return Model('set.add', add_)
        raise Unsupported('set.' + n)
    def viter(self, I):
        """any order; to be called when the listing is complete"""
        w, u = self.w, self.w.u
        w.slots_are(self, w.at_end(), 'the slots deleted are those of the messages returned')
        if w.D is None: w.D, w.d = SymBase('slot', None), ctx().fresh_int('slots', 0)
        return VIter(Seq((Gen(w.D, 0, w.d),)))


class Spec(Base):
    """the messages the specification has returned so far"""
    length = None
    name = 'returned'
    def elem(self, k): return Opaque(('returned', z3.simplify(zi(k)).sexpr()))


class Listing(Store):
    """the specification, line by line: `have` is the message being read (text mode), or the header seen (PDU mode); `out` what
    the present line has completed"""
    def __init__(self, u, textmode, memory, status):
        super().__init__(u, textmode, memory)
        self.status = status
        names = {v: k for k, v in STATUS.items()}
        self.want = ['AT+CMGL="%s"' % names[status] if textmode else 'AT+CMGL=%d' % status]
        self.spec, self.m, self.out, self.have, self.refused = Spec(), 0, [], None, False
        self.set = self.D = self.lines = None
        self.deleted, self.cleared, self.delexc = 0, 0, None
        u.c.anchors.setdefault('construct', {})[set] = self.newset

    def newset(self, I, a, k):
        if a or self.set is not None: raise Unsupported('another set')
        self.set = SlotSet(self)
        return self.set

    def answered(self): pass

    @property
    def delete(self): return truth(self.u, self.dsym)

    # -- lines
    def make(self, p, kind):
        """line p is of a kind: a header of a received message (text) or any (PDU), another header, or none"""
        u, c, R = self.u, ctx(), self.R
        key = z3.simplify(zi(p)).sexpr()
        if kind == 'head':
            c.assume(cmp('<', add(p, 1), R.n))
            idx = numeral(u, 'idx')
            if self.textmode:
                st, number, alpha, when = quoted(u, 'status'), quoted(u, 'number'), anychars(u, 'alpha', cons=lambda v, k: cmp('!=', v, 44))[0], quoted(u, 'time')
                R.memo[key] = RSStr(str_seq(cat('+CMGL: ', idx, ',"', st, '","', number, '",', alpha, ',"', when, '"')), (R, p))
                return dict(at=p, idx=idx, st=st, number=number, time=when)
            b1, b2 = (anychars(u, 'blank', cons=lambda v, k: SPACE(v))[0] for _ in range(2))
            st, rest = numeral(u, 'stat'), anychars(u, 'rest', cons=lambda v, k: cmp('!=', v, 10))[0]
            R.memo[key] = RSStr(str_seq(cat('+CMGL:', b1, idx, ',', b2, st, ',', rest)), (R, p))
            return dict(at=p, idx=idx, st=st)
        if kind == 'other':
            c.assume(cmp('<', add(p, 1), R.n))
            line = RSStr(str_seq(cat('+CMGL:', anychars(u, 'line')[0])), (R, p))
            R.memo[key] = line
        else:
            line = R.line(p)
            if c.branch(starts('+CMGL:')(line)): raise PathEnd()
            self.know(R, p)
        if kind == 'other' and rx.match(LISTTEXT if self.textmode else LISTPDU, line) is not None: raise PathEnd()
        return None

    def step(self, p, kind, head):
        """the specification reads line p"""
        if self.textmode:
            if kind in ('head', 'other'):
                if self.have: self.complete_one(p)
                self.have = head
        elif kind == 'head': self.have = head
        elif self.have:
            d = self.decoded(self.R.line(p))
            if d.kind == 'SMS-SUBMIT': self.refused = True
            elif d.kind:
                self.out.append((dict(self.have, decoded=d), None))
                self.have = None

    def complete_one(self, hi):
        self.out.append((self.have, (add(self.have['at'], 1), hi)))
        self.have = None

    def at_end(self):
        """what the end of the answer completes"""
        if self.textmode and self.have:
            h = self.have
            return self.out + [(h, (add(h['at'], 1), sub(self.R.n, 1)))]
        return self.out

    def check(self, x, spec, pre):
        h, span = spec
        if span is None: check_decoded(self.u, x, self, number_of(h['st']), h['decoded'], pre)
        else: check_received(self.u, x, self, status_of(h['st']), h['number'], TimeOf(h['time']), lines_text(self.u, self.R, *span), pre=pre)

    def messages_are(self, lst, out, pre):
        """the list holds the messages returned before and those of out"""
        u = self.u
        if not isinstance(lst, VList): u.prove(False, pre + 'a list'); return
        ps = list(lst.seq.pieces)
        if not (isinstance(self.m, int) and self.m == 0):
            ok = ps and isinstance(ps[0], Gen) and ps[0].base is self.spec and keys_same(ps[0].lo, 0) and keys_same(ps[0].hi, self.m)
            if not ok:
                if ctx().branch(cmp('>', self.m, 0)): u.prove(False, pre + 'messages returned before are kept, in order'); raise PathEnd()
            else: ps = ps[1:]
        items = [x for p in ps if isinstance(p, Lit) for x in p.items]
        if any(not isinstance(p, Lit) for p in ps): raise Unsupported('contents of the list of messages')
        u.prove(len(items) == len(out), pre + 'one message for each message of the answer')
        for x, s in zip(items, out): self.check(x, s, pre)

    def slots_are(self, st, out, label):
        u = self.u
        want = [number_of(h['idx']) for h, _ in out]
        for x in st.added: u.prove(bor(*[cmp('==', x, y) for y in want]) if want else False, label)
        for y in want: u.prove(bor(*[cmp('==', x, y) for x in st.added]) if st.added else False, label)

    def delete_stored(self, o, index, memory):
        u = self.u
        u.prove(o is self.obj and self.delete and self.status != 4, 'slots are deleted only when asked for')
        u.prove(memory is None or memory is (self.mem if self.which == 'other' else self.cur), 'deleted from the memory listed')
        u.prove(self.D is not None and is_intlike(index) and cmp('==', index, self.D.elem(self.deleted)), 'each slot once')
        self.deleted = add(self.deleted, 1)
        if ctx().choice([None, None]): self.fail(X.CommandError)

    def delete_all(self, o, flag, memory):
        u = self.u
        u.prove(o is self.obj and self.delete and self.status == 4, 'the memory is cleared only when all messages were asked for')
        u.prove(memory is None or memory is (self.mem if self.which == 'other' else self.cur), 'the memory listed')
        u.prove_eq(flag, 4, 'all messages')
        self.cleared += 1
        if ctx().choice([None, None]): self.fail(X.CommandError)


LISTTEXT = re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
LISTPDU = re.compile(r'^\+CMGL:\s*(\d+),\s*(\d+),.*$')


@contract('deleteMultipleStoredSms', M + 'deleteMultipleStoredSms', proved_by=[M + 'deleteMultipleStoredSms'])
def _(I, args, kwargs):
    a = dict(delFlag=4, memory=None); a.update(zip(('delFlag', 'memory'), args[1:])); a.update(kwargs)
    return ctx().anchors['world'].delete_all(args[0], a['delFlag'], a['memory'])


def lines_loop(w):
    """after p lines: the state of the specification after p lines"""
    def inv(L, p):
        u, c = w.u, ctx()
        pre = L.lab() + ': '
        if L.mode == 'havoc':
            w.m = c.fresh_int('returned', 0)
            w.out, w.have = [], None
            if c.choice([None, None]):
                h = c.fresh_int('h', 0); c.assume(cmp('<', h, p))
                w.have = w.make(h, 'head')
            w.set.added = []
        elif L.mode == 'back':
            w.step(L.p, w.kind, w.head)
            if w.refused: u.prove(False, pre + 'an outgoing message is refused'); raise PathEnd()
        elif w.set is None: raise Unsupported('no set of slots')
        for n in ('messages', 'delMessages', 'msgLines', 'msgIndex', 'msgStatus', 'number', 'msgTime', 'readPdu', 'msgStat'):
            L.mentioned.add(n)
        have = w.have
        hi = sub(w.R.n, 1) if c.branch(cmp('==', p, w.R.n)) else p
        lst = L.entry_val('messages')
        L.covered.add((lst.oid, 'seq'))
        if L.mode == 'havoc':
            lst._seq = Seq((Gen(w.spec, 0, w.m),))
            loc = L.fr.locals
            if w.textmode:
                loc.update(msgIndex=have['idx'] if have else None)
                for n, f in (('msgStatus', 'st'), ('number', 'number'), ('msgTime', 'time')): loc[n] = have[f] if have else Poison(n)
                L.newlist('msgLines', Seq((Gen(w.R.base, add(have['at'], 1), hi),) if have else (Gen(Junk(w.R), 0, c.fresh_int('junk', 0)),)))
            else:
                loc.update(readPdu=have is not None)
                for n, f in (('msgIndex', 'idx'), ('msgStat', 'st')): loc[n] = number_of(have[f]) if have else Poison(n)
            # the line of this iteration
            if not c.branch(cmp('==', p, w.R.n)):
                w.kind = ('head', 'other', 'plain')[c.choice([None] * 3)]
                w.p, w.head = p, w.make(p, w.kind)
            return
        w.messages_are(L.local('messages'), w.out, pre)
        w.slots_are(w.set, w.out, pre + 'slots of the messages returned')
        if L.local('delMessages') is not w.set: raise Unsupported('delMessages')
        if w.textmode:
            idx = L.local('msgIndex')
            u.prove((idx is not None) == (have is not None), pre + 'whether a message is being read')
            if have:
                for n, f in (('msgIndex', 'idx'), ('msgStatus', 'st'), ('number', 'number'), ('msgTime', 'time')):
                    v = L.local(n)
                    u.prove(is_str(v), pre + n)
                    u.prove_eq(v, have[f], pre + n + ' of the message being read')
                L.newlist('msgLines', Seq((Gen(w.R.base, add(have['at'], 1), hi),)))
            elif not isinstance(L.local('msgLines'), VList): raise Unsupported('msgLines')
        else:
            u.prove(truth(u, L.local('readPdu')) == (have is not None), pre + 'whether a header was seen')
            if have:
                for n, f in (('msgIndex', 'idx'), ('msgStat', 'st')):
                    v = L.local(n)
                    u.prove_eq(v if is_intlike(v) else number_of(v), number_of(have[f]), pre + n + ' of the header')
    return inv


class Junk(Base):
    """lines that belong to no message"""
    name, length = 'junk', None
    def __init__(self, R): self.R = R
    def elem(self, k): raise Unsupported('a line that belongs to no message')


def delete_loop(w):
    def inv(L, p):
        if L.mode == 'havoc': w.deleted = p
        else: L.fact(cmp('==', w.deleted, p), 'one deletion for each slot')
    return inv


def listing(u, tm, mem, status):
    w = Listing(u, tm, mem, status)
    w.dsym = u.bool('delete')
    u.use({('GsmModem.listStoredSms', 1): lines_loop(w), ('GsmModem.listStoredSms', 2): lines_loop(w), ('GsmModem.listStoredSms', 3): delete_loop(w)})
    kw = dict(delete=w.dsym)
    if w.mem is not None: kw['memory'] = w.mem
    r = u.call(w.obj, status, **kw)
    if len(w.log) < len(w.want) + (mem == 'other') or w.R is None:
        u.prove(w.exc is not None, 'the answer is asked for')
        w.memory_after(); w.passed_on(r); u.prove(not w.deleted and not w.cleared, 'nothing is deleted'); return
    w.complete()
    if isinstance(r, Raised) and w.exc is None:
        if issubclass(r.cls, KeyError) and w.textmode and w.have: status_of(w.have['st'])
        w.step(w.p, w.kind, w.head)
        u.prove(w.refused and issubclass(r.cls, X.CommandError), 'CommandError only for an outgoing message')
        u.prove(cmp('==', w.deleted, 0) if not w.cleared else False, 'nothing is deleted when the listing is refused')
        return
    if w.exc is not None: w.passed_on(r, 'a failing deletion is reported'); return
    u.returns(r)
    w.messages_are(r, w.at_end(), '')
    u.prove(w.cleared == (1 if w.delete and status == 4 else 0), 'the memory is cleared exactly when asked for')
    if w.delete and status != 4:
        u.prove(w.D is not None, 'the slots are deleted')
        u.prove(cmp('==', w.deleted, w.d), 'every slot is deleted')
    else: u.prove(w.deleted == 0, 'nothing is deleted unless asked for')


for _tm in (True, False):
    for _st, _mem in [(k, 'default') for k in STATUS.values()] + [(1, 'same'), (1, 'other')]:
        @unit('C17', M + 'listStoredSms', '%s mode, status %d, %s memory: every message of the answer once, deleted as asked' % ('text' if _tm else 'PDU', _st, _mem), uses=('GsmModem.write', 'deleteStoredSms', 'deleteMultipleStoredSms') + (('parseTextModeTimeStr',) if _tm else ('decodeSmsPdu',)), budget=240)
        def _(u, tm=_tm, st=_st, mem=_mem): listing(u, tm, mem, st)


@unit('C17', M + 'listStoredSms', 'ValueError for any other status, nothing written', uses=('GsmModem.write',))
def _(u):
    w = Store(u, bool(u.c.choice([None, None])), MEMS[u.c.choice([None] * 3)])
    st = u.int('status')
    u.assume(bor(cmp('<', st, 0), cmp('>', st, 4)))
    r = u.call(w.obj, st, w.mem, u.bool('delete'))
    u.raises(r, ValueError)
    u.prove(not w.log, 'nothing is written')


# -- processing ------------------------------------------------------------------------------------------------------------------------
@contract('listStoredSms', M + 'listStoredSms', proved_by=[M + 'listStoredSms'])
def _(I, args, kwargs):
    a = dict(status=4, memory=None, delete=False); a.update(zip(('status', 'memory', 'delete'), args[1:])); a.update(kwargs)
    return ctx().anchors['world'].list_stored(args[0], a)


class Processing(Modem):
    def __init__(self, u):
        super().__init__(u, smsReceivedCallback=Model('smsReceivedCallback', self.callback))
        self.listed, self.base, self.n, self.given, self.exc = [], None, 0, 0, None

    def list_stored(self, o, a):
        u = self.u
        u.prove(o is self.obj and a['memory'] is None and a['delete'] is True, 'messages are listed and deleted, from the current memory')
        u.prove(self.given == self.n if isinstance(self.given, int) and isinstance(self.n, int) else cmp('==', self.given, self.n), 'the messages listed before were handed on')
        u.prove(len(self.listed) < len(self.want), 'no further listing')
        if len(self.listed) >= len(self.want): raise PathEnd()
        u.prove_eq(a['status'], self.want[len(self.listed)], 'which messages')
        self.listed.append(a['status'])
        self.base, self.given = Spec(), 0
        self.base.key = len(self.listed)
        if ctx().choice([None, None]): self.n = 0; self.fail(X.CommandError)
        self.n = ctx().fresh_int('listed', 0)
        return VList(Seq((Gen(self.base, 0, self.n),)))

    def callback(self, I, a, k):
        self.u.prove(self.base is not None and len(a) == 1 and val_eq(a[0], self.base.elem(self.given)), 'each message once, in order')
        self.given = add(self.given, 1)


for _un in (False, True):
    @unit('C17', M + 'processStoredSms', 'every stored message is handed on once (%s)' % ('unread only' if _un else 'read, then unread'), uses=('listStoredSms',))
    def _(u, unread=_un):
        w = Processing(u)
        w.want = [0] if unread else [1, 0]

        def inv(L, p):
            if L.mode == 'havoc': w.given = p
            else: L.fact(cmp('==', w.given, p), 'messages handed on')
        u.use({('GsmModem.processStoredSms', 1): inv})
        r = u.call(w.obj, unread) if unread else u.call(w.obj)
        if w.exc is not None: w.passed_on(r); return
        u.returns(r)
        u.prove(len(w.listed) == len(w.want), 'everything was listed')
        u.prove(cmp('==', w.given, w.n), 'everything was handed on')
