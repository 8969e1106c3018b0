"""The terminal's line editor (C25): every key handler, the input loop and completion, in an arbitrary state of the editor."""
import sys
import threading
from .world import *
from . import trie
from oracle.term import terminal

T = terminal()
CON = T.console
G = 'gsmtermlib.terminal.GsmTerm.'
R = 'gsmtermlib.terminal.RawTerm.'


class Sink:
    """the screen"""
    def vgetattr(self, I, n):
        if n == 'write': return Model('stdout.write', self.write)
        if n == 'flush': return Model('stdout.flush', lambda I, a, k: None)
        raise Unsupported('stdout.' + n)
    def write(self, I, a, k):
        if len(a) != 1 or not is_str(a[0]): throw(TypeError, 'write() argument must be str')


class Keyboard:
    """the console: its key codes are the live ones"""
    def __init__(self, w): self.w = w
    def vgetattr(self, I, n):
        if n == 'getkey': return Model('getkey', lambda I, a, k: self.w.getkey())
        v = getattr(CON, n)
        if isinstance(v, str): return v
        raise Unsupported('console.' + n)


def text(name, least=0):
    c = ctx()
    n = c.fresh_int('n_' + name, least, MAXLEN)
    return mkstr(Seq((Gen(SymBase(name, n, char), 0, n),)))


def letters(name):
    """a list of unknown characters"""
    c = ctx()
    n = c.fresh_int('n_' + name, 0, MAXLEN)
    return Seq((Gen(CharsBase(SymBase(name, n, char)), 0, n),))


# -- help texts: of one of the forms the table of commands holds -------------------------------------------------------------------
def shape(h):
    return None if h is None else tuple(None if x is None else 'text' if isinstance(x, str) else tuple(sorted({tuple(None if y is None else 'text' for y in r) for r in x}, key=str)) for x in h)


def shapes():
    from gsmtermlib.atcommands import ATCOMMANDS
    return sorted({shape(h) for _, h in ATCOMMANDS}, key=str)


def helptext():
    """the documentation of some command"""
    c = ctx()
    all_ = shapes()
    s = all_[c.choice([None] * len(all_))]
    if s is None: return None
    def field(i, x):
        if x is None: return None
        if x == 'text': return text('help%d' % i)
        memo = {}
        def row(k):
            kk = z3.simplify(zi(k)).sexpr()
            if kk not in memo: r = x[c.choice([None] * len(x))]; memo[kk] = tuple(None if y is None else text('value') for y in r)
            return memo[kk]
        n = c.fresh_int('n_values', 1 if x else 0, MAXLEN)
        return VList(Seq((Gen(CompBase('values', row, length=n), 0, n),)))
    return tuple(field(i, x) for i, x in enumerate(s))


class Completion:
    """the commands: the trie contracts (C24, and units of C25), for a table that is not empty"""
    vtype = T.Trie
    def __init__(self, w): self.w = w
    def vtruth(self): return True
    def lookup(self, k):
        if not is_str(k): throw(TypeError, 'key')
        return None if ctx().choice([None, None]) else (helptext(),)
    def vgetitem(self, I, k):
        if isinstance(k, SStr) and getattr(k, 'row', None) is not None and k.row[0] is self.w.names: return helptext()
        r = self.lookup(k)
        if r is None: throw(KeyError, 'key')
        return r[0]
    def vcontains(self, I, k): return self.lookup(k) is not None
    def viter(self, I): return VIter(self.w.names.seq)
    def vlen(self): return self.w.names.n
    def vgetattr(self, I, n):
        w = self.w
        if n == 'categories': return T.__dict__.get('CATEGORIES') or __import__('gsmtermlib.atcommands', fromlist=['x']).CATEGORIES
        if n == 'keys': return Model(n, lambda I, a, k: w.matching(*a, **k))
        if n == 'longestCommonPrefix': return Model(n, lambda I, a, k: w.shared(*a, **k))
        if n == 'get':
            def get(I, a, k):
                r = self.lookup(a[0])
                return (a[1] if len(a) > 1 else None) if r is None else r[0]
            return Model(n, get)
        raise Unsupported('Trie.' + n)


class Editor(World):
    def __init__(self, u):
        self.u, c = u, ctx()
        c.anchors['world'] = self
        c.anchors['loose'] = True
        c.anchors['stand_in'] = [(sys.stdout, Sink()), (CON, Keyboard(self))]
        c.anchors['open'] = self.open
        c.anchors['sleep'] = lambda I, a: None
        self.names = Rows(u, 'command', 1)
        self.loaded = False
        self.asked = []          # (prefix, matches) of keys()
        self.common = []         # (prefix, result) of longestCommonPrefix()
        self.obj = VObj(T.GsmTerm, dict(alive=True, completion=Completion(self), PROMPT=text('prompt'), SMS_PROMPT=text('smsprompt'), useColor=u.bool('colour'),
                                        serial=Port(write=self.port), port='port', baudrate=9600, echo=True))
        self.obj.partial = True
        self.arbitrary()

    def arbitrary(self):
        """any state in which the cursor is within the line and the history position within the history"""
        c, o = ctx(), self.obj._attrs
        self.line = letters('line')
        o['inputBuffer'] = VList(self.line)
        o['cursorPos'] = self.cur = c.fresh_int('cursor', 0)
        c.assume(cmp('<=', self.cur, seq_len(self.line)))
        self.past = Rows(self.u, 'past')
        o['history'] = VList(self.past.seq)
        o['historyPos'] = self.pos = c.fresh_int('hpos', 0)
        c.assume(cmp('<=', self.pos, self.past.n))
        o['_typingSms'] = self.sms = c.fresh_bool('typingSms')

    def port(self, I, a, k):
        if len(a) != 1 or not is_str(a[0]): throw(TypeError, 'unicode strings only')
        return None

    def open(self, I, a, k):
        if not (a and is_str(a[0])): throw(TypeError, 'file name')
        if ctx().choice([None, None]): throw(FileNotFoundError, 2, 'no such file')
        self.loaded = True
        rows = Rows(self.u, 'script')
        return Port(readlines=lambda I, a, k: rows.list, close=lambda I, a, k: None)

    def exchange(self, o, data, wait, timeout, prompt):
        if ctx().choice([None, None]): raise PyExc(VObj(T.TimeoutException, {'args': (None,), 'data': None}))
        return Rows(self.u, 'reply', 1).list

    def matching(self, prefix=None):
        """the commands that start with prefix (C24), in any order"""
        u = self.u
        if prefix is None: raise Unsupported('all commands')
        if not is_str(prefix): throw(TypeError, 'prefix')
        m = Rows(u, 'match')
        ctx().assume(imp(cmp('==', seq_len(str_seq(prefix)), 0), cmp('>=', m.n, 1)))
        self.asked.append((prefix, m))
        return VList(m.seq)

    def shared(self, prefix=''):
        r = text('common')
        self.common.append((prefix, r))
        return r

    # obligations
    def state(self, line=None, cur=None, pos=None, past=None, sms=None, label=''):
        """the state of the editor is this (what is not given is unchanged)"""
        u, o = self.u, self.obj
        self.inside()
        b = o.get('inputBuffer')
        u.prove_eq(VList(refold(b.seq)), VList(self.line if line is None else line), 'the line %s' % (label or ('is not edited' if line is None else '')))
        u.prove_eq(o.get('cursorPos'), self.cur if cur is None else cur, 'the cursor')
        u.prove_eq(o.get('historyPos'), self.pos if pos is None else pos, 'the history position')
        h = o.get('history')
        if past is None: u.prove_eq(VList(refold(h.seq)), VList(self.past.seq), 'the history is kept')
        if sms is not None: u.prove(u.I.truth_cond(o.get('_typingSms')) is sms or u.branch(mb(zb(u.I.truth_cond(o.get('_typingSms'))) == zb(sms))), 'the kind of input')

    def inside(self):
        u, o = self.u, self.obj
        b, h = o.get('inputBuffer'), o.get('history')
        ok = isinstance(b, VList) and isinstance(h, VList) and is_int(o.get('cursorPos')) and is_int(o.get('historyPos'))
        u.prove(ok, 'a line, a history, and positions')
        if not ok: raise PathEnd()
        for q in b.seq.pieces:
            if isinstance(q, Lit): u.prove(all(is_str(x) for x in q.items) and band(*[cmp('==', seq_len(str_seq(x)), 1) for x in q.items]), 'the line consists of characters')
            elif not (isinstance(q, Gen) and isinstance(q.base, CharsBase)): raise Unsupported('contents of the line')
        u.prove(band(cmp('<=', 0, o.get('cursorPos')), cmp('<=', o.get('cursorPos'), seq_len(b.seq))), 'the cursor lies within the line')
        u.prove(band(cmp('<=', 0, o.get('historyPos')), cmp('<=', o.get('historyPos'), seq_len(h.seq))), 'the history position lies within the history')

    def handled(self, name):
        """contract of a key handler as far as the input loop is concerned"""
        self.inside()
        self.log.append(name)
        self.arbitrary()
        self.given = dict(self.obj._attrs)


def part(q, lo, hi):
    """rope q[lo:hi]"""
    return split_at(split_at(q, hi)[0], lo)[1]


def printing(L):
    """a loop that prints: the lists of texts it extends and its flags may become anything"""
    for n, v in L.entry.items():
        if isinstance(v, VList) and n not in L.mentioned and any(n == x for x in L.lists): 
            L.mentioned.add(n)
            L.covered.add((v.oid, 'seq'))
            if L.mode == 'havoc': v._seq = L.remember(n, lambda: None) or Rows(ctx().anchors['world'].u, 'printed').seq
            else:
                for p in v.seq.pieces:
                    if isinstance(p, Lit): ctx().prove(all(is_str(x) for x in p.items), L.lab() + ': texts')
                    elif not (isinstance(p, Gen) and hasattr(p.base, 'rows')): raise Unsupported('a list of something else')
        elif isinstance(v, bool) or isinstance(v, SBool): L.anybool(n)


def prints(*lists):
    def inv(L, p):
        L.lists = lists
        printing(L)
    return inv


# -- drawing -------------------------------------------------------------------------------------------------------------------------
@contract('GsmTerm._refreshInputPrompt', G + '_refreshInputPrompt', proved_by=[G + '_refreshInputPrompt'])
def _(I, args, kwargs):
    n = (list(args[1:]) + list(kwargs.values()) + [0])[0]
    if not is_int(n): throw(TypeError, 'length')


@contract('GsmTerm._removeInputPrompt', G + '_removeInputPrompt', proved_by=[G + '_removeInputPrompt'])
def _(I, args, kwargs): pass


@contract('GsmTerm._printCommandHelp', G + '_printCommandHelp', proved_by=[G + '_printCommandHelp'])
def _(I, args, kwargs):
    a = (list(args[1:]) + list(kwargs.values()) + [None])[0]
    if a is not None and not is_str(a): throw(TypeError, 'command')


@contract('GsmTerm.__printCommandSyntax', G + '_GsmTerm__printCommandSyntax', proved_by=[G + '_GsmTerm__printCommandSyntax'])
def _(I, args, kwargs):
    if not is_str(args[1]): throw(TypeError, 'command')


@contract('RawTerm.stop', R + 'stop', proved_by=[R + 'stop'])
def _(I, args, kwargs): args[0].set('alive', False)


def closing(u, o, trace, inside):
    """the threads and the port of a terminal that is being stopped; trace: what happens to them, in order"""
    def thread(name):
        class Thread:
            vtype = threading.Thread
            def veq(self, x): return self is x
            def vgetattr(self, I, n):
                if n != 'join': raise Unsupported('Thread.' + n)
                def join(I, a, k):
                    u.prove(not (inside and name == 'input'), 'a thread does not wait for itself')
                    u.prove(not u.branch(u.I.truth_cond(o.get('alive'))), 'the threads are asked to stop before they are waited for')
                    trace.append(name)
                return Model('Thread.join', join)
        return Thread()
    r, i = thread('reader'), thread('input')
    o._attrs.update(rxThread=r, inputThread=i, serial=Port(close=lambda I, a, k: trace.append('close')))
    u.c.anchors.setdefault('construct', {})[threading.current_thread] = lambda I, a, k: i if inside else thread('other')


@unit('C25 C29', R + 'stop', 'the editor is left as it is; both threads are asked to stop, then the port is closed')
def _(u):
    w = Editor(u)
    trace, inside = [], bool(u.c.choice([None, None]))
    closing(u, w.obj, trace, inside)
    u.returns(u.call(w.obj))
    w.state(sms=w.sms)
    u.prove(w.obj.get('alive') is False, 'the input loop ends')
    u.prove(trace == (['reader', 'close'] if inside else ['input', 'reader', 'close']), 'each thread is waited for, then the port is closed')


@unit('C25', G + '__init__', 'a new terminal has an empty line and no history', uses=('GsmTerm._initAtCommandsTrie',))
def _(u):
    u.c.anchors.setdefault('construct', {})[threading.RLock] = lambda I, a, k: Opaque('lock')
    color = u.c.choice([None, None])
    objs = []
    for _ in range(2):
        r = u.returns(u.call_other(T.GsmTerm, text('port'), u.int('baud', 1), useColor=bool(color)))
        if isinstance(r, Raised): return
        objs.append(r)
    o = objs[0]
    for n in ('inputBuffer', 'history', 'cursorPos', 'historyPos', '_typingSms'):
        if not o.has(n): raise Unsupported('attribute %s is not part of the modelled state' % n)
    for n in ('inputBuffer', 'history'):
        u.prove(isinstance(o.get(n), VList) and not o.get(n).seq.pieces, 'the line and the history are empty')
        u.prove(o.get(n) is not objs[1].get(n), 'terminals share nothing')
    u.prove(o.get('inputBuffer') is not o.get('history'), 'the line is not the history')
    for n in ('cursorPos', 'historyPos'): u.prove_eq(o.get(n), 0, 'the cursor and the history position')
    u.prove(not u.branch(u.I.truth_cond(o.get('_typingSms'))), 'no message is being typed')


@contract('GsmTerm._initAtCommandsTrie', G + '_initAtCommandsTrie', proved_by=[G + '_initAtCommandsTrie'])
def _(I, args, kwargs): args[0].set('completion', Opaque('completion'))


for _n in ('_refreshInputPrompt', '_removeInputPrompt'):
    @unit('C25', G + _n, 'drawing changes nothing')
    def _(u, n=_n):
        w = Editor(u)
        r = u.call(w.obj, u.int('clear')) if n == '_refreshInputPrompt' and u.c.choice([None, None]) else u.call(w.obj)
        u.returns(r)
        w.state()


DRAW = ('GsmTerm._refreshInputPrompt',)


@unit('C25', G + '_printCommandHelp', 'help changes nothing', uses=DRAW)
def _(u):
    w = Editor(u)
    u.use({('GsmTerm._printCommandHelp', i): prints('syntax') for i in range(4)})
    r = u.call(w.obj, text('command')) if u.c.choice([None, None]) else u.call(w.obj)
    u.returns(r)
    w.state()


@unit('C25', G + '_GsmTerm__printCommandSyntax', 'help changes nothing', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj, text('command')))
    w.state()


# -- keys ----------------------------------------------------------------------------------------------------------------------------
@unit('C25', G + '_cursorLeft', 'one to the left, not beyond the start', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    w.state(cur=sub(w.cur, 1) if u.branch(cmp('>', w.cur, 0)) else w.cur, sms=w.sms)


@unit('C25', G + '_cursorRight', 'one to the right, not beyond the end', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    w.state(cur=add(w.cur, 1) if u.branch(cmp('<', w.cur, seq_len(w.line))) else w.cur, sms=w.sms)


@unit('C25', G + '_handleHome', 'to the start', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    w.state(cur=0, sms=w.sms)


@unit('C25', G + '_handleEnd', 'to the end', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    w.state(cur=seq_len(w.line), sms=w.sms)


@unit('C25', G + '_handleBackspace', 'exactly the character before the cursor goes', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    n = seq_len(w.line)
    if u.branch(cmp('>', w.cur, 0)): w.state(line=part(w.line, 0, sub(w.cur, 1)) + part(w.line, w.cur, n), cur=sub(w.cur, 1), sms=w.sms, label='without the character before the cursor')
    else: w.state(sms=w.sms)


@unit('C25', G + '_handleDelete', 'exactly the character at the cursor goes', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    n = seq_len(w.line)
    if u.branch(cmp('<', w.cur, n)): w.state(line=part(w.line, 0, w.cur) + part(w.line, add(w.cur, 1), n), sms=w.sms, label='without the character at the cursor')
    else: w.state(sms=w.sms)


def recalled(u, w, k):
    t = w.past.line(k)
    w.state(line=chars_of(str_seq(t)), cur=seq_len(str_seq(t)), pos=k, sms=w.sms, label='is exactly the stored command')


@unit('C25', G + '_cursorUp', 'the previous stored command', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    if u.branch(cmp('>', w.pos, 0)): recalled(u, w, sub(w.pos, 1))
    else: w.state(sms=w.sms)


@unit('C25', G + '_cursorDown', 'the next stored command', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    if u.branch(cmp('<', w.pos, sub(w.past.n, 1))): recalled(u, w, add(w.pos, 1))
    else: w.state(sms=w.sms)


@unit('C25', G + '_handleCtrlZ', 'ends the message; otherwise nothing', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    if u.branch(w.sms): w.state(line=EMPTY, cur=0, sms=False)
    else: w.state(sms=False)


@unit('C25', G + '_handleEsc', 'drops the message; otherwise nothing', uses=DRAW)
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    if u.branch(w.sms): w.state(line=EMPTY, cur=0, sms=False)
    else: w.state(sms=False)


@unit('C25', G + '_exit', 'ends the loop', uses=DRAW + ('RawTerm.stop', 'GsmTerm._removeInputPrompt'))
def _(u):
    w = Editor(u)
    u.returns(u.call(w.obj))
    w.state(sms=w.sms)
    u.prove(w.obj.get('alive') is False, 'the input loop ends')


def appended(u, past, h, cmd):
    """h is the history with cmd added, less some of the oldest ones"""
    u.prove(isinstance(h, VList), 'a list')
    n, m = seq_len(h.seq), add(past.n, 1)
    ok = band(cmp('>=', n, 1), cmp('<=', n, m))
    u.prove(ok, 'the command is added, nothing else')
    u.assume(ok)
    r = unsnoc(h.seq)
    u.prove(is_str(r[1]), 'a text')
    u.prove_eq(r[1], cmd, 'the last entry is exactly the command entered')
    u.prove_eq(VList(refold(r[0])), VList(part(past.seq, sub(m, n), past.n)), 'the earlier ones are kept as they are')


@unit('C25', G + '_addToHistory', 'the command is added at the end; only the oldest may go')
def _(u):
    w = Editor(u)
    cmd = text('entered')
    u.returns(u.call(w.obj, cmd))
    o = w.obj
    u.prove(o.get('inputBuffer').seq is w.line and o.get('cursorPos') is w.cur, 'nothing is edited')
    u.prove_eq(o.get('historyPos'), w.pos, 'the history position')
    appended(u, w.past, o.get('history'), cmd)


@contract('GsmTerm._addToHistory', G + '_addToHistory', proved_by=[G + '_addToHistory'])
def _(I, args, kwargs):
    w = ctx().anchors['world']
    if not is_str(args[1]): raise Unsupported('a command')
    h = w.obj.get('history').seq
    gone = ctx().fresh_int('gone', 0)
    n = seq_len(h)
    ctx().assume(cmp('<=', gone, n))
    w.obj.set('history', VList(part(h, gone, n) + lit([args[1]])))


def script(w):
    """the lines of a script are entered one after the other"""
    def inv(L, p):
        w.inside()
        if not w.loaded: raise Unsupported('loop')
        w.u.prove_eq(w.obj.get('cursorPos'), 0, L.lab() + ': the cursor is at the start') if L.mode != 'havoc' else None
        for n in ('inputBuffer', 'cursorPos', 'history', 'historyPos', '_typingSms', 'SMS_PROMPT'): L.cover(w.obj, n) if False else L.covered.add((w.obj.oid, n))
        if L.mode == 'havoc':
            w.arbitrary()
            w.obj._attrs['cursorPos'] = 0
            w.obj._attrs['SMS_PROMPT'] = text('smsprompt')
    return inv


@contract('GsmTerm._doConfirmInput', G + '_doConfirmInput', proved_by=[G + '_doConfirmInput'])
def _(I, args, kwargs):
    w = ctx().anchors['world']
    if getattr(w, 'log', None) is not None: return w.handled('_doConfirmInput')
    w.inside()
    c, o = ctx(), w.obj
    # what its unit proves: the state is sound and, if there was a line, the cursor is at its start
    had = c.branch(cmp('>', seq_len(o.get('inputBuffer').seq), 0))
    cur = o.get('cursorPos')
    for n in ('inputBuffer', 'cursorPos', 'history', 'historyPos', '_typingSms', 'SMS_PROMPT'): o.set(n, Poison(n))
    w.arbitrary()
    o.set('cursorPos', 0)
    o._attrs['SMS_PROMPT'] = text('smsprompt')


@unit('C25', G + '_doConfirmInput', 'the line is entered and recorded', budget=150, uses=DRAW + ('GsmTerm._printCommandHelp', 'GsmTerm._addToHistory', 'SerialComms.write', 'GsmTerm._doConfirmInput'))
def _(u):
    w = Editor(u)
    line, cur, past, pos, sms = w.line, w.cur, w.past, w.pos, w.sms
    u.use({('GsmTerm._doConfirmInput', i): (lambda L, p: script(w)(L, p) if w.loaded else prints()(L, p)) for i in range(6)})
    r = u.returns(u.call(w.obj))
    o = w.obj
    w.inside()
    u.prove_eq(o.get('cursorPos'), 0, 'the cursor is at the start')
    if u.branch(sms):
        u.prove_eq(VList(refold(o.get('inputBuffer').seq)), VList(part(line, cur, seq_len(line))), 'what follows the cursor stays')
        u.prove(o.get('history').seq is past.seq and o.get('historyPos') is pos, 'a message is not part of the history')
        return
    if w.loaded: return
    u.prove(cmp('==', seq_len(o.get('inputBuffer').seq), 0), 'the line is empty')
    entered = models.strip_ws(mkstr(Seq((Gen(line.pieces[0].base.inner, 0, line.pieces[0].hi),))), True, True)
    if not u.branch(cmp('>', seq_len(str_seq(entered)), 0)):
        u.prove_eq(VList(refold(o.get('history').seq)), VList(past.seq), 'a blank line is not recorded')
        u.prove_eq(o.get('historyPos'), pos, 'the history position')
        return
    appended(u, past, o.get('history'), entered)
    u.prove_eq(o.get('historyPos'), seq_len(o.get('history').seq), 'the history position is after the last command')


@unit('C25', G + '_doCommandCompletion', 'only by text all matching commands share, beginning with what was typed', budget=150, uses=DRAW + ('GsmTerm.__printCommandSyntax',))
def _(u):
    w = Editor(u)
    u.use({('GsmTerm._doCommandCompletion', i): prints() for i in range(3)})
    u.returns(u.call(w.obj))
    o = w.obj
    w.inside()
    u.prove(o.get('history').seq is w.past.seq and o.get('historyPos') is w.pos and o.get('_typingSms') is w.sms, 'nothing else changes')
    b = o.get('inputBuffer').seq
    if b is w.line:
        u.prove_eq(o.get('cursorPos'), w.cur, 'the cursor') if not u.branch(cmp('==', o.get('cursorPos'), w.cur)) else None
        return
    typed = models.strip_ws(mkstr(Seq((Gen(w.line.pieces[0].base.inner, 0, w.line.pieces[0].hi),))), True, True)
    typed = models.str_method(typed, 'upper').fn(u.I, [], {})
    def about(p): return is_str(p) and seq_same(str_seq(p), str_seq(typed))
    asked = [m for p, m in w.asked if about(p)]
    u.prove(bool(asked), 'the commands that begin with what was typed are looked for')
    if not asked: return
    u.prove(bor(*[cmp('>=', m.n, 1) for m in asked]), 'the line is replaced only if some command matches')
    for p, r in w.common:
        if about(p) and seq_same(b, chars_of(str_seq(r))): u.prove(True, 'the text all matching commands share'); break
    else:
        m = asked[0]
        single = u.branch(cmp('==', m.n, 1))
        u.prove(single, 'one of several matching commands is not preferred')
        if not single: return
        u.prove_eq(VList(refold(b)), VList(chars_of(str_seq(m.line(0)))), 'the only matching command')


# -- the input loop --------------------------------------------------------------------------------------------------------------------
HANDLERS = ['_exit', '_cursorLeft', '_cursorRight', '_cursorUp', '_cursorDown', '_doConfirmInput', '_doCommandCompletion', '_handleCtrlZ', '_handleEsc', '_handleBackspace', '_handleDelete', '_handleHome', '_handleEnd']


def keyhandler(n):
    @contract('key ' + n, G + n, proved_by=[G + n])
    def _(I, args, kwargs): ctx().anchors['world'].handled(n)


for _n in HANDLERS:
    if _n != '_doConfirmInput': keyhandler(_n)


def keys():
    g = T.GsmTerm
    return [(g.EXIT_CHARACTER, '_exit'), (g.EXIT_CHARACTER_2, '_exit'), (CON.CURSOR_LEFT, '_cursorLeft'), (CON.CURSOR_RIGHT, '_cursorRight'), (CON.CURSOR_UP, '_cursorUp'),
            (CON.CURSOR_DOWN, '_cursorDown'), ('\n', '_doConfirmInput'), ('\t', '_doCommandCompletion'), (g.CTRL_Z_CHARACTER, '_handleCtrlZ'), (g.ESC_CHARACTER, '_handleEsc'),
            (g.BACKSPACE_CHARACTER, '_handleBackspace'), (CON.DELETE, '_handleDelete'), (CON.HOME, '_handleHome'), (CON.END, '_handleEnd')]


@contract('serial.to_bytes', 'serial.serialutil.to_bytes', trusted='library')
def _(I, args, kwargs): return bytes(I.list_items(args[0]))


@unit('C25', G + '_inputLoop', 'every key: its handler and nothing else, or the character at the cursor', uses=DRAW + ('GsmTerm._doConfirmInput', 'serial.to_bytes') + tuple('key ' + n for n in HANDLERS if n != '_doConfirmInput'))
def _(u):
    input_loop(u, Editor(u))


def input_loop(u, w, turn=lambda: None):
    """every turn of the loop; turn(): what more is to hold of it"""
    w.log = []
    w.key = None
    special = keys()

    def getkey():
        u.prove(w.key is None, 'one key at a time')
        k = u.c.choice([None] * (len(special) + 3))
        if k < len(special): w.key = special[k]
        elif k == len(special):
            c = u.int('key', 0, 0x10ffff)
            for s, _ in special:
                if len(s) == 1: u.assume(cmp('!=', c, ord(s)))
            w.key = (mkstr(lit([c])), c)
        elif k == len(special) + 1: w.key = ('\x1b[99~', None)
        else: w.key = (None, None); throw(KeyboardInterrupt)
        return w.key[0]
    w.getkey = getkey

    def inv(L):
        o = w.obj
        if L.mode == 'entry': w.inside()
        elif L.mode == 'havoc':
            w.arbitrary()
            o._attrs['alive'] = u.bool('alive')
            for n in ('inputBuffer', 'cursorPos', 'history', 'historyPos', '_typingSms', 'alive', 'SMS_PROMPT'): L.covered.add((o.oid, n))
            L.covered.add((o.get('inputBuffer').oid, 'seq'))
            w.before = dict(o._attrs)
            w.log, w.key = [], None
        else:
            w.inside()
            u.prove(w.key is not None, 'every turn reads a key')
            if w.key is None: return
            turn()
            s, h = w.key
            if isinstance(h, str):
                u.prove(w.log == [h], 'the key does what it is for')
                u.prove(all(o._attrs[n] is v for n, v in w.given.items() if n != 'alive') if w.log else False, 'nothing else happens')
                return
            u.prove(not w.log, 'no other key is taken for it')
            if h is None: w.state(sms=w.sms); return
            printable = bor(band(cmp('<=', 33, h), cmp('<=', h, 126)), models.char_class('isspace', h))
            n = seq_len(w.line)
            if u.branch(printable): w.state(line=part(w.line, 0, w.cur) + lit([s]) + part(w.line, w.cur, n), cur=add(w.cur, 1), sms=w.sms, label='has the character inserted at the cursor')
            else: w.state(sms=w.sms)
    u.use({('GsmTerm._inputLoop', 0): inv})
    u.returns(u.call(w.obj))


# -- the commands -------------------------------------------------------------------------------------------------------------------------
@unit('C25', G + '_initAtCommandsTrie', 'the completion holds exactly the commands of the table')
def _(u):
    from gsmtermlib.atcommands import ATCOMMANDS
    got = []

    class New:
        vtype = T.Trie
        def vsetitem(self, I, k, v): got.append((k, v))
        def vsetattr(self, I, n, v): u.prove(n == 'categories', 'nothing else is set')
    u.c.anchors.setdefault('construct', {})[T.Trie] = lambda I, a, k: New() if not a and not k else throw(TypeError)
    o = VObj(T.GsmTerm, dict(alive=True))
    u.returns(u.call(o))
    u.prove(isinstance(o.get('completion'), New), 'a new table')
    u.prove(len(got) == len(ATCOMMANDS) > 0 and all(g[0] is c and g[1] is h for g, (c, h) in zip(got, ATCOMMANDS)), 'every command with its documentation, and there are some')
