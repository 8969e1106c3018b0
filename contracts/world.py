"""The environment of the modem classes as the contracts see it: arbitrary lines, lists of lines, events, locks, ports."""
import threading
from .lib import *
from pyvc import rx


def char(v, k=None): return band(cmp('<=', 0, v), cmp('<', v, 0x110000))


def anychars(u, name, minlen=0, maxlen=MAXLEN, cons=None):
    """an arbitrary str; -> (SStr, base, length)"""
    b, n = u.chars(name, minlen, maxlen, (lambda v, k: band(char(v), cons(v, k))) if cons else None)
    return mkstr(Seq((Gen(b, 0, n),))), b, n


def digits(u, name, minlen=1, cons=None):
    """an arbitrary run of decimal digits"""
    return anychars(u, name, minlen, cons=lambda v, k: band(models.is_digit(v), *([cons(v, k)] if cons else [])))


class RowBase(SymBase):
    def __init__(self, name, fn, k, length):
        self.name, self.length, self.k, self.read = name, length, k, {}
        kz = z3.simplify(zi(k))
        self.fn = lambda z: fn(kz, z)
        self.cons = [lambda v, j: char(v)]


class RSStr(SStr):
    """a line that knows its place in a list of lines"""
    __slots__ = ('row',)
    def __init__(self, seq, row): self.seq = seq; self.row = row


class Rows:
    """n arbitrary lines"""
    def __init__(self, u, name, minlen=0, maxlen=MAXLEN):
        c = ctx()
        self.name = c.name(name)
        self.n = c.fresh_int('n_' + self.name, minlen, maxlen)
        self.el = z3.Function('row_' + self.name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.len = z3.Function('rowlen_' + self.name, z3.IntSort(), z3.IntSort())
        self.memo, self.searches, self.marks = {}, [], []
        self.base = CompBase(self.name, self.line, length=self.n)
        self.base.rows = self
        self.seq = Seq((Gen(self.base, 0, self.n),))
        self.list = VList(self.seq)

    def line(self, k):
        key = z3.simplify(zi(k)).sexpr()
        if key not in self.memo:
            for old in list(self.memo.values())[:6]:       # known to be the same line: the same text
                if not isinstance(k, int) and not isinstance(old.row[1], int) and ctx().entails(cmp('==', k, old.row[1])):
                    self.memo[key] = old
                    return old
            n = mi(self.len(z3.simplify(zi(k))))
            ctx().assume(band(cmp('<=', 0, n), cmp('<=', n, MAXLEN)))
            b = RowBase('%s_%d' % (self.name, len(self.memo)), self.el, k, n)
            self.memo[key] = RSStr(Seq((Gen(b, 0, n),)), (self, k))
        return self.memo[key]

    def first(self, key, pred, lo=0, hi=None):
        """index of the first line in [lo, hi) for which pred(line) (may fork) holds, or None.  What this says about the
        lines is instantiated at every line a search has found."""
        hi = self.n if hi is None else hi
        reg = self.searches
        for s in reg:
            if s.key == key and keys_same(s.lo, lo) and keys_same(s.hi, hi): return s.found
        c = ctx()
        if c.choice([None, None]): s = Search(key, pred, lo, hi, None)
        else:
            w = c.fresh_int('first', lo); c.assume(cmp('<', w, hi))
            s = Search(key, pred, lo, hi, w)
        reg.append(s)
        old = list(self.marks)
        if s.found is not None: self.look(s.found)
        for k in old: s.at(self, k)
        return s.found

    def look(self, k):
        """line k is looked at: what the searches say about it holds"""
        if any(keys_same(k, m) for m in self.marks): return
        self.marks.append(k)
        for s in list(self.searches): s.at(self, k)


class Search:
    def __init__(self, key, pred, lo, hi, found): self.key, self.pred, self.lo, self.hi, self.found = key, pred, lo, hi, found
    def at(self, rows, k):
        c = ctx()
        if not c.branch(band(cmp('<=', self.lo, k), cmp('<', k, self.hi))): return
        if self.found is None or c.branch(cmp('<', k, self.found)): want = False
        elif c.branch(cmp('==', k, self.found)): want = True
        else: return
        if c.branch(self.pred(rows.line(k))) != want: raise PathEnd()


class Ev:
    """threading.Event; wait(timeout) is decided by the unit"""
    vtype = threading.Event
    def __init__(self, w): self.w, self.flag = w, False
    def vtruth(self): return True
    def veq(self, o): return self is o
    def vgetattr(self, I, n):
        if n in ('is_set', 'isSet'): return Model('Event.is_set', lambda I, a, k: self.w.ev_is_set(self))
        if n == 'set': return Model('Event.set', lambda I, a, k: self.w.ev_set(self))
        if n == 'wait': return Model('Event.wait', lambda I, a, k: self.w.ev_wait(self, a[0] if a else k.get('timeout')))
        if n == 'clear':
            def f(I, a, k): self.flag = False
            return Model('Event.clear', f)
        raise Unsupported('Event.' + n)


class Lock:
    vtype = type(threading.RLock())
    def __init__(self): self.held = 0
    def vtruth(self): return True
    def vgetattr(self, I, n):
        def enter(I, a, k): self.held += 1; return True
        def leave(I, a, k): self.held -= 1
        if n in ('__enter__', 'acquire'): return Model('lock', enter)
        if n in ('__exit__', 'release'): return Model('unlock', leave)
        raise Unsupported('RLock.' + n)


class World:
    """default environment"""
    def ev_is_set(self, e): return e.flag
    def ev_set(self, e): e.flag = True
    def ev_wait(self, e, timeout): raise Unsupported('Event.wait')
    def events(self, u):
        """threading.Event() makes an event of this world"""
        made = []

        def new(I, a, k):
            e = Ev(self); made.append(e); return e
        u.c.anchors.setdefault('construct', {})[threading.Event] = new
        return made


class Port:
    """serial port: the unit supplies the methods"""
    def __init__(self, **methods): self.m = methods
    def vtruth(self): return True
    def vgetattr(self, I, n):
        if n in self.m: return Model('serial.' + n, self.m[n])
        if n == 'in_waiting' and 'inWaiting' in self.m: return self.m['inWaiting'](I, [], {})
        if n == 'inWaiting' and 'in_waiting' in self.m: return Model('serial.inWaiting', self.m['in_waiting'])
        raise Unsupported('serial.' + n)


class VolObj(VObj):
    """object in an arbitrary state; with attributes other threads write: volatile[name]() gives the value seen by each read"""
    partial = True
    def __init__(self, cls, attrs=None, volatile=None):
        super().__init__(cls, attrs); self.volatile = volatile or {}
    def vgetattr(self, I, n):
        f = self.volatile.get(n)
        return f() if f else NotImplemented
    def vsetattr(self, I, n, v):
        f = self.volatile.get('=' + n)
        if f: return f(v)
        a = models.find_attr(self.cls, n)
        if isinstance(a, property):
            if a.fset is None: throw(AttributeError, n)
            I.call(a.fset, [self, v]); return
        if not self.has(n) and a is None: raise Unsupported('attribute %s is not part of the modelled state' % n)
        self.set(n, v)


def same_line(a, b):
    """syntactically the same line of a list"""
    return a is b or (is_str(a) and is_str(b) and seq_same(str_seq(a), str_seq(b)))
