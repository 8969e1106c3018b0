"""Regular expressions and substring search over ropes.  The live compiled pattern is parsed with the interpreter's own
parser (re._parser) and matched symbolically with Python's semantics: greedy/lazy repeats with backtracking, '$' before a
final newline, Unicode \\d and \\s.  Repeats over pieces of unknown content introduce the end of the maximal run; where
backtracking into such a piece would be needed beyond one candidate the pattern is reported as unsupported."""
import re
import re._constants as rc
import re._parser as rp
import z3
from .core import *
from .seq import *
from .values import *

NL = 10


# -- character classes --------------------------------------------------------------------------------------------------
def cat_pred(cat):
    from . import models
    if cat == rc.CATEGORY_DIGIT: return models.is_decimal
    if cat == rc.CATEGORY_NOT_DIGIT: return lambda c: bnot(models.is_decimal(c))
    if cat == rc.CATEGORY_SPACE: return models.is_space
    if cat == rc.CATEGORY_NOT_SPACE: return lambda c: bnot(models.is_space(c))
    raise Unsupported('character category %s' % cat)


class Cls:
    """a set of characters: a parsed single-character node"""
    def __init__(self, op, av, dotall):
        self.key = (str(op), repr(av), dotall)
        if op == rc.LITERAL: self.pred = lambda c: cmp('==', c, av)
        elif op == rc.NOT_LITERAL: self.pred = lambda c: cmp('!=', c, av)
        elif op == rc.ANY: self.pred = (lambda c: True) if dotall else (lambda c: cmp('!=', c, NL))
        else:
            neg = bool(av) and av[0][0] == rc.NEGATE
            ps = []
            for o, a in (av[1:] if neg else av):
                if o == rc.LITERAL: ps.append(lambda c, a=a: cmp('==', c, a))
                elif o == rc.RANGE: ps.append(lambda c, a=a: band(cmp('<=', a[0], c), cmp('<=', c, a[1])))
                elif o == rc.CATEGORY: ps.append(cat_pred(a))
                else: raise Unsupported('character set item %s' % o)
            self.pred = (lambda c: bnot(bor(*[p(c) for p in ps]))) if neg else (lambda c: bor(*[p(c) for p in ps]))
        self.memo = {}
    def __call__(self, c):
        if not isinstance(c, SInt): return self.pred(c)
        r = self.memo.get(c.z.get_id())
        if r is None:
            if len(self.memo) > 100000: self.memo.clear()
            r = self.memo[c.z.get_id()] = (self.pred(c), c.z)
        return r[0]


_disj = {}


def disjoint(a, b):
    k = (a.key, b.key)
    if k not in _disj:
        s = z3.Solver()
        x = z3.Int('ch')
        s.add(x >= 0, x < 0x110000, zb(a(SInt(x))), zb(b(SInt(x))))
        _disj[k] = s.check() == z3.unsat
    return _disj[k]


_ins = {}


def inside(a, b):
    """every character of a is one of b"""
    k = (a.key, b.key)
    if k not in _ins:
        s = z3.Solver()
        x = z3.Int('ch')
        s.add(x >= 0, x < 0x110000, zb(a(SInt(x))), z3.Not(zb(b(SInt(x)))))
        _ins[k] = s.check() == z3.unsat
    return _ins[k]


# -- programs: flat lists of ('one', Cls) ('rep', Cls, lo, hi, greedy) ('open', g) ('close', g) ('begin',) ('end',) ('alt', [prog]) ('grp', prog, lo, hi, greedy)
SINGLE = (rc.LITERAL, rc.NOT_LITERAL, rc.ANY, rc.IN)


NEWLINE = Cls(rc.LITERAL, NL, False)


def compile_prog(nodes, dotall):
    out = []
    for op, av in nodes:
        if op in SINGLE: out.append(('one', Cls(op, av, dotall)))
        elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
            lo, hi, sub_ = av
            hi = None if hi == rc.MAXREPEAT else int(hi)
            sub_ = list(sub_)
            if len(sub_) == 1 and sub_[0][0] in SINGLE: out.append(('rep', Cls(sub_[0][0], sub_[0][1], dotall), int(lo), hi, op == rc.MAX_REPEAT))
            else: out.append(('grp', compile_prog(sub_, dotall), int(lo), hi, op == rc.MAX_REPEAT))
        elif op == rc.SUBPATTERN:
            g, af, df, sub_ = av
            if af or df: raise Unsupported('inline flags')
            body = compile_prog(sub_, dotall)
            out += ([('open', g)] + body + [('close', g)]) if g is not None else body
        elif op == rc.BRANCH: out.append(('alt', [compile_prog(b, dotall) for b in av[1]]))
        elif op == rc.AT:
            if av in (rc.AT_BEGINNING, rc.AT_BEGINNING_STRING): out.append(('begin',))
            elif av == rc.AT_END: out.append(('end',))
            elif av == rc.AT_END_STRING: out.append(('endstr',))
            else: raise Unsupported('anchor %s' % av)
        else: raise Unsupported('pattern item %s' % op)
    return out


_progs = {}


def program(pat):
    if pat not in _progs:
        if pat.flags & ~(re.DOTALL | re.UNICODE): raise Unsupported('pattern flags')
        _progs[pat] = compile_prog(rp.parse(pat.pattern, pat.flags & re.DOTALL), bool(pat.flags & re.DOTALL))
    return _progs[pat]


def first(prog):
    """(classes that can start a match of prog, can it match the empty text)"""
    out = []
    for nd in prog:
        if nd[0] in ('open', 'close', 'begin'): continue
        if nd[0] == 'one': return out + [nd[1]], False
        if nd[0] == 'rep':
            out.append(nd[1])
            if nd[2] > 0: return out, False
        elif nd[0] == 'end': return out + [Cls(rc.LITERAL, NL, False)], False
        elif nd[0] == 'endstr': return out, False
        elif nd[0] == 'alt':
            e = False
            for a in nd[1]:
                f, n = first(a)
                out += f; e = e or n
            if not e: return out, False
        elif nd[0] == 'grp':
            f, n = first(nd[1])
            out += f
            if nd[2] > 0 and not n: return out, False
    return out, True


# -- ropes ----------------------------------------------------------------------------------------------------------------
def take(rest, n):
    """(list of n elements, rest) or None; forks on lengths"""
    out = []
    while n > 0:
        if not rest.pieces: return None
        p = rest.pieces[0]
        if isinstance(p, Lit):
            m = min(n, len(p.items))
            out += p.items[:m]; n -= m
            rest = Seq((Lit(p.items[m:]),) + rest.pieces[1:]); continue
        if isinstance(p, Gen):
            if ctx().branch(cmp('>=', p.len(), n)):
                out += [p.base.elem(add(p.lo, i)) for i in range(n)]
                return out, Seq((Gen(p.base, add(p.lo, n), p.hi),) + rest.pieces[1:])
            if len(rest.pieces) == 1: return None
        u = uncons(rest)
        if u is None: return None
        out.append(u[0]); rest = u[1]; n -= 1
    return out, rest


def lead_run(p, pred, key):
    """end q of the maximal leading run of pred in a Gen piece (lo <= q <= hi)"""
    c = ctx()
    from . import models
    st = models.all_or_none(p, pred)
    if st == 'all': return p.hi
    if st == 'none': return p.lo
    reg = c.anchors.setdefault('runs', [])
    for b, lo, hi, k, q in reg:
        if b is p.base and k == key and keys_same(lo, p.lo) and keys_same(hi, p.hi): return q
    if not isinstance(p.base, SymBase): raise Unsupported('run in %r' % (p,))
    lo, hi = p.lo, p.hi
    q = c.fresh_int('run', lo)
    c.assume(imp(cmp('<=', lo, hi), cmp('<=', q, hi)))
    reg.append((p.base, lo, hi, key, q))
    p.base.constrain(lambda v, k: imp(band(cmp('<=', lo, k), cmp('<', k, q)), pred(v)))
    c.assume(imp(cmp('<', q, hi), bnot(pred(p.base.elem(q)))))
    return q


def trail_run(p, pred, key):
    """start q of the maximal trailing run of pred in a Gen piece"""
    c = ctx()
    from . import models
    st = models.all_or_none(p, pred)
    if st == 'all': return p.lo
    if st == 'none': return p.hi
    reg = c.anchors.setdefault('truns', [])
    for b, lo, hi, k, q in reg:
        if b is p.base and k == key and keys_same(lo, p.lo) and keys_same(hi, p.hi): return q
    if not isinstance(p.base, SymBase): raise Unsupported('run in %r' % (p,))
    lo, hi = p.lo, p.hi
    q = c.fresh_int('trun', lo)
    c.assume(imp(cmp('<=', lo, hi), cmp('<=', q, hi)))
    reg.append((p.base, lo, hi, key, q))
    p.base.constrain(lambda v, k: imp(band(cmp('<=', q, k), cmp('<', k, hi)), pred(v)))
    c.assume(imp(cmp('<', lo, q), bnot(pred(p.base.elem(sub(q, 1))))))
    return q


def max_run(rest, cls, limit=None):
    """(list of consumed pieces, rest): the maximal run of cls at the front"""
    c = ctx()
    out = []
    while rest.pieces:
        p = rest.pieces[0]
        if isinstance(p, Dec):
            if all(cls(48 + d) is True for d in range(10)): out.append(p); rest = Seq(rest.pieces[1:]); continue
            if all(cls(48 + d) is False for d in range(10)): return out, rest
            raise Unsupported('part of a decimal number')
        if isinstance(p, Gen):
            q = lead_run(p, cls, cls.key)
            if q is p.hi or c.branch(cmp('>=', q, p.hi)):
                out.append(p); rest = Seq(rest.pieces[1:]); continue
            if q is p.lo:
                if c.branch(cmp('<', p.lo, p.hi)): return out, rest
                rest = Seq(rest.pieces[1:]); continue
            out.append(Gen(p.base, p.lo, q))
            return out, Seq((Gen(p.base, q, p.hi),) + rest.pieces[1:])
        if isinstance(p, Lit):
            k = 0
            while k < len(p.items) and c.branch(cls(p.items[k])): k += 1
            if k: out.append(Lit(p.items[:k]))
            if k < len(p.items): return out, Seq((Lit(p.items[k:]),) + rest.pieces[1:])
            rest = Seq(rest.pieces[1:]); continue
        raise Unsupported('pattern on %r' % (p,))
    return out, rest


# -- matching ------------------------------------------------------------------------------------------------------------
class St:
    """matching state: remaining rope, text of closed and open groups, nothing consumed yet"""
    def __init__(self, rest, closed=None, opened=None, start=True, used=EMPTY):
        self.rest, self.closed, self.opened, self.start, self.used = rest, closed or {}, opened or {}, start, used
    def eat(self, seq, rest):
        return St(rest, self.closed, {g: s + seq for g, s in self.opened.items()}, self.start and not seq.pieces, self.used + seq)
    def open(self, g):
        o = dict(self.opened); o[g] = EMPTY
        return St(self.rest, self.closed, o, self.start, self.used)
    def close(self, g):
        o = dict(self.opened); d = dict(self.closed)
        d[g] = o.pop(g)
        return St(self.rest, d, o, self.start, self.used)


def at_end(rest, newline=True):
    u = uncons(rest)
    if u is None: return True
    if not newline: return False
    if not ctx().branch(cmp('==', u[0], NL)): return False
    return uncons(u[1]) is None


def run(prog, st):
    """first match (Python's order) of prog from st, or None"""
    c = ctx()
    i = 0
    while i < len(prog):
        nd = prog[i]
        op = nd[0]
        if op == 'open': st = st.open(nd[1])
        elif op == 'close': st = st.close(nd[1])
        elif op == 'begin':
            if not st.start: return None
        elif op == 'end':
            if not at_end(st.rest): return None
        elif op == 'endstr':
            if not at_end(st.rest, False): return None
        elif op == 'one':
            j = i
            while j < len(prog) and prog[j][0] == 'one': j += 1
            t = take(st.rest, j - i)
            if t is None: return None
            if not c.branch(band(*[prog[i + m][1](x) for m, x in enumerate(t[0])])): return None
            st = st.eat(lit(t[0]), t[1])
            i = j; continue
        elif op == 'alt':
            for a in nd[1]:
                r = run(a + prog[i + 1:], st)
                if r is not None: return r
            return None
        elif op == 'grp':
            if nd[3] != 1 or nd[2] != 0 or not nd[4]: raise Unsupported('repeated group')
            r = run(nd[1] + prog[i + 1:], st)
            return r if r is not None else run(prog[i + 1:], st)
        elif op == 'rep':
            return repeat(nd, prog[i + 1:], st)
        i += 1
    return st


def classes(prog):
    out = []
    for nd in prog:
        if nd[0] in ('one', 'rep'): out.append(nd[1])
        elif nd[0] == 'alt': out += [x for a in nd[1] for x in classes(a)]
        elif nd[0] == 'grp': out += classes(nd[1])
        elif nd[0] == 'end': out.append(Cls(rc.LITERAL, NL, False))
    return out


def only_last(tail):
    """tail is a character c, then things that never contain c up to the end of the text"""
    t = [n for n in tail if n[0] not in ('open', 'close')]
    return len(t) > 1 and t[0][0] == 'one' and t[-1][0] in ('end', 'endstr') and all(disjoint(t[0][1], x) for x in classes(t[1:]))


def candidates(cls, tail, fs):
    """at most this many of the last positions in a run of cls, where fs can start, can start the tail; None: no bound.
    Everything the tail matches up to its first character outside cls (or the end of the text) contains a fixed number of fs."""
    n = 0
    for nd in tail:
        if nd[0] in ('open', 'close'): continue
        if nd[0] in ('end', 'endstr'): return n
        if nd[0] not in ('one', 'rep'): return None
        k = nd[1]
        if nd[0] == 'one' and disjoint(k, cls): return n
        if nd[0] == 'one' and [f.key for f in fs] == [k.key]: n += 1; continue
        if not all(disjoint(k, f) for f in fs): return None
    return None


def piece_len(ps): return seq_len(Seq(ps))


def repeat(nd, tail, st):
    _, cls, lo, hi, greedy = nd
    c = ctx()
    if hi is not None:
        if hi > 4: raise Unsupported('bounded repeat')
        # explicit count
        counts = [(st, 0)]
        cur = st
        for k in range(hi):
            u = uncons(cur.rest)
            if u is None or not c.branch(cls(u[0])): break
            cur = cur.eat(lit([u[0]]), u[1]); counts.append((cur, k + 1))
        for s, k in (reversed(counts) if greedy else counts):
            if k < lo: continue
            r = run(tail, s)
            if r is not None: return r
        return None
    if not greedy: return lazy(cls, lo, tail, st)
    ps, rest = max_run(st.rest, cls)
    if lo and not c.branch(cmp('>=', piece_len(ps), lo)): return None
    r = run(tail, st.eat(Seq(ps), rest))
    if r is not None: return r
    if [n[0] for n in tail if n[0] != 'close'] in (['end'], ['endstr']): return None     # a shorter run leaves a character of it and what follows it
    t = [n for n in tail if n[0] not in ('open', 'close')]
    if len(t) == 2 and t[0][0] == 'rep' and t[0][2:4] == (0, None) and t[1][0] in ('end', 'endstr') and inside(cls, t[0][1]) and disjoint(cls, NEWLINE):
        return None     # what follows a shorter run ends where it did, or at a character of the run
    fs, nullable = first(tail)
    if all(disjoint(cls, f) for f in fs) and not nullable: return None      # a shorter run is followed by a character of cls
    if nullable: raise Unsupported('backtracking')
    # shorter runs, longest first: only positions whose next character can start the rest
    while True:      # the next character is one of the run: optional characters outside cls are absent
        k = next((k for k, nd in enumerate(tail) if nd[0] not in ('open', 'close')), None)
        if k is None or not (tail[k][0] == 'rep' and tail[k][2] == 0 and disjoint(cls, tail[k][1])): break
        tail = tail[:k] + tail[k + 1:]
    fs, nullable = first(tail)
    if nullable: raise Unsupported('backtracking')
    limit = candidates(cls, tail, fs)
    pred = lambda e: bor(*[f(e) for f in fs])
    key = ('first',) + tuple(f.key for f in fs)
    right = rest
    ps = list(ps)
    last = only_last(tail)       # if the last candidate fails, every earlier one does
    tries = 0
    while ps:
        p = ps.pop()
        if isinstance(p, Lit):
            for k in range(len(p.items) - 1, -1, -1):
                right2 = Seq((Lit(p.items[k:]),)) + right
                if not c.branch(pred(p.items[k])): continue
                tries += 1
                if limit is not None and tries > limit: return None
                left = Seq(ps + [Lit(p.items[:k])])
                if lo and not c.branch(cmp('>=', seq_len(left), lo)): return None
                r = run(tail, st.eat(left, right2))
                if r is not None or last: return r
            right = Seq((p,)) + right
            continue
        if isinstance(p, Dec):
            if any(pred(48 + d) is not False for d in range(10)): raise Unsupported('part of a decimal number')
            right = Seq((p,)) + right; continue
        if isinstance(p, Gen):
            while True:
                q = trail_run(p, lambda e: bnot(pred(e)), key)       # characters from q on cannot start the rest
                if q is p.lo or c.branch(cmp('<=', q, p.lo)): break
                t = sub(q, 1)
                tries += 1
                if limit is not None and tries > limit: return None
                if tries > 2: raise Unsupported('backtracking into text of unknown content')
                left = Seq(ps + [Gen(p.base, p.lo, t)])
                if lo and not c.branch(cmp('>=', seq_len(left), lo)): return None
                r = run(tail, st.eat(left, Seq((Gen(p.base, t, p.hi),)) + right))
                if r is not None or last: return r
                right = Seq((Gen(p.base, t, p.hi),)) + right
                p = Gen(p.base, p.lo, t)
            right = Seq((p,)) + right
            continue
        raise Unsupported('backtracking into %r' % (p,))
    return None


def fixed_prefix(prog):
    out = []
    for nd in prog:
        if nd[0] in ('open', 'close'): continue
        if nd[0] == 'one': out.append(nd[1])
        elif nd[0] == 'rep' and nd[2] >= 1: out.append(nd[1]); break
        else: break
    return out


def lazy(cls, lo, tail, st):
    c = ctx()
    if lo: 
        u = uncons(st.rest)
        for _ in range(lo):
            u = uncons(st.rest)
            if u is None or not c.branch(cls(u[0])): return None
            st = st.eat(lit([u[0]]), u[1])
    pre = fixed_prefix(tail)
    L = len(pre)
    while True:
        p = st.rest.pieces[0] if st.rest.pieces else None
        if isinstance(p, Gen) and L and not (isinstance(p.lo, int) and isinstance(p.hi, int)):
            # skip the part of the piece in which the rest provably cannot start
            from . import models
            k = c.fresh_int('lk', p.lo)
            last = sub(p.hi, L - 1)
            win = [p.base.elem(add(k, j)) for j in range(L)]
            nowhere = c.entails(imp(cmp('<', k, last), bnot(band(*[f(x) for f, x in zip(pre, win)]))))
            if nowhere and c.branch(cmp('<', p.lo, last)):
                if models.all_or_none(p, cls) != 'all': raise Unsupported('lazy repeat over text of unknown content')
                st = st.eat(Seq((Gen(p.base, p.lo, last),)), Seq((Gen(p.base, last, p.hi),) + st.rest.pieces[1:]))
                # the last L-1 characters, explicitly
                for j in range(L - 1):
                    r = run(tail, st)
                    if r is not None: return r
                    x = p.base.elem(add(last, j))
                    st = st.eat(lit([x]), Seq((Gen(p.base, add(last, j + 1), p.hi),) + st.rest.pieces[1:]))
                st = St(Seq(st.rest.pieces[1:]) if st.rest.pieces and isinstance(st.rest.pieces[0], Gen) and st.rest.pieces[0].base is p.base else st.rest, st.closed, st.opened, st.start, st.used)
                continue
        r = run(tail, st)
        if r is not None: return r
        u = uncons(st.rest)
        if u is None or not c.branch(cls(u[0])): return None
        st = st.eat(lit([u[0]]), u[1])


class SMatch:
    """match object"""
    vtype = re.Match
    def __init__(self, pat, st, subject): self.pat, self.st, self.subject = pat, st, subject
    def grp(self, g):
        if isinstance(g, str): g = self.pat.groupindex[g]
        if g == 0: return mkstr(self.st.used)
        if not 0 <= g <= self.pat.groups: throw(IndexError, 'no such group')
        s = self.st.closed.get(g)
        return None if s is None else mkstr(s)
    def vtruth(self): return True
    def vgetitem(self, I, k): return self.grp(k)
    def vgetattr(self, I, n):
        if n == 'group':
            def f(I, a, k): return self.grp(0) if not a else self.grp(a[0]) if len(a) == 1 else tuple(self.grp(x) for x in a)
            return Model('match.group', f)
        if n == 'groups': return Model('match.groups', lambda I, a, k: tuple(self.grp(i + 1) for i in range(self.pat.groups)))
        if n == 'string': return self.subject
        if n == 're': return self.pat
        raise Unsupported('match.' + n)


def match(pat, s, full=False):
    """SMatch or None; the line of a list is matched once with each pattern (see Rows)"""
    row = getattr(s, 'row', None)
    if row is None: return match1(pat, s, full)
    memo = ctx().anchors.setdefault('rowmatch', {})
    key = (pat.pattern, pat.flags, full, id(s))
    if key not in memo: memo[key] = (s, match1(pat, s, full))
    return memo[key][1]


def match1(pat, s, full):
    r = run(program(pat) + ([('endstr',)] if full else []), St(str_seq(s)))
    return None if r is None else SMatch(pat, r, s)


def find(pat, rope, start):
    """leftmost match at or after the front of rope -> state or None (skipping explicit characters and text without a start)"""
    prog = program(pat)
    c = ctx()
    fs, nullable = first(prog)
    if nullable: raise Unsupported('search for a pattern matching nothing')
    pred = lambda e: bor(*[f(e) for f in fs])
    key = ('first',) + tuple(f.key for f in fs)
    from . import models
    n = 0
    while rope.pieces:
        p = rope.pieces[0]
        if isinstance(p, Gen):
            st = models.all_or_none(p, pred)
            if st == 'none': rope = Seq(rope.pieces[1:]); start = False; continue
            pre = fixed_prefix(prog)
            L = len(pre)
            k = c.fresh_int('fk', p.lo)
            last = sub(p.hi, L - 1)
            win = [p.base.elem(add(k, j)) for j in range(L)]
            if L and c.entails(imp(cmp('<', k, last), bnot(band(*[f(x) for f, x in zip(pre, win)])))):
                if c.branch(cmp('<', p.lo, last)):
                    rope = lit([p.base.elem(add(last, j)) for j in range(L - 1)]) + Seq(rope.pieces[1:]); start = False; continue
            else: raise Unsupported('search in text of unknown content')
        if isinstance(p, Dec):
            if any(pred(48 + d) is not False for d in range(10)): raise Unsupported('search in a decimal number')
            rope = Seq(rope.pieces[1:]); start = False; continue
        r = run(prog, St(rope, start=start))
        if r is not None: return r
        u = uncons(rope)
        if u is None: break
        rope = u[1]; start = False
        n += 1
        if n > 3000: raise Unsupported('long search')
    return None


def finditer(pat, s):
    out = []
    rope, start = str_seq(s), True
    while True:
        st = find(pat, rope, start)
        if st is None: break
        out.append(SMatch(pat, st, s))
        if len(out) > 64: raise Unsupported('many matches')
        rope, start = st.rest, False
    return out


def pattern_method(I, pat, name, args, kwargs):
    if args:
        h = getattr(args[0], 'vrx', None)
        if h: return h(I, pat, name)
    if all(isinstance(a, str) for a in args) and not kwargs:
        if name in ('match', 'search', 'fullmatch'): return lift_match(getattr(pat, name)(*args))
        if name == 'finditer': return VIter(lit([lift_match(m) for m in pat.finditer(*args)]))
    if len(args) != 1 or kwargs: raise Unsupported('pattern.%s' % name)
    if not is_str(args[0]): throw(TypeError, 'expected string')
    if name == 'match': return match(pat, args[0])
    if name == 'fullmatch': return match(pat, args[0], True)
    if name == 'search':
        st = find(pat, str_seq(args[0]), True)
        return None if st is None else SMatch(pat, st, args[0])
    if name == 'finditer': return VIter(lit(finditer(pat, args[0])))
    raise Unsupported('pattern.%s on symbolic text' % name)


class CMatch(SMatch):
    """match object on concrete text"""
    def __init__(self, m): self.m, self.pat, self.subject = m, m.re, m.string
    def grp(self, g): return self.m.group(g)


def lift_match(m): return None if m is None else CMatch(m)


# -- substrings ------------------------------------------------------------------------------------------------------------
def window(base, k, items):
    """base[k..] equals the items (raw: no type facts)"""
    return z3.And([base.fn(zi(add(k, j))) == zi(x) for j, x in enumerate(items)])


def substring(hay, needle):
    """needle in hay, for a needle of explicit characters; forks"""
    if not needle.concrete: raise Unsupported('symbolic needle')
    items = needle.items
    L = len(items)
    c = ctx()
    if L == 0: return True
    # explicit characters between the interiors of the unknown pieces
    runs, cur = [], []
    for idx, p in enumerate(hay.pieces):
        if isinstance(p, Lit): cur += p.items; continue
        if isinstance(p, Dec):
            if any(isinstance(x, int) and 48 <= x <= 57 for x in items) or not all(isinstance(x, int) for x in items): raise Unsupported('search in a decimal number')
            runs.append(cur); cur = []; continue      # no digit in the needle: no occurrence overlaps the number
        if not isinstance(p, Gen): raise Unsupported('search in %r' % (p,))
        n = p.len()
        if not (isinstance(p.base, SymBase)): raise Unsupported('search in %r' % (p,))
        alone = len(hay.pieces) == 1
        if not alone:
            if not c.branch(cmp('>=', n, L - 1)):
                m = concretize(n, L)
                cur += [p.base.elem(add(p.lo, j)) for j in range(m)]
                continue
        lo, hi, base = p.lo, p.hi, p.base
        k = c.fresh_int('sk', lo)
        inside = lambda k: z3.And(zi(lo) <= zi(k), zi(k) <= zi(hi) - L)
        if not c.entails(mb(z3.Implies(z3.And(inside(k), zi(k) >= 0), z3.Not(z3.And([zi(base.elem(add(k, j))) == zi(x) for j, x in enumerate(items)]))))):
            reg = c.anchors.setdefault('substr', {})
            key = (id(base), z3.simplify(zi(lo)).sexpr(), z3.simplify(zi(hi)).sexpr(), tuple(items))
            if key not in reg:
                if c.choice([None, None]) == 0:
                    t = c.fresh_int('occ', lo)
                    c.assume(mb(inside(t)))
                    for j, x in enumerate(items): c.assume(cmp('==', base.elem(add(t, j)), x))
                    reg[key] = (True, base)
                else:
                    base.constrain(lambda v, k: mb(z3.Implies(inside(k), z3.Not(window(base, k, items)))))
                    reg[key] = (False, base)
            if reg[key][0]: return True
        if alone: return False
        cur += [base.elem(add(lo, j)) for j in range(L - 1)]
        runs.append(cur)
        cur = [base.elem(add(hi, j - (L - 1))) for j in range(L - 1)]
    runs.append(cur)
    conds = []
    for r in runs:
        for i in range(len(r) - L + 1):
            x = band(*[cmp('==', r[i + j], items[j]) for j in range(L)])
            if x is True: return True
            if x is not False: conds.append(x)
    return bor(*conds) if conds else False
