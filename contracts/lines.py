"""Contracts of the response-searching functions (C26)."""
from .lib import *

G = 'gsmmodem.util.'


class Line:
    """the k-th of a list of arbitrary strings; only what is asked about it is known, through predicates"""
    cls = str
    def __init__(self, ls, k): self.ls, self.k = ls, k
    vtype = str
    def vgetattr(self, I, n):
        if n == 'startswith':
            def f(I, a, k):
                if len(a) != 1 or a[0] is not self.ls.prefix: raise Unsupported('startswith of another prefix')
                return SBool(self.ls.P(zi(self.k)))
            return Model('str.startswith', f)
        raise Unsupported('str.%s of an arbitrary line' % n)
    def veq(self, o): return cmp('==', self.k, o.k) if isinstance(o, Line) and o.ls is self.ls else unsupported('comparison of an arbitrary line')


class Prefix:
    cls = str
    vtype = str
    def vgetattr(self, I, n): raise Unsupported('str.%s of an arbitrary prefix' % n)
    def vlen(self): raise Unsupported('length of an arbitrary prefix')
    def vcompile(self, I): return self.ls.pattern


class Match:
    """match object of the pattern on line k"""
    def __init__(self, ls, k): self.ls, self.k = ls, k
    def veq(self, o): return cmp('==', self.k, o.k) if isinstance(o, Match) and o.ls is self.ls else False
    def vgetattr(self, I, n): raise Unsupported('match.%s' % n)


class Pattern:
    def __init__(self, ls): self.ls = ls
    def vgetattr(self, I, n):
        if n == 'match':
            def f(I, a, k):
                if not isinstance(a[0], Line) or len(a) != 1: raise Unsupported('match of something else')
                return Match(self.ls, a[0].k) if ctx().branch(SBool(self.ls.P(zi(a[0].k)))) else None
            return Model('pattern.match', f)
        raise Unsupported('pattern.%s' % n)


class Lines:
    """a list of n arbitrary lines; P(k): line k starts with the prefix / matches the pattern"""
    def __init__(self, u):
        self.n = u.int('n', 0)
        self.P = z3.Function('P', z3.IntSort(), z3.BoolSort())
        self.prefix = Prefix(); self.prefix.ls = self
        self.pattern = Pattern(self)
        memo = {}

        def el(k):
            kk = z3.simplify(zi(k)).sexpr()
            return memo.setdefault(kk, Line(self, k))
        self.base = CompBase('line', el, length=self.n)
        self.list = VList(Seq((Gen(self.base, 0, self.n),)))
        self.before = self.list.seq
        self.filter = FlatFn('matches', lambda x: [Match(self, x.k)] if ctx().branch(SBool(self.P(zi(x.k)))) else [], 0, 1)
    def none_before(self, p):
        k = z3.Int('k')
        return mb(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(p)), z3.Not(self.P(k)))))
    def inputs(self, u, case, pat):
        def build(ev):
            n = ev(self.n)
            if n > 50: raise ValueError
            m = ev.__closure__
            return ([('+C1' if ev(SBool(self.P(z3.IntVal(i)))) else 'zz') + str(i) for i in range(n)], pat)
        u.replay(case, build)


def first(u, ls, r, cls):
    u.returns(r)
    if r is None: u.prove(ls.none_before(ls.n), 'None only when no line matches')
    else:
        ok = isinstance(r, cls) and r.ls is ls
        u.prove(ok, 'returns a line of the list' if cls is Line else 'returns a match of a line')
        u.prove(band(cmp('<=', 0, r.k), cmp('<', r.k, ls.n), SBool(ls.P(zi(r.k)))), 'the line matches')
        u.prove(ls.none_before(r.k), 'no earlier line matches')
    u.prove(ls.list.seq is ls.before, 'the lines are unchanged')


def search_loop(ls):
    def inv(L, p): L.fact(ls.none_before(p), 'no earlier line matched')
    return inv


for _f, _cls, _arg in (('lineStartingWith', Line, 'prefix'), ('lineMatching', Match, 'prefix'), ('lineMatchingPattern', Match, 'pattern')):
    @unit('C26', G + _f, 'first matching line or None')
    def _(u, f=_f, cls=_cls, arg=_arg):
        ls = Lines(u)
        ls.inputs(u, 'starting' if f == 'lineStartingWith' else 'matching', '+C' if f == 'lineStartingWith' else r'\+C')
        u.use({(f, 0): search_loop(ls)})
        first(u, ls, u.call(getattr(ls, arg), ls.list), cls)


@unit('C26', G + 'allLinesMatchingPattern', 'one match per matching line, in order')
def _(u):
    ls = Lines(u)
    ls.inputs(u, 'matching', r'\+C')
    u.use({('allLinesMatchingPattern', 0): lambda L, p: L.seq('result', Seq((Flat(ls.filter, ls.base, 0, p),)))})
    r = u.returns(u.call(ls.pattern, ls.list))
    u.prove(isinstance(r, VList), 'a list')
    u.prove_eq(r, VList(Seq((Flat(ls.filter, ls.base, 0, ls.n),))), 'exactly the matches, in order')
    u.prove(ls.list.seq is ls.before, 'the lines are unchanged')
