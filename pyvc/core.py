"""Path exploration, solver interface, obligations, symbolic scalars.

A function under verification is executed symbolically along every path.  A path is identified by its trail: the list of
all decisions taken (branch outcomes, entailment answers).  A new path is explored by re-executing with a trail prefix;
while the prefix is replayed no solver is consulted and obligations (already decided on the path the prefix stems from)
are skipped.
"""
import time
import z3

z3.set_param('smt.random_seed', 1)


class PathEnd(BaseException):
    """The current path is finished (infeasible, or ended at a loop back edge)."""


class Unsupported(BaseException):
    """The construct or value is outside the verified subset: undecided, never a violation."""


class Restart(BaseException):
    """Loop information changed (invariant candidate dropped, write set grew): explore again."""


class Budget(BaseException):
    """Exploration budget exhausted: undecided."""


RLIMIT = 4_000_000
FULL_TIMEOUT_MS = 20000

_memo = {}
_keep = []


class Stats:
    solver_time = 0.0
    queries = 0
    unknown = 0


def _check(pc, extra):
    """satisfiability of pc + extra -> 'sat' | 'unsat' | 'unknown' (memoised on the identity of the terms)"""
    key = (tuple(p.get_id() for p in pc), tuple(e.get_id() for e in extra))
    r = _memo.get(key)
    return key, r


class Ctx:
    cur = None

    def __init__(self, prefix, session):
        self.prefix = prefix
        self.trail = []
        self.pc = []
        self.names = {}
        self.session = session
        self.solver = None
        self.notes = []          # human readable trace of the path
        self.anchors = {}        # per path registries used by contracts
        self.objcount = 0
        self.elem_seen = set()

    # -- names -------------------------------------------------------------------------------------------------
    def name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else '%s!%d' % (base, k)

    def fresh_int(self, base, lo=None, hi=None):
        v = z3.Int(self.name(base))
        if lo is not None: self.assume(v >= zi(lo))
        if hi is not None: self.assume(v <= zi(hi))
        return SInt(v)

    def fresh_bool(self, base):
        return SBool(z3.Bool(self.name(base)))

    # -- solver ------------------------------------------------------------------------------------------------
    @property
    def replaying(self):
        return len(self.trail) < len(self.prefix)

    def assume(self, c):
        if isinstance(c, SBool): c = c.z
        if c is True: return
        if c is False: raise PathEnd()
        c = z3.simplify(c)
        if z3.is_true(c): return
        _keep.append(c)
        self.pc.append(c)
        if self.solver is not None: self.solver.add(c)
        if z3.is_false(c): raise PathEnd()

    def _sat(self, extra):
        extra = [e for e in extra if not z3.is_true(e)]
        if any(z3.is_false(e) for e in extra): return 'unsat'
        key, r = _check(self.pc, extra)
        if r is not None: return r
        t = time.time()
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('rlimit', RLIMIT)
            for p in self.pc: self.solver.add(p)
        self.session.tick()
        r = str(self.solver.check(*extra))
        if r == 'unknown':
            s = z3.Solver()
            s.set('timeout', FULL_TIMEOUT_MS)
            for p in self.pc: s.add(p)
            for e in extra: s.add(e)
            r = str(s.check())
            if r == 'unknown': Stats.unknown += 1
        Stats.solver_time += time.time() - t
        Stats.queries += 1
        _keep.extend(extra)
        _memo[key] = r
        return r

    def decide(self, compute):
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = compute()
        self.trail.append(v)
        return v

    def entails(self, c):
        """True iff the path condition proves c (False: refuted or unknown)."""
        if isinstance(c, bool): return c
        if isinstance(c, SBool): c = c.z
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c):
            return self.decide(lambda: self._sat([]) == 'unsat')
        return self.decide(lambda: self._sat([z3.simplify(z3.Not(c))]) == 'unsat')

    def choice(self, conds, label=''):
        """Fork: returns the index of the alternative taken; conds are z3 Bools or None (unconstrained)."""
        conds = [None if c is None else z3.simplify(zb(c)) for c in conds]

        def compute():
            ok = []
            for i, c in enumerate(conds):
                if c is not None and z3.is_false(c): continue
                if c is None or z3.is_true(c):
                    ok.append(i)
                elif i == len(conds) - 1 and not ok and self.session.exhaustive_choice:
                    ok.append(i)
                elif self._sat([c]) != 'unsat':
                    ok.append(i)
            if not ok: raise PathEnd()
            for j in ok[1:]:
                self.session.push(self.trail + [j])
            return ok[0]
        i = self.decide(compute)
        if conds[i] is not None: self.assume(conds[i])
        return i

    def branch(self, c):
        """Fork on a Boolean; returns a Python bool."""
        if isinstance(c, bool): return c
        if isinstance(c, SBool): c = c.z
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.choice([c, z3.simplify(z3.Not(c))]) == 0

    # -- obligations -------------------------------------------------------------------------------------------
    def prove(self, c, label):
        """An obligation: the path condition must prove c."""
        if isinstance(c, SBool): c = c.z
        if isinstance(c, bool): c = z3.BoolVal(c)
        if self.replaying:
            self.decide(None)
        else:
            def compute():
                c2 = z3.simplify(c)
                if z3.is_true(c2):
                    self.session.obligation(label, 'proved', self, None); return True
                t = time.time()
                r = self._sat([z3.simplify(z3.Not(c2))])
                st = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r]
                if st == 'refuted' and z3.is_false(c2) and self._sat([]) == 'unknown': st = 'unknown'
                if st == 'refuted' and self.anchors.get('lossy'): st = 'unknown'      # facts of earlier iterations of an unannotated loop were forgotten
                self.session.obligation(label, st, self, c2)
                return st == 'proved'
            self.decide(compute)
        if z3.is_false(z3.simplify(c)): raise PathEnd()
        self.assume(c)

    def model(self, extra=()):
        s = z3.Solver(); s.set('timeout', FULL_TIMEOUT_MS)
        for p in self.pc: s.add(p)
        for e in extra: s.add(e)
        if s.check() == z3.sat: return s.model()
        return None


class Obligation:
    def __init__(self, label, status, func, case, trail, cond, pc):
        self.label, self.status, self.func, self.case, self.trail, self.cond = label, status, func, case, trail, cond
        self.pc = pc
        self.backend = 'z3'

    def smt2(self):
        s = z3.Solver()
        for p in self.pc: s.add(p)
        if self.cond is not None: s.add(z3.Not(self.cond))
        return s.to_smt2()


class Session:
    """Exploration of one contract case of one function."""

    def __init__(self, func, case, deadline=None, max_paths=4000):
        self.func, self.case = func, case
        self.work = []
        self.obligations = []
        self.loops = {}           # loop information surviving restarts
        self.deadline = deadline
        self.max_paths = max_paths
        self.paths = 0
        self.restarts = 0
        self.exhaustive_choice = False
        self.inlined = set()
        self.contracts_used = set()
        self.reached = set()
        self.models = []          # models of refuted obligations

    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Budget('time')

    def push(self, prefix):
        self.work.append(prefix)

    def obligation(self, label, status, ctx, cond):
        o = Obligation(label, status, self.func, self.case, list(ctx.trail), cond, list(ctx.pc))
        o.notes = list(ctx.notes)
        if status == 'refuted':
            o.model = ctx.model([z3.Not(cond)] if cond is not None else [])
            o.inputs = ctx.anchors.get('inputs')
        self.obligations.append(o)

    def run(self, fn):
        """fn(ctx) executes the function under verification along one path (checking obligations on the way)."""
        while True:
            try:
                self.work = [[]]
                self.obligations = []
                self.reached = set()
                self.paths = 0
                self.first_error = None
                while self.work:
                    self.tick()
                    prefix = self.work.pop()
                    self.paths += 1
                    if self.paths > self.max_paths: raise Budget('paths')
                    ctx = Ctx(prefix, self)
                    Ctx.cur = ctx
                    try:
                        fn(ctx)
                    except PathEnd:
                        pass
                return
            except Restart as r:
                self.restarts += 1
                if self.restarts > 200: raise Budget('restarts')


def ctx():
    return Ctx.cur


# -- symbolic scalars -------------------------------------------------------------------------------------------
class SInt:
    __slots__ = ('z',)
    def __init__(self, z): self.z = z
    def __repr__(self): return 'SInt(%s)' % self.z


class SBool:
    __slots__ = ('z',)
    def __init__(self, z): self.z = z
    def __repr__(self): return 'SBool(%s)' % self.z


class SReal:
    """exact rational num/den, den a positive Python int"""
    __slots__ = ('num', 'den')
    def __init__(self, num, den): self.num, self.den = num, den
    def __repr__(self): return 'SReal(%s/%s)' % (self.num, self.den)


def zi(x):
    if isinstance(x, SInt): return x.z
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, SBool): return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef): return x
    raise Unsupported('int expected: %r' % (x,))


def zb(x):
    if isinstance(x, SBool): return x.z
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef): return x
    raise Unsupported('bool expected: %r' % (x,))


def mi(z):
    """z3 int term -> int or SInt"""
    z = z3.simplify(z)
    if z3.is_int_value(z): return z.as_long()
    return SInt(z)


def mb(z):
    if isinstance(z, bool): return z
    z = z3.simplify(z)
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    return SBool(z)


def is_int(x):
    return isinstance(x, (int, SInt)) and not isinstance(x, bool)


def is_intlike(x):
    return isinstance(x, (int, SInt, bool, SBool))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return mi(zi(a) + zi(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return mi(zi(a) - zi(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    return mi(zi(a) * zi(b))


def cmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'<': a < b, '<=': a <= b, '==': a == b, '>': a > b, '>=': a >= b, '!=': a != b}[op]
    a, b = zi(a), zi(b)
    return mb({'<': a < b, '<=': a <= b, '==': a == b, '>': a > b, '>=': a >= b, '!=': a != b}[op])


def band(*cs):
    return mb(z3.And([zb(c) for c in cs]))


def bor(*cs):
    return mb(z3.Or([zb(c) for c in cs]))


def bnot(c):
    return (not c) if isinstance(c, bool) else mb(z3.Not(zb(c)))


def imp(a, b):
    return mb(z3.Implies(zb(a), zb(b)))


def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if is_intlike(a) and is_intlike(b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mb(z3.If(zb(c), zb(a), zb(b)))
        return mi(z3.If(zb(c), zi(a), zi(b)))
    raise Unsupported('ite over non-integers')


def concretize(x, limit=64):
    """Fork over the values of a small-range integer; returns a Python int."""
    if isinstance(x, int): return x
    c = ctx()
    for _ in range(limit):
        def val():
            s = z3.Solver(); s.set('timeout', FULL_TIMEOUT_MS)
            for p in c.pc: s.add(p)
            if s.check() != z3.sat: return None
            return s.model().eval(zi(x), model_completion=True).as_long()
        v = c.decide(val)
        if v is None: raise PathEnd()
        if c.branch(mb(zi(x) == v)): return v
    raise Unsupported('integer with too many values used where a concrete one is needed')


def mask_int(x, mask):
    """x & mask for a constant mask >= 0"""
    if isinstance(x, int): return x & mask
    z, res, bit = zi(x), None, 0
    m = mask
    while m >> bit:
        if not (m >> bit) & 1:
            bit += 1; continue
        e = bit
        while (m >> e) & 1: e += 1
        part = (z if bit == 0 else z / (1 << bit)) % (1 << (e - bit))
        part = part * (1 << bit) if bit else part
        res = part if res is None else res + part
        bit = e
    return 0 if res is None else mi(res)


def or_int(a, b):
    if isinstance(a, int) and isinstance(b, int): return a | b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        return add(a, sub(b, mask_int(a, b))) if b >= 0 else unsupported('| negative')
    c = ctx()
    for hi, lo in ((a, b), (b, a)):
        for k in range(1, 17):
            if c.entails(band(cmp('<=', 0, lo), cmp('<', lo, 1 << k))):
                if c.entails(mb(zi(hi) % (1 << k) == 0)): return add(a, b)
                break
    if c.entails(band(cmp('<=', 0, a), cmp('<', a, 65536), cmp('<=', 0, b), cmp('<', b, 65536))):
        return mi(z3.BV2Int(z3.Int2BV(zi(a), 16) | z3.Int2BV(zi(b), 16)))
    raise Unsupported('| of overlapping symbolic integers')


def shl(a, n):
    if isinstance(a, int) and isinstance(n, int): return a << n
    return mul(a, 1 << concretize(n))


def shr(a, n):
    if isinstance(a, int) and isinstance(n, int): return a >> n
    n = concretize(n)
    return a if n == 0 else mi(zi(a) / (1 << n))


def unsupported(msg):
    raise Unsupported(msg)
