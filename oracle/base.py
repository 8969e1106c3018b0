"""Run-time evaluation of the contracts on generated inputs: the search for a failing input (replay of verifier
counterexamples, bounded stand-in for functions outside the verifier's reach, CPython cross-check of proofs).

A Case has a fixed list of corner inputs, a generator of random inputs, and run(input) which executes the real code and
returns None when the property's contract held for that input or a text saying what failed.  Inputs are Python
literals (their repr is written to the replay file)."""
import random
import signal
import time
import traceback


class Skip(Exception):
    """the case does not apply (function renamed away, precondition not met)"""


class CaseTimeout(BaseException):
    pass


class Case:
    def __init__(self, prop, name, run, fixed=(), gen=None, weight=1.0, limit=20, shrink=True):
        self.prop, self.name, self.run, self.fixed, self.gen, self.weight, self.limit = prop, name, run, fixed, gen, weight, limit
        self.shrink = shrink


CASES = {}


def case(prop, name=None, fixed=(), gen=None, weight=1.0, limit=20, shrink=True):
    def deco(f):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            CASES.setdefault(p, []).append(Case(p, name or f.__name__, f, fixed, gen, weight, limit, shrink))
        return f
    return deco


def _alarm(sig, frm):
    raise CaseTimeout()


def execute(c, inp):
    """None | message"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, c.limit)
    try:
        return c.run(inp)
    except Skip:
        return None
    except CaseTimeout:
        return 'no result within %d s (does not terminate)' % c.limit
    except RecursionError as e:
        return 'RecursionError escaped'
    except Exception as e:
        return 'unexpected %s: %s [%s]' % (type(e).__name__, e, traceback.format_exc(limit=-2).strip().replace('\n', ' | ')[-300:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def shrink(c, inp, deadline):
    """greedy structural shrinking of a failing input"""
    def variants(v):
        if isinstance(v, (list, str, bytes)) and len(v):
            n = len(v)
            k = n // 2
            while k >= 1:
                for i in range(0, n, k):
                    yield v[:i] + v[i + k:]
                if k == 1: break
                k //= 2
            if isinstance(v, list):
                for i in range(n):
                    for w in variants(v[i]): yield v[:i] + [w] + v[i + 1:]
        elif isinstance(v, tuple):
            for i in range(len(v)):
                for w in variants(v[i]): yield v[:i] + (w,) + v[i + 1:]
        elif isinstance(v, dict):
            for k in list(v):
                for w in variants(v[k]):
                    d = dict(v); d[k] = w; yield d
        elif isinstance(v, int) and not isinstance(v, bool) and v > 1:
            yield 0; yield v // 2; yield v - 1
    cur = inp
    tries = 0
    progress = True
    while progress and time.time() < deadline and tries < 400:
        progress = False
        for w in variants(cur):
            tries += 1
            if tries > 400 or time.time() > deadline: break
            try:
                m = execute(c, w)
            except Exception:
                continue
            # keep the same kind of failure: never shrink into inputs outside the case's domain
            if m and getattr(c.run, 'valid', lambda x: False)(w):
                cur = w; progress = True; break
    return cur


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.failure = None
        self.per_case = {}


def search(prop, seed, seconds, only=None, extra=()):
    """run the cases of a property for about `seconds`; extra: [(case name, input)] tried first"""
    res = Result()
    cases = [c for c in CASES.get(prop, []) if only is None or c.name in only]
    byname = {c.name: c for c in CASES.get(prop, [])}

    def one(c, inp):
        res.evaluations += 1
        res.per_case[c.name] = res.per_case.get(c.name, 0) + 1
        key = c.name + repr(inp)
        if len(res.distinct) < 500000: res.distinct.add(hash(key))
        if len(res.samples) < 12 and res.per_case[c.name] in (1, 7): res.samples.append({'case': c.name, 'input': repr(inp)[:300]})
        m = execute(c, inp)
        if m:
            res.failure = (c, inp, m)
            return True
        return False
    for name, inp in extra:
        if name in byname and one(byname[name], inp): return res
    for c in cases:
        t0 = time.time()
        for i, inp in enumerate(c.fixed() if callable(c.fixed) else c.fixed):
            if one(c, inp): return res
    total = sum(c.weight for c in cases if c.gen) or 1
    start = time.time()
    for c in cases:
        if not c.gen: continue
        rng = random.Random('%s/%s/%s' % (seed, prop, c.name))
        end = time.time() + seconds * c.weight / total
        n = 0
        while time.time() < end or n < 10:
            n += 1
            if n > 200000: break
            if one(c, c.gen(rng)):
                return res
    return res


def expect(cond, msg):
    if not cond: raise Mismatch(msg)


class Mismatch(Exception):
    pass


def checked(f):
    """expect() failures become the returned message"""
    import functools

    @functools.wraps(f)
    def g(inp):
        try:
            return f(inp)
        except Mismatch as e:
            return str(e)
    return g


def eq(got, want, what):
    if type(got) is bytearray: got = bytes(got)
    if type(want) is bytearray: want = bytes(want)
    if got != want: raise Mismatch('%s: got %s, should be %s' % (what, short(got), short(want)))


def short(x, n=160):
    r = ascii(x)
    return r if len(r) <= n else r[:n] + '...(%d)' % len(r)


def raises(fn, *types):
    """the exception of fn(); Mismatch when it is none of the types"""
    try:
        r = fn()
    except types as e:
        return e
    except Exception as e:
        raise Mismatch('raised %s(%s) instead of %s' % (type(e).__name__, short(str(e), 80), '/'.join(t.__name__ for t in types)))
    raise Mismatch('returned %s instead of raising %s' % (short(r), '/'.join(t.__name__ for t in types)))
