"""Verification units: a unit states one contract case of one function of /repo (precondition as assumptions on symbolic
inputs, the call, postconditions as obligations).  run() explores every path of the function's body as it stands in /repo."""
import importlib
import multiprocessing
import os
import sys
import time
import traceback
import z3
from pyvc import binding, core, interp, loops, models, seq, values
from pyvc.core import *
from pyvc.seq import *
from pyvc.values import *
from pyvc.models import all_of


MAXLEN = sys.maxsize - 1      # no CPython sequence is longer


class Unit:
    def __init__(self, props, fn, name, body, uses, budget, max_paths):
        self.props, self.fn, self.name, self.body, self.uses, self.budget, self.max_paths = props, fn, name, body, uses, budget, max_paths
    @property
    def id(self): return '%s [%s]' % (self.fn, self.name)


UNITS = []
CONTRACTS = {}       # qualified name -> Contract (assumed at call sites of units that list it; proved by its own units)


def unit(props, fn, name, uses=(), budget=60, max_paths=4000):
    def deco(f):
        UNITS.append(Unit(props.split(), fn, name, f, uses, budget, max_paths))
        return f
    return deco


class Contract:
    """apply(I, args, kwargs): what a caller may assume (checks the precondition as obligations, returns the result).
    proved_by: (function, part of unit name) of the units that discharge it; trusted: why it is assumed instead."""
    def __init__(self, name, fn, apply, proved_by, trusted=None):
        self.name, self.fn, self.apply, self.proved_by, self.trusted = name, fn, apply, proved_by, trusted
        assert name not in CONTRACTS
        CONTRACTS[name] = self
    def call(self, I, args, kwargs): return self.apply(I, args, kwargs)
    def units(self):
        out = []
        for fn, part in self.proved_by:
            l = [u for u in UNITS if u.fn == fn and part in u.name]
            assert l, 'contract %s: no unit %s %s' % (self.name, fn, part)
            out += [u for u in l if u not in out]
        return out


def contract(name, fn=None, proved_by=(), trusted=None):
    def deco(f):
        Contract(name, fn or name, f, [(p, '') if isinstance(p, str) else p for p in proved_by], trusted)
        return f
    return deco


def units_of(prop):
    """(own units, units discharging the contracts these assume, transitively)"""
    own = [u for u in UNITS if prop in u.props]
    seen, todo = list(own), list(own)
    while todo:
        for c in todo.pop().uses:
            for u in CONTRACTS[c].units():
                if u not in seen: seen.append(u); todo.append(u)
    return own, seen[len(own):]


def resolve(qual):
    """'gsmmodem.pdu.Concatenation.encode' -> live object"""
    parts = qual.split('.')
    for i in range(len(parts) - 1, 0, -1):
        try: mod = importlib.import_module('.'.join(parts[:i]))
        except ImportError: continue
        o = mod
        try:
            for p in parts[i:]:
                o = o.__dict__[p] if isinstance(o, type) and p in o.__dict__ else getattr(o, p)
        except (AttributeError, KeyError):
            raise Missing(qual)
        if isinstance(o, (classmethod, staticmethod)): o = o.__func__
        if isinstance(o, property): o = o.fget
        return o
    raise Missing(qual)


class Missing(Exception): pass


class Raised:
    """outcome of a call that raised"""
    def __init__(self, obj): self.obj = obj; self.cls = obj.cls
    def __repr__(self): return 'Raised(%s)' % self.cls.__name__


class U:
    """what a unit body sees"""
    def __init__(self, I, session, fn):
        self.I, self.session, self.fn = I, session, fn
        self.c = ctx()

    # symbolic inputs
    def int(self, name, lo=None, hi=None): return self.c.fresh_int(name, lo, hi)
    def bool(self, name): return self.c.fresh_bool(name)
    def bytes(self, name, minlen=0, maxlen=MAXLEN, cons=None):
        n = self.c.fresh_int('n_' + name, minlen, maxlen)
        f = lambda v, k: band(cmp('<=', 0, v), cmp('<=', v, 255), *( [cons(v, k)] if cons else []))
        b = SymBase(name, n, f)
        return b, n
    def chars(self, name, minlen=0, maxlen=MAXLEN, cons=None):
        n = self.c.fresh_int('n_' + name, minlen, maxlen)
        f = cons or (lambda v, k: band(cmp('<=', 0, v), cmp('<', v, 0x110000)))
        b = SymBase(name, n, f)
        return b, n
    def assume(self, c): self.c.assume(c)
    def prove(self, c, label): self.c.prove(c, label)
    def prove_eq(self, a, b, label): prove_eq(a, b, label)
    def branch(self, c): return self.c.branch(c)

    def call(self, *args, **kwargs):
        """the function under contract (its body is executed)"""
        return self.call_other(self.fn, *args, **kwargs)

    def segment(self, args, start=None, stop=None, locals=None):
        """the part of the function's body from the top-level statement start picks (None: the beginning) to the one stop picks
        (None: the end), with the given locals; -> Raised | ('returned', value) | the frame at the end of the part.  A local
        assigned elsewhere in the body and not given is unusable."""
        def find(node, pick):
            l = [i for i, x in enumerate(node.body) if pick(x)]
            if len(l) != 1: raise Unsupported('no single statement to cut %s at' % self.fn.__qualname__)
            return l[0]

        def run(node, fr):
            self.I.segment = None
            i = find(node, start) if start else 0
            j = find(node, stop) if stop else len(node.body)
            if start:
                for n in set().union(*[loops.assigned(x) for x in node.body]): fr.locals.setdefault(n, values.Poison(n))
            fr.locals.update(locals or {})
            self.I.exec_block(node.body[i:j], fr)
            return ('cut', fr)
        self.I.segment = run
        try: r = self.I.call(self.fn, list(args), {})
        except PyExc as e: return Raised(e.obj)
        if isinstance(r, tuple) and len(r) == 2 and r[0] == 'cut': return r[1]
        return ('returned', r)

    def call_other(self, f, *args, **kwargs):
        try: return self.I.call(f, list(args), kwargs)
        except PyExc as e: return Raised(e.obj)

    def returns(self, r, label='no exception'):
        """obligation: the call returned"""
        if isinstance(r, Raised):
            self.c.prove(False, '%s (raised %s)' % (label, r.cls.__name__))
        else: self.c.prove(True, label)
        return r

    def raises(self, r, *classes):
        ok = isinstance(r, Raised) and issubclass(r.cls, classes)
        self.c.prove(ok, 'raises %s%s' % ('/'.join(k.__name__ for k in classes), '' if ok else ' (got %s)' % (r.cls.__name__ if isinstance(r, Raised) else 'a result')))

    def replay(self, case, build):
        """build(ev) -> oracle input; ev(x) gives the concrete value of a symbolic one in the counterexample"""
        self.c.anchors.setdefault('inputs', []).append((case, build))

    def use(self, annot):
        """loop annotations for this unit"""
        self.c.anchors.setdefault('annot', {}).update(annot)


def drop_empty(rope):
    """the rope without leading pieces that are provably empty"""
    ps = list(rope.pieces)
    while ps and isinstance(ps[0], (Gen, Flat)) and ctx().entails(cmp('>=', ps[0].lo, ps[0].hi)): ps.pop(0)
    return Seq(ps)


def reachable(o):
    s = z3.Solver(); s.set('timeout', 3000)
    for p in o.pc: s.add(p)
    return s.check() != z3.unsat


def evaluator(model):
    def ev(x):
        if isinstance(x, (int, str, bytes, type(None))): return x
        if isinstance(x, SInt): return model.eval(x.z, model_completion=True).as_long()
        if isinstance(x, SBool): return z3.is_true(model.eval(x.z, model_completion=True))
        if isinstance(x, SStr): return ''.join(map(chr, ev(x.seq)))
        if isinstance(x, (VBytes,)): return bytes(ev(x.seq))
        if isinstance(x, VList): return ev(x.seq)
        if isinstance(x, Seq):
            out = []
            for p in x.pieces:
                if isinstance(p, Lit): out += [ev(e) for e in p.items]
                elif isinstance(p, Gen):
                    lo, hi = ev(p.lo), ev(p.hi)
                    if hi - lo > 5000: raise ValueError('too long')
                    for k in range(lo, hi):
                        if isinstance(p.base, SymBase): out.append(model.eval(p.base.fn(z3.IntVal(k)), model_completion=True).as_long())
                        else: out.append(ev(p.base.elem(k)))
                elif isinstance(p, Dec): out += [ord(ch) for ch in str(ev(p.n))]
                else: raise ValueError('cannot concretise %r' % (p,))
            return out
        if isinstance(x, (tuple, list)): return type(x)(ev(e) for e in x)
        raise ValueError('cannot concretise %r' % (x,))
    return ev


def run(u, deadline=None, debug=False):
    """-> dict(unit, fn, status, obligations [(label, status)], ...)"""
    t0 = time.time()
    core.Stats.solver_time = 0.0; core.Stats.queries = 0; core.Stats.unknown = 0
    res = dict(unit=u.id, fn=u.fn, status='proved', reason='', obligations={}, refuted=[], paths=0, inlined=[], contracts=[], solver_s=0, queries=0)
    try:
        fn = resolve(u.fn)
        binding.node_of(fn)
    except (Missing, binding.BindingError) as e:
        res.update(status='unsupported', reason='%s: %s' % (type(e).__name__, e)); return res
    cts = {}
    for name in u.uses:
        ct = CONTRACTS[name]
        try: live = resolve(ct.fn)
        except Missing: continue
        cts[live] = ct
    s = core.Session(u.fn, u.name, deadline=min(deadline or 1e18, t0 + u.budget), max_paths=u.max_paths)

    def path(c):
        I = interp.Interp(s, cts, target=fn)
        I.unit = uu = U(I, s, fn)
        try: u.body(uu)
        except PyExc as e:
            raise Unsupported('unit body raised %s' % e.obj.cls.__name__)
    try:
        s.run(path)
    except Unsupported as e:
        res.update(status='unsupported', reason=str(e))
        if debug: traceback.print_exc()
    except Budget as e:
        res.update(status='unknown', reason='budget: %s' % e)
    except RecursionError:
        res.update(status='unsupported', reason='recursion')
    labels = {}
    rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
    for o in s.obligations:
        if rank[o.status] >= rank.get(labels.get(o.label), -1): labels[o.label] = o.status
    res['obligations'] = labels
    res['checked'] = len(s.obligations)
    res['paths'] = s.paths
    res['inlined'] = sorted(s.inlined)
    res['contracts'] = sorted(s.contracts_used)
    res['solver_s'] = round(core.Stats.solver_time, 3); res['queries'] = core.Stats.queries
    for o in s.obligations:
        if o.status != 'refuted': continue
        r = dict(name='%s: %s' % (u.id, o.label), reason='z3 model: %s' % str(o.model)[:600] if o.model is not None else 'refuted', inputs=[])
        if o.model is not None:
            for case, build in (o.inputs or []):
                try: r['inputs'].append((case, build(evaluator(o.model))))
                except (ValueError, Unsupported, PathEnd, AttributeError, z3.Z3Exception): pass
        if len(res['refuted']) < 12: res['refuted'].append(r)
    if res['refuted'] and res['status'] == 'proved': res['status'] = 'refuted'
    if res['status'] == 'proved':
        for lab in labels:
            if not any(reachable(o) for o in s.obligations if o.label == lab):
                res.update(status='vacuous', reason='never reached: ' + lab); break
    if res['status'] == 'proved':
        if any(v == 'unknown' for v in labels.values()): res.update(status='unknown', reason='solver gave no answer')
        elif not labels: res.update(status='unsupported', reason='no obligation was generated')
    res['wall'] = round(time.time() - t0, 2)
    if debug: res['session'] = s
    return res


def _work(args):
    i, deadline = args
    try: return run(UNITS[i], deadline)
    except BaseException as e:
        return dict(unit=UNITS[i].id, fn=UNITS[i].fn, status='error', reason=traceback.format_exc()[-1500:], obligations={}, refuted=[], paths=0, inlined=[], contracts=[], solver_s=0, queries=0, wall=0, checked=0)


def run_all(prop, deadline=None, jobs=8):
    own, deps = units_of(prop)
    idx = [UNITS.index(u) for u in own + deps]
    if not idx: return []
    mp = multiprocessing.get_context('fork')
    with mp.Pool(min(jobs, len(idx)), maxtasksperchild=1) as pool:
        rs = pool.map(_work, [(i, deadline) for i in idx], chunksize=1)
    for i, r in enumerate(rs): r['own'] = i < len(own)
    return rs
