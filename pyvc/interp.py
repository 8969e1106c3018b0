"""Symbolic interpreter for the Python subset used by the repository."""
import ast
import builtins
import inspect
import operator
import string as _string
import types
import z3
from . import binding
from .core import *
from .seq import *
from .values import *


class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass


class Frame:
    def __init__(self, globals_, closure, qualname, clsname=None):
        self.locals = {}
        self.globals = globals_          # live module dict
        self.closure = closure           # parent Frame of an interpreted closure, or dict of live cells
        self.qualname = qualname
        self.clsname = clsname
        self.nonlocal_ = set()
        self.globalnames = set()
        self.yields = None
        self.varnames = set()


class Interp:
    def __init__(self, session, contracts=None, hints=None, target=None):
        self.session = session
        self.contracts = contracts or {}       # live function -> Contract
        self.hints = hints
        self.target = target                   # live function under verification (its first activation runs its body)
        self.started = False
        self.depth = 0
        self.callstack = []
        self.globals_written = {}              # (module id, name) -> value
        self.segment = None                    # (node, frame) -> value: a part of the target's body instead of all of it

    # -- calls -------------------------------------------------------------------------------------------------
    def call(self, f, args=(), kwargs=None, node=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Bound): return self.call(f.fn, [f.obj] + args, kwargs, node)
        if isinstance(f, Model): return f.fn(self, args, kwargs)
        if isinstance(f, Closure): return self.call_closure(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs, node)
        if isinstance(f, types.FunctionType):
            ct = self.contracts.get(f)
            if ct is not None and ct.apply is not None and not (f is self.target and not self.started):
                self.session.contracts_used.add(ct.name)
                return ct.call(self, args, kwargs)
            if binding.in_repo(f): return self.call_function(f, args, kwargs)
            from . import models
            m = models.FUNCS.get((f.__module__, f.__qualname__)) or ctx().anchors.get('construct', {}).get(f)
            if m: return m(self, args, kwargs)
            raise Unsupported('call of %s.%s' % (f.__module__, f.__qualname__))
        from . import models
        if isinstance(f, type): return models.construct(self, f, args, kwargs)
        return models.call_builtin(self, f, args, kwargs)

    def bind_args(self, a, fname, args, kwargs, defaults, kwdefaults):
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        if len(args) > len(names) and not a.vararg: throw(TypeError, '%s() takes too many arguments' % fname)
        for n, v in zip(names, args): loc[n] = v
        if a.vararg: loc[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in loc: throw(TypeError, 'multiple values for argument ' + n)
                loc[n] = kw.pop(n)
        if kw:
            if not a.kwarg: throw(TypeError, '%s() got an unexpected keyword argument' % fname)
            loc[a.kwarg.arg] = VDict(list(kw.items()))
        elif a.kwarg: loc[a.kwarg.arg] = VDict()
        nd = len(defaults or ())
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j < 0: throw(TypeError, '%s() missing argument %s' % (fname, n))
                loc[n] = defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg in (kwdefaults or {}): loc[x.arg] = kwdefaults[x.arg]
                else: throw(TypeError, 'missing keyword argument')
        return loc

    def call_function(self, f, args, kwargs):
        node = binding.node_of(f)
        if f is self.target and not self.started: self.started = True
        elif f is not self.target: self.session.inlined.add(f.__qualname__)
        fr = Frame(f.__globals__, None, f.__qualname__, binding.class_of(f))
        if f.__closure__:
            fr.closure = {n: c.cell_contents for n, c in zip(f.__code__.co_freevars, f.__closure__)}
        fr.locals = self.bind_args(node.args, f.__name__, args, kwargs, f.__defaults__, f.__kwdefaults__)
        return self.run_body(node, fr)

    def call_closure(self, c, args, kwargs):
        fr = Frame(c.frame.globals, c.frame, c.name, c.frame.clsname)
        fr.locals = self.bind_args(c.node.args, c.name, args, kwargs, c.defaults, c.kwdefaults)
        return self.run_body(c.node, fr)

    def run_body(self, node, fr):
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion depth (missing contract?) in ' + fr.qualname)
        saved = self.callstack
        self.callstack = saved + [fr.qualname]
        try:
            if isinstance(node, ast.Lambda): return self.eval(node.body, fr)
            if not hasattr(node, '_isgen'):
                node._isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
            if node._isgen: fr.yields = VList()
            try:
                if self.segment is not None and self.depth == 1: return self.segment(node, fr)
                self.exec_block(node.body, fr)
            except _Return as r:
                if fr.yields is None: return r.v
            if fr.yields is not None: return VIter(fr.yields.seq)
            return None
        finally:
            self.depth -= 1
            self.callstack = saved

    # -- statements ----------------------------------------------------------------------------------------------
    def exec_block(self, stmts, fr):
        for s in stmts: self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(s).__name__)
        ctx().curline = s.lineno
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value, fr) if s.value.value else None
            fr.yields.seq = fr.yields.seq + lit([v]); return
        self.eval(s.value, fr)
    def s_Pass(self, s, fr): pass
    def s_Return(self, s, fr): raise _Return(self.eval(s.value, fr) if s.value else None)
    def s_Break(self, s, fr): raise _Break()
    def s_Continue(self, s, fr): raise _Continue()
    def s_Global(self, s, fr): fr.globalnames |= set(s.names)
    def s_Nonlocal(self, s, fr): fr.nonlocal_ |= set(s.names)
    def s_Import(self, s, fr): raise Unsupported('import inside a function')
    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globals.get('__package__') or ''
        mod = importlib.import_module('.' * s.level + (s.module or ''), pkg)
        for al in s.names: fr.locals[al.asname or al.name] = self.lift(getattr(mod, al.name))
    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)): throw(AssertionError)
    def s_If(self, s, fr):
        self.exec_block(s.body if self.truth(self.eval(s.test, fr)) else s.orelse, fr)
    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)
    def s_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.eval(s.value, fr), fr)
    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            self.store_name(t.id, self.inplace(s.op, cur, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr); name = self.mangle(t.attr, fr)
            self.setattr(o, name, self.inplace(s.op, self.getattr(o, name), self.eval(s.value, fr)))
        else:
            o = self.eval(t.value, fr); k = self.eval_slice(t.slice, fr)
            self.setitem(o, k, self.inplace(s.op, self.getitem(o, k), self.eval(s.value, fr)))
    def inplace(self, op, cur, v):
        if isinstance(op, ast.Add) and isinstance(cur, VList):
            cur.seq = cur.seq + self.iter_rope(v); return cur
        if isinstance(op, ast.Add) and isinstance(cur, VBytes):
            cur.seq = cur.seq + self.byte_rope(v); return cur
        return self.binop(op, cur, v)
    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.locals: del fr.locals[t.id]
                else: throw(UnboundLocalError, t.id)
            elif isinstance(t, ast.Subscript): self.delitem(self.eval(t.value, fr), self.eval_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute): self.eval(t.value, fr).delete(self.mangle(t.attr, fr))
            else: raise Unsupported('del')
    def s_FunctionDef(self, s, fr):
        if s.decorator_list: raise Unsupported('decorated nested function')
        c = Closure(s, fr, [self.eval(d, fr) for d in s.args.defaults],
                    {a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d}, s.name)
        self.store_name(s.name, c, fr)
    def s_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(self, 'handling', None)
            if e is None: throw(RuntimeError, 'No active exception to reraise')
            raise PyExc(e)
        v = self.eval(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException): v = self.call(v, [])
        if isinstance(v, VObj) and issubclass(v.cls, BaseException): raise PyExc(v)
        throw(TypeError, 'exceptions must derive from BaseException')
    def s_Try(self, s, fr):
        def body():
            try:
                self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None: ok = True
                    else:
                        t = self.eval(h.type, fr)
                        ok = issubclass(e.obj.cls, t if isinstance(t, tuple) else (t,))
                    if ok:
                        if h.name: fr.locals[h.name] = e.obj
                        saved = getattr(self, 'handling', None)
                        self.handling = e.obj
                        try: self.exec_block(h.body, fr)
                        finally:
                            self.handling = saved
                            if h.name: fr.locals.pop(h.name, None)
                        return
                raise
            else:
                self.exec_block(s.orelse, fr)
        if not s.finalbody: return body()
        try:
            body()
        except (PyExc, _Return, _Break, _Continue):
            self.exec_block(s.finalbody, fr)
            raise
        self.exec_block(s.finalbody, fr)
    def s_With(self, s, fr):
        exits = []
        for it in s.items:
            o = self.eval(it.context_expr, fr)
            v = self.call(self.getattr(o, '__enter__'), [])
            if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
            exits.append(self.getattr(o, '__exit__'))
        try:
            self.exec_block(s.body, fr)
        except (PyExc, _Return, _Break, _Continue):
            for e in reversed(exits): self.call(e, [None, None, None])
            raise
        for e in reversed(exits): self.call(e, [None, None, None])
    def s_For(self, s, fr):
        from . import loops
        loops.exec_for(self, s, fr)
    def s_While(self, s, fr):
        from . import loops
        loops.exec_while(self, s, fr)

    # -- names ---------------------------------------------------------------------------------------------------
    def load_name(self, n, fr):
        if n in fr.globalnames: return self.load_global(n, fr)
        f = fr
        while f is not None:
            if isinstance(f, dict):
                if n in f: return self.lift(f[n])
                break
            if n in f.locals:
                v = f.locals[n]
                if isinstance(v, Poison): 
                    from . import loops
                    loops.poisoned(self, v)
                return v
            f = f.closure
        return self.load_global(n, fr)

    def load_global(self, n, fr):
        key = (id(fr.globals), n)
        if key in self.globals_written: return self.globals_written[key]
        if n in fr.globals: return self.lift(fr.globals[n])
        if hasattr(builtins, n): return self.lift(getattr(builtins, n))
        throw(NameError, n)

    def store_name(self, n, v, fr):
        if n in fr.globalnames: self.globals_written[(id(fr.globals), n)] = v; return
        if n in fr.nonlocal_:
            f = fr.closure
            while isinstance(f, Frame):
                if n in f.locals: f.locals[n] = v; return
                f = f.closure
        fr.locals[n] = v

    def lift(self, v):
        """live Python value -> interpreter value (immutable view)"""
        from . import models
        return models.lift(self, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals): self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript): self.setitem(self.eval(t.value, fr), self.eval_slice(t.slice, fr), v)
        else: raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n: throw(ValueError, 'unpack')
            return list(v)
        r = self.iter_rope(v)
        out = []
        for _ in range(n):
            u = uncons(r)
            if u is None: throw(ValueError, 'not enough values to unpack')
            out.append(u[0]); r = u[1]
        if uncons(r) is not None: throw(ValueError, 'too many values to unpack')
        return out

    def mangle(self, attr, fr):
        if attr.startswith('__') and not attr.endswith('__') and fr.clsname: return '_%s%s' % (fr.clsname.lstrip('_'), attr)
        return attr

    # -- truth -----------------------------------------------------------------------------------------------------
    def truth_cond(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, SBool): return v
        if v is None: return False
        if isinstance(v, (int, float)): return bool(v)
        if isinstance(v, SInt): return cmp('!=', v, 0)
        if isinstance(v, SReal): return cmp('!=', v.num, 0)
        if is_str(v): return cmp('>', seq_len(str_seq(v)), 0)
        if isinstance(v, (VBytes, VList)): return cmp('>', seq_len(v.seq), 0)
        if isinstance(v, (VDict, VSet)): return len(v.items) > 0
        if isinstance(v, (tuple, bytes, bytearray, dict, list, set, frozenset)): return len(v) > 0
        h = getattr(v, 'vtruth', None)
        if h is not None: return h()
        if isinstance(v, VObj):
            if any('__bool__' in k.__dict__ for k in v.cls.__mro__ if k is not object): raise Unsupported('__bool__')
            for k in v.cls.__mro__:
                if '__len__' in k.__dict__:
                    return cmp('>', self.call(Bound(v, k.__dict__['__len__']), []), 0)
            return True
        if isinstance(v, Poison): raise Unsupported('stale value')
        return True

    def truth(self, v): return ctx().branch(self.truth_cond(v))

    # -- expressions -------------------------------------------------------------------------------------------------
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr): return self.load_name(e.id, fr)
    def e_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))
    def e_List(self, e, fr): return VList(lit(self.elts(e.elts, fr)))
    def e_Set(self, e, fr): return VSet(self.elts(e.elts, fr))
    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out.extend(self.list_items(self.eval(x.value, fr)))
            else: out.append(self.eval(x, fr))
        return out
    def e_Dict(self, e, fr):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None: raise Unsupported('dict unpacking')
            self.setitem(d, self.eval(k, fr), self.eval(v, fr))
        return d
    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)
    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i < len(e.values) - 1:
                t = self.truth(v)
                if t != isand: return v
        return v
    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_cond(v)
            return bnot(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SReal): return SReal(sub(0, v.num), v.den)
            if is_intlike(v): return sub(0, v if is_int(v) else SInt(zi(v)))
            return self.binop(ast.Mult(), v, -1)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert) and is_int(v): return sub(-1, v)
        raise Unsupported('unary operator')
    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))
    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1: return c
            res = c
            if not self.truth(c): return False
            left = right
        return res
    def e_Lambda(self, e, fr):
        return Closure(e, fr, [self.eval(d, fr) for d in e.args.defaults], {}, '<lambda>')
    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr); self.assign(e.target, v, fr); return v
    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))
    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval_slice(e.slice, fr))
    def eval_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.eval(s.lower, fr) if s.lower else None, self.eval(s.upper, fr) if s.upper else None,
                         self.eval(s.step, fr) if s.step else None)
        return self.eval(s, fr)
    def e_Slice(self, e, fr): return self.eval_slice(e, fr)
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.globals:
            from . import models
            return models.make_super(self, [self.eval(a, fr) for a in e.args], fr)
        f = self.eval(e.func, fr)
        args = self.elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                for kk, vv in v.items: kwargs[kk] = vv
            else: kwargs[k.arg] = v
        return self.call(f, args, kwargs, e)
    def e_JoinedStr(self, e, fr):
        from . import models
        out = EMPTY
        for v in e.values:
            if isinstance(v, ast.Constant): out = out + str_seq(v.value)
            else:
                spec = ''
                if v.format_spec is not None: spec = self.eval(v.format_spec, fr)
                x = self.eval(v.value, fr)
                conv = chr(v.conversion) if v.conversion >= 0 else None
                out = out + str_seq(models.to_format(self, x, spec, conv))
        return mkstr(out)
    def e_ListComp(self, e, fr): return VList(self.comprehension(e, fr))
    def e_GeneratorExp(self, e, fr): return VIter(self.comprehension(e, fr))
    def e_SetComp(self, e, fr):
        s = self.comprehension(e, fr)
        if not s.concrete: raise Unsupported('symbolic set comprehension')
        from . import models
        return models.make_set(self, s.items)
    def e_DictComp(self, e, fr):
        d = VDict()
        g = e.generators[0]
        if len(e.generators) != 1: raise Unsupported('nested comprehension')
        f2 = self.comp_frame(fr)
        for x in self.list_items(self.eval(g.iter, fr)):
            self.assign(g.target, x, f2)
            if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                self.setitem(d, self.eval(e.key, f2), self.eval(e.value, f2))
        return d
    def comp_frame(self, fr):
        f2 = Frame(fr.globals, fr, fr.qualname, fr.clsname)
        return f2

    def comprehension(self, e, fr, gi=0, f2=None):
        g = e.generators[gi]
        f2 = f2 or self.comp_frame(fr)
        it = self.get_iter(self.eval(g.iter, fr if gi == 0 else f2))
        if gi + 1 < len(e.generators):
            out = EMPTY
            for x in self.iter_items(it):
                self.assign(g.target, x, f2)
                if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                    out = out + self.comprehension(e, fr, gi + 1, f2)
            return out
        rest, wrap = it.rest, it.wrap
        it.rest = EMPTY

        def one(x):
            f3 = self.comp_frame(fr)
            f3.locals.update(f2.locals)
            self.assign(g.target, x, f3)
            for c in g.ifs:
                if not self.truth(self.eval(c, f3)): return None
            return (self.eval(e.elt, f3),)
        out = []
        ident = proj = False
        if isinstance(e.elt, ast.Name) and not g.ifs:
            if isinstance(g.target, ast.Name): ident = g.target.id == e.elt.id
            elif isinstance(g.target, ast.Tuple) and getattr(it, 'pairsecond', None) is not None and \
                    isinstance(g.target.elts[1], ast.Name) and g.target.elts[1].id == e.elt.id:
                return it.pairsecond
        for p in rest.pieces:
            if isinstance(p, Lit):
                vals = []
                for x in p.items:
                    r = one(wrap(x))
                    if r is not None: vals.append(r[0])
                out.append(Lit(vals)); continue
            if ident and getattr(it, 'plain', False):
                out.append(p); continue
            if not isinstance(p, Gen) or g.ifs:
                raise Unsupported('comprehension over %r' % (p,))
            if ctx().branch(cmp('<', p.lo, p.hi)) is False: continue
            # probe path: an arbitrary element must not raise
            if ctx().choice([None, None]) == 0:
                k = ctx().fresh_int('ck', p.lo); ctx().assume(cmp('<', k, p.hi))
                one(wrap(p.base.elem(k)))
                raise PathEnd()
            base = p.base
            memo = {}

            def elem(k, base=base):
                kk = z3.simplify(zi(k)).sexpr()
                if kk not in memo: memo[kk] = one(wrap(base.elem(k)))[0]
                return memo[kk]
            out.append(Gen(CompBase('comp', elem, length=base.length), p.lo, p.hi))
        return Seq(out)

    # -- iteration ---------------------------------------------------------------------------------------------------
    def get_iter(self, v):
        if isinstance(v, VIter): return v
        if is_str(v): return VIter(str_seq(v), lambda e: mkstr(lit([e])))
        if isinstance(v, (VBytes, VList)):
            it = VIter(v.seq); it.plain = True; it.origins = ((v, v._seq),); return it
        if isinstance(v, (bytes, bytearray, list, tuple)):
            it = VIter(lit([self.lift(x) for x in v])); it.plain = True; return it
        if isinstance(v, VDict): return VIter(lit([k for k, _ in v.items]))
        if isinstance(v, dict): return VIter(lit([self.lift(k) for k in v]))
        if isinstance(v, VSet): return VIter(lit(v.items))
        if isinstance(v, (set, frozenset)): return VIter(lit([self.lift(x) for x in v]))
        if isinstance(v, VRange):
            s = v.seq()
            if s is None: raise Unsupported('long range')
            return VIter(s)
        if hasattr(v, 'viter'): return v.viter(self)
        if isinstance(v, VObj):
            for k in v.cls.__mro__:
                if '__iter__' in k.__dict__: return self.get_iter(self.call(Bound(v, k.__dict__['__iter__']), []))
        throw(TypeError, 'object is not iterable')

    def next_of(self, it):
        """(value,) or None when exhausted"""
        if hasattr(it, 'vnext'): return it.vnext(self)
        if isinstance(it, VEnum): return it.pop(self)
        u = uncons(it.rest)
        if u is None:
            if it.rest.pieces: it.rest = EMPTY
            return None
        it.rest = u[1]
        return (it.wrap(u[0]),)

    def iter_items(self, it):
        """generator over the values of an iterator of decidable length"""
        n = 0
        while True:
            r = self.next_of(it)
            if r is None: return
            n += 1
            if n > 5000: raise Unsupported('unbounded iteration')
            yield r[0]

    def list_items(self, v):
        if isinstance(v, tuple): return list(v)
        it = self.get_iter(v)
        return [x for x in self.iter_items(VIter(it.rest, it.wrap) if not hasattr(it, 'vnext') else it)]

    def iter_rope(self, v):
        """rope of the values of an iterable (consumes iterators)"""
        it = self.get_iter(v)
        if hasattr(it, 'vnext'): return lit(list(self.iter_items(it)))
        r = it.rest
        if isinstance(v, VIter): it.rest = EMPTY
        if is_str(v): return chars_of(r)
        if isinstance(v, (VBytes, VList)): return r
        out = []
        for p in r.pieces:
            if isinstance(p, Lit): out.append(Lit([it.wrap(x) for x in p.items]))
            elif getattr(it, 'plain', False): out.append(p)
            elif isinstance(p, Gen):
                base, wrap = p.base, it.wrap
                out.append(Gen(CompBase('wrap', lambda k, b=base: wrap(b.elem(k)), key=('wrap', base, id(wrap)), length=base.length), p.lo, p.hi) )
            else: raise Unsupported('materialising %r' % (p,))
        return Seq(out)

    def byte_rope(self, v):
        """rope of byte values (ValueError/TypeError as bytearray would)"""
        s = bytes_seq(v) if isinstance(v, (VBytes, bytes, bytearray)) else self.iter_rope(v)
        if isinstance(v, (VBytes, bytes, bytearray)): return s
        for p in s.pieces:
            if isinstance(p, Lit):
                for x in p.items: self.check_byte(x)
            elif isinstance(p, Gen):
                if ctx().branch(cmp('<', p.lo, p.hi)) and ctx().choice([None, None]) == 0:
                    k = ctx().fresh_int('bk', p.lo); ctx().assume(cmp('<', k, p.hi))
                    self.check_byte(p.base.elem(k)); raise PathEnd()
            # Flat pieces produce bytes by construction of their function
        return s

    def check_byte(self, x):
        if isinstance(x, (bool, SBool)): return
        if not is_int(x): throw(TypeError, 'an integer is required')
        if not ctx().branch(band(cmp('>=', x, 0), cmp('<', x, 256))): throw(ValueError, 'byte must be in range(0, 256)')

    # -- delegated to models --------------------------------------------------------------------------------------
    def binop(self, op, a, b):
        from . import models
        return models.binop(self, op, a, b)
    def compare(self, op, a, b):
        from . import models
        return models.compare(self, op, a, b)
    def getattr(self, o, n):
        from . import models
        return models.getattribute(self, o, n)
    def setattr(self, o, n, v):
        from . import models
        return models.setattribute(self, o, n, v)
    def getitem(self, o, k):
        from . import models
        return models.getitem(self, o, k)
    def setitem(self, o, k, v):
        from . import models
        return models.setitem(self, o, k, v)
    def delitem(self, o, k):
        from . import models
        return models.delitem(self, o, k)


def own_nodes(fn):
    """nodes of a function body excluding nested functions"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        stack.extend(ast.iter_child_nodes(n))
