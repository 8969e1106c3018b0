"""Loop cuts.  A loop over explicit elements is unrolled; at a piece of symbolic length the loop is cut with its annotation
(an inductive invariant, checked on entry and after one arbitrary iteration), see Loop.  A loop without annotation gets the
weakest one: every local the body assigns becomes unusable ("stale") and the body may not write to older heap objects."""
import ast
from . import values
from .core import *
from .seq import *
from .values import *
from .interp import _Return, _Break, _Continue, own_nodes, Frame

ANNOT = {}          # (qualname, ordinal) -> annotation function inv(L, p) (for) / inv(L) (while)


def annotate(qualname, ordinal=0):
    def deco(f):
        ANNOT[(qualname, ordinal)] = f
        return f
    return deco


def poisoned(I, v):
    raise Unsupported('value of %s after an abstracted loop' % v.name)


def ordinal(I, s, fr):
    n = getattr(s, '_ordinal', None)
    if n is None:
        root = s
        while not isinstance(root, (ast.FunctionDef, ast.Lambda)): root = root._parent
        loops = sorted([x for x in own_nodes(root) if isinstance(x, (ast.For, ast.While))], key=lambda x: (x.lineno, x.col_offset))
        for i, x in enumerate(loops): x._ordinal = i
        n = s._ordinal
    return n


def assigned(s):
    """locals the loop may assign"""
    out = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        elif isinstance(n, ast.FunctionDef): out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)): out |= {(a.asname or a.name) for a in n.names}
    return out


def read_names(s):
    root = s
    while not isinstance(root, (ast.FunctionDef, ast.Lambda)): root = root._parent
    return {n.id for n in ast.walk(root) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}


class Loop:
    """Interface of annotations.  The same annotation text is run in three modes: 'entry' and 'back' prove the stated facts
    of the current state, 'havoc' creates an arbitrary state in which they hold."""
    def __init__(self, I, fr, it, label, tail):
        self.I, self.fr, self.it, self.label, self.tail = I, fr, it, label, tail
        self.mode = None
        self.covered = set()          # (oid, field) the body may write
        self.mentioned = set()
        self.entry = dict(fr.locals)
        self.store = {}
        self.var0 = None

    def entry_val(self, name):
        if name not in self.entry: raise Unsupported('loop annotation of %s: no local %s' % (self.label, name))
        return self.entry[name]

    def local(self, name):
        if name not in self.fr.locals: raise Unsupported('loop annotation of %s: no local %s' % (self.label, name))
        return self.fr.locals[name]

    def remember(self, key, make):
        """ghost value computed once, at loop entry"""
        if key not in self.store: self.store[key] = make()
        return self.store[key]

    def eq(self, name, value):
        """local == value"""
        self.mentioned.add(name)
        if self.mode == 'havoc': self.fr.locals[name] = value
        else:
            cur = self.local(name)
            if isinstance(cur, Poison): raise Unsupported('loop annotation: stale ' + name)
            if (is_intlike(cur) != is_intlike(value)):
                ctx().prove(False, '%s: %s (kind of value)' % (self.lab(), name)); return
            prove_eq(cur, value, '%s: %s' % (self.lab(), name))

    def lab(self): return 'loop %s invariant (%s)' % (self.label, 'on entry' if self.mode == 'entry' else 'preserved')

    def any(self, name, lo=None, hi=None):
        """an integer local of any value within bounds"""
        self.mentioned.add(name)
        if self.mode == 'havoc':
            v = ctx().fresh_int('l_' + name, lo, hi)
            self.fr.locals[name] = v
            return v
        v = self.local(name)
        if not is_intlike(v): raise Unsupported('loop annotation: %s is not an integer' % name)
        if lo is not None: ctx().prove(cmp('>=', v, lo), '%s: %s >= %s' % (self.lab(), name, lo))
        if hi is not None: ctx().prove(cmp('<=', v, hi), '%s: %s <= %s' % (self.lab(), name, hi))
        return v

    def anybool(self, name):
        self.mentioned.add(name)
        if self.mode == 'havoc':
            v = ctx().fresh_bool('l_' + name); self.fr.locals[name] = v; return v
        v = self.local(name)
        if not isinstance(v, (bool, SBool)): raise Unsupported('loop annotation: %s is not a Boolean' % name)
        return v

    def seq(self, name, seq):
        """contents of the list/bytearray/iterator a local refers to (same object throughout)"""
        self.mentioned.add(name)
        o = self.entry_val(name)
        if not isinstance(o, (VList, VBytes, VIter)): raise Unsupported('loop annotation: %s is not a list' % name)
        self.objseq(o, seq, name)
        if self.mode != 'havoc' and self.local(name) is not o: raise Unsupported('loop annotation: %s was rebound' % name)

    def objseq(self, o, seq, name='list'):
        f = 'rest' if isinstance(o, VIter) else 'seq'
        self.covered.add((o.oid, f))
        if self.mode == 'havoc': setattr(o, '_' + f, seq)
        else:
            conds = seq_eq(refold(getattr(o, f)), seq, val_eq)
            lab = '%s: contents of %s' % (self.lab(), name)
            if conds is None: ctx().prove(False, lab + ' (length)')
            else: ctx().prove(band(*[x[1] if isinstance(x, tuple) else x for x in conds]) if conds else True, lab)

    def attr(self, o, n, value):
        self.covered.add((o.oid, n))
        if self.mode == 'havoc': o._attrs[n] = value
        else: prove_eq(o.get(n), value, '%s: .%s' % (self.lab(), n))

    def anyattr(self, o, n, lo=None, hi=None):
        self.covered.add((o.oid, n))
        if self.mode == 'havoc':
            v = ctx().fresh_int('l_' + n, lo, hi); o._attrs[n] = v; return v
        v = o.get(n)
        if not is_intlike(v): raise Unsupported('loop annotation: %s is not an integer' % n)
        if lo is not None: ctx().prove(cmp('>=', v, lo), '%s: .%s >= %s' % (self.lab(), n, lo))
        if hi is not None: ctx().prove(cmp('<=', v, hi), '%s: .%s <= %s' % (self.lab(), n, hi))
        return v

    def fact(self, cond, label):
        if self.mode == 'havoc': ctx().assume(cond if not isinstance(cond, bool) else mb(cond))
        else: ctx().prove(cond, '%s: %s' % (self.lab(), label))

    def anychars(self, name, length=None):
        """a list of single characters, of any content"""
        self.mentioned.add(name)
        o = self.entry_val(name)
        if not isinstance(o, VList): raise Unsupported('loop annotation: %s is not a list' % name)
        self.covered.add((o.oid, 'seq'))
        if self.mode == 'havoc':
            n = ctx().fresh_int('n_' + name, 0)
            o._seq = Seq((Gen(CharsBase(SymBase('l_' + name, n, lambda v, k: band(cmp('<=', 0, v), cmp('<', v, 0x110000)))), 0, n),))
            return
        if self.local(name) is not o: raise Unsupported('loop annotation: %s was rebound' % name)
        for p in o.seq.pieces:
            if isinstance(p, Lit):
                for x in p.items: ctx().prove(is_str(x) and cmp('==', seq_len(str_seq(x)), 1), '%s: %s holds characters' % (self.lab(), name))
            elif not (isinstance(p, Gen) and isinstance(p.base, CharsBase)): raise Unsupported('loop annotation: contents of %s' % name)

    def anybytes(self, name):
        """a bytearray, or list of octets, of any content"""
        self.mentioned.add(name)
        o = self.entry_val(name)
        if not isinstance(o, (VBytes, VList)): raise Unsupported('loop annotation: %s is not a bytearray' % name)
        self.covered.add((o.oid, 'seq'))
        if self.mode == 'havoc':
            n = ctx().fresh_int('n_' + name, 0)
            o._seq = Seq((Gen(SymBase('l_' + name, n, lambda v, k: band(cmp('<=', 0, v), cmp('<=', v, 255))), 0, n),))
            return
        if self.local(name) is not o: raise Unsupported('loop annotation: %s was rebound' % name)
        if isinstance(o, VList):
            for p in o.seq.pieces:
                if isinstance(p, Lit):
                    for x in p.items: ctx().prove(is_int(x) and band(cmp('<=', 0, x), cmp('<=', x, 255)), '%s: %s holds octets' % (self.lab(), name))
                elif not (isinstance(p, Gen) and isinstance(p.base, SymBase)): raise Unsupported('loop annotation: contents of %s' % name)

    def anyiter(self, name, base, n, lo=0):
        """an iterator that has consumed some part of base[lo..n)"""
        self.mentioned.add(name)
        o = self.entry_val(name)
        if not isinstance(o, VIter): raise Unsupported('loop annotation: %s is not an iterator' % name)
        self.covered.add((o.oid, 'rest'))
        if self.mode == 'havoc':
            q = ctx().fresh_int('l_pos', lo, n)
            o._rest = Seq((Gen(base, q, n),)); return
        for p in o.rest.pieces:
            if not (isinstance(p, Gen) and p.base is base and len(o.rest.pieces) == 1 and keys_same(p.hi, n)): raise Unsupported('loop annotation: position of %s' % name)
            ctx().prove(band(cmp('<=', lo, p.lo), cmp('<=', p.lo, n)), '%s: position of %s' % (self.lab(), name))

    def newlist(self, name, seq):
        """a local list, possibly rebound in the body, with the given contents"""
        self.mentioned.add(name)
        if self.mode == 'havoc':
            o = VList(seq)
            self.fr.locals[name] = o
            self.covered.add((o.oid, 'seq')); return
        cur = self.local(name)
        if not isinstance(cur, VList): raise Unsupported('loop annotation: %s is not a list' % name)
        prove_eq(VList(refold(cur.seq)), VList(seq), '%s: contents of %s' % (self.lab(), name))

    def cover(self, o, field): self.covered.add((o.oid, field))

    def variant(self, v):
        if self.mode == 'havoc': self.var0 = v
        elif self.mode == 'back':
            ctx().prove(band(cmp('>=', self.var0, 0), cmp('<', v, self.var0)), 'loop %s terminates (variant decreases)' % self.label)


def loop_write(obj, field):
    for (mark, covered, label) in ctx().anchors['loopstack']:
        if obj.oid < mark and (obj.oid, field) not in covered:
            raise Unsupported('loop %s writes to %s.%s, which its annotation does not cover' % (label, type(obj).__name__, field))


values.loop_write = loop_write


def stack(): return ctx().anchors.setdefault('loopstack', [])


def run_iteration(I, s, fr, L):
    """'next' | 'break'; loop-stack protected"""
    st = stack()
    st.append((ctx().objcount, L.covered, L.label))
    depth = len(st)
    try:
        I.exec_block(s.body, fr)
    except _Continue: pass
    except _Break: return 'break'
    finally: del st[depth - 1:]
    return 'next'


def plain_iteration(I, s, fr):
    try: I.exec_block(s.body, fr)
    except _Continue: pass
    except _Break: return 'break'
    return 'next'


def exec_for(I, s, fr):
    src = I.eval(s.iter, fr)
    it = I.get_iter(src)
    if hasattr(it, 'vnext'):
        while True:
            r = it.vnext(I)
            if r is None: break
            I.assign(s.target, r[0], fr)
            if plain_iteration(I, s, fr) == 'break': return
        I.exec_block(s.orelse, fr); return
    en = it
    if isinstance(it, VEnum):
        if isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and s.target.elts[0].id not in read_names(s): it.dead = True
        it = it.src

    def unchanged():
        if any(o._seq is not q for o, q in it.origins): raise Unsupported('list changed while iterating over it')
    n = 0
    while it.rest.pieces:
        unchanged()
        head = it.rest.pieces[0]
        if isinstance(head, Lit) or (isinstance(head, (Gen, Flat)) and isinstance(head.lo, int) and isinstance(head.hi, int) and head.hi - head.lo <= 32):
            r = I.next_of(en)
            if r is None: break
            n += 1
            if n > 3000: raise Unsupported('long loop')
            I.assign(s.target, r[0], fr)
            if plain_iteration(I, s, fr) == 'break': return
            continue
        if not isinstance(head, (Gen, Flat)): raise Unsupported('loop over %r' % (head,))
        if cut_for(I, s, fr, it, head, en) == 'break': return
    unchanged()
    I.exec_block(s.orelse, fr)


def havoc_locals(L, s, fr):
    for n in assigned(s):
        if n not in L.mentioned: fr.locals[n] = Poison(n)


def piece_at(head, p):
    return Gen(head.base, p, head.hi) if isinstance(head, Gen) else Flat(head.fn, head.base, p, head.hi)


def cut_for(I, s, fr, it, head, en):
    c = ctx()
    key = (fr.qualname, ordinal(I, s, fr))
    ann = c.anchors.get('annot', {}).get(key) or ANNOT.get(key)
    label = '%s#%d' % key
    if not c.branch(cmp('<', head.lo, head.hi)):
        it.rest = en.left = Seq(it.rest.pieces[1:]); return 'next'
    tail = it.rest.pieces[1:]
    L = Loop(I, fr, it, label, tail)
    if any(n in fr.nonlocal_ or n in fr.globalnames for n in assigned(s)): raise Unsupported('loop assigns non-local names')
    L.covered.add((it.oid, 'rest'))
    L.base, L.lo, L.hi, L.head = head.base, head.lo, head.hi, head
    L.mode = 'entry'
    if ann: ann(L, head.lo)
    else: c.anchors['lossy'] = True
    p = c.fresh_int('p', head.lo, head.hi)
    L.mode = 'havoc'
    it._rest = en.left = Seq((piece_at(head, p),) + tail)
    if ann: ann(L, p)
    havoc_locals(L, s, fr)
    if c.branch(cmp('<', p, head.hi)):
        c.notes.append('arbitrary iteration of %s' % label)
        r = I.next_of(en)
        L.p = p
        I.assign(s.target, r[0], fr)
        if run_iteration(I, s, fr, L) == 'break': return 'break'
        # state at the next iteration
        L.mode = 'back'
        if en is not it: en.settled()
        rest = it.rest
        if rest.pieces and isinstance(rest.pieces[0], (Gen, Flat)) and rest.pieces[0].base is head.base and rest.pieces[1:] == tail: q = rest.pieces[0].lo
        elif rest.pieces == tail: q = head.hi
        else:
            raise Unsupported('loop %s leaves its iterator in an unexpected position' % label)
        if rest.pieces == tail and not c.entails(cmp('==', q, head.hi)): raise Unsupported('loop position')
        c.prove(band(cmp('<', p, q), cmp('<=', q, head.hi)), 'loop %s makes progress' % label)
        if ann: ann(L, q)
        raise PathEnd()
    c.notes.append('exit of %s' % label)
    it.rest = en.left = Seq(tail)
    return 'next'


def exec_while(I, s, fr):
    c = ctx()
    key = (fr.qualname, ordinal(I, s, fr))
    ann = c.anchors.get('annot', {}).get(key) or ANNOT.get(key)
    label = '%s#%d' % key
    if ann is None:
        n = 0
        while I.truth(I.eval(s.test, fr)):
            n += 1
            if n > 64: raise Unsupported('while loop %s without annotation' % label)
            if plain_iteration(I, s, fr) == 'break': return
        I.exec_block(s.orelse, fr); return
    L = Loop(I, fr, None, label, ())
    L.mode = 'entry'; ann(L)
    L.mode = 'havoc'; ann(L)
    havoc_locals(L, s, fr)
    st = stack()
    st.append((c.objcount, L.covered, label))
    depth = len(st)
    try:
        t = I.truth(I.eval(s.test, fr))
        if not t: pass
        else:
            c.notes.append('arbitrary iteration of %s' % label)
            try: I.exec_block(s.body, fr)
            except _Continue: pass
            except _Break: return
            L.mode = 'back'; ann(L)
            raise PathEnd()
    finally: del st[depth - 1:]
    c.notes.append('exit of %s' % label)
    I.exec_block(s.orelse, fr)
