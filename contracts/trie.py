"""The completion trie (C24; longestCommonPrefix also for C25).  A node denotes a map from texts to values; a node is unfolded one level
(own key, value, table of children) and the contracts of the recursive calls speak of the maps the children denote.

Texts are elements of a free monoid, given by the functions head/tail/cons/len and, for an unknown prefix p, `starts` and `rest`
(x = p + rest(p, x)); only the axioms instantiated below are used."""
from gsmtermlib import trie as TR
from .lib import *

T = 'gsmtermlib.trie.Trie.'
Z = z3.IntSort()
HEAD, TAIL, LEN = (z3.Function('w_' + n, Z, Z) for n in ('head', 'tail', 'len'))
CONS, REST = z3.Function('w_cons', Z, Z, Z), z3.Function('w_rest', Z, Z, Z)
STARTS = z3.Function('w_starts', Z, Z, z3.BoolSort())
E = z3.IntVal(0)         # the empty text


# -- texts -----------------------------------------------------------------------------------------------------------------------
def once(key):
    reg = ctx().anchors.setdefault('w_axioms', set())
    if key in reg: return False
    reg.add(key); return True


def touch(z):
    """what is known of any text"""
    if not once(('t', z.sexpr())): return z
    t = TAIL(z)
    ctx().assume(mb(z3.And(LEN(z) >= 0, LEN(t) >= 0, (LEN(z) == 0) == (z == E), (LEN(t) == 0) == (t == E),
                           z3.Implies(z != E, z3.And(z == CONS(HEAD(z), t), LEN(z) == 1 + LEN(t), HEAD(z) >= 0)))))
    return z


def cons(c, z):
    r = CONS(c, z)
    if once(('c', r.sexpr())): ctx().assume(mb(z3.And(HEAD(r) == c, TAIL(r) == z, r != E)))
    return touch(r)


def same(a, b): return mb(touch(a) == touch(b))


def starts(p, x):
    """does x start with p: SBool, one step unfolded"""
    if once(('s', p.sexpr(), x.sexpr())):
        touch(p); touch(x)
        s, r = STARTS(p, x), REST(p, x)
        touch(r)
        ctx().assume(mb(z3.And(z3.Implies(p == E, z3.And(s, r == x)), (x == p) == z3.And(s, r == E),
                               z3.Implies(z3.And(p != E, x == E), z3.Not(s)),
                               z3.Implies(z3.And(p != E, x != E), z3.And(s == z3.And(HEAD(p) == HEAD(x), STARTS(TAIL(p), TAIL(x))), r == REST(TAIL(p), TAIL(x)))))))
    return SBool(STARTS(p, x))


class Word:
    """a text: known characters and unknown texts, in order"""
    vtype = str
    def __init__(self, atoms): self.atoms = [a for a in atoms if not (a[0] == 'b' and a[1].eq(E))]

    @property
    def z(self):
        if len(self.atoms) == 1 and self.atoms[0][0] == 'b': return self.atoms[0][1]
        out = E
        for i, (k, x) in enumerate(reversed(self.atoms)):
            if k == 'b':
                if i: raise Unsupported('concatenated text')
                out = x
            else: out = cons(x, out)
        return out

    def empty(self):
        if not self.atoms: return True
        if any(k == 'c' for k, _ in self.atoms): return False
        r = True
        for _, x in self.atoms: r = band(r, same(x, E))
        return r

    def vis_none(self): return False
    def vtruth(self): return bnot(self.empty())
    def vlen(self): return mi(LEN(touch(self.z)))
    def veq(self, o):
        if o is None: return False
        o = word(o)
        return same(self.z, o.z)
    def vgetitem(self, I, k):
        c, z = ctx(), self.z
        touch(z)
        if isinstance(k, slice):
            if k.step is None and k.start == 1 and k.stop is None: return EMPTYW if c.branch(same(z, E)) else Word([('b', touch(TAIL(z)))])
            if k.step is None and k.start in (None, 0) and k.stop == 1: return EMPTYW if c.branch(same(z, E)) else Word([('c', HEAD(z))])
            if k.step is None and k.start in (None, 0) and k.stop is None: return self
            raise Unsupported('slice of a text')
        if k != 0 or isinstance(k, bool): raise Unsupported('character of a text')
        if c.branch(same(z, E)): throw(IndexError, 'string index out of range')
        return Word([('c', HEAD(z))])
    def vbinop(self, I, op, o, swapped):
        import ast
        if not isinstance(op, ast.Add): raise Unsupported('operator on texts')
        if o is None: throw(TypeError, 'text + None')
        o = word(o)
        return Word(o.atoms + self.atoms if swapped else self.atoms + o.atoms)
    def vgetattr(self, I, n):
        if n == 'startswith': return Model(n, lambda I, a, k: starts(word(a[0]).z, self.z))
        if n == 'endswith': return Model(n, self.endswith)
        raise Unsupported('str.' + n)
    def endswith(self, I, a, k):
        f, p = z3.Function('w_ends', Z, Z, z3.BoolSort()), word(a[0]).z     # of which is known: every text ends with nothing and with itself
        touch(p); touch(self.z)
        ctx().assume(mb(z3.And(z3.Implies(z3.Or(p == E, p == self.z), f(p, self.z)), z3.Implies(LEN(p) > LEN(self.z), z3.Not(f(p, self.z))))))
        return SBool(f(p, self.z))


EMPTYW = Word([])


def word(x):
    if isinstance(x, Word): return x
    if isinstance(x, str): return Word([('c', z3.IntVal(ord(c))) for c in x])
    raise Unsupported('text %r' % (x,))


def code(k):
    """the character a one-character text consists of"""
    k = word(k)
    if len(k.atoms) == 1 and k.atoms[0][0] == 'c': return k.atoms[0][1]
    raise Unsupported('slot of something that is not a character')


def free(name): return Word([('b', touch(ctx().fresh_int(name).z))])


def strip(x, w):
    """z of the rest of text x (a z) after w, or None if x does not start with w; forks"""
    c = ctx()
    for k, v in w.atoms:
        touch(x)
        if k == 'c':
            if not c.branch(mb(z3.And(x != E, HEAD(x) == v))): return None
            x = touch(TAIL(x))
        else:
            if not c.branch(starts(v, x)): return None
            x = touch(REST(v, x))
    return x


def equals(x, w):
    r = strip(x, w)
    return r is not None and ctx().branch(same(r, E))


# -- nodes -----------------------------------------------------------------------------------------------------------------------
class Keys:
    def __init__(self, t): self.t = t
    def vcontains(self, I, k): return self.t.vcontains(I, k)
    def viter(self, I): return I.get_iter(VList(Seq((Gen(CompBase('slotkeys', lambda k: Word([('c', self.t.elem(k)[0])]), length=self.t.n), 0, self.t.size()),))))
    def vlen(self): return self.t.size()


class Slots:
    """the table of children of the node under contract: n children under different characters; those looked at are materialised"""
    vtype = dict
    def __init__(self, w):
        self.w, c = w, ctx()
        self.n = c.fresh_int('n_slots', 0, MAXLEN)
        self.key, self.pos, self.sum = (z3.Function(c.name(n), Z, Z) for n in ('slotkey', 'slotpos', 'slotsum'))
        self.has = z3.Function(c.name('slotin'), Z, z3.BoolSort())
        c.assume(mb(self.sum(0) == 0))
        self.seen, self.writes = [], []

    def elem(self, k):
        c = ctx()
        for (j, ch, o) in self.seen:
            if keys_same(j, k) or c.branch(cmp('==', j, k)): return (ch, o)
        zk = z3.simplify(zi(k))
        ch = self.key(zk)
        c.assume(band(mb(self.has(ch)), cmp('==', mi(self.pos(ch)), k), mb(ch >= 0)))
        o = Node(self.w, 'child%d' % len(self.seen), False)
        self.seen.append((k, ch, o))
        c.assume(cmp('==', mi(self.sum(z3.simplify(zk + 1))), add(mi(self.sum(zk)), o.oldsize())))
        return (ch, o)

    def original(self, ch):
        c = ctx()
        if not c.branch(mb(self.has(ch))): return None
        p = mi(self.pos(ch))
        c.assume(band(cmp('<=', 0, p), cmp('<', p, self.n), mb(self.key(zi(p)) == ch)))
        return self.elem(p)[1]

    def look(self, ch, old=False):
        if not old:
            for c2, o in reversed(self.writes):
                if c2.eq(ch) or ctx().branch(mb(c2 == ch)): return o
        return self.original(ch)

    def size(self):
        n = self.n
        for ch, o, was in self.net(): n = add(n, (o is not None) - (was is not None))
        return n

    def net(self):
        """[(character, child now, child before)] of the slots written"""
        out = []
        for ch, o in self.writes:
            for i, (c2, _, was) in enumerate(out):
                if c2.eq(ch) or ctx().branch(mb(c2 == ch)): out[i] = (c2, o, was); break
            else: out.append((ch, o, self.original(ch)))
        return out

    def total(self, old):
        n = mi(self.sum(zi(self.n)))
        if old: return n
        net = self.net()
        for ch, o, was in net:
            if o is not None: n = add(n, self.w.size(o))
            if was is not None: n = sub(n, was.oldsize())
        for (k, ch, o) in self.seen:
            if not any(was is o for _, _, was in net): n = sub(add(n, self.w.size(o)), o.oldsize())
        return n

    def vtruth(self): return cmp('>', self.size(), 0)
    def vlen(self): return self.size()
    def vcontains(self, I, k): return self.look(code(k)) is not None if self.writes else mb(self.has(code(k)))
    def vgetitem(self, I, k):
        o = self.look(code(k))
        if o is None: throw(KeyError, 'slot')
        return o
    def vsetitem(self, I, k, v): self.original(code(k)); self.writes.append((code(k), v))
    def vdelitem(self, I, k):
        if self.look(code(k)) is None: throw(KeyError, 'slot')
        self.writes.append((code(k), None))
    def viter(self, I): return Keys(self).viter(I)
    def vgetattr(self, I, n):
        if n in ('values', 'itervalues'): return Model(n, lambda I, a, k: VList(Seq((Gen(CompBase('children', lambda k: self.elem(k)[1], length=self.n), 0, self.size()),))))
        if n in ('items', 'iteritems'):
            def item(k): ch, o = self.elem(k); return (Word([('c', ch)]), o)
            return Model(n, lambda I, a, k: VList(Seq((Gen(CompBase('slots', item, length=self.n), 0, self.size()),))))
        if n in ('keys', 'iterkeys'): return Model(n, lambda I, a, k: Keys(self))
        if n == 'get':
            def get(I, a, k):
                o = self.look(code(a[0]))
                return o if o is not None else (a[1] if len(a) > 1 else None)
            return Model(n, get)
        raise Unsupported('dict.' + n)


class Below:
    """the children of a child: only their number and the map they denote together are known"""
    vtype = dict
    def __init__(self, o): self.o = o
    def vtruth(self): return cmp('>', self.o.nslots, 0)
    def vlen(self): return self.o.nslots
    def vgetattr(self, I, n): raise Unsupported('children of a child')


class Node(VObj):
    """a node satisfying the invariant: its key is None, '' or a text; in the last case it has no children"""
    partial = True
    def __init__(self, w, name, unfolded):
        super().__init__(TR.Trie, {})
        c = ctx()
        self.w, self.unfolded, self.gone = w, unfolded, False
        self.B, self.V = z3.Function(c.name(name + '_in'), Z, z3.BoolSort()), z3.Function(c.name(name + '_val'), Z, Z)
        self.kind = None
        if unfolded: self.table = Slots(w); self.nslots = self.table.n
        else: self.table = Below(self); self.nslots = c.fresh_int(name + '_n', 0, MAXLEN); self.below = c.fresh_int(name + '_size', 0)
        self.vsize = None

    def unfold(self):
        if self.kind is not None: return
        c = ctx()
        self.kind = c.choice([None] * 3)
        self.okey = (None, EMPTYW, None)[self.kind]
        self.oval = None if self.kind == 0 else c.fresh_int('nodeval')
        if self.kind == 2:
            self.okey = free('leafkey')
            c.assume(mb(self.okey.z != E)); c.assume(cmp('==', self.nslots, 0))
        if not self.unfolded: c.assume(mb(z3.Implies(zi(self.nslots) == 0, zi(self.below) == 0)))
        self._attrs.update(key=self.okey, value=self.oval)

    def oldsize(self):
        if self.vsize is None: self.vsize = ctx().fresh_int('size', 0) if not self.unfolded else self.structural(True)
        return self.vsize

    def structural(self, old):
        self.unfold()
        key = self.okey if old else self.get('key')
        return add(0 if key is None else 1, self.table.total(old) if self.unfolded else self.below)

    def vgetattr(self, I, n):
        if n not in ('key', 'value', 'slots'): return NotImplemented
        if self.gone: raise Unsupported('contents of a changed node')
        if n == 'slots': return self.table
        self.unfold()
        if not self.unfolded and not getattr(self, 'linked', False):
            self.linked = True
            ctx().assume(cmp('==', self.oldsize(), self.structural(True)))
        return self.get(n)

    def vsetattr(self, I, n, v):
        if n not in ('key', 'value'): raise Unsupported('change of node.' + n)
        if self.gone: raise Unsupported('change of a changed node')
        self.vgetattr(I, 'key'); self.set(n, v)


class Tries:
    def __init__(self, u):
        self.u = u
        self.over = {}       # oid -> [(text, (value,) or None)]: what contracts changed
        self.snap = {}       # oid -> contents before
        self.sizes = {}
        u.c.anchors['world'] = self

    # denotation
    def den(self, o, y, old=False):
        """(value,) or None: what the map of node o has for text y (a z); forks"""
        c = ctx()
        if not old:
            for k, v in reversed(self.over.get(o.oid, [])):
                if c.branch(same(y, k)): return v
        if isinstance(o, Node):
            o.unfold()
            key, val = (o.okey, o.oval) if old else (o.get('key'), o.get('value'))
        else: key, val = self.snap[o.oid] [:2] if o.oid in self.snap else (o.get('key'), o.get('value'))
        touch(y)
        if c.branch(same(y, E)):
            if key is None or not c.branch(word(key).empty()): return None
            return (val,)
        if isinstance(o, Node) and not o.unfolded:
            c.assume(mb(z3.Implies(zi(o.nslots) == 0, z3.Not(o.B(y)))))
            if c.branch(mb(o.B(y))): return (mi(o.V(y)),)
        else:
            ch = HEAD(y)
            child = o.table.look(ch, old) if isinstance(o, Node) else None
            if not isinstance(o, Node):
                d = self.snap[o.oid][2] if o.oid in self.snap else o.get('slots')
                if not isinstance(d, VDict): raise Unsupported('children of a new node')
                for k, x in d.items:
                    if c.branch(mb(code(k) == ch)): child = x
            if child is not None: return self.den(child, touch(TAIL(y)), old)
        if key is not None and c.branch(same(word(key).z, y)): return (val,)
        return None

    def size(self, o):
        if o.oid in self.sizes: return self.sizes[o.oid]
        if isinstance(o, Node):
            if o.kind is None and not o.unfolded: return o.oldsize()
            if not o.unfolded and o.get('key') is o.okey: return o.oldsize()
            return o.structural(False)
        n = 0 if o.get('key') is None else 1
        for _, x in o.get('slots').items: n = add(n, self.size(x))
        return n

    def change(self, o, k, v):
        """contract: the map of o has v for k, nothing for k if v is None"""
        if not isinstance(o, Node) and not (isinstance(o, VObj) and o.cls is TR.Trie): raise Unsupported('a node')
        was = self.den(o, k)
        n = self.size(o)
        if not isinstance(o, Node) and o.oid not in self.snap: self.snap[o.oid] = (o.get('key'), o.get('value'), o.get('slots'))
        if isinstance(o, Node): o.gone = True
        else:
            for a in ('key', 'value', 'slots'): o.set(a, Poison(a))
        self.sizes[o.oid] = add(n, (v is not None) - (was is not None))
        self.over.setdefault(o.oid, []).append((k, v))
        return was

    # invariant
    def invariant(self, o):
        u = self.u
        u.prove(not o.gone, 'the node itself is not changed by a contract')
        key = o.get('key') if o.kind is not None else None
        if o.kind is not None: self.well(key, o.get('value'), o.table.size(), 'the node')
        now = [x for _, x, _ in o.table.net() if x is not None]
        for i, x in enumerate(now):
            u.prove(x is not o and not any(x is y for y in now[:i]) and not any(x is y for _, _, y in o.table.seen), 'a tree: no node is shared')
            if isinstance(x, VObj) and x.cls is TR.Trie and not isinstance(x, Node):
                if x.oid not in self.snap: self.well(x.get('key'), x.get('value'), len(x.get('slots').items), 'a new node')
            else: u.prove(False, 'a child is a node')
        for _, _, x in o.table.seen:
            if x.kind is not None and not x.gone: self.well(x.get('key'), x.get('value'), x.nslots, 'a child')

    def well(self, key, val, n, who):
        u = self.u
        if key is None: return
        key = word(key)
        u.prove(bor(key.empty(), cmp('==', n, 0)), '%s keeps a key with characters only without children' % who)

    def unchanged(self, o):
        """obligation: nothing changed"""
        u = self.u
        same_ = not o.gone and not self.over and not o.table.writes and (o.kind is None or o.get('key') is o.okey and o.get('value') is o.oval)
        for _, _, x in o.table.seen: same_ = same_ and not x.gone and (x.kind is None or x.get('key') is x.okey and x.get('value') is x.oval)
        u.prove(same_, 'nothing changes')

    def shorter(self, k):
        """the recursive calls are on shorter texts"""
        if getattr(self, 'length', None) is not None: self.u.prove(mb(z3.And(LEN(touch(k)) < LEN(self.length))), 'the recursion ends: a shorter text')


def world(): return ctx().anchors['world']


def key_of(a):
    if a is None: throw(ValueError, 'Key may not be None')
    return touch(word(a).z)


@contract('Trie.__setitem__', T + '__setitem__', proved_by=[T + '__setitem__'])
def _(I, args, kwargs):
    w = world(); k = key_of(args[1]); w.shorter(k)
    w.change(args[0], k, (args[2],))


@contract('Trie.__delitem__', T + '__delitem__', proved_by=[T + '__delitem__'])
def _(I, args, kwargs):
    w = world(); k = key_of(args[1]); w.shorter(k)
    if w.den(args[0], k) is None: throw(KeyError, 'key')
    w.change(args[0], k, None)


@contract('Trie.__getitem__', T + '__getitem__', proved_by=[T + '__getitem__'])
def _(I, args, kwargs):
    w = world(); k = key_of(args[1]); w.shorter(k)
    r = w.den(args[0], k)
    if r is None: throw(KeyError, 'key')
    return r[0]


@contract('Trie.__len__', T + '__len__', proved_by=[T + '__len__'])
def _(I, args, kwargs): return world().size(args[0])


def start(u, none=True):
    """a node and a key (or None)"""
    w = Tries(u)
    o = Node(w, 'node', True)
    k = None if none and u.c.choice([None, None]) == 0 else free('key')
    if k is not None: w.length = touch(k.z)
    return w, o, k


def agrees(u, a, b, label):
    if a is None or b is None: u.prove(a is b, label)
    else: u.prove(a[0] is b[0] or is_intlike(a[0]) and is_intlike(b[0]) and cmp('==', a[0], b[0]), label)


@unit('C24', T + '__init__', 'a new trie holds nothing, or the given entry')
def _(u):
    w = Tries(u)
    o = VObj(TR.Trie)
    k, v = (None, None) if u.c.choice([None, None]) == 0 else (free('key'), u.int('value'))
    u.returns(u.call(o) if k is None else u.call(o, k, v))
    q = free('query').z
    r = w.den(o, q)
    if k is None: u.prove(r is None, 'empty')
    elif u.branch(same(q, k.z)): agrees(u, r, (v,), 'the entry given')
    else: u.prove(r is None, 'nothing else')
    u.prove_eq(w.size(o), 0 if k is None else 1, 'its size')
    w.well(o.get('key'), o.get('value'), len(o.get('slots').items), 'the node')


def root_like(u, o):
    if o.kind in (0, 1): u.prove(o.get('key') is None or word(o.get('key')).empty(), 'a node without a key with characters does not get one')


@unit('C24', T + '__setitem__', 'the map with that entry changed, and the size', uses=('Trie.__setitem__', 'Trie.__getitem__'))
def _(u):
    w, o, k = start(u)
    v = u.int('value')
    r = u.call(o, k, v)
    if k is None: u.raises(r, ValueError); w.unchanged(o); return
    u.returns(r)
    w.invariant(o)
    root_like(u, o)
    if u.c.choice([None, None]):
        had = w.den(o, k.z, True) is not None
        u.prove(cmp('==', w.size(o), add(o.oldsize(), 0 if had else 1)), 'one entry more, exactly if the key is new')
        return
    q = free('query').z
    new = w.den(o, q)
    if u.branch(same(q, k.z)): agrees(u, new, (v,), 'the key has the given value')
    else: agrees(u, new, w.den(o, q, True), 'every other key is as before')


@unit('C24', T + '__delitem__', 'the map without that entry, and the size; KeyError for an absent key', uses=('Trie.__delitem__', 'Trie.__getitem__'))
def _(u):
    w, o, k = start(u)
    r = u.call(o, k)
    if k is None: u.raises(r, ValueError); w.unchanged(o); return
    had = w.den(o, k.z, True) is not None
    if not had: u.raises(r, KeyError); w.unchanged(o); return
    u.returns(r)
    w.invariant(o)
    root_like(u, o)
    if u.c.choice([None, None]): u.prove(cmp('==', w.size(o), sub(o.oldsize(), 1)), 'one entry less'); return
    q = free('query').z
    new = w.den(o, q)
    if u.branch(same(q, k.z)): u.prove(new is None, 'the key is gone')
    else: agrees(u, new, w.den(o, q, True), 'every other key is as before')


@unit('C24', T + '__getitem__', 'the value of the key; KeyError for an absent key', uses=('Trie.__getitem__',))
def _(u):
    w, o, k = start(u)
    r = u.call(o, k)
    w.unchanged(o)
    if k is None: u.raises(r, ValueError); return
    d = w.den(o, k.z, True)
    if d is None: u.raises(r, KeyError)
    else: u.returns(r); agrees(u, (r,), d, 'the value of the key')


@unit('C24', T + '__contains__', 'whether the key has a value', uses=('Trie.__getitem__',))
def _(u):
    w, o, k = start(u); w.length = None
    r = u.call(o, k)
    w.unchanged(o)
    if k is None: u.raises(r, ValueError); return
    u.returns(r)
    u.prove(r is (w.den(o, k.z, True) is not None), 'true exactly for a key with a value')


@unit('C24', T + 'get', 'the value of the key, or the default', uses=('Trie.__getitem__',))
def _(u):
    w, o, k = start(u); w.length = None
    d = Opaque('default')
    given = bool(u.c.choice([None, None]))
    r = u.call(o, k, d) if given else u.call(o, k)
    w.unchanged(o)
    if k is None: u.raises(r, ValueError); return
    u.returns(r)
    x = w.den(o, k.z, True)
    if x is None: u.prove(r is (d if given else None), 'the default for an absent key')
    else: agrees(u, (r,), x, 'the value of the key')


def len_loop(w, o):
    def inv(L, p):
        own = 0 if o.okey is None else 1
        if L.mode != 'havoc' and L.mode != 'entry': o.table.elem(L.p)
        L.eq('n', add(own, mi(o.table.sum(zi(p)))))
    return inv


@unit('C24', T + '__len__', 'the number of entries', uses=('Trie.__len__',))
def _(u):
    w = Tries(u)
    o = Node(w, 'node', True)
    o.unfold()
    u.use({('Trie.__len__', 0): len_loop(w, o)})
    r = u.call(o)
    w.unchanged(o)
    u.returns(r)
    u.prove_eq(r, o.oldsize(), 'the number of entries')


# -- listing -----------------------------------------------------------------------------------------------------------------------
class Bag(CompBase):
    """a list of texts of which is known how often each text occurs"""
    def __init__(self, count, n):
        f = z3.Function(ctx().name('bag'), Z, Z)
        super().__init__('bag', lambda k: Word([('b', touch(f(z3.simplify(zi(k)))))]), length=n)
        self.count = count


def bag(count):
    n = ctx().fresh_int('n_bag', 0, MAXLEN)
    q = getattr(world(), 'query', None)
    if q is not None: ctx().assume(cmp('>=', n, count(q)))       # an empty list contains nothing
    return VList(Seq((Gen(Bag(count, n), 0, n),)))


def count(x, q):
    """occurrences of text x (a z) in the list with contents q"""
    n = 0
    for p in q.pieces:
        if isinstance(p, Lit):
            for y in p.items:
                if not isinstance(y, (Word, str)): raise Unsupported('a list of something else')
                n += equals(x, word(y))
        elif isinstance(p, Gen) and isinstance(p.base, Bag):
            if not (keys_same(p.lo, 0) and keys_same(p.hi, p.base.length)): raise Unsupported('part of a list')
            n = add(n, p.base.count(x))
        else: raise Unsupported('list contents')
    return n


def listed(w, o, x, prefix, key=None):
    """1 if the listing of o (of the entries starting with key) under prefix is to contain x, else 0"""
    y = strip(x, prefix)
    if y is None: return 0
    if key is not None and not ctx().branch(starts(key, y)): return 0
    return int(w.den(o, y) is not None)


def so_far(w, o, x, prefix, p):
    """... by the key of the node itself and the first p children"""
    y = strip(x, prefix)
    if y is None: return 0
    c = ctx()
    if c.branch(same(y, E)): return int(o.okey is not None and c.branch(o.okey.empty()))
    ch, t = HEAD(y), o.table
    child = t.original(ch)
    if child is not None and c.branch(cmp('<', mi(t.pos(ch)), p)): return int(w.den(child, touch(TAIL(y))) is not None)
    if o.okey is None or not c.branch(same(o.okey.z, y)): return 0
    return 1


def list_loop(w, o, x, prefix):
    def inv(L, p):
        L.mentioned.add('result')
        lst = L.entry_val('result')
        if not isinstance(lst, VList): raise Unsupported('the list')
        L.covered.add((lst.oid, 'seq'))
        if L.mode == 'havoc':
            n = ctx().fresh_int('n_bag', 0, MAXLEN)
            q = ctx().name('occurs')
            lst._seq = Seq((Gen(Bag(lambda x: so_far(w, o, x, prefix, p), n), 0, n),))
            L.fr.locals['result'] = lst
            return
        if L.local('result') is not lst: raise Unsupported('the list was replaced')
        w.u.prove(cmp('==', count(x, lst.seq), so_far(w, o, x, prefix, p)), L.lab() + ': every entry of the key and the children so far, once')
    return inv


@contract('Trie._allKeys', T + '_allKeys', proved_by=[T + '_allKeys'])
def _(I, args, kwargs):
    w, o, prefix = world(), args[0], word(args[1])
    return bag(lambda x: listed(w, o, x, prefix))


@contract('Trie._filteredKeys', T + '_filteredKeys', proved_by=[T + '_filteredKeys'])
def _(I, args, kwargs):
    w, o, k, prefix = world(), args[0], word(args[1]).z, word(args[2])
    w.shorter(k)
    return bag(lambda x: listed(w, o, x, prefix, k))


@contract('Trie.keys', T + 'keys', proved_by=[T + 'keys'])
def _(I, args, kwargs):
    a = dict(prefix=None); a.update(zip(('prefix',), args[1:])); a.update(kwargs)
    w, o = world(), args[0]
    k = None if a['prefix'] is None else word(a['prefix']).z
    return bag(lambda x: listed(w, o, x, EMPTYW, k))


def listing(u, w, o, r, x, prefix, key=None):
    u.returns(r)
    w.unchanged(o)
    u.prove(isinstance(r, VList), 'a list')
    u.prove(cmp('==', count(x, r.seq), listed(w, o, x, prefix, key)), 'every entry asked for once, nothing else')


@unit('C24', T + '_allKeys', 'every entry once', uses=('Trie._allKeys',))
def _(u):
    w, o, p = start(u, False); w.length = None
    o.unfold()
    x = free('query').z
    u.use({('Trie._allKeys', 0): list_loop(w, o, x, p)})
    listing(u, w, o, u.call(o, p), x, p)


@unit('C24 C25', T + '_filteredKeys', 'every entry with the prefix once', uses=('Trie._allKeys', 'Trie._filteredKeys'))
def _(u):
    w, o, k = start(u, False)
    p = free('prefix')
    o.unfold()
    x = free('query').z
    u.use({('Trie._filteredKeys', 0): list_loop(w, o, x, p)})
    listing(u, w, o, u.call(o, k, p), x, p, k.z)


@unit('C24 C25', T + 'keys', 'every entry (with the prefix) once', uses=('Trie._allKeys', 'Trie._filteredKeys'))
def _(u):
    w, o, k = start(u); w.length = None
    x = free('query').z
    listing(u, w, o, u.call(o) if k is None else u.call(o, k), x, EMPTYW, None if k is None else k.z)


@unit('C24', T + '__iter__', 'every entry once', uses=('Trie.keys',))
def _(u):
    w = Tries(u)
    o = Node(w, 'node', True)

    def inv(L, p):
        ys = L.fr.yields
        L.objseq(ys, Seq((Gen(L.base, L.lo, p),)), 'the keys given')
    u.use({('Trie.__iter__', 0): inv})
    w.query = x = free('query').z
    r = u.returns(u.call(o))
    w.unchanged(o)
    if isinstance(r, VList): r = u.I.get_iter(r)
    u.prove(isinstance(r, VIter), 'an iterator')
    u.prove(cmp('==', count(x, r.rest), listed(w, o, x, EMPTYW)), 'every entry once, nothing else')


# -- the common prefix (C24; C25 uses it to complete) ----------------------------------------------------------------------------------------------------------------
@contract('Trie._longestCommonPrefix', T + '_longestCommonPrefix', proved_by=[T + '_longestCommonPrefix'])
def _(I, args, kwargs):
    """either nothing in the trie starts with key (any result), or: prefix + s where s starts with key and every entry starting with key starts with s"""
    w, o, k, prefix = world(), args[0], word(args[1]).z, word(args[2])
    w.shorter_or_lower(o, k)
    if ctx().choice([None, None]):
        w.facts.append((o, lambda y, d: ctx().assume(bnot(starts(k, y))) if d is not None else None))
        return free('anything')
    s = free('common')
    ctx().assume(starts(k, s.z))
    def fact(y, d):
        if d is not None and ctx().branch(starts(k, y)): ctx().assume(starts(s.z, y))
    w.facts.append((o, fact))
    return Word(prefix.atoms + s.atoms)


def shares(u, w, o, r, x, prefix, key):
    """x is an entry starting with key: the result extends the key and x starts with it"""
    d = w.den(o, x)
    for n, f in w.facts:
        if n is o: f(x, d)
    if d is None or not u.branch(starts(key, x)): raise PathEnd()
    # facts about the children
    if not u.branch(same(x, E)):
        child = o.table.original(HEAD(x))
        for n, f in w.facts:
            if child is not None and n is child: f(touch(TAIL(x)), w.den(child, touch(TAIL(x))))
    u.returns(r)
    u.prove(isinstance(r, (Word, str)), 'a text')
    r = word(r)
    n = len(prefix.atoms)
    ok = len(r.atoms) >= n and all(a[0] == b[0] and (a[1].eq(b[1]) or ctx().entails(mb(a[1] == b[1]))) for a, b in zip(prefix.atoms, r.atoms))
    u.prove(ok, 'the result starts with what led to this node')
    if not ok: return
    s = Word(r.atoms[n:]).z
    u.prove(starts(key, s) if not s.eq(key) else True, 'the result starts with what was typed')
    u.prove(starts(s, x), 'every matching entry starts with the result')


@unit('C24 C25', T + '_longestCommonPrefix', 'text that every matching entry starts with, extending what was typed', uses=('Trie._longestCommonPrefix',))
def _(u):
    w, o, k = start(u, False)
    w.facts = []
    def lower(n, z):
        if u.c.entails(mb(touch(k.z) == E)): u.prove(n is not o, 'the recursion ends: a child')
        else: w.shorter(z)
    w.shorter_or_lower = lower
    p = free('prefix')
    r = u.call(o, k, p)
    w.unchanged(o)
    shares(u, w, o, r, free('query').z, p, k.z)


@unit('C24 C25', T + 'longestCommonPrefix', 'text that every matching entry starts with, extending what was typed', uses=('Trie._longestCommonPrefix',))
def _(u):
    w, o, k = start(u, False)
    w.facts = []
    w.shorter_or_lower = lambda n, z: None
    r = u.call(o, k)
    w.unchanged(o)
    shares(u, w, o, r, free('query').z, EMPTYW, k.z)
