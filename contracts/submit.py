"""Contracts of message splitting and SMS-SUBMIT encoding (C08, C09)."""
from .lib import *
from .alphabet import ENC, gsm_text, valid, enc_spec
from .septets import names, pack_spec
from .ucs2 import bmp, ucs2

P = 'gsmmodem.pdu.'


class Bounds:
    """part boundaries as a z3 array; what is known of every part is instantiated at each index that is looked at"""
    def __init__(self, arr, b=None, m=None, gsm=None, parent=None, end=None):
        self.arr, self.b, self.m, self.gsm, self.parent, self.end = arr, b, m, gsm, parent, end
    def at(self, k): return mi(z3.Select(self.arr, zi(k)))
    def store(self, k, v): return Bounds(z3.Store(self.arr, zi(k), zi(v)), parent=self)
    def know(self, k):
        if self.parent: self.parent.know(k)
        if self.m is not None: ctx().assume(imp(band(cmp('<=', 0, k), cmp('<', k, self.m)), part_ok(self.b, self.at(k), self.at(add(k, 1)), self.gsm, self.end)))


def fresh_bounds(b, m, end, gsm):
    """0 = bounds[0] < ... < bounds[m] = end, every part fits"""
    r = Bounds(z3.Array(ctx().name('bounds'), z3.IntSort(), z3.IntSort()), b, m, gsm, end=end)
    ctx().assume(band(cmp('==', r.at(0), 0), cmp('==', r.at(m), end)))
    return r


def no_bounds(): return Bounds(z3.K(z3.IntSort(), z3.IntVal(0)))


class PartBase(Base):
    """part k of a text: characters bounds[k] .. bounds[k+1]"""
    def __init__(self, b, bounds): self.b, self.bounds = b, bounds; self.name = 'parts'; self.length = None
    def at(self, k): return self.bounds.at(k)
    def elem(self, k):
        self.bounds.know(k)
        return mkstr(Seq((Gen(self.b, self.at(k), self.at(add(k, 1))),)))
    def same(self, o): return self is o or (isinstance(o, PartBase) and not isinstance(o, Steps) and self.b.same(o.b) and self.bounds.arr.eq(o.bounds.arr))


def W(b, k): return mi(Flat(ENC, b, 0, 0).W(k))


def part_ok(b, lo, hi, gsm, end):
    """a part lies within the text, is not empty and fits"""
    inside = band(cmp('<=', 0, lo), cmp('<', lo, hi), cmp('<=', hi, end))
    if gsm: return band(inside, cmp('<=', sub(W(b, hi), W(b, lo)), 153))
    return band(inside, cmp('<=', sub(hi, lo), 67))


def prove_parts(prove, b, bounds, m, end, gsm):
    c = ctx()
    prove(cmp('==', bounds.at(0), 0), 'first part starts at the beginning')
    prove(cmp('==', bounds.at(m), end), 'parts are consecutive')
    j = c.fresh_int('j', 0)
    bounds.know(j)
    prove(imp(cmp('<', j, m), part_ok(b, bounds.at(j), bounds.at(add(j, 1)), gsm, end)), 'no part is empty or too long')


def split_loop(b):
    """parts collected so far: bounds array in L.store"""
    def inv(L, p):
        c = ctx()
        parts = L.entry_val('parts')
        if not isinstance(parts, VList): raise Unsupported('loop annotation: parts')
        if L.mode == 'havoc':
            m, start = c.fresh_int('m', 0), L.any('start', 0)
            arr = fresh_bounds(b, m, start, True)
            L.store.update(m=m, arr=arr)
            L.objseq(parts, Seq((Gen(PartBase(b, arr), 0, m),)), 'parts')
            if c.branch(cmp('<', p, L.hi)): Flat(ENC, b, 0, L.hi).group(p)
        else:
            start = L.any('start', 0)
            if L.mode == 'entry': m, arr = 0, no_bounds()
            else:
                m, arr = L.store['m'], L.store['arr']
                if len(parts.seq.pieces) == 2 or (parts.seq.pieces and isinstance(parts.seq.pieces[-1], Lit)):     # one part was added
                    m = add(m, 1); arr = arr.store(m, start)
            prove_parts(lambda x, l: L.fact(x, l), b, arr, m, start, True)
            L.objseq(parts, Seq((Gen(PartBase(b, arr), 0, m),)), 'parts')
        L.eq('partLen', sub(W(b, p), W(b, start)))
        L.fact(cmp('<=', sub(W(b, p), W(b, start)), 153), 'current part fits')
        L.fact(bor(band(cmp('==', p, 0), cmp('==', start, 0)), cmp('<', start, p)), 'current part is not empty')
    return inv


@unit('C08', P + '_splitText', 'GSM-7: consecutive non-empty slices of at most 153 septets that make up the text', uses=['encodeGsm7'])
def _(u):
    b, n = gsm_text(u, 'text', 1)
    u.replay('split_parts', lambda ev: (ev(mkstr(Seq((Gen(b, 0, n),)))), 0))
    u.use({('_splitText', 0): split_loop(b)})
    r = u.returns(u.call(mkstr(Seq((Gen(b, 0, n),))), 0))
    u.prove(isinstance(r, VList), 'a list')
    ps = r.seq.pieces
    g = ps[0] if ps and isinstance(ps[0], Gen) and isinstance(ps[0].base, PartBase) else None
    if g is None: m, arr = 0, no_bounds()
    else: m, arr = g.hi, g.base.bounds
    m = add(m, 1); arr = arr.store(m, n)
    prove_parts(u.prove, b, arr, m, n, True)
    u.prove_eq(r, VList(Seq((Gen(PartBase(b, arr), 0, m),))), 'the parts are the slices between the boundaries')


class Steps(PartBase):
    """parts of 67 characters"""
    def __init__(self, b, n): self.b, self.n = b, n; self.name = 'steps'; self.length = None
    def at(self, k): return mi(z3.If(67 * zi(k) < zi(self.n), 67 * zi(k), zi(self.n)))
    def elem(self, k): return mkstr(Seq((Gen(self.b, self.at(k), self.at(add(k, 1))),)))
    def same(self, o): return self is o or (isinstance(o, Steps) and self.b.same(o.b) and keys_same(self.n, o.n))


@unit('C08', P + '_splitText', 'UCS2: consecutive non-empty slices of at most 67 characters that make up the text')
def _(u):
    b, n = u.chars('text', 1, cons=bmp)
    u.replay('split_parts', lambda ev: (ev(mkstr(Seq((Gen(b, 0, n),)))), 0))
    r = u.returns(u.call(mkstr(Seq((Gen(b, 0, n),))), 8))
    u.prove(isinstance(r, VList), 'a list')
    m = mi((zi(n) + 66) / 67)
    st = Steps(b, n)
    u.prove(band(cmp('==', st.at(0), 0), cmp('==', st.at(m), n)), 'boundaries')
    j = u.int('j', 0)
    u.prove(imp(cmp('<', j, m), part_ok(b, st.at(j), st.at(add(j, 1)), False, n)), 'no part is empty or too long')
    u.prove_eq(r, VList(Seq((Gen(st, 0, m),))), 'the parts are the slices between the boundaries')


@contract('_splitText', P + '_splitText', proved_by=[P + '_splitText'])
def _(I, args, kwargs):
    t, alpha = names(args, kwargs, 'text', 'alphabet')
    c = ctx()
    q = str_seq(t) if is_str(t) else unsupported('_splitText contract: argument')
    if len(q.pieces) != 1 or not isinstance(q.pieces[0], Gen) or not keys_same(q.pieces[0].lo, 0) or alpha not in (0, 8): raise Unsupported('_splitText contract: arguments')
    b, n = q.pieces[0].base, q.pieces[0].hi
    k = c.fresh_int('sk', 0)
    c.prove(imp(cmp('<', k, n), valid(b.elem(k)) if alpha == 0 else bmp(b.elem(k))), '_splitText precondition: characters of the alphabet')
    c.prove(cmp('>=', n, 1), '_splitText precondition: not empty')
    m = c.fresh_int('parts', 1)
    return VList(Seq((Gen(PartBase(b, fresh_bounds(b, m, n, alpha == 0)), 0, m),)))


# -- the PDU ------------------------------------------------------------------------------------------------------------------
from .address import AddrField, address_field, an_address
from .times import StampBase, Zone, a_stamp, is_code, mk_td, td_us, is_td, table, US, DAY


@contract('_splitText counted', P + '_splitText', proved_by=[P + '_splitText'])
def _(I, args, kwargs):
    r = CONTRACTS['_splitText'].apply(I, args, kwargs)
    g = r.seq.pieces[0]
    ctx().anchors['split'] = (g.hi, g.base)
    return r


class Request:
    """the arguments of one call and what the PDU must be"""
    def __init__(self, u, validity, smsc, gsm, flags=True):
        self.u, self.vkind, self.gsm = u, validity, gsm
        self.number, self.nb = an_address(u, 'number')
        self.smsc, self.sb = an_address(u, 'smsc', number=True) if smsc else (None, None)
        self.ref = u.int('reference', 0, 255)
        self.srr, self.rd, self.flash = (u.bool('statusReport'), u.bool('rejectDuplicates'), u.bool('flash')) if flags else (False, False, False)
        self.b, self.n = gsm_text(u, 'text') if gsm else u.chars('text', 1, cons=bmp)
        if not gsm:
            w = u.int('w', 0)
            u.assume(band(cmp('<', w, self.n), bnot(valid(self.b.elem(w)))))
        self.text = mkstr(Seq((Gen(self.b, 0, self.n),)))
        self.sec = None
        if validity is None: self.validity = None
        elif validity == 'relative':
            self.sec, us = u.int('seconds', 300, 441 * DAY + DAY - 1), u.int('us', 0, US - 1)
            self.validity = mk_td(add(mul(self.sec, US), us))
        else: self.validity, self.stamp, self.f, self.q = a_stamp(u)

    def args(self):
        return [self.number, self.text], dict(reference=self.ref, validity=self.validity, smsc=self.smsc, requestStatusReport=self.srr, rejectDuplicates=self.rd, sendFlash=self.flash)

    def replay(self, case):
        def ev_opts(ev):
            d = dict(number='+27821234567', text=ev(self.text), reference=ev(self.ref), smsc='+2782' if self.smsc else None, srr=ev(self.srr), rd=ev(self.rd), flash=ev(self.flash), validity=None)
            if self.vkind == 'relative': d['validity'] = ('r', ev(self.sec))
            elif self.vkind: d['validity'] = ('a', tuple(ev(self.f[:6])), ev(self.q))
            return d
        if case == 'C08': self.u.replay('split_parts', lambda ev: (ev(self.text), ev(self.ref)))
        else: self.u.replay('submit_meaning', ev_opts)

    # expected octets
    def first(self, header):
        bit = lambda c, v: ite(c, v, 0)
        return add(add(1 + {None: 0, 'relative': 0x10, 'absolute': 0x18}[self.vkind] + (0x40 if header else 0), bit(self.srr, 0x20)), bit(self.rd, 4))
    def head(self, header): return (address_field(self.sb, True) if self.smsc else lit([0])) + lit([self.first(header), self.ref]) + address_field(self.nb)
    def coding(self): return add(0 if self.gsm else 8, ite(self.flash, 0x10, 0))
    def vplen(self): return {None: 0, 'relative': 1, 'absolute': 7}[self.vkind]
    def user_data(self, chars, pad):
        """(length, octets)"""
        if not self.gsm: s = ucs2(chars); return seq_len(s), s
        s = enc_spec(chars)
        return seq_len(s), pack_spec(s, pad)
    def tail(self, k=None):
        """user data length and user data of part k (None: the only one)"""
        if k is None:
            l, s = self.user_data(Seq((Gen(self.b, 0, self.n),)), 0)
            return lit([l]) + s
        m, pb = ctx().anchors['split']
        l, s = self.user_data(pb.elem(k).seq, 6)
        return lit([add(l, 7 if self.gsm else 6), 5, 0, 3, self.ref, m, add(k, 1)]) + s

    def cut(self, rope):
        """(octets up to the destination, protocol and coding, validity, from the user data length on)"""
        for i, p in enumerate(rope.pieces):
            if isinstance(p, Gen) and isinstance(p.base, AddrField) and not p.base.smsc: break
        else: return None
        l, t = split_at(Seq(rope.pieces[i + 1:]), 2)
        v, t = split_at(t, self.vplen())
        return Seq(rope.pieces[:i + 1]), l, v, t

    def check(self, o, k, which):
        """conditions: o is the Pdu object of part k; which: C08 (splitting, header, user data) or C09 (everything but the header's numbers)"""
        c = ctx()
        cls = resolve(P + 'Pdu')
        if not (isinstance(o, VObj) and o.cls is cls and isinstance(o.get('data'), VBytes)): return [('a Pdu', False)]
        rope = o.get('data').seq
        x = self.cut(rope)
        if x is None: return [('destination address present', False)]
        head, pc, vp, tail = x
        out = []
        def same(label, a, b):
            conds = seq_eq(a, b, val_eq)
            out.append((label, False if conds is None else band(*[z[1] if isinstance(z, tuple) else z for z in conds]) if conds else True))
        want = self.tail(k)
        ud = seq_len(tail)
        if which == 'C08':
            fo = seq_index(Seq([p for p in head.pieces if not (isinstance(p, Gen) and isinstance(p.base, AddrField))]), 0 if self.smsc else 1)
            out.append(('header announced exactly when there is more than one part', cmp('==', mi((zi(fo[0]) / 64) % 2), 0 if k is None else 1) if fo else False))
            same('user data: header and text of the part', tail, want)
            out.append(('at most 140 octets of user data', cmp('<=', ud, 141)))
            return out
        if k is not None:
            l1, r1 = split_at(tail, 4); l2, r2 = split_at(want, 4)
            same('user data length and header', l1, l2)
            tail, want = split_at(r1, 3)[1], split_at(r2, 3)[1]
        same('text of the part', tail, want)
        same('service centre, request flags, reference and destination', head, self.head(k is not None))
        same('protocol and character coding', pc, lit([0, self.coding()]))
        if self.vkind == 'relative':
            v = seq_index(vp, 0)
            out.append(('relative validity', is_code(v[0], self.sec) if v else False))
        elif self.vkind: same('absolute validity', vp, self.stamp)
        sl = seq_len(address_field(self.sb, True)) if self.smsc else 1
        out.append(('TPDU length', cmp('==', o.get('tpduLength'), sub(seq_len(rope), sl)) if is_int(o.get('tpduLength')) else False))
        return out


class PduSpec:
    def __init__(self, req, k, which): self.req, self.k, self.which = req, k, which
    def veq(self, o): return band(*[c for _, c in self.req.check(o, self.k, self.which)])


class PduBase(Base):
    def __init__(self, req, which): self.req, self.which = req, which; self.name = 'pdus'; self.length = None
    def elem(self, k): return PduSpec(self.req, k, self.which)


def submit_loop(pb):
    def inv(L, p): L.seq('pdus', Seq((Gen(pb, 0, p),)))
    return inv


SUBMIT_USES = ['encodeGsm7', 'packSeptets', 'encodeUcs2', '_splitText counted', '_encodeAddressField', '_encodeTimestamp', '_encodeRelativeValidityPeriod']


def submit_unit(u, which, validity, smsc, gsm):
    q = Request(u, validity, smsc, gsm, flags=which == 'C09')
    q.replay(which)
    pb = PduBase(q, which)
    u.use({('encodeSmsSubmitPdu', 0): submit_loop(pb)})
    a, k = q.args()
    r = u.call(*a, **k)
    sp = ctx().anchors.get('split')
    if isinstance(r, Raised):
        u.raises(r, ValueError)
        u.prove(sp is not None and cmp('>', sp[0], 255), 'refused only when it needs more than 255 parts')
        return
    u.prove(isinstance(r, VList), 'a list')
    fits = cmp('<=', Flat(ENC, q.b, 0, q.n).len(), 160) if gsm else cmp('<=', q.n, 70)
    if which == 'C08': u.prove(fits if sp is None else bnot(fits), 'one part without header exactly when the text fits one message')
    if sp is None:
        u.prove(r.seq.concrete and len(r.seq.items) == 1, 'one PDU')
        for lab, cnd in q.check(r.seq.items[0], None, which): u.prove(cnd, lab)
    else: u.prove_eq(r, VList(Seq((Gen(pb, 0, sp[0]),))), 'one PDU for each part, in order')


for _gsm in (True, False):
    @unit('C08', P + 'encodeSmsSubmitPdu', 'parts, headers and sizes, %s text' % ('GSM-7' if _gsm else 'UCS2'), uses=SUBMIT_USES)
    def _(u, gsm=_gsm): submit_unit(u, 'C08', None, False, gsm)
    for _v in (None, 'relative', 'absolute'):
        for _s in (False, True):
            @unit('C09', P + 'encodeSmsSubmitPdu', '%s text, %s validity, %s service centre' % ('GSM-7' if _gsm else 'UCS2', _v or 'no', 'given' if _s else 'default'), uses=SUBMIT_USES)
            def _(u, gsm=_gsm, v=_v, s=_s): submit_unit(u, 'C09', v, s, gsm)


@unit('C09', P + 'encodeSmsSubmitPdu', 'refuses a validity that is neither a period nor a point in time', uses=SUBMIT_USES)
def _(u):
    q = Request(u, None, False, True)
    a, k = q.args()
    for bad in (5, '5', 300.0, (1, 2), u.int('validity')):
        k['validity'] = bad
        u.raises(u.call(*a, **k), TypeError)
