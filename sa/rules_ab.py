"""Encoding, ordered sets, mapping order."""
from .basic import *
from .loops import *
from .interp import RET
from . import poly

ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'

# ---------------------------------------------------------------- A01, A02
def a02(ctx, rep):
    """base64 digits: the 64 constants one by one, and every other integer as two ranges"""
    fid = ctx.fn('encode')
    for n in range(64):
        S0 = summ.run(ctx.p, fid, args={0: V.I(n)}); rep.seen(S0)
        for o in S0.outs:
            st = o[-1]
            want = some(S(ALPHA[n]))
            if o[0] == 'panic': rep.v3('digit', fid, False if trail_ok(S0.I, st) else None, 'encode(%d) panics' % n); continue
            v = S0.I.deep(st, o[1])
            rep.v3('digit', fid, Cmp(S0.I).same(st, v, want), 'encode(%d) = %s, expected %s' % (n, pretty(v), pretty(want)))
    for lo, hi, nm in ((None, -1, 'negative'), (64, None, '>= 64')):
        def init(I, st): pass
        x = t('in', 'num'); x.ty = 'i32'
        def pre_args(I, st):
            f = st.facts
            if lo is not None: f = f.assume(ilt(x, V.I(lo)), False)
            if hi is not None: f = f.assume(ilt(V.I(hi), x), False)
            st.facts = f; return x
        S0 = summ.run(ctx.p, fid, args={0: pre_args}); rep.seen(S0)
        res = []
        for o in S0.outs:
            # conditions up to the first one that is not understood: this much of the path is possible
            pre = []
            for c, tr, _ in o[-1].trail:
                if not understood(S0.I, c, {'bin'}): break
                pre.append((c, tr))
            if o[0] == 'panic': res.append((o, pre, False, 'encode(%s) panics' % nm)); continue
            v = S0.I.deep(o[-1], o[1])
            res.append((o, pre, Cmp(S0.I).same(o[-1], v, NONE), 'encode(%s) = %s, expected None' % (nm, pretty(v))))
        for o, pre, r, why in res:
            # whatever the rest of the path is, it goes wrong if every way to continue the possible part does
            if r is False and len(pre) < len(o[-1].trail) and any(r2 is not False for o2, p2, r2, _ in res if [(c, tr) for c, tr, _ in o2[-1].trail][:len(pre)] == pre): r = None
            rep.v3('non-digit', fid, r, why)

def b64_model(I, st, a, sp):
    """the digit encoder, by property A02"""
    from .models import bv_bits, bv_cmp_range, isbv
    v = a[0]
    if isbv(v) and v[1] == 'raw': v = None
    lo, hi = bv_cmp_range(v) if v is not None else (None, None)
    if lo is None: return [RET(unk('b64', a[0]), st)]
    if hi < 0 or lo > 63: return [RET(NONE, st)]
    if lo < 0 or hi > 63: return [RET(unk('b64', v), st)]
    bits = bv_bits(v)
    bits = tuple((bits + [0] * 6)[:6])
    if all(isinstance(b, int) for b in bits): return [RET(some(S(ALPHA[sum(b << i for i, b in enumerate(bits))])), st)]
    return [RET(some(('s', (t('b64', *bits),))), st)]
def digit(bits):
    if all(isinstance(b, int) for b in bits): return ALPHA[sum(b << i for i, b in enumerate(bits))]
    return t('b64', *bits)
def vlq_want(sign, bits):
    """the reference encoding of a signed magnitude"""
    v = [sign] + list(bits)
    while len(v) > 1 and v[-1] == 0: v.pop()
    out = []
    while True:
        d, v = v[:5], v[5:]
        d = d + [0] * (5 - len(d))
        out.append(digit(tuple(d) + (1 if v else 0,)))
        if not v: break
    return mkstr(out)

def one_value(I, st, bits):
    """the path only sets one value of the unknown bits apart: the bits when it is that value, {} when it is another
    one; None otherwise"""
    odd = [(c, tr) for c, tr, _ in st.trail if not understood(I, c)]
    if len(odd) != 1: return None
    c0, tr = odd[0]; c = c0
    while isinstance(c, tuple) and c and c[0] == 'not': c, tr = c[1], not tr
    if not (isinstance(c, T) and c.op == 'bveq'): return None
    from .models import bv_bits
    bs = bv_bits(c.args[0]); n = const_int(c.args[1])
    free = [b for b in bits if not isinstance(b, int)]
    if bs is None or n is None or any(not isinstance(b, int) and b not in free for b in bs) or len(free) < 2: return None
    if any(x in free for c2, _, _ in st.trail if c2 is not c0 for x in terms_in(c2)): return None
    return {b: n >> i & 1 for i, b in enumerate(bs) if not isinstance(b, int)} if tr else {}
def bits_in(g, sb):
    """string g with some bits of its digits known"""
    out = []
    for x in parts(g):
        if isinstance(x, T) and x.op == 'b64': x = digit(tuple(sb.get(b, b) if not isinstance(b, int) else b for b in x.args))
        out.append(x)
    return mkstr(out)

def a01(ctx, rep):
    """base64 VLQ of every 32-bit integer: partition by sign and bit length, low bits unknown"""
    fid = ctx.fn('base64vlq_encode'); enc = ctx.fn('encode')
    cases = [(0, 0, [])]
    for L in range(1, 32):
        bits = [t('bit', L, i) for i in range(L - 1)] + [1]
        cases.append((('bv', False, tuple(bits)) if L > 1 else 1, 0, bits))
        cases.append((('bv', True, tuple(bits)) if L > 1 else -1, 1, bits))
    cases.append((-2 ** 31, 1, [0] * 31 + [1]))
    for v, sign, bits in cases:
        name = '%s, %d-bit magnitude' % ('negative' if sign else 'non-negative', len(bits))
        def init(I, st): I.spec_opaque = {enc: b64_model}; I.unroll = 9
        S0 = summ.run(ctx.p, fid, args={0: V_(v)}, init=init); rep.seen(S0)
        want = vlq_want(sign, bits)
        for o in S0.outs:
            st = o[-1]
            tok = all(understood(S0.I, c) for c, _, _ in st.trail)
            wn = want; sb = None
            if not tok: sb = one_value(S0.I, st, bits)
            if sb is not None: tok = True; wn = vlq_want(sign, [sb.get(b, b) for b in bits])
            if o[0] == 'panic':
                rep.v3('vlq', fid, False if tok else None, '%s: panics (%s)' % (name, o[1][0])); continue
            g = S0.I.deep(st, o[1])
            if sb: g = bits_in(g, sb)
            if g == wn: rep.ok('vlq', fid); continue
            if g == want: rep.ok('vlq', fid); continue
            und = not tok or not understood(S0.I, g) or has_unknown(g)
            rep.v3('vlq', fid, None if und else False, '%s: encodes as %s, expected %s' % (name, pretty(g), pretty(want)))

# ---------------------------------------------------------------- B01
class ASet:
    def __init__(self, ctx):
        self.c = ctx; self.A = ctx.adt('ArraySet')
        self.arr = ctx.role(self.A, r'^std::vec::Vec<std::string::String>$')
        self.map = ctx.role(self.A, r'HashMap<std::string::String, ')
    def mk(self, a, m):
        f = [None, None]; f[self.arr] = a; f[self.map] = m
        return ('adt', self.A, 0, tuple(f))
    def a(self, v): return fld(v, self.arr)
    def m(self, v): return fld(v, self.map)
    def find(self, s, m, k):
        if not (isinstance(m, tuple) and m[0] == 'map'): return s.opt(t('get', m, k))
        for op in reversed(m[2]):
            if s.streq(op[1], k): return op[2] if op[0] == 'ins' else None
        return None if m[1] is None else s.opt(t('get', m[1], k))
    def add(self, s, cur, data, dup):
        """the set after adding data"""
        a, m = self.a(cur), self.m(cur)
        old = self.find(s, m, data)
        if old is not None:
            if s.cond(dup): return self.mk(seqapp(a, data), m)
            return self.mk(a, m)
        return self.mk(seqapp(a, data), mapins(m, data, seq_len(a)))
def seqapp(a, x): return mkseq(list(seq_pieces(a)) + [('one', x)])
def mapins(m, k, v):
    if isinstance(m, tuple) and m[0] == 'map': return ('map', m[1], m[2] + (('ins', k, v),))
    return ('map', m, (('ins', k, v),))
def final(S, o, name='self'):
    st = o[-1]
    c = ('in', name)
    return S.I.deep(st, st.mem[c]) if c in st.mem else t('in', name)
def eq_post(S, name, want):
    def post(I, st2, o, exp): return [(name, final(S, o), want(st2))]
    return post

def fold_check(I, st, v, n, step, init, o, extra=()):
    """v is the result of folding step over 0..n from init"""
    v = I.deep(st, v)
    phis = [x for x in terms_in(v) if x.op == 'phi' and x in I.phi_rec]
    recs = {id(r): r for r in (I.rec_of(st, x) for x in phis)}
    if len(recs) != 1: return None, 'no single loop'
    rec = list(recs.values())[0]
    m = rec_range(rec)
    if m is None or variant(rec, m): return None, 'loop range'
    r = Cmp(I, extra).same(st, m, n)
    if r is False and any(x.op in ('k', 'phi') for x in terms_in(m)) and const_int(sub(m, n)) is None: r = None     # a searched bound: the skipped steps may be neutral
    if r is not True: return r, 'iterates %s times, expected %s' % (pretty(m), pretty(n))
    ex = exhausted(st, rec, m)
    if ex is not True: return (False if ex is False else None), 'loop left early'
    cps = {x[0]: cp for cp, x in rec.phis.items() if isinstance(x[0], T)}
    i0 = subst(v, {x: I.deep(rec.hdr, rec.phis[cps[x]][1]) for x in phis})
    r = Cmp(I, extra).same(st, i0, init)
    if r is not True: return r, 'starts from %s, expected %s' % (pretty(i0), pretty(init))
    for b in rec.backs:
        nx = subst(v, {x: I.deep(b['st'], b['next'][cps[x]]) for x in phis})
        o2 = ('ret', UNIT, b['st'])
        def body(s): s.o = o2; return step(s, v, rec.kappa)
        for exp, st2 in run_spec(I, b['st'], None, body):
            r = Cmp(I, extra).same(st2, nx, I.deep(st2, exp))
            if r is False and not trail_ok(I, b['st'], set(extra)): r = None
            if r is not True: return r, {'path': trail_txt(st2, 5), 'got': pretty(nx), 'expected': pretty(I.deep(st2, exp))}
    return True, ''

def b01(ctx, rep):
    """ordered set operations against the first-occurrence index specification"""
    A = ASet(ctx)
    def m(n): return ctx.summary(ctx.fn('ArraySet', n), 'aset')
    E = A.mk(EMPTY, ('map', None, ()))
    S0 = m('new'); conform(ctx, rep, 'empty', S0, lambda s: R(E))
    S1 = m('add'); me = self_in(S1); d, dup = argn(S1, 1), argn(S1, 2)
    def spec(s): S1.exp = A.add(s, me, d, dup); return R(UNIT)
    conform(ctx, rep, 'add', S1, spec, lambda I, st, o, e: [('set', final(S1, o), S1.exp)])
    def pure(S_): return lambda I, st, o, e: [('set', final(S_, o), self_in(S_))]
    S2 = m('has'); d2 = argn(S2, 1)
    conform(ctx, rep, 'membership', S2, lambda s: R(B(s.opt(t('get', A.m(self_in(S2)), d2)) is not None)), pure(S2))
    S3 = m('index_of'); d3 = argn(S3, 1)
    def spec3(s):
        p = s.opt(t('get', A.m(self_in(S3)), d3))
        return R(NONE if p is None else some(p))
    conform(ctx, rep, 'index', S3, spec3, pure(S3))
    S4 = m('at'); i4 = argn(S4, 1)
    def spec4(s):
        a = A.a(self_in(S4))
        if s.cond(ilt(i4, V.I(0))): return R(NONE)
        if not s.cond(ilt(i4, seq_len(a))): return R(NONE)
        return R(some(elem(a, i4)))
    conform(ctx, rep, 'element', S4, spec4, pure(S4))
    S5 = m('to_vec'); conform(ctx, rep, 'listing', S5, lambda s: R(A.a(self_in(S5))), pure(S5))
    S6 = m('size'); conform(ctx, rep, 'size', S6, lambda s: R(t('maplen', A.m(self_in(S6)))), pure(S6))
    S7 = m('from_array'); rep.seen(S7); arr, dup7 = argn(S7, 0), argn(S7, 1)
    for o in S7.outs:
        st = o[-1]
        if o[0] == 'panic': rep.v3('from-list', S7.b['id'], False if trail_ok(S7.I, st) else None, 'panics'); continue
        r, why = fold_check(S7.I, st, o[1], seq_len(arr), lambda s, cur, k: A.add(s, cur, elem(arr, k), dup7), E, o)
        rep.v3('from-list', S7.b['id'], r, why)
    # nothing else writes the set's fields
    for bid, b in ctx.p.bodies.items():
        pass

# ---------------------------------------------------------------- B02
class MapT:
    def __init__(self, ctx):
        self.c = ctx
        self.A = ctx.adt('Mapping', 'generated', 'original', 'source', 'name')
        self.pos = ctx.adt('Position', 'line', 'column')
    def f(self, m, n): return fld(m, self.c.fi(self.A, n))
    def line(self, p): return fld(p, self.c.fi(self.pos, 'line'))
    def col(self, p): return fld(p, self.c.fi(self.pos, 'column'))
    def gl(self, m): return self.line(self.f(m, 'generated'))
    def gc(self, m): return self.col(self.f(m, 'generated'))
    def glex(self, s, a, b):
        c = s.cmp3(self.gl(a), self.gl(b))
        return c if c else s.cmp3(self.gc(a), self.gc(b))
def ostr(s, a, b):
    """present strings ascending, absent last"""
    x = s.opt(a); y = s.opt(b)
    if x is None: return 0 if y is None else 1
    if y is None: return -1
    return s.scmp3(x, y)
def inflated(s, M, a, b):
    c = M.glex(s, a, b)
    if c: return c
    c = ostr(s, M.f(a, 'source'), M.f(b, 'source'))
    if c: return c
    x, y = s.opt(M.f(a, 'original')), s.opt(M.f(b, 'original'))
    if (x is None) != (y is None): return 1 if x is None else -1
    if x is not None:
        c = s.cmp3(M.line(x), M.line(y))
        if c: return c
        c = s.cmp3(M.col(x), M.col(y))
        if c: return c
    return ostr(s, M.f(a, 'name'), M.f(b, 'name'))
def plain(a):
    """a member of an argument"""
    while isinstance(a, T) and a.op == 'f': a = a.args[0]
    return isinstance(a, T) and a.op == 'in'
def free_signs(facts, v):
    """signs v can have, when what the path knows about its linear part is just an interval of it"""
    c, d = lin(v); k = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
    if not k: return None
    e = facts._get(k) or (None, None, ())
    if all(plain(a) for k2 in facts.iv for a, _ in k2) and all(plain(a) for a in d):
        # every atom is an argument's member, free to be any number: which signs have a solution
        out = set()
        for sg, w in ((-1, V.add(v, V.I(1))), (1, V.sub(V.I(1), v)), (0, None)):
            p = poly.of_facts(facts)
            if w is None: p.eq0(v)
            else: p.le0(w)
            for a in {a for k2 in facts.iv for a, _ in k2} | set(d): p.le0(V.sub(V.I(1), a))      # ordinary positions
            if poly.witness(p) is not None: out.add(sg)
        return out or None
    for k2 in facts.iv:
        if k2 != k and tuple((a, -n) for a, n in k2) != k and any(a in d for a, _ in k2): return None
    lo, hi = e[0], e[1]; out = set()
    if lo is None or lo + c < 0: out.add(-1)
    if (lo is None or lo + c <= 0) and (hi is None or hi + c >= 0) and -c not in e[2]: out.add(0)
    if hi is None or hi + c > 0: out.add(1)
    return out
def sign_post(S):
    def post(I, st2, o, exp):
        v = I.deep(st2, o[1])
        if not is_int(v): return [('sign', '', None, pretty(v))]
        sg = -1 if st2.facts.ev(ilt(v, V.I(0))) is True else 0 if st2.facts.ev(eq0(v)) is True else 1 if st2.facts.ev(ilt(V.I(0), v)) is True else None
        if sg is None:
            al = free_signs(st2.facts, v)
            if al and al - {S.sg}: sg = next(x for x in al if x != S.sg)     # a value with the wrong sign is possible
        return [('order', {-1: 'less', 0: 'equal', 1: 'greater'}[S.sg], None if sg is None else sg == S.sg, pretty(v))]
    return post
def b02(ctx, rep):
    """comparators: the sign on every path against lexicographic order"""
    M = MapT(ctx)
    S1 = ctx.summary(ctx.fn('compare_by_generated_pos_inflated'), 'cmp'); a, b = argn(S1, 0), argn(S1, 1)
    def spec(s):
        sg = inflated(s, M, a, b)
        if sg is None: return ANY
        if s.o[0] == 'panic': return R(UNIT)
        S1.sg = sg; return R(s.o[1])
    conform(ctx, rep, 'mapping-order', S1, spec, sign_post(S1))
    S2 = ctx.summary(ctx.fn('strcmp'), 'cmp'); x, y = argn(S2, 0), argn(S2, 1)
    def spec2(s):
        sg = ostr(s, x, y)
        if s.o[0] == 'panic': return R(UNIT)
        S2.sg = sg; return R(s.o[1])
    conform(ctx, rep, 'string-order', S2, spec2, sign_post(S2))

# ---------------------------------------------------------------- B03
def seq_last_first(v): return None
def order_closure(ctx, rep, rule, where, I, clo, key, M, st):
    """the sort comparator/key agrees with (line, column) order"""
    if not (isinstance(clo, tuple) and clo[0] in ('clo', 'fn')): rep.und(rule, where, 'comparator ' + pretty(clo)); return
    cid = clo[1]
    if clo[0] == 'fn':
        fr = ctx.p.fnrefs[clo[1]]; cid = fr.get('res') or fr['p']
    if cid not in ctx.p.bodies: rep.und(rule, where, 'comparator ' + str(cid)); return
    b = ctx.p.bodies[cid]; isclo = clo[0] == 'clo'
    n = b['argc'] - (1 if isclo else 0)
    a, bb = t('in', 'a'), t('in', 'b')
    base = 1 if isclo else 0
    def ref(nm):
        def f(I, st):
            st.mem[('in', nm)] = t('in', nm); return ('ref', ('in', nm), ())
        return f
    args = {base: ref('a')}
    if n == 2: args[base + 1] = ref('b')
    if isclo:
        args[0] = (lambda I, st: I.tmp(st, clo, 'clo')) if ctx.p.types[b['locals'][1]['t']]['k'] == 'ref' else (lambda I, st: clo)
    S0 = summ.run(ctx.p, cid, args=args); rep.seen(S0)
    if key:
        for o in S0.outs:
            v = S0.I.deep(o[-1], o[1]) if o[0] == 'ret' else None
            ok_ = v is not None and isinstance(v, tuple) and v[0] == 'tup' and len(v[1]) >= 2
            if not ok_: rep.und(rule, where, 'key ' + pretty(v) if v is not None else 'key'); continue
            c = Cmp(S0.I)
            rep.v3(rule, cid, conj2(c.same(o[-1], v[1][0], M.gl(a)), c.same(o[-1], v[1][1], M.gc(a))), 'sort key ' + pretty(v))
        return
    def spec(s):
        sg = M.glex(s, a, bb)
        if sg == 0: return ANY
        return R({-1: ORDV(S0, s, -1), 1: ORDV(S0, s, 1)}[sg])
    conform(ctx, rep, rule, S0, spec)
def conj2(a, b):
    from .rel import conj
    return conj(a, b)
def ORDV(S0, s, n):
    from .models import ORDV as O
    return O[n]
def b03(ctx, rep):
    """mapping list: add keeps every mapping; representation invariant (sorted flag, last) inductive; comparator order"""
    M = MapT(ctx)
    L = ctx.adt('MappingList')
    ia = ctx.role(L, r'^std::vec::Vec<.*Mapping>$')
    iF = ctx.role(L, r'^bool$', opt=True); il = ctx.role(L, r'^std::option::Option<.*Mapping>$', opt=True)
    S1 = ctx.summary(ctx.fn('MappingList', 'add'), 'ml'); me = self_in(S1); m = argn(S1, 1)
    S2 = ctx.summary(ctx.fn('MappingList', 'to_array'), 'ml'); me2 = self_in(S2)
    def pre(I, st):
        f = st.facts.assume(ilt(M.gl(m), V.I(1)), False)
        if f: f = f.assume(ilt(M.gc(m), V.I(0)), False)
        if f is None: return None
        st = st.copy(); st.facts = f; return st
    def stored(I, st, got, want): return ('stored mappings', 'all', False, pretty(I.deep(st, got))) if loses(I, I.deep(st, got), want) else ('stored mappings', got, want)
    conform(ctx, rep, 'keeps-all', S1, lambda s: R(UNIT), lambda I, st, o, e: [stored(I, st, fld(final(S1, o), ia), seqapp(fld(me, ia), m))], pre=pre)
    # does to_array rely on a flag / last element?
    uses_flag = iF is not None
    def spec2(s):
        S2.flag = s.cond(fld(me2, iF)) if uses_flag and s.known(fld(me2, iF)) is not None else None
        return R(s.o[1]) if s.o[0] == 'ret' else R(UNIT)
    sorters = []
    def post2(I, st2, o, exp):
        v = I.deep(st2, o[1]); fin = final(S2, o); arr = fld(me2, ia)
        out = []
        if v == arr:
            if uses_flag: out.append(('returned order', 'sorted', S2.flag is True, 'unsorted mappings returned without the flag'))
            else: out.append(('returned order', 'sorted', None, 'unsorted'))
        elif isinstance(v, T) and v.op == 'sorted':
            out.append(('sorted mappings', v.args[0], arr) if not loses(I, v, arr) else ('sorted mappings', 'all', False, pretty(v)))
            sorters.append((v.args[1], v.args[2], I, st2))
        else: out.append(('returned mappings', 'all, sorted', False if loses(I, v, arr) else None, pretty(v)))
        fa = I.deep(st2, fld(fin, ia))
        if fa != arr and not (isinstance(fa, T) and fa.op == 'sorted' and fa.args[0] == arr): out.append(('kept mappings', 'all', False if understood(I, fa) and seq_concrete(fa) == [] or loses(I, fa, arr) else None, pretty(fa)))
        if uses_flag:
            ff = fld(fin, iF)
            if ff == TRUE and S2.flag is not True: out.append(('flag', 'set only when the stored mappings are sorted', True if isinstance(fa, T) and fa.op == 'sorted' else False, pretty(fa)))
            if il is not None and ff != FALSE:      # additions are compared with the tracked last mapping
                l0, l1 = fld(me2, il), I.deep(st2, fld(fin, il))
                if Cmp(I).same(st2, l1, l0) is not True:
                    last = some(elem(fa, add(seq_len(fa), V.I(-1)))); n0 = st2.facts.ev(eq0(seq_len(arr)))
                    k1 = const_int(l1[3][0].args[1]) if isinstance(l1, tuple) and l1[:1] == ('adt',) and l1[2] == 1 and isinstance(l1[3][0], T) and l1[3][0].op == 'e' and l1[3][0].args[0] == fa else None
                    if k1 is not None and isinstance(fa, T) and fa.op == 'sorted' and st2.facts.assume(ilt(V.I(k1 + 1), seq_len(arr)), True) is None: k1 = None
                    v = True if n0 is True or Cmp(I).same(st2, l1, last) is True else False if k1 is not None or l1 == NONE and not (n0 is None and any(x == arr for c, _, _ in st2.trail for y in terms_in(c) if y.op == 'len' for x in y.args)) else None
                    out.append(('tracked last mapping', 'the greatest stored mapping', v, 'becomes ' + pretty(l1)))
        return out
    conform(ctx, rep, 'ordered-output', S2, spec2, post2)
    for kind, clo, I, st in sorters:
        order_closure(ctx, rep, 'sort-order', S2.b['id'], I, clo, 'key' in kind, M, st)
    # inductive invariant: flag => sorted; last is a maximum
    if uses_flag and il is not None:
        reset = any(o[0] == 'ret' and fld(final(S2, o), iF) == TRUE for o in S2.outs if o[-1].facts.ev(fld(me2, iF)) is False)
        def spec3(s):
            fin = final(S1, s.o); l0 = fld(me, il); l1 = fld(fin, il); f1 = fld(fin, iF)
            p = s.opt(l0)
            S1.rel = None if p is None else M.glex(s, p, m)
            S1.lv = p
            return R(s.o[1]) if s.o[0] == 'ret' else R(UNIT)
        def post3(I, st2, o, exp):
            fin = final(S1, o); l1 = I.deep(st2, fld(fin, il)); f1 = fld(fin, iF)
            out = []
            rel = S1.rel
            kept = f1 == fld(me, iF) or f1 == TRUE
            if rel == 1 and kept: out.append(('flag', 'cleared: the mapping precedes an earlier one', False if f1 == TRUE or kept else True, 'still sorted'))
            if f1 == TRUE: out.append(('flag', 'never set by adding', False, 'set'))
            # last element tracked must stay a maximum
            if f1 == FALSE and not reset: return out
            c = Cmp(I)
            if rel is None or rel == -1: out.append(('tracked last mapping', l1, some(m)))
            elif rel == 1:
                out.append(('tracked last mapping', l1, fld(me, il)))
            else:
                r1, r2 = c.same(st2, l1, some(m)), c.same(st2, l1, fld(me, il))
                out.append(('tracked last mapping', 'either', True if r1 is True or r2 is True else None, pretty(l1)))
            return out
        conform(ctx, rep, 'sorted-flag', S1, spec3, post3, pre=pre)
        Sd = ctx.summary(ctx.fn('MappingList', 'new'), 'ml')
        conform(ctx, rep, 'empty', Sd, lambda s: R(s.o[1]), lambda I, st, o, e: [('mappings', fld(I.deep(st, o[1]), ia), EMPTY), ('last', fld(I.deep(st, o[1]), il), NONE)])
    # iteration in insertion order
    S4 = ctx.summary(ctx.fn('MappingList', 'unsorted_for_each'), 'ml'); rep.seen(S4); me4 = self_in(S4); arr = fld(me4, ia)
    for o in S4.outs:
        if o[0] == 'panic': rep.v3('iterates-all', S4.b['id'], False if trail_ok(S4.I, o[-1]) else None, 'panics'); continue
        st = o[-1]; tr = cb_trace(S4.I, o[-1].events, st)
        if all(x[0] == 'cb' for x in tr) and len(tr) < 2:       # no traversal on this path
            ns = [x for x in (0, 1) if S4.I and st.facts.assume(ieq(seq_len(arr), V.I(x)), True) is not None]
            big = st.facts.assume(ilt(V.I(1), seq_len(arr)), True) is not None
            bad_ = big or any(x != len(tr) for x in ns)
            rep.v3('iterates-all', S4.b['id'], True if not bad_ and not tr else (False if trail_ok(S4.I, st) else None) if bad_ else None, {'path': trail_txt(st), 'got': 'the mappings are not traversed'}, last_site(st)); continue
        if len(tr) != 1 or tr[0][0] != 'for': rep.und('iterates-all', S4.b['id'], 'traversal shape'); continue
        rec = tr[0][1]; n = rec_range(rec)
        if n is None: rep.und('iterates-all', S4.b['id'], 'range'); continue
        r = conj2(Cmp(S4.I).same(st, n, seq_len(arr)), exhausted(st, rec, n))
        for b in rec.backs:
            es = cb_trace(S4.I, b['events'], b['st'])
            if len(es) != 1 or es[0][0] != 'cb': r = conj2(r, False if all(x[0] == 'cb' for x in es) else None); continue
            args = es[0][2]
            r = conj2(r, Cmp(S4.I).same(b['st'], ('tup', args) , ('tup', (elem(arr, rec.kappa), rec.kappa))))
        rep.v3('iterates-all', S4.b['id'], r, 'callback not given each mapping once with its index')

RULES = {'A01': a01, 'A02': a02, 'B01': b01, 'B02': b02, 'B03': b03}
