"""Reading loop summaries: ranges, comprehensions, callback traces."""
from .core import *
from . import interp

def as_lt(c, truth):
    """condition with truth -> ('lt', affine v) meaning v < 0, ('eq', v), ('ne', v) or None"""
    x, tr = c, truth
    while isinstance(x, tuple) and x[0] == 'not': x, tr = x[1], not tr
    if not (isinstance(x, tuple) and x[0] == 'cmp'): return None
    if x[1] == 'lt':
        if tr: return ('lt', x[2])
        return ('lt', add(scale(x[2], -1), V.I(-1)))      # v>=0  <=> -v-1<0
    return ('eq' if tr else 'ne', x[2])

def rec_range(rec):
    """n such that every iteration runs under κ < n (κ counts from 0); or None"""
    k = rec.kappa; ns = []
    for b in rec.backs:
        got = []
        for c, tr, _ in b['trail']:
            a = as_lt(c, tr)
            if not a: continue
            l = lin(a[1])
            if l is None: continue
            co = l[1].get(k)
            if co is None: continue
            rest = mk(l[0], {x: n for x, n in l[1].items() if x is not k})
            if k in terms_in(rest): continue
            if a[0] == 'lt' and co == 1: got.append(scale(rest, -1))
            elif a[0] == 'ne' and abs(co) == 1: got.append(scale(rest, -co))
        if not got: return None
        ns.append(got)
    if not ns: return None
    for n in ns[0]:
        if all(n in g for g in ns): return n
    return None

def variant(rec, v):
    """does v depend on what the loop changes"""
    ph = {x[0] for x in rec.phis.values() if isinstance(x[0], T)} | {rec.kappa}
    return bool(terms_in(v) & ph)

def recs_in(st):
    return [e[1] for e in st.events if e[0] == 'loop']

def exhausted(st, rec, n):
    r = st.facts.ev(ilt(rec.kappa, n))
    if r is None: return None
    if r is True and any(x.op in ('call', 'after') and x.args[0] in interp.UNKNOWN for c, _, _ in st.trail for x in terms_in(c)): return None
    return not r

def comp_check(I, st, v, n, elem_spec, o, extra=(), pre=None):
    """is sequence v (on a path in state st) exactly [elem_spec(κ) for κ in 0..n]?
    elem_spec(s, κ) -> value. -> (verdict, detail)"""
    v = I.deep(st, v)
    if isinstance(v, tuple) and v[0] == 'upd': return None, 'updated sequence'
    if isinstance(v, T) and v.op == 'phi':
        rec = I.rec_of(st, v)
        if rec is None: return None, 'φ'
        cp = next((cp for cp, x in rec.phis.items() if x[0] is v), None)
        init = rec.phis[cp][1]
        if seq_concrete(I.deep(st, init)) != []: return None, 'accumulator not empty initially'
        m = rec_range(rec)
        if m is None or variant(rec, m): return None, 'loop range'
        r = Cmp(I, extra).same(st, m, n)
        if r is not True: return r, 'iterates %s times, expected %s' % (pretty(m), pretty(n))
        ex = exhausted(st, rec, m)
        if ex is not True: return (False if ex is False else None), 'loop left early'
        verdict = True; det = ''
        for b in rec.backs:
            nx = b['next'][cp]
            ps = seq_pieces(nx)
            if not (ps and ps[0] == ('all', v)): return None, 'accumulator'
            pushed = [I.deep(b['st'], p[1]) for p in ps[1:]]
            if any(p[0] != 'one' for p in ps[1:]): return None, 'accumulator'
            def body(s):
                s.o = o
                return elem_spec(s, rec.kappa)
            o2 = ('ret', UNIT, b['st'])
            def body2(s): s.o = o2; return elem_spec(s, rec.kappa)
            bst = pre(b['st']) if pre else b['st']
            if bst is None: continue
            for exp, st2 in run_spec(I, bst, None, body2):
                tok = trail_ok(I, b['st'], set(extra))
                if len(pushed) != 1:
                    if not tok: return None, 'iteration condition not understood'
                    return False, 'an iteration contributes %d elements under %s' % (len(pushed), trail_txt(b['st'], 4))
                r = Cmp(I, extra).same(st2, pushed[0], I.deep(st2, exp))
                if r is False and not tok: r = None
                if r is not True:
                    return r, 'element is %s, expected %s' % (pretty(pushed[0]), pretty(exp))
        return True, ''
    if isinstance(v, T):
        r = Cmp(I, extra).same(st, seq_len(v), n)
        if r is not True: return r, 'length %s, expected %s' % (pretty(seq_len(v)), pretty(n))
        K = t('k', 'fresh', len(show(v)), ty='usize')
        def body(s): s.o = o; return elem_spec(s, K)
        s0 = st.copy()
        f = s0.facts.assume(ilt(K, n), True)
        if f is None: return True, ''
        s0.facts = f
        for exp, st2 in run_spec(I, s0, None, body):
            r = Cmp(I, extra).same(st2, elem(v, K), I.deep(st2, exp))
            if r is not True: return r, 'element is %s, expected %s' % (pretty(elem(v, K)), pretty(exp))
        return True, ''
    if isinstance(v, tuple) and v[0] == 'seq':
        c = seq_concrete(v)
        if c is not None:
            r = Cmp(I, extra).same(st, V.I(len(c)), n)
            if r is not True: return r, '%d elements, expected %s' % (len(c), pretty(n))
            for i, x in enumerate(c):
                def body(s): s.o = o; return elem_spec(s, V.I(i))
                for exp, st2 in run_spec(I, st, None, body):
                    r = Cmp(I, extra).same(st2, x, I.deep(st2, exp))
                    if r is not True: return r, 'element %d is %s, expected %s' % (i, pretty(x), pretty(exp))
            return True, ''
    return None, 'sequence shape'

def cb_trace(I, events, st):
    """user-callback trace: [('cb', args, st)] and ('for', rec)"""
    out = []
    for e in events:
        if e[0] == 'callback': out.append(('cb', e[1], e[2]))
        elif e[0] == 'loop':
            if any(has_cb(b['events']) for b in e[1].backs): out.append(('for', e[1]))
    return out
def has_cb(events):
    for e in events:
        if e[0] == 'callback': return True
        if e[0] == 'loop' and any(has_cb(b['events']) for b in e[1].backs): return True
    return False
