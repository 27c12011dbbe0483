"""Binary search: bracket contract, decided by induction over one step."""
from .basic import *
from .loops import *
from . import summ, poly

SEARCH = 'search'
def find_engine(ctx):
    """(search summary, engine id or None): the helper that narrows the bracket"""
    sid = ctx.fn('search')
    return sid

def b04(ctx, rep):
    """search answers with the nearest element, and with the first of equal ones"""
    sid = ctx.fn('search'); b = ctx.p.bodies[sid]
    # the local helper that narrows the bracket, if it is a recursive one
    reach = set(); work = [sid]
    while work:
        for c in callees(ctx.p, work.pop()):
            if c not in reach: reach.add(c); work.append(c)
    engs = [c for c in sorted(reach) if c != sid and c in callees(ctx.p, c)]
    eng = engs[0] if len(engs) == 1 else None
    S = ctx.summary(sid, 'b4', opaque=[eng] if eng else []); rep.seen(S)
    where = sid
    A = args_of(S)
    if A is None: raise RoleError('arguments of search')
    needle, hay, c1, c2, bias = A
    n = seq_len(hay)
    for o in S.outs:
        st = o[-1]; tok = trail_ok(S.I, st, {'phi'})
        empty = st.facts.ev(eq0(n))
        if empty is True:
            rep.v3('empty-list', where, True if o[0] == 'ret' and st.facts.ev(ieq(o[1], V.I(-1))) is True else (False if tok else None), {'path': trail_txt(st), 'got': pretty(o[1]) if o[0] == 'ret' else str(o[1]), 'expected': '-1'}, last_site(st))
    if eng is None:
        loop_engine(ctx, rep, S, A); return
    # calls of the engine
    en = ctx.cn(eng)
    E = ctx.summary(eng, 'b4rec', opaque=[eng]); rep.seen(E)
    roles = None
    for o in S.outs:
        for e in o[-1].events:
            if e[0] != 'call' or e[1] != en: continue
            a = [S.I.deep(o[-1], x) for x in e[2]]
            iL = [i for i, x in enumerate(a) if const_int(x) == -1]; iH = [i for i, x in enumerate(a) if x == n]
            iN = [i for i, x in enumerate(a) if x == needle]; iY = [i for i, x in enumerate(a) if x == hay]; iC = [i for i, x in enumerate(a) if x == c1]
            if all(len(x) == 1 for x in (iN, iY, iC)) and not (len(iL) == 1 and len(iH) == 1):
                # another initial bracket: is the step correct for some reading of it?
                cl = [i for i, x in enumerate(a) if i not in iN + iY + iC and const_int(x) is not None]
                ch = [i for i, x in enumerate(a) if i not in iN + iY + iC and lin(x) is not None and set(terms_in(x)) & set(terms_in(n))]
                for i in cl:
                    for j in ch:
                        rest = [k for k in range(len(a)) if k not in (i, j) and k not in iN + iY + iC]
                        if len(rest) != 1: continue
                        rr = Rep('B04'); step(ctx, rr, E, (i, j, iN[0], iY[0], iC[0], rest[0]), en)
                        c = rr.counts()
                        if not c['violated'] and not c['undecided'] and c['held']:
                            rep.v3('initial-bracket', where, False if tok_(S.I, o[-1]) else None, {'got': 'searches between %s and %s' % (pretty(a[i]), pretty(a[j])), 'expected': 'between -1 and the length'}, e[-1] if isinstance(e[-1], str) else '')
                            return
            if not all(len(x) == 1 for x in (iL, iH, iN, iY, iC)): raise RoleError('bracket arguments of %s: %s' % (en, pretty(('tup', tuple(a)))))
            rest = [i for i in range(len(a)) if i not in iL + iH + iN + iY + iC]
            if len(rest) != 1: raise RoleError('bias argument')
            r = (iL[0], iH[0], iN[0], iY[0], iC[0], rest[0])
            if roles not in (None, r): raise RoleError('bracket arguments differ')
            roles = r
            P = poly.of_path(o[-1].trail)
            if o[-1].facts.ev(eq0(n)) is not False and not P.proves_le(V.I(1), n): empty_call(rep, E, r, en, o, S)
            else: rep.ok('empty-list', where)
            def body(s, o=o, a=a, r=r):
                s.o = o
                w = s.opt(bias)
                return V.I(1) if w is None else w
            for w, st2 in run_spec(S.I, o[-1], S, body):
                x = a[r[5]]
                same = Cmp(S.I).same(st2, x, w)
                if same is not True and lin(x) is not None and w == V.I(1): same = True if const_int(x) is not None and const_int(x) != 2 else same
                rep.v3('bias', where, same, {'got': pretty(x), 'expected': pretty(w)}, last_site(o[-1]))
    if roles is None: raise RoleError('no bracket')
    step(ctx, rep, E, roles, en)
    first_of_equals(ctx, rep, S, A, lambda st, v: isinstance(v, T) and v.op == 'call' and v.args[0] == en)

def empty_call(rep, E, roles, en, o, S):
    """the narrowing function may be called on an empty list: it has to answer -1"""
    I = E.I; L, H, needle, hay, cmpf, bias = [argn(E, i) for i in roles]; n = seq_len(hay)
    for x in E.outs:
        st = x[-1]
        P = poly.of_path(st.trail, n, scale(n, -1), H, scale(H, -1), add(L, V.I(1)), sub(V.I(-1), L))
        if not P.sat(): continue
        tok = trail_ok(I, st) and tok_(S.I, o[-1])
        cb_ = [a for e in st.events if e[0] == 'callback' for a in e[2] if isinstance(a, T) and a.op == 'e' and a.args[0] == hay]
        v = I.deep(st, x[1]) if x[0] == 'ret' else None
        good = not cb_ and v is not None and lin(v) is not None and P.proves_eq(v, V.I(-1))
        rep.v3('empty-list', S.b['id'], True if good else False if tok else None, {'path': trail_txt(o[-1]), 'then': trail_txt(st), 'got': 'compares with an element of an empty list' if cb_ else pretty(v) if v is not None else str(x[1][0]), 'expected': '-1'}, last_site(o[-1]))

def tok_(I, st): return trail_ok(I, st, {'phi'})
def args_of(S):
    n = len(S.args); b = S.b
    if n != 5: return None
    return [argn(S, 0), argn(S, 1), argn(S, 2), argn(S, 3), argn(S, 4)]

def cbs(trail):
    """compare results known on the path: {index term: {sign facts}}"""
    out = []
    for c, tr, _ in trail:
        for x in terms_in(c):
            if x.op == 'cb' and len(x.args) == 3 and x not in [y[0] for y in out]: out.append((x, x.args[1], x.args[2]))
    return out

def step(ctx, rep, E, roles, en):
    """one activation of the narrowing function under the bracket invariant"""
    I = E.I; where = E.b['id']
    L, H, needle, hay, cmpf, bias = [argn(E, i) for i in roles]
    n = seq_len(hay)
    pre = [sub(V.I(-1), L), sub(H, n), add(sub(L, H), V.I(2))]      # -1 <= L, H <= len, H - L >= 2
    for o in E.outs:
        st = o[-1]
        P = poly.of_path(st.trail, *pre)
        if not P.sat(): continue
        tok = trail_ok(I, st)
        lo = lambda x: P.proves_eq(x, L) or sign(P, st, needle, hay, x, 1)
        hi = lambda x: P.proves_eq(x, H) or sign(P, st, needle, hay, x, -1)
        def bad(why): rep.v3(rule, where, False if tok else None, {'path': trail_txt(st), 'why': why}, last_site(st))
        bad.where = where
        for e in st.events:
            if e[0] != 'callback': continue
            for a in e[2]:
                if isinstance(a, T) and a.op == 'e' and a.args[0] == hay:
                    rule = 'index-range'
                    if P.proves_le(V.I(0), a.args[1]) and P.proves_lt(a.args[1], n): rep.ok(rule, where)
                    else: bad('compares with element %s, which may be outside the list' % pretty(a.args[1]))
        if o[0] == 'panic':
            rule = 'index-range'; bad('may fail: %s' % str(o[1][0])); continue
        v = I.deep(st, o[1])
        rule = 'narrowing'
        if isinstance(v, T) and v.op == 'call' and v.args[0] == en:
            a = v.args[1:]
            L2, H2 = a[roles[0]], a[roles[1]]
            oth = [(a[roles[i]], x) for i, x in ((2, needle), (3, hay), (4, cmpf), (5, bias))]
            if any(Cmp(I).same(st, x, y) is not True for x, y in oth): bad('passes on other arguments: ' + ', '.join(pretty(x) for x, y in oth if Cmp(I).same(st, x, y) is not True)); continue
            if not (P.proves_le(V.I(-1), L2) and P.proves_le(H2, n) and P.proves_le(add(L2, V.I(2)), H2)): bad('the bracket %s..%s may be empty or leave the list' % (pretty(L2), pretty(H2))); continue
            if not P.proves_lt(sub(H2, L2), sub(H, L)): bad('the bracket %s..%s does not shrink' % (pretty(L2), pretty(H2))); continue
            if not lo(L2): bad('the lower end %s is not known to be below the needle' % pretty(L2)); continue
            if not hi(H2): bad('the upper end %s is not known to be above the needle' % pretty(H2)); continue
            rep.ok(rule, where); continue
        rule = 'answer'
        if lin(v) is None: rep.und(rule, where, pretty(v)); continue
        if sign(P, st, needle, hay, v, 0): rep.ok(rule, where); continue
        answer(ctx, rep, st, v, P, L, H, needle, hay, bias, n, lo, hi, bad)

def answer(ctx, rep, st, v, P, L, H, needle, hay, bias, n, lo, hi, bad):
    rule = 'answer'; where = None
    lub = bias if isinstance(bias, bool) else st.facts.ev(ieq(bias, V.I(2)))
    cand = [L, H, add(H, V.I(-1)), add(L, V.I(1))] + [x[2].args[1] for x in cbs(st.trail) if isinstance(x[2], T) and x[2].op == 'e']
    def good(lub):
        # low side x, high side x + 1
        for x in cand:
            y = add(x, V.I(1))
            if not (lo(x) and hi(y)): continue
            if lub and (P.proves_eq(v, y) and P.proves_lt(y, n) or P.proves_eq(v, V.I(-1)) and P.proves_eq(y, n)): return True
            if not lub and P.proves_eq(v, x): return True
        return False
    for l in ((True, False) if lub is None else (lub,)):
        if not good(l): bad('answers %s, which is not known to be the %s bound' % (pretty(v), 'least upper' if l else 'greatest lower')); return
    rep.ok(rule, bad.where)

def sign(P, st, needle, hay, x, want):
    """does the path know sign(compare(needle, hay[x])) == want"""
    for cb, a, b in cbs(st.trail):
        if not (isinstance(b, T) and b.op == 'e' and b.args[0] == hay and a == needle): continue
        if not P.proves_eq(b.args[1], x): continue
        if want == 0 and P.proves_eq(cb, V.I(0)): return True
        if want > 0 and P.proves_lt(V.I(0), cb): return True
        if want < 0 and P.proves_lt(cb, V.I(0)): return True
    return False

def first_of_equals(ctx, rep, S, A, is_hit, hit_of=None, skip=()):
    """the answer is the hit moved down over neighbours comparing equal"""
    I = S.I; where = S.b['id']; needle, hay, c1, c2, bias = A; n = seq_len(hay)
    if hit_of is None and is_hit is None: return
    for o in S.outs:
        st = o[-1]
        if st.facts.ev(eq0(n)) is True: continue
        tok = trail_ok(I, st, {'phi'})
        if hit_of:
            h = hit_of(st)
            if h is None: continue
            hits = {h}
        else: hits = {x for c, _, _ in st.trail for x in terms_in(c) if is_hit(st, x)} | ({x for x in terms_in(I.deep(st, o[1])) if is_hit(st, x)} if o[0] == 'ret' else set())
        if len(hits) != 1: rep.und('first-of-equals', where, '%d searches on the path' % len(hits)); continue
        h = next(iter(hits))
        pre = [sub(V.I(-1), h), add(sub(h, n), V.I(1))]
        P = poly.of_path(st.trail, *pre)
        if not P.sat(): continue
        def bad(why): rep.v3('first-of-equals', where, False if tok else None, {'path': trail_txt(st), 'why': why}, last_site(st))
        if o[0] == 'panic': bad('may fail: %s at %s' % (o[1][0], o[1][-1])); continue
        v = I.deep(st, o[1])
        if lin(v) is None: rep.und('first-of-equals', where, pretty(v)); continue
        if P.proves_lt(h, V.I(0)):
            if P.proves_eq(v, V.I(-1)): rep.ok('first-of-equals', where)
            else: bad('answers %s when nothing was found' % pretty(v))
            continue
        recs = [r for r in recs_in(st) if id(r) not in skip]
        if len(recs) > 1: rep.und('first-of-equals', where, 'loops'); continue
        def eqn(P, stx, x, want):
            for c, _, _ in stx.trail:
                for y in terms_in(c):
                    if y.op != 'cb' or len(y.args) != 3: continue
                    if y.args[0] != c2: continue
                    a, b = y.args[1], y.args[2]
                    if not all(isinstance(z, T) and z.op == 'e' and z.args[0] == hay for z in (a, b)): continue
                    i, j = a.args[1], b.args[1]
                    if not ((P.proves_eq(i, x) and P.proves_eq(j, add(x, V.I(-1)))) or (P.proves_eq(j, x) and P.proves_eq(i, add(x, V.I(-1))))): continue
                    if want and P.proves_eq(y, V.I(0)): return True
                    if not want and (stx.facts.ev(eq0(y)) is False): return True
            return False
        okk = P.proves_le(v, V.I(0)) or eqn(P, st, v, False)
        if not okk: bad('stops at %s although the element before may be equal' % pretty(v)); continue
        # every step down is over an equal neighbour
        good = P.proves_eq(v, h)
        for rec in recs:
            for cp, (ph, init) in rec.phis.items():
                pv = I.deep(st, ph)
                if lin(pv) is None or not P.proves_eq(v, pv): continue
                good = True
                if I.deep(rec.hdr, init) != h: good = False; why = 'starts at ' + pretty(init)
                for b in rec.backs:
                    Pb = poly.of_path(b['st'].trail, *pre)
                    nx = I.deep(b['st'], b['next'][cp]); cur = I.deep(b['st'], ph)
                    nx = subst(cur, {rec.kappa: add(rec.kappa, V.I(1))}) if not (isinstance(nx, (T, tuple)) and lin(nx) is not None) else nx
                    if not Pb.proves_eq(nx, add(cur, V.I(-1))): good = False; why = 'moves by more than one element'
                    elif not eqn(Pb, b['st'], cur, True): good = False; why = 'moves down over an element that may differ'
                break
        if good: rep.ok('first-of-equals', where)
        else: bad('answers %s: %s' % (pretty(v), why if recs else 'not the element found'))

def loop_engine(ctx, rep, S, A):
    """the same contract when the bracket is narrowed by a loop"""
    I = S.I; where = S.b['id']; needle, hay, c1, c2, bias = A; n = seq_len(hay)
    recs = {}
    for o in S.outs:
        for r in recs_in(o[-1]):
            l = [cp for cp, (ph, init) in r.phis.items() if const_int(I.deep(r.hdr, init)) == -1]
            h = [cp for cp, (ph, init) in r.phis.items() if I.deep(r.hdr, init) == n]
            if len(l) == 1 and len(h) == 1: recs[id(r)] = (r, l[0], h[0])
    if not recs: raise RoleError('no bracket -1..len')
    for r, cl, ch in recs.values():
        L, H = r.phis[cl][0], r.phis[ch][0]
        pre = [sub(V.I(-1), L), sub(H, n), add(sub(L, H), V.I(1))]
        for b in r.backs:
            st = b['st']; P = poly.of_path(st.trail, *pre)
            if not P.sat(): continue
            tok = trail_ok(I, st, {'phi'})
            def bad(why): rep.v3('narrowing', where, False if tok else None, {'path': trail_txt(st), 'why': why}, last_site(st))
            lo = lambda x: P.proves_eq(x, L) or sign(P, st, needle, hay, x, 1)
            hi = lambda x: P.proves_eq(x, H) or sign(P, st, needle, hay, x, -1)
            L2, H2 = I.deep(st, b['next'][cl]), I.deep(st, b['next'][ch])
            if not (P.proves_le(V.I(-1), L2) and P.proves_le(H2, n) and P.proves_le(add(L2, V.I(1)), H2)): bad('the bracket %s..%s may be empty or leave the list' % (pretty(L2), pretty(H2)))
            elif not P.proves_lt(sub(H2, L2), sub(H, L)): bad('the bracket %s..%s does not shrink' % (pretty(L2), pretty(H2)))
            elif not lo(L2): bad('the lower end %s is not known to be below the needle' % pretty(L2))
            elif not hi(H2): bad('the upper end %s is not known to be above the needle' % pretty(H2))
            else: rep.ok('narrowing', where)
    for o in S.outs:
        st = o[-1]
        rs = [recs[id(r)] for r in recs_in(st) if id(r) in recs]
        if len(rs) != 1: continue
        r, cl, ch = rs[0]; L, H = r.phis[cl][0], r.phis[ch][0]
        P = poly.of_path(st.trail, sub(V.I(-1), L), sub(H, n), add(sub(L, H), V.I(1)))
        if not P.sat(): continue
        tok = trail_ok(I, st, {'phi'})
        def bad(why): rep.v3('answer', where, False if tok else None, {'path': trail_txt(st), 'why': why}, last_site(st))
        bad.where = where
        lo = lambda x: P.proves_eq(x, L) or sign(P, st, needle, hay, x, 1)
        hi = lambda x: P.proves_eq(x, H) or sign(P, st, needle, hay, x, -1)
        for e in st.events:
            if e[0] != 'callback': continue
            for a in e[2]:
                if isinstance(a, T) and a.op == 'e' and a.args[0] == hay and e[1] == c1:
                    if P.proves_le(V.I(0), a.args[1]) and P.proves_lt(a.args[1], n): rep.ok('index-range', where)
                    else: bad('compares with element %s, which may be outside the list' % pretty(a.args[1]))
        others = [x for x in recs_in(st) if id(x) not in recs]
        hs = [I.deep(x.hdr, i) for x in others for ph, i in x.phis.values() if lin(I.deep(x.hdr, i)) is not None and ph is not x.kappa]
        if o[0] == 'panic' and not others: bad('may fail: %s' % str(o[1][0])); continue
        if not others: hs = [I.deep(st, o[1])]
        if len(hs) != 1: rep.und('answer', where, 'form'); continue
        def body(s):
            s.o = o
            w = s.opt(bias)
            return False if w is None else s.ieq(w, 2)
        for lub, st2 in run_spec(I, st, S, body):
            P = poly.of_path(st2.trail, sub(V.I(-1), L), sub(H, n), add(sub(L, H), V.I(1)))
            if sign(P, st2, needle, hay, hs[0], 0): rep.ok('answer', where); continue
            answer(ctx, rep, st2, hs[0], P, L, H, needle, hay, lub, n, lo, hi, bad)
    def hit_of(st):
        others = [x for x in recs_in(st) if id(x) not in recs]
        hs = {I.deep(x.hdr, i) for x in others for ph, i in x.phis.values() if lin(I.deep(x.hdr, i)) is not None and ph is not x.kappa}
        return next(iter(hs)) if len(hs) == 1 else None
    first_of_equals(ctx, rep, S, A, None, hit_of, set(recs))

RULES = {'B04': b04}
