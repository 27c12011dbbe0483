"""Termination: every loop has a bound or a decreasing measure, every recursion a decreasing one."""
from .rules_i import *
from . import poly
from .rules_c import MapT
from .rules_ab import plain

def ne_guard(rec):
    """guards of the form v != 0 in which the counter has step one: v as n - κ"""
    k = rec.kappa; out = None
    for b in rec.backs:
        got = []
        for c, tr, _ in b['trail']:
            a = as_lt(c, tr)
            if not a or a[0] != 'ne': continue
            l = lin(a[1]); co = l and l[1].get(k)
            if co is None or abs(co) != 1: continue
            rest = mk(l[0], {x: n for x, n in l[1].items() if x is not k})
            if k not in terms_in(rest): got.append(scale(rest, -co))
        if not got: return []
        out = got if out is None else [x for x in out if x in got]
    return out or []
def lt_guard(rec):
    """κ < n on every iteration, as an inequality"""
    k = rec.kappa
    for c, tr, _ in rec.backs[0]['trail'] if rec.backs else []:
        a = as_lt(c, tr)
        if not a or a[0] != 'lt': continue
        l = lin(a[1])
        if not l or (l[1].get(k) or 0) < 1 or variant(rec, mk(l[0], {x: n for x, n in l[1].items() if x is not k})): continue
        if all(any(as_lt(c2, t2) == a for c2, t2, _ in b['trail']) for b in rec.backs): return True
    return False
def ordered(ctx, v):
    """is v the ordered list of mappings (B03)"""
    return isinstance(v, T) and (v.op == 'sorted' or v.op == 'call' and v.args[0] == ctx.cn(ctx.fn('MappingList', 'to_array')))
def nonneg(ctx, I, rec, n):
    """n >= 0 whenever the loop starts: known there, or because the lines of an ordered list do not decrease"""
    f = rec.hdr.facts
    if f.ev(ilt(n, V.I(0))) is False or poly.of_path(rec.hdr.trail).proves_le(V.I(0), n): return True
    M = MapT(ctx); l = lin(n)
    if l is None or l[0] != 0 or len(l[1]) != 2 or sorted(l[1].values()) != [-1, 1]: return False
    up = next(x for x, c in l[1].items() if c == 1); ph = next(x for x, c in l[1].items() if c == -1)
    out = I.phi_rec.get(ph)
    if out is None or ph.op != 'phi': return False
    el = [x for x in terms_in(up) if x.op == 'e' and ordered(ctx, x.args[0]) and x.args[1] is out.kappa and M.gl(x) == up]
    if not el: return False
    cp = next((cp for cp, x in out.phis.items() if x[0] is ph), None)
    ini = I.deep(out.hdr, out.phis[cp][1])
    if const_int(ini) is None or const_int(ini) > 1: return False       # lines are 1 or more (C06)
    # the member keeps the line of the element before
    return all(b['st'].facts.ev(ieq(I.deep(b['st'], b['next'][cp]), up)) is True for b in out.backs)
def measure(ctx, I, rec):
    """something that decreases with every iteration and cannot do so for ever"""
    if not rec.backs: return True
    if lt_guard(rec): return True
    for n in ne_guard(rec):
        if not variant(rec, n) and nonneg(ctx, I, rec, n): return True
    for cp, (ph, ini) in rec.phis.items():
        if not isinstance(ph, T): continue
        nx = [I.deep(b['st'], b['next'][cp]) for b in rec.backs]
        if all(isinstance(x, T) and (x.op == 'drop' and x.args[0] is ph and (const_int(x.args[1]) or 0) > 0 or x.op == 'init' and x.args[0] is ph) and b['st'].facts.ev(ilt(V.I(0), seq_len(ph))) is True for x, b in zip(nx, rec.backs)): return True
        if all(isinstance(x, T) and x.op == 'shr' and x.args[0] is ph and (const_int(x.args[1]) or 0) > 0 and b['st'].facts.ev(ilt(V.I(0), x)) is True for x, b in zip(nx, rec.backs)): return True
    # linear measure from a guard
    for c, tr, _ in rec.backs[0]['trail']:
        a = as_lt(c, tr)
        if not a or a[0] != 'lt': continue
        v = a[1]; good = True
        for b in rec.backs:
            sub_ = {ph: I.deep(b['st'], b['next'][cp]) for cp, (ph, ini) in rec.phis.items() if isinstance(ph, T)}
            sub_[rec.kappa] = add(rec.kappa, V.I(1))
            P = poly.of_path(b['st'].trail)
            v2 = V.subst(v, sub_)
            if not (P.proves_lt(v, V.I(0)) and lin(v2) is not None and P.proves_lt(v, v2)): good = False; break
        if good: return True
    # a fixed text contains finitely many numbers
    for c, tr, _ in rec.backs[0]['trail']:
        if not (isinstance(c, T) and c.op == 'contains' and tr): continue
        x, s = c.args
        if variant(rec, x): continue
        ps = [p for p in parts(s) if not isinstance(p, str) and variant(rec, p)]
        if len(ps) == 1 and isinstance(ps[0], T) and ps[0].op == 'dec':
            l = lin(ps[0].args[0])
            if l and l[1].get(rec.kappa) and not variant(rec, mk(l[0], {y: n for y, n in l[1].items() if y is not rec.kappa})) and all(any(c2 == c and t2 for c2, t2, _ in b['trail']) for b in rec.backs): return True
    return None
def lasso(I, rec):
    """an iteration after which the same iteration can follow for ever: its path"""
    for b in rec.backs:
        st = b['st']
        if not trail_ok(I, st, {'phi'}): continue
        nxt = {ph: I.deep(st, b['next'][cp]) for cp, (ph, ini) in rec.phis.items() if isinstance(ph, T)}
        ph = set(nxt)
        rel = set(); todo = [c for c, _, _ in b['trail']]
        while todo:
            for x in terms_in(todo.pop()):
                if x is rec.kappa: rel = None; break
                if x in ph and x not in rel: rel.add(x); todo.append(nxt[x])
            if rel is None: break
        if rel is None or any(nxt[x] is not x and terms_in(nxt[x]) & ph for x in rel): continue
        if any(e[0] not in ('loop', 'call') for e in b['events']): continue
        mp = {x: nxt[x] for x in rel}
        f = st.facts.drop_terms(set(rel) - {x for x in rel if nxt[x] is x}); okk = True
        for c, tr, _ in b['trail']:
            c2 = V.subst(c, mp); e = f.ev(c2)
            if e is not None and e != tr: okk = False; break
            if e is None:
                f = f.assume(c2, tr)
                if f is None: okk = False; break
        if okk: return st
    return None

def stuck(I, rec):
    """an iteration that changes nothing and that some input reaches: its path"""
    own_phi = {x[0] for x in rec.phis.values() if isinstance(x[0], T)}
    def free(c):
        for x in terms_in(c):
            if x is rec.kappa or x.op in ('sorted', 'k') or x.op == 'phi' and x not in own_phi: return False
            if x.op == 'e' and not plain(x.args[0]): return False
            if x.op == 'call' and (x.ty not in ('i32', 'i64') or not I.p.bodies.get(x.args[0])): return False
        return True
    for b in rec.backs:
        st = b['st']
        if any(I.deep(st, b['next'][cp]) is not ph for cp, (ph, ini) in rec.phis.items()): continue
        if any(e[0] not in ('loop', 'call', 'callback') for e in b['events']): continue
        if not all(free(c) and understood(I, c, {'phi', 'call', 'cb'}) for c, _, _ in st.trail): continue
        if poly.witness(poly.of_facts(st.facts)) is not None: return st
    return None

def cyclic(rec):
    """an unbounded search in a text among finitely many numbers"""
    if not rec.backs: return None
    for cp, (ph, ini) in rec.phis.items():
        if not isinstance(ph, T): continue
        for b in rec.backs:
            x = b['next'][cp]
            if not (isinstance(x, T) and x.op == 'bin' and x.args[0] in ('Rem', 'BitAnd') and const_int(x.args[2]) is not None): break
        else:
            def about(c, tr): return isinstance(c, T) and c.op == 'contains' and tr and plain(c.args[0]) and ph in terms_in(c.args[1]) and all(p is ph or isinstance(p, str) or p.op == 'dec' or plain(p) for p in parts(c.args[1]))
            if all(b['trail'] and all(about(c, tr) for c, tr, _ in b['trail']) for b in rec.backs): return b['next'][cp]
    return None
def skips(I, rec):
    """a counter that moves by more than one and is only compared with !=, against a number any input can set"""
    for c, tr, _ in rec.backs[0]['trail'] if rec.backs else []:
        a = as_lt(c, tr)
        if not a or a[0] != 'ne' or len({len(b['trail']) for b in rec.backs}) != 1 or len(rec.backs[0]['trail']) != 1: continue
        l = lin(a[1]); co = l and l[1].get(rec.kappa)
        if not co or abs(co) < 2 or not all(any(as_lt(c2, t2) == a for c2, t2, _ in b['trail']) for b in rec.backs): continue
        rest = {x: n for x, n in l[1].items() if x is not rec.kappa}
        if len(rest) <= 2 and any(abs(n) == 1 and (x.op in ('f', 'in') and not any(y.op in ('phi',) for y in terms_in(x)) or x.op == 'len' and plain(x.args[0])) for x, n in rest.items()) and trail_ok(I, rec.hdr, {'phi', 'k', 'call'}): return rec.hdr
    return None
def away(ctx, I, rec):
    """a counter compared with != that starts beyond the value it is compared with, for some input"""
    for n in ne_guard(rec):
        if variant(rec, n): continue
        mp = {}
        for x in terms_in(n):
            if x.op == 'k': mp[x] = V.I(0)
            if x.op == 'phi':
                out = I.phi_rec.get(x)
                cp = out and next((cp for cp, y in out.phis.items() if y[0] is x), None)
                ini = cp and I.deep(out.hdr, out.phis[cp][1])
                if not ini or const_int(ini) is None: mp = None; break
                mp[x] = ini
        if mp is None: continue
        # the first time the loop is reached
        st = rec.hdr; m = V.subst(n, mp); f = rec.hdr.facts
        l = lin(m)
        if l is None or not all(x.op in ('f', 'in') and x.ty in ('i32', 'u32', 'usize', 'i64') for x in l[1]): continue
        if not trail_ok(I, st, {'phi', 'k', 'call'}): continue
        p = poly.Poly()
        for c, tr, _ in st.trail: p.cond(V.subst(c, mp), tr)
        p.axioms()
        for x in {x for d, _ in p.cs for x in d if x.op == 'f'} | set(l[1]): p.le0(sub(V.I(1), x))
        p.lt0(m)
        if poly.witness(p) is not None: return st
    return None

def recursive(ctx, rep, fid):
    S = ctx.summary(fid, 'rec', opaque=[fid]); rep.seen(S); I = S.I; cn = ctx.cn(fid); A = [argn(S, i) for i in range(S.b['argc'])]
    ints = [i for i, a in enumerate(A) if isinstance(a, T) and a.ty in ('i32', 'i64', 'usize', 'isize', 'u32')]
    calls = [(o[-1], [I.deep(o[-1], x) for x in e[2]]) for o in S.outs for e in o[-1].events if e[0] == 'call' and e[1] == cn]
    hidden = [e for o in S.outs for e in o[-1].events if e[0] == 'loop' and any(x[0] == 'call' and x[1] == cn for b in e[1].backs for x in b['events'])]
    if hidden: rep.und('recursion', fid, 'calls itself in a loop'); return
    for st, a in calls:
        if all(x == y for x, y in zip(a, A)): rep.v3('recursion', fid, False if trail_ok(I, st) else None, {'path': trail_txt(st), 'got': 'calls itself with the same arguments'}, last_site(st)); return
    # what holds of the arguments at every call
    ext = []
    for bid, b in ctx.p.bodies.items():
        if bid == fid or fid not in callees(ctx.p, bid): continue
        C = ctx.summary(bid, 'callrec', opaque=[fid])
        ext += [(o[-1], [C.I.deep(o[-1], x) for x in e[2]]) for o in C.outs for e in o[-1].events if e[0] == 'call' and e[1] == cn]
    cand = [(i, j, c) for i in ints for j in ints if i != j for c in (0, 1, 2)]
    def val(x, k): i, j, c = k; return add(sub(x[j], x[i]), V.I(c))      # <= 0: x[i] - x[j] >= c
    okv = lambda x: all(is_int(x[i]) and lin(x[i]) is not None for i in ints)
    if not all(okv(a) for _, a in ext + calls): rep.und('recursion', fid, 'arguments'); return
    def pr(st, x, k, pre):
        P = poly.of_path(st.trail, *pre, *[scale(seq_len(q), -1) for q in A if isinstance(q, T)])
        return P.proves_le0(val(x, k))
    cand = [k for k in cand if all(poly.of_path(st.trail, *[v for v in lens(st, a)]).proves_le0(val(a, k)) for st, a in ext)]
    while True:
        pre = [val(A, k) for k in cand]
        keep = [k for k in cand if all(pr(st, a, k, pre) for st, a in calls)]
        if keep == cand: break
        cand = keep
    for i in ints:
        for j in ints:
            if i == j: continue
            pre = [val(A, k) for k in cand]
            if all((lambda P: P.proves_lt(sub(a[i], a[j]), sub(A[i], A[j])) and P.proves_le0(sub(A[j], A[i])))(poly.of_path(st.trail, *pre)) for st, a in calls):
                for _ in calls: rep.ok('recursion', fid)
                return
    w = same_args(A, ints, calls, ext)
    if w: rep.bad('recursion', fid, {'path': trail_txt(w[0]), 'got': 'calls itself with the arguments it has', 'where they are': w[1]}, last_site(w[0])); return
    rep.und('recursion', fid, 'no decreasing measure')
def same_args(A, ints, calls, ext):
    """short lists: do the numbers a call can reach include ones the function passes on unchanged?"""
    ints = [i for i in ints if any(a[i] != A[i] for _, a in calls)]
    others = [i for i in range(len(A)) if i not in ints]
    def ground(v, mp):
        v = V.subst(v, mp)
        return const_int(v) if is_int(v) else None
    fixed = {A[i] for i in others if isinstance(A[i], T)}
    for n in (1, 2, 3, 4, 5, 9, 33, 65, 129, 1025):
        lens_ = {seq_len(q): V.I(n) for q in A if isinstance(q, T)}
        todo = []; seen = set()
        for st, a in ext:
            lm = {x: V.I(n) for v in a if isinstance(v, (T, tuple)) for x in terms_in(v) if x.op == 'len'}
            x = tuple(ground(a[i], lm) for i in ints)
            if None in x: continue
            given = []      # constants passed for the other arguments
            for i in others:
                if is_int(a[i]) and const_int(a[i]) is not None and isinstance(A[i], T): given.append((eq0(sub(A[i], a[i])), True, ''))
            todo.append((x, tuple(given)))
        while todo and len(seen) < 400:
            x, given = todo.pop()
            if (x, given) in seen: continue
            seen.add((x, given)); mp = {**lens_, **{A[i]: V.I(v) for i, v in zip(ints, x)}}
            for st, a in calls:
                okk = True; more = list(given)
                for c, tr, _ in st.trail:
                    c2 = V.subst(c, mp); e = decide(c2)
                    if e is None and not any(y.op == 'cb' for y in terms_in(c)):
                        if all(y in fixed for y in terms_in(c2)): more += [(c2, tr, '')] if (c2, tr, '') not in more else []
                        else: okk = False
                    if e is not None and e != tr: okk = False
                    if not okk: break
                if not okk or poly.witness(poly.of_path(more)) is None: continue
                y = tuple(ground(a[i], mp) for i in ints)
                if y == x and all(a[i] == A[i] for i in others): return st, '%s with %d elements' % (list(x), n)
                if None not in y: todo.append((y, tuple(more)))
    return None
def decide(c):
    neg = False
    while isinstance(c, tuple) and c and c[0] == 'not': c, neg = c[1], not neg
    if c == V.TRUE or c == V.FALSE: return (c == V.TRUE) != neg
    if not (isinstance(c, tuple) and c and c[0] == 'cmp'): return None
    k = const_int(c[2])
    if k is None: return None
    return ((k < 0) if c[1] == 'lt' else (k == 0)) != neg
def lens(st, a):
    return [scale(x, -1) for v in a if isinstance(v, (T, tuple)) for x in terms_in(v) if x.op == 'len']

def loop_site(b, h): return b['id'] + '@' + str(b['blocks'][h]['te'].get('sp', ''))
def g06(ctx, rep):
    """every loop and every recursion ends"""
    from .rules import RULES as ALL
    for x in TODO:
        r2 = Rep(x); r2.guard('rule', x, lambda: ALL[x](ctx, r2))
    p = ctx.p; mine = [b for b, x in p.bodies.items() if own(x) and x['kind'] in ('fn', 'method', 'closure', 'assoc') and '#prom' not in b and not b.startswith('<source_map::_') and not b.startswith('source_map::_')]
    want = {}; steps = set()        # steps: loops that advance an iterator
    for bid in mine:
        b = p.bodies[bid]
        L = p.loops(b)
        for h, body in L.items():
            w = loop_site(b, h); want[w] = bid
            inner = set().union(*[x for h2, x in L.items() if h2 != h and h2 in body])
            if any(re.search(r'(^|::)(next|next_back|next_if|nth)$', n) for i in body - inner for g in fn_refs([b['blocks'][i]['te']]) for n in (g.get('res') or '', g.get('p') or '')): steps.add(w)
    seen = {}
    for S in summ.RUNS:
        rep.fns |= S.seen_bodies
        for w in S.loops_done: seen.setdefault(w, [])
        for rec in S.recs.values():
            if rec.where in want or '@src/' in rec.where and '::_::' not in rec.where: seen.setdefault(rec.where, []).append((S, rec))
        for w in S.diverges: rep.bad('loop', w.split('@')[0], {'got': 'an iteration changes nothing: the loop never ends', 'in': S.top}, w.split('@')[-1])
    for w, l in sorted(seen.items()):
        where = want.get(w, w.split('@')[0])
        for S, rec in l:
            r = measure(ctx, S, rec)
            if r is not True and (w not in want or w in steps): rep.und('loop', where, 'no decreasing measure at ' + w); continue      # the library's own loops, iterators
            if r is not True:
                st = lasso(S, rec) or stuck(S, rec)
                if st is not None: rep.bad('loop', where, {'path': trail_txt(st, 6), 'got': 'the same iteration repeats for ever'}, w.split('@')[-1]); continue
                st = away(ctx, S, rec)
                if st is not None: rep.bad('loop', where, {'path': trail_txt(st, 6), 'got': 'the counter starts beyond the value it is compared with'}, w.split('@')[-1]); continue
                st = skips(S, rec)
                if st is not None: rep.bad('loop', where, {'path': trail_txt(st, 6), 'got': 'the counter passes the value it is compared with'}, w.split('@')[-1]); continue
                x = cyclic(rec)
                if x is not None: rep.bad('loop', where, {'got': 'the counter comes back to values it had: a text that contains them all keeps the loop going', 'counter': pretty(x)}, w.split('@')[-1]); continue
                rep.und('loop', where, 'no decreasing measure at ' + w); continue
            rep.ok('loop', where)
        if not l: rep.ok('loop', where)
    for w, bid in want.items():
        if w not in seen: rep.und('loop', bid, 'not reached: ' + w)
    for bid in mine:
        cs = callees(p, bid)
        if bid in cs: rep.guard('recursion', bid, lambda: recursive(ctx, rep, bid))
        elif any(bid in reach(p, [c]) for c in cs): rep.und('recursion', bid, 'functions that call each other')

RULES = {'G06': g06}
EXPL = {'G06': 'every loop of the crate, in every context it is analysed in: a bound on the number of iterations, a list that loses an element, a shifted number, a linear measure, or a counter in a text that a fixed text contains; every recursion: a difference of arguments that decreases and stays positive'}
