"""Lists of a few elements. Where the rules for lists of every length leave an obligation open, the functions
are followed once more for lists of 0, 1, 2 and 3 arbitrary elements, where every loop is a fixed number of steps:
only violations found there are kept, and only on paths whose conditions are all understood."""
import contextlib, json
from .rules_e import *
from . import summ
from .val import small
from . import rules_ab, rules_c, rules_d, rules_e, rules_f

def with_small(pid, fn, sm):
    def r(ctx, rep):
        n0 = len(rep.obs)
        rep.guard('rule', pid, lambda: fn(ctx, rep))
        st = {o['status'] for o in rep.obs[n0:]}
        if 'undecided' not in st or 'violated' in st: return
        r2 = Rep(pid)
        n1 = len(summ.RUNS)
        r2.guard('small', pid, lambda: sm(ctx, r2))
        del summ.RUNS[n1:]
        rep.obs += [o for o in r2.obs if o['status'] == 'violated' and plain(o['detail'])]
    r.__doc__ = fn.__doc__
    return r
def plain(d):
    """nothing about an arbitrary step of a loop"""
    s = json.dumps(d, ensure_ascii=False, default=repr)
    return not any(x in s for x in ('κ', 'φ', 'sorted(', 'mut_', 'removed('))
def stop(rep):
    return any(o['status'] == 'violated' and plain(o['detail']) for o in rep.obs)

def e01(ctx, rep):
    X = Idx(ctx); L = X.jsecs(); fid = ctx.fn('IndexedConsumer', 'from_source_map_json')
    for n in (1, 2, 3):
        with small(L, n):
            S = ctx.summary(fid, ('small', n), opaque=X.OP)
            def spec(s):
                if not s.ieq(ctx.get(argn(S, 0), X.B.json, 'version'), 3): return ANY
                if s.opt(ctx.get(argn(S, 0), X.B.json, 'sections')) is None: return ANY
                if any(s.opt(fld(elem(L, V.I(i)), ctx.fi(X.jsec, 'url'))) is not None for i in range(n)): return ANY
                o = [(X.jo(V.I(i), 'line'), X.jo(V.I(i), 'column')) for i in range(n)]
                if any(s.lt(x, 0) for p in o for x in p): return ANY
                for p, q in zip(o, o[1:]):
                    c = s.cmp3(p[0], q[0])
                    if c > 0 or (c == 0 and s.lt(q[1], p[1])): return PANIC
                return R(UNIT if s.o[0] == 'panic' else s.o[1])
            conform(ctx, rep, 'section-order', S, spec)
        if stop(rep): return

def b01(ctx, rep):
    A = rules_ab.ASet(ctx); fid = ctx.fn('ArraySet', 'from_array')
    for n in (1, 2, 3):
        with small(t('in', ctx.p.bodies[fid]['locals'][1].get('n') or 'a0'), n):
            S = ctx.summary(fid, ('small', n)); arr, dup = argn(S, 0), argn(S, 1)
            def spec(s):
                cur = A.mk(EMPTY, ('map', None, ()))
                for i in range(n): cur = A.add(s, cur, elem(arr, V.I(i)), dup)
                return R(cur)
            conform(ctx, rep, 'from-list', S, spec)
        if stop(rep): return

def e06(ctx, rep):
    X = Idx(ctx); fid = ctx.fn('IndexedConsumer', 'get_sources'); gs = ctx.cn(X.q['get_sources'])
    S0 = ctx.summary(fid, 'ix', opaque=X.OP); secs = X.secs(self_in(S0))
    cons = [X.cons(elem(secs, V.I(i))) for i in range(3)]
    for ms in ((2,), (0,), (0, 1), (1, 0), (1, 2), (2, 2), (0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 1), (1, 0, 2)):
        n = len(ms)
        with contextlib.ExitStack() as es:
            es.enter_context(small(secs, n))
            for c, m in zip(cons, ms): es.enter_context(small(lambda v, c=c: v.op == 'call' and v.args[0] == gs and X.strip(v.args[1]) is c, m))
            S = ctx.summary(fid, ('small', ms), opaque=X.OP)
            conform(ctx, rep, 'all-sources', S, lambda s: R(mkseq([('one', elem(t('call', gs, X.cons(elem(secs, V.I(i)))), V.I(j))) for i in range(n) for j in range(ms[i])])))
        if stop(rep): return
    e06_rest(ctx, rep, X)

def e03(ctx, rep):
    X = Idx(ctx); fn = ctx.cn(X.find)
    G = lambda v, n: ctx.get(v, X.B.pos, n)
    def asked(S, o, nm):
        ks = []
        for e in X.evs(o[-1].events, nm):
            i, sec = X.sec_of(S, e[2][0])
            if i is None or const_int(i) is None: raise Undecided('section asked')
            ks.append(const_int(i))
        return str(ks)
    for nm in ('original_position_for', 'generated_position_for', 'all_generated_position_for'):
        fid = ctx.fn('IndexedConsumer', nm); secs = X.secs(self_in(X.sum(nm)))
        for n in (0, 1, 2, 3):
            E = [elem(secs, V.I(i)) for i in range(n)]
            with small(secs, n):
                S = ctx.summary(fid, ('small', n), opaque=[x for x in X.OP if x != X.search]); src = argn(S, 1)
                def spec(s):
                    if s.o[0] == 'panic': return ANY
                    want = None
                    if nm == 'original_position_for':
                        l, c = G(src, 'line'), G(src, 'column')
                        if s.lt(l, 1) or s.lt(c, 0): return ANY
                        if any(s.lt(X.dl(e), 0) or s.lt(X.dc(e), 0) for e in E): return ANY
                        same = []
                        for a, b in zip(E, E[1:]):
                            k = s.cmp3(X.dl(a), X.dl(b)) or s.cmp3(X.dc(a), X.dc(b))
                            if k > 0: return ANY
                            same.append(k == 0)
                        for i, e in enumerate(E):
                            if (s.cmp3(X.dl(e), sub(l, V.I(1))) or s.cmp3(X.dc(e), c)) <= 0 and not (i and same[i - 1]): want = i
                    else:
                        for i, e in enumerate(E):
                            if s.opt(t('call', fn, X.cons(e), src)) is not None: want = i; break
                    S.want = str([] if want is None else [want])
                    return R(s.o[1])
                def post(I, st2, o, exp):
                    g = asked(S, o, nm)
                    return [('sections asked', S.want, g == S.want, g)]
                conform(ctx, rep, 'route-original' if nm == 'original_position_for' else 'route-source', S, spec, post)
            if stop(rep): return

def b04(ctx, rep):
    sid = ctx.fn('search'); S0 = ctx.summary(sid, 'b4args', opaque=[c for c in callees(ctx.p, sid)])
    hay = argn(S0, 1)
    for n in (0, 1, 2, 3):
        E = [elem(hay, V.I(i)) for i in range(n)]
        with small(hay, n):
            S = ctx.summary(sid, ('small', n)); nd, c1, c2, bias = argn(S, 0), argn(S, 2), argn(S, 3), argn(S, 4)
            def spec(s):
                lub = False; w = s.opt(bias)
                if w is not None: lub = s.ieq(w, 2)
                g = [s.cmp3(t('cb', c1, nd, e), V.I(0)) for e in E]
                if any(x < y for x, y in zip(g, g[1:])): return ANY
                cls = [0]               # classes of equal elements
                for i in range(1, n):
                    same = s.ieq(t('cb', c2, E[i], E[i - 1]), 0)
                    if same != (g[i] == g[i - 1]) and (same or g[i] == 0): return ANY
                    cls.append(cls[-1] + (not same))
                for c, _, _ in s.st.trail:
                    for x in terms_in(c):
                        if x.op == 'cb' and x.args[0] == c2 and x.args[1] in E and x.args[2] in E:
                            a, b = cls[E.index(x.args[1])], cls[E.index(x.args[2])]
                            if s.cmp3(x, V.I(0)) != (a > b) - (a < b): return ANY
                k = g.index(0) if 0 in g else (g.index(-1) if -1 in g else None) if lub else (max(i for i in range(n) if g[i] > 0) if 1 in g else None)
                return R(V.I(-1) if k is None else V.I(cls.index(cls[k])))
            conform(ctx, rep, 'nearest', S, spec)
        if stop(rep): return

def e06_rest(ctx, rep, X):
    other = {ctx.cn(x) for x in X.q.values() if x}
    def only(S, o, nm):
        """sections the path asks this of, in order; other questions leave it open"""
        ks = []
        for e in o[-1].events:
            if e[0] != 'call' or e[1] not in other: continue
            if e[1] != ctx.cn(X.q[nm]): raise Undecided('asks ' + e[1])
            i, sec = X.sec_of(S, e[2][0])
            if i is None or const_int(i) is None: raise Undecided('section asked')
            ks.append(const_int(i))
        return ks
    for n in (0, 1, 2, 3):
        for nm, rule in (('source_content_for', 'all-contents'), ('has_contents_of_all_sources', 'all-have-contents'), ('computed_column_spans', 'all-spans'), ('each_mapping', 'each-section')):
            fid = ctx.fn('IndexedConsumer', nm, opt=True)
            if fid is None or rep.pid not in ('E06', 'E04') or (rep.pid == 'E04') != (nm == 'each_mapping'): continue
            secs = X.secs(self_in(X.sum(nm))); E = [elem(secs, V.I(i)) for i in range(n)]
            q = 'compute_column_spans' if nm == 'computed_column_spans' else nm; cn = ctx.cn(X.q[q])
            with small(secs, n):
                S = ctx.summary(fid, ('small', n), opaque=X.OP)
                def spec(s):
                    S.asked = only(S, s.o, q)
                    if nm == 'source_content_for':
                        for e in E:
                            c = t('call', cn, X.cons(e), argn(S, 1), some(FALSE))
                            if s.opt(c) is not None: return R(c)
                        p = s.opt(argn(S, 2))
                        return PANIC if p is None or s.cond(p) else R(NONE)
                    if nm == 'has_contents_of_all_sources': return R(B(all(s.cond(t('call', cn, X.cons(e))) for e in E)))
                    return R(UNIT)
                def post(I, st2, o, exp):
                    if nm == 'computed_column_spans': return [('sections', '%d' % n, set(S.asked) == set(range(n)), str(S.asked))]
                    if nm == 'each_mapping': return [('sections', '%d in order' % n, S.asked == list(range(n)), str(S.asked))]
                    return []
                conform(ctx, rep, rule, S, spec, post)
        if stop(rep): return

def e04(ctx, rep):
    e06_rest(ctx, rep, Idx(ctx))

def d05(ctx, rep):
    Bc = Basic(ctx); fid = ctx.fn('BasicConsumer', 'each_mapping'); fs = [Bc.smm('Mappings::by_generated_location'), Bc.smm('Mappings::by_original_location')]
    names = [v['n'] for v in ctx.p.adts[ctx.adt('IterOrd')]['v']]
    for n in (0, 1, 2, 3):
        with small(lambda v: v.op == 'call' and v.args[0] in fs, n):
            S = ctx.summary(fid, ('small', n), opaque=[Bc.csu]); C = self_in(S); ordv = argn(S, 2); I = S.I
            def spec(s):
                m = Bc.parsed(s, C); S.want = []
                if m is not None:
                    d = I.discr(s.st, ordv); d.adt = (0, len(names) - 1)
                    f = fs[0] if s.ieq(d, names.index('GeneratedOrd')) else fs[1]
                    S.want = [elem(t('call', f, m), V.I(i)) for i in range(n)]
                    if f == fs[1] and any(s.opt(Bc.raw_(e, 'original')) is None for e in S.want): return ANY    # only mappings with an original are listed
                return R(UNIT)
            def post(I2, st2, o, exp):
                tr = cb_trace(I2, o[-1].events, st2)
                if any(x[0] != 'cb' or len(x[2]) != 1 for x in tr): return [('callbacks', '', None, 'loop')]
                got = [I2.deep(st2, x[2][0]) for x in tr]
                if len(got) != len(S.want): return [('callbacks', str(len(S.want)), False, str(len(got)))]
                return [('callback', a, b) for a, b in zip(got, S.want)]
            conform(ctx, rep, 'each-mapping', S, spec, post)
        if stop(rep): return

def c05(ctx, rep):
    G = rules_c.Gen(ctx); fid = ctx.fn('SourceMapGenerator', 'as_string')
    S0 = rules_c.gen_sum(ctx, G); me = self_in(S0)
    store = G.f(me, 'source_contents'); srcs = G.S.a(G.f(me, 'sources')); root = G.f(me, 'source_root')
    maps = ctx.call(G.arr, G.f(me, 'mappings'))
    for n in (0, 1, 2):
        with small(srcs, n), small(maps, 0):
            S = ctx.summary(fid, ('small', n), opaque=G.OP())
            for o, j in rules_c.jsons(ctx, G, S):
                if j is None: continue
                st = o[-1]; got = ctx.get(j, G.json, 'sources_content'); tok = trail_ok(S.I, st)
                def body(s):
                    s.o = o
                    if s.ieq(t('maplen', store), 0): return NONE
                    out = []
                    for i in range(n):
                        rt = s.opt(root); e = elem(srcs, V.I(i))
                        key = e if rt is None else ctx.call(G.rel, rt, e)
                        p = s.opt(t('get', store, key))
                        out.append(('one', NONE if p is None else some(p)))
                    return some(mkseq(out))
                for want, st2 in run_spec(S.I, st, None, body):
                    v = Cmp(S.I).same(st2, S.I.deep(st2, got), want)
                    rep.v3('contents', S.b['id'], v if v is not False or tok else None, {'path': trail_txt(st2), 'got': pretty(got), 'expected': pretty(want)}, last_site(st))
        if stop(rep): return

def c23(part):
    lines = [(1,), (2,), (3,), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (1, 1, 2), (1, 2, 2), (1, 1, 1)]
    def r(ctx, rep):
        G = rules_c.Gen(ctx); M = G.M; fid = ctx.fn('SourceMapGenerator', 'as_string'); vlq = ctx.cn(G.vlq)
        S0 = rules_c.gen_sum(ctx, G); me = self_in(S0); maps = ctx.call(G.arr, G.f(me, 'mappings')); e = lambda i: elem(maps, V.I(i))
        for ls in lines:
            n = len(ls)
            def init(I, st):
                for i, l in enumerate(ls): st.facts = st.facts.assume(ieq(M.gl(e(i)), V.I(l)), True)
            with small(maps, n):
                S = ctx.summary(fid, ('small', ls), opaque=G.OP(), init=init)
                for o, j in rules_c.jsons(ctx, G, S):
                    if j is None: continue
                    st = o[-1]; txt = S.I.deep(st, ctx.get(j, G.json, 'mappings')); tok = trail_ok(S.I, st)
                    if not (isinstance(txt, tuple) and txt[0] == 'adt' and txt[2] == 1): continue
                    ps = list(parts(fld(txt, 0, 1)))
                    if any(isinstance(p, T) and not (p.op == 'call' and p.args[0] == vlq) for p in ps): continue
                    def body(s):
                        s.o = o; line, prev, out = 1, [0, 0, 0, 0, 0], []
                        for i in range(n):
                            m = e(i)
                            if i and ls[i] == ls[i - 1]:
                                d = [s.known(eq0(ctx.call(G.cmp, *x))) for x in ((m, e(i - 1)), (e(i - 1), m))]
                                d = d[0] if d[0] is not None else d[1]
                                if d is None and s.known(ieq(M.gc(m), M.gc(e(i - 1)))) is False: d = False
                                if d is None: d = s.ieq(ctx.call(G.cmp, m, e(i - 1)), 0)
                                if d: continue
                            if ls[i] > line: prev[0] = 0; out.append(';' * (ls[i] - line)); line = ls[i]
                            elif i: out.append(',')
                            og = s.opt(M.f(m, 'original')); src = s.opt(M.f(m, 'source')); nm = s.opt(M.f(m, 'name'))
                            xs = [M.gc(m)]
                            if src is None:
                                if og is not None or nm is not None: return None
                            else:
                                si = s.opt(t('get', G.S.m(G.f(me, 'sources')), src)) if og is not None else None
                                if si is None: return None
                                xs += [si, add(M.line(og), V.I(-1)), M.col(og)]
                                if nm is not None:
                                    ni = s.opt(t('get', G.S.m(G.f(me, 'names')), nm))
                                    if ni is None: return None
                                    xs.append(ni)
                            for k, x in enumerate(xs): out.append(t('call', vlq, sub(x, prev[k] if isinstance(prev[k], (T, tuple)) else V.I(prev[k])))); prev[k] = x
                        return out
                    for want, st2 in run_spec(S.I, st, None, body):
                        if want is None: continue
                        wps = list(parts(mkstr(want)))
                        shape = lambda q: [x if isinstance(x, str) else '#' for x in q]
                        if part == 'sep': v = shape(ps) == shape(wps)
                        elif shape(ps) != shape(wps): continue
                        else: v = all(isinstance(a, str) or Cmp(S.I).same(st2, a.args[1], b.args[1]) is not False for a, b in zip(ps, wps))
                        rep.v3({'delta': 'delta-fields', 'sep': 'separators'}[part], S.b['id'], v if v or tok else None, {'path': trail_txt(st2), 'got': pretty(mkstr(ps)), 'expected': pretty(mkstr(wps))}, last_site(st))
            if stop(rep): return
    return r

def d04(ctx, rep):
    B = rules_d.Basic(ctx); fid = ctx.fn('BasicConsumer', 'all_generated_position_for'); nm = B.smm('Mappings::all_generated_locations_for')
    for n in (0, 1, 2):
        with small(lambda v: v.op == 'call' and v.args[0] == nm, n):
            S = ctx.summary(fid, ('small', n), opaque=[B.csu])
            conform(ctx, rep, 'all-generated-lookup', S, rules_d.all_spec(ctx, B, S))
        if stop(rep): return

def d01(ctx, rep):
    B = rules_d.Basic(ctx); S0 = rules_d.q(ctx, B, 'get_sources'); l = fld(fld(self_in(S0), B.i_abs), B.s_arr)
    for n in (1, 2):
        with small(l, n):
            S = ctx.summary(ctx.fn('BasicConsumer', 'get_sources'), ('small', n), opaque=[B.csu])
            conform(ctx, rep, 'sources-listed', S, lambda s: R(l))
        if stop(rep): return
    d01_new(ctx, rep, B)

def d01_new(ctx, rep, B, rule='load-parsed'):
    """the set of sources of a document with few of them, however it is filled"""
    A = rules_ab.ASet(ctx); fid = ctx.fn('BasicConsumer', 'from_source_map_json')
    S0 = ctx.summary(fid, 'ctor', opaque=[B.csu, ctx.fn('ArraySet', 'from_array')]); json, url = argn(S0, 0), argn(S0, 1)
    src = fld(json, ctx.fi(B.json, 'sources')); root = fld(json, ctx.fi(B.json, 'source_root'))
    for n in (1, 2, 3):
      for u in (NONE, some(fld(url, 0, 1))):
        with small(fld(src, 0, 1), n):
            S = ctx.summary(fid, ('small', n, u), opaque=[B.csu], args={1: u})
            def spec(s):
                if not rules_d.version_ok(ctx, B, s, json): return PANIC
                if s.o[0] != 'ret': return R(UNIT)
                cur = A.mk(EMPTY, ('map', None, ()))
                if s.opt(src) is not None:
                    k = s.known_some(root); rt = root if k is None else NONE if k is False else some(fld(root, 0, 1))
                    for i in range(n): cur = A.add(s, cur, t('call', B.csn, rt, elem(fld(src, 0, 1), V.I(i)), u), TRUE)
                S.want = cur
                return R(s.o[1])
            conform(ctx, rep, rule, S, spec, lambda I, st, o, e: [('sources', fld(I.deep(st, o[1]), B.i_abs), S.want)] if o[0] == 'ret' else [])
        if stop(rep): return

def d06(ctx, rep):
    B = rules_d.Basic(ctx); S0 = rules_d.q(ctx, B, 'has_contents_of_all_sources'); C = self_in(S0); fid = ctx.fn('BasicConsumer', 'has_contents_of_all_sources')
    src = fld(B.J(C, 'sources'), 0, 1); sc = fld(B.J(C, 'sources_content'), 0, 1)
    for m in (0, 1, 2):
        for n in (0, 1, 2, 3):
            with small(src, m), small(sc, n):
                S = ctx.summary(fid, ('small', m, n), opaque=[B.csu])
                for o in S.rets():
                    st = o[-1]; I = S.I; got = I.deep(st, o[1])
                    def spec(s):
                        s.o = o
                        if s.opt(B.J(C, 'sources_content')) is None: return 'no'
                        k = 0 if s.opt(B.J(C, 'sources')) is None else m
                        if n < k: return 'no'
                        has = [s.opt(elem(sc, V.I(i))) is not None for i in range(n)]
                        return 'no' if not all(has[:k]) else 'yes' if all(has) else 'any'
                    for r, st2 in run_spec(I, st, S, spec):
                        g = st2.facts.ev(got)
                        if r == 'any': rep.ok('has-contents', S.b['id']); continue
                        rep.v3('has-contents', S.b['id'], None if g is None else True if g is (r == 'yes') else False if trail_ok(I, st) else None,
                               {'path': trail_txt(st2), 'got': pretty(got), 'expected': r}, last_site(st))
            if stop(rep): return

SMALLS = {'D05': d05, 'E04': e04, 'B04': b04, 'E03': e03, 'D01': d01, 'D06': d06, 'C02': c23('delta'), 'C03': c23('sep'), 'D04': d04, 'E01': e01, 'B01': b01, 'E06': e06, 'C05': c05}
