"""Frame conditions, column spans, dispatch."""
from .rules_e import *
from .rules_ab import final

QUERIES = ('original_position_for', 'generated_position_for', 'all_generated_position_for', 'source_content_for', 'has_contents_of_all_sources', 'get_sources', 'each_mapping')
ASKS = ('original_location_for', 'generated_location_for', 'all_generated_locations_for', 'by_generated_location', 'by_original_location')

def spine(v):
    """value without the queries already made on the external mappings: (value, names of other calls made on it)"""
    oth = []
    while isinstance(v, T) and v.op == 'after' and v.args[1] == 0 and isinstance(v.args[0], str):
        n = v.args[0].split('::')[-1]
        if not (v.args[0].startswith('source_map_mappings:') and n in ASKS): oth.append(n)
        v = v.args[2]
    return v, oth
def payload(v):
    """x when v is Some(x), possibly rebuilt in place"""
    if isinstance(v, tuple) and v[0] == 'adt' and v[1] == OPT and v[2] == 1: return v[3][0]
    return None

def frame_maps(ctx, B, rep, S, o, rule):
    """the parsed mappings are kept, or parsed from the document's own text"""
    I = S.I; st = o[-1]; C = self_in(S); where = S.b['id']; C1 = final(S, o)
    m0, m1 = fld(C, B.i_maps), I.deep(st, fld(C1, B.i_maps))
    if m1 == m0: rep.ok(rule, where); return
    tok = trail_ok(I, st)
    def say(r, got): rep.v3(rule, where, r if r is not False or tok else None, {'path': trail_txt(st, 6), 'got': got}, last_site(st))
    had = st.facts.ev(eq0(t('discr', m0)))          # true: nothing parsed before
    fresh = st.facts.ev(fld(C, B.i_spans)) is False  # no spans computed: parsing again yields the same
    p = payload(m1)
    if isinstance(m1, tuple) and m1[0] == 'upd' and m1[1] == m0:
        if len(m1[2]) == 1 and m1[2][0][0][:2] == ('f', 0): p = m1[2][0][1]
        else: rep.und(rule, where, pretty(m1)); return
    if p is None:
        if m1 == NONE: say(had is True or fresh, 'the parsed mappings are thrown away'); return
        rep.und(rule, where, pretty(m1)); return
    x, oth = spine(p)
    if oth: say(False if not any(n not in ('compute_column_spans',) for n in oth) else None, 'changes the parsed mappings: ' + ', '.join(oth)); return
    if x == fld(m0, 0, 1): say(True if had is False else None, pretty(x)); return
    if isinstance(x, T) and x.op == 'f' and isinstance(x.args[0], T) and x.args[0].op == 'call' and x.args[0].args[0].endswith('::parse_mappings'):
        if had is not True and not fresh: say(False, 'parses the mappings again: spans already computed are lost'); return
        txt = B.J(C, 'mappings'); a = x.args[0].args[1]
        def body(s):
            s.o = o; w = s.opt(txt); return mkstr(()) if w is None else w
        for w, st2 in run_spec(I, st, S, body): rep.v3(rule, where, Cmp(I).same(st2, a, w), {'got': 'parses ' + pretty(a)})
        return
    rep.und(rule, where, pretty(p))


def d09(ctx, rep):
    """the state after every query: document, resolved sources, URL and spans flag as before, mappings kept or parsed from the document"""
    B = Basic(ctx)
    for nm in QUERIES:
        S = q(ctx, B, nm); rep.seen(S); I = S.I; C = self_in(S); where = S.b['id']
        for o in S.rets():
            st = o[-1]; C1 = final(S, o); tok = trail_ok(I, st)
            for i, n in ((B.i_json, 'document'), (B.i_abs, 'resolved sources'), (B.i_url, 'map URL'), (B.i_spans, 'spans flag')):
                x = I.deep(st, fld(C1, i)); r = Cmp(I).same(st, x, fld(C, i))
                if r is None and thinned(I, x) and not unknown_in(I, x): r = False
                rep.v3('frame', where, r if r is not False or tok else None, {'path': trail_txt(st, 5), 'got': '%s becomes %s' % (n, pretty(x))}, last_site(st))
            frame_maps(ctx, B, rep, S, o, 'frame-mappings')
    frame_indexed(ctx, rep, Idx(ctx), QUERIES + ('computed_column_spans',))
def frame_indexed(ctx, rep, X, names):
    sj = ctx.fi(X.A, 'source_map')
    for nm in names:
        if ctx.fn('IndexedConsumer', nm, opt=True) is None: continue
        S = X.sum(nm); rep.seen(S); I = S.I; C = self_in(S); where = S.b['id']; vs = X.views(S); cc = X.q.get('compute_column_spans')
        for o in S.rets():
            st = o[-1]; C1 = final(S, o); tok = trail_ok(I, st)
            x = I.deep(st, fld(C1, sj)); r = Cmp(I).same(st, x, fld(C, sj))
            if r is None and thinned(I, x) and not unknown_in(I, x): r = False
            rep.v3('frame-indexed', where, r if r is not False or tok else None, {'got': 'document becomes ' + pretty(x)}, last_site(st))
            x = I.deep(st, fld(C1, X.i_secs)); base = x
            while isinstance(base, tuple) and base[0] == 'upd': base = base[1]
            if base in vs and X.secs_ok(x, base): rep.ok('frame-sections', where)
            else: rep.und('frame-sections', where, pretty(x)) if not moved(X, I, x, vs) or not trail_ok(I, st, {'phi'}) else rep.bad('frame-sections', where, {'path': trail_txt(st, 5), 'got': 'sections become ' + pretty(x)}, last_site(st))
        if nm != 'computed_column_spans' and cc:
            n = sum(1 for o in S.outs for e in all_calls(o[-1].events) if e[1] == ctx.cn(cc))
            rep.v3('frame-sections', where, n == 0, 'a query computes column spans')
def thinned(I, x, d=0):
    """x is visibly a rebuilt value with elements taken out of one of its lists"""
    if d > 8: return False
    if isinstance(x, T) and x.op.startswith('mut_'):
        base = x
        while isinstance(base, T) and base.op.startswith('mut_'): base = base.args[0]
        return isinstance(base, T) and loses(I, x, base) is True
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'upd' and any(thinned(I, v, d + 1) for k, v in x[2] if not (isinstance(k, tuple) and k[0] == 'raw'))
def all_calls(events):
    for e in events:
        if e[0] == 'call': yield e
        elif e[0] == 'loop':
            for b in e[1].backs: yield from all_calls(b['events'])
def moved(X, I, x, vs, d=0):
    """x is visibly another list: an element's offset rewritten, or elements added or removed"""
    if isinstance(x, tuple) and x[0] == 'seq': return True
    if isinstance(x, T) and x.op == 'phi' and x in I.phi_rec and x not in vs and d < 3:
        rec = I.phi_rec[x]; cp = next((cp for cp, y in rec.phis.items() if y[0] is x), None)
        if cp is not None and I.deep(rec.hdr, rec.phis[cp][1]) in vs:
            return any(trail_ok(I, b['st'], {'phi'}) and moved(X, I, I.deep(b['st'], b['next'][cp]), list(vs) + [x], d + 1) for b in rec.backs)
    if isinstance(x, tuple) and x[0] == 'upd' and x[1] in vs:
        for k, v in x[2]:
            if k[0] == 'x' and isinstance(v, tuple) and v[0] == 'upd' and any(kk[0] == 'f' and kk[1] != X.i_cons for kk, _ in v[2]): return True
    return False

def d11(ctx, rep):
    """column spans: computed once on the parsed mappings, and the flag says so"""
    B = Basic(ctx); S = q(ctx, B, 'compute_column_spans'); I = S.I; C = self_in(S)
    def spec(s):
        S.exp = None
        if s.cond(fld(C, B.i_spans)): S.exp = (fld(C, B.i_maps), TRUE, False); return R(UNIT)
        m = B.parsed(s, C)
        if m is None: S.exp = (NONE, FALSE, False); return R(UNIT)
        S.exp = (some(t('after', B.smm('Mappings::compute_column_spans'), 0, m)), TRUE, True)
        return R(UNIT)
    def post(I, st2, o, exp):
        maps, flag, called = S.exp; C1 = final(S, o)
        ev = [e for e in o[-1].events if e[0] == 'call' and e[1].endswith('::compute_column_spans')]
        out = [('spans flag', fld(C1, B.i_spans), flag), ('computations', '1' if called else '0', len(ev) == int(called), str(len(ev)))]
        mp = I.deep(st2, fld(C1, B.i_maps)); d = t('discr', mp)
        if called:
            p = payload(mp) or fld(mp, 0, 1)
            out.append(('mappings', p, maps[3][0]))
        elif maps == NONE: out.append(('mappings', mp, NONE))
        else: out.append(('mappings', mp, maps))
        for i, n in ((B.i_json, 'document'), (B.i_abs, 'resolved sources'), (B.i_url, 'map URL')): out.append((n, fld(C1, i), fld(C, i)))
        return out
    conform(ctx, rep, 'column-spans', S, spec, post)

def d12(ctx, rep):
    """dispatch on the presence of sections, and the accessors of the result"""
    B = Basic(ctx); K = ctx.adt('Consumer', local=None)
    bj, ij = ctx.fn('BasicConsumer', 'from_source_map_json'), ctx.fn('IndexedConsumer', 'from_source_map_json')
    vs = {v['n']: i for i, v in enumerate(ctx.p.adts[K]['v'])}
    S = ctx.summary(ctx.fn('create_consumer'), 'create', opaque=[bj, ij]); raw, url = argn(S, 0), argn(S, 1); me = S.b['id']
    def spec(s):
        ok_, j = s.res(t('call', 'serde_json:de::from_str', raw))
        if not ok_: return R(('adt', RES, 1, (fld(t('call', 'serde_json:de::from_str', raw), 0, 1),)))
        sec = s.opt(fld(j, ctx.fi(B.json, 'sections')))
        if sec is None: return R(('adt', RES, 0, (('adt', K, vs['BasicConsumer'], (ctx.call(bj, j, url),)),)))
        return R(('adt', RES, 0, (('adt', K, vs['IndexedConsumer'], (ctx.call(ij, j, url),)),)))
    conform(ctx, rep, 'dispatch', S, spec)
    for var, short in (('BasicConsumer', 'basic'), ('IndexedConsumer', 'indexed')):
        for pre in ('as_', 'try_as_'):
            for mut in ('', '_mut'):
                S1 = ctx.summary(ctx.fn('Consumer', pre + short + '_consumer' + mut), 'acc'); C = self_in(S1); I = S1.I
                def spec1(s):
                    d = I.discr(s.st, C); d.adt = (0, len(vs) - 1)
                    if not s.ieq(d, vs[var]): return PANIC if pre == 'as_' else R(NONE)
                    x = fld(C, 0, vs[var])
                    return R(x if pre == 'as_' else some(x))
                def post1(I, st, o, e): return [('consumer', final(S1, o), C)] if o[0] == 'ret' else []
                conform(ctx, rep, 'accessor', S1, spec1, post1)

RULES = {'D09': d09, 'D11': d11, 'D12': d12}
EXPL = {'D09': 'frame condition on the final state of every returning path of every query of both kinds of consumer; the parsed mappings may only change from nothing to the parse of the document, and by lookups; the section list only by lookups on its consumers',
 'D11': 'every path against the specification: already computed / unparsable / parsed; final flag, number of external computations and final mappings compared',
 'D12': 'every path of the dispatch and of the eight accessors against the specification'}
