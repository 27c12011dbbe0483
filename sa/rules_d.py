"""Single-document consumer properties."""
from .basic import *
from .loops import *

def q(ctx, B, name): return ctx.summary(ctx.fn('BasicConsumer', name), 'q', opaque=[B.csu])

def d02(ctx, rep):
    """original position lookup"""
    B = Basic(ctx); S = q(ctx, B, 'original_position_for'); C = self_in(S)
    gen, bias = argn(S, 1), argn(S, 2)
    def spec(s):
        line, col = ctx.get(gen, B.pos, 'line'), ctx.get(gen, B.pos, 'column')
        if s.lt(line, 1) or s.lt(col, 0): return PANIC
        b = B.bias(s, bias)
        m = B.parsed(s, C)
        if m is None: return R(NONE)
        hit = s.opt(t('call', B.smm('Mappings::original_location_for'), m, add(line, V.I(-1)), col, b))
        if hit is None: return R(NONE)
        if not s.ieq(B.raw_(hit, 'generated_line'), add(line, V.I(-1))): return R(NONE)
        o = s.opt(B.raw_(hit, 'original'))
        if o is None: return R(NONE)
        return R(some(B.public_mapping(s, C, hit, o, B.optmap(s, B.raw_(hit, 'last_generated_column')))))
    conform(ctx, rep, 'original-lookup', S, spec)

def gen_spec(ctx, B, S):
    C = self_in(S)
    src, line, col, bias = [argn(S, i) for i in (1, 2, 3, 4)]
    def spec(s):
        if B.marked(s, C, src): return ANY
        if s.lt(line, 1) or s.lt(col, 0):
            return ANY if B.resolve(s, C, src) is None else PANIC
        idx = B.resolve(s, C, src)
        if idx is None: return R(NONE)
        b = B.bias(s, bias)
        m = B.parsed(s, C)
        if m is None: return R(NONE)
        hit = s.opt(t('call', B.smm('Mappings::generated_location_for'), m, idx, add(line, V.I(-1)), col, b))
        if hit is None: return R(NONE)
        o = s.opt(B.raw_(hit, 'original'))
        if o is None: return ANY
        if not s.ieq(B.rawo_(o, 'source'), idx): return R(NONE)
        last = B.raw_(hit, 'last_generated_column')
        p = s.opt(last)
        if p is not None: l = some(p)
        else: l = some(V.I(-1)) if s.cond(fld(C, B.i_spans)) else NONE
        return R(some(B.public_mapping(s, C, hit, o, l)))
    return spec
def all_spec(ctx, B, S):
    C = self_in(S)
    src, line, col = [argn(S, i) for i in (1, 2, 3)]
    def spec(s):
        if B.marked(s, C, src): return ANY
        bad = s.lt(line, 1)
        if not bad:
            c = s.opt(col)
            bad = c is not None and s.lt(c, 0)
        if bad: return ANY if B.resolve(s, C, src) is None else PANIC
        idx = B.resolve(s, C, src)
        if idx is None: return R(EMPTY)
        if s.known(ilt(idx, V.I(0))): return ANY
        m = B.parsed(s, C)
        if m is None: return R(EMPTY)
        return R(t('call', B.smm('Mappings::all_generated_locations_for'), m, idx, add(line, V.I(-1)), NONE if c is None else some(c)))
    return spec

def d03(ctx, rep):
    B = Basic(ctx); S = q(ctx, B, 'generated_position_for')
    conform(ctx, rep, 'generated-lookup', S, gen_spec(ctx, B, S))
def d04(ctx, rep):
    B = Basic(ctx); S = q(ctx, B, 'all_generated_position_for')
    conform(ctx, rep, 'all-generated-lookup', S, all_spec(ctx, B, S))

def each_trace(ctx, B, S, o, st):
    return cb_trace(S.I, o[-1].events, st)
def d05(ctx, rep):
    B = Basic(ctx); S = q(ctx, B, 'each_mapping'); C = self_in(S)
    ordv = argn(S, 2); cb = argn(S, 1)
    oa = ctx.adt('IterOrd'); names = [v['n'] for v in ctx.p.adts[oa]['v']]
    I = S.I
    def spec(s):
        m = B.parsed(s, C)
        tr = cb_trace(I, s.o[-1].events, s.st)
        if m is None:
            s.want = []; s.tr = tr; S.info = (tr, None, s); return R(UNIT)
        d = I.discr(s.st, ordv); d.adt = (0, len(names) - 1)
        which = None
        for i, nm in enumerate(names):
            if which is None and (i == len(names) - 1 or s.ieq(d, i)): which = nm
        f = {'GeneratedOrd': 'by_generated_location', 'OriginalOrd': 'by_original_location'}[which]
        S.info = (tr, t('call', B.smm('Mappings::' + f), m), s)
        return R(UNIT)
    def post(I, st2, o, exp):
        tr, seq, s = S.info
        if seq is None:
            return [('callbacks', 'none, the mappings cannot be parsed', not tr, '%d callback sites' % len(tr))]
        if len(tr) != 1: 
            # a traversal with zero iterations
            return [('callbacks', 'one traversal of ' + pretty(seq), False if all(x[0] == 'cb' for x in tr) else None, '%d traversals' % len(tr))]
        if tr[0][0] == 'cb': return [('callbacks', 'one per mapping', None, 'single call')]
        rec = tr[0][1]; n = rec_range(rec)
        if n is None: return [('callbacks', '', None, 'range')]
        out = [('iterations', n, seq_len(seq)), ('traversal', 'complete', exhausted(st2, rec, n), 'left early')]
        for b in rec.backs:
            es = cb_trace(I, b['events'], b['st'])
            if seq.args[0].endswith('by_original_location') and b['st'].facts.ev(eq0(t('discr', B.raw_(elem(seq, rec.kappa), 'original')))) is True: continue     # only mappings with an original are listed
            if len(es) != 1 or es[0][0] != 'cb':
                out.append(('callbacks per mapping', '1', False if all(x[0] == 'cb' for x in es) else None, str(len(es))))
            else: out.append(('callback argument', es[0][2][0] if len(es[0][2]) == 1 else ('tup', es[0][2]), elem(seq, rec.kappa)))
        return out
    conform(ctx, rep, 'each-mapping', S, spec, post)

def contents_spec(ctx, B, S, C):
    src, pom = argn(S, 1), argn(S, 2)
    def spec(s):
        sc = s.opt(B.J(C, 'sources_content'))
        if sc is None: return R(NONE)
        if B.marked(s, C, src): return ANY
        idx = B.resolve(s, C, src)
        if idx is None:
            p = s.opt(pom)
            if p is None: return PANIC
            return PANIC if s.cond(p) else R(NONE)
        if s.known(ilt(idx, V.I(0))): return ANY
        if not s.cond(ilt(idx, seq_len(sc))): return R(NONE)
        x = s.opt(elem(sc, idx))
        return R(NONE if x is None else some(x))
    return spec
def d06(ctx, rep):
    B = Basic(ctx); S = q(ctx, B, 'source_content_for'); C = self_in(S)
    conform(ctx, rep, 'content-lookup', S, contents_spec(ctx, B, S, C))
    S2 = q(ctx, B, 'has_contents_of_all_sources'); rep.seen(S2); C = self_in(S2); I = S2.I
    has_contents(ctx, B, S2, rep, C)

def has_contents(ctx, B, S, rep, C):
    """true only when every listed source provably has content; false only with a witness"""
    I = S.I
    for o in S.outs:
        st = o[-1]
        def spec(s):
            sc = s.opt(B.J(C, 'sources_content'))
            if sc is None: return ('no', 'contents absent')
            src = s.opt(B.J(C, 'sources'))
            n = V.I(0) if src is None else seq_len(src)
            if s.cond(ilt(seq_len(sc), n)): return ('no', 'fewer contents than sources')
            return ('chk', sc, n)
        for r, st2 in run_spec(I, st, S, spec):
            if o[0] == 'panic':
                rep.v3('has-contents', S.b['id'], False if trail_ok(I, st) else None, 'panics'); continue
            got = st2.facts.ev(I.deep(st2, o[1]))
            if got is None: rep.und('has-contents', S.b['id'], 'result ' + pretty(o[1])); continue
            tok = trail_ok(I, st)
            if r[0] == 'no':
                rep.v3('has-contents', S.b['id'], True if got is False else (False if tok else None), {'path': trail_txt(st2), 'got': 'true', 'expected': 'false (%s)' % r[1]}, last_site(st))
                continue
            sc, n = r[1], r[2]
            if got is False:
                wit = any(t('discr', elem(sc, k)) for k in ()) 
                w = None
                for c, tr, _ in st2.trail:
                    for x in terms_in(c):
                        if x.op == 'discr' and isinstance(x.args[0], T) and x.args[0].op == 'e' and x.args[0].args[0] == sc and st2.facts.ev(eq0(x)) is True and st2.facts.ev(ilt(x.args[0].args[1], seq_len(sc))) is True: w = x
                rep.v3('has-contents', S.b['id'], True if w is not None else (False if tok else None), {'path': trail_txt(st2), 'got': 'false without a source lacking content', 'expected': 'true'}, last_site(st))
            else:
                okk = st2.facts.ev(eq0(n)) is True or st2.facts.ev(ile(n, V.I(0))) is True
                und = False
                for rec in recs_in(st2):
                    m = rec_range(rec)
                    if m is None: und = True; continue
                    if st2.facts.ev(ile(n, m)) is not True or exhausted(st2, rec, m) is not True: continue
                    e = elem(sc, rec.kappa)
                    if all(b['st'].facts.ev(eq0(t('discr', e))) is False for b in rec.backs): okk = True
                rep.v3('has-contents', S.b['id'], True if okk else (None if und or not tok else False), {'path': trail_txt(st2), 'got': 'true', 'expected': 'true only when every listed source has content'}, last_site(st))

NEG = {}
def unknown_mark(ctx, B, rep):
    """an index that stands for "unknown" in the lookup cache is never used as one"""
    for nm in ('generated_position_for', 'all_generated_position_for', 'source_content_for'):
        S = q(ctx, B, nm); C = self_in(S); I = S.I; v = fld(t('get', fld(C, B.i_cache), argn(S, 1)), 0, 1)
        for o in S.outs:
            st = o[-1]
            if st.facts.ev(eq0(t('discr', t('get', fld(C, B.i_cache), argn(S, 1))))) is not False: continue
            for c in NEG.get(id(ctx), ()):
                f = st.facts.assume(ieq(v, V.I(c)), True)
                if not f: continue
                used = [e for e in st.events if e[0] == 'call' and e[1].endswith(('Mappings::generated_location_for', 'Mappings::all_generated_locations_for')) and e[2][1] == v]
                if not used:
                    got = I.deep(st, o[1]) if o[0] == 'ret' else None
                    rep.v3('unknown-mark', S.b['id'], True if got in (None, NONE, EMPTY) else False if understood(I, got) and trail_ok(I, st) else None, {'path': trail_txt(st), 'got': 'an unknown source answers ' + pretty(got)}, last_site(st)); continue
                rep.v3('unknown-mark', S.b['id'], False if trail_ok(I, st) else None, {'path': trail_txt(st), 'got': 'an unknown source is cached as %d, which is then queried as source %d' % (c, c)}, last_site(st))
def cache_post(ctx, B, S, C, src):
    """only (source, its own resolution) enters the lookup cache"""
    I = S.I
    def post(I, st2, o, exp):
        if B.i_cache is None: return []
        fin = o[-1].mem.get(('in', 'self'))
        c0, c1 = fld(C, B.i_cache), I.deep(o[-1], fld(fin, B.i_cache))
        if c1 == c0: return []
        if not (isinstance(c1, tuple) and c1[0] == 'map' and c1[1] == c0):
            return [('cache', 'the entries of earlier lookups', None, pretty(c1))]
        out = []
        for k, key, v in c1[2]:
            if k != 'ins': continue
            out.append(('cached name', key, src))
            if S.idx is not None: out.append(('cached index', v, S.idx)); continue
            c = const_int(v) if is_int(v) else None
            if c is not None and c < 0: NEG.setdefault(id(ctx), set()).add(c)      # a mark for "unknown": see unknown_mark
            else: out.append(('cache', 'no entry for an unresolved source', False, 'inserts ' + pretty(v)))
        return out
    return post
def d07(ctx, rep):
    B = Basic(ctx); NEG.pop(id(ctx), None)
    for nm in ('generated_position_for', 'all_generated_position_for', 'source_content_for'):
        S = q(ctx, B, nm); C = self_in(S); src = argn(S, 1)
        def spec(s, S=S, C=C, src=src):
            if s.o[0] == 'panic': return ANY
            looked = any(e[0] == 'map_insert' for e in s.o[-1].events)
            S.idx = None
            if not looked: return R(s.o[1])
            S.idx = B.resolve(s, C, src)
            return R(s.o[1])
        conform(ctx, rep, 'cache-coherence', S, spec, cache_post(ctx, B, S, C, src))
        # the index handed to the mappings is the resolved one, in resolution order
        def spec2(s, S=S, C=C, src=src):
            calls = [e for e in s.o[-1].events if e[0] == 'call' and e[1].endswith(('Mappings::generated_location_for', 'Mappings::all_generated_locations_for'))]
            S.calls = calls
            if not calls: return ANY
            S.idx = B.resolve(s, C, src)
            return R(s.o[1]) if s.o[0] == 'ret' else ANY
        def post2(I, st2, o, exp, S=S):
            out = []
            for e in S.calls:
                if S.idx is None: out.append(('lookup', 'none for an unknown source', False, 'queries source %s' % pretty(e[2][1])))
                else: out.append(('source index', e[2][1], S.idx))
            return out
        conform(ctx, rep, 'resolution-order', S, spec2, post2)
    if NEG.get(id(ctx)): unknown_mark(ctx, B, rep)
    # the set the names are resolved against
    ctor_sources(ctx, rep, B)

def ctor_expected(ctx, B, s, S, json, url, o):
    """a freshly loaded document; the absolute-source set is checked by sources_check"""
    fs = [None] * len(ctx.p.adts[B.A]['v'][0]['f'])
    act = S.I.deep(s.st, o[1]) if o[0] == 'ret' else None
    for i in range(len(fs)): fs[i] = fld(act, i) if act is not None else NONE
    fs[B.i_json] = json; fs[B.i_url] = url
    if B.i_cache is not None: fs[B.i_cache] = ('map', None, ())
    fs[B.i_maps] = NONE; fs[B.i_spans] = FALSE
    return ('adt', B.A, 0, tuple(fs))
def sources_check(ctx, B, I, st, absset, json, url, o):
    """absset == from_array(compute_source_url(root, s, url) for s in sources)"""
    fa = ctx.fn('ArraySet', 'from_array')
    v = I.deep(st, absset)
    if not (isinstance(v, T) and v.op == 'call' and v.args[0] == ctx.cn(fa)): return None, 'not built by from_array'
    if v.args[2] != TRUE: return (False if v.args[2] == FALSE else None), 'duplicate sources dropped: indices shift'
    seq = v.args[1]
    src = fld(json, ctx.fi(B.json, 'sources')); root = fld(json, ctx.fi(B.json, 'source_root'))
    res = []
    def body(s):
        s.o = o
        p = s.opt(src)
        return p
    for p, st2 in run_spec(I, st, None, body):
        n = V.I(0) if p is None else seq_len(p)
        r = comp_check(I, st2, seq, n, lambda s, k: t('call', B.csn, root, elem(p, k) if p is not None else unk('x'), url), o)
        res.append(r)
    for r in res:
        if r[0] is False: return r
    for r in res:
        if r[0] is None: return r
    return True, ''
def ctor_sources(ctx, rep, B):
    fa = ctx.fn('ArraySet', 'from_array')
    for nm in ('from_source_map_json',):
        S = ctx.summary(ctx.fn('BasicConsumer', nm), 'ctor', opaque=[B.csu, fa]); rep.seen(S)
        json, url = argn(S, 0), argn(S, 1)
        for o in S.rets():
            st = o[-1]; v = S.I.deep(st, o[1])
            r, why = sources_check(ctx, B, S.I, st, fld(v, B.i_abs), json, url, o)
            rep.v3('resolved-sources', S.b['id'], r, why)

def version_ok(ctx, B, s, json): return s.ieq(fld(json, ctx.fi(B.json, 'version')), 3)
def d01(ctx, rep):
    B = Basic(ctx); fa = ctx.fn('ArraySet', 'from_array')
    OP = [B.csu, fa]
    # from parsed JSON
    S = ctx.summary(ctx.fn('BasicConsumer', 'from_source_map_json'), 'ctor', opaque=OP)
    json, url = argn(S, 0), argn(S, 1)
    def post_of(S, json, url):
        def post(I, st2, o, exp):
            v = I.deep(st2, o[1])
            j = json(st2) if callable(json) else json
            r, why = sources_check(ctx, B, I, st2, fld(v, B.i_abs), j, url, o)
            return [('sources', 'each source resolved against root and URL', r, why)]
        return post
    def spec(s):
        if not version_ok(ctx, B, s, json): return PANIC
        return R(ctor_expected(ctx, B, s, S, json, url, s.o))
    conform(ctx, rep, 'load-parsed', S, spec, post_of(S, json, url))
    # from text
    S2 = ctx.summary(ctx.fn('BasicConsumer', 'new'), 'ctor', opaque=OP)
    raw, url2 = argn(S2, 0), argn(S2, 1)
    parse = lambda raw: t('call', 'serde_json:de::from_str', raw)
    def spec2(s):
        ok_, j = s.res(parse(raw))
        if not ok_: return PANIC
        if not version_ok(ctx, B, s, j): return PANIC
        return R(ctor_expected(ctx, B, s, S2, j, url2, s.o))
    conform(ctx, rep, 'load-text', S2, spec2, post_of(S2, fld(parse(raw), 0, 0), url2))
    # the sources it lists
    S4 = q(ctx, B, 'get_sources')
    conform(ctx, rep, 'sources-listed', S4, lambda s: R(fld(fld(self_in(S4), B.i_abs), B.s_arr)))
    # scoped use: the callback gets exactly one consumer, built from the same text and URL
    for ty in ('BasicConsumer', 'IndexedConsumer'):
        new = ctx.fn(ty, 'new')
        S3 = ctx.summary(ctx.fn(ty, 'consume'), 'consume', opaque=[new]); rep.seen(S3)
        raw3, url3 = argn(S3, 0), argn(S3, 1)
        for o in S3.outs:
            if o[0] == 'panic': rep.v3('scoped-use', S3.b['id'], False if trail_ok(S3.I, o[-1]) else None, 'panics beyond loading'); continue
            tr = cb_trace(S3.I, o[-1].events, o[-1])
            want = ctx.call(new, raw3, some(url3))
            if len(tr) != 1 or tr[0][0] != 'cb': rep.v3('scoped-use', S3.b['id'], False if all(x[0] == 'cb' for x in tr) else None, '%d callback invocations' % len(tr)); continue
            r = Cmp(S3.I).same(o[-1], tr[0][2][0] if tr[0][2] else UNIT, want)
            rep.v3('scoped-use', S3.b['id'], r, {'got': pretty(tr[0][2][0]), 'expected': pretty(want)})
    # from a generator
    new = ctx.fn('BasicConsumer', 'new'); ass = ctx.fn('SourceMapGenerator', 'as_string')
    S4 = ctx.summary(ctx.fn('BasicConsumer', 'from_source_map'), 'fsm', opaque=[new, ass])
    g, url4 = argn(S4, 0), argn(S4, 1)
    conform(ctx, rep, 'load-generator', S4, lambda s: R(ctx.call(new, ctx.call(ass, g), url4)))

EXPL = {
 'D01': 'each constructor against the specification: version other than 3 fails, text is parsed once, every field of the loaded document is the argument or its initial value; the set of sources is a loop with one resolution per listed source, duplicates allowed; listing the sources answers with the list of that set; scoped use is one callback event with that consumer',
 'D02': 'every path of the lookup against the lookup specification over the uninterpreted external lookup: arguments handed to it, the same-line test, field-by-field answer, failing paths',
 'D03': 'every path of the lookup against its specification: source resolution, arguments handed to the external lookup, source test, field-by-field answer including the span end, failing paths',
 'D04': 'every path against its specification: source resolution, arguments handed to the external lookup, the unchanged list as answer, failing paths',
 'D05': 'the events of each path are one complete traversal of the list of the requested order with exactly one callback per element, or none when the mappings cannot be parsed',
 'D06': 'content lookup against its specification; the "all contents present" answer true needs a loop over all sources that lets no absent content pass, false needs a witness on the path',
 'D07': 'on every path of every query that resolves a source: what enters the cache is (the source asked, its own resolution), the index handed on is that resolution, in the order map-relative then root-relative; constructors resolve each listed source the same way',
}
RULES = {'D01': d01, 'D02': d02, 'D03': d03, 'D04': d04, 'D05': d05, 'D06': d06, 'D07': d07}
