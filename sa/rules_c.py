"""Generator properties."""
from .rules_ab import *
from .poly import of_facts, witness

class Gen:
    def __init__(self, ctx):
        self.c = c = ctx
        self.A = c.adt('SourceMapGenerator')
        self.M = MapT(ctx); self.S = ASet(ctx)
        self.json = c.adt('SourceMapJson')
        self.names_ = [f['n'] for f in c.p.adts[self.A]['v'][0]['f']]
        for n in ('file', 'source_root', 'skip_validation', 'sources', 'names', 'mappings', 'source_contents'):
            c.fi(self.A, n)
        self.add = c.fn('MappingList', 'add'); self.arr = c.fn('MappingList', 'to_array')
        self.rel = c.fn('relative'); self.vlq = c.fn('base64vlq_encode'); self.cmp = c.fn('compare_by_generated_pos_inflated')
    def f(self, g, n): return fld(g, self.c.fi(self.A, n))
    def with_(self, g, **kw):
        fs = [fld(g, i) for i in range(len(self.names_))]
        for k, v in kw.items(): fs[self.c.fi(self.A, k)] = v
        return ('adt', self.A, 0, tuple(fs))
    def OP(self): return [self.arr, self.rel, self.vlq, self.cmp]

def valid(s, G, m):
    """the validity rule on a mapping"""
    M = G.M
    if s.lt(M.gl(m), 1) or s.lt(M.gc(m), 0): return False
    o = s.opt(M.f(m, 'original')); src = s.opt(M.f(m, 'source'))
    if o is None:
        if src is not None: return False
        return s.opt(M.f(m, 'name')) is None
    if src is None: return False
    return not (s.lt(M.line(o), 1) or s.lt(M.col(o), 0))
def valid_fork_light(s, G, m): return valid(s, G, m)

def c08(ctx, rep):
    """a mapping is rejected exactly when validation is on and it is invalid"""
    G = Gen(ctx); S1 = ctx.summary(ctx.fn('SourceMapGenerator', 'add_mapping'), 'gen', opaque=[G.add]); me, m = self_in(S1), argn(S1, 1)
    def spec(s):
        skip = s.cond(G.f(me, 'skip_validation'))
        if not skip and not valid(s, G, m): return PANIC
        return R(UNIT)
    conform(ctx, rep, 'validation', S1, spec)

def reg(s, G, cur, v):
    p = s.opt(v)
    if p is None: return cur
    return G.S.add(s, cur, p, FALSE)
def c01(ctx, rep):
    """adding a mapping registers its source and name and keeps the mapping, leaving the rest alone"""
    G = Gen(ctx); S1 = ctx.summary(ctx.fn('SourceMapGenerator', 'add_mapping'), 'gen', opaque=[G.add]); me, m = self_in(S1), argn(S1, 1)
    def spec(s):
        if s.o[0] == 'panic': return ANY
        S1.exp = G.with_(me, sources=reg(s, G, G.f(me, 'sources'), G.M.f(m, 'source')), names=reg(s, G, G.f(me, 'names'), G.M.f(m, 'name')),
                         mappings=t('after', ctx.cn(G.add), 0, G.f(me, 'mappings'), m))
        return R(UNIT)
    def post(I, st, o, e):
        fin = final(S1, o)
        return [(n, G.f(fin, n), G.f(S1.exp, n)) for n in G.names_]
    conform(ctx, rep, 'add-mapping', S1, spec, post)
    S2 = ctx.summary(ctx.fn('SourceMapGenerator', 'new'), 'gen')
    E = G.S.mk(EMPTY, ('map', None, ()))
    def post2(I, st, o, e):
        v = I.deep(st, o[1])
        return [('file', G.f(v, 'file'), argn(S2, 0)), ('source root', G.f(v, 'source_root'), argn(S2, 1)), ('validation', G.f(v, 'skip_validation'), argn(S2, 2)),
                ('sources', G.f(v, 'sources'), E), ('names', G.f(v, 'names'), E), ('contents', G.f(v, 'source_contents'), ('map', None, ()))]
    conform(ctx, rep, 'new-generator', S2, lambda s: R(s.o[1]) if s.o[0] == 'ret' else R(UNIT), post2)

def retained(I, st, v, key):
    """False when the entries taken out of the map are certainly not those with this key alone"""
    K = t('anykey', v.args[0]); eq = [f(*x) for x in ((K, key), (key, K)) for f in (lambda a, b: t('eqv', a, b), lambda a, b: eq0(t('scmp', a, b)))]
    for gone, l in ((True, v.args[1]), (False, v.args[2])):
        for path in l[1]:
            at = [(c, b == TRUE) for c, b in (x[1] for x in path[1])]
            if gone and not at: return False
            if any(bad_ops(c, ('anykey', 'starts_with', 'ends_with', 'contains')) or not any(x == K for x in terms_in(c)) for c, _ in at): continue
            pos = [(neg(c), not b) if isinstance(c, tuple) and c[0] == 'not' else (c, b) for c, b in at]
            if any(c in eq and b is not gone for c, b in pos): return False          # another key is taken out, or this one is kept
            if gone and len(pos) == 1 and pos[0][1] and isinstance(pos[0][0], T) and pos[0][0].op in ('starts_with', 'ends_with', 'contains', 'str_contains') and pos[0][0].args[0] == K: return False
    return None
def c06(ctx, rep):
    """content is stored under, and removed from, the root-relative source key only"""
    G = Gen(ctx); S1 = ctx.summary(ctx.fn('SourceMapGenerator', 'set_source_content'), 'gen', opaque=[G.rel]); me = self_in(S1)
    src, content = argn(S1, 1), argn(S1, 2)
    def spec(s):
        root = s.opt(G.f(me, 'source_root'))
        key = src if root is None else ctx.call(G.rel, root, src)
        c = s.opt(content); m = G.f(me, 'source_contents')
        S1.exp = G.with_(me, source_contents=('map', m, (('ins', key, c) if c is not None else ('rem', key, UNIT),)))
        return R(UNIT)
    def post(I, st, o, e):
        fin = final(S1, o); out = []
        for n in G.names_:
            got, want = I.deep(st, G.f(fin, n)), G.f(S1.exp, n); v = None
            if isinstance(got, T) and got.op == 'map_retained' and isinstance(want, tuple) and len(want[2]) == 1 and got.args[0] == want[1]:
                v = False if want[2][0][0] == 'ins' else retained(I, st, got, want[2][0][1])
                if v is False: out.append((n, pretty(want), False, pretty(got))); continue
            out.append((n, got, want))
        return out
    conform(ctx, rep, 'set-content', S1, spec, post)

# ------------------------------------------------------------- generation
def gen_sum(ctx, G):
    return ctx.summary(ctx.fn('SourceMapGenerator', 'as_string'), 'gen', opaque=G.OP())
def jsons(ctx, G, S):
    """(outcome, document value) for each returning path: the argument serialised"""
    out = []
    for o in S.outs:
        if o[0] != 'ret': continue
        v = S.I.deep(o[-1], o[1])
        if isinstance(v, T) and v.op == 'f' and isinstance(v.args[0], T) and v.args[0].op == 'call' and v.args[0].args[0].startswith('serde_json:ser::to_string'):
            out.append((o, v.args[0].args[1]))
        else: out.append((o, None))
    return out

def reg_pre(G, s, me, m):
    """every listed mapping is valid and registered (C01, C08); None when this path contradicts it"""
    return True

def p_same(a, b): return a == b

class Emit:
    """the mappings text of one path: loop record over the sorted list"""
    def __init__(self, ctx, G, S, o, text):
        self.ctx, self.G, self.S, self.o = ctx, G, S, o
        I = S.I; st = o[-1]; self.I = I; self.st = st
        me = self_in(S)
        self.me = me
        self.list = ctx.call(G.arr, G.f(me, 'mappings'))
        text = I.deep(st, text)
        self.text = text
        self.rec = None; self.phi = None
        if isinstance(text, T) and text.op == 'phi' and text in I.phi_rec:
            self.rec = I.rec_of(st, text); self.phi = text
            self.cps = {x[0]: cp for cp, x in self.rec.phis.items() if isinstance(x[0], T)}
    def m(self): return elem(self.list, self.rec.kappa)
    def pm(self): return elem(self.list, add(self.rec.kappa, V.I(-1)))
    def nxt(self, b, v):
        """value of a state expression after the iteration"""
        mp = {ph: self.I.deep(b['st'], b['next'][cp]) for cp, (ph, _) in self.rec.phis.items() if isinstance(ph, T)}
        return subst(v, mp)
    def init(self, v):
        mp = {ph: self.I.deep(self.rec.hdr, i) for cp, (ph, i) in self.rec.phis.items() if isinstance(ph, T)}
        mp[self.rec.kappa] = V.I(0)
        return subst(v, mp)
    def is_state(self, v):
        """only loop variables and constants"""
        ph = {x for x in self.cps}
        return all(x in ph for x in (lin(v) or (0, {'?': 1}))[1])
    def pieces(self, b):
        v = self.I.deep(b['st'], b['next'][self.cps[self.phi]])
        ps = list(parts(v))
        if not ps or ps[0] is not self.phi: return None
        return ps[1:]
    def vlqs(self, ps):
        return [p.args[1] for p in ps if isinstance(p, T) and p.op == 'call' and p.args[0] == self.ctx.cn(self.G.vlq)]
    def line_state(self):
        """state expression for the previous generated line"""
        gl = self.G.M.gl(self.m()); best = None
        for cp, (ph, i) in self.rec.phis.items():
            if not isinstance(ph, T) or not is_int(i): continue
            ds = []
            for b in self.rec.backs:
                nx = b['next'][cp]
                if not is_int(nx): ds = None; break
                hit = None
                for d in (0, -1, 1):
                    if b['st'].facts.ev(ieq(nx, add(gl, V.I(d)))) is True: hit = d
                ds.append(hit)
            if not ds: continue
            known = [d for d in ds if d is not None]
            if not known: continue
            d = max(set(known), key=known.count)
            sc = known.count(d)
            if best is None or sc > best[0]: best = (sc, add(ph, V.I(-d)))
        return best[1] if best else None

B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
KEYS = ['column', 'source', 'line', 'col', 'name']
def c02_03(ctx, rep, part):
    G = Gen(ctx); S = gen_sum(ctx, G); rep.seen(S); I = S.I
    where = S.b['id']
    rule = {'delta': 'delta-fields', 'sep': 'separators'}[part]
    done = set()
    for o, j in jsons(ctx, G, S):
        st = o[-1]
        if j is None: rep.und(rule, where, 'result is not a serialised document'); continue
        txt = ctx.get(j, G.json, 'mappings')
        txt = fld(txt, 0, 1) if isinstance(txt, tuple) and txt[0] == 'adt' and txt[2] == 1 else None
        if txt is None: rep.und(rule, where, 'mappings member'); continue
        E = Emit(ctx, G, S, o, txt)
        if E.rec is None:
            l = lit(E.text)
            if l == '' and st.facts.ev(eq0(seq_len(E.list))) is True: rep.ok(rule, where); continue
            rep.und(rule, where, 'text ' + pretty(E.text)); continue
        if id(E.rec) in done: rep.ok(rule, where); continue
        done.add(id(E.rec))
        one_loop(ctx, rep, G, S, E, o, part, rule, where)

def one_loop(ctx, rep, G, S, E, o, part, rule, where):
    I = S.I; rec = E.rec; st = o[-1]; M = G.M; m = E.m(); k = rec.kappa; me = E.me
    n = rec_range(rec)
    if n is None or variant(rec, n): rep.und(rule, where, 'loop range'); return
    r = Cmp(I).same(st, n, seq_len(E.list)); ex = exhausted(st, rec, n)
    if part == 'sep':
        rep.v3('all-mappings', where, r, 'iterates over %s, expected all of %s' % (pretty(n), pretty(seq_len(E.list))))
        rep.v3('all-mappings', where, True if ex is True else (False if ex is False and trail_ok(I, st, {'phi'}) else None), 'leaves the loop early')
    if r is not True: return
    if seq_concrete(I.deep(rec.hdr, rec.phis[E.cps[E.phi]][1])) is None and lit(I.deep(rec.hdr, rec.phis[E.cps[E.phi]][1])) != '':
        rep.und(rule, where, 'initial text'); return
    pl = E.line_state()
    if pl is None: rep.und(rule, where, 'previous line'); return
    # derive the previous-value expressions from the emitted differences
    X = lambda b, i: None
    def Xs(s):
        o_ = s.opt(M.f(m, 'original')); src = s.opt(M.f(m, 'source')); nm = s.opt(M.f(m, 'name'))
        if src is None: return ('none', [M.gc(m)]) if o_ is None and nm is None else None
        if o_ is None: return None
        si = s.opt(t('get', G.S.m(G.f(me, 'sources')), src))
        if si is None: return None
        out = [M.gc(m), si, add(M.line(o_), V.I(-1)), M.col(o_)]
        if nm is not None:
            ni = s.opt(t('get', G.S.m(G.f(me, 'names')), nm))
            if ni is None: return None
            out.append(ni)
        return ('some', out)
    dup1, dup2 = ctx.call(G.cmp, m, E.pm()), ctx.call(G.cmp, E.pm(), m)
    def dup(s):
        for d in (dup1, dup2):
            r = s.known(eq0(d))
            if r is not None: return r
        if s.known(ieq(M.gc(m), M.gc(E.pm()))) is False or s.known(ieq(M.gl(m), M.gl(E.pm()))) is False: return False
        return None
    def mentions_prev(st_):
        return any(x is not k and x.op == 'e' and x.args[0] == E.list and x.args[1] != k for c, _, _ in st_.trail for x in terms_in(c))
    ends = all(ps == [] or ps and E.vlqs(ps[-1:]) for ps in map(E.pieces, rec.backs))      # the text is empty or ends with a digit
    def impossible(s, first=None):
        if not ends: return False
        for c, tr, _ in s.st.trail:
            if isinstance(c, tuple) and c[0] == 'not': c, tr = c[1], not tr
            if isinstance(c, T) and c.op == 'ends_with' and c.args[0] is E.phi and lit(c.args[1]) and tr and lit(c.args[1])[-1] not in B64: return True
            if tr and isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq':
                for q in terms_in(c):
                    if q.op == 'scmp' and elem(t('chars', E.phi), add(seq_len(t('chars', E.phi)), V.I(-1))) in q.args and any(lit(x) and lit(x) not in B64 for x in q.args): return True
        ls = {q for c, _, _ in s.st.trail for q in terms_in(c) if q.op == 'len' and isinstance(q.args[0], T) and q.args[0].op == 'call' and q.args[0].args[0] == ctx.cn(G.vlq)}
        if ls:      # a number takes at least one digit (A01)
            p = of_facts(s.st.facts)
            for q in ls: p.le0(sub(V.I(1), q))
            p.axioms()
            if witness(p) is None: return True
        e = s.known(eq0(str_len(E.phi)))
        return first is not None and e is not None and e != first       # something is emitted for the first mapping
    prev = [None] * 5
    for b in rec.backs:
        ps = E.pieces(b)
        if ps is None: rep.und(rule, where, 'text update'); return
        args = E.vlqs(ps)
        def fx(s):
            s.o = ('ret', UNIT, b['st'])
            if s.known(ieq(M.gl(m), pl)) is None and s.lt(M.gl(m), pl): return None, None      # the list is ordered (B03)
            return Xs(s), s.known(ieq(M.gl(m), pl))
        for (xs, same), st2 in run_spec(I, b['st'], None, fx):
            if xs is None: continue
            for i, (x, a) in enumerate(zip(xs[1], args)):
                if i == 0 and same is not True: continue
                p = sub(x, a)
                if prev[i] is None or (not E.is_state(prev[i]) and E.is_state(p)): prev[i] = p
    for i in range(5):
        if prev[i] is None: prev[i] = V.I(0) if i != 4 else V.I(0)
    if part == 'delta':
        for i, p in enumerate(prev):
            if not E.is_state(p):
                rep.v3('delta-base', where, False if understood(I, p, {'phi'}) else None, 'field %s is not the difference to a running value (base %s)' % (KEYS[i], pretty(p)))
                continue
            r = Cmp(I).same(rec.hdr, E.init(p), V.I(0))
            rep.v3('delta-base', where, r, 'field %s starts relative to %s, expected 0' % (KEYS[i], pretty(E.init(p))))
    else:
        rep.v3('first-line', where, Cmp(I).same(rec.hdr, E.init(pl), V.I(1)), 'the first line is counted from %s, expected 1' % pretty(E.init(pl)))
    for b in rec.backs:
        ps = E.pieces(b); tok = trail_ok(I, b['st'], {'phi'})
        def body(s):
            s.o = ('ret', UNIT, b['st'])
            if not s.known(ilt(k, seq_len(E.list))): pass
            if s.lt(M.gl(m), 1): return ('any',)
            if s.lt(M.gl(m), pl): return ('any',)       # the list is ordered (B03)
            same = s.ieq(M.gl(m), pl)
            first = s.ieq(k, 0)
            if impossible(s, first): return ('any',)
            if not same: d = False
            elif first: d = False
            else: d = dup(s)
            xs = Xs(s)
            if xs is None: return ('any',)
            return ('go', same, first, d, xs[1])
        try: alts = run_spec(I, b['st'], None, body)
        except (Undecided, SpecError) as e: rep.und(rule, where, str(e)); continue
        for r, st2 in alts:
            if r[0] == 'any': rep.ok(rule, where); continue
            I.counted_out(st2)
            _, same, first, d, xs = r
            def fail(v, why):
                if v is False and not tok: v = None
                rep.v3(rule, where, v, {'iteration': trail_txt(st2, 6), 'why': why}, last_site(b['st']))
            if not ps:
                if d is True:
                    bad = None
                    for i, p in enumerate(prev + [pl]):
                        nv = E.nxt(b, p)
                        c = Cmp(I, {'phi'})
                        if c.same(st2, nv, p) is True: continue
                        if i < len(xs) and c.same(st2, nv, xs[i]) is True: continue
                        bad = (i, nv)
                    if bad is None or part == 'sep': rep.ok(rule, where)
                    else: fail(False if understood(I, bad[1], {'phi'}) else None, 'a skipped duplicate changes the running value of %s' % (KEYS + ['generated line'])[bad[0]])
                elif part == 'sep': fail(False if d is False or not mentions_prev(b['st']) else None, 'a mapping that is no duplicate of its predecessor is dropped')
                continue
            if d is True and part == 'sep': fail(False, 'a mapping equal to its predecessor is emitted again'); continue
            if d is None and part == 'sep' :
                fail(False if not mentions_prev(b['st']) else None, 'duplicate mappings are not suppressed'); continue
            # separators
            seps = []; rest = list(ps)
            while rest and not (isinstance(rest[0], T) and rest[0].op == 'call' and rest[0].args[0] == ctx.cn(G.vlq)): seps.append(rest.pop(0))
            sep = mkstr(seps)
            if part == 'sep':
                want = S_('') if same and first else S_(',') if same else rep_(';', sub(M.gl(m), pl))
                c = Cmp(I, {'phi'})
                v = c.same(st2, sep, want)
                if v is True: rep.ok(rule, where)
                else: fail(v, 'separator %s, expected %s' % (pretty(sep), pretty(want)))
                v = c.same(st2, E.nxt(b, pl), M.gl(m))
                if v is True: rep.ok('line-count', where)
                else: fail(v, 'the running line becomes %s, expected the line of the mapping' % pretty(E.nxt(b, pl)))
                continue
            args = [p.args[1] if isinstance(p, T) and p.op == 'call' and p.args[0] == ctx.cn(G.vlq) else None for p in rest]
            if None in args: fail(None if not all(isinstance(p, (str, T)) for p in rest) else False, 'unexpected text %s' % pretty(mkstr(rest))); continue
            if len(args) != len(xs): fail(False, '%d fields emitted, expected %d' % (len(args), len(xs))); continue
            okk = True
            for i, (x, a) in enumerate(zip(xs, args)):
                base = V.I(0) if i == 0 and not same else prev[i]
                v = Cmp(I, {'phi'}).same(st2, a, sub(x, base))
                if v is not True: okk = False; fail(v, 'field %s is %s, expected %s' % (KEYS[i], pretty(a), pretty(sub(x, base)))); continue
                v = Cmp(I, {'phi'}).same(st2, E.nxt(b, prev[i]), x)
                if v is not True: okk = False; fail(v, 'running %s becomes %s, expected %s' % (KEYS[i], pretty(E.nxt(b, prev[i])), pretty(x)))
            for i in range(len(xs), 5):
                v = Cmp(I, {'phi'}).same(st2, E.nxt(b, prev[i]), prev[i])
                if v is not True: okk = False; fail(v, 'running %s changes without being emitted' % KEYS[i])
            if okk: rep.ok(rule, where)
    # leaving through a panic is reserved to unregistered or invalid mappings
    if part == 'delta':
        for x in rec.exits:
            if x['kind'] != 'panic': continue
            def body(s):
                s.o = ('ret', UNIT, x['st']); return Xs(s)
            for r, st2 in run_spec(I, x['st'], None, body):
                if r is None: rep.ok('no-panic', where)
                else: rep.v3('no-panic', where, False if trail_ok(I, x['st'], {'phi'}) else None, {'path': trail_txt(st2, 6), 'why': 'serialising a valid mapping panics: %s' % str(x['o'][1][:1])}, last_site(x['st']))
def S_(x): return V.S(x)
rep_ = V.rep
def c02(ctx, rep):
    """every emitted field is the difference to the same field of the previous emitted mapping (loop invariant over all backs)"""
    c02_03(ctx, rep, 'delta')
def c03(ctx, rep):
    """separator text, line counting, duplicate suppression and completeness of the mappings loop"""
    c02_03(ctx, rep, 'sep')

def c04(ctx, rep):
    """the document handed to the JSON writer, member by member"""
    G = Gen(ctx); S = gen_sum(ctx, G); rep.seen(S); me = self_in(S); where = S.b['id']
    for o, j in jsons(ctx, G, S):
        st = o[-1]
        if j is None:
            v = S.I.deep(st, o[1]); rep.v3('document', where, None, 'result ' + pretty(v)); continue
        def mem(n, want):
            got = ctx.get(j, G.json, n); r = Cmp(S.I).same(st, got, want)
            rep.v3('document', where, r, 'member %s is %s, expected %s' % (n, pretty(got), pretty(want)))
        mem('version', V.I(3)); mem('sources', some(G.S.a(G.f(me, 'sources')))); mem('names', some(G.S.a(G.f(me, 'names'))))
        mem('file', G.f(me, 'file')); mem('source_root', G.f(me, 'source_root')); mem('sections', NONE)
        mp = ctx.get(j, G.json, 'mappings')
        r = isinstance(mp, tuple) and mp[0] == 'adt' and mp[2] == 1
        rep.v3('document', where, True if r else (False if mp == NONE else None), 'mappings member absent')
    for o in S.panics():
        # serialising plain data does not fail (serde_json); other panics belong to C02
        pass

def c05(ctx, rep):
    """sourcesContent: absent without contents, else one entry per source under the key it was stored with"""
    G = Gen(ctx); S = gen_sum(ctx, G); rep.seen(S); me = self_in(S); where = S.b['id']; I = S.I
    store = G.f(me, 'source_contents'); srcs = G.S.a(G.f(me, 'sources')); root = G.f(me, 'source_root')
    for o, j in jsons(ctx, G, S):
        st = o[-1]
        if j is None: rep.und('contents', where, 'document'); continue
        got = ctx.get(j, G.json, 'sources_content')
        def body(s):
            s.o = o
            if s.ieq(t('maplen', store), 0): return ('absent',)
            return ('list',)
        for r, st2 in run_spec(I, st, None, body):
            tok = trail_ok(I, st)
            if r[0] == 'absent':
                v = Cmp(I).same(st2, got, NONE)
                # an all-null list is also no content
                rep.v3('contents', where, v if v is not False or tok else None, 'sourcesContent present without contents: ' + pretty(got)); continue
            if not (isinstance(got, tuple) and got[0] == 'adt'):
                rep.v3('contents', where, None, 'sourcesContent ' + pretty(got)); continue
            if got == NONE:
                rep.v3('contents', where, False if tok else None, {'path': trail_txt(st2), 'got': 'absent', 'expected': 'one entry per source'}); continue
            def el(s, k):
                rt = s.opt(root)
                key = elem(srcs, k) if rt is None else ctx.call(G.rel, rt, elem(srcs, k))
                p = s.opt(t('get', store, key))
                return NONE if p is None else some(p)
            v, why = comp_check(I, st2, fld(got, 0, 1), seq_len(srcs), el, o)
            rep.v3('contents', where, v, why)

def c07(ctx, rep):
    """generation only reads the generator (the mapping list may be put in order)"""
    G = Gen(ctx); S = gen_sum(ctx, G); me = self_in(S)
    aft = t('after', ctx.cn(G.arr), 0, G.f(me, 'mappings'))
    def spec(s): return ANY if s.o[0] == 'panic' else R(s.o[1])
    def post(I, st, o, e):
        fin = final(S, o); out = []
        for n in G.names_:
            if n == 'mappings':
                v = I.deep(st, G.f(fin, n)); out.append((n, 'the same mappings', True if v in (aft, G.f(me, n)) else Cmp(I).same(st, v, G.f(me, n)), pretty(v)))
            else: out.append((n, G.f(fin, n), G.f(me, n)))
        return out
    conform(ctx, rep, 'generation-pure', S, spec, post)
    # ordering the list keeps what it holds: B03's rules on to_array
    L = ctx.adt('MappingList'); ia = ctx.role(L, r'^std::vec::Vec<.*Mapping>$')
    S2 = ctx.summary(G.arr, 'ml'); me2 = self_in(S2)
    def post2(I, st, o, e):
        fa = I.deep(st, fld(final(S2, o), ia)); arr = fld(me2, ia)
        good = fa == arr or (isinstance(fa, T) and fa.op == 'sorted' and fa.args[0] == arr)
        v = I.deep(st, o[1])
        same = v == fa or (isinstance(v, T) and v.op == 'sorted' and v.args[0] == arr)
        return [('kept mappings', 'all of them', True if good else (False if seq_concrete(fa) == [] or loses(I, fa, arr) else None), pretty(fa)),
                ('returned mappings', 'the kept mappings', True if same else None, pretty(v))]
    conform(ctx, rep, 'list-kept', S2, lambda s: R(s.o[1]) if s.o[0] == 'ret' else R(UNIT), post2)

RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08}
