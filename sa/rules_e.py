"""Indexed (sectioned) documents."""
from .rules_d import *
from .norm import rewrite, Rewriter

QS = ('original_position_for', 'generated_position_for', 'all_generated_position_for', 'source_content_for',
      'has_contents_of_all_sources', 'find_source_index', 'get_sources', 'compute_column_spans', 'from_source_map_json', 'each_mapping')
def leaves(v, path=()):
    if isinstance(v, tuple) and v[0] == 'adt':
        for i, x in enumerate(v[3]): yield from leaves(x, path + ((i, v[2] if v[1] == OPT else None),))
    elif isinstance(v, tuple) and v[0] == 'tup':
        for i, x in enumerate(v[1]): yield from leaves(x, path + ((i, None),))
    else: yield path, v
def at_path(v, path):
    for i, var in path: v = fld(v, i, var)
    return v
class Idx:
    def __init__(self, ctx):
        self.c = c = ctx; self.B = Basic(ctx)
        self.A = c.adt('IndexedConsumer')
        self.i_secs = c.role(self.A, r'Vec<.*Section')
        cand = [p for p, a in c.p.adts.items() if len(a['v']) == 1 and p != self.A and any(c.tys(f['t']).endswith('BasicConsumer') for f in a['v'][0]['f'])]
        if len(cand) != 1: raise RoleError('section type %s' % cand)
        self.Sec = cand[0]; self.i_cons = c.role(self.Sec, r'BasicConsumer$')
        self.jsec = c.adt('Section', 'offset', 'map', 'url')
        self.q = {n: c.fn('BasicConsumer', n, opt=True) for n in QS}
        self.search = c.fn('search', opt=True)
        if self.search:
            b = c.p.bodies[self.search]; ty = lambda x: c.p.types[x]
            ls = [i for i in range(b['argc']) for k in [ty(b['locals'][i + 1]['t'])] if k['k'] == 'ref' and ty(k['t'])['k'] == 'slice']
            if len(ls) == 1: c.p.index_of[self.search] = ls[0]
        self.find = self.q['find_source_index']
        self.OP = [x for x in self.q.values() if x] + ([self.search] if self.search else [])
        self.ctor = c.summary(c.fn('IndexedConsumer', 'from_source_map_json'), 'ixctor', opaque=self.OP)
        self._offs()
    def sum(self, name):
        """summary with the section list as loops see it, and lists copied from it, spelled
        in terms of the list itself"""
        k = ('ixn', name)
        if k not in self.c.cache:
            S = self.c.summary(self.c.fn('IndexedConsumer', name), 'ix', opaque=self.OP)
            vs = self.views(S); cs = self.comps(S); secs = vs[0]
            def fn(v):
                if v.op == 'phi' and v in vs: return secs
                if v.op == 'e' and v.args[0] in cs: n, kap, e = cs[v.args[0]]; return subst(e, {kap: v.args[1]})
                if v.op == 'len' and v.args[0] in cs: return cs[v.args[0]][0]
                if v.op == 'f' and v.args[2] == self.B.i_spans and isinstance(v.args[0], T) and v.args[0].op == 'after' and v.args[0].args[0] != cs_: 
                    x = self.strip(v.args[0])
                    if x is not v.args[0]: return fld(x, v.args[2])      # lookups leave the flag alone (D09)
                return None
            cs_ = self.c.cn(self.q['compute_column_spans']) if self.q['compute_column_spans'] else None
            self.c.cache[k] = rewrite(S, fn)
        return self.c.cache[k]
    def jsecs(self):
        """sections member (payload) of the document given to the constructor"""
        return fld(fld(argn(self.ctor, 0), self.c.fi(self.B.json, 'sections')), 0, 1)
    def jo(self, k, n):
        return fld(fld(elem(self.jsecs(), k), self.c.fi(self.jsec, 'offset')), self.c.fi(self.B.pos, n))
    def loop(self):
        """(outcome, rec, φ, component) of the loop that builds the section list"""
        S = self.ctor; I = S.I
        for o in S.rets():
            v = I.deep(o[-1], fld(I.deep(o[-1], o[1]), self.i_secs))
            if isinstance(v, T) and v.op == 'phi' and v in I.phi_rec:
                rec = I.rec_of(o[-1], v)
                cp = next(cp for cp, x in rec.phis.items() if x[0] is v)
                return o, rec, v, cp
        raise RoleError('section list construction')
    def pushed(self, rec, phi, cp):
        out = []
        for b in rec.backs:
            ps = seq_pieces(self.ctor.I.deep(b['st'], b['next'][cp]))
            if not (ps and ps[0] == ('all', phi)) or any(p[0] != 'one' for p in ps[1:]): raise RoleError('section list construction')
            out.append((b, [self.ctor.I.deep(b['st'], p[1]) for p in ps[1:]]))
        return out
    def _offs(self):
        self.pL = self.pC = None
        try: o, rec, phi, cp = self.loop()
        except RoleError: return
        k = rec.kappa
        for b, ps in self.pushed(rec, phi, cp):
            if len(ps) != 1: continue
            for path, v in leaves(ps[0]):
                if not is_int(v): continue
                # whichever document section the offset comes from (E02 asks for the one in the same place)
                js = self.jsecs(); k = next((x.args[1] for x in terms_in(v) if x.op == 'e' and x.args[0] is js), rec.kappa)
                for nm in ('line', 'column'):
                    d = lin(sub(v, self.jo(k, nm)))
                    if d is not None and not d[1]:
                        if nm == 'line': self.pL = self.pL or (path, d[0])
                        else: self.pC = self.pC or (path, d[0])
    def secs(self, C): return fld(C, self.i_secs)
    def off_wrong(self):
        """(False, values): what is kept is plainly not the section's line and column, up to constants"""
        S = self.ctor; js = self.jsecs(); vals = []
        for o in S.rets():
            v = S.I.deep(o[-1], fld(S.I.deep(o[-1], o[1]), self.i_secs))
            if v == EMPTY and trail_ok(S.I, o[-1], {'phi'}) and o[-1].facts.assume(ilt(V.I(0), seq_len(js)), True) is not None and understood(S.I, t('w', *[c for e in S.outs for c, _, _ in e[-1].trail]), {'phi', 'w'}): return False, 'loads no section although the document has some'
        o, rec, phi, cp = self.loop()
        for b, ps in self.pushed(rec, phi, cp):
            if len(ps) != 1: return None, 'stored section offset'
            for path, v in leaves(ps[0]):
                if path and path[0] == self.i_cons or v == self.cons(ps[0]): continue
                l = lin(v) if is_int(v) else None
                if l is None or len(l[1]) > 1 or any(x.op != 'f' or n != 1 or not any(y.op == 'e' and y.args[0] is js for y in terms_in(x)) for x, n in l[1].items()): return None, 'stored section offset ' + pretty(v)
                vals.append(pretty(v))
        return (False if vals and trail_ok(self.ctor.I, o[-1], {'phi'}) else None), 'keeps %s of a section' % ', '.join(vals)
    def dl(self, sec):
        if self.pL is None or self.pC is None: raise RoleError('stored section offset')
        return self.dl_(sec)
    def dc(self, sec):
        if self.pL is None or self.pC is None: raise RoleError('stored section offset')
        return self.dc_(sec)
    def dl_(self, sec): return sub(at_path(sec, self.pL[0]), V.I(self.pL[1]))
    def dc_(self, sec): return sub(at_path(sec, self.pC[0]), V.I(self.pC[1]))
    def cons(self, sec): return fld(sec, self.i_cons)
    def strip(self, v):
        """a consumer without the lookups already made on it"""
        names = {self.c.cn(x) for x in self.q.values() if x}
        while isinstance(v, T) and v.op == 'after' and v.args[0] in names and v.args[1] == 0: v = v.args[2]
        return v
    def is_cons(self, v, sec):
        """v is the section's own consumer, up to lookups already made on it"""
        want = self.strip(self.cons(sec))
        return self.strip(v) == want
    def sec_of(self, S, v):
        """section (index, term) whose consumer v is"""
        v = self.strip(v); vs = (self.secs(self_in(S)),)
        for sec in terms_in(v):
            if sec.op == 'e' and sec.args[0] in vs and self.cons(sec) == v: return sec.args[1], sec
        return None, None
    def sec_ok(self, v, base):
        """section v is section base up to lookups made on its consumer"""
        if v == base: return True
        if not (isinstance(v, tuple) and v[0] == 'upd' and v[1] == base): return False
        return all(k[0] == 'f' and k[1] == self.i_cons and self.strip(x) == self.cons(base) for k, x in v[2])
    def secs_ok(self, v, base):
        """list v is list base up to lookups made on the sections' consumers"""
        if v == base: return True
        if not (isinstance(v, tuple) and v[0] == 'upd' and v[1] == base): return False
        return all(k[0] == 'x' and self.sec_ok(x, elem(base, k[1])) for k, x in v[2])
    def views(self, S):
        """terms for the section list that differ from it only by lookups made on the consumers"""
        if hasattr(S, 'views_'): return S.views_
        I = S.I; vs = [self.secs(self_in(S))]
        ok = self.secs_ok
        ch = True
        while ch:
            ch = False
            for ph, rec in I.phi_rec.items():
                if ph in vs: continue
                cp = next((cp for cp, x in rec.phis.items() if x[0] is ph), None)
                if cp is None: continue
                ini = I.deep(rec.hdr, rec.phis[cp][1])
                while isinstance(ini, tuple) and ini[0] == 'upd' and ok(ini, ini[1]): ini = ini[1]
                if ini not in vs: continue
                if all(ok(I.deep(b['st'], b['next'][cp]), ph) for r in I.phi_all.get(ph, [rec]) for b in r.backs): vs.append(ph); ch = True
        S.views_ = vs
        return vs
    def comps(self, S):
        """lists built by one push per iteration: φ -> (length, κ, element)"""
        if hasattr(S, 'comps_'): return S.comps_
        I = S.I; out = {}
        for ph, rec in I.phi_rec.items():
            cp = next((cp for cp, x in rec.phis.items() if x[0] is ph), None)
            if cp is None or seq_concrete(I.deep(rec.hdr, rec.phis[cp][1])) != []: continue
            n = rec_range(rec)
            if n is None or variant(rec, n) or not rec.backs: continue
            es = []
            for b in rec.backs:
                ps = seq_pieces(I.deep(b['st'], b['next'][cp]))
                if len(ps) != 2 or ps[0] != ('all', ph) or ps[1][0] != 'one': es = None; break
                es.append(I.deep(b['st'], ps[1][1]))
            if not es or any(e != es[0] for e in es) or any(x.op == 'phi' for x in terms_in(es[0])): continue
            out[ph] = (n, rec.kappa, es[0])
        S.comps_ = out
        return out
    def full(self, S, st, n):
        """n is the number of sections"""
        return None if n is None else Cmp(S.I).same(st, n, seq_len(self.secs(self_in(S))))
    def evs(self, events, name):
        return [e for e in events if e[0] == 'call' and e[1] == self.c.cn(self.q[name])] if self.q.get(name) else []

# ------------------------------------------------------------- E01 / E02
def lag(I, st, rec, zero):
    """state st of an iteration, with every loop variable that just carries the previous
    element replaced by its initial value (zero) or by the previous element's value"""
    k = rec.kappa; m = {}
    for cp, (ph, init) in rec.phis.items():
        if not isinstance(ph, T) or ph is k: continue
        nx = [I.deep(b['st'], b['next'][cp]) for b in rec.backs]
        if not nx: continue
        if zero: m[ph] = I.deep(rec.hdr, init)
        elif all(not any(x.op == 'phi' for x in terms_in(v)) for v in nx) and all(v == nx[0] for v in nx):
            m[ph] = subst(nx[0], {k: add(k, V.I(-1))})
    f = st.facts.assume(eq0(k), zero)
    if f is None: return None
    st = st.copy(); st.facts = f
    return Rewriter(lambda v: m.get(v)).state(st)

def e01(ctx, rep):
    """sections are accepted exactly when their offsets do not decrease in document order"""
    X = Idx(ctx); S = X.ctor; I = S.I; rep.seen(S); where = S.b['id']
    o, rec, phi, cp = X.loop(); k = rec.kappa
    L, C = (lambda i: X.jo(i, 'line')), (lambda i: X.jo(i, 'column'))
    pk = add(k, V.I(-1))
    n = rec_range(rec)
    rep.v3('every-section', where, None if n is None else Cmp(I).same(o[-1], n, seq_len(X.jsecs())), 'loads %s sections' % pretty(n) if n is not None else '')
    rep.v3('every-section', where, None if n is None else exhausted(o[-1], rec, n), 'stops before the last section')
    cases = [('accepts', b['st'], b) for b in rec.backs]
    for x in S.panics(): 
        if any(e[0] == 'loop' and e[1] is rec for e in x[-1].events) and x[-1].facts.ev(ilt(k, n if n is not None else k)) is True: cases.append(('rejects', x[-1], x))
    for kind, st, src in cases:
        if kind == 'rejects' and not recs_in(st): continue
        for zero in (True, False):
            st1 = lag(I, st, rec, zero)
            if st1 is None: continue
            def body(s):
                s.o = ('ret', UNIT, st1)
                ver = s.known(ieq(ctx.get(argn(S, 0), X.B.json, 'version'), V.I(3)))
                u = s.known_some(fld(elem(X.jsecs(), k), ctx.fi(X.jsec, 'url')))
                if kind == 'rejects' and (ver is False or u is not False): return 'other'
                if s.lt(L(k), 0) or s.lt(C(k), 0): return 'other'
                if zero: return 'ok'
                if s.lt(L(pk), 0) or s.lt(C(pk), 0): return 'other'
                if s.lt(L(k), L(pk)): return 'bad'
                if s.lt(L(pk), L(k)): return 'ok'
                return 'bad' if s.lt(C(k), C(pk)) else 'ok'
            for r, st2 in run_spec(I, st1, None, body):
                if r == 'other': rep.ok('section-order', where); continue
                good = (r == 'ok') == (kind == 'accepts')
                tok = trail_ok(I, st1)
                if not good and contradictory(st2): continue
                rep.v3('section-order', where, True if good else (False if tok else None),
                       {'path': trail_txt(st2, 8), 'got': kind, 'expected': 'accepts' if r == 'ok' else 'rejects', 'case': 'first section' if zero else 'later section'}, last_site(st))

def e02(ctx, rep):
    """what an indexed document is loaded as, and what is rejected"""
    X = Idx(ctx); S = X.ctor; I = S.I; rep.seen(S); where = S.b['id']; B = X.B
    json, url = argn(S, 0), argn(S, 1)
    if X.pL is None or X.pC is None:
        r, why = X.off_wrong(); rep.v3('section-offset', where, r, why); return
    for o in S.outs:
        st = o[-1]
        def body(s):
            s.o = o
            if not s.ieq(ctx.get(json, B.json, 'version'), 3): return 'version'
            if s.opt(ctx.get(json, B.json, 'sections')) is None: return 'nosec'
            return 'go'
        for r, st2 in run_spec(I, st, S, body):
            tok = trail_ok(I, st, {'phi'})
            if r == 'version': rep.v3('version', where, True if o[0] == 'panic' else (False if tok else None), {'path': trail_txt(st2), 'got': 'loads', 'expected': 'rejects a version other than 3'}, last_site(st))
            elif r == 'nosec': rep.ok('version', where)
            elif o[0] == 'panic':
                in_loop = bool(recs_in(st))
                rep.v3('accepts-valid', where, True if in_loop else (False if tok else None), {'path': trail_txt(st2), 'got': 'panics %s' % str(o[1][0]), 'expected': 'loads the sections'}, last_site(st))
            else: rep.ok('accepts-valid', where)
    o, rec, phi, cp = X.loop(); k = rec.kappa
    rep.v3('sections-kept', where, Cmp(I).same(o[-1], ctx.get(I.deep(o[-1], o[1]), X.A, 'source_map'), json) if any(f['n'] == 'source_map' for f in ctx.p.adts[X.A]['v'][0]['f']) else True, 'document not kept')
    init = I.deep(rec.hdr, rec.phis[cp][1])
    rep.v3('sections-kept', where, True if init == EMPTY else (None if seq_concrete(init) is None else False), 'list not empty at the start')
    for b, ps in X.pushed(rec, phi, cp):
        st = b['st']; tok = trail_ok(I, st, {'phi'})
        def body(s):
            s.o = ('ret', UNIT, st)
            return s.opt(fld(elem(X.jsecs(), k), ctx.fi(X.jsec, 'url')))
        for u, st2 in run_spec(I, st, S, body):
            if u is not None:
                if contradictory(st2): continue
                rep.v3('url-rejected', where, False if tok else None, {'path': trail_txt(st2, 6), 'got': 'a section with a URL is loaded', 'expected': 'rejected'}, last_site(st)); continue
            rep.ok('url-rejected', where)
            if len(ps) != 1: rep.v3('sections-kept', where, False if tok else None, {'path': trail_txt(st2, 6), 'got': '%d entries for one section' % len(ps)}); continue
            sec = ps[0]
            want = ctx.call(X.q['from_source_map_json'], fld(elem(X.jsecs(), k), ctx.fi(X.jsec, 'map')), url)
            got = X.cons(sec)
            rep.v3('section-map', where, Cmp(I).same(st2, I.deep(st2, got), want), {'got': pretty(got), 'expected': pretty(want)})
            for nm, (path, d) in (('line', X.pL), ('column', X.pC)):
                rep.v3('section-offset', where, Cmp(I).same(st2, at_path(sec, path), add(X.jo(k, nm), V.I(d))), 'stored %s %s' % (nm, pretty(at_path(sec, path))))
    # the text entry point
    parsed = ctx.fn('IndexedConsumer', 'from_source_map_json')
    S2 = ctx.summary(ctx.fn('IndexedConsumer', 'new'), 'ixnew', opaque=[parsed] + X.OP)
    raw, url2 = argn(S2, 0), argn(S2, 1)
    if any(e[0] == 'call' and e[1] == ctx.cn(parsed) for o in S2.outs for e in o[-1].events):
        def spec2(s):
            ok_, j = s.res(t('call', 'serde_json:de::from_str', raw))
            if not ok_: return PANIC
            return R(ctx.call(parsed, j, url2))
        conform(ctx, rep, 'load-text', S2, spec2)

# ------------------------------------------------------------- E03 routing
def call_clo(ctx, clo, args, rep):
    """summary of a closure / function value applied to references of fresh inputs"""
    cid = clo[1]
    if clo[0] == 'fn':
        fr = ctx.p.fnrefs[clo[1]]; cid = fr.get('res') or fr['p']
    if cid not in ctx.p.bodies: raise Undecided('comparator %s' % cid)
    b = ctx.p.bodies[cid]; base = 1 if clo[0] == 'clo' else 0
    def ref(nm):
        def f(I, st):
            st.mem[('in', nm)] = t('in', nm); return ('ref', ('in', nm), ())
        return f
    a = {base + i: ref(n) for i, n in enumerate(args)}
    if base: a[0] = (lambda I, st: I.tmp(st, clo, 'clo')) if ctx.p.types[b['locals'][1]['t']]['k'] == 'ref' else (lambda I, st: clo)
    S0 = summ.run(ctx.p, cid, args=a); rep.seen(S0)
    return S0
def sign_conform(ctx, rep, rule, S0, sg):
    def spec(s):
        x = sg(s)
        if x is None: return ANY
        if s.o[0] == 'panic': return R(UNIT)
        S0.sg = x; return R(s.o[1])
    conform(ctx, rep, rule, S0, spec, sign_post(S0))
def e03_routing(ctx, rep, X):
    """original lookups go to the last section starting at or before the position"""
    S = X.sum('original_position_for'); rep.seen(S); me = self_in(S); inp = argn(S, 1); I = S.I; where = S.b['id']
    if X.search is None: rep.und('route-original', where, 'no section search'); return S, None
    cl = set(); seen = 0
    for o in S.outs:
        es = [e for e in o[-1].events if e[0] == 'call' and e[1] == ctx.cn(X.search)]
        for e in es:
            seen += 1; a = e[2]
            rep.v3('route-original', where, Cmp(I).same(o[-1], I.deep(o[-1], a[0]), inp), 'searches for ' + pretty(a[0]))
            rep.v3('route-original', where, Cmp(I).same(o[-1], I.deep(o[-1], a[1]), X.secs(me)), 'searches in ' + pretty(a[1]))
            b = a[4]
            glb = b == NONE
            if not glb:
                p = b[3][0] if isinstance(b, tuple) and b[0] == 'adt' and b[2] == 1 else None
                glb = p == V.I(1) if p is not None else None
            rep.v3('route-original', where, glb, 'bias ' + pretty(b))
            if a[2] not in cl:
                cl.add(a[2])
                if not (isinstance(a[2], tuple) and a[2][0] in ('clo', 'fn')): rep.und('route-order', where, 'comparator'); continue
                S0 = call_clo(ctx, a[2], ('needle', 'section'), rep)
                nd, sc = t('in', 'needle'), t('in', 'section')
                def sg(s):
                    l, c = ctx.get(nd, X.B.pos, 'line'), ctx.get(nd, X.B.pos, 'column')
                    # document offsets and queries are in range (no wrap-around)
                    r = s.cmp3(l, add(X.dl(sc), V.I(1)))
                    return r if r else s.cmp3(c, X.dc(sc))
                sign_conform(ctx, rep, 'route-order', S0, sg)
            if ('2', a[3]) not in cl:
                cl.add(('2', a[3]))
                if not (isinstance(a[3], tuple) and a[3][0] in ('clo', 'fn')): rep.und('route-equal', where, 'comparator'); continue
                S0 = call_clo(ctx, a[3], ('a', 'b'), rep)
                x, y = t('in', 'a'), t('in', 'b')
                def eq(s):      # zero exactly for sections with the same offset
                    if s.o[0] == 'panic': return R(UNIT)
                    S0.sg = 0 if s.ieq(X.dl(x), X.dl(y)) and s.ieq(X.dc(x), X.dc(y)) else 1
                    return R(s.o[1])
                def zero(I2, st2, o, exp):
                    v = I2.deep(st2, o[1])
                    z = st2.facts.ev(eq0(v)) if is_int(v) else None
                    if z is None and is_int(v):
                        al = free_signs(st2.facts, v)
                        if al and (al - {0} if S0.sg == 0 else 0 in al): z = S0.sg != 0
                    return [('equal offsets', 'zero' if S0.sg == 0 else 'not zero', None if z is None else z == (S0.sg == 0), pretty(v))]
                conform(ctx, rep, 'route-equal', S0, eq, zero)
    if not seen: rep.und('route-original', where, 'no section search on any path')
    return S, None

def section_of(ctx, X, S, o, name):
    """section whose consumer answers on this path, from the call event"""
    for e in X.evs(o[-1].events, name):
        i, sec = X.sec_of(S, e[2][0])
        return i, sec, e
    return None, None, None

def consults(st, x):
    """does the path, or a loop on it, look at x in a condition or hand it to a function"""
    return mentions(st, lambda q: q is x)
def mentions(st, pred, call=None):
    """does a condition or argument on the path, or in a loop on it, have such a term (or is this function called)"""
    def ev(es): return any(e[0] == 'loop' and any(ev(b['events']) or tr(b['trail']) for b in e[1].backs) or e[0] != 'loop' and (e[0] == 'call' and e[1] == call or any(pred(q) for a in e[1:] if isinstance(a, (tuple, T)) for q in terms_in(a))) for e in es)
    def tr(l): return any(pred(q) for c, _, _ in l for q in terms_in(c))
    return ev(st.events) or tr(st.trail)
def found_rule(ctx, rep, X, S, o, rule, source, i):
    """section i is the first that lists the source: 1 on this path i has it, 2 every earlier one lacks it"""
    I = S.I; st = o[-1]; where = S.b['id']; fn = ctx.cn(X.find)
    def has(st_, k):
        """does this state know whether section k lists the source"""
        for c, _, _ in st_.trail:
            for x in terms_in(c):
                if x.op == 'discr' and isinstance(x.args[0], T) and x.args[0].op == 'call' and x.args[0].args[0] == fn:
                    call = x.args[0]; j, sec = X.sec_of(S, call.args[1])
                    if j is None or st_.facts.ev(ieq(j, k)) is not True: continue
                    if call.args[2] != source: return None
                    r = st_.facts.ev(eq0(x))
                    if r is not None: return not r
        return None
    if i is not None:
        h = has(st, i)
        rep.v3(rule, where, h if h is not None else (False if trail_ok(I, st) else None), {'path': trail_txt(st, 5), 'got': 'answers from a section that may not list the source'}, last_site(st))
    ok_ = None
    for rec in recs_in(st):
        n = rec_range(rec)
        if X.full(S, st, n) is not True: continue
        hs = [has(b['st'], rec.kappa) for b in rec.backs]
        if all(h is None for h in hs): continue
        if any(h is True for h in hs):
            ok_ = False if all(trail_ok(I, b['st']) for b in rec.backs) else None; break
        if any(h is None for h in hs): ok_ = None; break
        if i is None: ok_ = True if exhausted(st, rec, n) is True else (False if trail_ok(I, st) else None)
        else: ok_ = True if st.facts.ev(ieq(i, rec.kappa)) is True else None
    if ok_ is None and i is None and not consults(st, source) and trail_ok(I, st) and st.facts.assume(ilt(V.I(0), seq_len(X.secs(self_in(S)))), True) is not None: ok_ = False
    rep.v3(rule, where, ok_, {'path': trail_txt(st, 6), 'got': 'not the first section that lists the source' if i is not None else 'no section although one may list the source'}, last_site(st))

def e03(ctx, rep):
    """every query reaches the right section"""
    X = Idx(ctx)
    e03_routing(ctx, rep, X)
    if X.search is not None:
        from .rules_b4 import b04
        b04(ctx, rep)
    # the answer comes from the section found
    S = X.sum('original_position_for'); where = S.b['id']
    for o in S.outs:
        es = [e for e in o[-1].events if e[0] == 'call' and X.search and e[1] == ctx.cn(X.search)]
        i, sec, e = section_of(ctx, X, S, o, 'original_position_for')
        if len(es) != 1: rep.und('answer-original', where, '%d searches' % len(es)); continue
        k = t('call', es[0][1], *es[0][2])
        if e is not None:
            rep.v3('answer-original', where, None if i is None else o[-1].facts.ev(ieq(i, k)), 'asks section %s' % (pretty(i) if i is not None else '?'))
        else:
            out = o[-1].facts.ev(ilt(k, V.I(0))) is True or o[-1].facts.ev(ilt(k, seq_len(X.secs(self_in(S))))) is False
            rep.v3('answer-original', where, True if out else (False if trail_ok(S.I, o[-1]) else None), {'path': trail_txt(o[-1], 5), 'got': 'no section is asked'}, last_site(o[-1]))
    for nm in ('generated_position_for', 'all_generated_position_for'):
        S = X.sum(nm); src = argn(S, 1); rep.seen(S)
        for o in S.outs:
            i, sec, e = section_of(ctx, X, S, o, nm)
            if e is not None and i is None: rep.und('route-source', S.b['id'], 'section ' + pretty(e[2][0])); continue
            if e is None and o[0] == 'panic': continue
            found_rule(ctx, rep, X, S, o, 'route-source', src, i)

# ------------------------------------------------------------- E04 shifts
def e04(ctx, rep):
    """coordinates are translated by the section offset in both directions"""
    X = Idx(ctx); B = X.B
    me_pos = B.pos; G = lambda v, n: ctx.get(v, me_pos, n)
    # original lookup
    S = X.sum('original_position_for'); inp, bias = argn(S, 1), argn(S, 2); rep.seen(S)
    def spec(s):
        if s.o[0] == 'panic': return R(UNIT)
        i, sec, e = section_of(ctx, X, S, s.o, 'original_position_for')
        if e is None: return R(NONE)
        if i is None: raise Undecided('section')
        first = s.ieq(G(inp, 'line'), add(X.dl(sec), V.I(1)))
        q = B.P(sub(G(inp, 'line'), X.dl(sec)), sub(G(inp, 'column'), X.dc(sec)) if first else G(inp, 'column'))
        S.args_ = [('position asked of the section', e[2][1], q), ('bias', e[2][2], bias)]
        m = s.opt(t('call', e[1], *e[2]))
        if m is None: return R(NONE)
        g = fld(m, ctx.fi(B.map, 'generated'))
        if s.lt(G(g, 'line'), 1): return ANY      # the section's answers have lines from 1 (property D02)
        on1 = s.ieq(G(g, 'line'), 1)
        g2 = B.P(add(G(g, 'line'), X.dl(sec)), add(G(g, 'column'), X.dc(sec)) if on1 else G(g, 'column'))
        nl = fld(m, ctx.fi(B.map, 'last_generated_column'))
        if on1:
            l = s.opt(nl)
            nl = NONE if l is None else some(add(l, X.dc(sec)))
        return R(some(ctx.mk(B.map, generated=g2, original=fld(m, ctx.fi(B.map, 'original')), source=fld(m, ctx.fi(B.map, 'source')),
                             name=fld(m, ctx.fi(B.map, 'name')), last_generated_column=nl)))
    def post(I, st2, o, exp): return getattr(S, 'args_', []) if section_of(ctx, X, S, o, 'original_position_for')[2] else []
    conform(ctx, rep, 'shift-original', S, spec, post)
    # generated lookup
    S2 = X.sum('generated_position_for'); rep.seen(S2)
    def spec2(s):
        if s.o[0] == 'panic': return R(UNIT)
        i, sec, e = section_of(ctx, X, S2, s.o, 'generated_position_for')
        if e is None: return R(NONE)
        if i is None: raise Undecided('section')
        S2.args_ = [(n, e[2][j], argn(S2, j)) for j, n in ((1, 'source'), (2, 'line'), (3, 'column'), (4, 'bias'))]
        m = s.opt(t('call', e[1], *e[2]))
        if m is None: return R(NONE)
        g = fld(m, ctx.fi(B.map, 'generated'))
        if s.lt(G(g, 'line'), 1): return ANY      # likewise (property D03)
        return R(some(B.P(add(G(g, 'line'), X.dl(sec)), add(G(g, 'column'), X.dc(sec)) if s.ieq(G(g, 'line'), 1) else G(g, 'column'))))
    conform(ctx, rep, 'shift-generated', S2, spec2, lambda I, st2, o, exp: getattr(S2, 'args_', []) if section_of(ctx, X, S2, o, 'generated_position_for')[2] else [])
    # all generated positions
    S3 = X.sum('all_generated_position_for'); rep.seen(S3); I = S3.I; where = S3.b['id']
    for o in S3.outs:
        st = o[-1]
        if o[0] == 'panic': rep.v3('shift-all', where, False if trail_ok(I, st) else None, {'path': trail_txt(st), 'got': 'panics %s' % str(o[1])}, last_site(st)); continue
        i, sec, e = section_of(ctx, X, S3, o, 'all_generated_position_for')
        if e is None: rep.v3('shift-all', where, Cmp(I).same(st, I.deep(st, o[1]), EMPTY), 'answers %s without asking a section' % pretty(o[1])); continue
        if i is None: rep.und('shift-all', where, 'section'); continue
        for j, n in ((1, 'source'), (2, 'line'), (3, 'column')):
            rep.v3('shift-all', where, Cmp(I).same(st, I.deep(st, e[2][j]), argn(S3, j)), 'asks the section with %s %s' % (n, pretty(e[2][j])))
        base = t('call', e[1], *e[2])
        nxt = elem(X.secs(self_in(S3)), add(i, V.I(1)))
        hasn = ilt(add(i, V.I(1)), seq_len(X.secs(self_in(S3))))
        r, why = comp_check(I, st, o[1], seq_len(base), lambda s, k: raw_shift(ctx, X, s, elem(base, k), sec, nxt, hasn), o)
        rep.v3('shift-all', where, r, why)
    # the offsets themselves stay as loaded
    from .rules_h import frame_indexed
    frame_indexed(ctx, rep, X, ('original_position_for', 'generated_position_for', 'all_generated_position_for', 'each_mapping'))
    # traversal
    S4 = X.sum('each_mapping'); rep.seen(S4)
    each_ix(ctx, rep, X, S4)

def raw_shift(ctx, X, s, m, sec, nxt, hasn):
    B = X.B; raw = B.raw; gl, gc, last = B.raw_(m, 'generated_line'), B.raw_(m, 'generated_column'), B.raw_(m, 'last_generated_column')
    first = s.ieq(gl, 0)
    nl = add(gl, X.dl(sec)); ncol = add(gc, X.dc(sec)) if first else gc
    p = s.opt(last)
    if p is not None: nlast = some(add(p, X.dc(sec)) if first else p)
    else:
        spans = fld(X.cons(sec), B.i_spans)
        nlast = NONE
        if s.cond(spans) and s.cond(hasn) and s.ieq(nl, X.dl(nxt)): nlast = some(X.dc(nxt))
    return ctx.mk(raw, generated_line=nl, generated_column=ncol, last_generated_column=nlast, original=B.raw_(m, 'original'))

def never(I, o, callee):
    """False: a path that may be taken ends without looking at any section"""
    st = o[-1]
    if recs_in(st) or any(e[0] == 'call' and e[1] == callee for e in st.events): return None
    if not trail_ok(I, st) or o[0] == 'ret' and not understood(I, I.deep(st, o[1])): return None
    return False

def each_ix(ctx, rep, X, S):
    I = S.I; where = S.b['id']; cb = argn(S, 1); ordv = argn(S, 2); secs = X.secs(self_in(S))
    em = ctx.cn(X.q['each_mapping'])
    for o in S.outs:
        st = o[-1]
        if o[0] == 'panic': rep.v3('each-section', where, False if trail_ok(I, st) else None, {'path': trail_txt(st), 'got': 'panics %s' % str(o[1])}, last_site(st)); continue
        recs = [r for r in recs_in(st) if any(any(e[0] == 'call' and e[1] == em for e in b['events']) for b in r.backs)]
        if not recs and st.facts.ev(eq0(seq_len(secs))) is True: rep.ok('each-section', where); continue
        if len(recs) != 1: rep.v3('each-section', where, never(I, o, em), '%d section loops' % len(recs), last_site(st)); continue
        rec = recs[0]; n = rec_range(rec); k = rec.kappa
        rep.v3('each-section', where, X.full(S, st, n), 'visits %s sections' % pretty(n or UNIT))
        rep.v3('each-section', where, None if n is None else exhausted(st, rec, n), 'stops early')
        done = set()
        for b in rec.backs:
            es = [e for e in b['events'] if e[0] == 'call' and e[1] == em]
            if len(es) != 1: rep.v3('each-section', where, (False if trail_ok(I, b['st']) else None), 'a section is visited %d times' % len(es)); continue
            a = es[0][2]; i, sec = X.sec_of(S, a[0])
            rep.v3('each-section', where, None if i is None else b['st'].facts.ev(ieq(i, k)), 'visits ' + pretty(a[0]))
            if i is None: continue
            rep.v3('each-section', where, Cmp(I).same(b['st'], I.deep(b['st'], a[2]), ordv), 'order ' + pretty(a[2]))
            clo = a[1]
            if not (isinstance(clo, tuple) and clo[0] == 'clo'): rep.und('shift-each', where, 'callback ' + pretty(clo)); continue
            if clo in done: continue
            done.add(clo)
            cid = clo[1]; cbody = ctx.p.bodies[cid]
            def mref(I2, st2):
                st2.mem[('in', 'm')] = t('in', 'm'); return ('ref', ('in', 'm'), ())
            def env(I2, st2, bst=b['st'], isref=ctx.p.types[cbody['locals'][1]['t']]['k'] == 'ref'):
                st2.facts = bst.facts
                return I2.tmp(st2, clo, 'clo') if isref else clo
            S0 = rewrite(summ.run(ctx.p, cid, args={0: env, 1: mref}), S.rewriter.fn); rep.seen(S0)
            m = t('in', 'm'); nxt = elem(secs, add(k, V.I(1))); hasn = ilt(add(k, V.I(1)), seq_len(secs))
            def spec(s):
                S0.want = raw_shift(ctx, X, s, m, sec, nxt, hasn); return R(UNIT)
            def post(I2, st2, o2, exp):
                tr = cb_trace(I2, o2[-1].events, st2)
                if len(tr) != 1 or tr[0][0] != 'cb': return [('callbacks per mapping', '1', False if all(x[0] == 'cb' for x in tr) else None, str(len(tr)))]
                return [('reported mapping', I2.deep(st2, tr[0][1][0] if False else tr[0][2][0]), S0.want)]
            conform(ctx, rep, 'shift-each', S0, spec, post)

# ------------------------------------------------------------- E05
def e05(ctx, rep):
    """no query can fail on a borrow or lock conflict of its own making"""
    X = Idx(ctx)
    for nm in ('get_sources', 'original_position_for', 'has_contents_of_all_sources', 'source_content_for', 'generated_position_for', 'all_generated_position_for', 'computed_column_spans', 'each_mapping', 'from_source_map_json'):
        fid = ctx.fn('IndexedConsumer', nm, opt=True)
        if fid is None: continue
        S = X.ctor if nm == 'from_source_map_json' else X.sum(nm); rep.seen(S)
        def walk(outs, d=0):
            for o in outs:
                if o[0] == 'panic' and o[1][0] in ('borrow', 'deadlock'):
                    rep.v3('borrow-conflict', S.b['id'], False if trail_ok(S.I, o[-1], {'phi'}) else None, {'path': trail_txt(o[-1], 6), 'got': 'fails: %s' % str(o[1])}, str(o[1][-1][1] if isinstance(o[1][-1], tuple) else ''))
                else: rep.ok('borrow-conflict', S.b['id'])
        walk(S.outs)

# ------------------------------------------------------------- E06
def e06(ctx, rep):
    """sources, contents and column spans of an indexed document cover every section"""
    X = Idx(ctx)
    S = X.sum('get_sources'); rep.seen(S); I = S.I; where = S.b['id']; secs = X.secs(self_in(S)); gs = ctx.cn(X.q['get_sources'])
    for o in S.outs:
        st = o[-1]
        if o[0] == 'panic': rep.v3('all-sources', where, False if trail_ok(I, st) and not any(x.op == 'k' for c, _, _ in st.trail for x in terms_in(c)) else None, 'panics'); continue
        v = I.deep(st, o[1])
        if v == EMPTY and st.facts.ev(eq0(seq_len(secs))) is True: rep.ok('all-sources', where); continue
        if v == EMPTY and not mentions(st, lambda q: q.op in ('call', 'after'), gs) and st.facts.assume(ilt(V.I(0), seq_len(secs)), True) is not None:
            rep.v3('all-sources', where, False if trail_ok(I, st) and not I.unknown_calls else None, {'path': trail_txt(st), 'got': 'no sources although there are sections'}, last_site(st)); continue
        if isinstance(v, T) and v.op in ('concat', 'flatten'): rep.und('all-sources', where, pretty(v)); continue
        if not (isinstance(v, T) and v.op == 'phi' and v in I.phi_rec): rep.und('all-sources', where, pretty(v)); continue
        r, why = fold_check(I, st, v, seq_len(secs), lambda s, cur, k: mkseq(list(seq_pieces(cur)) + [('all', t('call', gs, X.cons(elem(secs, k))))]), EMPTY, o)
        rep.v3('all-sources', where, r, why)
    # contents
    S = X.sum('source_content_for'); rep.seen(S); I = S.I; where = S.b['id']; src, pom = argn(S, 1), argn(S, 2); sc = ctx.cn(X.q['source_content_for'])
    secs = X.secs(self_in(S))
    for o in S.outs:
        st = o[-1]
        recs = [r for r in recs_in(st) if any(any(e[0] == 'call' and e[1] == sc for e in b['events']) for b in r.backs)]
        if len(recs) != 1:
            if not recs and st.facts.ev(eq0(seq_len(secs))) is True: rep.ok('all-contents', where); continue
            rep.v3('all-contents', where, never(I, o, sc), '%d section loops' % len(recs), last_site(st)); continue
        rec = recs[0]; n = rec_range(rec); k = rec.kappa
        if X.full(S, st, n) is not True:
            rep.v3('all-contents', where, X.full(S, st, n), 'asks %s sections' % pretty(n or UNIT)); continue
        own = [e for e in st.events if e[0] == 'call' and e[1] == sc]
        ex = exhausted(st, rec, n)
        bad = None
        for b in rec.backs:
            es = [e for e in b['events'] if e[0] == 'call' and e[1] == sc]
            if len(es) != 1 or X.sec_of(S, es[0][2][0])[0] != k: bad = (None if len(es) or not trail_ok(I, b['st']) else False, 'a section is not asked'); break
            a = es[0][2]
            if a[1] != src: bad = (Cmp(I).same(b['st'], a[1], src), 'asks for ' + pretty(a[1]))
            if a[2] != some(FALSE): bad = (False if isinstance(a[2], tuple) and not has_unknown(a[2]) else None, 'a section that lacks the source may panic: ' + pretty(a[2]))
            d = t('discr', t('call', es[0][1], *a)); r = b['st'].facts.ev(eq0(d))
            if r is not True: bad = (False if r is False and trail_ok(I, b['st']) else None, 'continues although the section has the content')
        if bad is not None: rep.v3('all-contents', where, bad[0], bad[1], last_site(st)); continue
        if o[0] == 'ret' and own and ex is False:
            c = t('call', own[-1][1], *own[-1][2])
            good = Cmp(I).same(st, I.deep(st, o[1]), c)
            if good is not True: good = Cmp(I).same(st, I.deep(st, o[1]), some(fld(c, 0, 1))) if st.facts.ev(eq0(t('discr', c))) is False else good
            rep.v3('all-contents', where, good, {'path': trail_txt(st, 5), 'got': pretty(o[1]), 'expected': pretty(c)}); continue
        def body(s):
            s.o = o
            p = s.opt(pom)
            return True if p is None else s.cond(p)
        for want_panic, st2 in run_spec(I, st, S, body):
            good = ex is True and (o[0] == 'panic') == want_panic and (o[0] == 'panic' or Cmp(I).same(st2, I.deep(st2, o[1]), NONE) is True)
            rep.v3('all-contents', where, True if good else (False if trail_ok(I, st) else None), {'path': trail_txt(st2, 6), 'got': 'panics' if o[0] == 'panic' else pretty(o[1]), 'expected': ('panic' if want_panic else 'None') + ' after asking every section'}, last_site(st))
    # has contents: true only when every section has, false only with a witness
    S = X.sum('has_contents_of_all_sources'); rep.seen(S); I = S.I; where = S.b['id']; hc = ctx.cn(X.q['has_contents_of_all_sources']); secs = X.secs(self_in(S))
    for o in S.outs:
        st = o[-1]
        if o[0] == 'panic': rep.v3('all-have-contents', where, False if trail_ok(I, st) else None, 'panics'); continue
        got = st.facts.ev(I.deep(st, o[1])); tok = trail_ok(I, st)
        if got is None: rep.und('all-have-contents', where, pretty(o[1])); continue
        okk = st.facts.ev(eq0(seq_len(secs))) is True and got
        for rec in recs_in(st):
            n = rec_range(rec)
            if X.full(S, st, n) is not True: continue
            c = t('call', hc, X.cons(elem(secs, rec.kappa)))
            if got: okk = okk or (exhausted(st, rec, n) is True and all(b['st'].facts.ev(c) is True for b in rec.backs))
            else: okk = okk or (st.facts.ev(c) is False)
        rep.v3('all-have-contents', where, True if okk else (False if tok else None), {'path': trail_txt(st, 5), 'got': str(got)}, last_site(st))
    # column spans reach every section
    fid = ctx.fn('IndexedConsumer', 'computed_column_spans', opt=True)
    if fid and X.q['compute_column_spans']:
        S = X.sum('computed_column_spans'); rep.seen(S); I = S.I; where = S.b['id']; cc = ctx.cn(X.q['compute_column_spans']); secs = X.secs(self_in(S))
        for o in S.outs:
            st = o[-1]
            if o[0] == 'panic': rep.v3('all-spans', where, False if trail_ok(I, st) else None, 'panics'); continue
            if st.facts.ev(eq0(seq_len(secs))) is True: rep.ok('all-spans', where); continue
            okk = None; hit = False
            for rec in recs_in(st):
                n = rec_range(rec)
                if n is None: continue
                hit = True
                cover = conj2(X.full(S, st, n), exhausted(st, rec, n))
                for b in rec.backs:
                    es = [e for e in b['events'] if e[0] == 'call' and e[1] == cc and X.sec_of(S, e[2][0])[0] == rec.kappa]
                    if not es: cover = conj2(cover, False if trail_ok(I, b['st']) else None)
                okk = cover
            rep.v3('all-spans', where, okk if hit else (False if trail_ok(I, st) and not recs_in(st) else None), 'a section is left without column spans')
from .rules_ab import conj2, fold_check, sign_post, free_signs
RULES = {'E01': e01, 'E02': e02, 'E03': e03, 'E04': e04, 'E05': e05, 'E06': e06}
