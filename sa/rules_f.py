"""URL functions: classification, safe base, normalisation, joining, relative paths."""
import re as _re
from .basic import *
from .loops import *
from .rules_ab import fold_check
from .models import seq_drop, canon_regex
from .poly import of_facts, witness

SCHEME = canon_regex('^[A-Za-z0-9\\+\\-\\.]+:/')
SR, PA, AB, PR = 'scheme-relative', 'path-absolute', 'absolute', 'path-relative'
U = lambda n, *a: t('call', 'url:Url::' + n, *a)
def alts_matches(rx):
    """does the pattern agree with the reference on short strings: None, or a string where it differs"""
    import itertools
    try: a, b = _re.compile(rx), _re.compile(SCHEME)
    except _re.error: return ''
    al = 'aZ0+-.:/_'
    for n in range(1, 5):
        for tup in itertools.product(al, repeat=n):
            x = ''.join(tup)
            if bool(a.search(x)) != bool(b.search(x)): return x
    for x in ('webpack:///a', 'http://h/', 'x:/', ':/', 'a:b', '\u00e9:/', 'a b:/', ' a:/', 'q\n:/', '\na:/', 'A9+-.:/', '\u0663:/', 'G:/', 'g1z:/'):
        if bool(a.search(x)) != bool(b.search(x)): return x
    return None

class Urls:
    def __init__(self, ctx):
        self.ctx = ctx; self._types = None; self._base = None
        p = ctx.p
        def priv(name, argc):
            f = ctx.fn(name, opt=True)
            if f is None or p.bodies[f]['argc'] != argc: raise RoleError('helper %s not found' % name)
            return f
        self.bsb = priv('build_safe_base', 1); self.gut = priv('get_url_type', 1); self.cru = priv('compute_relative_url', 2)
    # ---------------------------------------------------------- helpers as value numbers
    def base_model(self):
        cn = self.ctx.cn(self.bsb)
        def h(I, st, a, sp):
            x = I.deep(st, a[0]); ps = [q for q in parts(x) if not isinstance(q, str)]
            ps = sorted(set(ps), key=lambda v: v.id if hasattr(v, 'id') else show(v))
            c = mkstr(ps) if ps and not lit(x) else x
            st = st.copy(); st.ev(('call', cn, (c,), sp))
            return [('ret', t('call', cn, c), st)]
        return h
    def sum(self, fid, key, extra=()):
        ctx = self.ctx
        k = (fid, key)
        if k in ctx.cache:
            r = ctx.cache[k]
            if isinstance(r, Exception): raise r
            return r
        def init(I, st): I.spec_opaque = {self.bsb: self.base_model()}
        try: r = summ.run(ctx.p, fid, init=init, opaque=[self.gut, self.cru] + list(extra), time_limit=150)
        except (Budget, Unsupported) as e: ctx.cache[k] = e; raise
        ctx.cache[k] = r
        return r
    # ---------------------------------------------------------- types
    def classes(self, X):
        ch = t('chars', X); n = seq_len(ch); c0, c1 = elem(ch, V.I(0)), elem(ch, V.I(1))
        def eqc(I, c): return I.streq(c, S('/'))
        rx = t('call', 'regex:Regex::is_match', t('regex', S(SCHEME)), X)
        def has(k): return lambda I: ilt(V.I(k - 1), n)
        sl0, sl1 = (lambda I: eqc(I, c0)), (lambda I: eqc(I, c1)); m = lambda I: rx
        return [('', PR, [(has(1), False), (m, False)]),
                ('/', PA, [(has(1), True), (has(2), False), (sl0, True), (m, False)]),
                ('//x', SR, [(has(1), True), (has(2), True), (sl0, True), (sl1, True), (m, False)]),
                ('/x', PA, [(has(1), True), (has(2), True), (sl0, True), (sl1, False), (m, False)]),
                ('a:/', AB, [(has(1), True), (has(2), True), (sl0, False), (m, True)]),
                ('x', PR, [(has(1), True), (sl0, False), (m, False)])]
    def types(self):
        """{type: variant} from what the function answers on each class of strings; obligations as it goes"""
        if self._types is not None: return self._types
        ctx = self.ctx; obs = []; got = {}
        nm = ctx.p.bodies[self.gut]['locals'][1].get('n') or 'a0'; X = t('in', nm); b, n = str_len(X), seq_len(t('chars', X))
        for name, grp, facts in self.classes(X):
            def init(I, st):
                s = st
                for f, truth in facts:
                    c = f(I)
                    for tr, s2 in I.split(s, c, 'class'):
                        if tr == truth: s = s2
                # a character is one to four bytes
                for c in (ilt(b, n), ilt(scale(n, 4), b)): s.facts = s.facts.assume(c, False) or s.facts
                st.facts = s.facts; st.trail = ()
            S0 = summ.run(ctx.p, self.gut, init=init, time_limit=60)
            vs = set(); pl = {}
            for o in S0.outs:
                st = o[-1]; ok_ = trail_ok(S0.I, st)
                p = of_facts(st.facts); p.le0(sub(n, b)); p.le0(sub(b, scale(n, 4))); p.axioms()
                if witness(p) is None: continue
                rxs = {x.args[0].args[0] for c, _, _ in st.trail for x in terms_in(c) if x.op == 'call' and str(x.args[0]) == 'regex:Regex::is_match' for x in [t('w', x.args[1])] if isinstance(x.args[0], T) and x.args[0].op == 'regex'}
                w = None
                for r in rxs:
                    if lit(r) and lit(r) != SCHEME:
                        w = alts_matches(lit(r))
                        if w: ok_ = ok_ and True
                        else: ok_ = False
                if o[0] == 'panic': obs.append((name, None, False if ok_ else None, 'panics: ' + str(o[1][0]), last_site(st))); continue
                v = S0.I.deep(st, o[1])
                if isinstance(v, tuple) and v[0] == 'adt':
                    vs.add((v[2], ok_, w))
                    if name != 'a:/' and self.plain_chars(S0.I, st, X): pl.setdefault(v[2], st)
                else: obs.append((name, None, None, pretty(v), ''))
            if len({v for v, _, _ in vs}) > 1:
                okk = all(k for _, k, _ in vs); w = next((w for _, _, w in vs if w), None)
                obs.append((name, None, False if okk and w or len(pl) > 1 else None, 'strings like %r get different types%s' % (name, ', e.g. %r' % w if w else ''), last_site(pl[max(pl)]) if len(pl) > 1 else '')); continue
            if vs: obs.append((name, next(iter(vs))[0], True, '', ''))
        for name, grp, _ in self.classes(X):
            g = [v for n, v, r, _, _ in obs if n == name and v is not None]
            if g: got.setdefault(grp, []).append((name, g[0]))
        out = {}
        for grp, l in got.items():
            if len({v for _, v in l}) > 1: obs.append((l[0][0], None, False, '%s are of one kind (%s) but get different types' % (' and '.join(repr(n) for n, _ in l), grp), ''))
            out[grp] = l[-1][1]
        for a in out:
            for c in out:
                if a < c and out[a] == out[c]: obs.append((a, None, False, '%s and %s strings get the same type' % (a, c), ''))
        self._types = (out, obs, S0)
        return self._types
    def plain_chars(self, I, st, X):
        """the path only asks for the number of characters and compares some of them with literals, without contradiction"""
        ch = t('chars', X); rx = t('call', 'regex:Regex::is_match', t('regex', S(SCHEME)), X); eq = {}
        for c, _, _ in st.trail:
            for q in terms_in(c):
                if q in (X, ch, rx) or q is seq_len(ch) or q.op == 'regex' or q.op == 'len' and q.args[0] in (ch, X): continue
                if q.op == 'e' and q.args[0] is ch: continue
                if q.op == 'scmp':
                    a, b = q.args
                    if lit(a): a, b = b, a
                    if isinstance(a, T) and a.op == 'e' and a.args[0] is ch and lit(b) and len(lit(b)) == 1:
                        if st.facts.ev(eq0(q)) is True: eq.setdefault(a, set()).add(lit(b))
                        continue
                return False
        return all(len(x | ({'/'} if st.facts.ev(I.streq(c, S('/'))) is True else set())) < 2 for c, x in eq.items())
    def kind(self, s, x):
        """which of the four kinds of reference x is, as the path knows it"""
        ty, obs, _ = self.types()
        if len(ty) < 4: raise Undecided('types of references')
        d = s.I.discr(s.st, self.ctx.call(self.gut, x)); d.adt = (0, 3)
        kk = next((g for g in (AB, SR, PA) if s.ieq(d, ty[g])), PR)
        self.agree(s, x, kk)
        return kk
    def agree(self, s, x, kk):
        """the path may have looked at the reference itself: drop kinds that contradict what it saw"""
        ch = t('chars', x); c0, c1 = elem(ch, V.I(0)), elem(ch, V.I(1)); rx = t('call', 'regex:Regex::is_match', t('regex', S(SCHEME)), x)
        looked = False
        for c, _, _ in s.st.trail:
            for q in terms_in(c):
                if q is ch or q is rx: looked = True
                elif q.op == 'e' and q.args[0] is ch and q not in (c0, c1): raise Undecided('inspects the characters of a reference')
                elif q.op == 'call' and q.args[0] == 'regex:Regex::is_match' and q.args[-1] == x: raise Undecided('inspects the characters of a reference')
                elif q.op in ('starts_with', 'ends_with', 'contains', 'find', 'split', 'matches') and q.args[0] == x: raise Undecided('inspects the characters of a reference')
        if not looked: return
        f = s.st.facts; I = s.I
        def known(c, i):
            if f.ev(ilt(V.I(i), seq_len(ch))) is False: return False
            return f.ev(I.streq(c, S('/')))
        k0, k1, m = known(c0, 0), known(c1, 1), f.ev(rx)
        want = {SR: (True, True, None), PA: (True, False, None), AB: (False, None, True), PR: (False, None, False)}[kk]
        for got, w in zip((k0, k1, m), want):
            if got is not None and w is not None and got != w: raise Skip()
    # ---------------------------------------------------------- safe base
    def base(self):
        """(host literal, obligations)"""
        if self._base is not None: return self._base
        ctx = self.ctx; S0 = ctx.summary(self.bsb, 'base'); I = S0.I; X = argn(S0, 0); obs = []; H = None
        want = add(seq_len(t('split', X, S('..'))), V.I(-1))
        for o in S0.outs:
            st = o[-1]; tok = trail_ok(I, st, {'phi', 'k'})
            if o[0] == 'panic': obs.append((False if tok else None, 'panics (%s)' % o[1][0], last_site(st))); continue
            v = I.deep(st, o[1]); r = self.base_of(I, st, v, X, want)
            if r[1]: H = r[1] if H in (None, r[1]) else '?'
            obs.append((r[0], r[2], ''))
        self._base = (H if H != '?' else None, obs, S0)
        return self._base
    def base_of(self, I, st, v, X, want):
        ps = parts(v)
        if isinstance(v, T) and v.op == 'phi' and v in I.phi_rec:
            rec = I.rec_of(st, v); cp = next((cp for cp, y in rec.phis.items() if y[0] is v), None)
            n = rec_range(rec)
            if cp is None or n is None or variant(rec, n): return None, None, 'loop'
            if exhausted(st, rec, n) is not True: return None, None, 'loop left early'
            h = lit(I.deep(rec.hdr, rec.phis[cp][1])); segs = set()
            for b in rec.backs:
                q = parts(I.deep(b['st'], b['next'][cp]))
                if q[:1] != (v,): return None, h, 'loop body'
                segs.add(mkstr(q[1:]))
            if len(segs) != 1: return None, h, 'loop body'
            seg = segs.pop()
            if variant(rec, seg): return None, h, 'segments differ'
        elif ps and isinstance(ps[0], str) and len(ps) == 2 and isinstance(ps[1], T) and ps[1].op in ('repeat', 'rep'):
            h, seg, n = ps[0], ps[1].args[0], ps[1].args[1]
            seg = S(seg) if isinstance(seg, str) else seg
        elif ps and isinstance(ps[0], str) and not any(isinstance(x, T) and x.op in ('repeat', 'rep', 'phi', 'k') for x in ps):
            h = ps[0]; i = h.find('/', h.find('//') + 2) + 1
            if not i: return None, None, pretty(v)
            tail = mkstr((h[i:],) + tuple(ps[1:])); h = h[:i]
            n = V.I(sum(x.count('/') for x in parts(tail) if isinstance(x, str)))
            if st.facts.ev(ilt(n, want)) is not False: return (False if understood(I, v, {'phi', 'k'}) else None), h, 'the base has %d directories however many ".." there are' % const_int(n)
            if const_int(n) == 0: return True, h, ''
            return None, h, pretty(v)
        else: return None, None, pretty(v)
        if h is None: return None, None, 'start of the base'
        m = _re.match(r'^http://([a-z0-9][a-z0-9-]*)/$', h)
        if _re.match(r'^(?!http:)[a-z]+:', h): return False, h, 'the base %s is not an http URL' % h
        if not m: return None, h, 'host literal ' + h
        n = resolved(I, st, n)
        d = const_int(sub(n, want))
        for op, off in (('split', -1), ('matches', 0)):
            p_ = next((x.args[1] for x in terms_in(n) if x.op == op and x.args[0] == X), None)
            if p_ is None or n != add(seq_len(t(op, X, p_)), V.I(off)) or not lit(p_): continue
            d = 0 if lit(p_) in ('.', '..') else None if set(lit(p_)) == {'.'} else -1 if '..' in lit(p_) or '.' not in lit(p_) else None
        if d is None: return (False if understood(I, n) and not has_unknown(n) and exact_mult(n, want) is False else None), h, 'has %s directories for a reference with (%s) ".."' % (pretty(n), pretty(want))
        if d < 0: return False, h, 'has %d directories fewer than the reference has ".."' % -d
        q = parts(seg)
        if not (q and isinstance(q[-1], str) and q[-1].endswith('/')): return (False if understood(I, seg, {'phi', 'k'}) else None), h, 'segments %s are not directories' % pretty(seg)
        core = mkstr(q[:-1] + (q[-1][:-1],))
        lits = ''.join(x for x in parts(core) if isinstance(x, str))
        if not parts(core): return False, h, 'the directories have no name'
        if not _re.match(r'^[A-Za-z0-9_-]*$', lits): return None, h, 'segment ' + pretty(core)
        if lit(core) is not None: return False, h, 'the segment %s may occur in the reference' % pretty(core)
        ev = st.facts.ev(t('contains', X, core))
        if ev is False: return True, h, ''
        return (False if ev is True or not any(x.op == 'contains' for c, _, _ in st.trail for x in terms_in(c)) else None), h, 'the segment %s may occur in the reference' % pretty(core)
    def host(self):
        h = self.base()[0]
        if h is None: raise Undecided('host of the safe base')
        return h[:-1]
    # ---------------------------------------------------------- specification
    def bases_in(self, s):
        o = s.o; st = o[-1]; seen = {}
        vs = [c for c, _, _ in st.trail] + ([s.I.deep(st, o[1])] if o[0] == 'ret' else [])
        for v in vs:
            for x in terms_in(v):
                if x.op == 'call' and x.args[0] == self.ctx.cn(self.bsb): seen[x] = [q for q in parts(x.args[1]) if not isinstance(q, str)]
        return seen
    def sbase(self, s, need, alt=None):
        """the safe base the path uses for these references (alt: a reference that may stand in for another)"""
        alt = alt or {}
        best = None
        for x, ps in self.bases_in(s).items():
            if all(n in ps or (n in alt and alt[n] in ps) for n in need):
                if best is None or len(ps) < len(best[1]): best = (x, ps)
        if best: return best[0]
        ps = sorted(set(q for n in need for q in parts(n) if not isinstance(q, str)), key=lambda v: v.id if hasattr(v, 'id') else show(v))
        return self.ctx.call(self.bsb, mkstr(ps))
    def parsed(self, s, b):
        """parse of a text that always parses"""
        ok_, u = s.res(U('parse', b))
        if not ok_: raise Skip()
        return u
    def handled(self, s, x, change=None):
        """normalise x, changing the parsed URL on the way"""
        k = self.kind(s, x)
        b = self.sbase(s, [x]); p = self.parsed(s, b)
        ok_, u = s.res(U('join', p, x))
        if not ok_: return x
        if change:
            P = U('path', u)
            if change == 'edir':
                if s.known(t('ends_with', P, S('/'))) is not True: u = t('after', 'url:Url::set_path', V.I(0), u, t('edir', P))
            else:
                seg = t('split', P, S('/')); last = elem(seg, add(seq_len(seg), V.I(-1)))
                if s.known(eq0(str_len(last))) is not True: u = t('after', 'url:Url::set_path', V.I(0), u, t('dirof', P))
        return self.cut(s, k, b, t('urlstr', u))
    def cut(self, s, k, b, r):
        if k == AB: return r
        if k == SR: return t('sdrop', r, V.I(5))
        if k == PA: return t('sdrop', r, V.I(len(self.host())))
        return self.ctx.call(self.cru, b, r)
    def with_base(self, s, x, b):
        """x resolved against the text b: (resolved?, text or url)"""
        if isinstance(b, T) and b.op == 'urlstr': u = b.args[0]
        else:
            ok_, u = s.res(U('parse', b))
            if not ok_: return False, x
        ok_, u = s.res(U('join', u, x))
        return (True, t('urlstr', u)) if ok_ else (False, x)

def resolved(I, st, n):
    """a loop counter after the loop ran to its end is the number of iterations"""
    for e in st.events:
        if e[0] == "loop" and n is e[1].kappa:
            r = rec_range(e[1])
            if r is not None and not variant(e[1], r) and exhausted(st, e[1], r) is True: return r
    return n
class Skip(Exception): pass
def exact_mult(n, want):
    """n visibly is another count (constant, or the number of '..' scaled)"""
    return False if const_int(n) is not None or const_int(sub(n, scale(want, 0))) is not None else None

def url_conform(ctx, F, rep, rule, S0, spec):
    def sp(s):
        try: return spec(s)
        except Skip: return ANY
    def keep(o):
        return o[0] != 'panic' or not base_panic(ctx, F, o)
    conform(ctx, rep, rule, S0, sp, keep=keep)
def base_panic(ctx, F, o):
        """a panic because the safe base does not parse: excluded by the safe-base rule"""
        bad = {x for c, tr, _ in o[-1].trail for x in terms_in(c) if x.op == 'discr' and isinstance(x.args[0], T) and x.args[0].op == 'call' and x.args[0].args[0] == 'url:Url::parse'
               and isinstance(x.args[0].args[1], T) and x.args[0].args[1].op == 'call' and x.args[0].args[1].args[0] == ctx.cn(F.bsb) and o[-1].facts.ev(eq0(x)) is False}
        return bool(bad)

def f_types(ctx, rep, F=None):
    F = F or Urls(ctx); ty, obs, S0 = F.types(); rep.seen(S0)
    for name, v, r, why, site in obs: rep.v3('kind-of-reference', F.gut, r, why, site)
def f_base(ctx, rep, F=None):
    F = F or Urls(ctx); H, obs, S0 = F.base(); rep.seen(S0)
    for r, why, site in obs: rep.v3('safe-base', F.bsb, r, why, site)

def join_spec(ctx, F, S0):
    root, path = argn(S0, 0), argn(S0, 1)
    def spec(s):
        kp = F.kind(s, path)
        if kp == AB:
            ok_, u = s.res(U('parse', path))
            return R(t('urlstr', u) if ok_ else path)
        kr = F.kind(s, root)
        if kr != AB:
            if kp == SR: return R(F.handled(s, path))
            if kr != SR and kp == PA: return R(F.handled(s, path))
        r = F.handled(s, root, 'edir')
        if kr == AB: return R(F.with_base(s, path, r)[1])
        if kr in (SR, PA):
            h = S(F.host()); _, b = F.with_base(s, r, h) if s.res(U('parse', h))[0] else skip()
            ok_, x = F.with_base(s, path, b)
            return R(t('sdrop', x, V.I(5 if kr == SR else len(F.host()))) if ok_ else path)
        b = F.sbase(s, [path, r], {r: root})
        F.parsed(s, b)
        _, rb = F.with_base(s, r, b); _, x = F.with_base(s, path, rb)
        return R(ctx.call(F.cru, b, x))
    return spec
def skip(): raise Skip()
def f_join(ctx, rep, F=None):
    F = F or Urls(ctx); S0 = F.sum(ctx.fn('join'), 'urls')
    url_conform(ctx, F, rep, 'join', S0, join_spec(ctx, F, S0))

def f_source(ctx, rep, F=None):
    F = F or Urls(ctx); jn = ctx.fn('join'); S0 = F.sum(ctx.fn('compute_source_url'), 'urls', [jn])
    root, src, url = [argn(S0, i) for i in range(3)]
    def spec(s):
        def text(v):
            x = s.opt(v)
            return None if x is None or s.ieq(str_len(x), 0) else x
        r, m = text(root), text(url); x = src
        if r is not None and F.kind(s, src) == PA:
            cands = [t('replacen', src, S('/'), S(''), V.I(1)), t('sdrop', src, V.I(1))]
            used = {q for c, _, _ in s.o[-1].trail for q in terms_in(c)} | (terms_of(s.I.deep(s.o[-1], s.o[1])) if s.o[0] == 'ret' else set())
            x = next((c for c in cands if c in used), cands[1])
        u = F.handled(s, x)
        if r is not None: u = ctx.call(jn, r, u)
        if m is not None: u = ctx.call(jn, F.handled(s, m, 'dirof'), u)
        return R(u)
    url_conform(ctx, F, rep, 'source-url', S0, spec)
def terms_of(v): return set(terms_in(v))

def f_relative(ctx, rep, F=None):
    """relative(root, target)"""
    F = F or Urls(ctx); S0 = F.sum(ctx.fn('relative'), 'urls'); root, target = argn(S0, 0), argn(S0, 1)
    def spec(s):
        I = s.I
        dr, dt = I.discr(s.st, ctx.call(F.gut, root)), I.discr(s.st, ctx.call(F.gut, target))
        for d in (dr, dt): d.adt = (0, 3)
        for x in (root, target):
            for c, _, _ in s.st.trail:
                if any(q.op == 'chars' and q.args[0] == x for q in terms_in(c)): raise Undecided('inspects the characters of a reference')
        if not s.ieq(dr, dt): return R(F.handled(s, target))
        b = F.sbase(s, [root, target]); p = F.parsed(s, b)
        ok1, ru = s.res(U('join', p, root))
        if not ok1: return R(F.handled(s, target))
        ok2, tu = s.res(U('join', p, target))
        if not ok2: return R(F.handled(s, target))
        # a URL without hierarchy has no relative form
        ok3, _ = s.res(U('join', tu, S('')))
        if not ok3: return R(F.handled(s, target))
        for n in ('scheme', 'username'):
            if not s.streq(U(n, tu), U(n, ru)): return R(F.handled(s, target))
        for n in ('password', 'host', 'port'):
            m = next((m for m in ALT.get(n, ()) if any(q.op == 'call' and q.args[0] == 'url:Url::' + m for c, _, _ in s.o[-1].trail for q in terms_in(c))), n)
            a, c = U(m, tu), U(m, ru)
            x, y = s.opt(a), s.opt(c)
            if (x is None) != (y is None): return R(F.handled(s, target))
            if n == 'host':
                dx, dy = U('domain', tu), U('domain', ru); f = s.st.facts
                ex, ey = (f.ev(eq0(I.discr(s.st, d))) for d in (dx, dy))
                if x is None and False in (ex, ey): return ANY
            if x is None: continue
            if n == 'password': same = s.streq(x, y)
            elif n == 'port': same = s.ieq(x, y)
            else: same = s.cond(eqv(x, y)) if m == 'host' else s.streq(x, y)
            if not same: return R(F.handled(s, target))
            if n == 'host':     # the same host, the same domain
                if None not in (ex, ey) and ex != ey or f.ev(I.streq(fld(dx, 0, 1), fld(dy, 0, 1))) is False or f.tr.get(eqv(dx, dy)) is False: return ANY
        return R(ctx.call(F.cru, t('urlstr', ru), t('urlstr', tu)))
    url_conform(ctx, F, rep, 'relative', S0, spec)
ALT = {'host': ('host_str',), 'port': ('port_or_known_default',)}    # equal under the same scheme whenever the other is
def eqv(a, b):
    a, b = sorted((a, b), key=lambda v: (show(v), repr(v)))
    return t('eqv', a, b)


# in paths, which URL parsing leaves as they are, texts that differ in case or spaces are different texts
TEXT = {'phi', 'k', 'eq_ignore_ascii_case', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'trim', 'trim_start', 'trim_end'}
def f_cru(ctx, rep, F=None):
    """relative path between two URL texts"""
    F = F or Urls(ctx); S0 = ctx.summary(F.cru, 'cru'); rep.seen(S0); I = S0.I; where = F.cru
    root, target = argn(S0, 0), argn(S0, 1); ru, tu = [fld(U('parse', x), 0, 0) for x in (root, target)]
    for o in S0.outs:
        st = o[-1]; tok = trail_ok(I, st, TEXT)
        def say(rule, r, got, exp=''): rep.v3(rule, where, r if r is not False or tok else None, {'path': trail_txt(st, 6), 'got': got, 'expected': exp}, last_site(st))
        if o[0] == 'panic': say('relative-path', False, 'panics (%s)' % o[1][0]); continue
        v = I.deep(st, o[1])
        def body(s):
            s.o = o
            for x in (root, target):
                if not s.res(U('parse', x))[0]: return None
            out = []
            for n, c in (('query', '?'), ('fragment', '#')):
                q = s.opt(U(n, tu))
                if q is not None: out += [c, q]
            return tuple(out)
        for tail, st2 in run_spec(I, st, S0, body):
            if tail is None: say('unparsable', Cmp(I).same(st2, v, target), pretty(v), 'the target as it is'); continue
            ps = parts(v); J = ps[0] if ps else None
            if not (isinstance(J, T) and J.op == 'join'): say('relative-path', None, pretty(v)); continue
            none = lambda x: not isinstance(x, str) and st2.facts.ev(eq0(str_len(x))) is True
            tail = tuple(x for x in tail if not none(x)); ps = (J,) + tuple(x for x in ps[1:] if not none(x))
            r = True if ps[1:] == parts(mkstr(tail)) else Cmp(I).same(st2, v, mkstr((J,) + tail))
            if r is None and all(isinstance(x, str) or understood(I, x) for x in ps[1:]): r = False     # two different patterns over uninterpreted texts
            say('query-and-fragment', r, pretty(v), pretty(mkstr((J,) + tail)))
            for rule, r, got, exp in path_parts(F, I, st2, o, J, ru, tu): say(rule, r, got, exp)

def prefix_loop(I, st, x):
    """the loop that drops the head of x"""
    if not (isinstance(x, T) and x.op == 'phi' and x in I.phi_rec): return None
    rec = I.rec_of(st, x); cp = next((cp for cp, y in rec.phis.items() if y[0] is x), None)
    if cp is None: return None
    nx = [I.deep(b['st'], b['next'][cp]) for b in rec.backs]
    return (rec, cp) if nx and all(n is x or isinstance(n, T) and n.op in ('drop', 'init') and n.args[0] is x for n in nx) and any(n is not x for n in nx) else None
def path_parts(F, I, st, o, J, ru, tu):
    if J.args[1] != S('/'): yield 'relative-path', False, 'parts joined by ' + pretty(J.args[1]), "'/'"; return
    ps = seq_pieces(J.args[0])
    sp_ = {x: t('split', U('path', x), S('/')) for x in (ru, tu)}
    if len(ps) == 1: ps = (('all', EMPTY),) + tuple(ps)
    if any(k != 'all' for k, _ in ps) or len(ps) != 2: yield 'relative-path', None, pretty(J), ''; return
    pl = [prefix_loop(I, st, x) for _, x in ps]
    if not any(pl):
        yield from straight(I, st, o, ps, sp_, ru, tu); return
    if sum(1 for p in pl if p) != 1: yield 'relative-path', None, pretty(J), ''; return
    i = 0 if pl[0] else 1; rest, ups = ps[i][1], ps[1 - i][1]; rec, cp = pl[i]
    if i == 0: yield 'relative-path', False, 'the remaining parts come before the ".." parts', ''; return
    lists = {y[0]: (c, I.deep(rec.hdr, y[1])) for c, y in rec.phis.items() if isinstance(y[0], T) and y[0].op == 'phi' and prefix_loop(I, st, y[0])}
    cut = {}
    def origin(x):
        i0 = lists[x][1]; n = 0
        while isinstance(i0, T) and i0.op == 'drop' and const_int(i0.args[1]) is not None: n += const_int(i0.args[1]); i0 = i0.args[0]
        cut[x] = n
        for u, q in sp_.items():
            if i0 == q: return u, False
            if i0 == t('init', q): return u, True
        return None, None
    org = {x: origin(x) for x in lists}
    tl = [x for x in lists if org[x][0] is tu]; rl = [x for x in lists if org[x][0] is ru]
    if len(tl) != 1 or len(rl) != 1 or ru is tu: yield 'relative-path', None, 'lists of the parts: ' + ', '.join(pretty(v[1]) for v in lists.values()), ''; return
    T_, R_ = tl[0], rl[0]
    if cut[T_] != cut[R_]: yield 'common-prefix', False, 'compares the parts of the target from number %d with those of the root from number %d' % (cut[T_], cut[R_]), ''; return
    if cut[T_]: yield 'common-prefix', None, 'leaves out %d parts' % cut[T_], ''; return
    yield 'relative-path', rest is T_, 'ends with the remaining parts of the root', 'those of the target'
    if org[T_][1]: yield 'relative-path', False, 'drops the last part of the target', ''
    last = elem(sp_[ru], add(seq_len(sp_[ru]), V.I(-1))); emp = rec.hdr.facts.ev(eq0(str_len(last)))
    if org[R_][1]: yield 'root-directory', True if emp is True else False if emp is False or untested(st, last) else None, 'drops a last part of the root that is not empty', ''
    else: yield 'root-directory', True if emp is False else False, 'keeps an empty last part of the root', ''
    same = eq0(I.scmp(elem(T_, V.I(0)), elem(R_, V.I(0))))
    for b in rec.backs:
        q = [I.deep(b['st'], b['next'][lists[x][0]]) for x in (T_, R_)]
        yield 'common-prefix', all(x.op == 'drop' and x.args[1] == V.I(1) for x in q), 'continues with %s' % ', '.join(pretty(x) for x in q), 'one part of each'
        e = b['st'].facts.ev(same)
        yield 'common-prefix', True if e is True else False if trail_ok(I, b['st'], TEXT) else None, 'drops heads that are not equal', ''
    f = st.facts
    mx = f.ev(eq0(seq_len(T_))) is True or f.ev(eq0(seq_len(R_))) is True or f.ev(same) is False
    yield 'common-prefix', mx, 'stops before the common parts are all dropped', ''
    if ups == EMPTY:
        e = f.ev(eq0(seq_len(R_))); yield 'relative-path', True if e is True else False, 'no ".." parts', 'one per remaining part of the root'; return
    r, why = fold_check(I, st, ups, seq_len(R_), lambda s, v, k: mkseq(seq_pieces(v) + (('one', S('..')),)), EMPTY, o, {'phi', 'k'})
    yield 'relative-path', r, why, 'one ".." per remaining part of the root'

def untested(st, x): return not any(q is x for c, _, _ in st.trail for q in terms_in(c))
def counted(I, st, o, ps, sp_, ru, tu):
    """the common parts are counted and cut off by index"""
    rest = ps[1][1]; k = rest.args[1]; rec = next((e[1] for e in st.events if e[0] == 'loop' and e[1].kappa is k), None)
    last = elem(sp_[ru], add(seq_len(sp_[ru]), V.I(-1))); emp = st.facts.ev(eq0(str_len(last)))
    if rec is None or emp is None: yield 'relative-path', None, pretty(mkseq(ps)), ''; return
    tl, rl = sp_[tu], t('init', sp_[ru]) if emp else sp_[ru]
    f = st.facts; same = eq0(I.scmp(elem(tl, k), elem(rl, k))); same2 = eq0(I.scmp(elem(tl, k), elem(sp_[ru], k)))
    mx = f.ev(ilt(k, seq_len(tl))) is False or f.ev(ilt(k, seq_len(rl))) is False or f.ev(same) is False or f.ev(same2) is False
    yield 'common-prefix', True if mx else False if trail_ok(I, st, TEXT) else None, 'stops before the common parts are all counted', ''
    for b in rec.backs:
        e = b['st'].facts; bad = lambda l: e.ev(ilt(k, seq_len(l))) is not True
        eq_ = e.ev(same) is True or e.ev(same2) is True
        yield 'common-prefix', True if eq_ else False if trail_ok(I, b['st'], TEXT) else None, 'counts heads that are not equal', ''
        if eq_: yield 'common-prefix', None if bad(rl) or bad(tl) else True, 'counts past the end', ''
    n = sub(seq_len(rl), k); ups = ps[0][1]
    if ups == EMPTY:
        e = f.ev(eq0(n)); yield 'relative-path', True if e is True else False, 'no ".." parts', 'one per remaining part of the root'; return
    r, why = fold_check(I, st, ups, n, lambda s, v, j: mkseq(seq_pieces(v) + (('one', S('..')),)), EMPTY, o, {'phi', 'k'})
    yield 'relative-path', r, why, 'one ".." per remaining part of the root'
def straight(I, st, o, ps, sp_, ru, tu):
    """no loop ran to its end: a constant number of heads was dropped"""
    def strip(x):
        n = 0
        while isinstance(x, T) and x.op == 'drop' and const_int(x.args[1]) is not None: n += const_int(x.args[1]); x = x.args[0]
        return x, n
    rest = ps[1][1]; b, n = strip(rest)
    if b != sp_[tu] and isinstance(b, T) and b.op == 'drop' and b.args[0] == sp_[tu]: yield from counted(I, st, o, ps, sp_, ru, tu); return
    if b != sp_[tu]: yield 'relative-path', None, pretty(mkseq(ps)), ''; return
    last = elem(sp_[ru], add(seq_len(sp_[ru]), V.I(-1))); emp = st.facts.ev(eq0(str_len(last)))
    if emp is None: yield 'root-directory', None, 'last part of the root', ''; return
    R_ = t('init', sp_[ru]) if emp else sp_[ru]
    if n: R_ = seq_drop(R_, n)
    f = st.facts; same = eq0(I.scmp(elem(rest, V.I(0)), elem(R_, V.I(0))))
    mx = f.ev(eq0(seq_len(rest))) is True or f.ev(eq0(seq_len(R_))) is True or f.ev(same) is False
    yield 'common-prefix', mx, 'stops after %d parts, before the common parts are all dropped' % n, ''
    for j in range(n): yield 'common-prefix', True if f.ev(eq0(I.scmp(elem(sp_[tu], V.I(j)), elem(sp_[ru], V.I(j))))) is True else None, 'drops heads that are not equal', ''

def totality(ctx, rep, F):
    """none of the functions fails on any input"""
    jn = ctx.fn('join')
    for fid, S0 in ((jn, F.sum(jn, 'urls')), (ctx.fn('compute_source_url'), F.sum(ctx.fn('compute_source_url'), 'urls', [jn])),
                    (ctx.fn('relative'), F.sum(ctx.fn('relative'), 'urls')), (F.cru, ctx.summary(F.cru, 'cru'))):
        rep.seen(S0)
        for o in S0.outs:
            if o[0] == 'panic' and base_panic(ctx, F, o): rep.ok('total', fid); continue
            rep.v3('total', fid, True if o[0] == 'ret' else False if trail_ok(S0.I, o[-1], {'phi', 'k'}) else None, {'path': trail_txt(o[-1], 6), 'got': 'panics (%s) at %s' % (o[1][0], o[1][2])} if o[0] == 'panic' else '', last_site(o[-1]))

def run_parts(ctx, rep, F, *fs):
    for f in fs: rep.guard(f.__name__[2:], 'src/util.rs', lambda: f(ctx, rep, F))
def f01(ctx, rep):
    """total, on a base that contains the reference"""
    F = Urls(ctx); run_parts(ctx, rep, F, f_base, f_types)
    rep.guard('total', 'src/util.rs', lambda: totality(ctx, rep, F))
def f02(ctx, rep): F = Urls(ctx); run_parts(ctx, rep, F, f_source, f_join, f_types, f_base, f_cru)
def f03(ctx, rep): run_parts(ctx, rep, Urls(ctx), f_cru)
def f04(ctx, rep): F = Urls(ctx); run_parts(ctx, rep, F, f_join, f_types, f_base, f_cru)
def f05(ctx, rep): F = Urls(ctx); run_parts(ctx, rep, F, f_relative, f_types, f_base, f_cru)

RULES = {'F01': f01, 'F02': f02, 'F03': f03, 'F04': f04, 'F05': f05}
EXPL = {'F01': 'every panic path of the URL functions, excused only where a safe base fails to parse; loop summary of the safe base: literal host, one directory per ".." of the reference, segment tested not to occur in it; classification decided on a partition of all strings into six classes',
 'F02': 'every path of the composition (root and URL absent, empty or present; kind of the source) against the specification over parse and resolve as uninterpreted functions; join, classification, safe base and relative path checked with it',
 'F03': 'every path: unparsable texts, query and fragment by value; the loop invariant of the common prefix (heads equal, one dropped from each, maximal at the exit) and the fold that writes ".."',
 'F04': 'every path of the sixteen combinations of kinds and of each resolution failing, against the specification over parse and resolve as uninterpreted functions',
 'F05': 'every path against the specification: kinds differ, a resolution fails, or scheme, user, password, host or port differ'}
