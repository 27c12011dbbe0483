"""Consumer-side roles and specification helpers (single documents)."""
from .core import *

class Basic:
    def __init__(self, ctx):
        self.c = ctx
        c = ctx
        self.json = c.adt('SourceMapJson')
        self.A = c.adt('BasicConsumer', 'source_map')
        self.pos = c.adt('Position', 'line', 'column')
        self.map = c.adt('Mapping', 'generated', 'original', 'source', 'name')
        self.raw = c.adt('Mapping', 'generated_line')
        self.rawo = c.adt('OriginalLocation')
        self.set = c.adt('ArraySet')
        self.i_json = c.fi(self.A, 'source_map')
        self.i_abs = c.role(self.A, r'ArraySet$')
        self.i_cache = c.role(self.A, r'HashMap<std::string::String, ', opt=True)
        self.i_url = c.role(self.A, r'^std::option::Option<std::string::String>$')
        self.i_maps = c.role(self.A, r'Mappings>?$')
        self.i_spans = c.role(self.A, r'^bool$')
        self.s_arr = c.role(self.set, r'^std::vec::Vec<std::string::String>$')
        self.s_map = c.role(self.set, r'HashMap<std::string::String, ')
        self.csu = c.fn('compute_source_url')
        self.OP = [self.csu]; self.csn = c.cn(self.csu)
    # fields
    def J(self, C, name): return fld(fld(C, self.i_json), self.c.fi(self.json, name))
    def smm(self, fn): return 'source_map_mappings:' + fn
    def CSU(self, root, src, url): return t('call', self.csn, root, src, url)
    def lookup(self, s, C, key):
        return s.opt(t('get', fld(fld(C, self.i_abs), self.s_map), key))
    def marked(self, s, C, source):
        """the path treats the cached index as a mark: real ones are never negative (property D07)"""
        if self.i_cache is None: return False
        g = t('get', fld(C, self.i_cache), source)
        return s.known_some(g) is True and s.known(ilt(fld(g, 0, 1), V.I(0))) is True
    def resolve(self, s, C, source):
        """index of a source, or None (the document's own resolution order)"""
        if self.i_cache is not None:
            g = t('get', fld(C, self.i_cache), source)
            if s.known_some(g) is True: return fld(g, 0, 1)
        url = fld(C, self.i_url); root = self.J(C, 'source_root')
        i = self.lookup(s, C, self.norm(s, self.CSU(NONE, source, url)))
        if i is not None: return i
        if s.known_some(root) is False: return None
        return self.lookup(s, C, self.norm(s, self.CSU(root, source, url)))
    def norm(self, s, call):
        """use the spelling of the call the analysed path already produced"""
        for e in s.o[-1].events:
            if e[0] == 'call' and e[1] == self.csn:
                v = t('call', e[1], *e[2])
                if Cmp(s.I).same(s.st, v, call) is True: return v
        for c, _, _ in s.st.trail:
            for x in terms_in(c):
                if x.op == 'call' and x.args[0] == self.csn and x is not call and Cmp(s.I).same(s.st, x, call) is True: return x
        return call
    def parsed(self, s, C):
        """the parsed mappings, or None when the text does not parse"""
        m0 = fld(C, self.i_maps)
        again = s.known(fld(C, self.i_spans)) is False and any(e[0] == 'call' and e[1].endswith('::parse_mappings') for e in s.o[-1].events)
        if not again:           # without spans, parsing again yields the same list
            p = s.opt(m0)
            if p is not None: return p
        txt = s.opt(self.J(C, 'mappings'))
        want = S('') if txt is None else txt
        call = None
        for e in s.o[-1].events:
            if e[0] == 'call' and e[1].endswith('::parse_mappings'):
                call = t('call', e[1], *e[2])
                r = Cmp(s.I).same(s.st, e[2][0], want)
                if r is False: return s_wrong(s, 'parses %s instead of the document\'s mappings' % pretty(e[2][0]))
                if r is None: raise Undecided('parse argument')
        if call is None:
            call = t('call', self.smm('source_map_mappings::parse_mappings'), want)
        ok_, p = s.res(call)
        return p if ok_ else None
    def optget(self, s, seq_opt, idx):
        """seq_opt?[idx] as an option"""
        v = s.opt(seq_opt)
        if v is None: return None
        if not s.cond(ilt(idx, seq_len(v))): return None
        return elem(v, idx)
    def at(self, s, C, idx):
        arr = fld(fld(C, self.i_abs), self.s_arr)
        if s.cond(ilt(idx, V.I(0))): return NONE
        if not s.cond(ilt(idx, seq_len(arr))): return NONE
        return some(elem(arr, idx))
    def P(self, line, col): return self.c.mk(self.pos, line=line, column=col)
    def bias(self, s, b):
        v = s.opt(b)
        if v is not None: return v
        a = self.c.adt('Bias')
        for i, x in enumerate(self.c.p.adts[a]['v']):
            if x['n'] == 'GreatestLowerBound': return ('adt', a, i, ())
        raise RoleError('Bias')
    def raw_(self, m, n): return fld(m, self.c.fi(self.raw, n))
    def rawo_(self, m, n): return fld(m, self.c.fi(self.rawo, n))
    def optmap(self, s, v, f=lambda x: x):
        p = s.opt(v)
        return NONE if p is None else some(f(p))
    def public_mapping(self, s, C, m, o, last):
        nm = s.opt(self.rawo_(o, 'name'))
        name = NONE
        if nm is not None:
            x = self.optget(s, self.J(C, 'names'), nm)
            if x is not None: name = some(x)
        return self.c.mk(self.map,
            generated=self.P(add(self.raw_(m, 'generated_line'), V.I(1)), self.raw_(m, 'generated_column')),
            original=some(self.P(add(self.rawo_(o, 'original_line'), V.I(1)), self.rawo_(o, 'original_column'))),
            source=self.at(s, C, self.rawo_(o, 'source')), name=name, last_generated_column=last)

class Wrong(Exception): pass
def s_wrong(s, why): raise Undecided(why)

def self_in(S): return t('in', 'self')
def argn(S, i):
    """deep value of argument i as it was on entry"""
    return S.I.deep(S.st0, S.args[i])
