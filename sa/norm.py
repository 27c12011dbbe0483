"""Rewriting a finished summary: replace terms throughout its outcomes, loop
records, events, memories and facts."""
from .core import *
from .val import Facts

class Rewriter:
    """fn(v) -> value or None (None: leave, recurse)"""
    def __init__(self, fn): self.fn = fn; self.memo = {}; self.recs = {}
    def __call__(self, v):
        if not isinstance(v, (T, tuple)): return v
        if v in self.memo: return self.memo[v]
        r = self.go(v)
        for _ in range(8):
            x = self.fn(r) if isinstance(r, T) else None
            if x is None or x == r: break
            r = self(x) if x not in self.memo else self.memo[x]
        self.memo[v] = r
        return r
    def go(self, v):
        if isinstance(v, T):
            if not any(isinstance(a, (T, tuple)) for a in v.args): return v
            na = tuple(self(a) if isinstance(a, (T, tuple)) else a for a in v.args)
            if na == v.args: return v
            if v.op == 'f': r = fld(na[0], na[2], na[1])
            elif v.op == 'e': r = elem(na[0], na[1])
            elif v.op == 'rep': r = V.rep(na[0], na[1])
            elif v.op == 'len': r = seq_len(na[0]) if not (isinstance(na[0], tuple) and na[0][0] == 's') else V.str_len(na[0])
            else: r = t(v.op, *na, ty=v.ty)
            if isinstance(r, T):
                if r.adt is None: r.adt = v.adt
                if r.ty is None: r.ty = v.ty
            return r
        if v and v[0] == 'i' and len(v) == 3 and isinstance(v[1], int):
            r = V.I(v[1])
            for k, n in v[2]: r = add(r, scale(self(k), n))
            return r
        if v and v[0] == 's' and len(v) == 2: return mkstr(tuple(self(p) if not isinstance(p, str) else p for p in v[1]))
        if v and v[0] == 'cmp':
            x = self(v[2]); return eq0(x) if v[1] == 'eq' else V.lt0(x)
        if v and v[0] == 'not': return V.neg(self(v[1]))
        return tuple(self(a) if isinstance(a, (T, tuple)) else a for a in v)
    def facts(self, f, trail=()):
        """the same facts about the rewritten terms; None when contradictory"""
        g = Facts()
        def put(c, tr):
            nonlocal g
            if g is None: return
            g = g.assume(c, tr)
        for items, (lo, hi, ex) in sorted(f.iv.items(), key=lambda kv: len(kv[0])):
            x = V.I(0)
            for a, n in items: x = add(x, scale(self(a), n))
            if const_int(x) is not None:
                n = const_int(x)
                if (lo is not None and n < lo) or (hi is not None and n > hi) or n in ex: return None
                continue
            if lo is not None: put(ilt(x, V.I(lo)), False)
            if hi is not None: put(ilt(V.I(hi), x), False)
            for e in ex: put(ieq(x, V.I(e)), False)
        for c, tr in f.tr.items(): put(self(c), tr)
        for c, tr, _ in trail: put(self(c), tr)
        for c, tr, _ in trail: put(self(c), tr)
        return g
    def event(self, e):
        if e[0] == 'loop': return ('loop', self.rec(e[1])) + e[2:]
        return tuple(self(x) if isinstance(x, (T, tuple)) and not isinstance(x, str) else x for x in e)
    def state(self, st):
        f = self.facts(st.facts, st.trail)
        if f is None: return None
        s = st.copy(); s.facts = f
        s.trail = tuple((self(c), tr, sp) for c, tr, sp in st.trail)
        s.events = tuple(self.event(e) for e in st.events)
        s.mem = {k: self(v) for k, v in st.mem.items()}
        return s
    def rec(self, r):
        if id(r) in self.recs: return self.recs[id(r)]
        n = type(r)(r.key); n.__dict__.update(r.__dict__)
        self.recs[id(r)] = n
        n.phis = {cp: (x[0], self(x[1]) if isinstance(x[1], (T, tuple)) else x[1]) for cp, x in r.phis.items()}
        n.backs = []
        for b in r.backs:
            st = self.state(b['st'])
            if st is None: continue
            n.backs.append({'trail': tuple((self(c), tr, sp) for c, tr, sp in b['trail']), 'events': tuple(self.event(e) for e in b['events']),
                            'next': {cp: self(x) if isinstance(x, (T, tuple)) else x for cp, x in b['next'].items()}, 'st': st})
        n.exits = []
        for x in r.exits:
            st = self.state(x['st'])
            if st is not None: n.exits.append({'kind': x['kind'], 'trail': tuple((self(c), tr, sp) for c, tr, sp in x['trail']), 'st': st, 'o': x['o']})
        return n

def rewrite(S, fn):
    """a summary with fn applied throughout (paths that become contradictory vanish)"""
    R_ = Rewriter(fn); I = S.I
    N = type(S)(I, S.b, [], S.args, S.st0); N.rewriter = R_
    old = dict(I.phi_rec)
    for ph, rec in old.items(): I.phi_rec[ph] = R_.rec(rec)
    for ph, l in list(I.phi_all.items()): I.phi_all[ph] = [R_.rec(rec) for rec in l]
    for o in S.outs:
        st = R_.state(o[-1])
        if st is None: continue
        if o[0] == 'ret': N.outs.append(('ret', R_(I.deep(o[-1], o[1])), st))
        else: N.outs.append(o[:-1] + (st,))
    return N
