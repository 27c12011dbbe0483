"""Relational comparison: evaluate a specification over the abstract state of
one path of the analysed function and compare values in the same domain.
Verdicts are three-valued: True (equal on this path), False (different under
every free interpretation of the operators involved), None (not understood)."""
from .val import *
from . import val as V
from .interp import Interp, St, Budget, Unsupported

UNDERSTOOD = {'in', 'wrap', 'f', 'e', 'len', 'discr', 'call', 'after', 'get', 'rep', 'b64', 'k', 'maplen', 'cb', 'sorted',
              'urlstr', 'const', 'cmp3', 'scmp', 'eqv', 'b2i', 'chr', 'ord', 'bytesof', 'disp', 'dbg', 'replaced',
              'removed_val', 'drop', 'sdrop', 'chars', 'split', 'comp', 'div', 'shr', 'starts_with', 'ends_with',
              'contains', 'regex', 'is_match', 'bits', 'bit', 'parse_err', 'to_string', 'jsonstr', 'fb', 'doc', 'edir', 'dirof', 'join', 'dec', 'init', 'replacen', 'replace'}

class Infeasible(Exception): pass
class SpecError(Exception): pass
class Undecided(Exception): pass

# text functions that change some texts and leave others: on a text nothing else is known of they are free
TEXTF = {'trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim_start_matches', 'trim_end_matches'}
def free_text(x):
    return x.op in TEXTF and all(y.op in ('in', 'f', 'e', 'get', 'k', 'len', 'phi') for y in terms_in(x.args[0])) \
        and all(lit(y) is not None for y in x.args[1:])
def bad_ops(v, extra=()):
    return {x.op for x in terms_in(v) if x.op not in UNDERSTOOD and (x.op not in extra or cursor(x)) and not free_text(x)}
def cursor(x):
    """the position of an iterator that does not advance by one every round: what it is in which round is not known"""
    return x.op == 'phi' and any(k[0] == 'it' for k in x.args[2][1])
def congruent(st):
    """no equal texts with different images on the path"""
    eqs = [(c[2].args, tr) for c, tr, _ in st.trail for c in [c] if isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq' and isinstance(c[2], T) and c[2].op == 'scmp']
    same = [set(p) for p, tr in eqs if tr]
    for p, tr in eqs:
        if tr or not all(isinstance(x, T) and x.op in TEXTF for x in p): continue
        if {x.args[0] for x in p} in same: return False
    return True
def unknown_in(I, v):
    if not I.unknown_calls: return set()
    return {x.args[0] for x in terms_in(v) if x.op in ('call', 'after') and x.args[0] in I.unknown_calls}
def understood(I, v, extra=()):
    return not bad_ops(v, extra) and not unknown_in(I, v)

def is_struct(I, path):
    a = I.p.adts.get(path)
    return bool(a and a['kind'] == 'struct')

def conj(a, b):
    if a is False or b is False: return False
    return True if a is True and b is True else None

def can_answer(I, clo, want):
    """closure clo returns something that may be want (a boolean) on a path the arguments alone decide"""
    from . import summ
    if not (isinstance(clo, tuple) and clo and clo[0] == 'clo' and clo[1] in I.p.bodies) or clo[2]: return None
    b = I.p.bodies[clo[1]]
    def ref(nm):
        def f(I2, st): st.mem[('in', nm)] = t('in', nm); return ('ref', ('in', nm), ())
        return f
    args = {i: ref('x%d' % i) for i in range(1, b['argc'])}
    args[0] = (lambda I2, st: I2.tmp(st, clo, 'clo')) if I.p.types[b['locals'][1]['t']]['k'] == 'ref' else (lambda I2, st: clo)
    try: S0 = summ.run(I.p, clo[1], args=args)
    except Exception: return None
    summ.RUNS.pop()
    for o in S0.outs:
        if o[0] != 'ret' or any(bad_ops(c, ()) or unknown_in(S0.I, c) for c, _, _ in o[-1].trail): continue
        v = o[1]
        if o[-1].facts.ev(v) is want: return True
        if o[-1].facts.ev(v) is None and understood(S0.I, v): return True
    return False
def loses(I, v, base):
    """the list v is base with elements taken out (True), or not known to be"""
    while isinstance(v, T) and v.op in ('sorted', 'rev'): v = v.args[0]
    while isinstance(base, T) and base.op in ('sorted', 'rev'): base = base.args[0]
    if not isinstance(v, T) or not v.op.startswith('mut_'): return None
    w = v.args[0]
    if not isinstance(base, T) and w == base and isinstance(base, tuple) and base[0] == 'seq' and v.op != 'mut_truncate': base = w = t('list', base)
    while isinstance(w, T) and w.op in ('sorted', 'rev'): w = w.args[0]
    if w != base or not isinstance(base, T): return True if loses(I, w, base) else None
    n = v.op[4:]
    if n in ('dedup', 'dedup_by_key'): return True
    if n == 'dedup_by': return can_answer(I, v.args[1], True) or None
    if n == 'retain': return can_answer(I, v.args[1], False) or None
    if n == 'truncate': return True if const_int(v.args[1]) is not None else None
    return None

class Cmp:
    """compare abstract values under the facts of a state"""
    def __init__(self, I, extra=()):
        self.I = I; self.extra = set(extra); self.why = None
    def und(self, *vs):
        return all(understood(self.I, v, self.extra) for v in vs)
    def leaf(self, a, b):
        if self.und(a, b):
            self.why = self.why or (a, b)
            return False
        return None
    def eq_fact(self, st, a, b):
        """equality of two scalar values decided by the facts alone"""
        I = self.I
        if lin(a) is not None and lin(b) is not None:
            r = st.facts.ev(ieq(a, b))
            if r is not None: return r
        if is_str(a) and is_str(b):
            r = st.facts.ev(I.streq(a, b))
            if r is not None: return r
        ka, kb = sorted((a, b), key=lambda v: (show(v), repr(v)))
        return st.facts.tr.get(t('eqv', ka, kb))
    def same(self, st, a, b):
        r = self.same_(st, a, b)
        # a path that depends on a function nobody described may not be possible
        if r is False and self.I.unknown_calls and any(unknown_in(self.I, c) for c, _, _ in st.trail): return None
        return r
    def same_(self, st, a, b, d=0):
        """-> True/False/None with no state forking"""
        I = self.I
        if d > 40: return None
        if a == b: return True if not has_unknown(a) else None
        if isinstance(a, tuple) and a and a[0] in ('ref', 'guard'): a = I.deep(st, a)
        if isinstance(b, tuple) and b and b[0] in ('ref', 'guard'): b = I.deep(st, b)
        if a == b: return True if not has_unknown(a) else None
        ka = a[0] if isinstance(a, tuple) and a else None
        kb = b[0] if isinstance(b, tuple) and b else None
        if ka == 'adt' and kb == 'adt':
            if a[1] != b[1]: return self.leaf(a, b)
            if a[2] != b[2]: 
                if self.und(a, b): self.why = self.why or (a, b); return False
                # a definite variant mismatch does not depend on the payloads
                self.why = self.why or (a, b); return False
            r = True
            for x, y in zip(a[3], b[3]):
                r = conj(r, self.same_(st, x, y, d + 1))
                if r is False: return False
            return r
        if ka == 'adt' or kb == 'adt':
            x, y = (a, b) if ka == 'adt' else (b, a)       # x adt, y not
            if isinstance(y, T) or (isinstance(y, tuple) and y and y[0] == 'upd'):
                if is_struct(I, x[1]):
                    r = True
                    for i, fx in enumerate(x[3]):
                        r = conj(r, self.same_(st, fx, fld(y, i), d + 1))
                        if r is False: return False
                    return r
                base = y[1] if isinstance(y, tuple) else y
                dv = I.discr(st, x); dy = t('discr', base)
                if dy.adt is None and x[1] in (OPT, RES): dy.adt = (0, 1)
                r = st.facts.ev(ieq(dy, dv))
                if r is False: self.why = self.why or (a, b); return False
                r2 = True
                for i, fx in enumerate(x[3]):
                    r2 = conj(r2, self.same_(st, fx, fld(y, i, x[2]), d + 1))
                if r is True: return r2
                if self.und(y): self.why = self.why or (a, b); return False
                return None
            return self.leaf(a, b)
        if ka == 'tup' and kb == 'tup' and len(a[1]) == len(b[1]):
            r = True
            for x, y in zip(a[1], b[1]): r = conj(r, self.same_(st, x, y, d + 1))
            return r
        if ka == 'tup' or kb == 'tup':
            x, y = (a, b) if ka == 'tup' else (b, a)
            if isinstance(y, T):
                r = True
                for i, fx in enumerate(x[1]): r = conj(r, self.same_(st, fx, fld(y, i), d + 1))
                return r
        if ka in ('b', 'cmp', 'not', 'and', 'or') or kb in ('b', 'cmp', 'not', 'and', 'or'):
            ra, rb = st.facts.ev(a), st.facts.ev(b)
            if ra is not None and rb is not None:
                if ra != rb: self.why = self.why or (a, b)
                return ra == rb
            return self.leaf(a, b)
        if ka == 'upd' or kb == 'upd':
            return self.same_upd(st, a, b, d)
        if ka == 'map' or kb == 'map': return self.same_map(st, a, b, d)
        if ka == 's' or kb == 's': return self.same_str(st, a, b, d)
        if ka == 'seq' or kb == 'seq': return self.same_seq(st, a, b, d)
        f = self.eq_fact(st, a, b)
        if f is True: return True
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args):
            r = True
            for x, y in zip(a.args, b.args):
                if isinstance(x, (T, tuple)) and isinstance(y, (T, tuple)): r = conj(r, self.same_(st, x, y, d + 1))
                elif x != y: r = False
                if r is False: break
            if r is True: return True
            if r is None: return None
        if lin(a) is not None and lin(b) is not None:
            # same affine form up to congruence of the atoms
            la, lb = lin(a), lin(b)
            if la[0] == lb[0] and len(la[1]) == len(lb[1]) and la[1] and not (isinstance(a, T) and isinstance(b, T)):
                rest = dict(lb[1]); ok = True; und = False
                for x, n in la[1].items():
                    for y in list(rest):
                        if rest[y] == n:
                            r = self.same_(st, x, y, d + 1)
                            if r is True: del rest[y]; break
                            if r is None: und = True
                    else: ok = False
                if ok: return True
                if und: return None
        if f is False:
            self.why = self.why or (a, b); return False
        return self.leaf(a, b)
    def same_str(self, st, a, b, d):
        if self.eq_fact(st, a, b) is True: return True
        pa, pb = list(parts(a)), list(parts(b))
        # align literal runs
        i = 0
        def split_lits(ps):
            out = []
            for p in ps:
                if isinstance(p, str): out += list(p)
                else: out.append(p)
            return out
        qa, qb = split_lits(pa), split_lits(pb)
        # pad literal repeats:  rep(c,n) with n decided
        r = True
        if len(qa) == len(qb):
            for x, y in zip(qa, qb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y: self.why = self.why or (a, b); r = False if r is not None else r; break
                elif isinstance(x, str) or isinstance(y, str):
                    r = conj(r, False if self.und(a, b) else None); break
                else:
                    r = conj(r, self.same_(st, x, y, d + 1))
                    if r is False: break
            if r is True: return True
            if r is None: return None
        return self.leaf(a, b)
    def same_seq(self, st, a, b, d):
        pa, pb = list(seq_pieces(a)), list(seq_pieces(b))
        # drop empty pieces decided by the facts
        def trim(ps):
            return [p for p in ps if not (p[0] == 'all' and st.facts.ev(eq0(seq_len(p[1]))) is True)]
        pa, pb = trim(pa), trim(pb)
        if len(pa) == len(pb) and all(x[0] == y[0] for x, y in zip(pa, pb)):
            r = True
            for x, y in zip(pa, pb): r = conj(r, self.same_(st, x[1], y[1], d + 1))
            if r is not False: return r
        return self.leaf(a, b)
    def same_upd(self, st, a, b, d):
        ba, oa = (a[1], dict(a[2])) if isinstance(a, tuple) and a[0] == 'upd' else (a, {})
        bb, ob = (b[1], dict(b[2])) if isinstance(b, tuple) and b[0] == 'upd' else (b, {})
        r = self.same_(st, ba, bb, d + 1)
        if r is not True: return self.leaf(a, b) if r is False else None
        for k in list(oa) + [k for k in ob if k not in oa]:
            r = conj(r, self.same_(st, oa.get(k, getkey(ba, k)), ob.get(k, getkey(bb, k)), d + 1))
            if r is False: return False
        return r
    def same_map(self, st, a, b, d):
        def norm(v): return (v[1], list(v[2])) if isinstance(v, tuple) and v[0] == 'map' else (v, [])
        (ba, oa), (bb, ob) = norm(a), norm(b)
        if (ba is None) != (bb is None): return self.leaf(a, b)
        r = True if ba is None else self.same_(st, ba, bb, d + 1)
        if r is not True: return r
        if len(oa) != len(ob): return self.leaf(a, b)
        for x, y in zip(oa, ob):
            if x[0] != y[0]: return self.leaf(a, b)
            r = conj(r, conj(self.same_(st, x[1], y[1], d + 1), self.same_(st, x[2], y[2], d + 1)))
        return r

# ---------------------------------------------------------------- specifications
class Sp:
    """direct-style specification evaluator: every undecided question forks by
    replay; facts refine the state self.st"""
    def __init__(self, I, st, prefix, inp):
        self.I = I; self.st = st; self.prefix = prefix; self.pos = 0; self.widths = []; self.inp = inp
    def branch(self, alts):
        if not alts: raise Infeasible()
        if len(alts) == 1:
            self.st = alts[0][1]; return alts[0][0]
        i = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
        self.pos += 1; self.widths.append(len(alts))
        self.st = alts[i][1]
        return alts[i][0]
    def cond(self, c): return self.branch(self.I.split(self.st, c, 'spec'))
    def lt(self, a, b): return self.cond(ilt(V_(a), V_(b)))
    def le(self, a, b): return self.cond(ile(V_(a), V_(b)))
    def ieq(self, a, b): return self.cond(V.ieq(V_(a), V_(b)))
    def streq(self, a, b): return self.cond(self.I.streq(a, b))
    def opt(self, v):
        """payload or None"""
        v = self.I.deref(self.st, v)
        if isinstance(v, T) or (isinstance(v, tuple) and v[0] == 'upd'):
            base = v[1] if isinstance(v, tuple) else v
        return self.branch(self.I.opt_split(self.st, v, 'spec'))
    def res(self, v):
        alts = [((a, b), s) for a, b, s in self.I.res_split(self.st, v, 'spec')]
        return self.branch(alts)
    def known(self, c): return self.st.facts.ev(c)
    def known_some(self, v):
        """True/False/None: does the path already know whether option v is Some"""
        if isinstance(v, tuple) and v[0] == 'adt': return v[2] == 1
        base = v[1] if isinstance(v, tuple) and v[0] == 'upd' else v
        if isinstance(base, T) and base.op == 'f' and V.listed_original(base) is not None: return True
        d = t('discr', base)
        if d.adt is None: d.adt = (0, 1)
        r = self.st.facts.ev(eq0(d))
        return None if r is None else (not r)
    def cmp3(self, a, b):
        """-1/0/1"""
        return self.branch(self.I.cmp_split(self.st, V_(a), V_(b), 'spec'))
    def scmp3(self, a, b):
        return self.branch(self.I.cmp_split(self.st, self.I.scmp(a, b), None, 'spec'))
def V_(x): return V.I(x) if isinstance(x, int) and not isinstance(x, bool) else x

def run_spec(I, st, inp, fn, limit=4000):
    """all evaluations of fn from state st -> [(result, state)]"""
    out = []; work = [()]
    while work:
        pre = work.pop()
        s = Sp(I, st, pre, inp)
        try:
            r = fn(s)
            out.append((r, s.st))
        except Infeasible: pass
        for i in range(len(pre), len(s.widths)):
            for j in range(1, s.widths[i]):
                work.append(tuple((list(pre) + [0] * (i - len(pre)))) + (j,))
        if len(out) > limit: raise Budget('spec paths')
    return out
