"""Abstract values: hash-consed terms (value numbers), affine integers, string
parts, aggregates, sequences; and the fact environment (intervals over affine
forms + truth of atoms) that every abstract state carries."""

class T:
    """A value number: an uninterpreted operator applied to abstract values."""
    __slots__ = ('op', 'args', 'id', 'ty', 'adt')
    def __repr__(self): return show(self)

_terms = {}
def t(op, *args, ty=None):
    k = (op, args)
    x = _terms.get(k)
    if x is None:
        x = T(); x.op = op; x.args = args; x.id = len(_terms); x.ty = None; x.adt = None
        _terms[k] = x
    if ty is not None and x.ty is None: x.ty = ty
    return x

def reset():
    _terms.clear()

UNIT = ('tup', ())
TRUE = ('b', True)
FALSE = ('b', False)
MOVED = ('moved',)
OPT = 'core::option::Option'
RES = 'core::result::Result'
ORD = 'core::cmp::Ordering'
CF = 'core::ops::control_flow::ControlFlow'
NONE = ('adt', OPT, 0, ())
def some(v): return ('adt', OPT, 1, (v,))
def ok(v): return ('adt', RES, 0, (v,))
def err(v): return ('adt', RES, 1, (v,))
LESS, EQUAL, GREATER = [('adt', ORD, i, ()) for i in range(3)]

def unk(why, *a):
    return t('?', why, *a)

# ---------------------------------------------------------------- integers
def I(n): return ('i', n, ())
def is_int(v): return isinstance(v, T) or (isinstance(v, tuple) and v[0] == 'i')
def const_int(v):
    if isinstance(v, tuple) and v[0] == 'i' and not v[2]: return v[1]
    return None
def lin(v):
    """-> (const, {term: coef}) or None"""
    if isinstance(v, T): return (0, {v: 1})
    if isinstance(v, tuple):
        if v[0] == 'i': return (v[1], dict(v[2]))
        if v[0] == 'b': return (int(v[1]), {})
    return None
def mk(c, d):
    d = {k: n for k, n in d.items() if n}
    if c == 0 and len(d) == 1:
        (k, n), = d.items()
        if n == 1: return k
    return ('i', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))
def add(a, b, s=1):
    la, lb = lin(a), lin(b)
    if la is None or lb is None: return unk('add', a, b, s)
    d = dict(la[1])
    for k, n in lb[1].items(): d[k] = d.get(k, 0) + s * n
    return mk(la[0] + s * lb[0], d)
def sub(a, b): return add(a, b, -1)
def scale(a, n):
    la = lin(a)
    if la is None: return unk('mul', a, I(n))
    return mk(la[0] * n, {k: c * n for k, c in la[1].items()})

# ---------------------------------------------------------------- booleans
def B(x): return TRUE if x else FALSE
def neg(c):
    if c[0] == 'b' if isinstance(c, tuple) else False: return B(not c[1])
    if isinstance(c, tuple) and c[0] == 'not': return c[1]
    return ('not', c)
def _norm(v):
    """affine v -> (const, linear part with positive leading coef, sign)"""
    c, d = lin(v)
    items = tuple(sorted(((k, n) for k, n in d.items() if n), key=lambda kv: kv[0].id))
    return c, items
def eq0(v):
    l = lin(v)
    if l is None: return unk('eq0', v)
    if not l[1]: return B(l[0] == 0)
    return ('cmp', 'eq', v)
def lt0(v):
    l = lin(v)
    if l is None: return unk('lt0', v)
    if not l[1]: return B(l[0] < 0)
    return ('cmp', 'lt', v)
def ieq(a, b): return eq0(sub(a, b))
def ilt(a, b): return lt0(sub(a, b))
def ile(a, b): return lt0(add(sub(a, b), I(-1)))

# ---------------------------------------------------------------- strings
def S(x): return ('s', (x,)) if x != '' else ('s', ())
def is_str(v): return isinstance(v, T) or (isinstance(v, tuple) and v[0] == 's')
def parts(v):
    if isinstance(v, tuple) and v[0] == 's': return v[1]
    return (v,)
def mkstr(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if p == '': continue
            if out and isinstance(out[-1], str): out[-1] += p; continue
        elif isinstance(p, tuple) and p[0] == 's':
            for q in p[1]:
                if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
                else: out.append(q)
            continue
        out.append(p)
    if len(out) == 1 and not isinstance(out[0], str): return out[0]
    return ('s', tuple(out))
def concat(a, b): return mkstr(parts(a) + parts(b))
def lit(v):
    """literal python string or None"""
    if isinstance(v, tuple) and v[0] == 's':
        if not v[1]: return ''
        if len(v[1]) == 1 and isinstance(v[1][0], str): return v[1][0]
    return None

def rep(s, n):
    """literal s repeated n times"""
    c = const_int(n)
    if c is not None: return S(s * max(c, 0))
    return t('rep', s, n)

# ---------------------------------------------------------------- sequences
EMPTY = ('seq', ())
def seq_pieces(v):
    if isinstance(v, tuple) and v[0] == 'seq': return v[1]
    if isinstance(v, tuple) and v[0] == 'tup': return tuple(('one', x) for x in v[1])
    if SMALL and isinstance(v, T):
        for pred, n in SMALL:
            if pred(v): return tuple(('one', t('e', v, I(i))) for i in range(n))
    return (('all', v),)
SMALL = []      # (which lists, length): lists taken to have that many elements
class small:
    """with small(pred, n): the lists pred holds for have n elements"""
    def __init__(self, pred, n): self.x = (pred if callable(pred) else lambda v, p=pred: v == p, n)
    def __enter__(self): SMALL.append(self.x)
    def __exit__(self, *a): SMALL.remove(self.x)
def mkseq(ps):
    ps = tuple(ps)
    if len(ps) == 1 and ps[0][0] == 'all': return ps[0][1]
    return ('seq', ps)
def seq_concrete(v):
    """list of elements when fully known"""
    ps = seq_pieces(v)
    if all(p[0] == 'one' for p in ps): return [p[1] for p in ps]
    return None
def seq_len(v):
    n = I(0)
    for p in seq_pieces(v):
        if p[0] == 'one': n = add(n, I(1))
        else: n = add(n, len_term(p[1]))
    return n
def len_term(x):
    if isinstance(x, T):
        if x.op == 'sorted': return len_term(x.args[0]) if isinstance(x.args[0], T) else seq_len(x.args[0])
        if x.op == 'drop': return sub(seq_len(x.args[0]), x.args[1])
        if x.op == 'init': return add(seq_len(x.args[0]), I(-1))
        if x.op == 'rev': return seq_len(x.args[0])
    if isinstance(x, tuple) and x[0] == 'upd': return seq_len(x[1])
    if isinstance(x, tuple) and x[0] == 'seq': return seq_len(x)
    return t('len', x, ty='usize')
def str_len(v):
    n = I(0)
    for p in parts(v):
        if isinstance(p, str): n = add(n, I(len(p.encode())))
        elif isinstance(p, T) and p.op == 'b64': n = add(n, I(1))
        else: n = add(n, t('len', p, ty='usize'))
    return n

# ---------------------------------------------------------------- projections
def fld(v, i, var=None):
    """field i (of variant var) of abstract value v"""
    if isinstance(v, tuple):
        k = v[0]
        if k == 'adt':
            if var is not None and var != v[2]: return unk('variant', v, var, i)
            return v[3][i] if i < len(v[3]) else unk('field', v, i)
        if k == 'tup': return v[1][i] if i < len(v[1]) else unk('field', v, i)
        if k == 'clo': return v[2][i] if i < len(v[2]) else unk('field', v, i)
        if k == 'upd':
            for kk, x in v[2]:
                if kk == ('f', i, var): return x
            return fld(v[1], i, var)
        if k == 'seq':
            e = seq_concrete(v)
            if e is not None and i < len(e): return e[i]
        if k == 'moved': return unk('moved')
        return unk('fld', v, i, var)
    if LIB and i == LIB[1] and isinstance(v, T) and v.op == 'f' and isinstance(v.args[0], T):
        c = listed_original(v.args[0])
        if c is not None and c.args[0].endswith('::all_generated_locations_for') and len(c.args) > 2: return c.args[2]
    return t('f', v, var, i)

LIB = []        # field indices in the external mapping: its original location, the source of that
def listed_original(v):
    """the call whose answer lists only mappings with an original location, when v is that field of one it lists"""
    if not LIB or v.op != 'f' or v.args[2] != LIB[0]: return None
    x = v.args[0]
    if isinstance(x, T) and x.op == 'e': x = x.args[0]
    elif isinstance(x, T) and x.op == 'f' and isinstance(x.args[0], T) and x.args[0].op == 'call' and x.args[0].args[0].endswith('Mappings::generated_location_for'): return x.args[0]
    else: return None
    return x if isinstance(x, T) and x.op == 'call' and x.args[0].endswith(('Mappings::all_generated_locations_for', 'Mappings::by_original_location')) else None

def elem(v, k):
    """element k of abstract sequence v"""
    c = const_int(k)
    if isinstance(v, tuple) and v[0] in ('seq', 'tup'):
        ps = seq_pieces(v)
        if c is not None:
            j = c
            for p in ps:
                if p[0] != 'one': break
                if j == 0: return p[1]
                j -= 1
        if len(ps) == 1 and ps[0][0] == 'all': return elem(ps[0][1], k)
        return t('e', v, k)
    if isinstance(v, tuple) and v[0] == 'upd':
        for kk, x in reversed(v[2]):
            if kk[0] == 'x':
                if kk[1] == k: return x
                d = sub(kk[1], k)
                if const_int(d) is not None: continue
                return t('e', v, k)
        return elem(v[1], k)
    if isinstance(v, T) and v.op == 'drop': return elem(v.args[0], add(v.args[1], k))
    return t('e', v, k)

def setkey(v, key, x):
    """functional update of component key=('f',i,var)|('x',k)"""
    if isinstance(v, tuple):
        if v[0] == 'it' and key[0] == 'it' and key[1] < len(v):
            fs = list(v); fs[key[1]] = x; return tuple(fs)
        if v[0] == 'adt' and key[0] == 'f':
            fs = list(v[3]); fs[key[1]] = x
            return ('adt', v[1], v[2], tuple(fs))
        if v[0] == 'tup' and key[0] == 'f':
            fs = list(v[1]); fs[key[1]] = x
            return ('tup', tuple(fs))
        if v[0] == 'clo' and key[0] == 'f':
            fs = list(v[2]); fs[key[1]] = x
            return ('clo', v[1], tuple(fs))
        if v[0] == 'seq' and key[0] == 'x':
            c = const_int(key[1])
            if c is not None:
                ps = list(v[1])
                if c < len(ps) and all(p[0] == 'one' for p in ps[:c + 1]):
                    ps[c] = ('one', x); return ('seq', tuple(ps))
        if v[0] == 'upd':
            base, ops = v[1], [kv for kv in v[2] if kv[0] != key]
            if getkey(base, key) == x: 
                return ('upd', base, tuple(ops)) if ops else base
            return ('upd', base, tuple(ops) + ((key, x),))
        if v[0] == 'moved': v = unk('moved')
    if key[0] in ('mv', 'mb'):      # the value stored under a key of a map
        base, ops = (v[1], v[2]) if isinstance(v, tuple) and v[0] == 'map' else (v, ())
        if key[0] == 'mv': return ('map', base, ops[:key[1]] + ((ops[key[1]][0], ops[key[1]][1], x),) + ops[key[1] + 1:])
        if getkey(v, key) == x: return v
        if ops and ops[-1][1] == key[1]: ops = ops[:-1]
        return ('map', base, ops + (('ins', key[1], x),))
    if getkey(v, key) == x: return v
    return ('upd', v, ((key, x),))
def getkey(v, key):
    if key[0] == 'f': return fld(v, key[1], key[2])
    if key[0] == 'it':
        if isinstance(v, tuple) and v and v[0] == 'it' and key[1] < len(v): return v[key[1]]
        return t('itc', v, key[1])
    if key[0] in ('mv', 'mb'):
        base, ops = (v[1], v[2]) if isinstance(v, tuple) and v[0] == 'map' else (v, ())
        if key[0] == 'mv': return ops[key[1]][2] if key[1] < len(ops) else unk('mapval', v, key[1])
        if ops and ops[-1][1] == key[1] and ops[-1][0] == 'ins': return ops[-1][2]
        return fld(t('get', base, key[1]), 0, 1)
    return elem(v, key[1])

def read_path(v, proj):
    for k in proj: v = getkey(v, k)
    return v
def write_path(v, proj, x):
    if not proj: return x
    return setkey(v, proj[0], write_path(getkey(v, proj[0]), proj[1:], x))

# ---------------------------------------------------------------- traversal
def sub_values(v):
    """direct children of a value (terms and tuples)"""
    if isinstance(v, T):
        for a in v.args:
            if isinstance(a, (T, tuple)): yield a
    elif isinstance(v, tuple):
        for a in v:
            if isinstance(a, (T, tuple)): yield a
_termset_cache = {}
def terms_in(v):
    """all terms occurring in v (frozenset)"""
    if isinstance(v, T):
        c = _termset_cache.get(v.id)
        if c is not None and c[0] is v: return c[1]
        s = {v}
        for a in v.args:
            if isinstance(a, (T, tuple)): s |= terms_in(a)
        s = frozenset(s)
        _termset_cache[v.id] = (v, s)
        return s
    s = set()
    if isinstance(v, tuple):
        for a in v:
            if isinstance(a, (T, tuple)): s |= terms_in(a)
    return s
def has_unknown(v):
    return any(x.op == '?' for x in terms_in(v))

def subst(v, m, memo=None):
    """replace terms by values per dict m (rebuilds affine/strings properly)"""
    if memo is None: memo = {}
    if isinstance(v, T):
        if v in m: return m[v]
        if v in memo: return memo[v]
        r = v
        if any(isinstance(a, (T, tuple)) for a in v.args):
            na = tuple(subst(a, m, memo) if isinstance(a, (T, tuple)) else a for a in v.args)
            if na != v.args:
                if v.op == 'f': r = fld(na[0], na[2], na[1])
                elif v.op == 'e': r = elem(na[0], na[1])
                elif v.op == 'rep': r = rep(na[0], na[1])
                elif v.op == 'len': r = seq_len(na[0]) if not (isinstance(na[0], tuple) and na[0][0] == 's') else str_len(na[0])
                elif v.op in ('div', 'shr') and const_int(na[0]) is not None and const_int(na[1]):
                    x, y = const_int(na[0]), const_int(na[1]); r = I(x >> y) if v.op == 'shr' else I(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
                else: r = t(v.op, *na, ty=v.ty)
                if isinstance(r, T) and r.adt is None: r.adt = v.adt
        memo[v] = r
        return r
    if isinstance(v, tuple):
        if v and v[0] == 'i' and len(v) == 3 and isinstance(v[1], int):
            r = I(v[1])
            for k, n in v[2]: r = add(r, scale(subst(k, m, memo), n))
            return r
        if v and v[0] == 's' and len(v) == 2:
            return mkstr(tuple(subst(p, m, memo) if not isinstance(p, str) else p for p in v[1]))
        if v and v[0] == 'cmp':
            x = subst(v[2], m, memo)
            return eq0(x) if v[1] == 'eq' else lt0(x)
        if v and v[0] == 'not':
            return neg(subst(v[1], m, memo))
        return tuple(subst(a, m, memo) if isinstance(a, (T, tuple)) else a for a in v)
    return v

# ---------------------------------------------------------------- facts
UNSIGNED = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'char'}
RANGE = {'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
         'isize': (-2**63, 2**63 - 1), 'u8': (0, 255), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1),
         'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'bool': (0, 1), 'cmp3': (-1, 1)}

NARROW = ('i8', 'u8', 'i16', 'u16')
def int_range(facts, v):
    """(lo, hi) of an integer under the facts; None where unbounded"""
    c, d = lin(v)
    lo, hi = facts.bound(tuple(sorted(d.items(), key=lambda kv: kv[0].id)))
    return (None if lo is None else lo + c), (None if hi is None else hi + c)

class Facts:
    __slots__ = ('iv', 'tr')
    def __init__(self, iv=None, tr=None):
        self.iv = iv if iv is not None else {}
        self.tr = tr if tr is not None else {}
    def copy(self): return Facts(dict(self.iv), dict(self.tr))

    def atom_bound(self, a):
        lo, hi = None, None
        if a.ty in RANGE: lo, hi = RANGE[a.ty]
        if a.op == 'len':
            lo = 0
            if isinstance(a.args[0], T) and a.args[0].op in ('split', 'rsplit'): lo = 1
        if a.op in ('maplen',): lo = 0
        if a.op == 'discr' and a.adt is not None: lo, hi = a.adt
        e = self.iv.get(((a, 1),))
        if e:
            if e[0] is not None and (lo is None or e[0] > lo): lo = e[0]
            if e[1] is not None and (hi is None or e[1] < hi): hi = e[1]
        return lo, hi
    def bound(self, items):
        """interval of the linear part"""
        lo = hi = 0
        for a, n in items:
            l, h = self.atom_bound(a)
            if n < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + n * l
            hi = None if hi is None or h is None else hi + n * h
        if len(items) > 1:
            l2, h2 = self.rel_bound(items)
            if l2 is not None and (lo is None or l2 > lo): lo = l2
            if h2 is not None and (hi is None or h2 < hi): hi = h2
        return lo, hi
    def _get(self, items):
        if not items: return (0, 0, ())
        if items[0][1] < 0:
            e = self.iv.get(tuple((a, -n) for a, n in items))
            if not e: return None
            return (None if e[1] is None else -e[1], None if e[0] is None else -e[0], tuple(-x for x in e[2]))
        return self.iv.get(items)
    def rel_bound(self, items):
        """bounds of a linear form: stored, or composed of two stored forms"""
        e = self._get(items)
        lo, hi = (e[0], e[1]) if e else (None, None)
        if len(items) <= 4:
            d = dict(items)
            for k, ek in list(self.iv.items()):
                if len(k) < 2: continue
                for s in (1, -1):
                    r = dict(d)
                    for a, n in k: r[a] = r.get(a, 0) - s * n
                    r = {a: n for a, n in r.items() if n}
                    if len(r) > 2 or len(r) >= len(d) + 1: continue
                    if len(r) == 2 and set(r) == set(d) : continue
                    ri = tuple(sorted(r.items(), key=lambda kv: kv[0].id))
                    if len(ri) == 1:
                        l, h = self.atom_bound(ri[0][0])
                        if ri[0][1] < 0: l, h = h, l
                        n = ri[0][1]
                        l = None if l is None else l * n; h = None if h is None else h * n
                    elif len(ri) == 0: l = h = 0
                    else:
                        e2 = self._get(ri)
                        if not e2: continue
                        l, h = e2[0], e2[1]
                    kl, kh = (ek[0], ek[1]) if s == 1 else (None if ek[1] is None else -ek[1], None if ek[0] is None else -ek[0])
                    if l is not None and kl is not None and (lo is None or l + kl > lo): lo = l + kl
                    if h is not None and kh is not None and (hi is None or h + kh < hi): hi = h + kh
        return lo, hi

    def ev(self, c):
        """truth of condition c: True/False/None"""
        if isinstance(c, tuple):
            k = c[0]
            if k == 'b': return c[1]
            if k == 'not':
                r = self.ev(c[1]); return None if r is None else not r
            if k == 'cmp':
                l = lin(c[2])
                cst = l[0]; items = tuple(sorted(l[1].items(), key=lambda kv: kv[0].id))
                lo, hi = self.bound(items)
                if c[1] == 'lt':
                    if hi is not None and hi + cst < 0: return True
                    if lo is not None and lo + cst >= 0: return False
                    return None
                e = self._get(items)
                if e and -cst in e[2]: return False
                if lo is not None and lo + cst > 0: return False
                if hi is not None and hi + cst < 0: return False
                if lo is not None and lo == hi: return lo + cst == 0
                return None
            if k == 'and':
                r = [self.ev(x) for x in c[1:]]
                if False in r: return False
                return True if all(r) else None
            if k == 'or':
                r = [self.ev(x) for x in c[1:]]
                if True in r: return True
                return False if all(x is False for x in r) else None
            if k == 'i':
                n = const_int(c)
                if n is not None: return bool(n)
        r = self.tr.get(c)
        return r

    def assume(self, c, truth):
        """-> new Facts, or None when contradictory"""
        r = self.ev(c)
        if r is not None: return self if r == truth else None
        if isinstance(c, tuple):
            k = c[0]
            if k == 'not': return self.assume(c[1], not truth)
            if k == 'and':
                if truth:
                    f = self
                    for x in c[1:]:
                        f = f.assume(x, True)
                        if f is None: return None
                    return f
                f = self.copy(); f.tr[c] = False
                und = [x for x in c[1:] if self.ev(x) is None]
                if len(und) == 1: return f.assume(und[0], False)
                return f
            if k == 'or':
                if not truth:
                    f = self
                    for x in c[1:]:
                        f = f.assume(x, False)
                        if f is None: return None
                    return f
                f = self.copy(); f.tr[c] = True
                und = [x for x in c[1:] if self.ev(x) is None]
                if len(und) == 1: return f.assume(und[0], True)
                return f
            if k == 'cmp':
                l = lin(c[2]); cst = l[0]
                items = tuple(sorted(l[1].items(), key=lambda kv: kv[0].id))
                s = 1
                if items[0][1] < 0:
                    s = -1; items = tuple((a, -n) for a, n in items)
                # c: s*P + cst  (<|==) 0
                f = self.copy()
                lo, hi, ex = f.iv.get(items, (None, None, ()))
                blo, bhi = self.bound(items)
                lo = blo if lo is None or (blo is not None and blo > lo) else lo
                hi = bhi if hi is None or (bhi is not None and bhi < hi) else hi
                if c[1] == 'eq':
                    v = -cst * s
                    if truth: lo = hi = v
                    else: ex = tuple(sorted(set(ex) | {v}))
                else:
                    if truth:   # s*P < -cst
                        if s == 1: hi = -cst - 1 if hi is None else min(hi, -cst - 1)
                        else: lo = cst + 1 if lo is None else max(lo, cst + 1)
                    else:       # s*P >= -cst
                        if s == 1: lo = -cst if lo is None else max(lo, -cst)
                        else: hi = cst if hi is None else min(hi, cst)
                ch = True
                while ch:
                    ch = False
                    if lo is not None and lo in ex: lo += 1; ch = True
                    if hi is not None and hi in ex: hi -= 1; ch = True
                if lo is not None and hi is not None and lo > hi: return None
                f.iv[items] = (lo, hi, ex)
                return f
        f = self.copy()
        f.tr[c] = truth
        return f

    def drop_terms(self, bad):
        """forget every fact about the given terms (set)"""
        f = Facts({}, {})
        for k, v in self.iv.items():
            if not any(terms_in(a) & bad for a, _ in k): f.iv[k] = v
        for k, v in self.tr.items():
            if not (terms_in(k) & bad): f.tr[k] = v
        return f

# ---------------------------------------------------------------- printing
def show(v, d=0):
    if d > 12: return '…'
    if isinstance(v, T):
        a = v.args
        if v.op == 'f': return '%s.%s' % (show(a[0], d + 1), a[2] if a[1] is None else '%s#%s' % (a[1], a[2]))
        if v.op == 'e': return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
        if v.op == 'in': return str(a[0])
        if v.op == 'phi': return 'φ%d' % v.id
        if v.op == 'k': return 'κ%d' % v.id
        return '%s(%s)' % (v.op, ', '.join(show(x, d + 1) for x in a))
    if isinstance(v, tuple) and v:
        k = v[0]
        if k == 'i':
            s = ' + '.join(('%s' if n == 1 else '%d*%%s' % n) % show(a, d + 1) for a, n in v[2])
            if not v[2]: return str(v[1])
            return '(%s%s)' % (s, (' + %d' % v[1]) if v[1] > 0 else (' - %d' % -v[1]) if v[1] else '')
        if k == 'b': return str(v[1])
        if k == 's': return ' ++ '.join(repr(p) if isinstance(p, str) else show(p, d + 1) for p in v[1]) or "''"
        if k == 'adt':
            n = v[1].split('::')[-1]
            if v[1] == OPT: return 'None' if v[2] == 0 else 'Some(%s)' % show(v[3][0], d + 1)
            return '%s#%d{%s}' % (n, v[2], ', '.join(show(x, d + 1) for x in v[3]))
        if k == 'tup': return '(%s)' % ', '.join(show(x, d + 1) for x in v[1])
        if k == 'cmp': return '%s %s 0' % (show(v[2], d + 1), '==' if v[1] == 'eq' else '<')
        if k == 'not': return '!(%s)' % show(v[1], d + 1)
        if k == 'clo': return 'closure<%s>[%s]' % (v[1], ', '.join(show(x, d + 1) for x in v[2]))
        if k == 'seq': return '[%s]' % ', '.join(('*' if p[0] == 'all' else '') + show(p[1], d + 1) for p in v[1])
        if k == 'ref': return '&%s%s' % (v[1], ''.join('.' + '/'.join(show(y, d + 1) if isinstance(y, (T, tuple)) else str(y) for y in p[1:]) for p in v[2]))
        if k == 'upd': return '%s{%s}' % (show(v[1], d + 1), ', '.join('%s:=%s' % ('/'.join(show(y, d+1) if isinstance(y, (T, tuple)) else str(y) for y in kk), show(x, d + 1)) for kk, x in v[2]))
        return '(%s)' % ', '.join(show(x, d + 1) if isinstance(x, (T, tuple)) else str(x) for x in v)
    return str(v)
