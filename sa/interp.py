"""Abstract interpreter over MIR: forward data flow with trace partitioning,
a value-numbering domain (val.py) for data, intervals over affine forms for
branch conditions, call inlining and widening of loop-carried cells."""
import sys, re
from .val import *
from . import val as V

sys.setrecursionlimit(20000)

class Budget(Exception): pass
class Unsupported(Exception): pass

class St:
    __slots__ = ('mem', 'facts', 'trail', 'events', 'guards', 'n', 'visits')
    def __init__(self):
        self.mem = {}; self.facts = Facts(); self.trail = (); self.events = ()
        self.guards = {}; self.n = 0; self.visits = {}
    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem); s.facts = self.facts; s.trail = self.trail; s.events = self.events
        s.guards = dict(self.guards); s.n = self.n; s.visits = dict(self.visits)
        return s
    def ev(self, e): self.events = self.events + (e,)

class Frame:
    __slots__ = ('id', 'b', 'name', 'site')
    def __init__(self, fid, b, site): self.id = fid; self.b = b; self.name = b['id']; self.site = site

def ref_cells(v):
    """the memory cells a value points into"""
    if not isinstance(v, tuple) or not v: return []
    if v[0] == 'ref': return [v[1]]
    return [c for x in v if isinstance(x, tuple) for c in ref_cells(x)]

class LoopRec:
    """summary of one widened loop: initial values, loop-carried numbers, one
    abstract iteration (back-edge states) and the ways out"""
    def __init__(self, key):
        self.key = key; self.phis = {}; self.kappa = None; self.backs = []; self.exits = []; self.steps = {}
        self.where = ''

class Program:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.bodies = {}
        for b in d['bodies']:
            self.bodies.setdefault(b['id'], b)
        self.adts = {a['p']: a for a in d['adts']}
        self._loops = {}; self._clones = {}; self.index_of = {}
        from . import val
        del val.LIB[:]
        m_ = next((a for p, a in self.adts.items() if p.startswith('source_map_mappings') and p.endswith('::Mapping')), None)
        o_ = next((a for p, a in self.adts.items() if p.startswith('source_map_mappings') and p.endswith('::OriginalLocation')), None)
        if m_ and o_:
            ns = [[f['n'] for f in a['v'][0]['f']] for a in (m_, o_)]
            if 'original' in ns[0] and 'source' in ns[1]: val.LIB.extend((ns[0].index('original'), ns[1].index('source')))
    def ty(self, i): return self.types[i]
    def plain_clone(self, bid):
        """does this hand-written clone copy every field"""
        r = self._clones.get(bid)
        if r is None:
            self._clones[bid] = False       # not while it is being analysed itself
            m = re.match(r'^<(.+) as core::clone::Clone>::clone$', bid); a = self.adts.get(m.group(1)) if m else None
            r = False
            if a and len(a['v']) == 1:
                from . import summ
                from .rel import Cmp
                try:
                    S = summ.run(self, bid); me = t('in', 'self'); n = len(a['v'][0]['f'])
                    vs = [(o, S.I.deep(o[-1], o[1]) if o[0] == 'ret' else None) for o in S.outs]
                    r = bool(vs) and all(isinstance(v, tuple) and v[0] == 'adt' and v[1] == m.group(1) and len(v[3]) == n and all(Cmp(S.I).same(o[-1], v[3][i], fld(me, i)) is True for i in range(n)) for o, v in vs)
                except (Budget, Unsupported): pass
            self._clones[bid] = r
        return r
    def field_index(self, adt, name, var=0):
        a = self.adts.get(adt)
        if not a: return None
        for i, f in enumerate(a['v'][var]['f']):
            if f['n'] == name: return i
        return None
    def succs(self, te):
        k = te['t']
        if k in ('goto', 'drop', 'assert'): return [te['to']]
        if k == 'call': return [te['to']] if te.get('to') is not None else []
        if k == 'switch': return [x[1] for x in te['v']] + ([te['else']] if te.get('else') is not None else [])
        return []
    def loops(self, b):
        """header -> set of blocks (natural loops, merged per header)"""
        r = self._loops.get(b['id'])
        if r is not None: return r
        bl = b['blocks']; n = len(bl)
        succ = [self.succs(x['te']) for x in bl]
        # reachable, rpo
        order, seen = [], set()
        def dfs(s):
            st = [(s, iter(succ[s]))]; seen.add(s)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(succ[y]))); break
                else:
                    order.append(x); st.pop()
        dfs(0)
        rpo = order[::-1]; idx = {x: i for i, x in enumerate(rpo)}
        preds = {x: [] for x in rpo}
        for x in rpo:
            for y in succ[x]: preds[y].append(x)
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for x in rpo[1:]:
                new = None
                for p in preds[x]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]: a = idom[a]
                                while idx[c] > idx[a]: c = idom[c]
                            new = a
                if idom.get(x) != new: idom[x] = new; ch = True
        def dom(a, x):
            while True:
                if a == x: return True
                if x == 0: return False
                x = idom[x]
        res = {}
        for x in rpo:
            for y in succ[x]:
                if dom(y, x):
                    body = res.setdefault(y, {y})
                    work = [x]
                    while work:
                        z = work.pop()
                        if z in body: continue
                        body.add(z); work += preds[z]
        self._loops[b['id']] = res
        return res

def RET(v, st): return ('ret', v, st)
def PANIC(st, kind, info=None, where=None): return ('panic', (kind, info, where), st)

INTK = ('int', 'char')

UNKNOWN = set()      # functions met anywhere that nobody described
class Interp:
    def __init__(self, prog, opaque=(), max_steps=400000, max_paths=6000, trace=False, pure=(), time_limit=None):
        self.p = prog; self.opaque = set(opaque); self.steps = 0; self.max_steps = max_steps
        self.max_paths = max_paths; self.stack = []; self.recs = {}; self.const_cache = {}; self.trace = trace
        self.seen_bodies = set(); self.calls = 0; self.opaque_used = {}; self.hooks = {}; self.unknown_calls = {}
        self.spec_opaque = {}   # path -> python handler(I, st, args, te) generator
        self.phi_rec = {}; self.loops_done = set(); self.diverges = set(); self.phi_all = {}; self.arith = {}
        import time
        self.deadline = time.time() + time_limit if time_limit else None
        from . import models
        self.models = models.MODELS; self.m = models

    # ------------------------------------------------------------ types
    def place_ty(self, b, p):
        ty = b['locals'][p['l']]['t']
        for e in p['p']:
            T_ = self.p.types[ty] if ty is not None else None
            if e == '*':
                if T_ is None: return None
                if T_['k'] in ('ref', 'ptr'): ty = T_['t']
                elif T_['k'] == 'adt' and T_['a']: ty = T_['a'][0]
                else: ty = None
            elif 'f' in e: ty = e['t']
            elif 'i' in e or 'ci' in e:
                ty = T_.get('t') if T_ else None
        return ty
    def tk(self, ty):
        if ty is None: return None
        return self.p.types[ty]
    def int_name(self, ty):
        T_ = self.tk(ty)
        if not T_: return None
        if T_['k'] == 'int': return T_['n']
        if T_['k'] == 'char': return 'char'
        if T_['k'] == 'bool': return 'bool'
        return None

    # ------------------------------------------------------------ memory
    def read(self, st, loc):
        cell, proj = loc
        if cell not in st.mem:
            return unk('uninit', cell) if not proj else unk('uninit', cell, proj)
        return read_path(st.mem[cell], proj)
    def write(self, st, loc, v):
        cell, proj = loc
        if not proj: st.mem[cell] = v
        else: st.mem[cell] = write_path(st.mem.get(cell, unk('uninit', cell)), proj, v)
    def loc_of(self, st, v):
        """location a pointer value denotes (opaque pointers get a heap cell)"""
        if isinstance(v, tuple):
            if v[0] == 'ref': return (v[1], v[2])
            if v[0] == 'guard': return (v[3][1], v[3][2])
        c = ('h', v)
        if c not in st.mem: st.mem[c] = v
        return (c, ())
    def deref(self, st, v):
        """strip references/guards: the value behind v"""
        n = 0
        while isinstance(v, tuple) and v[0] in ('ref', 'guard') and n < 20:
            v = self.read(st, self.loc_of(st, v)); n += 1
        if isinstance(v, T):
            c = ('h', v)
            if c in st.mem: 
                w = st.mem[c]
                if w is not v: return self.deref(st, w) if not (isinstance(w, tuple) and w[0] == 'upd') else w
        return v
    def deep(self, st, v, d=0):
        """value with every reference inside replaced by its referent"""
        if d > 25: return unk('deep')
        v = self.deref(st, v)
        if isinstance(v, tuple):
            if v[0] in ('adt', 'tup', 'clo', 'upd', 'it', 'seq', 'map', 's'):
                return tuple(self.deep_in(st, x, d + 1) for x in v)
        return v
    def deep_in(self, st, x, d):
        if isinstance(x, T): return self.deep(st, x, d)
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in ('ref', 'guard', 'adt', 'tup', 'clo', 'upd', 'it', 'seq', 'map', 's'):
                return self.deep(st, x, d)
            if x and isinstance(x[0], str) and x[0] in ('i', 'b', 'cmp', 'not', 'fn'): return x
            return tuple(self.deep_in(st, y, d) for y in x)
        return x
    def tmp(self, st, v, tag='tmp'):
        st.n += 1
        c = (tag, len(self.stack), st.n)
        st.mem[c] = v
        return ('ref', c, ())

    def resolve(self, fr, st, p):
        """place -> location"""
        loc = ((fr.id, p['l']), ())
        var = None
        for e in p['p']:
            if e == '*':
                v = self.read(st, loc)
                if isinstance(v, tuple) and v[0] in ('ref', 'guard'): loc = self.loc_of(st, v)
                elif isinstance(v, T): loc = self.loc_of(st, v)
                # owned box / value-level str: same location
            elif 'f' in e:
                loc = (loc[0], loc[1] + (('f', e['f'], var),)); var = None
            elif 'i' in e:
                k = self.read(st, ((fr.id, e['i']), ()))
                loc = (loc[0], loc[1] + (('x', k),))
            elif 'ci' in e:
                if e['fe']:
                    base = self.read(st, loc)
                    k = add(seq_len(base), I(-e['ci']))
                else: k = I(e['ci'])
                loc = (loc[0], loc[1] + (('x', k),))
            elif 'd' in e: var = e['d']
            else: raise Unsupported('proj %s' % e)
        return loc

    def typed(self, v, ty):
        if isinstance(v, T) and ty is not None:
            n = self.int_name(ty)
            if n and v.ty is None: v.ty = n
        return v

    def const(self, fr, st, k):
        c = k['c']
        if c == 'int':
            ty = self.tk(k['t'])
            if ty['k'] == 'bool': return B(int(k['v']))
            if ty['k'] == 'char': return S(chr(int(k['v'])))
            return I(int(k['v']))
        if c == 'str': return S(k['v'])
        if c == 'fn': return ('fn', k)  if False else ('fn', self.fnkey(k['f']))
        if c == 'bytes': return t('bytes', bytes(k['v']))
        if c == 'static': return self.global_ref(st, k['def'])
        if c == 'other':
            if k.get('prom') is not None: return self.global_val(st, '%s#prom%s' % (k['def'], k['prom']))
            if k.get('def') in self.p.bodies: return self.global_val(st, k['def'])
            ty = self.tk(k['t'])
            if ty['k'] == 'tuple' and not ty.get('a'): return UNIT
            if ty['k'] == 'closure': return ('clo', ty['p'], ())
            if ty['k'] == 'fndef': return ('fn', self.fnkey(ty['f']))
            if ty['k'] == 'adt' and k.get('z'):
                return ('adt', ty['p'], 0, ())
            return t('const', str(k.get('def')), self.p.types[k['t']]['s'])
        raise Unsupported('const ' + c)
    def fnkey(self, f):
        if not hasattr(self.p, 'fnrefs'): self.p.fnrefs = {}; self.p.fnids = {}
        import json
        s = json.dumps(f, sort_keys=True)
        if s not in self.p.fnids:
            self.p.fnids[s] = len(self.p.fnids); self.p.fnrefs[self.p.fnids[s]] = f
        return self.p.fnids[s]

    def global_val(self, st, bid):
        c = ('g', bid)
        if c in self.const_cache:
            v, cells = self.const_cache[c]
            for a, x in cells.items(): st.mem.setdefault(a, x)
            return v
        b = self.p.bodies.get(bid)
        if b is None: return t('const', bid)
        s0 = St()
        outs = self.exec_body(b, [], s0, ('g', bid), keep=True)
        outs = [o for o in outs if o[0] == 'ret']
        if len(outs) != 1: v, cells = t('const', bid), {}
        else:
            v = outs[0][1]; cells = {a: x for a, x in outs[0][2].mem.items()}
        self.const_cache[c] = (v, cells)
        for a, x in cells.items(): st.mem.setdefault(a, x)
        return v
    def global_ref(self, st, bid):
        c = ('static', bid)
        if c not in st.mem: st.mem[c] = self.global_val(st, bid)
        return ('ref', c, ())

    def operand(self, fr, st, o):
        if 'k' in o: return self.const(fr, st, o['k'])
        mv = 'mv' in o
        p = o['mv'] if mv else o['cp']
        loc = self.resolve(fr, st, p)
        v = self.read(st, loc)
        v = self.typed(v, self.place_ty(fr.b, p))
        if mv and not p['p'] and not isinstance(v, T) : 
            if isinstance(v, tuple) and v[0] in ('guard', 'adt', 'tup', 'clo', 'it', 'upd', 'seq', 'map'):
                st.mem[loc[0]] = MOVED
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dst_ty, sp):
        k = r['r']
        if k == 'use': return self.operand(fr, st, r['o'])
        if k == 'ref':
            p = r['p']
            loc = self.resolve(fr, st, p)
            ty = self.tk(self.place_ty(fr.b, p))
            if ty and ty['k'] == 'str':
                v = self.read(st, loc)
                return self.deref(st, v)
            return ('ref', loc[0], loc[1])
        if k == 'agg':
            fs = tuple(self.operand(fr, st, x) for x in r['f'])
            if r['k'] == 'tuple': return ('tup', fs)
            if r['k'] == 'array': return ('seq', tuple(('one', x) for x in fs))
            if r['k'] == 'closure': return ('clo', r['p'], fs)
            if r['k'] == 'adt': return ('adt', r['p'], r['v'], fs)
            raise Unsupported('agg ' + r['k'])
        if k == 'discr':
            v = self.read(st, self.resolve(fr, st, r['p']))
            return self.discr(st, v, self.place_ty(fr.b, r['p']))
        if k == 'cast':
            v = self.operand(fr, st, r['o'])
            return self.cast(st, v, r['k'], r['t'], self.operand_ty(fr, r['o']), sp)
        if k == 'bin':
            a = self.operand(fr, st, r['a']); c = self.operand(fr, st, r['b'])
            return self.binop(st, r['op'], a, c, self.operand_ty(fr, r['a']), sp)
        if k == 'un':
            a = self.operand(fr, st, r['o'])
            if r['op'] == 'Not':
                if self.int_name(self.operand_ty(fr, r['o'])) == 'bool': return neg(self.asbool(a))
                return unk('bitnot', a)
            if r['op'] == 'Neg': return self.neg_int(a, self.operand_ty(fr, r['o']))
            if r['op'] == 'PtrMetadata': return self.length(st, a)
            raise Unsupported('un ' + r['op'])
        if k == 'repeat':
            v = self.operand(fr, st, r['o'])
            n = int(r.get('n', -1)) if str(r.get('n', '')).isdigit() else None
            if n is not None and n <= 512: return ('seq', tuple(('one', v) for _ in range(n)))
            return t('repeat', v)
        if k == 'len':
            return self.length(st, self.read(st, self.resolve(fr, st, r['p'])))
        raise Unsupported('rvalue ' + k)
    def asbool(self, v):
        if isinstance(v, tuple) and v[0] == 'i' and not v[2]: return B(v[1])
        return v
    def operand_ty(self, fr, o):
        if 'k' in o: return o['k']['t']
        return self.place_ty(fr.b, o.get('mv') or o.get('cp'))
    def length(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, tuple) and v[0] == 's': return str_len(v)
        return seq_len(v)

    def adt_of(self, ty):
        T_ = self.tk(ty)
        while T_ and T_['k'] in ('ref',): T_ = self.tk(T_['t'])
        if T_ and T_['k'] == 'adt': return T_['p']
        return None
    def discr(self, st, v, ty=None):
        if isinstance(v, tuple) and v[0] == 'adt':
            if v[1] == ORD: return I(v[2] - 1)
            a = self.p.adts.get(v[1])
            if a and a['kind'] == 'enum': return I(int(a['v'][v[2]]['d']))
            return I(v[2])
        if isinstance(v, tuple) and v[0] == 'upd':
            return self.discr(st, v[1], ty)
        if isinstance(v, T) and v.op == 'f' and listed_original(v) is not None: return I(1)
        if isinstance(v, T):
            x = t('discr', v)
            if x.adt is None:
                p = self.adt_of(ty) if ty is not None else None
                a = self.p.adts.get(p) if p else None
                if a:
                    ds = [int(q['d']) for q in a['v']] if p != ORD else [-1, 1]
                    x.adt = (min(ds), max(ds))
            return x
        return unk('discr', v)

    def cast(self, st, v, kind, ty, from_ty=None, sp=''):
        dn = self.int_name(ty)
        if kind.startswith('IntToInt') or kind == 'IntToInt':
            fn_ = self.int_name(from_ty)
            if isinstance(v, tuple) and v[0] == 'bv': return self.m.bv_cast(v, fn_, dn)
            if dn == 'char':
                c = const_int(v)
                if c is not None: return S(chr(c))
                return t('chr', v)
            if fn_ == 'char':
                s = lit(v)
                if s is not None and len(s) == 1: return I(ord(s))
                return t('ord', v, ty=dn)
            if fn_ == 'bool':
                r = st.facts.ev(v)
                if r is not None: return I(int(r))
                return t('b2i', v, ty=dn)
            c = const_int(v)
            if c is not None and dn in RANGE:
                lo, hi = RANGE[dn]
                if not (lo <= c <= hi):
                    m = hi - lo + 1
                    return I((c - lo) % m + lo)
            if dn in NARROW and c is None and lin(v) is not None:
                lo, hi = RANGE[dn]
                if fn_ in RANGE and lo <= RANGE[fn_][0] and RANGE[fn_][1] <= hi: return v
                l, h = int_range(st.facts, v)
                if l is None or h is None or l < lo or h > hi:
                    self.note_arith(st, 'Cast', v, I(0), v, dn, sp)
                    return t('wrap', dn, v, ty=dn)
            return v
        return v  # pointer / unsize / float casts: value-preserving for our purposes

    def neg_int(self, a, ty):
        if isinstance(a, tuple) and a[0] == 'bv': return self.m.bv_neg(a, self.int_name(ty))
        return scale(a, -1)

    def note_arith(self, st, op, a, b, r, iname, sp):
        """every evaluation of an arithmetic operation that can overflow: site -> operand and result numbers with the facts"""
        l = self.arith.setdefault((sp, op, iname), {}).setdefault((a, b, r), [])
        if len(l) < 6: l.append((st.facts, st.trail))
    def binop(self, st, op, a, b, ty, sp):
        a = self.deref(st, a); b = self.deref(st, b)
        ov = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        iname = self.int_name(ty)
        if (isinstance(a, tuple) and a[0] == 'bv') or (isinstance(b, tuple) and b[0] == 'bv'):
            r = self.m.bv_bin(self, base, a, b, iname, sp, ov)
            if ov: return ('tup', r)
            return r[0] if isinstance(r, tuple) and len(r) == 2 and base in ('Add', 'Sub', 'Mul') and isinstance(r[1], tuple) else r
        r = self.binop0(st, base, a, b, iname)
        if ov or base == 'Shl': self.note_arith(st, base, a, b, r, iname, sp)
        if ov:
            l = lin(r) if base == 'Sub' and iname in ('usize', 'u64', 'u32', 'u16', 'u8') else None
            if l is not None:      # below zero: decided for lengths of known things, otherwise only when certain
                c = lt0(r)
                if len(l[1]) == 1 and l[0] < 0 and all(n == 1 and x.op in ('len', 'maplen') and not any(y.op in ('phi', 'k', 'comp') for y in terms_in(x)) for x, n in l[1].items()): return ('tup', (r, c))
                if st.facts.ev(c) is True: return ('tup', (r, TRUE))
            return ('tup', (r, FALSE))
        return r
    def binop0(self, st, op, a, b, iname):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if iname == 'bool':
                c = self.bool_eq(a, b) if op in ('Eq', 'Ne') else unk('boolcmp', a, b)
                return neg(c) if op == 'Ne' else c
            if iname == 'char':
                a = a if is_str(a) else a; 
                if op in ('Eq', 'Ne'):
                    c = self.streq(a, b); return neg(c) if op == 'Ne' else c
                x, y = self.cast(st, a, 'IntToInt', None, None), b
                la, lb = lit(a), lit(b)
                a = I(ord(la)) if la else t('ord', a, ty='u32'); b = I(ord(lb)) if lb else t('ord', b, ty='u32')
            if not (is_int(a) or (isinstance(a, tuple) and a[0] == 'b')) or not (is_int(b) or (isinstance(b, tuple) and b[0] == 'b')):
                return unk('cmp', op, a, b)
            if op == 'Eq': return ieq(a, b)
            if op == 'Ne': return neg(ieq(a, b))
            if op == 'Lt': return ilt(a, b)
            if op == 'Ge': return neg(ilt(a, b))
            if op == 'Gt': return ilt(b, a)
            if op == 'Le': return neg(ilt(b, a))
        if iname == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
            ra, rb = st.facts.ev(a), st.facts.ev(b)
            if op == 'BitAnd':
                if ra is False or rb is False: return FALSE
                if ra is True: return b
                if rb is True: return a
                return ('and', a, b)
            if op == 'BitOr':
                if ra is True or rb is True: return TRUE
                if ra is False: return b
                if rb is False: return a
                return ('or', a, b)
            if ra is not None and rb is not None: return B(ra != rb)
            return t('xor', a, b)
        ca, cb = const_int(a), const_int(b)
        if op == 'Add': return add(a, b) if lin(a) and lin(b) else unk('add', a, b)
        if op == 'Sub': return sub(a, b) if lin(a) and lin(b) else unk('sub', a, b)
        if op == 'Mul':
            if cb is not None and lin(a): return scale(a, cb)
            if ca is not None and lin(b): return scale(b, ca)
            return t('mul', *sorted((a, b), key=repr))
        if ca is not None and cb is not None:
            try:
                if op == 'Div': return I(int(ca / cb) if ca * cb < 0 else ca // cb)
                if op == 'Rem': return I(ca - cb * (int(ca / cb) if ca * cb < 0 else ca // cb))
                if op == 'BitAnd': return I(ca & cb)
                if op == 'BitOr': return I(ca | cb)
                if op == 'BitXor': return I(ca ^ cb)
                if op == 'Shl': return I(ca << cb)
                if op == 'Shr': return I(ca >> cb)
            except Exception: pass
        if op in ('Div', 'Shr') and cb is not None and lin(a):
            return t('div' if op == 'Div' else 'shr', a, b, ty=iname)
        if op == 'Shl' and cb is not None and 0 <= cb < 40 and lin(a): return scale(a, 1 << cb)
        if op in ('Cmp',):
            return t('cmp3', a, b)
        return t('bin', op, a, b, ty=iname)
    def bool_eq(self, a, b):
        if isinstance(a, tuple) and a[0] == 'b': return b if a[1] else neg(b)
        if isinstance(b, tuple) and b[0] == 'b': return a if b[1] else neg(a)
        return TRUE if a == b else unk('booleq', a, b)
    def streq(self, a, b):
        """condition: string-like a == b"""
        la, lb = lit(a), lit(b)
        if la is not None and lb is not None: return B(la == lb)
        if a == b: return TRUE
        # strip common literal prefix/suffix is left alone: keep one atom per pair
        return eq0(self.scmp(a, b))
    def scmp(self, a, b):
        """affine value whose sign orders strings a,b (antisymmetric)"""
        la, lb = lit(a), lit(b)
        if la is not None and lb is not None: return I((la > lb) - (la < lb))
        if a == b: return I(0)
        if la == '': return scale(str_len(b), -1)
        if lb == '': return str_len(a)
        ka, kb = show(a), show(b)
        ka, kb = (ka, repr(a)), (kb, repr(b))
        if ka <= kb: return t('scmp', a, b, ty='cmp3')
        return scale(t('scmp', b, a, ty='cmp3'), -1)

    # ------------------------------------------------------------ forking
    def split(self, st, c, sp=''):
        """-> [(truth, state)]"""
        c = self.asbool(c)
        if isinstance(c, tuple) and c[0] == 'i': c = neg(eq0(c))
        r = st.facts.ev(c)
        if r is not None: return [(r, st)]
        out = []
        for truth in (True, False):
            f = st.facts.assume(c, truth)
            if f is None: continue
            s = st.copy(); s.facts = f; s.trail = s.trail + ((c, truth, sp),)
            out.append((truth, s))
        return out
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps: raise Budget('steps')
        if self.deadline and self.steps % 512 == 0:
            import time
            if time.time() > self.deadline: raise Budget('time')

    def opt_split(self, st, v, sp='', ty=None):
        """-> [(payload or None, state)] for an Option value"""
        if isinstance(v, tuple) and v[0] == 'adt':
            return [(v[3][0] if v[2] == 1 else None, st)]
        base = v[1] if isinstance(v, tuple) and v[0] == 'upd' else v
        if not isinstance(base, T): 
            base = unk('opt', v); v = base
        if base.op == 'f' and listed_original(base) is not None: return [(fld(v, 0, 1), st)]
        d = t('discr', base); d.adt = d.adt or (0, 1)
        out = []
        for tr, s in self.split(st, eq0(d), sp):
            out.append((None if tr else fld(v, 0, 1), s))
        return out
    def res_split(self, st, v, sp=''):
        """-> [(is_ok, payload, state)]"""
        if isinstance(v, tuple) and v[0] == 'adt': return [(v[2] == 0, v[3][0], st)]
        if not isinstance(v, T): v = unk('res', v)
        d = t('discr', v); d.adt = d.adt or (0, 1)
        return [(tr, fld(v, 0, 0 if tr else 1), s) for tr, s in self.split(st, eq0(d), sp)]
    def cmp_split(self, st, a, b, sp=''):
        """three-way: [(-1|0|1, state)] on ints/strings"""
        d = a if b is None else sub(a, b)
        out = []
        for tr, s in self.split(st, eq0(d), sp):
            if tr: out.append((0, s)); continue
            for t2, s2 in self.split(s, lt0(d), sp): out.append((-1 if t2 else 1, s2))
        return out
    def order(self, st, a, b, ty=None):
        """value whose sign orders a,b, or None when not understood"""
        a = self.deref(st, a); b = self.deref(st, b)
        k = self.tk(ty) if ty is not None else None
        while k and k['k'] == 'ref': k = self.tk(k['t'])
        stringy = (isinstance(a, tuple) and a[0] == 's') or (isinstance(b, tuple) and b[0] == 's') or \
            (k and (k['k'] in ('str', 'char') or (k['k'] == 'adt' and k['p'] == 'alloc::string::String')))
        if stringy: return self.scmp(a, b)
        inty = (isinstance(a, tuple) and a[0] == 'i') or (isinstance(b, tuple) and b[0] == 'i') or \
            (k and k['k'] in ('int',)) or (isinstance(a, T) and a.ty) or (isinstance(b, T) and b.ty)
        if inty and lin(a) and lin(b): return sub(a, b)
        return None
    def eq_split(self, st, a, b, ty=None, sp=''):
        """-> [(bool, state)] structural equality"""
        a = self.deref(st, a); b = self.deref(st, b)
        if a == b and not has_unknown(a): return [(True, st)]
        k = self.tk(ty) if ty is not None else None
        while k and k['k'] == 'ref': ty = k['t']; k = self.tk(ty)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'adt':
            if a[2] != b[2]: return [(False, st)]
            tys = [None] * len(a[3])
            ad = self.p.adts.get(a[1])
            if a[1] == OPT and k and k['k'] == 'adt' and k.get('a') and len(a[3]) == 1: tys = [k['a'][0]]
            elif ad and ad.get('local') and len(ad['v'][a[2]]['f']) == len(a[3]): tys = [q['t'] for q in ad['v'][a[2]]['f']]
            return self.eq_all(st, list(zip(a[3], b[3], tys)), sp)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'tup':
            tys = k['a'] if k and k['k'] == 'tuple' and len(k['a']) == len(a[1]) else [None] * len(a[1])
            return self.eq_all(st, list(zip(a[1], b[1], tys)), sp)
        if isinstance(a, tuple) and a[0] == 'b' or isinstance(b, tuple) and b[0] == 'b':
            return self.split(st, self.bool_eq(a, b), sp)
        path = k['p'] if k and k['k'] == 'adt' else None
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == 'adt': path = x[1]
        if path == OPT:
            sub_ty = k['a'][0] if k and k['k'] == 'adt' and k.get('a') else None
            out = []
            for pa, s in self.opt_split(st, a, sp):
                for pb, s2 in self.opt_split(s, b, sp):
                    if (pa is None) != (pb is None): out.append((False, s2))
                    elif pa is None: out.append((True, s2))
                    else: out += self.eq_split(s2, pa, pb, sub_ty, sp)
            return out
        o = self.order(st, a, b, ty)
        if o is not None: return self.split(st, eq0(o), sp)
        if path:
            ad = self.p.adts.get(path)
            if ad and ad['kind'] == 'enum' and all(not v['f'] for v in ad['v']):
                da, db = self.discr(st, a), self.discr(st, b)
                ds = [int(q['d']) for q in ad['v']]
                for x in (da, db):
                    if isinstance(x, T) and x.adt is None: x.adt = (min(ds), max(ds))
                return self.split(st, ieq(da, db), sp)
            if ad and ad['kind'] == 'struct' and ad.get('local'):
                n = len(ad['v'][0]['f'])
                prs = []
                for i in range(n):
                    prs.append((fld(a, i), fld(b, i), ad['v'][0]['f'][i]['t']))
                return self.eq_all(st, prs, sp)
        ka, kb = sorted((a, b), key=lambda v: (show(v), repr(v)))
        return self.split(st, t('eqv', ka, kb), sp)
    def eq_all(self, st, prs, sp):
        cur = [st]; out = []
        for pr in prs:
            nxt = []
            for s in cur:
                for r, s2 in self.eq_split(s, pr[0], pr[1], pr[2] if len(pr) > 2 else None, sp):
                    if r: nxt.append(s2)
                    else: out.append((False, s2))
            cur = nxt
        return out + [(True, s) for s in cur]

    # ------------------------------------------------------------ guards
    def acquire(self, st, loc, kind, sp):
        """RefCell/Mutex borrow; -> (guard value) or None on conflict"""
        for gid, (k, l) in st.guards.items():
            if l == loc and (k == 'w' or kind == 'w'): return None
        st.n += 1
        gid = ('gd', len(self.stack), st.n)
        st.guards[gid] = (kind, loc)
        return ('guard', gid, kind, ('ref', loc[0], loc[1]))
    def release_in(self, st, v, d=0):
        if d > 8 or not isinstance(v, tuple): return
        if v and v[0] == 'guard': st.guards.pop(v[1], None); return
        if v and v[0] in ('ref', 'i', 's', 'fn', 'b'): return
        for x in v:
            if isinstance(x, tuple): self.release_in(st, x, d + 1)

    # ------------------------------------------------------------ bodies
    def exec_body(self, b, args, st, site, keep=False):
        self.calls += 1
        self.seen_bodies.add(b['id'])
        depth = sum(1 for f in self.stack if f.name == b['id'])
        if depth >= (6 if SMALL else 2) or len(self.stack) > 60: raise Unsupported('recursion ' + b['id'])
        parent = self.stack[-1].id if self.stack else 'root'
        fid = self.frame_id(parent, b['id'], site, len(self.stack))
        fr = Frame(fid, b, site)
        for i, a in enumerate(args):
            ty = b['locals'][i + 1]['t']
            st.mem[(fid, i + 1)] = self.typed(a, ty)
        self.stack.append(fr)
        try:
            outs = self.run(fr, [(0, st)], None, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o[0] == 'ret':
                s = o[2]
                if not keep:
                    for c in [c for c in s.mem if c[0] == fid and isinstance(c, tuple) and len(c) == 2]: del s.mem[c]
                res.append(o)
            elif o[0] == 'panic':
                s = o[2]
                res.append(o)
            else: raise Unsupported('outcome ' + str(o[0]))
        if len(res) > self.max_paths: raise Budget('paths %d in %s' % (len(res), b['id']))
        return res
    def frame_id(self, parent, bid, site, depth):
        if not hasattr(self, '_fids'): self._fids = {}
        k = (parent, bid, site)
        if k not in self._fids: self._fids[k] = 'F%d' % len(self._fids)
        return self._fids[k]

    def run(self, fr, work, region, header):
        """explore from work items; region/header bound a loop body.
        -> outcomes ret/panic/('back',st)/('exit',block,st)"""
        out = []; b = fr.b; blocks = b['blocks']; loops = self.p.loops(b)
        stack = [(x, s, True) for x, s in work]
        while stack:
            bi, st, first = stack.pop()
            if region is not None:
                if bi == header and not first: out.append(('back', st)); continue
                if bi not in region: out.append(('exit', bi, st)); continue
            if bi in loops and not (bi == header and first):
                for o in self.run_loop(fr, bi, loops[bi], st):
                    if o[0] == 'exit': stack.append((o[1], o[2], False))
                    else: out.append(o)
                continue
            for o in self.exec_block(fr, blocks[bi], st):
                if o[0] == 'goto': stack.append((o[1], o[2], False))
                else: out.append(o)
            if len(stack) + len(out) > self.max_paths: raise Budget('paths in ' + b['id'])
        return out

    def run_loop(self, fr, h, blocks, st):
        key = ('L', fr.id, h)
        def body(s):
            return self.run(fr, [(h, s)], blocks, h)
        te = fr.b['blocks'][h]['te']
        return self.fix(key, st, body, fr.name + '@' + str(te.get('sp', '')))

    # ------------------------------------------------------------ loops
    def fix(self, key, st, body, where, maxunroll=130):
        """execute a loop given by body(state)->outcomes from the header.
        -> outcomes with 'back' removed"""
        # 1. unroll while nothing is undecided
        cur = st; conc = False
        for _ in range(maxunroll):
            s = cur.copy(); tl = len(s.trail)
            outs = body(s)
            if len(outs) == 1 and len(outs[0][-1].trail) == tl and not any(e[0] == 'loop' for e in outs[0][-1].events[len(s.events):]):
                o = outs[0]
                if o[0] == 'back':
                    if _ > 4 and len(o[1].events) == len(cur.events) and o[1].mem == cur.mem:      # nothing changed: nothing ever will
                        self.diverges.add(where); return [('panic', ('never ends', None, where), o[1])]
                    cur = o[1]; continue
                self.loops_done.add(where); return [o]
            break
        else: conc = True; cur = st
        n = getattr(self, 'unroll', 0) or (8 if SMALL else 0)
        if n and not conc:       # few iterations whatever the input: follow every way through them
            work, fin = [cur], []
            for _ in range(n):
                nxt = []
                for w in work:
                    for o in body(w.copy()): (nxt if o[0] == 'back' else fin).append(o[1] if o[0] == 'back' else o)
                work = nxt
                if not work or len(work) + len(fin) > (400 if SMALL else 60): break
            if not work: self.loops_done.add(where); return fin
        st0 = st
        st = st.copy()
        vis = st.visits.get(key, 0)
        st.visits[key] = vis + 1
        changed = {}    # (cell, proj) -> phi
        incs = {}
        kap = t('k', key, vis, ty='usize')
        rec = None
        for rnd in range(16):
            Sh = st.copy()
            # place outer locations first so that nested ones refine
            for (cell, proj) in sorted(changed, key=lambda cp: (repr(cp[0]), len(cp[1]), repr(cp[1]))):
                self.write(Sh, (cell, proj), changed[(cell, proj)])
            bad = set(x for x in changed.values() if isinstance(x, T)) | {kap}
            Sh.facts = Sh.facts.drop_terms(bad)
            for (cell, proj), ph in changed.items():
                lo = incs.get((cell, proj))
                if isinstance(ph, T) and lo == 'inc':
                    init = self.read(st, (cell, proj))
                    f = Sh.facts.assume(ilt(ph, init), False)
                    if f: Sh.facts = f
            hdr = Sh.copy()
            outs = body(Sh)
            backs = [o[1] for o in outs if o[0] == 'back']
            new = {}
            for bk in backs:
                for cell, v in hdr.mem.items():
                    if cell in bk.mem:
                        w = bk.mem[cell]
                        if w is not v and w != v: self.diff(v, w, cell, (), new, changed)
                    # cell vanished: scoped out before the back edge
            add_ = {}
            for cp in new:
                cell, proj = cp
                # drop inner locations subsumed
                init = self.read(st, cp)
                add_[cp] = init
            if not add_:
                # counters: same constant step on every back edge
                again = False
                for cp, ph in list(changed.items()):
                    if not isinstance(ph, T) or ph.op != 'phi': continue
                    init = ph.args[3]
                    if isinstance(init, tuple) and init[0] == 's' and backs:
                        tails = set()
                        for bk in backs:
                            ps = parts(self.read(bk, cp))
                            tails.add(ps[1] if len(ps) == 2 and ps[0] is ph and isinstance(ps[1], str) else None)
                        if len(tails) == 1 and None not in tails:
                            changed[cp] = concat(init, rep(list(tails)[0], kap)); again = True
                            continue
                    if not is_int(init) : continue
                    ds = set()
                    for bk in backs:
                        d = sub(self.read(bk, cp), ph) if is_int(self.read(bk, cp)) else None
                        ds.add(const_int(d) if d is not None else None)
                    if len(ds) == 1 and None not in ds and backs and list(ds)[0] != 0:
                        changed[cp] = add(init, scale(kap, list(ds)[0])); again = True
                    elif None not in ds and backs and all(d >= 0 for d in ds) and incs.get(cp) is None:
                        incs[cp] = 'inc'; again = True
                if again: continue
                # a remembered value of the previous round: the first round has none, every later one that of the round before
                lag = {}
                for cp, ph in changed.items():
                    vs = [self.read(bk, cp) for bk in backs]
                    v = vs[0] if vs else None
                    if not (isinstance(ph, T) and ph.op == 'phi' and isinstance(v, tuple) and v and v[0] == 'adt' and v[1] == OPT): continue
                    if any(w != v for w in vs) or any(x in bad and x is not kap for x in terms_in(v)): continue
                    if any(c not in hdr.mem or any(c == c2 for c2, _ in changed) for c in ref_cells(v)): continue
                    lag[cp] = v
                if lag:
                    o2 = []
                    for first in (True, False):
                        S2 = Sh.copy(); f = S2.facts.assume(eq0(kap), first)
                        if f is None: continue
                        S2.facts = f; S2.trail = S2.trail + ((eq0(kap), first, ''),)
                        for cp, v in lag.items(): self.write(S2, cp, self.read(st, cp) if first else subst(v, {kap: add(kap, I(-1))}))
                        o2 += body(S2)
                    outs = o2; backs = [o[1] for o in outs if o[0] == 'back']
                rec = LoopRec((key, vis)); rec.where = where; rec.kappa = kap
                for cp, ph in changed.items():
                    rec.phis[cp] = (ph, self.read(st, cp))
                    if isinstance(ph, T): self.phi_rec[ph] = rec; self.phi_all.setdefault(ph, []).append(rec)
                n0 = len(hdr.trail); e0 = len(hdr.events)
                rec.hdr = hdr
                for bk in backs:
                    nx = {}
                    for cp, ph in changed.items():
                        nx[cp] = self.read(bk, cp)
                    rec.backs.append({'trail': bk.trail[n0:], 'events': bk.events[e0:], 'next': nx, 'st': bk})
                # a loop over a handful of known elements is simply unrolled
                from .loops import rec_range
                nr = rec_range(rec); nr = const_int(nr) if nr is not None else None
                if nr is not None and nr <= 6:
                    work, fin = [st0], []
                    for _ in range(nr + 1):
                        nxt = []
                        for w in work:
                            for o in body(w.copy()): (nxt if o[0] == 'back' else fin).append(o[1] if o[0] == 'back' else o)
                        work = nxt
                        if not work or len(work) + len(fin) > 200: break
                    if not work: self.loops_done.add(where); return fin
                self.recs[kap] = rec
                res = []
                for o in outs:
                    if o[0] == 'back': continue
                    s = o[-1]
                    s.events = hdr.events[:e0] + (('loop', rec),) + s.events[e0:]
                    self.last_step(st, rec, s, n0, kap)
                    rec.exits.append({'kind': o[0], 'trail': s.trail[n0:], 'st': s, 'o': o})
                    res.append(o)
                if not res and backs:       # no way out
                    if conc: self.diverges.add(where)
                    return [('panic', ('never ends', None, where), backs[0])]
                if conc: raise Budget('unroll ' + where)
                return res
            # widen
            for cp, init in add_.items():
                cell, proj = cp
                for cp2 in [c for c in changed if c[0] == cell and len(c[1]) > len(proj) and c[1][:len(proj)] == proj]:
                    del changed[cp2]
                if any(c[0] == cell and proj[:len(c[1])] == c[1] for c in changed): continue
                ph = t('phi', key, vis, (cell, proj), init if isinstance(init, (T, tuple)) else UNIT)
                if isinstance(init, T): ph.ty = ph.ty or init.ty
                changed[cp] = ph
        raise Budget('fixpoint ' + where)

    def last_step(self, st, rec, s, n0, kap):
        """unit-step loops guarded by a condition  c+κ < 0  (c invariant) that
        every iteration passed: leaving with c <= 0 at entry means c+κ == 0"""
        for c, truth, _ in s.trail[n0:]:
            x, tr = c, truth
            if isinstance(x, tuple) and x[0] == 'not': x, tr = x[1], not tr
            if tr or not (isinstance(x, tuple) and x[0] == 'cmp' and x[1] == 'lt'): continue
            l = lin(x[2])
            if l[1].get(kap) != 1: continue
            rest = mk(l[0], {a: n for a, n in l[1].items() if a is not kap})
            if any(y is kap or (y.op == 'phi' and y.args[:2] == (rec.key[0], rec.key[1])) for y in terms_in(rest)): continue
            if not rec.backs or not all(any((q == c and t2 == (not truth)) for q, t2, _ in b['trail']) for b in rec.backs): continue
            if s.facts.ev(ile(rest, I(0))) is True or st.facts.ev(ile(rest, I(0))) is True:
                f = s.facts.assume(eq0(x[2]), True)
                if f is not None: s.facts = f

    def counted_out(self, st):
        """last_step again for every loop passed, with what is known by now"""
        for e in st.events:
            if e[0] == 'loop' and getattr(e[1], 'kappa', None) is not None: self.last_step(st, e[1], st, 0, e[1].kappa)

    def diff(self, v, w, cell, proj, new, changed):
        """record the leaf locations where w differs from header value v"""
        if v == w: return
        if (cell, proj) in changed: return
        if isinstance(v, tuple) and isinstance(w, tuple) and v and w and v[0] == w[0]:
            if v[0] == 'adt' and v[1] == w[1] and v[2] == w[2] and len(v[3]) == len(w[3]):
                var = v[2] if v[1] in (OPT, RES) or self.is_enum(v[1]) else None
                for i, (a, c) in enumerate(zip(v[3], w[3])):
                    self.diff(a, c, cell, proj + (('f', i, var),), new, changed)
                return
            if v[0] == 'tup' and len(v[1]) == len(w[1]):
                for i, (a, c) in enumerate(zip(v[1], w[1])): self.diff(a, c, cell, proj + (('f', i, None),), new, changed)
                return
            if v[0] == 'clo' and v[1] == w[1] and len(v[2]) == len(w[2]):
                for i, (a, c) in enumerate(zip(v[2], w[2])): self.diff(a, c, cell, proj + (('f', i, None),), new, changed)
                return
            if v[0] == 'it' and v[1] == w[1] and len(v) == len(w):
                ok_ = True
                for i in range(2, len(v)):
                    if v[i] != w[i]: self.diff(v[i], w[i], cell, proj + (('it', i),), new, changed)
                return
        if isinstance(w, tuple) and w[0] == 'upd' or (isinstance(v, tuple) and v[0] == 'upd'):
            # component-wise when both share a base
            bv, ov = (v[1], dict(v[2])) if isinstance(v, tuple) and v[0] == 'upd' else (v, {})
            bw, ow = (w[1], dict(w[2])) if isinstance(w, tuple) and w[0] == 'upd' else (w, {})
            if bv == bw and all(k[0] == 'f' for k in list(ov) + list(ow)):
                for k in set(ov) | set(ow):
                    a = getkey(v, k); c = getkey(w, k)
                    self.diff(a, c, cell, proj + (k,), new, changed)
                return
        new[(cell, proj)] = True
    def is_enum(self, p):
        a = self.p.adts.get(p)
        return bool(a and a['kind'] == 'enum')

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, blk, st):
        self.tick()
        st = st.copy()
        for s in blk['st']:
            k = s['s']
            if k == '=':
                p = s['p']
                v = self.rvalue(fr, st, s['r'], None, s.get('sp', ''))
                if not p['p']:
                    v = self.typed(v, fr.b['locals'][p['l']]['t'])
                    st.mem[(fr.id, p['l'])] = v
                else:
                    self.write(st, self.resolve(fr, st, p), v)
            elif k == 'dead':
                st.mem.pop((fr.id, s['l']), None)
            elif k == 'live':
                st.mem.pop((fr.id, s['l']), None)
            elif k == 'setdiscr':
                raise Unsupported('setdiscr')
        return self.term(fr, st, blk['te'])

    def term(self, fr, st, te):
        k = te['t']; sp = te.get('sp', '')
        if k == 'goto': return [('goto', te['to'], st)]
        if k == 'ret':
            v = st.mem.get((fr.id, 0), UNIT)
            return [('ret', v, st)]
        if k == 'drop':
            loc = self.resolve(fr, st, te['p'])
            v = self.read(st, loc) if loc[0] in st.mem else None
            if v is not None: self.release_in(st, v)
            return [('goto', te['to'], st)]
        if k == 'assert':
            c = self.asbool(self.operand(fr, st, te['c']))
            out = []
            for tr, s in self.split(st, c, sp):
                if tr == te['e']: out.append(('goto', te['to'], s))
                else: out.append(PANIC(s, te['m'], None, (fr.name, sp)))
            return out
        if k == 'switch': return self.switch(fr, st, te)
        if k == 'unreachable': return []
        if k == 'resume': return []
        if k == 'call': return self.call(fr, st, te)
        raise Unsupported('term ' + k)

    def switch(self, fr, st, te):
        v = self.operand(fr, st, te['o']); sp = te.get('sp', '')
        nm = self.int_name(te['ty'])
        if nm == 'bool':
            tgt = {int(a): b for a, b in te['v']}
            out = []
            for tr, s in self.split(st, v, sp):
                b = tgt.get(int(tr), te.get('else'))
                if b is not None: out.append(('goto', b, s))
            return out
        out = []; cur = [st]
        for val, blk in te['v']:
            nxt = []
            for s in cur:
                if nm == 'char': c = self.streq(v, S(chr(int(val))))
                elif isinstance(v, tuple) and v[0] == 'bv': c = self.m.bv_eqc(v, int(val))
                else: c = ieq(v, I(self.signed(int(val), nm))) if is_int(v) else unk('switch', v, I(int(val)))
                for tr, s2 in self.split(s, c, sp):
                    if tr: out.append(('goto', blk, s2))
                    else: nxt.append(s2)
            cur = nxt
        if te.get('else') is not None:
            for s in cur: out.append(('goto', te['else'], s))
        return out
    def signed(self, v, nm):
        if nm in RANGE and RANGE[nm][0] < 0 and v > RANGE[nm][1]: return v - (RANGE[nm][1] - RANGE[nm][0] + 1)
        return v

    # ------------------------------------------------------------ calls
    def call(self, fr, st, te):
        sp = te.get('sp', '')
        f = te['f']
        args = [self.operand(fr, st, a) for a in te['a']]
        if 'k' in f and f['k']['c'] == 'fn': fref = f['k']['f']; fv = None
        else: fv = self.operand(fr, st, f); fref = None
        site = (sp, id(te) if False else self.te_id(fr, te))
        outs = self.dispatch(fref, fv, args, st, site, sp)
        res = []
        dty = self.place_ty(fr.b, te['d'])
        for o in outs:
            if o[0] == 'ret':
                if te.get('to') is None: continue
                s = o[2]; v = self.typed(o[1], dty)
                if not te['d']['p']: s.mem[(fr.id, te['d']['l'])] = v
                else: self.write(s, self.resolve(fr, s, te['d']), v)
                res.append(('goto', te['to'], s))
            else: res.append(o)
        return res
    def rec_of(self, st, ph):
        """the loop that ph comes from on this path (the same loop may run under different circumstances on another)"""
        def find(events):
            for e in reversed(events):
                if e[0] != 'loop': continue
                if any(y[0] is ph for y in e[1].phis.values()): return e[1]
                for b in e[1].backs:
                    r = find(b['events'])
                    if r is not None: return r
            return None
        if ph not in self.phi_rec: return None
        if len(self.phi_all.get(ph, ())) < 2: return self.phi_rec[ph]
        return find(st.events) or self.phi_rec[ph]
    def te_id(self, fr, te):
        if not hasattr(self.p, '_teids'): self.p._teids = {}
        return self.p._teids.setdefault(id(te), len(self.p._teids))

    def dispatch(self, fref, fv, args, st, site, sp):
        self.tick()
        if fref is None: return self.call_value(fv, args, st, site, sp)
        p = fref['p']; res = fref.get('res')
        tgt = res if (res in self.p.bodies) else (p if p in self.p.bodies else None)
        for name in (res, p):
            if name and name in self.spec_opaque:
                return list(self.spec_opaque[name](self, st, args, sp))
        if tgt and fref.get('name') in ('call', 'call_mut', 'call_once') and (fref.get('tr') or '').startswith('core::ops::function::Fn') and len(args) == 2 \
           and isinstance(args[1], tuple) and args[1][0] == 'tup':
            return self.call_value(args[0], list(args[1][1]), st, site, sp)
        if tgt:
            b = self.p.bodies[tgt]
            if tgt in self.opaque:
                return self.opaque_call(fref, tgt, args, st, sp)
            if b.get('trait', '').startswith('core::clone') and b.get('name') == 'clone' and (b.get('derived') or self.p.plain_clone(b['id'])):
                return [RET(self.deep(st, args[0]), st)]
            if b.get('derived') and 'PartialEq' in (b.get('trait') or '') or (b.get('derived') and b.get('name') in ('eq', 'ne')):
                return self.m.m_eq(self, st, args, fref, sp, b.get('name') == 'ne')
            return self.exec_body(b, args, st, site)
        key = self.m.key(self, fref)
        h = None
        for k in key:
            h = self.models.get(k)
            if h: break
        if h:
            r = h(self, st, args, fref, sp)
            if r is not None: return list(r)
        return self.opaque_call(fref, p, args, st, sp)

    def call_value(self, fv, args, st, site, sp):
        """call a callable value with an argument list"""
        base = fv; ref = None
        n = 0
        while isinstance(base, tuple) and base[0] in ('ref', 'guard') and n < 10:
            ref = base; base = self.read(st, self.loc_of(st, base)); n += 1
        if isinstance(base, tuple) and base[0] == 'fn':
            return self.dispatch(self.p.fnrefs[base[1]], None, args, st, site, sp)
        if isinstance(base, tuple) and base[0] == 'clo':
            b = self.p.bodies.get(base[1])
            if b is None: raise Unsupported('closure ' + base[1])
            sty = self.tk(b['locals'][1]['t'])
            if sty['k'] == 'ref':
                if ref is None: ref = self.tmp(st, base, 'clo')
                a0 = ref
            else: a0 = base
            return self.exec_body(b, [a0] + list(args), st, (site, 'clo'))
        if isinstance(base, tuple) and base[0] == 'pyfn':
            return list(base[1](self, st, args, sp))
        # unknown callable: user callback
        vals = tuple(self.deep(st, a) for a in args)
        st.ev(('callback', base, vals, sp))
        return [RET(t('cb', base, *vals), st)]

    def opaque_call(self, fref, name, args, st, sp):
        nm = self.m.clean(fref, name)
        vals = []
        muts = []
        pty = None
        for a in args:
            vals.append(self.deep(st, a))
        vt = tuple(vals)
        external_unknown = nm not in self.m.KNOWN_OPAQUE and name not in self.opaque
        if external_unknown: self.unknown_calls.setdefault(nm, sp); UNKNOWN.add(nm)
        else: self.opaque_used[nm] = self.opaque_used.get(nm, 0) + 1
        # by-mut-ref arguments are havocked unless the callee is known not to change them
        if nm not in self.m.NOMUT:
            mut = self.mut_params(fref, name)
            for i, a in enumerate(args):
                if (mut is None or (i < len(mut) and mut[i])) and isinstance(a, tuple) and a[0] in ('ref', 'guard') and (mut is not None):
                    loc = self.loc_of(st, a)
                    self.write(st, loc, t('after', nm, i, *vt))
        st.ev(('call', nm, vt, sp))
        r = t('call', nm, *vt)
        ix = self.p.index_of.get(name)
        if ix is not None:          # a position in a list or -1 (its own property)
            f = st.facts.assume(ilt(r, I(-1)), False)
            f = f and f.assume(ilt(r, seq_len(vals[ix])), True)
            if f is not None: st.facts = f
        if nm.split('::')[-1] in ('by_original_location', 'all_generated_locations_for') and name not in self.p.bodies:
            return [RET(self.m.own_it(r), st)]        # an iterator, not a list
        return [RET(r, st)]
    def mut_params(self, fref, name):
        b = self.p.bodies.get(name)
        if b is not None:
            out = []
            for i in range(b['argc']):
                ty = self.tk(b['locals'][i + 1]['t'])
                out.append(ty['k'] == 'ref' and bool(ty.get('m')))
            return out
        # signature of an external fn: parse the fn type text when present
        for ty in self.p.types:
            if ty['k'] == 'fndef' and ty['f']['p'] == fref['p'] and ty['f'].get('a') == fref.get('a'):
                return self.m.mut_from_sig(ty['s'])
        return None
