"""Whole-crate rules: effects, determinism, unsafe code, clones, integer width."""
import re
from .rules_e import *
from . import summ

# ---------------------------------------------------------------- walking the program
def own(b): return not b.get('derived')
def walk(x):
    """every dictionary in a piece of MIR"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict): yield y; st.extend(y.values())
        elif isinstance(y, list): st.extend(y)
def names_of(f): return [n for n in (f.get('p'), f.get('res')) if n]

# ---------------------------------------------------------------- integer width
LIM = 2**30 - 1
ATOMS = {'in', 'f', 'e', 'len', 'discr', 'call', 'get', 'maplen', 'ord', 'b2i', 'k', 'rep', 'after'}
def arange(I, facts, v, lim, busy=()):
    """range of a linear form, what it is made of being within [-lim, lim]; None: unbounded"""
    l = lin(v)
    if l is None: return None, None
    c, d = l; lo = hi = 0
    q = next((a for a in d if a.op == 'div' and (const_int(a.args[1]) or 0) > 0 and lin(a.args[0]) is not None), None)
    if q is not None:       # between the quotient being 0 and the exact quotient
        n0 = const_int(q.args[1]); v0 = sub(v, scale(q, d[q]))
        x = arange(I, facts, v0, lim, busy); y = arange(I, facts, add(scale(v0, n0), scale(q.args[0], d[q])), lim, busy)
        return (None if x[0] is None or y[0] is None else min(x[0], y[0] // n0 - abs(d[q]))), (None if x[1] is None or y[1] is None else max(x[1], y[1] // n0 + abs(d[q]) + 1))
    q = next((a for a in d if a.op == 'shr' and (const_int(a.args[1]) or 0) > 0 and lin(a.args[0]) is not None), None)
    if q is not None:       # the quotient rounded down
        n0 = 2 ** const_int(q.args[1]); v0 = sub(v, scale(q, d[q]))
        y = arange(I, facts, add(scale(v0, n0), scale(q.args[0], d[q])), lim, busy)
        return (None if y[0] is None else (y[0] - max(0, d[q]) * (n0 - 1)) // n0), (None if y[1] is None else -(-(y[1] + max(0, -d[q]) * (n0 - 1)) // n0))
    for a, n in d.items():
        al, ah = facts.atom_bound(a)
        if a.op in ATOMS:
            mn = -lim - 1 if lim == 2**31 - 1 else -lim
            al = mn if al is None else max(al, mn); ah = lim if ah is None else min(ah, lim)
        else:       # e.g. a running value: only what the path says about it
            w = RANGE.get(a.ty)
            if w and al == w[0] and w[0]: al = None
            if w and ah == w[1]: ah = None
            x = carried(I, a, lim, busy) if a.op == 'phi' else (None, None)
            if al is None or x[0] is not None and x[0] > al: al = x[0]
            if ah is None or x[1] is not None and x[1] < ah: ah = x[1]
        if n < 0: al, ah = ah, al
        lo = None if lo is None or al is None else lo + n * al
        hi = None if hi is None or ah is None else hi + n * ah
    if len(d) > 1:
        l2, h2 = facts.rel_bound(tuple(sorted(d.items(), key=lambda kv: kv[0].id)))
        if l2 is not None and (lo is None or l2 > lo): lo = l2
        if h2 is not None and (hi is None or h2 < hi): hi = h2
        for k, (kl, kh, _) in facts.iv.items():     # this form is a known form plus a remainder
            if len(k) < 2 or not any(a in d and a.op not in ATOMS for a, _ in k): continue
            for sg in (1, -1):
                r = dict(d)
                for a, n in k: r[a] = r.get(a, 0) - sg * n
                r = {a: n for a, n in r.items() if n}
                if len(r) >= len(d) or any(a.op not in ATOMS for a in r): continue
                l, h = arange(I, facts, V.mk(0, r), lim, busy) if r else (0, 0)
                x, y = (kl, kh) if sg == 1 else (None if kh is None else -kh, None if kl is None else -kl)
                if l is not None and x is not None and (lo is None or l + x > lo): lo = l + x
                if h is not None and y is not None and (hi is None or h + y < hi): hi = h + y
    return (None if lo is None else lo + c), (None if hi is None else hi + c)

def carried(I, ph, lim, busy):
    """range of a loop-carried number: what it starts with, what an iteration stores, and at most one step per iteration"""
    rec = I.phi_rec.get(ph)
    if rec is None or ph in busy or not rec.backs: return None, None
    cp = next((c for c, y in rec.phis.items() if y[0] is ph), None)
    if cp is None: return None, None
    rs = []; dn = up = 0
    def one(facts, v):
        nonlocal dn, up
        if v is ph: return
        l = lin(v) if is_int(v) else None
        if l is None: rs.append((None, None)); return
        if l[1].get(ph) == 1:
            r = arange(I, facts, sub(v, ph), lim, busy + (ph,))
            if r[0] is None or r[0] < -1: rs.append((None, 0))
            if r[1] is None or r[1] > 1: rs.append((0, None))
            if r[0] is not None and r[0] < 0: dn = 1
            if r[1] is not None and r[1] > 0: up = 1
            return
        rs.append(arange(I, facts, v, lim, busy + (ph,)))
    one(rec.hdr.facts, I.deep(rec.hdr, rec.phis[cp][1]))
    for b in rec.backs: one(b['st'].facts, I.deep(b['st'], b['next'][cp]))
    lo = None if any(r[0] is None for r in rs) else min([r[0] for r in rs] or [0])
    hi = None if any(r[1] is None for r in rs) else max([r[1] for r in rs] or [0])
    return (None if lo is None else lo - dn * lim), (None if hi is None else hi + up * lim)

def overflow(I, facts, op, a, b, r, iname, lim):
    """(ok True/False/None, range)"""
    if iname not in RANGE: return None, None
    w = RANGE[iname]
    if any(isinstance(x, tuple) and x and x[0] == 'bv' for x in (a, b, r)): return True, 'bits'      # A01 decides these
    if op == 'Mul' and const_int(a) is None and const_int(b) is None:
        x, y = arange(I, facts, a, lim), arange(I, facts, b, lim)
        if None in x + y: return None, None
        c = [p * q for p in x for q in y]; lo, hi = min(c), max(c)
    elif op == 'Shl':
        n = const_int(b); x = arange(I, facts, a, lim)
        if n is None or None in x: return None, None
        lo, hi = x[0] << n, x[1] << n
    else: lo, hi = arange(I, facts, r, lim)
    if w[0] == 0 and op != 'Cast': lo = 0 if lo is None or lo < 0 else lo      # below zero: the interpreter's own panic paths
    if lo is None or hi is None or (max(-lo, hi) >= 2 ** 63 and w[1] < 2 ** 60): return None, (lo, hi)      # no real bound
    return w[0] <= lo and hi <= w[1], (lo, hi)

def sites(p, ids):
    """span -> body of every checked arithmetic operation written in these bodies"""
    out = {}
    for bid in ids:
        for d in walk(p.bodies[bid].get('blocks', [])):
            if d.get('s') == '=' and isinstance(d.get('r'), dict) and d['r'].get('r') == 'bin' and (d['r']['op'].endswith('WithOverflow') or d['r']['op'] == 'Shl'): out.setdefault(d['sp'], bid)
            if d.get('t') == 'call' and any(re.search(r'<impl i\w+>::(wrapping|unchecked)_(add|sub|mul)$', f['p']) for f in fn_refs(d.get('f'))): out.setdefault(d['sp'], bid)
    return out

def counted(ctx, I, facts, vs):
    """a counter compared with != stays below a limit it starts below"""
    from .rules_j import ne_guard, nonneg
    out = None
    for v in vs:
        for k in terms_in(v) if isinstance(v, (T, tuple)) else ():
            rec = I.recs.get(k) if k.op == 'k' else None
            for n in ne_guard(rec) if rec else ():
                if not variant(rec, n) and nonneg(ctx, I, rec, n):
                    f = (out or facts).assume(ilt(k, n), True)
                    if f is not None: out = f
    return out
def judge(rep, rule, I, where, lim, only=None, ctx=None):
    """every recorded arithmetic operation of an interpreter run; returns sites judged"""
    seen = set()
    for (sp, op, iname), vals in I.arith.items():
        if only is not None and sp not in only and op != 'Cast': continue
        seen.add(sp); w = only.get(sp, where) if only else where; worst = True; det = ''
        tent = {k for k in vals if any(x.op == 'phi' and x not in I.phi_rec for v in k[:2] for x in (terms_in(v) if isinstance(v, (T, tuple)) else ()))}
        for (a, b, r), fs in vals.items():
            if (a, b, r) in tent and len(tent) < len(vals): continue      # seen while the loop was still being summarised
            for facts, trail in fs:
                ok_, rg = overflow(I, facts, op, a, b, r, iname, lim)
                s2 = St(); s2.trail = trail
                if ok_ is not True and ctx:
                    f2 = counted(ctx, I, facts, (a, b))
                    if f2 is not None: ok_, rg = overflow(I, f2, op, a, b, r, iname, lim)
                if ok_ is None and ctx and any(V.subst(a2, {k: V.I(c)}) == a and V.subst(b2, {k: V.I(c)}) == b for a2, b2, _ in vals if (a2, b2) != (a, b) for k in terms_in((a2, b2)) if k.op == 'k' and k in I.recs for c in range(4)): ok_ = True       # an iteration followed before the loop was summarised
                if ok_ is False and not trail_ok(I, s2): ok_ = None
                if ok_ is False: rep.bad(rule, w, {'operation': ('%s of %s and %s in %s' % (op, pretty(a), pretty(b), iname)) if op != 'Cast' else '%s converted to %s' % (pretty(a), iname), 'reaches': '%s..%s' % rg, 'path': trail_txt(s2, 4)}, sp)
                elif ok_ is None: worst = None; det = '%s of %s and %s: %s' % (op, pretty(a), pretty(b), rg)
        if worst is True: rep.ok(rule, w)
        else: rep.und(rule, w, det + ' at ' + sp)
    return seen

TODO = ['A01', 'B01', 'B02', 'B03', 'B04', 'C01', 'C02', 'C03', 'C05', 'C06', 'D01', 'D02', 'D03', 'D04', 'D05', 'D06', 'D07', 'E01', 'E02', 'E03', 'E04', 'E06', 'F01', 'F02', 'F03']
def g05(ctx, rep):
    """arithmetic of the whole crate on coordinates below 2^30"""
    from .rules import RULES as ALL
    for x in TODO:
        r2 = Rep(x); r2.guard('rule', x, lambda: ALL[x](ctx, r2))
    want = sites(ctx.p, [b for b, x in ctx.p.bodies.items() if own(x) and x['kind'] in ('fn', 'method', 'closure', 'assoc') and '#prom' not in b and not b.startswith('<source_map::_') and not b.startswith('source_map::_')])
    seen = set()
    for S in summ.RUNS:
        rep.fns |= S.seen_bodies
        seen |= judge(rep, 'width', S, S.top, LIM, want, ctx)
    for sp, b in want.items():
        if sp not in seen: rep.und('width', b, 'not reached: ' + sp)

# ---------------------------------------------------------------- effects and global state
EFFECT = [(r'^std::env::', 'reads the environment'), (r'^std::fs::', 'touches files'), (r'^std::net::', 'uses the network'),
          (r'^std::process::', 'acts on processes'), (r'^std::thread::(?!local)', 'acts on threads'), (r'^std::time::|::(Instant|SystemTime)::now$', 'reads the clock'),
          (r'^std::io::stdio::|^std::io::(stdin|stdout|stderr)', 'uses the standard streams'), (r'^std::os::|^std::sys::', 'calls the operating system'),
          (r'^std::thread::local::|LocalKey', 'keeps per-thread state'), (r'^std::panicking::(set_hook|take_hook|update_hook)|^std::panic::(set_hook|take_hook)', 'changes the panic hook'),
          (r'^std::alloc::set_', 'changes the allocator'), (r'^(rand|getrandom|libc|time|chrono|tokio|log|env_logger)[:_]', 'uses the system'),
          (r'RandomState|DefaultHasher>?::(new|default)$', None)]
CELLS = re.compile(r'\b(Mutex|RwLock|RefCell|Cell|UnsafeCell|SyncUnsafeCell|Atomic\w*|OnceCell|LocalKey)\b')
CELL_NEW = re.compile(r'(^|::|<)(Mutex|RwLock|RefCell|Cell|UnsafeCell|Atomic\w*|OnceCell)(::<[^>]*>)?(>)?::(new|default|from)$')
KNOWN_CRATES = ('alloc', 'core', 'std', 'lazy_static', 'regex', 'serde', 'serde_core', 'serde_json', 'source_map_mappings', 'url', 'rusty_source_map')
def reach(p, roots):
    """bodies reachable through calls, closures included"""
    seen = set(); todo = list(roots)
    while todo:
        b = todo.pop()
        if b in seen or b not in p.bodies: continue
        seen.add(b); todo += callees(p, b)
        todo += [d['p'] for d in walk(p.bodies[b].get('blocks', [])) if d.get('k') == 'closure' and isinstance(d.get('p'), str)]
        todo += [x for x in p.bodies if x.startswith(b + '::{closure')]
    return seen
def tys_in(ctx, i, out=None):
    """names of all types inside type i, through the fields of local types"""
    out = {} if out is None else out
    if i in out: return out
    k = ctx.p.types[i]; out[i] = k.get('s', '')
    for x in k.get('a', []) if isinstance(k.get('a'), list) else []: tys_in(ctx, x, out)
    if isinstance(k.get('t'), int): tys_in(ctx, k['t'], out)
    a = ctx.p.adts.get(k.get('p')) if k.get('k') == 'adt' else None
    if a and a.get('local'):
        for v in a['v']:
            for f in v['f']: tys_in(ctx, f['t'], out)
    return out

def g01(ctx, rep):
    """every function named in the crate, and every static"""
    p = ctx.p
    for bid, b in p.bodies.items():
        if not own(b): continue
        rep.fns.add(bid); bad = None; und_ = None
        for f in fn_refs(b.get('blocks', [])):
            for n in names_of(f):
                for rx, what in EFFECT:
                    if what and re.search(rx, n): bad = '%s (%s)' % (what, n)
            if f.get('kr') and not f.get('l') and f['kr'] not in KNOWN_CRATES: und_ = 'calls ' + f['p']
        for d in walk(b.get('blocks', [])):
            if d.get('c') == 'static':
                k = p.types[d['t']]
                if k['k'] == 'ptr' and k.get('m'): bad = 'uses the mutable static ' + d['def']
        if bad: rep.bad('effects', bid, bad, site_of(b))
        elif und_: rep.und('effects', bid, und_)
        else: rep.ok('effects', bid)
    lazies = [b for b in p.bodies if b.endswith('__static_ref_initialize')]
    n = 0
    for bid, b in p.bodies.items():
        if b['kind'] != 'static': continue
        n += 1
        ts = tys_in(ctx, b['locals'][0]['t'])
        c = sorted({m for s_ in ts.values() for m in CELLS.findall(s_)})
        if c: rep.bad('global-state', bid, {'type': p.types[b['locals'][0]['t']]['s'], 'got': 'a static holding ' + ', '.join(c)}); continue
        rep.ok('global-state', bid)
    # what a lazily built static captures
    R_ = reach(p, lazies + [b for b, x in p.bodies.items() if x['kind'] == 'static'])
    for bid in sorted(R_):
        b = p.bodies[bid]
        hit = [x for f in fn_refs(b.get('blocks', [])) for x in names_of(f) if CELL_NEW.search(x)]
        if hit: rep.bad('global-state', bid, 'builds %s for a static' % hit[0], site_of(b))
        else: rep.ok('global-state', bid)
def site_of(b):
    for d in walk(b.get('blocks', [])):
        if isinstance(d.get('sp'), str) and d['sp'].startswith('src/'): return d['sp']
    return ''

# ---------------------------------------------------------------- determinism
HASH_T = re.compile(r'hash_(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b|collections::hash::(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b')
INSENS = {'all', 'any', 'count', 'len', 'size_hint', 'sum', 'product', 'is_empty', 'min', 'max', 'eq', 'ne'}
LAZY = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'cloned', 'copied', 'chain', 'inspect', 'by_ref', 'into_iter', 'iter', 'keys', 'values', 'into_keys', 'into_values', 'drain', 'iter_mut', 'values_mut', 'fuse', 'peekable', 'clone', 'union', 'intersection', 'difference', 'symmetric_difference',
        'enumerate', 'zip', 'rev', 'skip', 'take', 'step_by', 'take_while', 'skip_while', 'map_while', 'scan', 'peek'}
UNORD = re.compile(r'^(std::collections::(hash::)?(Hash(Map|Set))|std::collections::(BTreeMap|BTreeSet|BinaryHeap)|alloc::collections::(btree|binary_heap))')
def sorts(b): return any(re.search(r'::(sort|sort_by|sort_by_key|sort_unstable\w*|sort_by_cached_key)$', n) for f in fn_refs(b.get('blocks', [])) for n in names_of(f))
def pushes(f):
    n = f.get('p', '')
    return bool(re.search(r'(vec::Vec|string::String|linked_list::LinkedList|vec_deque::VecDeque)(::)?<?.*::(push|push_str|push_back|push_front|insert|insert_str|append|extend|extend_from_slice)$', n)) or n.endswith('AddAssign::add_assign') or n.endswith('::ArraySet::add') or n.endswith('::MappingList::add')
def loop_of(p, b, bi):
    """blocks of the loop around the call to next() in block bi, entered anew at each into_iter"""
    bl = b['blocks']; ok_ = [i for i in range(len(bl))]
    ini = {i for i in ok_ if bl[i]['te'].get('t') == 'call' and any(f.get('name') == 'into_iter' for f in fn_refs(bl[i]['te'].get('f', {})))}
    def fwd(s):
        seen = set(); st = list(s)
        while st:
            x = st.pop()
            if x in seen or x in ini: continue
            seen.add(x); st += p.succs(bl[x]['te'])
        return seen
    F = fwd(p.succs(bl[bi]['te']))
    return {x for x in F if bi in fwd(p.succs(bl[x]['te']))} if bi in F else set()

def g02(ctx, rep):
    """every use of a hash table's own order, of addresses and of hash seeds"""
    order_rule(ctx, rep, [bid for bid, b in ctx.p.bodies.items() if own(b) or 'Serialize for' in bid])
def order_rule(ctx, rep, ids):
    p = ctx.p
    for bid in ids:
        b = p.bodies[bid]
        rep.fns.add(bid); res = True; why = ''; site = ''
        def worse(r, w, sp):
            nonlocal res, why, site
            if res is False: return
            if r is False or res is True: res, why, site = r, w, sp
        srt = sorts(b)
        for bi, blk in enumerate(b.get('blocks', [])):
            te = blk['te']
            for d in walk(blk.get('st', [])):
                if d.get('r') == 'cast' and re.search(r'PointerExposeProvenance|PointerExposeAddress|FnPtrToInt', str(d.get('k'))): worse(False, 'turns an address into a number', '')
            if te.get('t') != 'call': continue
            sp = te.get('sp', '')
            for f in fn_refs(te.get('f', {})) + [g for a in te.get('a', []) for g in fn_refs(a)]:
                nm = f.get('name') or f['p'].split('::')[-1]; full = ' '.join(names_of(f))
                at = [p.types[i]['s'] for i in f.get('a', []) if isinstance(i, int)]
                if re.search(r'RandomState.*::(new|default|build_hasher|hash_one)$', full) and 'HashMap' not in full and 'HashSet' not in full: worse(False, 'uses a random hash seed: ' + full, sp); continue
                if re.search(r'fmt::rt::Argument.*::new_pointer', full): worse(False, 'prints an address', sp); continue
                if re.search(r'fmt::rt::Argument.*::new_debug', full) and any(re.search(r'Hash(Map|Set)<', x) for x in at): worse(False, 'prints a hash table in its own order', sp); continue
                if re.search(r'::serialize_(field|entry|element)$|Serialize::serialize$', full) and any(re.search(r'Hash(Map|Set)<', x) for x in at): worse(False, 'writes a hash table in its own order', sp); continue
                if not at or not HASH_T.search(at[0]) and not (nm in ('extend', 'from_iter', 'append') and any(HASH_T.search(x) for x in at)): continue
                if nm in LAZY or nm in INSENS: continue
                if nm in ('collect', 'from_iter', 'extend'):
                    tgt = at[1] if nm == 'collect' and len(at) > 1 else at[0]
                    if UNORD.search(tgt) or tgt.startswith('()'): continue
                    worse(None if srt else False, 'collects a hash table\'s items into %s in its own order' % tgt, sp); continue
                if nm == 'next':
                    L = loop_of(p, b, bi)
                    h = [g for x in L if b['blocks'][x]['te'].get('t') == 'call' for g in fn_refs(b['blocks'][x]['te'].get('f', {})) if pushes(g)]
                    worse(False if h and not srt else None, 'goes through a hash table in its own order' + (' and appends with ' + h[0]['p'] if h else ''), sp); continue
                if nm in ('for_each', 'try_for_each', 'fold'):
                    cl = [d['p'] for i in f.get('a', []) if isinstance(i, int) for d in [p.types[i]] if d.get('k') == 'closure']
                    h = [g for c in cl if c in p.bodies for g in fn_refs(p.bodies[c].get('blocks', [])) if pushes(g)]
                    worse(False if h and not srt else None, 'goes through a hash table in its own order (%s)' % nm, sp); continue
                worse(None, 'uses the order of a hash table (%s)' % nm, sp)
        rep.v3('order', bid, res, why, site)

# ---------------------------------------------------------------- unsafe code
def g03(ctx, rep):
    """no unsafe block, function or implementation in the crate; no call of an unchecked operation"""
    un = ctx.p.d.get('unsafe', [])
    for x in un: rep.bad('unsafe', x, 'unsafe code', x)
    RX = re.compile(r'(_unchecked(_mut)?|::unreachable_unchecked|::transmute(_copy)?|::from_raw(_parts)?(_mut)?|::set_len|::assume_init\w*|::zeroed|::uninitialized|^core::ptr::(read|write|copy)\w*)$')
    for bid, b in ctx.p.bodies.items():
        if not own(b): continue
        rep.fns.add(bid)
        h = [n for f in fn_refs(b.get('blocks', [])) for n in names_of(f) if RX.search(n)]
        if h: rep.bad('unsafe', bid, 'calls ' + h[0], site_of(b))
        else: rep.ok('unsafe', bid)

# ---------------------------------------------------------------- clones
SHARED = re.compile(r'\b(Rc|Arc|RefCell|Mutex|RwLock|UnsafeCell|Weak)<|\*mut |\*const ')
def g04(ctx, rep):
    """every Clone implementation of the crate's data types"""
    n = 0
    for bid in sorted(ctx.p.bodies):
        m = re.match(r'^<(.+) as core::clone::Clone>::clone$', bid)
        if not m or m.group(1) not in ctx.p.adts or not ctx.p.adts[m.group(1)].get('local'): continue
        n += 1; ty = m.group(1)
        ti = ctx.p.bodies[bid]['locals'][0]['t']
        sh = sorted({x for x in tys_in(ctx, ti).values() if SHARED.search(x)})
        if sh: rep.bad('independent', bid, 'a clone shares ' + sh[0]); continue
        rep.ok('independent', bid)
        def one():
            S = ctx.summary(bid, 'clone'); rep.seen(S); me = argn(S, 0)
            for o in S.outs:
                tok = trail_ok(S.I, o[-1])
                if o[0] == 'panic': rep.v3('equal', bid, False if tok else None, 'cloning panics'); continue
                v = S.I.deep(o[-1], o[1]); r = Cmp(S.I).same(o[-1], v, me)
                if r is not True: r = same_parts(ctx, S.I, o[-1], v, me, ty)
                rep.v3('equal', bid, r if r is not False or tok else None, {'path': trail_txt(o[-1], 4), 'got': pretty(v)})
        rep.guard('equal', bid, one)
    for need in ('mapping::Mapping', 'source_map::SourceMapJson', 'array_set::ArraySet', 'source_map::Position'):
        if need in ctx.p.adts and ('<%s as core::clone::Clone>::clone' % need) not in ctx.p.bodies: rep.und('equal', need, 'no clone')
def same_parts(ctx, I, st, v, me, ty):
    """field by field, or variant by variant"""
    if not (isinstance(v, tuple) and v and v[0] == 'adt' and v[1] == ty): return None if has_unknown(v) or not understood(I, v) else False
    if len(ctx.p.adts[ty]['v']) > 1 and st.facts.ev(ieq(t('discr', me), V.I(v[2]))) is not True: return None
    rs = [Cmp(I).same(st, x, fld(me, i, v[2]) if v[2] else fld(me, i)) for i, x in enumerate(v[3])]
    return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None

def with_order(fn, *roots):
    """a rule plus the hash-order rule on the functions it is about (what they come back with is ordered)"""
    def r(ctx, rep):
        ids = []
        for rt in roots:
            f = ctx.fn(*rt, opt=True)
            if f: ids.append(f)
        ids = [b for b in sorted(reach(ctx.p, ids)) if own(ctx.p.bodies[b])]
        order_rule(ctx, rep, ids); fn(ctx, rep)
    r.__doc__ = fn.__doc__
    return r
def with_width(fn, *roots):
    """a rule plus full 32-bit width of the arithmetic in the functions it is about"""
    def r(ctx, rep):
        fn(ctx, rep)
        ids = [ctx.fn(*rt, opt=True) for rt in roots]; ids = reach(ctx.p, [i for i in ids if i])
        want = sites(ctx.p, [b for b in ids if own(ctx.p.bodies[b])])
        if want:
            for rt in roots:
                i = ctx.fn(*rt, opt=True)
                if i: S = ctx.summary(i, 'width'); judge(rep, 'width', S.I, i, 2**31 - 1, want)
        else: rep.ok('width', fn.__name__)
    r.__doc__ = fn.__doc__
    return r
from . import rules_ab, rules_c
RULES = {'B01': with_order(rules_ab.b01, *[('ArraySet', n) for n in ('add', 'has', 'index_of', 'at', 'to_vec', 'size', 'from_array', 'new')]),
         'B02': with_width(rules_ab.b02, ('compare_by_generated_pos_inflated',), ('strcmp',)),
         'B03': with_order(with_width(rules_ab.b03, ('MappingList', 'add')), *[('MappingList', n) for n in ('add', 'to_array', 'unsorted_for_each', 'new')]),
         'C08': with_width(rules_c.c08, ('SourceMapGenerator', 'add_mapping')),
         'C04': with_order(rules_c.c04, ('SourceMapGenerator', 'as_json'), ('SourceMapGenerator', 'as_string')),
         'C05': with_order(rules_c.c05, ('SourceMapGenerator', 'generate_sources_contents')),
         'G01': g01, 'G02': g02, 'G03': g03, 'G04': g04, 'G05': g05}
EXPL = {'G01': 'every function reference and every static of every body: denied are the effectful std modules, per-thread state, mutable statics, and statics that hold or capture interior-mutable cells',
        'G02': 'every call on an iterator over a hash table is classified by what consumes it: order-insensitive, lazy, sorted afterwards, or order-revealing; addresses and hash seeds likewise',
        'G03': 'unsafe blocks, functions and implementations collected from the HIR; unchecked operations from the MIR',
        'G04': 'the summary of every Clone::clone compared with its receiver; the cloned types contain no shared or interior-mutable parts',
        'G05': 'interval analysis of every checked arithmetic operation and narrowing conversion on every abstract path, coordinates within 2^30'}
