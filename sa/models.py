"""Transfer functions for the library calls the crate (or a realistic edit of
it) makes.  A model is h(I, st, args, fref, sp) -> iterable of outcomes, or
None to fall back to an uninterpreted call."""
import re
from .val import *
from . import val as V

MODELS = {}
def RET(v, st): return ('ret', v, st)
def PANIC(st, kind, info=None, where=None): return ('panic', (kind, info, where), st)

def m(*keys):
    def d(h):
        for k in keys: MODELS[tuple(k.split('.'))] = h
        return h
    return d

_norm_cache = {}
def _strip(p):
    """path text -> list of plain segments; impl blocks become their self type"""
    r = _norm_cache.get(p)
    if r is not None: return r
    out = []; i = 0; seg = ''; n = len(p)
    while i < n:
        c = p[i]
        if c == '<':
            d = 0; j = i
            while j < n:
                if p[j] == '<': d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            inner = p[i + 1:j]
            if seg == '':
                if inner.startswith('impl '):
                    s = inner[5:]
                    if ' for ' in s: seg = _tyname(s.split(' for ')[-1])
                    else: seg = _tyname(s)
                elif ' as ' in inner: 
                    a, b = inner.split(' as ', 1); seg = _tyname(a)
            i = j + 1; continue
        if p.startswith('::', i):
            if seg: out.append(seg)
            seg = ''; i += 2; continue
        seg += c; i += 1
    if seg: out.append(seg)
    _norm_cache[p] = out
    return out
INTS = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
def _tyname(s):
    s = s.strip()
    if s.startswith('['): return 'slice'
    if s == 'str': return 'str'
    if s in INTS: return 'int'
    if s.startswith('&'): return 'refty'
    return _strip(s)[-1] if _strip(s) else s

def key(I, fref):
    ks = []
    for p in (fref.get('res'), fref['p']):
        if not p: continue
        s = _strip(p)
        if len(s) >= 2: ks.append((s[-2], s[-1]))
    if fref.get('tr'):
        tr = _strip(fref['tr'])[-1]
        ks.append((tr, fref['name']))
    # any iterator method on any iterator type
    if fref.get('tr') and 'iter::traits' in fref['tr']: ks.append(('Iterator', fref['name']))
    return ks

def clean(fref, name):
    s = _strip(name)
    kr = fref.get('kr') if isinstance(fref, dict) else None
    r = '::'.join(s[-2:]) if len(s) >= 2 else s[0]
    if kr and kr not in ('core', 'alloc', 'std') and not fref.get('l'): r = kr + ':' + r
    return r

# calls that stay uninterpreted on purpose: their results are value numbers
KNOWN_OPAQUE = {
    'source_map_mappings:source_map_mappings::parse_mappings', 'source_map_mappings:Mappings::original_location_for',
    'source_map_mappings:Mappings::generated_location_for', 'source_map_mappings:Mappings::all_generated_locations_for',
    'source_map_mappings:Mappings::by_original_location', 'source_map_mappings:Mappings::by_generated_location',
    'source_map_mappings:Mappings::compute_column_spans',
    'serde_json:de::from_str', 'serde_json:ser::to_string', 'serde_json:ser::to_string_pretty', 'serde_json:de::from_slice',
    'serde_json:de::from_value',
    'url:Url::parse', 'url:Url::join', 'url:Url::path', 'url:Url::query', 'url:Url::fragment', 'url:Url::scheme',
    'url:Url::username', 'url:Url::password', 'url:Url::host', 'url:Url::host_str', 'url:Url::domain', 'url:Url::port', 'url:Url::set_path',
    'url:Url::make_relative', 'url:Url::origin', 'url:Url::set_query', 'url:Url::set_fragment', 'url:Url::cannot_be_a_base', 'url:Url::port_or_known_default',
    'regex:Regex::is_match', 'regex:Regex::replace', 'regex:Regex::replace_all', 'regex:Regex::find',
}
NOMUT = {
    'source_map_mappings:Mappings::original_location_for', 'source_map_mappings:Mappings::generated_location_for',
    'source_map_mappings:Mappings::all_generated_locations_for', 'source_map_mappings:Mappings::by_original_location',
    'source_map_mappings:Mappings::by_generated_location',
}
def mut_from_sig(s):
    """which parameters of a printed fn type are &mut"""
    i = s.find('fn(')
    if i < 0: return None
    d = 0; cur = ''; out = []
    j = i + 3
    while j < len(s):
        c = s[j]
        if c in '<([{': d += 1
        elif c == '>' and s[j - 1] != '-': d -= 1
        elif c in ')]}':
            if d == 0: break
            d -= 1
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
        j += 1
    if cur.strip(): out.append(cur)
    return [bool(re.match(r"\s*&('\w+ )?mut ", x)) for x in out]

# ------------------------------------------------------------------ helpers
def gty(I, fref, i=0):
    a = fref.get('a') or []
    return a[i] if i < len(a) and isinstance(a[i], int) else None
def tkind(I, ty):
    k = I.tk(ty) if ty is not None else None
    return k
def strip_ref(I, ty):
    k = I.tk(ty) if ty is not None else None
    while k and k['k'] == 'ref': ty = k['t']; k = I.tk(ty)
    return ty
def is_string_ty(I, ty):
    k = tkind(I, strip_ref(I, ty))
    return bool(k and (k['k'] in ('str', 'char') or (k['k'] == 'adt' and k['p'] == 'alloc::string::String')))
def is_adt(I, ty, *ps):
    k = tkind(I, strip_ref(I, ty))
    return bool(k and k['k'] == 'adt' and k['p'] in ps)
def val(I, st, v): return I.deref(st, v)
def isref(v): return isinstance(v, tuple) and v and v[0] in ('ref', 'guard')
def loc(I, st, v): return I.loc_of(st, v)
def subref(I, st, v, *keys):
    l = I.loc_of(st, v)
    return ('ref', l[0], l[1] + tuple(keys))
def set_(I, st, ref, v):
    I.write(st, I.loc_of(st, ref), v)
def inner_ref(I, st, v):
    """collapse & & T to the innermost reference"""
    n = 0
    while isref(v) and n < 10:
        w = I.read(st, I.loc_of(st, v))
        if isref(w): v = w; n += 1
        else: break
    return v
def here(I, st, sp): return (I.stack[-1].name if I.stack else '', sp)

# ------------------------------------------------------------------ identity-ish
def ident(I, st, a, f, sp): return [RET(a[0], st)]
def deep0(I, st, a, f, sp): return [RET(I.deep(st, a[0]), st)]
for k in ('Box.new', 'Rc.new', 'Arc.new', 'RefCell.new', 'Mutex.new', 'RwLock.new', 'Cell.new', 'hint.must_use', 'Box.from',
          'convert.identity', 'Rc.from', 'Box.into_inner', 'Cell.into_inner', 'RefCell.into_inner', 'hint.black_box',
          'Option.from', 'String.into_bytes', 'String.into_boxed_str', 'Vec.into_boxed_slice', 'Wrapping.new',
          'mem.ManuallyDrop', 'String.as_mut_string', 'Box.pin', 'panic.AssertUnwindSafe'):
    m(k)(ident)
m('Rc.clone', 'Arc.clone')(deep0)

@m('mem.drop')
def drop_(I, st, a, f, sp):
    st = st.copy(); I.release_in(st, a[0]); return [RET(UNIT, st)]
@m('mem.take')
def take_(I, st, a, f, sp):
    ty = gty(I, f); v = val(I, st, a[0])
    d = default_of(I, ty)
    if d is None: return None
    st = st.copy(); v = I.read(st, loc(I, st, a[0])); set_(I, st, a[0], d); return [RET(v, st)]
@m('mem.replace')
def repl_(I, st, a, f, sp):
    st = st.copy(); v = I.read(st, loc(I, st, a[0])); set_(I, st, a[0], a[1]); return [RET(v, st)]
@m('mem.swap')
def swap_(I, st, a, f, sp):
    st = st.copy(); x = I.read(st, loc(I, st, a[0])); y = I.read(st, loc(I, st, a[1]))
    set_(I, st, a[0], y); set_(I, st, a[1], x); return [RET(UNIT, st)]

EMPTYMAP = ('map', None, ())
def default_of(I, ty):
    k = I.tk(ty) if ty is not None else None
    if not k: return None
    if k['k'] == 'int': return I_(0)
    if k['k'] == 'bool': return FALSE
    if k['k'] == 'str' or (k['k'] == 'ref' and I.tk(k['t'])['k'] == 'str'): return S('')
    if k['k'] == 'tuple':
        fs = [default_of(I, x) for x in k.get('a', [])]
        return None if None in fs else ('tup', tuple(fs))
    if k['k'] == 'adt':
        p = k['p']
        if p == 'alloc::string::String': return S('')
        if p in ('alloc::vec::Vec', 'alloc::collections::linked_list::LinkedList', 'alloc::collections::vec_deque::VecDeque'): return EMPTY
        if 'HashMap' in p or 'BTreeMap' in p: return EMPTYMAP
        if 'HashSet' in p or 'BTreeSet' in p: return EMPTYMAP
        if p == OPT: return NONE
        if p in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::rcs::rc::Rc', 'core::cell::RefCell', 'core::cell::Cell') and k.get('a'): return default_of(I, k['a'][0])
        ad = I.p.adts.get(p)
        if ad and ad.get('local') and ad['kind'] == 'struct':
            bid = '<%s as core::default::Default>::default' % p
            b = I.p.bodies.get(bid)
            if b is not None:
                from .interp import St
                outs = I.exec_body(b, [], St(), ('dflt', bid))
                outs = [o for o in outs if o[0] == 'ret']
                if len(outs) == 1: return outs[0][1]
    return None
def I_(n): return V.I(n)

@m('Default.default')
def dflt(I, st, a, f, sp):
    d = default_of(I, gty(I, f))
    return None if d is None else [RET(d, st)]
for k, v in (('String.new', S('')), ('Vec.new', EMPTY), ('LinkedList.new', EMPTY), ('VecDeque.new', EMPTY), ('HashMap.new', EMPTYMAP),
             ('HashSet.new', EMPTYMAP), ('BTreeMap.new', EMPTYMAP), ('BTreeSet.new', EMPTYMAP),
             ('String.with_capacity', S('')), ('Vec.with_capacity', EMPTY), ('HashMap.with_capacity', EMPTYMAP), ('HashSet.with_capacity', EMPTYMAP), ('VecDeque.with_capacity', EMPTY)):
    m(k)(lambda I, st, a, f, sp, v=v: [RET(v, st)])
for k in ('Vec.reserve', 'String.reserve', 'HashMap.reserve', 'Vec.shrink_to_fit', 'String.shrink_to_fit', 'HashMap.shrink_to_fit', 'Vec.reserve_exact'):
    m(k)(lambda I, st, a, f, sp: [RET(UNIT, st)])

@m('Clone.clone', 'ToOwned.to_owned', 'str.to_owned', 'String.clone', 'slice.to_vec', 'slice.to_owned', 'Vec.clone', 'Option.clone', 'Box.clone', 'HashMap.clone')
def clone(I, st, a, f, sp):
    k = tkind(I, gty(I, f))
    if k and k['k'] == 'ref' and f['p'].endswith('Clone::clone'):
        return [RET(I.read(st, loc(I, st, a[0])), st)]
    v = I.read(st, loc(I, st, a[0])) if isref(a[0]) else a[0]
    if k and k['k'] == 'adt' and k['p'] == OPT and isinstance(v, (T, tuple)):
        return [RET(I.deep(st, v), st)]
    if isinstance(v, tuple) and v and v[0] in ('it',): return [RET(v, st)]
    return [RET(I.deep(st, a[0]), st)]
@m('Clone.clone_from')
def clone_from(I, st, a, f, sp):
    st = st.copy(); set_(I, st, a[0], I.deep(st, a[1])); return [RET(UNIT, st)]

@m('Deref.deref', 'DerefMut.deref_mut', 'AsRef.as_ref', 'Borrow.borrow', 'BorrowMut.borrow_mut', 'Vec.as_slice', 'Vec.as_mut_slice', 'Box.as_ref', 'Vec.as_ref', 'String.as_ref', 'Vec.deref', 'Rc.as_ref', 'Box.as_mut', 'AsMut.as_mut', 'Box.leak', 'Rc.deref', 'slice.as_ref', 'Vec.borrow', 'Arc.deref', 'Box.deref', 'str.as_ref', 'Rc.borrow', 'Cow.deref', 'Cow.as_ref')
def deref(I, st, a, f, sp):
    v = a[0]
    w = I.read(st, loc(I, st, v)) if isref(v) else v
    ty = strip_ref(I, gty(I, f))
    if is_string_ty(I, ty): return [RET(I.deref(st, v), st)]
    if isinstance(w, tuple) and w and w[0] == 's': return [RET(w, st)]
    if isinstance(w, tuple) and w and w[0] == 'guard': return [RET(w[3], st)]
    if isref(w): return [RET(w, st)]
    return [RET(v, st)]

@m('String.as_str', 'String.as_mut_str', 'String.deref', 'str.as_str', 'String.borrow', 'str.to_string', 'str.into_string', 'str.as_bytes', 'String.as_bytes', 'String.into_boxed', 'str.into', 'String.from', 'String.into_string', 'str.from', 'str.borrow', 'String.from_str')
def asstr(I, st, a, f, sp): return [RET(I.deref(st, a[0]), st)]

@m('From.from', 'Into.into')
def from_(I, st, a, f, sp):
    v = a[0]; ty = gty(I, f, 0); k = tkind(I, ty); src = gty(I, f, 1)
    if f.get('name') == 'into': k, src = tkind(I, src), ty
    if k and k['k'] == 'adt' and k['p'] == 'alloc::string::String':
        if is_adt(I, strip_ref(I, src), 'url::Url'): return [RET(t('urlstr', I.deep(st, v)), st)]
        return [RET(I.deref(st, v), st)]
    if k and k['k'] == 'int': return [RET(I.cast(st, v, 'IntToInt', gty(I, f, 0 if f.get('name') != 'into' else 1), src), st)]
    if k and k['k'] == 'adt' and k['p'] == OPT: return [RET(some(v), st)]
    return [RET(v, st)]
@m('TryFrom.try_from', 'TryInto.try_into')
def try_from(I, st, a, f, sp):
    dst = gty(I, f, 0) if f.get('name') == 'try_from' else gty(I, f, 1)
    n = I.int_name(dst)
    if n in RANGE and lin(a[0]) is not None:
        lo, hi = RANGE[n]; out = []
        for tr, s in I.split(st, ilt(a[0], I_(lo)), sp):
            if tr: out.append(RET(err(t('tryfrom_err')), s)); continue
            for t2, s2 in I.split(s, ilt(I_(hi), a[0]), sp):
                out.append(RET(err(t('tryfrom_err')) if t2 else ok(a[0]), s2))
        return out
    return None

# ------------------------------------------------------------------ cells
@m('RefCell.borrow', 'RefCell.borrow_mut', 'RwLock.read', 'RwLock.write', 'Mutex.lock', 'RefCell.try_borrow', 'RefCell.try_borrow_mut', 'Mutex.try_lock')
def borrow(I, st, a, f, sp):
    st = st.copy()
    kind = 'r' if f['name'] in ('borrow', 'read', 'try_borrow') else 'w'
    ref = inner_ref(I, st, a[0])
    g = I.acquire(st, loc(I, st, ref), kind, sp)
    if f['name'] in ('borrow', 'borrow_mut'):
        if g is None: return [PANIC(st, 'borrow', kind, here(I, st, sp))]
        return [RET(g, st)]
    if g is None: return [PANIC(st, 'deadlock', kind, here(I, st, sp))]
    return [RET(ok(g), st)]
@m('RefCell.get_mut', 'Mutex.get_mut', 'Cell.get_mut', 'Rc.get_mut', 'Rc.make_mut')
def cell_get_mut(I, st, a, f, sp):
    r = inner_ref(I, st, a[0])
    if f['p'].startswith('std::sync') : return [RET(ok(r), st)]
    if 'Rc' in f['p'] and f['name'] == 'get_mut': return [RET(some(r), st)]
    return [RET(r, st)]
@m('Cell.get')
def cell_get(I, st, a, f, sp): return [RET(val(I, st, a[0]), st)]
@m('Cell.set')
def cell_set(I, st, a, f, sp):
    st = st.copy(); set_(I, st, inner_ref(I, st, a[0]), a[1]); return [RET(UNIT, st)]
@m('Cell.replace', 'RefCell.replace')
def cell_repl(I, st, a, f, sp): return repl_(I, st, [inner_ref(I, st, a[0]), a[1]], f, sp)

# ------------------------------------------------------------------ Option / Result
def opt(I, st, v, sp):
    if isref(v):
        v = I.read(st, loc(I, st, v))
    return I.opt_split(st, v, sp)
def each_opt(fn):
    def h(I, st, a, f, sp):
        out = []
        v = a[0]
        if isref(v): v = I.read(st, loc(I, st, v))
        if isref(v): v = I.deref(st, v)
        for p, s in I.opt_split(st, v, sp):
            r = fn(I, s.copy(), p, a, f, sp)
            if r is None: return None
            out += list(r)
        return out
    return h
def call(I, fv, args, st, sp): return I.call_value(fv, args, st, (sp, 'cb'), sp)
def then(outs, fn):
    """map ('ret',v,s) outcomes through fn(v,s)->outcomes"""
    res = []
    for o in outs:
        if o[0] == 'ret': res += list(fn(o[1], o[2]))
        else: res.append(o)
    return res
m('Option.is_some')(each_opt(lambda I, s, p, a, f, sp: [RET(B(p is not None), s)]))
m('Option.is_none')(each_opt(lambda I, s, p, a, f, sp: [RET(B(p is None), s)]))
m('Option.unwrap', 'Option.expect')(each_opt(lambda I, s, p, a, f, sp: [RET(p, s)] if p is not None else [PANIC(s, 'unwrap', 'None', here(I, s, sp))]))
m('Option.unwrap_or')(each_opt(lambda I, s, p, a, f, sp: [RET(p if p is not None else a[1], s)]))
m('Option.unwrap_or_default')(each_opt(lambda I, s, p, a, f, sp: [RET(p, s)] if p is not None else ([RET(default_of(I, gty(I, f)), s)] if default_of(I, gty(I, f)) is not None else None)))
m('Option.unwrap_or_else')(each_opt(lambda I, s, p, a, f, sp: [RET(p, s)] if p is not None else call(I, a[1], [], s, sp)))
m('Option.map')(each_opt(lambda I, s, p, a, f, sp: [RET(NONE, s)] if p is None else then(call(I, a[1], [p], s, sp), lambda v, s2: [RET(some(v), s2)])))
m('Option.and_then')(each_opt(lambda I, s, p, a, f, sp: [RET(NONE, s)] if p is None else call(I, a[1], [p], s, sp)))
m('Option.map_or')(each_opt(lambda I, s, p, a, f, sp: [RET(a[1], s)] if p is None else call(I, a[2], [p], s, sp)))
m('Option.map_or_else')(each_opt(lambda I, s, p, a, f, sp: call(I, a[1], [], s, sp) if p is None else call(I, a[2], [p], s, sp)))
m('Option.is_some_and')(each_opt(lambda I, s, p, a, f, sp: [RET(FALSE, s)] if p is None else call(I, a[1], [p], s, sp)))
m('Option.is_none_or')(each_opt(lambda I, s, p, a, f, sp: [RET(TRUE, s)] if p is None else call(I, a[1], [p], s, sp)))
@m('bool.then', 'bool.then_some')
def bool_then(I, st, a, f, sp):
    out = []
    for tr, s in I.split(st, I.asbool(a[0]), sp):
        if not tr: out.append(RET(NONE, s))
        elif f['name'] == 'then_some': out.append(RET(some(a[1]), s))
        else: out += then(call(I, a[1], [], s, sp), lambda v, s2: [RET(some(v), s2)])
    return out
m('Option.ok_or')(each_opt(lambda I, s, p, a, f, sp: [RET(err(a[1]) if p is None else ok(p), s)]))
m('Option.ok_or_else')(each_opt(lambda I, s, p, a, f, sp: then(call(I, a[1], [], s, sp), lambda v, s2: [RET(err(v), s2)]) if p is None else [RET(ok(p), s)]))
m('Option.or')(each_opt(lambda I, s, p, a, f, sp: [RET(a[1] if p is None else some(p), s)]))
m('Option.or_else')(each_opt(lambda I, s, p, a, f, sp: call(I, a[1], [], s, sp) if p is None else [RET(some(p), s)]))
m('Option.and')(each_opt(lambda I, s, p, a, f, sp: [RET(NONE if p is None else a[1], s)]))
m('Option.flatten')(each_opt(lambda I, s, p, a, f, sp: [RET(NONE if p is None else p, s)]))
def _cloned(I, s, p, a, f, sp): return [RET(NONE if p is None else some(I.deep(s, p)), s)]
m('Option.cloned', 'Option.copied')(each_opt(_cloned))
def _filter(I, s, p, a, f, sp):
    if p is None: return [RET(NONE, s)]
    r = I.tmp(s, p, 'flt')
    out = []
    for o in call(I, a[1], [r], s, sp):
        if o[0] != 'ret': out.append(o); continue
        for tr, s2 in I.split(o[2], o[1], sp): out.append(RET(some(p) if tr else NONE, s2))
    return out
m('Option.filter')(each_opt(_filter))
def _zip(I, s, p, a, f, sp):
    if p is None: return [RET(NONE, s)]
    return [RET(NONE if q is None else some(('tup', (p, q))), s2) for q, s2 in I.opt_split(s, a[1], sp)]
m('Option.zip')(each_opt(_zip))
def _xor(I, s, p, a, f, sp):
    out = []
    for q, s2 in I.opt_split(s, a[1], sp):
        out.append(RET(NONE if (p is None) == (q is None) else some(p if q is None else q), s2))
    return out
m('Option.xor')(each_opt(_xor))
def _inspect(I, s, p, a, f, sp):
    if p is None: return [RET(NONE, s)]
    return then(call(I, a[1], [I.tmp(s, p, 'insp')], s, sp), lambda v, s2: [RET(some(p), s2)])
m('Option.inspect')(each_opt(_inspect))
def _transpose(I, s, p, a, f, sp):
    if p is None: return [RET(ok(NONE), s)]
    return [RET(ok(some(x)) if k else err(x), s2) for k, x, s2 in I.res_split(s, p, sp)]
m('Option.transpose')(each_opt(_transpose))

def optref(I, st, a):
    return inner_ref(I, st, a[0])
@m('Option.as_ref', 'Option.as_mut')
def as_ref(I, st, a, f, sp):
    r = optref(I, st, a)
    if not isref(r): r = I.tmp(st, r, 'asref')
    v = I.read(st, loc(I, st, r)); out = []
    for p, s in I.opt_split(st, v, sp):
        if p is None: out.append(RET(NONE, s))
        elif isref(p) : out.append(RET(some(subref(I, s, r, ('f', 0, 1))), s))
        else: out.append(RET(some(subref(I, s, r, ('f', 0, 1))), s))
    return out
@m('Option.as_deref', 'Option.as_deref_mut')
def as_deref(I, st, a, f, sp):
    r = optref(I, st, a)
    if not isref(r): r = I.tmp(st, r, 'asref')
    v = I.read(st, loc(I, st, r)); out = []
    string = is_string_ty(I, gty(I, f))
    for p, s in I.opt_split(st, v, sp):
        if p is None: out.append(RET(NONE, s))
        elif string: out.append(RET(some(I.deref(s, p)), s))
        else: out.append(RET(some(subref(I, s, r, ('f', 0, 1))), s))
    return out
@m('Option.iter', 'Option.iter_mut')
def opt_iter(I, st, a, f, sp):
    return then(as_ref(I, st, a, f, sp), lambda v, s: [RET(own_it(EMPTY if v[2] == 0 else ('seq', (('one', v[3][0]),))), s)])
@m('Option.take')
def opt_take(I, st, a, f, sp):
    st = st.copy(); r = optref(I, st, a); v = I.read(st, loc(I, st, r)); set_(I, st, r, NONE); return [RET(v, st)]
@m('Option.replace', 'Option.insert', 'Option.get_or_insert')
def opt_replace(I, st, a, f, sp):
    st = st.copy(); r = optref(I, st, a); v = I.read(st, loc(I, st, r))
    if f['name'] == 'replace':
        set_(I, st, r, some(a[1])); return [RET(v, st)]
    if f['name'] == 'insert':
        set_(I, st, r, some(a[1])); return [RET(subref(I, st, r, ('f', 0, 1)), st)]
    out = []
    for p, s in I.opt_split(st, v, sp):
        s = s.copy()
        if p is None: set_(I, s, r, some(a[1]))
        out.append(RET(subref(I, s, r, ('f', 0, 1)), s))
    return out
@m('Option.get_or_insert_with')
def opt_goi(I, st, a, f, sp):
    r = optref(I, st, a); v = I.read(st, loc(I, st, r)); out = []
    for p, s in I.opt_split(st, v, sp):
        if p is not None: out.append(RET(subref(I, s, r, ('f', 0, 1)), s)); continue
        for o in call(I, a[1], [], s, sp):
            if o[0] != 'ret': out.append(o); continue
            s2 = o[2].copy(); set_(I, s2, r, some(o[1])); out.append(RET(subref(I, s2, r, ('f', 0, 1)), s2))
    return out

def each_res(fn):
    def h(I, st, a, f, sp):
        out = []; v = a[0]
        if isref(v): v = I.deref(st, v)
        for k, p, s in I.res_split(st, v, sp):
            r = fn(I, s, k, p, a, f, sp)
            if r is None: return None
            out += list(r)
        return out
    return h
m('Result.is_ok')(each_res(lambda I, s, k, p, a, f, sp: [RET(B(k), s)]))
m('Result.is_err')(each_res(lambda I, s, k, p, a, f, sp: [RET(B(not k), s)]))
m('Result.ok')(each_res(lambda I, s, k, p, a, f, sp: [RET(some(p) if k else NONE, s)]))
m('Result.err')(each_res(lambda I, s, k, p, a, f, sp: [RET(NONE if k else some(p), s)]))
m('Result.unwrap', 'Result.expect')(each_res(lambda I, s, k, p, a, f, sp: [RET(p, s)] if k else [PANIC(s, 'unwrap', ('Err', p), here(I, s, sp))]))
m('Result.unwrap_err', 'Result.expect_err')(each_res(lambda I, s, k, p, a, f, sp: [RET(p, s)] if not k else [PANIC(s, 'unwrap', ('Ok', p), here(I, s, sp))]))
m('Result.unwrap_or')(each_res(lambda I, s, k, p, a, f, sp: [RET(p if k else a[1], s)]))
m('Result.unwrap_or_else')(each_res(lambda I, s, k, p, a, f, sp: [RET(p, s)] if k else call(I, a[1], [p], s, sp)))
m('Result.unwrap_or_default')(each_res(lambda I, s, k, p, a, f, sp: [RET(p, s)] if k else ([RET(default_of(I, gty(I, f)), s)] if default_of(I, gty(I, f)) is not None else None)))
m('Result.map')(each_res(lambda I, s, k, p, a, f, sp: [RET(err(p), s)] if not k else then(call(I, a[1], [p], s, sp), lambda v, s2: [RET(ok(v), s2)])))
m('Result.map_err')(each_res(lambda I, s, k, p, a, f, sp: [RET(ok(p), s)] if k else then(call(I, a[1], [p], s, sp), lambda v, s2: [RET(err(v), s2)])))
m('Result.and_then')(each_res(lambda I, s, k, p, a, f, sp: [RET(err(p), s)] if not k else call(I, a[1], [p], s, sp)))
m('Result.or_else')(each_res(lambda I, s, k, p, a, f, sp: [RET(ok(p), s)] if k else call(I, a[1], [p], s, sp)))
m('Result.map_or')(each_res(lambda I, s, k, p, a, f, sp: [RET(a[1], s)] if not k else call(I, a[2], [p], s, sp)))
m('Result.map_or_else')(each_res(lambda I, s, k, p, a, f, sp: call(I, a[1], [p], s, sp) if not k else call(I, a[2], [p], s, sp)))
m('Result.is_ok_and')(each_res(lambda I, s, k, p, a, f, sp: [RET(FALSE, s)] if not k else call(I, a[1], [p], s, sp)))
m('Result.is_err_and')(each_res(lambda I, s, k, p, a, f, sp: [RET(FALSE, s)] if k else call(I, a[1], [p], s, sp)))
@m('Result.as_ref', 'Result.as_mut')
def res_as_ref(I, st, a, f, sp):
    r = inner_ref(I, st, a[0]); v = I.read(st, loc(I, st, r)); out = []
    for k, p, s in I.res_split(st, v, sp):
        x = subref(I, s, r, ('f', 0, 0 if k else 1)); out.append(RET(ok(x) if k else err(x), s))
    return out
m('Result.iter')(each_res(lambda I, s, k, p, a, f, sp: [RET(own_it(('seq', (('one', p),)) if k else EMPTY), s)]))

def is_opt_ty(I, ty): return is_adt(I, ty, OPT)
def cont(v): return ('adt', CF, 0, (v,))
def brk(v): return ('adt', CF, 1, (v,))
@m('Try.branch')
def branch(I, st, a, f, sp):
    ty = gty(I, f); v = a[0]
    if is_opt_ty(I, ty) or (f.get('res') or '').startswith('<core::option'):
        return [RET(brk(NONE) if p is None else cont(p), s) for p, s in I.opt_split(st, v, sp)]
    return [RET(cont(p) if k else brk(err(p)), s) for k, p, s in I.res_split(st, v, sp)]
@m('FromResidual.from_residual')
def from_res(I, st, a, f, sp): return [RET(a[0], st)]
@m('Try.from_output')
def from_out(I, st, a, f, sp):
    return [RET(some(a[0]) if is_opt_ty(I, gty(I, f)) else ok(a[0]), st)]

# ------------------------------------------------------------------ panics
def _panic(kind):
    def h(I, st, a, f, sp):
        return [PANIC(st, kind, tuple(I.deep(st, x) for x in a), here(I, st, sp))]
    return h
m('panicking.begin_panic', 'panicking.panic_fmt', 'panicking.panic', 'panicking.panic_display', 'panicking.panic_str', 'rt.begin_panic',
  'panicking.unreachable_display', 'panicking.panic_explicit', 'rt.panic_fmt', 'panicking.begin_panic_fmt', 'panicking.panic_str_2015', 'panicking.panic_nounwind', 'panic.panic_any')(_panic('panic'))
m('option.unwrap_failed', 'option.expect_failed', 'result.unwrap_failed')(_panic('unwrap'))
m('panicking.assert_failed', 'panicking.assert_failed_inner')(_panic('assert'))
m('process.exit', 'process.abort')(_panic('exit'))
m('panicking.unimplemented_default_msg', 'panicking.unreachable', 'panicking.todo_default_msg', 'panicking.unreachable_default_msg', 'panicking.panic_const')(_panic('panic'))

# ------------------------------------------------------------------ formatting
@m('Argument.new_display')
def fmt_disp(I, st, a, f, sp):
    v = I.deref(st, a[0]); ty = gty(I, f)
    return [RET(('adt', 'fmtarg', 0, (display(I, st, v, ty),)), st)]
def display(I, st, v, ty=None):
    k = tkind(I, strip_ref(I, ty))
    v = I.deref(st, v)
    if isinstance(v, tuple) and v and v[0] == 's': return v
    if is_string_ty(I, ty): return v
    if k and k['k'] == 'int' or (isinstance(v, tuple) and v and v[0] == 'i'):
        c = const_int(v)
        return S(str(c)) if c is not None else t('dec', v)
    if k and k['k'] == 'adt' and k['p'] == 'url::Url': return t('urlstr', I.deep(st, v))
    if k and k['k'] == 'adt' and k['p'] == 'alloc::borrow::Cow': return v
    return t('disp', I.deep(st, v))
@m('Argument.new_debug')
def fmt_dbg(I, st, a, f, sp): return [RET(('adt', 'fmtarg', 0, (t('dbg', I.deep(st, a[0])),)), st)]
@m('Arguments.new', 'Arguments.new_v1')
def fmt_new(I, st, a, f, sp):
    tpl = I.deref(st, a[0]); args = seq_concrete(I.deref(st, a[1])) if len(a) > 1 else []
    b = tpl.args[0] if isinstance(tpl, T) and tpl.op == 'bytes' else None
    if b is None or args is None: return [RET(t('fmt', tpl, I.deep(st, a[1]) if len(a) > 1 else UNIT), st)]
    out = []; i = 0; ai = 0
    while i < len(b):
        n = b[i]
        if n == 0: break
        if n < 128: out.append(b[i + 1:i + 1 + n].decode('utf8', 'replace')); i += 1 + n
        elif n == 128:
            ln = b[i + 1] | b[i + 2] << 8; out.append(b[i + 3:i + 3 + ln].decode('utf8', 'replace')); i += 3 + ln
        elif n == 192:
            if ai >= len(args): return [RET(unk('fmt'), st)]
            out.append(fld(I.deref(st, args[ai]), 0)); ai += 1; i += 1
        else:
            return [RET(t('fmt', tpl, I.deep(st, a[1])), st)]
    return [RET(mkstr(tuple(out)), st)]
@m('Arguments.from_str', 'Arguments.new_const', 'Arguments.from_str_nonconst')
def fmt_const(I, st, a, f, sp):
    v = I.deref(st, a[0])
    if isinstance(v, tuple) and v[0] == 'seq':
        e = seq_concrete(v); return [RET(e[0] if e else S(''), st)]
    return [RET(v, st)]
@m('fmt.format', 'fmt.format_inner')
def fmt_format(I, st, a, f, sp): return [RET(a[0], st)]
@m('ToString.to_string', 'SpecToString.spec_to_string')
def to_string(I, st, a, f, sp): return [RET(display(I, st, a[0], gty(I, f)), st)]
@m('Write.write_fmt', 'Write.write_str', 'String.write_str', 'String.write_fmt', 'String.write_char', 'Write.write_char')
def write_fmt(I, st, a, f, sp):
    v = I.read(st, loc(I, st, inner_ref(I, st, a[0])))
    if not (is_string_ty(I, gty(I, f)) or (f.get('res') or '').find('String') >= 0): return None
    st = st.copy(); set_(I, st, inner_ref(I, st, a[0]), concat(v, I.deref(st, a[1]))); return [RET(ok(UNIT), st)]
m('_print._print', 'stdio._print', 'stdio._eprint')(lambda I, st, a, f, sp: [st.ev(('effect', 'print', sp)) or RET(UNIT, st)])

# ------------------------------------------------------------------ comparison
def m_eq(I, st, a, f, sp, negate):
    ty = gty(I, f)
    if ty is None:
        b = I.p.bodies.get(f.get('res') or f['p'])
        if b: ty = b['locals'][1]['t']
    return [RET(B(r != negate), s) for r, s in I.eq_split(st, a[0], a[1], ty, sp)]
@m('PartialEq.eq')
def eq(I, st, a, f, sp): return eqne(I, st, a, f, sp, False)
@m('PartialEq.ne')
def ne(I, st, a, f, sp): return eqne(I, st, a, f, sp, True)
def eqne(I, st, a, f, sp, negate):
    ty = gty(I, f); k = tkind(I, strip_ref(I, ty))
    if k and k['k'] in ('adt',) and not is_string_ty(I, ty):
        # a hand-written or derived local impl
        ad = I.p.adts.get(k['p'])
        bid = '<%s as core::cmp::PartialEq>::eq' % k['p']
        b = I.p.bodies.get(bid)
        if b is not None and not b.get('derived'):
            out = []
            for o in I.exec_body(b, [inner_ref(I, st, a[0]), inner_ref(I, st, a[1])], st, ('eq', sp)):
                if o[0] == 'ret' and negate:
                    out.append(RET(neg(o[1]), o[2]))
                else: out.append(o)
            return out
    return m_eq(I, st, a, f, sp, negate)
def three(I, st, a, b, ty, sp):
    """-> [(-1|0|1, st)] or None"""
    a = I.deref(st, a); b = I.deref(st, b)
    sty = strip_ref(I, ty); k = tkind(I, sty)
    if (k and k['k'] == 'tuple') or (isinstance(a, tuple) and a and a[0] == 'tup'):
        n = len(k['a']) if k and k['k'] == 'tuple' else len(a[1])
        return three_seq(I, st, [(fld(a, i), fld(b, i), k['a'][i] if k and k['k'] == 'tuple' else None) for i in range(n)], sp)
    if (k and k['k'] == 'adt' and k['p'] == OPT) or (isinstance(a, tuple) and a and a[0] == 'adt' and a[1] == OPT):
        sub_ty = k['a'][0] if k and k['k'] == 'adt' and k.get('a') else None
        out = []
        for pa, s in I.opt_split(st, a, sp):
            for pb, s2 in I.opt_split(s, b, sp):
                if pa is None or pb is None: out.append(((pa is not None) - (pb is not None), s2))
                else:
                    r = three(I, s2, pa, pb, sub_ty, sp)
                    if r is None: return None
                    out += r
        return out
    if k and k['k'] == 'adt' and k['p'] == 'core::cmp::Reverse':
        return three(I, st, fld(b, 0), fld(a, 0), k['a'][0], sp)
    if k and k['k'] == 'bool': 
        out = []
        for x, s in I.split(st, a, sp):
            for y, s2 in I.split(s, b, sp): out.append(((x > y) - (x < y), s2))
        return out
    o = I.order(st, a, b, sty)
    if o is None and k and k['k'] == 'int': o = sub(a, b)
    if o is None: return None
    return I.cmp_split(st, o, None, sp)
def three_seq(I, st, prs, sp):
    out = []; cur = [st]
    for x, y, ty in prs:
        nxt = []
        for s in cur:
            r = three(I, s, x, y, ty, sp)
            if r is None: return None
            for c, s2 in r:
                if c == 0: nxt.append(s2)
                else: out.append((c, s2))
        cur = nxt
    return out + [(0, s) for s in cur]
ORDV = {-1: LESS, 0: EQUAL, 1: GREATER}
def local_cmp(I, st, a, ty):
    k = tkind(I, strip_ref(I, ty))
    if k and k['k'] == 'adt':
        for tr in ('Ord>::cmp',):
            b = I.p.bodies.get('<%s as core::cmp::%s' % (k['p'], tr))
            if b is not None: return b
    return None
@m('Ord.cmp')
def cmp_(I, st, a, f, sp):
    r = three(I, st, a[0], a[1], gty(I, f), sp)
    if r is None: return None
    return [RET(ORDV[c], s) for c, s in r]
@m('PartialOrd.partial_cmp')
def pcmp(I, st, a, f, sp):
    r = three(I, st, a[0], a[1], gty(I, f), sp)
    if r is None: return None
    return [RET(some(ORDV[c]), s) for c, s in r]
for nm, fn in (('lt', lambda c: c < 0), ('le', lambda c: c <= 0), ('gt', lambda c: c > 0), ('ge', lambda c: c >= 0)):
    def h(I, st, a, f, sp, fn=fn):
        ty = gty(I, f)
        r = three(I, st, a[0], a[1], ty, sp)
        if r is None: return None
        return [RET(B(fn(c)), s) for c, s in r]
    m('PartialOrd.' + nm)(h)
def ord_split(I, st, v, sp):
    v = I.deref(st, v)
    if isinstance(v, tuple) and v[0] == 'adt' and v[1] == ORD: return [(v[2] - 1, st)]
    d = I.discr(st, v)
    if isinstance(d, T) and d.adt is None: d.adt = (-1, 1)
    return I.cmp_split(st, d, None, sp)
def ordm(fn):
    def h(I, st, a, f, sp): return [RET(fn(c, a), s) for c, s in ord_split(I, st, a[0], sp)]
    return h
m('Ordering.reverse')(ordm(lambda c, a: ORDV[-c]))
m('Ordering.is_eq')(ordm(lambda c, a: B(c == 0)))
m('Ordering.is_ne')(ordm(lambda c, a: B(c != 0)))
m('Ordering.is_lt')(ordm(lambda c, a: B(c < 0)))
m('Ordering.is_gt')(ordm(lambda c, a: B(c > 0)))
m('Ordering.is_le')(ordm(lambda c, a: B(c <= 0)))
m('Ordering.is_ge')(ordm(lambda c, a: B(c >= 0)))
m('Ordering.then')(ordm(lambda c, a: a[1] if c == 0 else ORDV[c]))
@m('Ordering.then_with')
def then_with(I, st, a, f, sp):
    out = []
    for c, s in ord_split(I, st, a[0], sp):
        if c: out.append(RET(ORDV[c], s))
        else: out += list(call(I, a[1], [], s, sp))
    return out
def minmax(which):
    def h(I, st, a, f, sp):
        r = three(I, st, a[0], a[1], gty(I, f), sp)
        if r is None: return None
        return [RET(a[0] if (c <= 0 if which == 'min' else c > 0) else a[1], s) for c, s in r]
    return h
m('Ord.min', 'cmp.min')(minmax('min')); m('Ord.max', 'cmp.max')(minmax('max'))
@m('Ord.clamp')
def clamp(I, st, a, f, sp):
    out = []
    for tr, s in I.split(st, ilt(a[0], a[1]), sp):
        if tr: out.append(RET(a[1], s)); continue
        for t2, s2 in I.split(s, ilt(a[2], a[0]), sp): out.append(RET(a[2] if t2 else a[0], s2))
    return out

# ------------------------------------------------------------------ integers
def isbv(v): return isinstance(v, tuple) and v and v[0] == 'bv'
@m('int.abs', 'int.unsigned_abs', 'int.wrapping_abs')
def abs_(I, st, a, f, sp):
    v = I.deref(st, a[0])
    if isbv(v): return [RET(('bv', False, v[2]), st)]
    return [RET(scale(v, -1) if tr else v, s) for tr, s in I.split(st, lt0(v), sp)]
@m('int.wrapping_neg')
def wneg(I, st, a, f, sp):
    mm = re.search(r'<impl (\w+)>', f['p'])
    x = I.deref(st, a[0])
    if isbv(x): return [RET(bv_neg(x, mm.group(1) if mm else None), st)]
    return arith('Sub')(I, st, [I_(0), x], f, sp)
@m('int.signum')
def signum(I, st, a, f, sp): return [RET(I_(c), s) for c, s in I.cmp_split(st, a[0], None, sp)]
@m('int.is_negative')
def isneg(I, st, a, f, sp): return [RET(lt0(a[0]) if not isbv(a[0]) else B(a[0][1]), st)]
@m('int.is_positive')
def ispos(I, st, a, f, sp): return [RET(ilt(I_(0), a[0]), st)]
def arith(op):
    def h(I, st, a, f, sp):
        x = I.deref(st, a[0]); y = I.deref(st, a[1])
        ty = None
        r = I.binop0(st, op, x, y, None) if not (isbv(x) or isbv(y)) else bv_bin(I, op, x, y, None, sp, False)
        mm = re.search(r'<impl (\w+)>', f['p']); n = mm.group(1) if mm else None
        if n in RANGE and n[0] == 'i' and lin(r) is not None: I.note_arith(st, op, x, y, r, n, sp)
        c = const_int(r) if is_int(r) else None
        if n in WID and c is not None:      # known: wrapped exactly
            w = WID[n]; c &= (1 << w) - 1
            r = I_(c - (1 << w) if n[0] == 'i' and c >> (w - 1) else c)
        return [RET(r, st)]
    return h
for op, n in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
    m('int.wrapping_' + n, 'int.' + n, 'int.unchecked_' + n)(arith(op))
    m(n.capitalize() + '.' + n)(arith(op))
    def h(I, st, a, f, sp, op=op):
        return [RET(some(I.binop0(st, op, I.deref(st, a[0]), I.deref(st, a[1]), None)), st)]
def checked(op):
    def h(I, st, a, f, sp):
        r = I.binop0(st, op, I.deref(st, a[0]), I.deref(st, a[1]), None)
        mm = re.search(r'<impl (\w+)>', f['p']); n = mm.group(1) if mm else None
        if n in RANGE and n.startswith('u') and op == 'Sub':
            return [RET(NONE if tr else some(r), s) for tr, s in I.split(st, lt0(r), sp)]
        return [RET(some(r), st)]
    return h
def saturating(op):
    def h(I, st, a, f, sp):
        r = I.binop0(st, op, I.deref(st, a[0]), I.deref(st, a[1]), None)
        mm = re.search(r'<impl (\w+)>', f['p']); n = mm.group(1) if mm else None
        if n in RANGE and n.startswith('u') and op == 'Sub':
            return [RET(I_(0) if tr else r, s) for tr, s in I.split(st, lt0(r), sp)]
        return [RET(r, st)]
    return h
for op, n in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
    m('int.checked_' + n)(checked(op)); m('int.saturating_' + n)(saturating(op))
for op, n in (('Add', 'add_assign'), ('Sub', 'sub_assign')):
    def h(I, st, a, f, sp, op=op):
        v = I.read(st, loc(I, st, a[0])); w = I.deref(st, a[1])
        st = st.copy()
        if op == 'Add' and (is_string_ty(I, gty(I, f)) or (isinstance(v, tuple) and v[0] == 's')):
            set_(I, st, a[0], concat(v, w)); return [RET(UNIT, st)]
        if lin(v) is None: return None
        set_(I, st, a[0], I.binop0(st, op, v, w, None)); return [RET(UNIT, st)]
    m(op + 'Assign.' + n)(h)
@m('Add.add')
def add_tr(I, st, a, f, sp):
    x = I.deref(st, a[0]); y = I.deref(st, a[1])
    if is_string_ty(I, gty(I, f)): return [RET(concat(x, y), st)]
    return [RET(I.binop0(st, 'Add', x, y, None), st)]
@m('int.rem_euclid', 'int.div_euclid', 'int.pow', 'int.leading_zeros', 'int.trailing_zeros')
def int_misc(I, st, a, f, sp):
    cs = [const_int(I.deref(st, x)) for x in a]
    if None in cs and f['name'] == 'rem_euclid':
        x, d = I.deref(st, a[0]), I.deref(st, a[1])
        if not (is_int(x) and is_int(d)) or st.facts.ev(ilt(I_(0), d)) is not True: return None
        out = []
        for lo, s in I.split(st, lt0(x), sp):        # exact within one divisor of the range, bounded beyond
            for far, s2 in I.split(s, ilt(x, sub(I_(0), d)) if lo else ile(d, x), sp):
                if not far: out.append(RET(add(x, d) if lo else x, s2)); continue
                for far2, s3 in ([(True, s2)] if lo else I.split(s2, ile(add(d, d), x), sp)):
                    if not far2: out.append(RET(sub(x, d), s3)); continue
                    r = t('rem_euclid', x, d, ty=getattr(x, 'ty', None)); s4 = s3.copy(); ff = s4.facts.assume(lt0(r), False); ff = ff and ff.assume(ilt(r, d), True)
                    if ff is None: continue
                    s4.facts = ff; out.append(RET(r, s4))
        return out
    if None in cs: return None
    if f['name'] == 'pow': return [RET(I_(cs[0] ** cs[1]), st)]
    if f['name'] == 'rem_euclid': return [RET(I_(cs[0] % abs(cs[1])), st)]
    return None

# ------------------------------------------------------------------ strings
def sref(I, st, v):
    """(location of a mutable string, value)"""
    r = inner_ref(I, st, v)
    return r, I.deref(st, r)
@m('String.push', 'String.push_str')
def push_str(I, st, a, f, sp):
    st = st.copy(); r, v = sref(I, st, a[0]); set_(I, st, r, concat(v, I.deref(st, a[1]))); return [RET(UNIT, st)]
@m('String.clear')
def sclear(I, st, a, f, sp): st = st.copy(); set_(I, st, inner_ref(I, st, a[0]), S('')); return [RET(UNIT, st)]
@m('String.insert_str', 'String.insert')
def sinsert(I, st, a, f, sp):
    if const_int(a[1]) != 0: return None
    st = st.copy(); r, v = sref(I, st, a[0]); set_(I, st, r, concat(I.deref(st, a[2]), v)); return [RET(UNIT, st)]
@m('str.len', 'String.len')
def slen(I, st, a, f, sp): return [RET(str_len(I.deref(st, a[0])), st)]
@m('str.is_empty', 'String.is_empty')
def sempty(I, st, a, f, sp): return [RET(eq0(str_len(I.deref(st, a[0]))), st)]
def pat(I, st, v):
    v = I.deref(st, v); return v
@m('str.contains')
def scontains(I, st, a, f, sp):
    x = I.deref(st, a[0]); p = pat(I, st, a[1]); lx, lp = lit(x), lit(p)
    if lx is not None and lp is not None: return [RET(B(lp in lx), st)]
    if lp is not None and any(isinstance(q, str) and lp in q for q in parts(x)): return [RET(TRUE, st)]
    return [RET(t('contains', x, p), st)]
def chars_of(v):
    l = lit(v)
    if l is not None: return ('seq', tuple(('one', S(c)) for c in l))
    if isinstance(v, T) and v.op == 'sdrop' and const_int(v.args[1]) is not None: return seq_drop(chars_of(v.args[0]), v.args[1])
    return t('chars', v)
@m('str.chars')
def schars(I, st, a, f, sp): return [RET(own_it(chars_of(I.deref(st, a[0]))), st)]
@m('str.bytes')
def sbytes(I, st, a, f, sp): return [RET(own_it(t('bytesof', I.deref(st, a[0]))), st)]
@m('str.char_indices')
def schari(I, st, a, f, sp): return [RET(own_it(t('charidx', I.deref(st, a[0]))), st)]
@m('str.starts_with')
def sstarts(I, st, a, f, sp):
    x = I.deref(st, a[0]); p = pat(I, st, a[1]); lx, lp = lit(x), lit(p)
    if lx is not None and lp is not None: return [RET(B(lx.startswith(lp)), st)]
    if lp is not None and isinstance(x, T):
        c = chars_of(x); out = []; cur = [st]
        for i, ch in enumerate(lp):
            nxt = []
            for s in cur:
                for tr, s2 in I.split(s, ilt(I_(i), seq_len(c)), sp):
                    if not tr: out.append(RET(FALSE, s2)); continue
                    for t2, s3 in I.split(s2, I.streq(elem(c, I_(i)), S(ch)), sp):
                        if t2: nxt.append(s3)
                        else: out.append(RET(FALSE, s3))
            cur = nxt
        return out + [RET(TRUE, s) for s in cur]
    ps = parts(x)
    if lp is not None and ps and isinstance(ps[0], str) and len(ps[0]) >= len(lp): return [RET(B(ps[0].startswith(lp)), st)]
    return [RET(t('starts_with', x, p), st)]
# ------------------------------------------------------------------ URLs: serialising and parsing again gives the same URL
@m('Url.parse')
def urlparse(I, st, a, f, sp):
    x = I.deep(st, a[0])
    if isinstance(x, T) and x.op == 'urlstr': return [RET(ok(x.args[0]), st)]
    return None
@m('Url.join')
def urljoin(I, st, a, f, sp):
    x = lit(I.deep(st, a[1]))
    if x is not None and x != '': return [RET(t('urljoin_lit', I.deep(st, a[0]), S(x)), st)]
    return None
def path_form(I, st, u, x):
    """path of u with a final slash ('edir'), up to its last slash ('dirof'), the path itself (None), or x as it is"""
    P = t('call', 'url:Url::path', u); seg = t('split', P, S('/')); last = elem(seg, add(seq_len(seg), I_(-1)))
    noop = (P, t('join', seg, S('/')))
    if x in noop: return None
    ends = st.facts.ev(t('ends_with', P, S('/')))
    if x == t('call', 'regex:Regex::replace', t('regex', S(canon_regex('/?$'))), P, S('/')): return None if ends is True else t('edir', P)
    if x == mkstr((P, '/')) and ends is False: return t('edir', P)
    if isinstance(x, T) and x.op == 'join' and x.args[1] == S('/') and x.args[0] == mkseq((('all', t('init', seg)), ('one', S('')))):
        return None if st.facts.ev(eq0(str_len(last))) is True else t('dirof', P)
    rf, ro = t('rfind', P, S('/')), t('rsplit_once', P, S('/'))
    if isinstance(x, T) and x.op == 'sindex' and x.args[0] is P and isinstance(x.args[1], tuple) and x.args[1][0] == 'adt':
        r = x.args[1]; i = fld(rf, 0, 1)
        if r[1].endswith('RangeTo') and r[3][0] == add(i, I_(1)) or r[1].endswith('RangeToInclusive') and r[3][0] == i: return t('dirof', P)
    if x == mkstr((fld(fld(ro, 0, 1), 0), '/')): return t('dirof', P)
    if x == S('') and any(st.facts.ev(eq0(t('discr', q))) is True for q in (rf, ro)): return t('dirof', P)
    return x
@m('Url.set_path')
def urlsetpath(I, st, a, f, sp):
    u, x = I.deep(st, a[0]), I.deep(st, a[1])
    p = path_form(I, st, u, x)
    if p is None: return [RET(UNIT, st)]
    st = st.copy(); r = inner_ref(I, st, a[0]); set_(I, st, r, t('after', 'url:Url::set_path', I_(0), u, p))
    st.ev(('call', 'url:Url::set_path', (u, p), sp))
    return [RET(UNIT, st)]
def slit(name, fn):
    def h(I, st, a, f, sp):
        vs = [I.deref(st, x) for x in a]
        ls = [lit(v) if lit(v) is not None else const_int(v) if is_int(v) else None for v in vs]
        if all(l is not None for l in ls):
            r = fn(*ls)
            if r is not None: return [RET(r, st)]
        return [RET(t(name, *vs), st)]
    m('str.' + name)(h)
slit('ends_with', lambda x, p: B(x.endswith(p)))
slit('replace', lambda x, p, q: S(x.replace(p, q)))
slit('replacen', lambda x, p, q, n: S(x.replace(p, q, n)))
slit('trim', lambda x: S(x.strip()))
slit('trim_start', lambda x: S(x.lstrip()))
slit('trim_end', lambda x: S(x.rstrip()))
def trim_m(x, p, left):
    if not isinstance(p, str) or not p: return S(x) if p == '' else None
    while x and (x.startswith(p) if left else x.endswith(p)): x = x[len(p):] if left else x[:-len(p)]
    return S(x)
slit('trim_start_matches', lambda x, p: trim_m(x, p, True))
slit('trim_end_matches', lambda x, p: trim_m(x, p, False))
slit('to_lowercase', lambda x: S(x.lower()))
slit('to_uppercase', lambda x: S(x.upper()))
slit('to_ascii_lowercase', lambda x: S(x.lower()))
slit('eq_ignore_ascii_case', lambda x, y: B(x.lower() == y.lower()))
@m('str.repeat', 'slice.repeat')
def srepeat(I, st, a, f, sp):
    x = I.deref(st, a[0]); l = lit(x)
    if l is not None: return [RET(V.rep(l, a[1]), st)]
    return [RET(t('repeat', x, a[1]), st)]
@m('str.strip_prefix', 'str.strip_suffix')
def sstrip(I, st, a, f, sp):
    x = I.deref(st, a[0]); p = pat(I, st, a[1]); lx, lp = lit(x), lit(p)
    pre = f['name'] == 'strip_prefix'
    if lx is not None and lp is not None:
        if pre: return [RET(some(S(lx[len(lp):])) if lx.startswith(lp) else NONE, st)]
        return [RET(some(S(lx[:len(lx) - len(lp)])) if lx.endswith(lp) else NONE, st)]
    if pre and lp is not None:
        return then(sstarts(I, st, a, f, sp), lambda c, s: [RET(some(t('sdrop', x, I_(len(lp)))) if tr else NONE, s2) for tr, s2 in I.split(s, c, sp)])
    return None
@m('str.split')
def ssplit(I, st, a, f, sp):
    x = I.deref(st, a[0]); p = pat(I, st, a[1]); lx, lp = lit(x), lit(p)
    if lx is not None and lp: return [RET(own_it(('seq', tuple(('one', S(q)) for q in lx.split(lp)))), st)]
    return [RET(own_it(t('split', x, p)), st)]
@m('str.splitn', 'str.rsplit', 'str.rsplitn', 'str.split_terminator', 'str.lines', 'str.split_whitespace', 'str.matches', 'str.match_indices')
def ssplit2(I, st, a, f, sp): return [RET(own_it(t(f['name'], *[I.deref(st, x) for x in a])), st)]
@m('str.split_once', 'str.rsplit_once', 'str.find', 'str.rfind', 'str.get')
def sfind(I, st, a, f, sp): return [RET(t(f['name'], *[I.deref(st, x) for x in a]), st)]
@m('str.parse')
def sparse(I, st, a, f, sp):
    x = I.deref(st, a[0]); k = tkind(I, gty(I, f)); l = lit(x)
    if l is not None and k:
        if k['k'] == 'char': return [RET(ok(x) if len(l) == 1 else err(t('parse_err')), st)]
        if k['k'] == 'int' and re.fullmatch(r'[+-]?\d+', l): return [RET(ok(I_(int(l))), st)]
    return [RET(t('parse', x, S(k['s'] if k else '')), st)]
@m('FromStr.from_str')
def from_str(I, st, a, f, sp):
    if is_string_ty(I, gty(I, f)): return [RET(ok(I.deref(st, a[0])), st)]
    return None
@m('char.from', 'char.from_u32', 'char.from_digit')
def char_from(I, st, a, f, sp):
    c = const_int(a[0])
    if c is None or len(a) > 1: return None
    return [RET(S(chr(c)) if f['name'] == 'from' else some(S(chr(c))), st)]
@m('char.is_ascii_digit', 'char.is_alphanumeric', 'char.is_ascii_alphanumeric', 'char.is_numeric', 'char.is_alphabetic', 'char.is_ascii_alphabetic', 'char.is_ascii', 'char.is_whitespace')
def char_is(I, st, a, f, sp): return [RET(t(f['name'], I.deref(st, a[0])), st)]

# ------------------------------------------------------------------ Vec / slice
def seqref(I, st, v):
    r = inner_ref(I, st, v)
    return r, I.deref(st, r)
@m('Vec.len', 'slice.len', 'LinkedList.len', 'VecDeque.len')
def vlen(I, st, a, f, sp): return [RET(I.length(st, a[0]), st)]
@m('Vec.is_empty', 'slice.is_empty', 'LinkedList.is_empty', 'VecDeque.is_empty')
def vempty(I, st, a, f, sp): return [RET(eq0(I.length(st, a[0])), st)]
@m('Vec.push', 'LinkedList.push_back', 'VecDeque.push_back')
def vpush(I, st, a, f, sp):
    st = st.copy(); r, v = seqref(I, st, a[0]); set_(I, st, r, mkseq(seq_pieces(v) + (('one', a[1]),))); return [RET(UNIT, st)]
@m('LinkedList.push_front', 'VecDeque.push_front')
def vpushf(I, st, a, f, sp):
    st = st.copy(); r, v = seqref(I, st, a[0]); set_(I, st, r, mkseq((('one', a[1]),) + seq_pieces(v))); return [RET(UNIT, st)]
@m('Vec.insert')
def vinsert(I, st, a, f, sp):
    st = st.copy(); r, v = seqref(I, st, a[0]); c = const_int(a[1])
    ps = seq_pieces(v)
    if c == 0: set_(I, st, r, mkseq((('one', a[2]),) + ps)); return [RET(UNIT, st)]
    if c is not None and c <= len(ps) and all(p[0] == 'one' for p in ps[:c]): set_(I, st, r, mkseq(ps[:c] + (('one', a[2]),) + ps[c:])); return [RET(UNIT, st)]
    return None
@m('Vec.clear', 'LinkedList.clear', 'VecDeque.clear')
def vclear(I, st, a, f, sp): st = st.copy(); set_(I, st, inner_ref(I, st, a[0]), EMPTY); return [RET(UNIT, st)]
def seq_drop(v, n):
    n = I_(n) if isinstance(n, int) else n
    c = const_int(n)
    if c == 0: return v
    ps = seq_pieces(v)
    if c is not None and not (len(ps) == 1 and ps[0][0] == 'all'):
        i = 0
        while i < len(ps) and i < c and ps[i][0] == 'one': i += 1
        if i == c or i == len(ps): return mkseq(ps[i:])
        if i: return seq_drop(mkseq(ps[i:]), I_(c - i))
    if isinstance(v, T) and v.op == 'drop': return t('drop', v.args[0], add(v.args[1], n))
    return t('drop', v, n)
def seq_init(v):
    ps = seq_pieces(v)
    if ps and ps[-1][0] == 'one': return mkseq(ps[:-1])
    return t('init', v)
def seq_last(v):
    ps = seq_pieces(v)
    if ps and ps[-1][0] == 'one': return ps[-1][1]
    return elem(v, add(seq_len(v), I_(-1)))
def nonempty(I, st, v, sp):
    """-> [(bool, st)]"""
    return [(not tr, s) for tr, s in I.split(st, eq0(seq_len(v)), sp)]
@m('Vec.pop', 'LinkedList.pop_back', 'VecDeque.pop_back')
def vpop(I, st, a, f, sp):
    r, v = seqref(I, st, a[0]); out = []
    for ne_, s in nonempty(I, st, v, sp):
        s = s.copy()
        if not ne_: out.append(RET(NONE, s)); continue
        set_(I, s, r, seq_init(v)); out.append(RET(some(seq_last(v)), s))
    return out
@m('LinkedList.pop_front', 'VecDeque.pop_front')
def vpopf(I, st, a, f, sp):
    r, v = seqref(I, st, a[0]); out = []
    for ne_, s in nonempty(I, st, v, sp):
        s = s.copy()
        if not ne_: out.append(RET(NONE, s)); continue
        set_(I, s, r, seq_drop(v, 1)); out.append(RET(some(elem(v, I_(0))), s))
    return out
@m('slice.first', 'slice.last', 'slice.last_mut', 'slice.first_mut', 'LinkedList.front', 'LinkedList.back', 'VecDeque.front', 'VecDeque.back', 'LinkedList.front_mut', 'LinkedList.back_mut')
def vfirst(I, st, a, f, sp):
    r, v = seqref(I, st, a[0]); out = []
    for ne_, s in nonempty(I, st, v, sp):
        if not ne_: out.append(RET(NONE, s)); continue
        k = I_(0) if f['name'].startswith(('first', 'front')) else add(seq_len(v), I_(-1))
        if not isref(r): r = I.tmp(s, v, 'sl')
        if f['name'] in ('last', 'back') and seq_pieces(v) and seq_pieces(v)[-1][0] == 'one' and seq_concrete(v) is None:
            out.append(RET(some(I.tmp(s, seq_pieces(v)[-1][1], 'last')), s)); continue
        out.append(RET(some(subref(I, s, r, ('x', k))), s))
    return out
def small_range(I, st, v, k, sp):
    """[(elements or None when out of range, state)] of a range of a list of known length"""
    e = seq_concrete(v)
    if e is None or len(e) > 4: return None
    nm = k[1].split('::')[-1]; n = len(e)
    if nm == 'RangeFull': return [(e, st)]
    lo = fld(k, 0) if nm in ('Range', 'RangeFrom', 'RangeInclusive') else I_(0)
    hi = fld(k, 1) if nm in ('Range', 'RangeInclusive') else fld(k, 0) if nm in ('RangeTo', 'RangeToInclusive') else I_(n) if nm == 'RangeFrom' else None
    if hi is None or not is_int(lo) or not is_int(hi): return None
    if 'Inclusive' in nm: hi = add(hi, I_(1))
    def which(s, x):
        if const_int(x) is not None: return [(const_int(x) if 0 <= const_int(x) <= n else None, s)]
        out = []; cur = [s]
        for j in range(n + 1):
            nxt = []
            for s in cur:
                for tr, s2 in I.split(s, ieq(x, I_(j)), sp):
                    if tr: out.append((j, s2))
                    else: nxt.append(s2)
            cur = nxt
        return out + [(None, s) for s in cur]
    return [(e[a:b] if a is not None and b is not None and a <= b else None, s2) for a, s in which(st, lo) for b, s2 in which(s, hi)]
@m('slice.get', 'slice.get_mut', 'Vec.get', 'Vec.get_mut')
def vget(I, st, a, f, sp):
    r, v = seqref(I, st, a[0]); k = I.deref(st, a[1])
    if isinstance(k, tuple) and k[0] == 'adt' and 'Range' in k[1]: 
        if V.SMALL and f['name'] == 'get':
            q = small_range(I, st, v, k, sp)
            if q is not None: return [RET(NONE if e is None else some(I.tmp(s, ('seq', tuple(('one', x) for x in e)), 'sl')), s) for e, s in ((e, s.copy()) for e, s in q)]
        return [RET(t('slice_get', I.deep(st, v), k), st)]
    if not isref(r): r = I.tmp(st, v, 'sl')
    out = []
    for tr, s in I.split(st, lt0(k), sp):
        if tr: out.append(RET(NONE, s)); continue     # reinterpreted as a huge index
        for t2, s2 in I.split(s, ilt(k, seq_len(v)), sp):
            out.append(RET(some(subref(I, s2, r, ('x', k))) if t2 else NONE, s2))
    return out
@m('Index.index', 'IndexMut.index_mut', 'Vec.index', 'slice.index', 'Vec.index_mut')
def vindex(I, st, a, f, sp):
    k = I.deref(st, a[1]); ty = gty(I, f)
    if is_string_ty(I, ty):
        x = I.deref(st, a[0])
        if isinstance(k, tuple) and k[0] == 'adt' and k[1].endswith('RangeFrom'):
            n = fld(k, 0)
            if lit(x) is not None and const_int(n) is not None: return [RET(S(lit(x)[const_int(n):]), st)]
            return [RET(t('sdrop', x, n), st)]
        if isinstance(k, tuple) and k[0] == 'adt' and k[1].endswith('RangeTo') and const_int(fld(k, 0)) == 0: return [RET(S(''), st)]
        if isinstance(k, tuple) and k[0] == 'adt' and k[1].endswith('RangeFull'): return [RET(x, st)]
        return [RET(t('sindex', x, k), st)]
    r, v = seqref(I, st, a[0])
    if isinstance(v, tuple) and v and v[0] == 'map' or is_adt(I, ty, 'std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap'):
        return then(map_get(I, st, a, f, sp), lambda o, s: [RET(p, s2) if p is not None else PANIC(s2, 'index', None, here(I, s2, sp)) for p, s2 in I.opt_split(s, o, sp)])
    if isinstance(k, tuple) and k[0] == 'adt' and 'Range' in k[1]:
        nm = k[1].split('::')[-1]
        if nm == 'RangeFull': return [RET(a[0], st)]
        if V.SMALL and f['name'] == 'index':
            q = small_range(I, st, v, k, sp)
            if q is not None: return [PANIC(s, 'index', None, here(I, s, sp)) if e is None else RET(I.tmp(s, ('seq', tuple(('one', x) for x in e)), 'sl'), s) for e, s in ((e, s.copy()) for e, s in q)]
        if nm == 'RangeFrom': return [RET(I.tmp(st, seq_drop(v, fld(k, 0)), 'sl'), st)]
        return [RET(I.tmp(st, t('subslice', v, k), 'sl'), st)]
    if not isref(r): r = I.tmp(st, v, 'sl')
    out = []
    for tr, s in I.split(st, ilt(k, seq_len(v)), sp):
        out.append(RET(subref(I, s, r, ('x', k)), s) if tr else PANIC(s, 'index', None, here(I, s, sp)))
    return out
@m('slice.contains', 'Vec.contains', 'LinkedList.contains')
def vcontains(I, st, a, f, sp):
    r, v = seqref(I, st, a[0]); x = I.deref(st, a[1]); e = seq_concrete(v)
    if e is not None and len(e) <= 8:
        out = []; cur = [st]
        for y in e:
            nxt = []
            for s in cur:
                for tr, s2 in I.eq_split(s, y, x, gty(I, f), sp):
                    if tr: out.append(RET(TRUE, s2))
                    else: nxt.append(s2)
            cur = nxt
        return out + [RET(FALSE, s) for s in cur]
    return [RET(t('in', I.deep(st, v), I.deep(st, x)), st)]
@m('slice.join', 'Vec.join', 'Join.join', 'slice.concat')
def vjoin(I, st, a, f, sp):
    if f['name'] == 'concat' and coll_kind(I, gty(I, f)) == 'seq':       # a list of lists
        out = []
        for it, s in to_iter(I, st, a[0], None):
            for o in it_flatten(I, s, [it], {**f, 'name': 'flatten'}, sp):
                if o[0] != 'ret': out.append(o); continue
                s2 = o[2].copy(); c = acc_cell(I, s2, EMPTY, sp, 'concat')
                def item(x, s3):
                    s3 = s3.copy(); add_to(I, s3, c, 'seq', I.deref(s3, x)); return [('next', s3)]
                out += drive(I, s2, o[1], sp, 'concat', item, lambda s3: [RET(s3.mem[c], s3)])
        return out
    r, v = seqref(I, st, a[0]); sep = I.deref(st, a[1]) if len(a) > 1 else S(''); e = seq_concrete(v)
    if e is not None:
        out = S('')
        for i, x in enumerate(e):
            if i: out = concat(out, sep)
            out = concat(out, I.deref(st, x))
        return [RET(out, st)]
    w = I.deep(st, v)
    if isinstance(w, tuple) and w[0] == 'upd' and len(w[2]) == 1:
        (k, x), = w[2]     # only the last element was replaced
        if k in (('x', add(seq_len(w[1]), I_(-1))), (('x', add(seq_len(w[1]), I_(-1))),)): w = mkseq((('all', t('init', w[1])), ('one', x)))
    return [RET(t('join', w, sep), st)]
def small_sort(I, st, a, f, sp, r, e):
    """a stable sort of a list of known length, comparison by comparison"""
    def order(x, y, s):             # [(sign of x against y, state)], other outcomes go to out
        s = s.copy(); fx, fy = I.tmp(s, x, 'sx'), I.tmp(s, y, 'sy')
        if f['name'] == 'sort_by':
            rr = []
            for o in call(I, a[1], [fx, fy], s, sp):
                if o[0] != 'ret': out.append(o); continue
                rr += ord_split(I, o[2], o[1], sp)
            return rr
        if f['name'] == 'sort': return three(I, s, x, y, gty(I, f), sp)
        rr = []
        for o in call(I, a[1], [fx], s, sp):
            if o[0] != 'ret': out.append(o); continue
            for o2 in call(I, a[1], [fy], o[2], sp):
                if o2[0] != 'ret': out.append(o2); continue
                q = three(I, o2[2], o[1], o2[1], gty(I, f, 1), sp)
                if q is None: return None
                rr += q
        return rr
    out = []; cur = [((), st)]
    for x in e:
        todo = [(kept, len(kept), s) for kept, s in cur]; nxt = []
        while todo:
            kept, j, s = todo.pop()
            if j == 0: nxt.append(((x,) + kept, s)); continue
            q = order(kept[j - 1], x, s)
            if q is None or len(nxt) + len(todo) > 200: return None
            for c, s2 in q:
                if c > 0: todo.append((kept, j - 1, s2))
                else: nxt.append((kept[:j] + (x,) + kept[j:], s2))
        cur = nxt
    for kept, s in cur:
        s = s.copy(); set_(I, s, r, ('seq', tuple(('one', x) for x in kept))); out.append(RET(UNIT, s))
    return out
@m('slice.sort_by', 'slice.sort_unstable_by', 'slice.sort', 'slice.sort_by_key', 'slice.sort_unstable', 'slice.sort_unstable_by_key', 'slice.sort_by_cached_key', 'slice.reverse')
def vsort(I, st, a, f, sp):
    st = st.copy(); r, v = seqref(I, st, a[0])
    w = I.deep(st, v)
    if f['name'] == 'reverse':
        e = seq_concrete(v)
        set_(I, st, r, ('seq', tuple(('one', x) for x in reversed(e))) if e is not None else t('rev', w)); return [RET(UNIT, st)]
    e = seq_concrete(v)
    if e is not None and len(e) <= 1: return [RET(UNIT, st)]
    if V.SMALL and e is not None and len(e) <= 4 and 'unstable' not in f['name']:
        r_ = small_sort(I, st, a, f, sp, r, e)
        if r_ is not None: return r_
    cl = I.deep(st, a[1]) if len(a) > 1 else UNIT
    st.ev(('sort', f['name'], w, cl, sp))
    set_(I, st, r, t('sorted', w, S(f['name']), cl)); return [RET(UNIT, st)]
@m('Vec.truncate', 'Vec.dedup', 'Vec.dedup_by', 'Vec.dedup_by_key', 'Vec.retain', 'Vec.drain', 'Vec.split_off', 'Vec.remove', 'Vec.swap_remove', 'slice.swap', 'slice.rotate_left', 'LinkedList.split_off')
def vmut_unknown(I, st, a, f, sp):
    st = st.copy(); r, v = seqref(I, st, a[0])
    e = seq_concrete(v) if V.SMALL else None
    if e is not None and f['name'] in ('retain', 'dedup', 'truncate'):      # a list of known length: element by element
        if f['name'] == 'truncate':
            out = []; cur = [st]
            for n in range(len(e) + 1):
                nxt = []
                for s in cur:
                    for tr, s2 in (I.split(s, ieq(a[1], I_(n)), sp) if n < len(e) else [(True, s)]):
                        if not tr: nxt.append(s2); continue
                        s2 = s2.copy(); set_(I, s2, r, ('seq', tuple(('one', x) for x in e[:n]))); out.append(RET(UNIT, s2))
                cur = nxt
            return out
        cur = [((), st)]; out = []
        for x in e:
            nxt = []
            for kept, s in cur:
                if f['name'] == 'retain':
                    s = s.copy()
                    for o in call(I, a[1], [I.tmp(s, x, 'mv')], s, sp):
                        if o[0] != 'ret': out.append(o); continue
                        for tr, s2 in I.split(o[2], o[1], sp): nxt.append((kept + (x,) if tr else kept, s2))
                elif not kept: nxt.append(((x,), s))
                else:
                    for tr, s2 in I.eq_split(s, kept[-1], x, gty(I, f), sp): nxt.append((kept if tr else kept + (x,), s2))
            cur = nxt
        for kept, s in cur:
            s = s.copy(); set_(I, s, r, ('seq', tuple(('one', x) for x in kept))); out.append(RET(UNIT, s))
        return out
    w = I.deep(st, v)
    c = const_int(a[1]) if len(a) > 1 and is_int(a[1]) else None
    if f['name'] == 'remove':
        out = []
        for tr, s in I.split(st, ilt(a[1], seq_len(v)), sp):
            s = s.copy()
            if not tr: out.append(PANIC(s, 'index', None, here(I, s, sp))); continue
            x = elem(v, a[1])
            set_(I, s, r, seq_drop(v, 1) if c == 0 else t('removed', w, a[1])); out.append(RET(x, s))
        return out
    rest = tuple(I.deep(st, x) for x in a[1:])
    if f['name'] == 'split_off':
        set_(I, st, r, t('take', w, a[1])); return [RET(seq_drop(v, a[1]), st)]
    st.ev(('mutate', f['name'], w, rest, sp))
    set_(I, st, r, t('mut_' + f['name'], w, *rest))
    return [RET(t('res_' + f['name'], w, *rest) if f['name'] in ('drain', 'swap_remove') else UNIT, st)]
@m('Vec.append', 'LinkedList.append')
def vappend(I, st, a, f, sp):
    st = st.copy(); r, v = seqref(I, st, a[0]); r2, w = seqref(I, st, a[1])
    set_(I, st, r, mkseq(seq_pieces(v) + seq_pieces(w))); set_(I, st, r2, EMPTY); return [RET(UNIT, st)]
@m('Vec.extend_from_slice')
def vextend_s(I, st, a, f, sp):
    st = st.copy(); r, v = seqref(I, st, a[0]); w = I.deep(st, a[1])
    set_(I, st, r, mkseq(seq_pieces(v) + seq_pieces(w))); return [RET(UNIT, st)]
@m('slice.into_vec', 'slice.box_assume_init_into_vec_unsafe', 'boxed.box_assume_init_into_vec_unsafe', 'vec.from_elem')
def into_vec(I, st, a, f, sp):
    if f['name'] == 'from_elem':
        n = const_int(a[1])
        if n is not None and n <= 512: return [RET(('seq', tuple(('one', a[0]) for _ in range(n))), st)]
        s = st.copy(); c = acc_cell(I, s, EMPTY, sp, 'collect')
        def item(x, s2):
            s2 = s2.copy(); add_to(I, s2, c, 'seq', x); return [('next', s2)]
        return drive(I, s, ('it', 'take', ('it', 'repeat', a[0]), a[1]), sp, 'collect', item, lambda s2: [RET(s2.mem[c], s2)])
    if isref(a[0]) and isinstance(a[0][1], tuple) and a[0][1][:1] == ('uninit',):
        l = loc(I, st, a[0])
        v = I.read(st, (l[0], l[1] + (('f', 1, None), ('f', 0, None))))
        return [RET(I.deref(st, v), st)]
    v = I.deref(st, a[0])
    return [RET(v, st)]
@m('Box.new_uninit')
def new_uninit(I, st, a, f, sp):
    st = st.copy(); return [RET(I.tmp(st, t('uninit', st.n), 'uninit'), st)]

# ------------------------------------------------------------------ maps / sets
def mapref(I, st, v):
    r = inner_ref(I, st, v); return r, I.deref(st, r)
def map_ops(v):
    if isinstance(v, tuple) and v[0] == 'map': return v[1], v[2]
    return v, ()
def map_find(I, st, v, k, sp, kt=None):
    """-> [(idx of op | ('base',) , st)]: which binding of k is live"""
    base, ops = map_ops(v); out = []; cur = [st]
    for i in range(len(ops) - 1, -1, -1):
        nxt = []
        for s in cur:
            for tr, s2 in I.eq_split(s, ops[i][1], k, kt, sp):
                if tr: out.append((i, s2))
                else: nxt.append(s2)
        cur = nxt
    for s in cur: out.append((None, s))
    return out
def map_lookup(I, st, v, k, sp, kt=None):
    """-> [(value or None, st)]"""
    base, ops = map_ops(v); out = []
    for i, s in map_find(I, st, v, k, sp, kt):
        if i is not None: out.append((ops[i][2] if ops[i][0] == 'ins' else None, s))
        elif base is None: out.append((None, s))
        else: out += I.opt_split(s, t('get', base, k), sp)
    return out
@m('HashMap.get', 'BTreeMap.get', 'HashMap.get_mut', 'HashSet.get')
def map_get(I, st, a, f, sp):
    r, v = mapref(I, st, a[0]); k = I.deep(st, a[1]); out = []
    if f.get('name') == 'get_mut': return [RET(NONE if x is None else some(x), s) for x, s in map_slot(I, st, r, k, sp, gty(I, f))]
    for x, s in map_lookup(I, st, v, k, sp, gty(I, f)):
        if x is None: out.append(RET(NONE, s))
        else: out.append(RET(some(x if isref(x) else I.tmp(s, x, 'mv')), s))
    return out
@m('HashMap.contains_key', 'BTreeMap.contains_key', 'HashSet.contains', 'BTreeSet.contains')
def map_has(I, st, a, f, sp):
    r, v = mapref(I, st, a[0]); k = I.deep(st, a[1])
    return [RET(B(x is not None), s) for x, s in map_lookup(I, st, v, k, sp, gty(I, f))]
@m('HashMap.insert', 'BTreeMap.insert')
def map_insert(I, st, a, f, sp):
    r, v = mapref(I, st, a[0]); k = I.deep(st, a[1]); base, ops = map_ops(v)
    st = st.copy(); set_(I, st, r, ('map', base, ops + (('ins', k, a[2]),)))
    st.ev(('map_insert', r, k, I.deep(st, a[2]), sp))
    return [RET(t('replaced', I.deep(st, v), k), st)]
@m('HashSet.insert', 'BTreeSet.insert')
def set_insert(I, st, a, f, sp):
    r, v = mapref(I, st, a[0]); k = I.deep(st, a[1]); out = []
    for x, s in map_lookup(I, st, v, k, sp, gty(I, f)):
        s = s.copy()
        if x is None:
            base, ops = map_ops(v); set_(I, s, r, ('map', base, ops + (('ins', k, UNIT),)))
        out.append(RET(B(x is None), s))
    return out
@m('HashMap.remove', 'BTreeMap.remove', 'HashSet.remove')
def map_remove(I, st, a, f, sp):
    r, v = mapref(I, st, a[0]); k = I.deep(st, a[1]); base, ops = map_ops(v)
    st = st.copy()
    set_(I, st, r, ('map', base, ops + (('rem', k, UNIT),)))
    return [RET(t('removed_val', I.deep(st, v), k), st)]
@m('HashMap.len', 'HashSet.len', 'BTreeMap.len')
def map_len(I, st, a, f, sp):
    r, v = mapref(I, st, a[0]); base, ops = map_ops(v)
    if base is None and not ops: return [RET(I_(0), st)]
    return [RET(t('maplen', I.deep(st, v), ty='usize'), st)]
@m('HashMap.is_empty', 'HashSet.is_empty', 'BTreeMap.is_empty')
def map_empty(I, st, a, f, sp): return then(map_len(I, st, a, f, sp), lambda n, s: [RET(eq0(n), s)])
@m('HashMap.clear', 'HashSet.clear', 'BTreeMap.clear')
def map_clear(I, st, a, f, sp): st = st.copy(); set_(I, st, inner_ref(I, st, a[0]), EMPTYMAP); return [RET(UNIT, st)]
@m('HashMap.retain', 'BTreeMap.retain')
def map_retain(I, st, a, f, sp):
    """taking out the entries with one key is a removal; anything else is kept with the conditions an entry is taken out under"""
    r, v = mapref(I, st, a[0]); w = I.deep(st, v); n0 = len(st.trail); K = t('anykey', w); gone, kept = [], []
    s0 = st.copy(); tmp = (I.tmp(s0, K, 'rk'), I.tmp(s0, t('get', w, K) if not isinstance(w, tuple) else t('anyval', w), 'rv'))
    for o in call(I, a[1], list(tmp), s0, sp):
        if o[0] != 'ret': return None
        for tr, s2 in I.split(o[2], o[1], sp):
            (kept if tr else gone).append((tuple((I.deep(s2, c), b) for c, b, _ in s2.trail[n0:]), s2))
    st = st.copy()
    if not gone: return [RET(UNIT, st)]
    if len(gone) == 1 and len(gone[0][0]) == 1:
        for x in terms_in(gone[0][0][0][0]):
            for k in x.args:
                if K not in x.args or not isinstance(k, (T, tuple)) or k == K or not is_str(k) or any(y == K for y in terms_in(k)): continue
                if [tr for tr, _ in I.eq_split(gone[0][1], K, k, gty(I, f), sp)] == [True]:
                    base, ops = map_ops(v); set_(I, st, r, ('map', base, ops + (('rem', k, UNIT),))); return [RET(UNIT, st)]
    paths = lambda l: ('tup', tuple(('tup', tuple(('tup', (c, B(b))) for c, b in x)) for x, _ in l))
    set_(I, st, r, t('map_retained', w, paths(gone), paths(kept))); return [RET(UNIT, st)]
@m('HashMap.iter', 'HashMap.iter_mut', 'HashMap.keys', 'HashMap.values', 'HashMap.into_iter', 'HashMap.into_keys', 'HashMap.into_values', 'HashMap.drain', 'BTreeMap.iter', 'BTreeMap.keys', 'BTreeMap.values', 'HashSet.iter', 'HashSet.into_iter')
def map_iter(I, st, a, f, sp):
    r, v = mapref(I, st, a[0]); st.ev(('map_iter', I.deep(st, v), sp))
    return [RET(own_it(t('entries' if f['name'] in ('iter', 'into_iter', 'iter_mut', 'drain') else f['name'].replace('into_', ''), I.deep(st, v))), st)]
def map_slot(I, st, r, k, sp, kt=None):
    """[(reference to the value stored under k, or None, state)]"""
    v = I.deref(st, r); base, ops = map_ops(v); out = []
    for i, s in map_find(I, st, v, k, sp, kt):
        if i is not None: out.append((subref(I, s, r, ('mv', i)) if ops[i][0] == 'ins' else None, s))
        elif base is None: out.append((None, s))
        else: out += [(None if p is None else subref(I, s2, r, ('mb', k)), s2) for p, s2 in I.opt_split(s, t('get', base, k), sp)]
    return out
def map_put(I, st, r, k, v, sp):
    st = st.copy(); base, ops = map_ops(I.deref(st, r)); set_(I, st, r, ('map', base, ops + (('ins', k, v),)))
    st.ev(('map_insert', r, k, I.deep(st, v), sp))
    return subref(I, st, r, ('mv', len(ops))), st
ENTRY_P = 'std::collections::hash::map::Entry'
@m('HashMap.entry', 'BTreeMap.entry')
def map_entry(I, st, a, f, sp):
    r = inner_ref(I, st, a[0]); k = I.deep(st, a[1]); vac = 0 if 'BTree' in f['p'] else 1
    return [RET(('adt', ENTRY_P, vac if x is None else 1 - vac, (('adt', 'mapvac' if x is None else 'mapocc', 0, (r, k, x if x is not None else UNIT)),)), s)
            for x, s in map_slot(I, st, r, k, sp, gty(I, f))]
def entry_of(I, st, v):
    v = I.deref(st, v)
    if isinstance(v, tuple) and v[0] == 'adt' and v[1] == ENTRY_P: v = v[3][0]
    return (v[1] == 'mapocc',) + v[3] if isinstance(v, tuple) and v[0] == 'adt' and v[1] in ('mapvac', 'mapocc') else None
@m('Entry.or_insert', 'Entry.or_insert_with', 'Entry.or_default', 'Entry.or_insert_with_key', 'Entry.insert_entry', 'VacantEntry.insert', 'VacantEntry.insert_entry')
def entry_or(I, st, a, f, sp):
    e = entry_of(I, st, a[0])
    if e is None: return None
    occ, r, k, x = e; n = f['name']; out = []
    if n == 'insert_entry':
        if occ: st = st.copy(); set_(I, st, x, a[1])
        else: x, st = map_put(I, st, r, k, a[1], sp)
        return [RET(('adt', 'mapocc', 0, (r, k, x)), st)]
    if occ: return [RET(x, st)]
    if n in ('or_insert', 'insert'): vals = [('ret', a[1], st)]
    elif n == 'or_default':
        d = default_of(I, gty(I, f, 1))
        if d is None: return None
        vals = [('ret', d, st)]
    else: vals = list(call(I, a[1], [I.tmp(st, k, 'ek')] if n.endswith('key') else [], st, sp))
    for o in vals:
        if o[0] != 'ret': out.append(o); continue
        y, s2 = map_put(I, o[2], r, k, o[1], sp); out.append(RET(y, s2))
    return out
@m('Entry.and_modify')
def entry_modify(I, st, a, f, sp):
    e = entry_of(I, st, a[0])
    if e is None: return None
    if not e[0]: return [RET(a[0], st)]
    return [o if o[0] != 'ret' else RET(a[0], o[2]) for o in call(I, a[1], [e[3]], st, sp)]
@m('Entry.key', 'VacantEntry.key', 'OccupiedEntry.key', 'VacantEntry.into_key')
def entry_key(I, st, a, f, sp):
    e = entry_of(I, st, a[0])
    return None if e is None else [RET(e[2] if f['name'] == 'into_key' else I.tmp(st, e[2], 'ek'), st)]
@m('OccupiedEntry.get', 'OccupiedEntry.get_mut', 'OccupiedEntry.into_mut', 'OccupiedEntry.insert', 'OccupiedEntry.remove')
def entry_occ(I, st, a, f, sp):
    e = entry_of(I, st, a[0])
    if e is None or not e[0]: return None
    _, r, k, x = e; n = f['name']
    if n in ('get', 'get_mut', 'into_mut'): return [RET(x, st)]
    old = I.deref(st, x); st = st.copy()
    if n == 'insert': set_(I, st, x, a[1]); return [RET(old, st)]
    base, ops = map_ops(I.deref(st, r)); set_(I, st, r, ('map', base, ops + (('rem', k, UNIT),)))
    return [RET(old, st)]

# ------------------------------------------------------------------ iterators
def own_it(v): return ('it', 'own', v, I_(0))
RANGE_P = 'core::ops::range::Range'
def is_iter(v): return isinstance(v, tuple) and v and (v[0] == 'it' or (v[0] == 'adt' and v[1].endswith('::Range') ) or (v[0] == 'adt' and v[1].endswith('::RangeFrom')))
def to_iter(I, st, v, ty=None):
    """-> [(iterator value, st)]"""
    if is_iter(v): return [(v, st)]
    if isinstance(v, tuple) and v and v[0] == 'adt' and v[1].endswith('RangeInclusive'):
        return [(('it', 'rangeinc', fld(v, 0), fld(v, 1)), st)]
    if isref(v):
        r = inner_ref(I, st, v); w = I.read(st, loc(I, st, r))
        k = tkind(I, strip_ref(I, ty)) if ty is not None else None
        if is_iter(w): return [(('it', 'byref', r), st)]
        if isinstance(w, tuple) and w and w[0] == 'adt' and w[1] == OPT or (k and k['k'] == 'adt' and k['p'] == OPT):
            out = []
            for p, s in I.opt_split(st, w, ''):
                out.append((own_it(EMPTY if p is None else ('seq', (('one', subref(I, s, r, ('f', 0, 1))),))), s))
            return out
        if isinstance(w, tuple) and w and w[0] == 'map': return [(own_it(t('entries', I.deep(st, w))), st)]
        if isinstance(w, tuple) and w and w[0] == 's': return [(own_it(unk('iterstr', w)), st)]
        return [(('it', 'ref', r, I_(0)), st)]
    if isinstance(v, tuple) and v and v[0] == 'adt' and v[1] == OPT or (ty is not None and is_opt_ty(I, ty)):
        return [(own_it(EMPTY if p is None else ('seq', (('one', p),))), s) for p, s in I.opt_split(st, v, '')]
    if isinstance(v, tuple) and v and v[0] in ('seq',): return [(own_it(v), st)]
    if isinstance(v, tuple) and v and v[0] == 'map': return [(own_it(t('entries', v)), st)]
    return [(own_it(v), st)]

@m('IntoIterator.into_iter')
def into_iter(I, st, a, f, sp):
    return [RET(v, s) for v, s in to_iter(I, st, a[0], gty(I, f))]
@m('slice.iter', 'slice.iter_mut', 'LinkedList.iter', 'LinkedList.iter_mut', 'Vec.iter', 'VecDeque.iter')
def s_iter(I, st, a, f, sp):
    r, v = seqref(I, st, a[0])
    if not isref(r): r = I.tmp(st, v, 'sl')
    return [RET(('it', 'ref', r, I_(0)), st)]
@m('slice.windows', 'slice.chunks')
def s_windows(I, st, a, f, sp): return [RET(own_it(t(f['name'], I.deep(st, a[0]), a[1])), st)]

def unary(kind):
    def h(I, st, a, f, sp):
        out = []
        for it, s in to_iter(I, st, a[0], gty(I, f)):
            out.append(RET(('it', kind, it) + tuple(a[1:]), s))
        return out
    return h
for k in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'map_while'):
    m('Iterator.' + k)(unary(k))
m('Iterator.cloned', 'Iterator.copied')(unary('cloned'))
m('Iterator.fuse', 'Iterator.by_ref')(lambda I, st, a, f, sp: [RET(a[0] if f['name'] == 'fuse' else ('it', 'byref', inner_ref(I, st, a[0])), st)])
m('Iterator.enumerate')(lambda I, st, a, f, sp: [RET(('it', 'enumerate', it, I_(0)), s) for it, s in to_iter(I, st, a[0], gty(I, f))])
m('Iterator.peekable')(lambda I, st, a, f, sp: [RET(('it', 'peekable', it, UNIT), s) for it, s in to_iter(I, st, a[0], gty(I, f))])
@m('Iterator.skip')
def it_skip(I, st, a, f, sp):
    out = []
    for it, s in to_iter(I, st, a[0], gty(I, f)):
        n = a[1]
        if it[0] == 'it' and it[1] in ('own', 'ref'):
            if it[1] == 'own': out.append(RET(('it', 'own', seq_drop(it[2], add(it[3], n)), I_(0)), s))
            else: out.append(RET(('it', 'ref', it[2], add(it[3], n)), s))
        elif it[0] == 'it' and it[1] == 'map': 
            out += [RET(('it', 'map', o[1], it[3]), o[2]) for o in it_skip(I, s, [it[2], n], f, sp)] if is_simple(it[2]) else [RET(('it', 'skip', it, n), s)]
        else: out.append(RET(('it', 'skip', it, n), s))
    return out
def is_simple(it): return isinstance(it, tuple) and it[0] == 'it' and it[1] in ('own', 'ref')
m('Iterator.take')(lambda I, st, a, f, sp: [RET(('it', 'take', it, a[1]), s) for it, s in to_iter(I, st, a[0], gty(I, f))])
m('Iterator.step_by')(lambda I, st, a, f, sp: [RET(('it', 'step_by', it, a[1], TRUE), s) for it, s in to_iter(I, st, a[0], gty(I, f))])
@m('Iterator.chain')
def it_chain(I, st, a, f, sp):
    out = []
    for x, s in to_iter(I, st, a[0], gty(I, f)):
        for y, s2 in to_iter(I, s, a[1], gty(I, f, 1)): out.append(RET(('it', 'chain', x, y, FALSE), s2))
    return out
@m('Iterator.zip')
def it_zip(I, st, a, f, sp):
    out = []
    for x, s in to_iter(I, st, a[0], gty(I, f)):
        for y, s2 in to_iter(I, s, a[1], gty(I, f, 1)): out.append(RET(('it', 'zip', x, y), s2))
    return out
@m('DoubleEndedIterator.rev', 'Iterator.rev')
def it_rev(I, st, a, f, sp):
    out = []
    for it, s in to_iter(I, st, a[0], gty(I, f)):
        out.append(RET(('it', 'rev', it, I_(0)), s))
    return out
def fixed_one(I, st, it):
    """elements of an iterator that is fully known without splitting, or None"""
    if it[0] == 'it' and it[1] == 'own':
        e = seq_concrete(it[2]); c = const_int(it[3])
        if e is not None and c is not None: return e[c:]
    return None
@m('Iterator.flatten', 'Iterator.flat_map')
def it_flatten(I, st, a, f, sp):
    out = []
    for it, s in to_iter(I, st, a[0], gty(I, f)):
        if f['name'] == 'flat_map': it = ('it', 'map', it, a[1])
        e = fixed_one(I, s, it)
        if e is not None and len(e) == 0: out.append(RET(own_it(EMPTY), s)); continue
        if e is not None and len(e) == 1:
            ty = None
            for x, s2 in to_iter(I, s, e[0], ty): out.append(RET(x, s2))
            continue
        out.append(RET(('it', 'flat', it, NONE), s))
    return out
@m('once.once', 'iter.once', 'sources.once')
def it_once(I, st, a, f, sp): return [RET(own_it(('seq', (('one', a[0]),))), st)]
@m('repeat.repeat', 'iter.repeat')
def it_repeat(I, st, a, f, sp): return [RET(('it', 'repeat', a[0]), st)]
@m('repeat_n.repeat_n', 'iter.repeat_n')
def it_repeatn(I, st, a, f, sp): return [RET(('it', 'take', ('it', 'repeat', a[0]), a[1]), st)]
@m('empty.empty', 'iter.empty')
def it_empty(I, st, a, f, sp): return [RET(own_it(EMPTY), st)]
@m('from_fn.from_fn', 'successors.successors')
def it_from(I, st, a, f, sp): return None
@m('RangeInclusive.new')
def rinc(I, st, a, f, sp): return [RET(('it', 'rangeinc', a[0], a[1]), st)]

@m('Range.contains', 'RangeInclusive.contains', 'RangeFrom.contains', 'RangeTo.contains', 'RangeToInclusive.contains', 'RangeBounds.contains')
def rcontains(I, st, a, f, sp):
    r = I.deref(st, a[0]); x = I.deref(st, a[1])
    if isinstance(r, tuple) and r[0] == 'it' and r[1] == 'rangeinc': lo, hi, inc = r[2], r[3], True
    elif isinstance(r, tuple) and r[0] == 'adt':
        nm = r[1].split('::')[-1]
        if nm not in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeToInclusive'): return None
        lo = None if nm.startswith('RangeTo') else fld(r, 0)
        hi = None if nm == 'RangeFrom' else fld(r, 0 if nm.startswith('RangeTo') else 1)
        inc = nm.endswith('Inclusive')
    else: return None
    if any(v is not None and lin(I.deref(st, v)) is None for v in (lo, hi, x)): return None
    out = []; cur = st
    if lo is not None:
        cur = None
        for tr, s in I.split(st, ilt(x, I.deref(st, lo)), sp):
            if tr: out.append(RET(FALSE, s))
            else: cur = s
        if cur is None: return out
    if hi is not None:
        h = I.deref(st, hi)
        return out + [RET(B(tr), s) for tr, s in I.split(cur, ilt(x, add(h, I_(1)) if inc else h), sp)]
    return out + [RET(TRUE, cur)]

def step(I, st, l, sp):
    """advance the iterator stored at location l by at most one item.
    -> [('item', x, st) | ('skip', st) | ('end', st) | panic outcome]"""
    it = I.read(st, l)
    if isinstance(it, T):
        it = own_it(it); st = st.copy(); I.write(st, l, it)
    if isref(it): return step(I, st, I.loc_of(st, it), sp)
    if it[0] == 'adt' and it[1].endswith('::Range'):
        lo, hi = fld(it, 0), fld(it, 1); out = []
        for tr, s in I.split(st, ilt(lo, hi), sp):
            if not tr: out.append(('end', s)); continue
            s = s.copy(); I.write(s, (l[0], l[1] + (('f', 0, None),)), add(lo, I_(1))); out.append(('item', lo, s))
        return out
    if it[0] == 'adt' and it[1].endswith('::RangeFrom'):
        lo = fld(it, 0); s = st.copy(); I.write(s, (l[0], l[1] + (('f', 0, None),)), add(lo, I_(1))); return [('item', lo, s)]
    if it[0] != 'it': 
        return [('item', unk('iter', it), st), ('end', st)]
    k = it[1]
    def sl(i): return (l[0], l[1] + (('it', i),))
    out = []
    if k == 'byref': return step(I, st, I.loc_of(st, it[2]), sp)
    if k == 'repeat': return [('item', it[2], st)]
    if k == 'rangeinc':
        for tr, s in I.split(st, ilt(it[3], it[2]), sp):
            if tr: out.append(('end', s)); continue
            s = s.copy(); I.write(s, sl(2), add(it[2], I_(1))); out.append(('item', it[2], s))
        return out
    if k == 'own':
        v, pos = it[2], it[3]
        ps = seq_pieces(v); c = const_int(pos)
        if c is not None and c > 0:
            v2 = seq_drop(v, c)
            if not (isinstance(v2, T) and v2.op == 'drop'): pass
        for tr, s in I.split(st, ilt(pos, seq_len(v)), sp):
            if not tr: out.append(('end', s)); continue
            s = s.copy(); I.write(s, sl(3), add(pos, I_(1))); out.append(('item', elem(v, pos), s))
        return out
    if k == 'ref':
        r, pos = it[2], it[3]
        v = I.deref(st, r)
        for tr, s in I.split(st, ilt(pos, seq_len(v)), sp):
            if not tr: out.append(('end', s)); continue
            s = s.copy(); I.write(s, sl(3), add(pos, I_(1)))
            x = subref(I, s, r, ('x', pos))
            y = I.read(s, loc(I, s, x))
            out.append(('item', x, s))
        return out
    if k in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'map_while'):
        for o in step(I, st, sl(2), sp):
            if o[0] != 'item': out.append(o); continue
            x, s = o[1], o[2]
            fv = it[3]
            fr_ = ('ref', l[0], l[1] + (('it', 3),))
            if k == 'map': args = [x]
            elif k in ('filter_map', 'map_while'): args = [x]
            else: args = [I.tmp(s, x, 'itx')]
            if k == 'skip_while' and len(it) > 4: out.append(o); continue
            for q in I.call_value(fr_ if not (isinstance(fv, tuple) and fv[0] in ('ref', 'fn', 'pyfn')) else fv, args, s, (sp, k), sp):
                if q[0] != 'ret': out.append(q); continue
                r, s2 = q[1], q[2]
                if k == 'map': out.append(('item', r, s2))
                elif k == 'inspect': out.append(('item', x, s2))
                elif k in ('filter_map', 'map_while'):
                    for p, s3 in I.opt_split(s2, r, sp):
                        if p is not None: out.append(('item', p, s3))
                        else: out.append(('skip', s3) if k == 'filter_map' else ('end', s3))
                else:
                    for tr, s3 in I.split(s2, r, sp):
                        if k == 'filter': out.append(('item', x, s3) if tr else ('skip', s3))
                        elif k == 'take_while': out.append(('item', x, s3) if tr else ('end', s3))
                        else:
                            if tr: out.append(('skip', s3))
                            else:
                                s3 = s3.copy(); I.write(s3, l, it + (TRUE,)) if False else None
                                out.append(('item', x, s3))
        return out
    if k == 'cloned':
        for o in step(I, st, sl(2), sp):
            out.append(('item', I.deep(o[2], o[1]), o[2]) if o[0] == 'item' else o)
        return out
    if k == 'enumerate':
        for o in step(I, st, sl(2), sp):
            if o[0] != 'item': out.append(o); continue
            s = o[2].copy(); n = I.read(s, sl(3)); I.write(s, sl(3), add(n, I_(1))); out.append(('item', ('tup', (n, o[1])), s))
        return out
    if k == 'skip':
        n = it[3]
        for tr, s in I.split(st, ilt(I_(0), n), sp):
            for o in step(I, s, sl(2), sp):
                if o[0] == 'item' and tr:
                    s2 = o[2].copy(); I.write(s2, sl(3), add(n, I_(-1))); out.append(('skip', s2))
                else: out.append(o)
        return out
    if k == 'take':
        n = it[3]
        for tr, s in I.split(st, ilt(I_(0), n), sp):
            if not tr: out.append(('end', s)); continue
            for o in step(I, s, sl(2), sp):
                if o[0] == 'item':
                    s2 = o[2].copy(); I.write(s2, sl(3), add(n, I_(-1))); out.append(('item', o[1], s2))
                else: out.append(o)
        return out
    if k == 'chain':
        if it[4] == FALSE:
            for o in step(I, st, sl(2), sp):
                if o[0] == 'end':
                    s2 = o[1].copy(); I.write(s2, sl(4), TRUE)
                    out += step(I, s2, l, sp)
                else: out.append(o)
            return out
        if it[4] == TRUE: return step(I, st, sl(3), sp)
        for tr, s in I.split(st, it[4], sp):
            s = s.copy(); I.write(s, sl(4), B(tr)); out += step(I, s, l, sp)
        return out
    if k == 'zip':
        for o in step(I, st, sl(2), sp):
            if o[0] != 'item': out.append(o); continue
            for o2 in step(I, o[2], sl(3), sp):
                if o2[0] == 'item': out.append(('item', ('tup', (o[1], o2[1])), o2[2]))
                elif o2[0] == 'skip': out.append(('item', unk('zipskip'), o2[1]))
                else: out.append(o2)
        return out
    if k == 'rev':
        inner, n = it[2], it[3]
        base = None
        ad = []
        x = inner
        while isinstance(x, tuple) and x[0] == 'it' and x[1] in ('map', 'enumerate', 'cloned', 'filter', 'filter_map'): ad.append(x); x = x[2]
        if isinstance(x, tuple) and x[0] == 'adt' and x[1].endswith('::Range'):
            lo, hi = fld(x, 0), fld(x, 1); ln = sub(hi, lo); get = lambda s, k_: add(lo, k_)
        elif isinstance(x, tuple) and x[0] == 'it' and x[1] == 'own' and const_int(x[3]) == 0:
            ln = seq_len(x[2]); get = lambda s, k_: elem(x[2], k_)
        elif isinstance(x, tuple) and x[0] == 'it' and x[1] == 'ref' and const_int(x[3]) == 0:
            ln = seq_len(I.deref(st, x[2])); get = lambda s, k_: subref(I, s, x[2], ('x', k_))
        else:
            return [('item', unk('rev', I.deep(st, it)), st.copy()), ('end', st)]
        for tr, s in I.split(st, ilt(n, ln), sp):
            if not tr: out.append(('end', s)); continue
            s = s.copy(); I.write(s, sl(3), add(n, I_(1)))
            kx = add(sub(ln, n), I_(-1))
            cur = [('item', get(s, kx), s)]
            for a_ in reversed(ad):
                nxt = []
                for o in cur:
                    if o[0] != 'item': nxt.append(o); continue
                    x_, s_ = o[1], o[2]
                    if a_[1] == 'enumerate': nxt.append(('item', ('tup', (kx, x_)), s_))
                    elif a_[1] == 'cloned': nxt.append(('item', I.deep(s_, x_), s_))
                    else:
                        arg = x_ if a_[1] in ('map', 'filter_map') else I.tmp(s_, x_, 'itx')
                        for q in I.call_value(a_[3], [arg], s_, (sp, a_[1]), sp):
                            if q[0] != 'ret': nxt.append(q); continue
                            if a_[1] == 'map': nxt.append(('item', q[1], q[2]))
                            elif a_[1] == 'filter_map':
                                for p, s3 in I.opt_split(q[2], q[1], sp): nxt.append(('item', p, s3) if p is not None else ('skip', s3))
                            else:
                                for tr2, s3 in I.split(q[2], q[1], sp): nxt.append(('item', x_, s3) if tr2 else ('skip', s3))
                cur = nxt
            out += cur
        return out
    if k == 'flat':
        cur = it[3]
        for p, s in I.opt_split(st, cur, sp):
            if p is None:
                for o in step(I, s, sl(2), sp):
                    if o[0] != 'item': out.append(o); continue
                    for x, s2 in to_iter(I, o[2], o[1]):
                        s2 = s2.copy(); I.write(s2, sl(3), some(x)); out.append(('skip', s2))
            else:
                for o in step(I, s, (l[0], l[1] + (('it', 3), ('f', 0, 1))), sp):
                    if o[0] == 'end':
                        s2 = o[1].copy(); I.write(s2, sl(3), NONE); out.append(('skip', s2))
                    else: out.append(o)
        return out
    if k == 'peekable':
        pk = it[3]
        if pk == UNIT: return step(I, st, sl(2), sp)
        if isinstance(pk, tuple) and pk[0] == 'tup' and len(pk[1]) == 1:
            for p, s in I.opt_split(st, pk[1][0], sp):
                s = s.copy(); I.write(s, sl(3), UNIT)
                out.append(('item', p, s) if p is not None else ('end', s))
            return out
        return [('item', unk('peek', I.deep(st, it)), st.copy()), ('end', st)]
    if k == 'step_by':
        return [('item', unk('step_by', I.deep(st, it)), st.copy()), ('end', st)]
    return [('item', unk('iter', I.deep(st, it)), st.copy()), ('end', st)]

def may_skip(it):
    if not isinstance(it, tuple): return False
    if it[0] == 'it':
        if it[1] in ('filter', 'filter_map', 'flat', 'skip', 'skip_while'): return True
        return any(may_skip(x) for x in it[2:] if isinstance(x, tuple) and x and x[0] == 'it')
    return False

def floc(I, st, a):
    """location of the iterator a by-mut-ref/by-value argument denotes"""
    v = a
    if isref(v):
        r = inner_ref(I, st, v)
        w = I.read(st, loc(I, st, r))
        if isinstance(w, tuple) and w and w[0] == 'guard': return loc(I, st, w)
        return loc(I, st, r)
    r = I.tmp(st, v, 'itc')
    return loc(I, st, r)

def fkey(I, sp, tag):
    return ('C', I.stack[-1].id if I.stack else '', sp, tag)

@m('Iterator.next')
def it_next(I, st, a, f, sp):
    st = st.copy(); l = floc(I, st, a[0])
    it = I.read(st, l)
    if may_skip(it):
        def body(s):
            out = []
            for o in step(I, s, l, sp):
                if o[0] == 'skip': out.append(('back', o[1]))
                elif o[0] == 'item': out.append(('exit', ('item', o[1]), o[2]))
                elif o[0] == 'end': out.append(('exit', ('end',), o[1]))
                else: out.append(o)
            return out
        res = []
        for o in I.fix(fkey(I, sp, 'next'), st, body, 'next@' + sp):
            if o[0] == 'exit': res.append(RET(some(o[1][1]) if o[1][0] == 'item' else NONE, o[2]))
            else: res.append(o)
        return res
    res = []
    for o in step(I, st, l, sp):
        if o[0] == 'item': res.append(RET(some(o[1]), o[2]))
        elif o[0] == 'end': res.append(RET(NONE, o[1]))
        else: res.append(o)
    return res
@m('Peekable.peek')
def it_peek(I, st, a, f, sp):
    st = st.copy(); l = floc(I, st, a[0]); it = I.read(st, l); out = []
    if not (isinstance(it, tuple) and it[0] == 'it' and it[1] == 'peekable'): return None
    if it[3] != UNIT: return [RET(fld(it[3], 0), st)]
    for o in it_next(I, st, [('ref', l[0], l[1] + (('it', 2),))], f, sp):
        if o[0] != 'ret': out.append(o); continue
        s = o[2].copy(); I.write(s, (l[0], l[1] + (('it', 3),)), ('tup', (o[1],)))
        for p, s2 in I.opt_split(s, o[1], sp):
            out.append(RET(NONE if p is None else some(I.tmp(s2, p, 'pk')), s2))
    return out
@m('DoubleEndedIterator.next_back')
def it_next_back(I, st, a, f, sp):
    st = st.copy(); l = floc(I, st, a[0]); it = I.read(st, l); out = []
    if isinstance(it, tuple) and it[0] == 'it' and it[1] == 'own' and const_int(it[3]) == 0:
        for ne_, s in nonempty(I, st, it[2], sp):
            s = s.copy()
            if not ne_: out.append(RET(NONE, s)); continue
            I.write(s, (l[0], l[1] + (('it', 2),)), seq_init(it[2])); out.append(RET(some(seq_last(it[2])), s))
        return out
    return None

def drive(I, st, itv, sp, tag, on_item, on_end):
    """run an iterator to the end: on_item(x, st) -> [('next', st) | ('done', v, st) | outcome];
    on_end(st) -> [outcome]"""
    st = st.copy(); l = floc(I, st, itv)
    def body(s):
        out = []
        for o in step(I, s, l, sp):
            if o[0] == 'skip': out.append(('back', o[1]))
            elif o[0] == 'end': out.append(('exit', ('end',), o[1]))
            elif o[0] == 'item':
                for q in on_item(o[1], o[2]):
                    if q[0] == 'next': out.append(('back', q[1]))
                    elif q[0] == 'done': out.append(('exit', ('done', q[1]), q[2]))
                    else: out.append(q)
            else: out.append(o)
        return out
    res = []
    for o in I.fix(fkey(I, sp, tag), st, body, tag + '@' + sp):
        if o[0] == 'exit':
            if o[1][0] == 'end': res += list(on_end(o[2]))
            else: res.append(RET(o[1][1], o[2]))
        else: res.append(o)
    return res
def as_iters(I, st, v, f, gi=0): return to_iter(I, st, v, gty(I, f, gi)) if not isref(v) or not is_iter(I.deref(st, v)) else [(v, st)]

def acc_cell(I, st, v, sp, tag):
    c = ('acc', fkey(I, sp, tag), st.visits.get(fkey(I, sp, tag), 0))
    st.mem[c] = v
    return c
@m('Iterator.for_each')
def it_for_each(I, st, a, f, sp):
    out = []
    for it, s in as_iters(I, st, a[0], f):
        s = s.copy(); fr_ = I.tmp(s, a[1], 'fe')
        def item(x, s2): return [('next', o[2]) if o[0] == 'ret' else o for o in I.call_value(fr_ if not isref(a[1]) else a[1], [x], s2, (sp, 'fe'), sp)]
        out += drive(I, s, it, sp, 'for_each', item, lambda s2: [RET(UNIT, s2)])
    return out
def coll_kind(I, ty):
    k = tkind(I, ty)
    if not k or k['k'] != 'adt': return None
    p = k['p']
    if p == 'alloc::string::String': return 'string'
    if p in ('alloc::vec::Vec', 'alloc::collections::linked_list::LinkedList', 'alloc::collections::vec_deque::VecDeque', 'alloc::boxed::Box'): return 'seq'
    if 'HashMap' in p or 'BTreeMap' in p: return 'map'
    if 'HashSet' in p or 'BTreeSet' in p: return 'set'
    if p == OPT: return 'opt'
    if p == RES: return 'res'
    return None
def add_to(I, s, c, kind, x):
    v = s.mem[c]
    if kind == 'string': s.mem[c] = concat(v, I.deref(s, x))
    elif kind == 'seq': s.mem[c] = mkseq(seq_pieces(v) + (('one', x),))
    elif kind == 'map':
        b, ops = map_ops(v); s.mem[c] = ('map', b, ops + (('ins', I.deep(s, fld(x, 0)), fld(x, 1)),))
    elif kind == 'set':
        b, ops = map_ops(v); s.mem[c] = ('map', b, ops + (('ins', I.deep(s, x), UNIT),))
EMPTY_OF = {'string': S(''), 'seq': EMPTY, 'map': EMPTYMAP, 'set': EMPTYMAP}
@m('Iterator.collect', 'FromIterator.from_iter', 'Vec.from_iter', 'String.from_iter')
def it_collect(I, st, a, f, sp):
    ty = gty(I, f, 1) if f['name'] == 'collect' else gty(I, f, 0)
    kind = coll_kind(I, ty); out = []
    src = gty(I, f, 0) if f['name'] == 'collect' else None
    if kind in ('opt', 'res'):
        kk = tkind(I, ty); inner = coll_kind(I, kk['a'][0])
        if inner is None: return None
        for it, s in to_iter(I, st, a[0], src):
            s = s.copy(); c = acc_cell(I, s, EMPTY_OF[inner], sp, 'collect')
            def item(x, s2):
                r = []
                sp_ = [(p is not None, p, s3) for p, s3 in I.opt_split(s2, x, sp)] if kind == 'opt' else I.res_split(s2, x, sp)
                for k_, p, s3 in sp_:
                    s3 = s3.copy()
                    if k_: add_to(I, s3, c, inner, p); r.append(('next', s3))
                    else: r.append(('done', NONE if kind == 'opt' else err(p), s3))
                return r
            out += drive(I, s, it, sp, 'collect', item, lambda s2: [RET(some(s2.mem[c]) if kind == 'opt' else ok(s2.mem[c]), s2)])
        return out
    if kind is None: return None
    for it, s in to_iter(I, st, a[0], src):
        if kind == 'seq' and isinstance(it, tuple) and it[0] == 'it' and it[1] == 'chain' and it[4] == FALSE:
            for o in it_collect(I, s, [it[2]], f, sp):
                if o[0] != 'ret': out.append(o); continue
                for o2 in it_collect(I, o[2], [it[3]], f, str(sp) + ' (chained)'):
                    out.append(RET(mkseq(seq_pieces(o[1]) + seq_pieces(o2[1])), o2[2]) if o2[0] == 'ret' else o2)
            continue
        if kind == 'seq' and isinstance(it, tuple) and it[0] == 'it' and it[1] == 'own' and const_int(it[3]) == 0:
            out.append(RET(it[2], s)); continue
        if kind == 'string' and isinstance(it, tuple) and it[0] == 'it' and it[1] == 'own' and isinstance(it[2], T):
            q = it[2]
            if q.op == 'chars': out.append(RET(q.args[0], s)); continue
            if q.op == 'drop' and isinstance(q.args[0], T) and q.args[0].op == 'chars': out.append(RET(t('sdrop', q.args[0].args[0], q.args[1]), s)); continue
        if kind == 'seq' and isinstance(it, tuple) and it[0] == 'it' and it[1] == 'cloned' and is_simple(it[2]) and const_int(it[2][3]) == 0:
            v = it[2][2]
            if it[2][1] == 'own' and isinstance(v, T): out.append(RET(v, s)); continue
            if it[2][1] == 'ref': out.append(RET(I.deep(s, v), s)); continue
        s = s.copy(); c = acc_cell(I, s, EMPTY_OF[kind], sp, 'collect')
        def item(x, s2):
            s2 = s2.copy(); add_to(I, s2, c, kind, x); return [('next', s2)]
        out += drive(I, s, it, sp, 'collect', item, lambda s2: [RET(s2.mem[c], s2)])
    return out
@m('Extend.extend', 'Vec.extend', 'String.extend')
def it_extend(I, st, a, f, sp):
    kind = coll_kind(I, strip_ref(I, gty(I, f, 0))); out = []
    if kind not in EMPTY_OF: return None
    r = inner_ref(I, st, a[0])
    v0 = a[1]
    if kind == 'seq':
        w = v0
        if isinstance(w, T) or (isinstance(w, tuple) and w[0] == 'seq'):
            st = st.copy(); cur = I.deref(st, r); set_(I, st, r, mkseq(seq_pieces(cur) + seq_pieces(w))); return [RET(UNIT, st)]
        if isinstance(w, tuple) and w[0] == 'it' and w[1] == 'own' and const_int(w[3]) == 0:
            st = st.copy(); cur = I.deref(st, r); set_(I, st, r, mkseq(seq_pieces(cur) + seq_pieces(w[2]))); return [RET(UNIT, st)]
        if isinstance(w, tuple) and w[0] == 'it' and w[1] == 'cloned' and is_simple(w[2]) and const_int(w[2][3]) == 0:
            x = w[2][2] if w[2][1] == 'own' else I.deep(st, w[2][2])
            st = st.copy(); cur = I.deref(st, r); set_(I, st, r, mkseq(seq_pieces(cur) + seq_pieces(x))); return [RET(UNIT, st)]
    for it, s in to_iter(I, st, a[1], None):
        def item(x, s2):
            s2 = s2.copy(); c = ('xt', sp); s2.mem[c] = I.deref(s2, r); add_to(I, s2, c, kind, x); v = s2.mem.pop(c); set_(I, s2, r, v); return [('next', s2)]
        out += drive(I, s, it, sp, 'extend', item, lambda s2: [RET(UNIT, s2)])
    return out
def pred_consumer(tag, decide, end):
    """decide(truth, x, idx, st) -> list or None to continue"""
    def h(I, st, a, f, sp):
        out = []
        for it, s in as_iters(I, st, a[0], f):
            s = s.copy(); fr_ = I.tmp(s, a[1], 'pc')
            def item(x, s2):
                r = []
                arg = I.tmp(s2, x, 'px') if tag in ('find',) else x
                for o in I.call_value(fr_ if not isref(a[1]) else a[1], [arg], s2, (sp, tag), sp):
                    if o[0] != 'ret': r.append(o); continue
                    for tr, s3 in I.split(o[2], o[1], sp):
                        d = decide(tr, x)
                        r.append(('next', s3) if d is None else ('done', d, s3))
                return r
            out += drive(I, s, it, sp, tag, item, lambda s2: [RET(end, s2)])
        return out
    return h
m('Iterator.all')(pred_consumer('all', lambda tr, x: None if tr else FALSE, TRUE))
m('Iterator.any')(pred_consumer('any', lambda tr, x: TRUE if tr else None, FALSE))
m('Iterator.find')(pred_consumer('find', lambda tr, x: some(x) if tr else None, NONE))
@m('Iterator.position')
def it_position(I, st, a, f, sp):
    out = []
    for it, s in as_iters(I, st, a[0], f):
        s = s.copy(); fr_ = I.tmp(s, a[1], 'pc'); c = acc_cell(I, s, I_(0), sp, 'position')
        def item(x, s2):
            r = []
            for o in I.call_value(fr_ if not isref(a[1]) else a[1], [x], s2, (sp, 'position'), sp):
                if o[0] != 'ret': r.append(o); continue
                for tr, s3 in I.split(o[2], o[1], sp):
                    s3 = s3.copy(); n = s3.mem[c]
                    if tr: r.append(('done', some(n), s3))
                    else: s3.mem[c] = add(n, I_(1)); r.append(('next', s3))
            return r
        out += drive(I, s, it, sp, 'position', item, lambda s2: [RET(NONE, s2)])
    return out
@m('Iterator.rposition')
def it_rposition(I, st, a, f, sp):
    out = []
    for it, s in as_iters(I, st, a[0], f):
        if isref(it): it = I.deref(s, it)
        if not (isinstance(it, tuple) and it[0] == 'it' and it[1] in ('own', 'ref')): return None
        n = sub(seq_len(it[2]) if it[1] == 'own' else I.length(s, it[2]), it[3])
        s = s.copy(); fr_ = I.tmp(s, a[1], 'pc'); c = acc_cell(I, s, sub(n, I_(1)), sp, 'rposition')
        def item(x, s2, c=c, fr_=fr_):
            r = []
            for o in I.call_value(fr_ if not isref(a[1]) else a[1], [x], s2, (sp, 'rposition'), sp):
                if o[0] != 'ret': r.append(o); continue
                for tr, s3 in I.split(o[2], o[1], sp):
                    s3 = s3.copy(); k = s3.mem[c]
                    if tr: r.append(('done', some(k), s3))
                    else: s3.mem[c] = sub(k, I_(1)); r.append(('next', s3))
            return r
        out += drive(I, s, ('it', 'rev', it, I_(0)), sp, 'rposition', item, lambda s2: [RET(NONE, s2)])
    return out
@m('Iterator.find_map')
def it_find_map(I, st, a, f, sp):
    out = []
    for it, s in as_iters(I, st, a[0], f):
        s = s.copy(); fr_ = I.tmp(s, a[1], 'pc')
        def item(x, s2):
            r = []
            for o in I.call_value(fr_ if not isref(a[1]) else a[1], [x], s2, (sp, 'find_map'), sp):
                if o[0] != 'ret': r.append(o); continue
                for p, s3 in I.opt_split(o[2], o[1], sp): r.append(('next', s3) if p is None else ('done', some(p), s3))
            return r
        out += drive(I, s, it, sp, 'find_map', item, lambda s2: [RET(NONE, s2)])
    return out
@m('Iterator.fold', 'Iterator.try_fold')
def it_fold(I, st, a, f, sp):
    if f['name'] == 'try_fold': return None
    out = []
    for it, s in as_iters(I, st, a[0], f):
        s = s.copy(); fr_ = I.tmp(s, a[2], 'fd'); c = acc_cell(I, s, a[1], sp, 'fold')
        def item(x, s2):
            r = []
            for o in I.call_value(fr_ if not isref(a[2]) else a[2], [s2.mem[c], x], s2, (sp, 'fold'), sp):
                if o[0] != 'ret': r.append(o); continue
                s3 = o[2].copy(); s3.mem[c] = o[1]; r.append(('next', s3))
            return r
        out += drive(I, s, it, sp, 'fold', item, lambda s2: [RET(s2.mem[c], s2)])
    return out
@m('Iterator.count')
def it_count(I, st, a, f, sp):
    out = []
    for it, s in as_iters(I, st, a[0], f):
        if isinstance(it, tuple) and it[0] == 'it' and it[1] == 'own': out.append(RET(sub(seq_len(it[2]), it[3]), s)); continue
        if isinstance(it, tuple) and it[0] == 'it' and it[1] == 'ref': out.append(RET(sub(I.length(s, it[2]), it[3]), s)); continue
        s = s.copy(); c = acc_cell(I, s, I_(0), sp, 'count')
        def item(x, s2): s2 = s2.copy(); s2.mem[c] = add(s2.mem[c], I_(1)); return [('next', s2)]
        out += drive(I, s, it, sp, 'count', item, lambda s2: [RET(s2.mem[c], s2)])
    return out
@m('Iterator.sum')
def it_sum(I, st, a, f, sp):
    out = []
    for it, s in as_iters(I, st, a[0], f):
        s = s.copy(); c = acc_cell(I, s, I_(0), sp, 'sum')
        def item(x, s2): s2 = s2.copy(); s2.mem[c] = add(s2.mem[c], I.deref(s2, x)); return [('next', s2)]
        out += drive(I, s, it, sp, 'sum', item, lambda s2: [RET(s2.mem[c], s2)])
    return out
@m('Iterator.last')
def it_last(I, st, a, f, sp):
    out = []
    for it, s in as_iters(I, st, a[0], f):
        if isinstance(it, tuple) and it[0] == 'it' and it[1] == 'own' and const_int(it[3]) == 0:
            for ne_, s2 in nonempty(I, s, it[2], sp): out.append(RET(some(seq_last(it[2])) if ne_ else NONE, s2))
            continue
        s = s.copy(); c = acc_cell(I, s, NONE, sp, 'last')
        def item(x, s2): s2 = s2.copy(); s2.mem[c] = some(x); return [('next', s2)]
        out += drive(I, s, it, sp, 'last', item, lambda s2: [RET(s2.mem[c], s2)])
    return out
@m('Iterator.nth')
def it_nth(I, st, a, f, sp):
    n = const_int(a[1])
    st = st.copy(); l = floc(I, st, a[0]); it = I.read(st, l)
    if is_simple(it):
        s = st.copy(); I.write(s, (l[0], l[1] + (('it', 3),)), add(it[3], a[1]))
        return it_next(I, s, [('ref', l[0], l[1])], f, sp)
    if n is None or n > 4: return None
    cur = [RET(NONE, st)]
    for i in range(n + 1):
        nxt = []
        for o in cur:
            if o[0] != 'ret': nxt.append(o); continue
            nxt += it_next(I, o[2], [('ref', l[0], l[1])], f, sp)
        cur = nxt
    return cur
@m('ExactSizeIterator.len', 'Iterator.len')
def it_len(I, st, a, f, sp):
    it = I.deref(st, a[0])
    if is_simple(it): return [RET(sub(seq_len(it[2]) if it[1] == 'own' else I.length(st, it[2]), it[3]), st)]
    return None
@m('Iterator.size_hint')
def it_sh(I, st, a, f, sp): return [RET(('tup', (t('size_hint', I.deep(st, a[0])), NONE)), st)]
@m('Iterator.max', 'Iterator.min', 'Iterator.max_by', 'Iterator.min_by', 'Iterator.max_by_key', 'Iterator.min_by_key', 'Iterator.partition', 'Iterator.unzip', 'Iterator.reduce', 'Iterator.scan', 'Iterator.cycle', 'Iterator.eq', 'Iterator.cmp', 'Iterator.try_for_each')
def it_unknown(I, st, a, f, sp): return None

# ------------------------------------------------------------------ functions, lazies
@m('Fn.call', 'FnMut.call_mut', 'FnOnce.call_once')
def fn_call(I, st, a, f, sp):
    args = a[1]
    if isinstance(args, tuple) and args[0] == 'tup': vs = list(args[1])
    else:
        return None
    return I.call_value(a[0], vs, st, (sp, 'fn'), sp)
@m('Lazy.get')
def lazy_get(I, st, a, f, sp):
    fv = a[1] if len(a) > 1 else None
    if fv is None: return None
    return lazy(I, st, fv, sp)
def lazy(I, st, fv, sp):
    k = ('lz', fv)
    if k not in I.const_cache:
        from .interp import St
        s0 = St()
        saved = I.stack; I.stack = []
        try: outs = [o for o in I.call_value(fv, [], s0, ('lz', fv), sp)]
        finally: I.stack = saved
        rets = [o for o in outs if o[0] == 'ret']
        if len(rets) >= 1 and all(o[1] == rets[0][1] for o in rets): I.const_cache[k] = (rets[0][1], {c: x for c, x in rets[0][2].mem.items()})
        else: I.const_cache[k] = (t('lazy', fv[1] if isinstance(fv, tuple) else fv), {})
    v, cells = I.const_cache[k]
    st = st.copy()
    for c, x in cells.items(): st.mem.setdefault(c, x)
    c = ('lazy', fv); st.mem.setdefault(c, v)
    return [RET(('ref', c, ()), st)]
@m('OnceLock.new', 'OnceCell.new')
def once_new(I, st, a, f, sp): return [RET(NONE, st)]
@m('LazyLock.new', 'LazyCell.new')
def lazylock_new(I, st, a, f, sp): return [RET(('adt', 'lazylock', 0, (a[0],)), st)]
@m('LazyLock.deref', 'LazyLock.force', 'LazyCell.deref')
def lazylock_deref(I, st, a, f, sp):
    v = I.deref(st, a[0])
    if isinstance(v, tuple) and v[0] == 'adt' and v[1] == 'lazylock': return lazy(I, st, v[3][0], sp)
    return None
@m('OnceLock.get_or_init', 'OnceCell.get_or_init')
def once_goi(I, st, a, f, sp): return lazy(I, st, a[1], sp) if isinstance(a[1], tuple) and a[1][0] in ('fn', 'clo') else opt_goi(I, st, a, f, sp)

@m('Regex.new')
def regex_new(I, st, a, f, sp):
    x = I.deref(st, a[0])
    if lit(x) is not None: return [RET(ok(t('regex', S(canon_regex(lit(x))))), st)]
    return [RET(t('call', 'Regex::new', x), st)]
def canon_regex(rx):
    """one spelling for patterns that differ in escapes, order and ranges of their character classes; rx itself when unsure"""
    import warnings
    try:
        from re import _parser as sp, _constants as sc
        with warnings.catch_warnings():
            warnings.simplefilter('error'); tree = sp.parse(rx)
    except Exception: return rx
    def ch(c): return ('\\' if chr(c) in '\\^$.|?*+()[]{}-' else '') + chr(c)
    def cls(items):
        pts = set()
        for op, a in items:
            if op is sc.LITERAL: pts.add(a)
            elif op is sc.RANGE: pts |= set(range(a[0], a[1] + 1))
            else: raise ValueError
        if len(pts) == 1: return ch(min(pts))
        out = ''; l = sorted(pts); i = 0
        while i < len(l):
            j = i
            while j + 1 < len(l) and l[j + 1] == l[j] + 1: j += 1
            out += ch(l[i]) if i == j else ch(l[i]) + ch(l[j]) if j == i + 1 else ch(l[i]) + '-' + ch(l[j]); i = j + 1
        return '[' + out + ']'
    def go(seq):
        out = ''
        for op, a in seq:
            if op is sc.LITERAL: out += ch(a)
            elif op is sc.IN: out += cls(a)
            elif op is sc.AT and a is sc.AT_BEGINNING: out += '^'
            elif op is sc.AT and a is sc.AT_END: out += '$'
            elif op is sc.MAX_REPEAT:
                lo, hi, sub_ = a; x = go(sub_)
                if len(sub_) != 1 or sub_[0][0] not in (sc.LITERAL, sc.IN): raise ValueError
                out += x + ('*' if (lo, hi) == (0, sc.MAXREPEAT) else '+' if (lo, hi) == (1, sc.MAXREPEAT) else '?' if (lo, hi) == (0, 1) else '{%d,%s}' % (lo, '' if hi is sc.MAXREPEAT else hi))
            else: raise ValueError
        return out
    try: return go(tree)
    except ValueError: return rx
@m('Url.options')
def url_options(I, st, a, f, sp): return [RET(('adt', 'url::opts', 0, (NONE,)), st)]
@m('ParseOptions.base_url')
def url_base(I, st, a, f, sp): return [RET(('adt', 'url::opts', 0, (I.deep(st, a[1]),)), st)]
@m('ParseOptions.parse')
def url_optparse(I, st, a, f, sp):
    o = I.deref(st, a[0])
    if not (isinstance(o, tuple) and o[0] == 'adt' and o[1] == 'url::opts'): return None
    out = []
    for u, s in I.opt_split(st, o[3][0], sp):
        out += (urlparse(I, s, [a[1]], f, sp) or [RET(t('call', 'url:Url::parse', I.deep(s, a[1])), s)]) if u is None else (urljoin(I, s, [u, a[1]], dict(f, name='join'), sp) or [RET(t('call', 'url:Url::join', I.deep(s, u), I.deep(s, a[1])), s)])
    return out
@m('Url.as_str', 'Url.to_string', 'Url.into_string')
def url_str(I, st, a, f, sp): return [RET(t('urlstr', I.deep(st, a[0])), st)]
@m('intrinsics.discriminant_value', 'mem.discriminant')
def discr_val(I, st, a, f, sp):
    v = I.deref(st, a[0]); return [RET(I.discr(st, v, strip_ref(I, gty(I, f))), st)]
@m('PartialEq.eq_discriminant')
def _n(I, st, a, f, sp): return None

# ------------------------------------------------------------------ bit domain
# ('bv', negative?, bits): the integer ±sum(bits[i] << i); each bit is 0, 1 or a
# value number standing for one unknown bit.  bits[-1] is always 1 (top bit known).
# ('bv', 'raw', width, bits): a wrapped two's-complement pattern.
WID = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i128': 128, 'u128': 128}
def bv_mk(negative, bits):
    bits = list(bits)
    while bits and bits[-1] == 0: bits.pop()
    if all(b in (0, 1) for b in bits):
        n = sum(b << i for i, b in enumerate(bits)); return I_(-n if negative else n)
    return ('bv', negative, tuple(bits))
def bv_bits(v):
    """bits of a non-negative value, or None"""
    c = const_int(v) if is_int(v) else None
    if c is not None: return [c >> i & 1 for i in range(c.bit_length())] if c >= 0 else None
    if isbv(v) and v[1] is False: return list(v[2])
    return None
def bv_fit(v, name):
    """value of type name: wrap marker when it does not fit"""
    if not isbv(v) or name not in WID or v[1] == 'raw': return v
    w = WID[name]; signed = name.startswith('i')
    n = len(v[2])
    top = v[2][-1] == 1
    if v[1] is False:
        if n <= (w - 1 if signed else w): return v
        if n > w: return bv_fit(bv_mk(False, v[2][:w]), name)
        return ('bv', 'raw', name, v[2])
    if signed and n <= w - 1: return v
    return ('bv', 'raw', name, ('neg',) + tuple(v[2]))
def bv_cast(v, src, dst):
    if v[1] == 'raw':
        name, bits = v[2], v[3]
        if bits and bits[0] == 'neg': return unk('bvneg', v)
        w, w2 = WID.get(name, 64), WID.get(dst, 64)
        if name.startswith('i') and w2 > w:
            if bits[w - 1] == 1: return ('bv', 'raw', dst, tuple(bits) + (1,) * (w2 - w)) if dst.startswith('i') else bv_mk(False, tuple(bits) + (1,) * (w2 - w))
            return unk('bvsext', v)
        if not dst.startswith('i'): return bv_mk(False, bits[:w2])
        return unk('bvcast', v)
    if v[1] is True:
        if dst in WID and dst.startswith('i') and len(v[2]) < WID[dst]: return v
        return ('bv', 'raw', dst, ('neg',) + tuple(v[2]))
    return bv_fit(v, dst)
def bv_neg(v, name):
    if v[1] == 'raw': return unk('bvneg', v)
    return bv_fit(('bv', not v[1], v[2]), name)
def bv_sign(v):
    """'-', '0', '+' or None"""
    c = const_int(v) if is_int(v) else None
    if c is not None: return '-' if c < 0 else '+' if c > 0 else '0'
    if isbv(v):
        if v[1] == 'raw':
            bits = v[3]
            if bits and bits[0] == 'neg': return None
            if v[2].startswith('i') and len(bits) == WID[v[2]] and bits[-1] == 1: return '-'
            return '+' if 1 in bits and not v[2].startswith('i') else None
        if 1 in v[2]: return '-' if v[1] else '+'
    return None
def bv_cmp_range(v):
    """(lo, hi) of the value"""
    c = const_int(v) if is_int(v) else None
    if c is not None: return c, c
    if isbv(v) and v[1] in (True, False):
        lo = sum(1 << i for i, b in enumerate(v[2]) if b == 1); hi = sum(1 << i for i, b in enumerate(v[2]) if b != 0)
        return (-hi, -lo) if v[1] else (lo, hi)
    if isbv(v) and bv_sign(v) == '-': return (-2 ** 63, -1)
    return (None, None)
def bv_eqc(v, n):
    lo, hi = bv_cmp_range(v)
    if lo is not None and (n < lo or n > hi): return FALSE
    bs = bv_bits(v)
    if bs is not None and n >= 0:
        for i in range(max(len(bs), n.bit_length())):
            b = bs[i] if i < len(bs) else 0
            if b in (0, 1) and b != (n >> i & 1): return FALSE
    return t('bveq', v, I_(n))
def bv_bin(I, op, a, b, name, sp, ov=False):
    r = _bv_bin(I, op, a, b, name)
    if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return r
    if isbv(r): r = bv_fit(r, name)
    if ov: return (r, FALSE if not (isbv(r) and r[1] == 'raw') else TRUE)
    return r
def _bv_bin(I, op, a, b, name):
    ca, cb = (const_int(x) if is_int(x) else None for x in (a, b))
    if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
        (la, ha), (lb, hb) = bv_cmp_range(a), bv_cmp_range(b)
        if None not in (la, lb):
            if op in ('Gt', 'Ge'): la, ha, lb, hb = lb, hb, la, ha; o2 = 'Lt' if op == 'Gt' else 'Le'
            else: o2 = op
            if o2 == 'Lt':
                if ha < lb: return TRUE
                if la >= hb: return FALSE
            if o2 == 'Le':
                if ha <= lb: return TRUE
                if la > hb: return FALSE
            if o2 in ('Eq', 'Ne'):
                if ha < lb or hb < la: return B(o2 == 'Ne')
                x = bv_eqc(a, cb) if cb is not None and isbv(a) else bv_eqc(b, ca) if ca is not None and isbv(b) else None
                if x == FALSE: return B(o2 == 'Ne')
                if x is not None: return x if o2 == 'Eq' else V.neg(x)
        return unk('bvcmp', op, a, b)
    ba, bb = bv_bits(a), bv_bits(b)
    if ba is None and isbv(a) and a[1] == 'raw' and op in ('Shr', 'BitAnd'):
        raw = a[3]
        if raw and raw[0] != 'neg':
            if op == 'BitAnd' and bb is not None: return bv_mk(False, [x if i < len(bb) and bb[i] == 1 else 0 for i, x in enumerate(raw)])
            if op == 'Shr' and cb is not None:
                w = WID[a[2]]; bits = list(raw) + [0] * (w - len(raw))
                if not a[2].startswith('i'): return bv_mk(False, bits[cb:])
                if bits[w - 1] == 1: return ('bv', 'raw', a[2], tuple(bits[cb:] + [1] * cb))
        return unk('bvraw', op, a, b)
    if op == 'Shl' and cb is not None:
        if isbv(a) and a[1] in (True, False): return bv_mk(a[1], [0] * cb + list(a[2]))
    if op == 'Mul' and (cb if cb is not None else ca) is not None:
        c = cb if cb is not None else ca; x = a if cb is not None else b
        if c > 0 and c & (c - 1) == 0 and isbv(x) and x[1] in (True, False): return bv_mk(x[1], [0] * (c.bit_length() - 1) + list(x[2]))
        if c == -1 and isbv(x): return bv_mk(not x[1], x[2])
    if op == 'Shr' and cb is not None and ba is not None: return bv_mk(False, ba[cb:])
    if op == 'Div' and cb is not None and ba is not None and cb > 0 and cb & (cb - 1) == 0: return bv_mk(False, ba[cb.bit_length() - 1:])
    if op == 'Rem' and cb is not None and ba is not None and cb > 0 and cb & (cb - 1) == 0: return bv_mk(False, ba[:cb.bit_length() - 1])
    if op == 'BitAnd' and ba is not None and bb is not None:
        n = min(len(ba), len(bb)); r = []
        for i in range(n):
            x, y = ba[i], bb[i]
            r.append(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 or x == y else unk('and', x, y))
        return bv_mk(False, r)
    if op in ('BitOr', 'Add') and ba is not None and bb is not None:
        n = max(len(ba), len(bb)); r = []
        for i in range(n):
            x = ba[i] if i < len(ba) else 0; y = bb[i] if i < len(bb) else 0
            if x == 0: r.append(y)
            elif y == 0: r.append(x)
            elif op == 'BitOr' and (x == 1 or y == 1): r.append(1)
            else: return unk('bvop', op, a, b)
        return bv_mk(False, r)
    if op == 'Sub' and ba is not None and bb is not None:
        # clearing known-one bits
        n = max(len(ba), len(bb)); r = []
        for i in range(n):
            x = ba[i] if i < len(ba) else 0; y = bb[i] if i < len(bb) else 0
            if y == 0: r.append(x)
            elif x == 1 and y == 1: r.append(0)
            elif x is y: r.append(0)
            else: return unk('bvop', op, a, b)
        return bv_mk(False, r)
    if op in ('Sub',) and ca == 0 and isbv(b): return bv_mk(not b[1], b[2])
    if op == 'BitXor' and ba is not None and bb is not None:
        n = max(len(ba), len(bb)); r = []
        for i in range(n):
            x = ba[i] if i < len(ba) else 0; y = bb[i] if i < len(bb) else 0
            if x == 0: r.append(y)
            elif y == 0: r.append(x)
            elif x == y: r.append(0)
            else: return unk('bvop', op, a, b)
        return bv_mk(False, r)
    return unk('bvop', op, a, b)

# ------------------------------------------------------------------ further library functions
@m('Cell.take', 'RefCell.take')
def cell_take(I, st, a, f, sp): return take_(I, st, [inner_ref(I, st, a[0])], f, sp)
@m('RefCell.swap', 'Cell.swap')
def cell_swap(I, st, a, f, sp): return swap_(I, st, [inner_ref(I, st, a[0]), inner_ref(I, st, a[1])], f, sp)
@m('HashMap.get_key_value', 'BTreeMap.get_key_value')
def map_get_kv(I, st, a, f, sp):
    r, v = mapref(I, st, a[0]); k = I.deep(st, a[1]); out = []
    for x, s in map_lookup(I, st, v, k, sp, gty(I, f)):
        out.append(RET(NONE if x is None else some(('tup', (I.tmp(s, k, 'mk'), x if isref(x) else I.tmp(s, x, 'mv')))), s))
    return out
@m('Option.take_if')
def opt_take_if(I, st, a, f, sp):
    r = optref(I, st, a)
    if not isref(r): return None
    out = []
    for p, s in I.opt_split(st, I.read(st, loc(I, st, r)), sp):
        if p is None: out.append(RET(NONE, s)); continue
        for o in call(I, a[1], [subref(I, s, r, ('f', 0, 1))], s, sp):
            if o[0] != 'ret': out.append(o); continue
            for tr, s2 in I.split(o[2], o[1], sp):
                if not tr: out.append(RET(NONE, s2)); continue
                s2 = s2.copy(); v = I.read(s2, loc(I, s2, r)); set_(I, s2, r, NONE); out.append(RET(v, s2))
    return out
def _res_inspect(I, s, k, p, a, f, sp):
    if k != (f['name'] == 'inspect'): return [RET(ok(p) if k else err(p), s)]
    return then(call(I, a[1], [I.tmp(s, p, 'ins')], s, sp), lambda v, s2: [RET(ok(p) if k else err(p), s2)])
m('Result.inspect', 'Result.inspect_err')(each_res(_res_inspect))
@m('int.abs_diff')
def abs_diff(I, st, a, f, sp):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if isbv(x) or isbv(y) or lin(x) is None or lin(y) is None: return None
    return [RET(sub(y, x) if tr else sub(x, y), s) for tr, s in I.split(st, ilt(x, y), sp)]
@m('int.checked_neg')
def checked_neg(I, st, a, f, sp): return then(wneg(I, st, a, f, sp), lambda v, s: [RET(some(v), s)])
@m('int.checked_div', 'int.checked_rem')
def checked_div(I, st, a, f, sp):
    c = const_int(I.deref(st, a[1])) if is_int(I.deref(st, a[1])) else None
    if not c: return [RET(NONE, st)] if c == 0 else None
    return [RET(some(I.binop0(st, 'Div' if f['name'].endswith('div') else 'Rem', I.deref(st, a[0]), I_(c), None)), st)]
@m('slice.split_first', 'slice.split_last')
def split_first(I, st, a, f, sp):
    r, v = seqref(I, st, a[0]); out = []; first = f['name'].endswith('first')
    if not first and seq_concrete(v) is None: return None
    for ne_, s in nonempty(I, st, v, sp):
        if not ne_: out.append(RET(NONE, s)); continue
        if not isref(r): r = I.tmp(s, v, 'sl')
        rest = seq_drop(v, 1) if first else ('seq', tuple(('one', x) for x in seq_concrete(v)[:-1]))
        out.append(RET(some(('tup', (subref(I, s, r, ('x', I_(0) if first else add(seq_len(v), I_(-1)))), I.tmp(s, rest, 'sl')))), s))
    return out
@m('slice.map', 'array.map')
def array_map(I, st, a, f, sp):
    e = seq_concrete(I.deref(st, a[0]))
    if e is None or len(e) > 64: return None
    cur = [((), st)]; out = []
    for x in e:
        nxt = []
        for got, s in cur:
            for o in call(I, a[1], [x], s, sp):
                if o[0] == 'ret': nxt.append((got + (o[1],), o[2]))
                else: out.append(o)
        cur = nxt
    return out + [RET(('seq', tuple(('one', x) for x in got)), s) for got, s in cur]
m('zip.zip', 'iter.zip')(it_zip)
@m('Range.is_empty')
def range_empty(I, st, a, f, sp):
    r = I.deref(st, a[0]); return [RET(neg(ilt(fld(r, 0), fld(r, 1))), st)]
m('VecDeque.get', 'VecDeque.get_mut')(lambda I, st, a, f, sp: vget(I, st, a, f, sp))
m('slice.as_slice')(lambda I, st, a, f, sp: [RET(a[0], st)])
m('Cow.into_owned')(lambda I, st, a, f, sp: [RET(I.deref(st, a[0]), st)])
