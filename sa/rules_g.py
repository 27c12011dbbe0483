"""JSON form, frame conditions, dispatch and effects."""
import re
from .rules_e import *
from . import summ, rules_b4

MEMBERS = {'SourceMapJson': {'version': 'version', 'sources': 'sources', 'names': 'names', 'mappings': 'mappings', 'file': 'file',
                             'source_root': 'sourceRoot', 'sources_content': 'sourcesContent', 'sections': 'sections'},
           'Section': {'offset': 'offset', 'map': 'map', 'url': 'url'},
           'Position': {'line': 'line', 'column': 'column'}}
def json_types(ctx):
    return {'SourceMapJson': ctx.adt('SourceMapJson'), 'Section': ctx.adt('Section', 'offset', 'map', 'url'), 'Position': ctx.adt('Position', 'line', 'column')}
def impl(ctx, rx):
    c = [x for x in ctx.p.bodies if re.search(rx, x) and '#prom' not in x]
    if len(c) != 1: raise RoleError('%s: %d bodies' % (rx, len(c)))
    return c[0]
def is_opt(ctx, adt, f):
    a = ctx.p.adts[adt]['v'][0]['f']
    return ctx.tys(a[ctx.fi(adt, f)]['t']).startswith('std::option::Option<')
_SER = re.compile(r'Serializ|ser::')
def ser_ok(I, st):
    """the conditions of the path, apart from whether the writer reports an error (it may or may not), are understood"""
    s2 = St(); s2.trail = [x for x in st.trail if not any(y.op == 'call' and isinstance(y.args[0], str) and y.args[0].startswith('serde_core:') and _SER.search(y.args[0]) for y in terms_in(x[0]))]
    return trail_ok(I, s2)
def feq_all(st, I, x):
    """string equalities with x decided on the path: {literal: truth}"""
    out = {}
    for c, tr, _ in st.trail:
        y = c; tt = tr
        while isinstance(y, tuple) and y[0] == 'not': y, tt = y[1], not tt
        for z in terms_in(y):
            if z.op == 'scmp' and x in z.args:
                l = [lit(a) for a in z.args if a is not x]
                if len(l) == 1 and l[0] is not None: out[l[0]] = st.facts.ev(eq0(z))
    return out

def c09(ctx, rep):
    """member names of the written and the read JSON, and presence of optional members"""
    for name, adt in json_types(ctx).items():
        rep.guard('json-written', name, lambda: ser(ctx, rep, name, adt))
        rep.guard('json-read', name, lambda: de(ctx, rep, name, adt))

def ser(ctx, rep, name, adt):
    fid = impl(ctx, r'Serialize for %s>::serialize$' % re.escape(adt)); S = ctx.summary(fid, 'json', time_limit=200); rep.seen(S); I = S.I
    want = MEMBERS[name]; me = argn(S, 0); agg = {}
    for o in S.outs:
        st = o[-1]
        if o[0] == 'panic': rep.v3('json-written', fid, False if ser_ok(I, st) else None, 'panics'); continue
        v = I.deep(st, o[1])
        if isinstance(v, tuple) and v[0] == 'adt' and v[1] == RES and v[2] == 1: continue       # the writer failed
        ev = [e for e in st.events if e[0] == 'call' and re.search(r'::serialize_(field|entry)$', e[1])]
        oth = [e[1] for e in st.events if e[0] == 'call' and not re.search(r'::(serialize_(field|entry|struct|map)|end|skip_field)$', e[1])]
        if oth: rep.und('json-written', fid, 'calls ' + oth[0]); continue
        got = {}; bad = None
        for e in ev:
            k = lit(I.deep(st, e[2][1]))
            if k is None: bad = (None, 'name not literal'); break
            if k in got: bad = (False, 'member %s written twice' % k); break
            got[k] = I.deep(st, e[2][2])
        tok = ser_ok(I, st)
        if bad is None:
            for k in got:
                if k not in want.values(): bad = (False, 'writes a member "%s" the format does not have' % k)
            for f, k in want.items():
                x = fld(me, ctx.fi(adt, f)); opt = is_opt(ctx, adt, f)
                d = t('discr', x); absent = st.facts.ev(eq0(d)) if opt else False
                if k in got:
                    r = Cmp(I).same(st, got[k], x)
                    if r is not True and opt and absent is False: r = Cmp(I).same(st, got[k], fld(x, 0, 1))
                    if r is not True: bad = (r, 'member "%s" carries %s, not %s' % (k, pretty(got[k]), f)); break
                    if opt and absent is not False and f != 'url': bad = (False, 'member "%s" is written although it may be absent' % k); break
                elif absent is not True: bad = (False, 'member "%s" (%s) is not written' % (k, f)); break
        if bad is None: rep.ok('json-written', fid)
        else: rep.v3('json-written', fid, bad[0] if tok else None, {'path': trail_txt(st, 6), 'why': bad[1]}, last_site(st))

def de(ctx, rep, name, adt):
    base = r"Deserialize<'de> for %s>::deserialize" % re.escape(adt)
    fs = impl(ctx, base + r"::__FieldVisitor as .*>::visit_str$"); vm = impl(ctx, base + r"::__Visitor<'de> as .*>::visit_map$")
    F = ctx.summary(fs, 'json'); M = ctx.summary(vm, 'json', time_limit=200); rep.seen(F); rep.seen(M)
    want = MEMBERS[name]; x = argn(F, 1)
    def variant_of(key):
        hit = []
        for o in F.outs:
            at = feq_all(o[-1], F.I, x)
            if any(tr is not None and tr != (l == key) for l, tr in at.items()): continue
            hit.append(o)
        if len(hit) != 1: raise RoleError('%d ways to read member %s' % (len(hit), key))
        o = hit[0]
        if not trail_ok(F.I, o[-1]): raise RoleError('member name test')
        v = F.I.deep(o[-1], o[1]) if o[0] == 'ret' else None
        if isinstance(v, tuple) and v[0] == 'adt' and v[1] == RES and v[2] == 0 and isinstance(v[3][0], tuple) and v[3][0][0] == 'adt': return v[3][0][2]
        return None
    var = {f: variant_of(k) for f, k in want.items()}
    other = variant_of('\0some member the format does not have')
    rep.v3('unknown-member', fs, other is not None, 'a member the format does not have is an error')
    for f, k in want.items():
        n = [g for g in want if var[g] == var[f]]
        rep.v3('json-read', fs, var[f] is not None and n == [f] and var[f] != other, {'got': 'member "%s" is %s' % (k, 'ignored' if var[f] == other else 'an error' if var[f] is None else 'read as ' + ', '.join(n))})
    if other is None or any(v is None or v == other for v in var.values()) or len(set(var.values())) != len(var): return
    # the loop over the members
    I = M.I; acc = {}
    oks = []
    for o in M.rets():
        v = I.deep(o[-1], o[1])
        if isinstance(v, tuple) and v[0] == 'adt' and v[1] == RES and v[2] == 0: oks.append((o, v[3][0]))
    if not oks: raise RoleError('no accepting path')
    for o, s in oks:
        for f in want:
            v = fld(s, ctx.fi(adt, f))
            if isinstance(v, T) and v.op == 'f' and v.args[1:] == (1, 0) and isinstance(v.args[0], T) and v.args[0].op == 'phi': acc.setdefault(f, set()).add(v.args[0])
    for f in want:
        a = acc.get(f, set())
        if len(a) != 1:
            nev = all(not any(y.op == 'phi' for y in terms_in(fld(s, ctx.fi(adt, f)))) for o, s in oks)
            rep.v3('json-read', vm, False if nev else None, 'member "%s" never reaches %s' % (want[f], f)); return
    acc = {f: next(iter(a)) for f, a in acc.items()}
    if len(set(acc.values())) != len(acc): rep.bad('json-read', vm, 'two fields are read from one member'); return
    for o, s in oks:
        st = o[-1]
        for f, ph in acc.items():
            v = fld(s, ctx.fi(adt, f)); miss = st.facts.ev(eq0(t('discr', ph)))
            if v == fld(ph, 0, 1): rep.v3('json-read', vm, True if miss is False else None, f)
            elif miss is True:
                r = v == NONE and is_opt(ctx, adt, f) or isinstance(v, T) and v.op == 'f' and isinstance(v.args[0], T) and v.args[0].op == 'call' and v.args[0].args[0].endswith('missing_field')
                rep.v3('json-read', vm, True if r else (None if has_unknown(v) or not understood(I, v) else False), {'got': 'absent member "%s" read as %s' % (want[f], pretty(v))})
            else: rep.v3('json-read', vm, False if trail_ok(I, st, {'phi'}) and understood(I, v, {'phi'}) else None, {'path': trail_txt(st, 4), 'got': '%s read as %s' % (f, pretty(v))})
    rec = I.phi_rec[next(iter(acc.values()))]
    cps = {f: next(cp for cp, y in rec.phis.items() if y[0] is ph) for f, ph in acc.items()}
    seen = set()
    for b in rec.backs:
        st = b['st']
        nk = {y for c, _, _ in st.trail for y in terms_in(c) if y.op == 'discr' and isinstance(y.args[0], T) and y.args[0].op == 'f' and any(z.op == 'call' and z.args[0].endswith('::next_key') for z in terms_in(y)) and len([1 for z in chain_f(y.args[0])]) == 2}
        for f in list(want) + [None]:
            i = var[f] if f else other
            if any(st.facts.ev(ieq(d, V.I(i))) is False for d in nk): continue
            if not nk: rep.und('json-read', vm, 'member selection'); continue
            if any(g is not f and st.facts.ev(ieq(d, V.I(var[g] if g else other))) is True for d in nk for g in list(want) + [None]): continue
            if f: seen.add(f)
            for g in want:
                nx = I.deep(st, b['next'][cps[g]])
                if g == f:
                    r = isinstance(nx, tuple) and nx[0] == 'adt' and nx[1] == OPT and nx[2] == 1 and isinstance(nx[3][0], T) and nx[3][0].op == 'f' and nx[3][0].args[1:] == (0, 0) and isinstance(nx[3][0].args[0], T) and nx[3][0].args[0].op == 'call' and nx[3][0].args[0].args[0].endswith('::next_value')
                    und_ = not (nx == acc[g] or nx == NONE)
                    rep.v3('json-read', vm, True if r else (None if und_ else False), {'got': 'member "%s" leaves %s at %s' % (want[g], g, pretty(nx))})
                else: rep.v3('json-read', vm, True if nx == acc[g] else (False if understood(I, nx, {'phi'}) and trail_ok(I, st, {'phi'}) else None), {'got': 'member "%s" changes %s to %s' % (want.get(f, 'unknown'), g, pretty(nx))})
    for f in want:
        if f not in seen: rep.und('json-read', vm, 'member %s not seen' % f)
def chain_f(v):
    while isinstance(v, T) and v.op == 'f':
        yield v
        v = v.args[0]

RULES = {'C09': c09}
EXPL = {}
