"""Program roles (public anchors resolved to MIR bodies and field positions),
obligation bookkeeping and the conformance driver."""
import re, json, os
from .val import *
from . import val as V
from . import summ
from .interp import Interp, St, Budget, Unsupported
from .rel import Cmp, loses, Sp, run_spec, understood, bad_ops, unknown_in, Undecided, SpecError, Infeasible, V_

PANIC = ('panic',)
ANY = ('any',)
def R(v): return ('ret', v)

class RoleError(Exception): pass
class Missing(Exception): pass

class Ctx:
    def __init__(self, prog):
        self.p = prog; self.cache = {}
    # ---------------------------------------------------------- anchors
    def fn(self, ty, name=None, opt=False):
        """body id of a function (free: fn('join'); method: fn('ArraySet','add'))"""
        ids = []
        for bid, b in self.p.bodies.items():
            if '{closure' in bid or '#prom' in bid or b.get('derived'): continue
            if name is None:
                if re.search(r'(^|::)%s$' % re.escape(ty), bid) and b['kind'] == 'fn' and ' as ' not in bid: ids.append(bid)
            else:
                if re.search(r'(^|::|<|impl )%s(<[^>]*>)?(>| as [^>]*>)?::%s$' % (re.escape(ty), re.escape(name)), bid): ids.append(bid)
        if len(ids) > 1:
            ids = sorted(ids, key=len)[:1] if name is None else [i for i in ids if i.startswith('<')] [:1] or ids[:1]
        if not ids:
            if opt: return None
            raise Missing('%s%s' % (ty, '::' + name if name else ''))
        return ids[0]
    def cn(self, fid):
        """the spelling of a call to fid in terms"""
        from .models import _strip
        x = _strip(fid); return '::'.join(x[-2:]) if len(x) >= 2 else x[0]
    def call(self, fid, *args): return t('call', self.cn(fid), *[V_(a) for a in args])
    def adt(self, name, *fields, local=None):
        """path of an ADT by last segment (and field names to tell namesakes apart)"""
        c = []
        for p, a in self.p.adts.items():
            if p.split('::')[-1] != name: continue
            if local is not None and bool(a.get('local')) != local: continue
            fs = {f['n'] for v in a['v'] for f in v['f']}
            if all(f in fs for f in fields): c.append(p)
        if len(c) != 1: raise RoleError('type %s: %s' % (name, c))
        return c[0]
    def tys(self, i): return self.p.types[i].get('s', '')
    def fi(self, adt, name, var=0):
        i = self.p.field_index(adt, name, var)
        if i is None: raise RoleError('%s.%s' % (adt, name))
        return i
    def role(self, adt, rx, name=None, opt=False):
        a = self.p.adts[adt]['v'][0]['f']
        c = [i for i, f in enumerate(a) if re.search(rx, self.tys(f['t']))]
        if len(c) > 1 and name: c = [i for i in c if a[i]['n'] == name] or c
        if len(c) != 1:
            if opt: return None
            raise RoleError('%s: field of type %s' % (adt, rx))
        return c[0]
    def mk(self, adt, var=0, **kw):
        fs = self.p.adts[adt]['v'][var]['f']
        if set(kw) != {f['n'] for f in fs}: raise RoleError('fields of %s' % adt)
        return ('adt', adt, var, tuple(V_(kw[f['n']]) for f in fs))
    def get(self, v, adt, name): return fld(v, self.fi(adt, name))

    # ---------------------------------------------------------- summaries
    def summary(self, fid, key=None, **kw):
        k = (fid, key) if key is not None else None
        if k is not None and k in self.cache: 
            r = self.cache[k]
            if isinstance(r, Exception): raise r
            return r
        kw.setdefault('time_limit', 120)
        try: r = summ.run(self.p, fid, **kw)
        except (Budget, Unsupported) as e: 
            if k is not None: self.cache[k] = e
            raise
        if k is not None: self.cache[k] = r
        return r

def fn_refs(x, out=None):
    """every function mentioned in a piece of MIR"""
    out = [] if out is None else out
    if isinstance(x, dict):
        if x.get('c') == 'fn' and isinstance(x.get('f'), dict): out.append(x['f'])
        for v in x.values(): fn_refs(v, out)
    elif isinstance(x, list):
        for v in x: fn_refs(v, out)
    return out
def callees(p, bid):
    """local bodies mentioned in body bid"""
    out = []
    for f in fn_refs(p.bodies[bid].get('blocks', [])):
        for n in (f.get('res'), f.get('p')):
            if n in p.bodies: out.append(n); break
    return out

class Rep:
    """obligations of one property on this run"""
    def __init__(self, pid):
        self.pid = pid; self.obs = []; self.fns = set(); self.paths = 0; self.sites = 0; self.notes = []
    def add(self, rule, where, status, detail='', site=''):
        self.obs.append({'rule': rule, 'where': where, 'status': status, 'detail': detail, 'site': site})
    def ok(self, rule, where): self.add(rule, where, 'held')
    def bad(self, rule, where, detail, site=''): self.add(rule, where, 'violated', detail, site)
    def und(self, rule, where, detail=''): self.add(rule, where, 'undecided', detail)
    def v3(self, rule, where, r, detail='', site=''):
        if r is True: self.ok(rule, where)
        elif r is False: self.bad(rule, where, detail, site)
        else: self.und(rule, where, detail)
    def seen(self, S):
        if S is None: return
        self.fns |= S.I.seen_bodies; self.paths += len(S.outs)
    def guard(self, rule, where, fn):
        """run fn; analysis limits make the obligation undecided, missing anchors violate"""
        try: fn()
        except Missing as e: self.bad(rule, where, 'public item missing: %s' % e)
        except (Budget, Unsupported, RoleError, Undecided, SpecError, RecursionError) as e:
            self.und(rule, where, '%s: %s' % (type(e).__name__, e))
        except Exception as e:      # a construct the analyser trips over: no answer, not an alarm
            if os.environ.get('SA_DEBUG'): raise
            import traceback
            self.und(rule, where, 'internal: %s: %s (%s)' % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1][:3]))
    def counts(self):
        c = {'held': 0, 'violated': 0, 'undecided': 0}
        for o in self.obs: c[o['status']] += 1
        return c

def pretty(v): 
    s = show(v)
    s = s.replace('source_map_mappings:', '')
    return s if len(s) < 700 else s[:700] + '…'
def trail_txt(st, n=14):
    tl = [('' if tr else 'not ') + '(' + pretty(c)[:160] + ') at ' + str(sp) for c, tr, sp in st.trail]
    return tl[-n:]
_EXT = re.compile(r'^[a-z_0-9]+:[^:]')
def free_choice(I, c):
    """callee when c only tests which variant an external call returned (either outcome is possible, whatever
    the arguments are), else None"""
    while isinstance(c, tuple) and c and c[0] == 'not': c = c[1]
    if not (isinstance(c, tuple) and c and c[0] == 'cmp'): return None
    l = lin(c[2])
    if l is None or len(l[1]) != 1: return None
    d = next(iter(l[1]))
    if d.op != 'discr' or not isinstance(d.args[0], T) or d.args[0].op != 'call': return None
    f = d.args[0].args[0]
    return f if isinstance(f, str) and _EXT.match(f) and f not in I.unknown_calls else None
def trail_ok(I, st, extra=()):
    """are the conditions of the path understood well enough to call the path feasible"""
    from .rel import congruent
    if not congruent(st): return False
    for i, (c, _, _) in enumerate(st.trail):
        if understood(I, c, extra): continue
        f = free_choice(I, c)
        if f is None: return False
        for j, (c2, _, _) in enumerate(st.trail):
            if j != i and any(x.op == 'call' and x.args[0] == f for x in terms_in(c2)): return False
    return True

def early_exit(st):
    """does the path leave some loop in the middle? (what the earlier iterations established is then only known
    to rules that ask for it)"""
    from .loops import rec_range, exhausted
    for e in st.events:
        if e[0] != 'loop': continue
        n = rec_range(e[1])
        if n is None or exhausted(st, e[1], n) is not True: return True
    return False

def first_iter(I, st):
    """the path when the loops it leaves in the middle are left in their first iteration; None when it cannot be"""
    from .loops import rec_range, exhausted
    s0 = st.copy()
    for e in st.events:
        if e[0] != 'loop': continue
        rec = e[1]; n = rec_range(rec)
        if n is not None and exhausted(st, rec, n) is True: continue
        for x, init in [(rec.kappa, V.I(0))] + [(p[0], I.deep(rec.hdr, p[1])) for p in rec.phis.values()]:
            if not isinstance(x, T) or x is init: continue
            if lin(init) is None or not is_int(x): return None
            s0.facts = s0.facts.assume(ieq(x, init), True)
            if s0.facts is None: return None
    return s0

def last_site(st):
    for c, tr, sp in reversed(st.trail):
        if isinstance(sp, str) and sp.startswith('src/'): return sp
    return ''

def contradictory(st):
    """no integers satisfy everything the path assumes"""
    from . import poly
    return not poly.of_path(st.trail).sat() or not poly.of_facts(st.facts).sat() or passed_over(st)

def passed_over(st):
    """a loop that ran to its end went through one of its rounds for every index: does none of them agree with what the path
    assumes about some index?"""
    from .loops import rec_range, exhausted
    for e in st.events:
        if e[0] != 'loop' or not getattr(e[1], 'backs', None): continue
        rec = e[1]; n = rec_range(rec)
        if n is None or exhausted(st, rec, n) is not True: continue
        own = lambda c: any(x.op in ('phi', '?') or x.op == 'k' and x is not rec.kappa for x in terms_in(c))
        ks = {x for c, _, _ in st.trail for x in terms_in(c) if x.op == 'k' and x is not rec.kappa}
        for k in ks:
            for at in (k, add(k, V.I(-1))):
                if st.facts.ev(ilt(at, n)) is not True or st.facts.ev(ilt(at, V.I(0))) is not False: continue
                for b in rec.backs:
                    f = st.facts
                    for c, tr, _ in b['trail']:
                        if own(c): continue
                        f = f.assume(subst(c, {rec.kappa: at}), tr)
                        if f is None: break
                    if f is not None: break
                else: return True
    return False

def conform_path(ctx, rep, rule, S, spec, post, extra, fname, o, st, tok, und_):
    """one path: (cases, cases held); violations are reported, undecided cases collected"""
    I = S.I; n = 0; held = 0
    def body(s):
        s.o = o
        r = spec(s)
        return r, dict(S.__dict__)      # what the specification noted for the postcondition
    try: alts = run_spec(I, st, S, body)
    except (Undecided, SpecError) as e:
        und_.append(str(e)); return n, held
    for (exp, notes), st2 in alts:
        n += 1
        S.__dict__.update(notes)
        if exp == ANY: held += 1; continue
        pairs = []
        if exp == PANIC or o[0] == 'panic':
            if exp == PANIC and o[0] == 'panic': r = True
            else:
                r = False if tok else None
            cmpw = ('panics' if o[0] == 'panic' else 'returns ' + pretty(I.deep(st, o[1])), 'panic' if exp == PANIC else pretty(I.deep(st2, exp[1])))
            if o[0] == 'panic': cmpw = ('panics (%s) at %s' % (o[1][0], o[1][2]), cmpw[1])
            if r is False: why = cmpw
        else:
            c = Cmp(I, extra)
            a = I.deep(st2, o[1]); b = I.deep(st2, exp[1])
            r = c.same(st2, a, b)
            why = (pretty(a), pretty(b))
            if r is True and post:
                for pr in post(I, st2, o, exp):
                    if len(pr) == 4:
                        r2 = pr[2]
                        if r2 is not True:
                            r = r2; why = ('%s: %s' % (pr[0], pr[3]), pr[1]); break
                        continue
                    nm, x, y = pr
                    c = Cmp(I, extra)
                    x, y = I.deep(st2, x), I.deep(st2, y)
                    r2 = c.same(st2, x, y)
                    if r2 is not True:
                        r = r2; why = ('%s: %s' % (nm, pretty(x)), pretty(y)); break
            if r is False and not tok: r = None
        if r is False and contradictory(st2): n -= 1; continue
        if r is True: held += 1
        elif r is False:
            rep.bad(rule, fname, {'path': trail_txt(st2), 'got': why[0], 'expected': why[1]}, last_site(st))
        else:
            und_.append({'path': trail_txt(st2, 4), 'got': why[0] if r is None and 'why' in dir() else '', 'bad_ops': sorted(set().union(*[bad_ops(c, extra) for c, _, _ in st.trail]) if st.trail else [])})
    return n, held

def conform(ctx, rep, rule, S, spec, post=None, extra=(), pre=None, keep=None, fname=None, early=False):
    """every path of S agrees with the specification. spec(s) -> PANIC | ANY | R(v)"""
    I = S.I; rep.seen(S)
    fname = fname or S.b['id']
    n = 0; held = 0
    agg = {}
    for o in S.outs:
        if keep and not keep(o): continue
        st = o[-1]
        if pre:
            st = pre(I, st)
            if st is None: continue
        und_ = []
        cnt, h = conform_path(ctx, rep, rule, S, spec, post, extra, fname, o, st, trail_ok(I, st, extra) and (early or not early_exit(st)), und_)
        n += cnt; held += h
        if und_ and not early and trail_ok(I, st, extra) and early_exit(st):
            s0 = first_iter(I, st)
            if s0 is not None:
                r2 = Rep(rep.pid)
                conform_path(ctx, r2, rule, S, spec, post, extra, fname, o, s0, True, [])
                bad_ = [x for x in r2.obs if x['status'] == 'violated']
                if bad_: rep.obs += bad_; und_ = []
        for x in und_: rep.und(rule, fname, x)
    if n == 0: rep.und(rule, fname, 'no path')
    for _ in range(held): rep.ok(rule, fname)
    return n
