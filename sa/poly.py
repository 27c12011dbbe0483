"""Entailment between affine inequalities over value numbers (Fourier-Motzkin elimination; integer tightening)."""
from fractions import Fraction as Fr
from .val import *
from . import val as V

def form(v):
    """affine v as (dict, const), meaning sum + const"""
    l = lin(v)
    return None if l is None else (dict(l[1]), l[0])
class Poly:
    """conjunction of constraints v <= 0"""
    def __init__(self): self.cs = []; self.ne = []
    def copy(self):
        p = Poly(); p.cs = list(self.cs); p.ne = list(self.ne); return p
    def le0(self, v):
        f = form(v)
        if f is not None: self.cs.append(f)
    def lt0(self, v): self.le0(add(v, V.I(1)))
    def eq0(self, v): self.le0(v); self.le0(scale(v, -1))
    def cond(self, c, truth):
        while isinstance(c, tuple) and c and c[0] == 'not': c, truth = c[1], not truth
        if not (isinstance(c, tuple) and c and c[0] == 'cmp'): return
        if c[1] == 'lt': self.lt0(c[2]) if truth else self.le0(scale(c[2], -1))
        elif truth: self.eq0(c[2])
        else: self.ne.append(c[2])
    def axioms(self):
        """quotients by constants, lengths"""
        seen = set(); ch = True
        while ch:
            ch = False
            for f in list(self.cs):
                for a in list(f[0]):
                    if a in seen: continue
                    seen.add(a); ch = True
                    if a.op in ('len', 'maplen', 'k'): self.le0(scale(a, -1))
                    if a.op in ('div', 'shr') and const_int(a.args[1]) is not None and lin(a.args[0]) is not None:
                        n = const_int(a.args[1]); n = n if a.op == 'div' else 2 ** n
                        x = a.args[0]
                        for b in lin(x)[1]:
                            if b not in seen: pass
                        if n > 0 and (a.op == 'shr' or self.proves_le0(scale(x, -1))):
                            self.le0(sub(scale(a, n), x)); self.le0(sub(x, add(scale(a, n), V.I(n - 1))))
    def feasible(self):
        cs = []
        for d, c in self.cs:
            cs.append(({k: Fr(n) for k, n in d.items() if n}, Fr(c)))
        while True:
            new = []
            for d, c in cs:
                if not d:
                    if c > 0: return False
                else: new.append((d, c))
            cs = new
            if not cs: return True
            occ = {}
            for d, _ in cs:
                for k, n in d.items():
                    o = occ.setdefault(k, [0, 0]); o[0 if n > 0 else 1] += 1
            k = min(occ, key=lambda k: occ[k][0] * occ[k][1])
            up = [(d, c) for d, c in cs if d.get(k, 0) > 0]; lo = [(d, c) for d, c in cs if d.get(k, 0) < 0]
            rest = [(d, c) for d, c in cs if not d.get(k)]
            for d1, c1 in up:
                for d2, c2 in lo:
                    a, b = d1[k], -d2[k]
                    d = {}
                    for x in set(d1) | set(d2):
                        if x is k: continue
                        n = d1.get(x, 0) * b + d2.get(x, 0) * a
                        if n: d[x] = n
                    rest.append(tighten((d, c1 * b + c2 * a)))
            if len(rest) > 4000: return True
            # drop duplicates, keep the strongest constant
            best = {}
            for d, c in rest:
                key = tuple(sorted(((x.id, n) for x, n in d.items())))
                if key not in best or best[key][1] < c: best[key] = (d, c)
            cs = list(best.values())
    def sat(self):
        """False only when contradictory"""
        if not self.feasible(): return False
        for v in self.ne[:6]:
            a = self.copy(); a.ne = []; a.lt0(v)
            b = self.copy(); b.ne = []; b.lt0(scale(v, -1))
            if not a.feasible() and not b.feasible(): return False
        return True
    def proves_le0(self, v):
        """v <= 0 in every integer solution"""
        p = self.copy(); p.le0(add(scale(v, -1), V.I(1)))
        if not p.sat(): return True
        # split one disequality
        for w in self.ne[:6]:
            a = p.copy(); a.ne = []; a.lt0(w)
            b = p.copy(); b.ne = []; b.lt0(scale(w, -1))
            if not a.feasible() and not b.feasible(): return True
        return False
    def proves_le(self, a, b): return self.proves_le0(sub(a, b))
    def proves_lt(self, a, b): return self.proves_le0(add(sub(a, b), V.I(1)))
    def proves_eq(self, a, b): return self.proves_le(a, b) and self.proves_le(b, a)
def tighten(f):
    d, c = f
    if not d: return f
    from math import gcd
    den = 1
    for n in d.values(): den = den * n.denominator // gcd(den, n.denominator)
    g = 0
    for n in d.values(): g = gcd(g, int(n * den))
    if g == 0: return f
    s = Fr(den, g)
    c2 = c * s
    import math
    return ({k: n * s for k, n in d.items()}, Fr(math.ceil(c2)))
def of_path(trail, *pre):
    p = Poly()
    for v in pre: p.le0(v)
    for c, tr, _ in trail: p.cond(c, tr)
    p.axioms()
    return p

def of_facts(facts):
    """everything a path knows about affine forms"""
    p = Poly()
    for k, (lo, hi, ex) in facts.iv.items():
        v = V.I(0)
        for a, n in k: v = add(v, scale(a, n))
        if lo is not None: p.le0(sub(V.I(lo), v))
        if hi is not None: p.le0(sub(v, V.I(hi)))
        for x in ex: p.ne.append(sub(v, V.I(x)))
    return p
def bounds(cs, k):
    """rational range of k over the solutions of cs"""
    lo = hi = None
    while True:
        occ = sorted({x for d, _ in cs for x in d if x is not k}, key=lambda x: x.id)
        if not occ: break
        x = occ[0]
        up = [(d, c) for d, c in cs if d.get(x, 0) > 0]; dn = [(d, c) for d, c in cs if d.get(x, 0) < 0]
        rest = [(d, c) for d, c in cs if not d.get(x)]
        for d1, c1 in up:
            for d2, c2 in dn:
                a, b = d1[x], -d2[x]; d = {}
                for y in set(d1) | set(d2):
                    if y is x: continue
                    n = d1.get(y, 0) * b + d2.get(y, 0) * a
                    if n: d[y] = n
                rest.append((d, c1 * b + c2 * a))
        if len(rest) > 400: return None
        cs = rest
    for d, c in cs:
        n = d.get(k, 0)
        if not n:
            if c > 0: return None
        elif n > 0: hi = -c / n if hi is None else min(hi, -c / n)
        else: lo = -c / n if lo is None else max(lo, -c / n)
    return lo, hi
def witness(p, tries=400):
    """an integer solution of p, or None when none was found"""
    import math
    ne = [form(v) for v in p.ne]
    if any(f is None for f in ne): return None
    budget = [tries]
    def go(cs, ne, asg):
        budget[0] -= 1
        if budget[0] < 0: return None
        for d, c in cs:
            if not d and c > 0: return None
        for d, c in ne:
            if not d and c == 0: return None
        vs = sorted({x for d, _ in cs + ne for x in d}, key=lambda x: x.id)
        if not vs: return asg
        k = vs[0]; b = bounds([f for f in cs if f[0]], k)
        if b is None: return None
        lo = math.ceil(b[0]) if b[0] is not None else None; hi = math.floor(b[1]) if b[1] is not None else None
        if lo is not None and hi is not None and lo > hi: return None
        base = [0, 1, -1, 2, 3, 7, -5, 11] + ([lo, lo + 1, lo + 3] if lo is not None else []) + ([hi, hi - 1, hi - 3] if hi is not None else [])
        done = set()
        for x in base:
            if x in done or (lo is not None and x < lo) or (hi is not None and x > hi) or abs(x) > 1 << 20: continue
            done.add(x)
            def sub_(f): 
                d, c = f
                return f if k not in d else ({y: n for y, n in d.items() if y is not k}, c + d[k] * x)
            r = go([sub_(f) for f in cs], [sub_(f) for f in ne], {**asg, k: x})
            if r is not None: return r
        return None
    return go([({k: Fr(n) for k, n in d.items() if n}, Fr(c)) for d, c in p.cs], [({k: n for k, n in d.items() if n}, c) for d, c in ne], {})
