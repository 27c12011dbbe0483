"""Path summaries of one function: build typed inputs, run the interpreter,
package the outcomes."""
import json
from .val import *
from . import val as V
from .interp import Interp, Program, St, Budget, Unsupported

RUNS = []       # every interpreter run of this process
def load(path):
    return Program(json.load(open(path)))

def arg_value(I, st, ty, name):
    """fresh input of MIR type ty"""
    k = I.tk(ty)
    if k['k'] == 'ref':
        inner = I.tk(k['t'])
        if inner['k'] == 'str': return t('in', name)
        c = ('in', name)
        st.mem[c] = arg_value(I, st, k['t'], name)
        return ('ref', c, ())
    n = I.int_name(ty)
    if k['k'] == 'adt' and k['p'] == OPT:
        x = t('in', name); return x
    x = t('in', name)
    if n and n != 'char': x.ty = n
    return x

class Summary:
    def __init__(self, I, b, outs, args, st0):
        self.I = I; self.b = b; self.outs = outs; self.args = args; self.st0 = st0
    def rets(self): return [o for o in self.outs if o[0] == 'ret']
    def panics(self): return [o for o in self.outs if o[0] == 'panic']

def run(prog, fid, args=None, init=None, names=None, **kw):
    I = Interp(prog, **kw); I.top = fid; RUNS.append(I)
    b = prog.bodies[fid]
    st = St()
    if init: init(I, st)
    av = []
    for i in range(b['argc']):
        l = b['locals'][i + 1]
        nm = (names or {}).get(i) or l.get('n') or 'a%d' % i
        if args and i in args:
            v = args[i]; v = v(I, st) if callable(v) else v
        else: v = arg_value(I, st, l['t'], nm)
        av.append(v)
    st0 = st.copy()
    outs = I.exec_body(b, av, st, ('top',))
    return Summary(I, b, outs, av, st0)

def dump(s, events=True):
    I = s.I
    for o in s.outs:
        st = o[-1]
        print('---', o[0], '' if o[0] == 'ret' else o[1])
        for c, tr, sp in st.trail: print('    ', '' if tr else 'NOT', show(c), ' @', sp)
        if events:
            for e in st.events:
                if e[0] == 'loop': print('     loop', e[1].where, {str(k): (show(v[0]), show(v[1])) for k, v in e[1].phis.items()}, 'backs', len(e[1].backs))
                else: print('     ev', e[0], e[1], ' | '.join(show(x) for x in (e[2] if isinstance(e[2], tuple) else ()) )[:300])
        if o[0] == 'ret': print('   =>', show(I.deep(st, o[1]))[:1500])
    print(len(s.outs), 'outcomes; steps', I.steps, 'unknown', I.unknown_calls)
