"""Run the rules of the named properties on a MIR dump; write evidence."""
import sys, os, json, time, signal
sys.setrecursionlimit(20000)
from . import summ, core
from .rules import RULES, EXPL

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ['rustc nightly MIR construction (optimisation off) and the dump in driver/mirdump.rs',
         'the transfer functions for standard-library items in sa/models.py',
         'external crates (serde_json, url, regex, source-map-mappings) are uninterpreted: their results are value numbers of their arguments']

def known():
    out = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('known: '): continue
            # known: property=<id> key=<rule>|<where>|<got>  <what fails>
            kv = l[7:].split(' ', 2)
            out.setdefault(kv[0].split('=', 1)[1], {})[kv[1].split('=', 1)[1]] = kv[2] if len(kv) > 2 else ''
    return out

LIMIT = 300
class TimeUp(BaseException): pass
def time_up(*_): raise TimeUp()

def main(argv):
    signal.signal(signal.SIGALRM, time_up)
    mir = argv[0]; ids = argv[1:]
    P = summ.load(mir)
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0; kn = known()
    if ids == ['all']: ids = sorted(RULES)
    ctx = core.Ctx(P)
    for pid in ids:
        t0 = time.time()
        rep = core.Rep(pid)
        signal.setitimer(signal.ITIMER_REAL, LIMIT, 5)      # what is not decided by then is undecided
        try: rep.guard('rule', pid, lambda: RULES[pid](ctx, rep))
        except TimeUp: rep.und('time', pid, 'not decided within %d s' % LIMIT)
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
        c = rep.counts()
        if not rep.obs: rep.bad('floor', pid, 'no obligation generated: the rule no longer applies to anything')
        viol = {}
        for o in rep.obs:
            if o['status'] == 'violated':
                viol.setdefault(o['rule'] + '|' + o['where'], []).append(o)
        rep_dir = os.path.join(V, 'evidence', 'replay'); nviol = 0
        for key, os_ in sorted(viol.items()):
            if key in kn.get(pid, {}):
                print('KNOWN-FINDING: property=%s %s' % (pid, kn[pid][key])); continue
            nviol += 1
            os.makedirs(rep_dir, exist_ok=True)
            path = os.path.join(rep_dir, '%s-%d.json' % (pid, nviol))
            json.dump({'property': pid, 'rule': os_[0]['rule'], 'construct': os_[0]['where'], 'site': os_[0]['site'],
                       'rerun': './check.sh ' + pid, 'findings': os_[:8]}, open(path, 'w'), indent=1, ensure_ascii=False, default=str)
            d = os_[0]['detail']
            print('rule %s fails in %s%s' % (os_[0]['rule'], os_[0]['where'], (' near ' + os_[0]['site']) if os_[0]['site'] else ''))
            print('   ' + (json.dumps(d, ensure_ascii=False, default=str) if not isinstance(d, str) else d)[:1200])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        if nviol: rc = 1
        rules = {}
        for o in rep.obs:
            r = rules.setdefault(o['rule'], {'held': 0, 'violated': 0, 'undecided': 0, 'constructs': []})
            r[o['status']] += 1
            if o['where'] not in r['constructs']: r['constructs'].append(o['where'])
        und = [{'rule': o['rule'], 'where': o['where'], 'why': o['detail'] if isinstance(o['detail'], str) else {k: v for k, v in o['detail'].items()}} for o in rep.obs if o['status'] == 'undecided']
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
              'coverage': {'explanation': EXPL.get(pid, RULES[pid].__doc__ or ''), 'obligations': len(rep.obs), 'discharged': c['held'],
                           'undecided': c['undecided'], 'undecided_samples': und[:5], 'rules': rules, 'functions_analysed': sorted(rep.fns),
                           'paths': rep.paths, 'checker_cmd': './check.sh ' + pid, 'trusted_base': TRUST, 'notes': rep.notes},
              'assumptions': TRUST, 'wall_s': round(time.time() - t0, 3), 'violations': nviol}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1, ensure_ascii=False)
        print('%s: %d obligations, %d held, %d undecided, %d violated (%.2fs)' % (pid, len(rep.obs), c['held'], c['undecided'], len(rep.obs) - c['held'] - c['undecided'], time.time() - t0))
    return rc
if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
