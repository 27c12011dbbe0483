#!/usr/bin/env python3
"""runseeds.py [ids]: for each planted bug, which properties' checks report a violation (parallel scratch copies).
env: VV analyser directory (default /verif), N slots, TABLE=1 write docs/seeded.md"""
import os, subprocess, sys, json, re, queue, concurrent.futures as cf
BASE = '/tmp/seedw'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(n, id):
    w, v = '%s/r%d' % (BASE, n), '%s/v%d' % (BASE, n); d = '/verif/seeded/' + id
    sh('git checkout -q -- .', cwd=w)
    if sh('git apply %s/patch.diff' % d, cwd=w).returncode: return id, None, None, 'DOES NOT APPLY'
    r = sh('./check.sh all', cwd=v, env={**os.environ, 'VERIF_REPO': w})
    vs = sorted(set(re.findall(r'VIOLATION property=(\w+)', r.stdout)))
    u = re.findall(r'^(\w+): \d+ obligations, \d+ held, ([1-9]\d*) undecided', r.stdout, re.M)
    return id, vs, u, '' if r.returncode in (0, 1) else ' RC %d ' % r.returncode + r.stderr[-300:]
def main():
    ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded')); N = int(os.environ.get('N', 6)); q = queue.Queue()
    src = os.environ.get('VV', '/verif')
    for n in range(N):
        w, v = '%s/r%d' % (BASE, n), '%s/v%d' % (BASE, n); q.put(n)
        sh('mkdir -p %s && rsync -a --delete --exclude target /repo/ %s/ && rsync -a --delete --exclude .git --exclude seeded --exclude "build/cargo*" %s/ %s/' % (BASE, w, src, v))
    def job(id):
        n = q.get()
        try: return one(n, id)
        finally: q.put(n)
    rows = []
    with cf.ThreadPoolExecutor(N) as ex:
        for id, v, u, err in ex.map(job, ids):
            m = json.load(open('/verif/seeded/%s/meta.json' % id)); p = m['property']
            rows.append((id, p, m, v))
            print('%-14s %-4s %-6s violations %s undecided %s %s' % (id, p, 'CAUGHT' if v and p in v else 'MISSED', v, u, err)); sys.stdout.flush()
    if os.environ.get('TABLE'):
        c = lambda s: str(s).replace('|', '/').replace('\n', ' ')
        with open('/verif/docs/seeded.md', 'w') as f:
            f.write('| change | property | what it breaks | what it needs | reported by the checks of |\n|---|---|---|---|---|\n')
            for id, p, m, v in rows: f.write('| %s | %s | %s | %s | %s |\n' % (id, p, c(m.get('what_it_breaks', '')), c(m.get('needs', '')), ', '.join(v or ['(none)'])))
if __name__ == '__main__': main()
