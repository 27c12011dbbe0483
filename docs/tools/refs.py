#!/usr/bin/env python3
"""refs.py <file> [ids]: edits of /repo, in parallel scratch copies. Ids starting with OK keep the behaviour: the checks must
stay quiet (and preferably decided). Other ids break something: the checks should report it.
env: VV analyser directory (default /verif), PROPS ids to check (default all), REF_TEST=1 run the tests too, BAD=1 print only what is not as it should be."""
import os, subprocess, sys, re, concurrent.futures as cf
BASE = os.environ.get('REFW', '/tmp/refw')
S = {}
def ref(id, *edits): S[id] = edits
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def slot(n):
    w = '%s/r%d' % (BASE, n); v = '%s/v%d' % (BASE, n); src = os.environ.get('VV', '/verif')
    sh('mkdir -p %s && rsync -a --delete --exclude target /repo/ %s/ && rsync -a --delete --exclude .git --exclude seeded --exclude "build/cargo*" %s/ %s/' % (BASE, w, src, v))
    return w, v
def one(n, id):
    w, v = '%s/r%d' % (BASE, n), '%s/v%d' % (BASE, n)
    sh('git checkout -q -- .', cwd=w)
    for f, old, new in S[id]:
        p = w + '/src/' + f; s = open(p).read()
        if s.count(old) != 1: return '%-18s EDIT MATCHES %d %r' % (id, s.count(old), old[:60]), True
        open(p, 'w').write(s.replace(old, new))
    r = sh('./check.sh ' + os.environ.get('PROPS', 'all'), cwd=v, env={**os.environ, 'VERIF_REPO': w})
    vs = sorted(set(re.findall(r'VIOLATION property=(\w+)', r.stdout)))
    u = re.findall(r'^(\w+): \d+ obligations, \d+ held, ([1-9]\d*) undecided', r.stdout, re.M)
    line = '%-18s %-6s violations %s undecided %s%s' % (id, 'ALARM' if vs else 'quiet', vs, u, '' if r.returncode == bool(vs) else ' RC %d ' % r.returncode + r.stderr[-700:])
    bad = bool(vs) == id.startswith('OK') or r.returncode not in (0, 1) or r.returncode != bool(vs)
    if os.environ.get('REF_TEST'):
        r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=w, env={**os.environ, 'CARGO_TARGET_DIR': BASE + '/t%d' % n, 'CARGO_NET_OFFLINE': 'true'})
        k = sum(int(x) for x in re.findall(r'(\d+) passed', r.stdout))
        if k < 27: line += '   TESTS %d %s' % (k, r.stderr[-300:])
    return line, bad
def main():
    import queue
    g = globals()
    exec(open(sys.argv[1]).read(), g)
    N = int(os.environ.get('N', 6)); q = queue.Queue()
    for n in range(N): slot(n); q.put(n)
    def job(id):
        n = q.get()
        try: return one(n, id)
        finally: q.put(n)
    with cf.ThreadPoolExecutor(N) as ex:
        for line, bad in ex.map(job, sys.argv[2:] or list(S)):
            if bad or not os.environ.get('BAD'): print(line); sys.stdout.flush()
if __name__ == '__main__': main()
