#!/usr/bin/env python3
"""mutate.py [files]: one-token mutants of /repo/src; lists those that pass the tests and no check reports.
env: VV analyser directory, N parallel slots, OPS filter, OUT log"""
import os, re, sys, random, json, concurrent.futures as cf, queue
sys.argv_files = sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,'/verif/docs/tools')
import refs
refs.BASE = '/tmp/mutw'
from refs import sh, slot, BASE
FILES = sys.argv_files or ['array_set.rs','base64.rs','base64_vlq.rs','binary_search.rs','consumer.rs','generator.rs','mapping_list.rs','util.rs','source_map.rs','mapping.rs']
OPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' > ', ' < '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'&& ', '|| '), (r'\|\| ', '&& '),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \+= ', ' = '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b3\b', '4'), (r'-1\b', '0'), (r'-1\b', '-2'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'is_some\(', 'is_none('), (r'is_none\(', 'is_some('), (r'!self', 'self'), (r'!(\w)', r'\1'), (r'if (?!let)([^{]+) \{', r'if !(\1) {'), (r'if (?!let)([^{]+) \{', r'if true {'), (r'if (?!let)([^{]+) \{', r'if false {'),
       (r'\.line\b', '.column'), (r'\.column\b', '.line'), (r'\bpop_front\b', 'pop_back'), (r'\bpop_back\b', 'pop_front'), (r'\.front\b', '.back'), (r'\.back\b', '.front'), (r'\.all\(', '.any('), (r'\.last\(', '.first('), (r'Greater', 'Less'), (r'Less', 'Greater'),
       (r'continue;', 'break;'), (r'break;', 'continue;'), (r'generated_line', 'generated_column'), (r'generated_column', 'generated_line'), (r'original_line', 'original_column'), (r'original_column', 'original_line'), (r'generated\.', 'original.'),
       (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'), (r'\ba\b', 'b'), (r'\bb\b', 'a'), (r'\broot\b', 'path'), (r'\bpath\b', 'root'), (r'root_url', 'target_url'), (r'target_url', 'root_url'), (r'\bsource\b', 'name'), (r'\bname\b', 'source'), (r'"([^"]+)"', '""'), (r'"([^"]+)"', '"xx"'),
       (r"'(.)'", "'z'"), (r'root_parts', 'target_parts'), (r'target_parts', 'root_parts'), (r'\.contains\(', '.starts_with('), (r'NORMALIZE\(([^)]+)\)', r'\1'), (r'TRIM_FILENAME\(([^)]+)\)', r'\1'), (r'ENSURE_DIRECTORY\(([^)]+)\)', r'\1'), (r'source_map_url', 'source_root'), (r'source_root', 'source_map_url'),
       (r'Some\(false\)', 'None'), (r'Some\(false\)', 'Some(true)'), (r'\.cloned\(\)', '.cloned().filter(|_| false)'), (r'return (.+);', r'return Default::default();'), (r'return (\w[^;]*);', r''), (r'^\s+[\w.*&()\[\]]+ [+-]?= .*;$', ''), (r'^\s+[\w.]+\(.*\);$', ''), (r'^\s+[\w.]+\(.*\)$', ' '),
       (r'GreatestLowerBound', 'LeastUpperBound'), (r'GREATEST_LOWER_BOUND', 'LEAST_UPPER_BOUND'), (r'LEAST_UPPER_BOUND', 'GREATEST_LOWER_BOUND'), (r'names', 'sources'), (r'sources\b', 'names'), (r'previous_(\w+)_line', r'previous_\1_column'), (r'previous_(\w+)_column', r'previous_\1_line'), (r'previous_source', 'previous_name'), (r'previous_name', 'previous_source'), (r'name_idx', 'source_idx'), (r'source_idx', 'name_idx'),
       (r'as_deref\(\)', 'as_deref().filter(|_| false)'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().rev()'), (r'\.into_iter\(\)', '.into_iter().skip(1)'), (r'\.clone\(\)', '.clone().into_iter().skip(1).collect()'), (r'Ok\(\(\)\)', 'Err(())'), (r'Err\(\(\)\)', 'Ok(())'), (r'PathAbsolute', 'PathRelative'), (r'PathRelative', 'PathAbsolute'), (r'SchemeRelative', 'PathAbsolute'), (r'\bAbsolute', 'SchemeRelative'),
       (r'\.insert\(', '.entry('), (r'as i32', 'as i16 as i32'), (r'as u32', 'as u8 as u32'), (r'as usize', 'as u8 as usize'), (r'line_shift', 'column_shift'), (r'column_shift', 'line_shift'), (r'\bmid\b', 'low'), (r'\bmid\b', 'high'), (r'\bhigh\b', 'mid'), (r'\blow\b', 'mid'), (r'\.map\(', '.filter(|_| false).map('), (r'skip_serializing_if', 'default, skip_serializing_if'), (r'#\[serde\(.*\)\]', ''), (r'rename = "', 'alias = "')]
def lines_of(f):
    L = open('/repo/src/' + f).read().split('\n'); end = len(L)
    for i, l in enumerate(L):
        if l.startswith('#[cfg(test)]') or l.startswith('#[test]'): end = i; break
    return L, end
def muts():
    out = []
    for f in FILES:
        L, end = lines_of(f); seen = set()
        for i in range(end):
            l = L[i]
            if l.strip().startswith('//') or l.strip().startswith('use ') or not l.strip(): continue
            for rx, new in OPS:
                for m in re.finditer(rx, l):
                    try: nl = l[:m.start()] + m.expand(new) + l[m.end():]
                    except Exception: continue
                    if nl != l and (i, nl) not in seen: seen.add((i, nl)); out.append((f, i, l, nl))
        # delete multi-line statements beginning at a line
        for i in range(end):
            l = L[i]
            if re.match(r'^\s+(if|while|for) .*\{$', l):
                ind = len(l) - len(l.lstrip())
                for j in range(i + 1, min(end, i + 30)):
                    if L[j].strip() and len(L[j]) - len(L[j].lstrip()) <= ind:
                        if L[j].strip() == '}': out.append((f, i, '\n'.join(L[i:j + 1]), ''))
                        break
    return out
def one(n, mu):
    f, i, old, new = mu
    w, v = '%s/r%d' % (BASE, n), '%s/v%d' % (BASE, n)
    sh('git checkout -q -- .', cwd=w)
    p = w + '/src/' + f; L = open(p).read().split('\n'); k = old.count('\n') + 1
    assert '\n'.join(L[i:i + k]) == old
    L[i:i + k] = [new]; open(p, 'w').write('\n'.join(L))
    env = {**os.environ, 'CARGO_TARGET_DIR': BASE + '/t%d' % n, 'CARGO_NET_OFFLINE': 'true'}
    r = sh('cargo build --offline', cwd=w, env=env)
    if r.returncode: return 'nobuild', ''
    r = sh('timeout 20 cargo test --workspace --no-fail-fast --offline -- --test-threads 2', cwd=w, env=env)
    if sum(int(x) for x in re.findall(r'(\d+) passed', r.stdout)) < 27: return 'tests', ''
    r = sh('timeout 300 ./check.sh all', cwd=v, env={**os.environ, 'VERIF_REPO': w})
    vs = sorted(set(re.findall(r'VIOLATION property=(\w+)', r.stdout)))
    u = re.findall(r'^(\w+): \d+ obligations, \d+ held, ([1-9]\d*) undecided', r.stdout, re.M)
    if vs: return 'caught', ','.join(vs)
    return 'SURVIVED', ' '.join(x + ':' + y for x, y in u) + (' RC%d %s' % (r.returncode, r.stderr[-300:]) if r.returncode not in (0, 1) else '')
def main():
    M = muts(); random.Random(1).shuffle(M)
    lim = int(os.environ.get('LIM', 0)); M = M[:lim] if lim else M
    print(len(M), 'mutants', flush=True)
    N = int(os.environ.get('N', 4)); q = queue.Queue(); cnt = {}
    for n in range(N): slot(n); q.put(n)
    def job(mu):
        n = q.get()
        try:
            try: return mu, one(n, mu)
            except Exception as e: return mu, ('ERR', repr(e))
        finally: q.put(n)
    with open(os.environ.get('OUT', '/tmp/mut.log'), 'a') as out, cf.ThreadPoolExecutor(N) as ex:
        for mu, (r, x) in ex.map(job, M):
            cnt[r] = cnt.get(r, 0) + 1
            if r not in ('nobuild', 'tests'): out.write(json.dumps([r, x, *mu]) + '\n'); out.flush()
    print(cnt)
if __name__ == '__main__': main()
