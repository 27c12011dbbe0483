#!/usr/bin/env python3
"""mkseed.py <file with seeds> [ids...]: build, confirm and store planted bugs under /verif/seeded.
A seeds file defines seed(id, prop, edits, main_rs, needs, breaks)."""
import os, subprocess, sys, shutil, json, re
W = '/tmp/seedw/repo'; T = '/tmp/seedt'; OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# builds main.rs beside this script against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nrusty-source-map = { path = "%s" }\\nserde_json = "1.0"\\n' "$R" > "$T/Cargo.toml"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}" timeout 250 cargo run -q --offline
'''
S = {}
def seed(id, prop, edits, main, needs, breaks): S[id] = (prop, edits, main, needs, breaks)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def base():
    sh('rm -rf /tmp/seedw/repo && mkdir -p /tmp/seedw && cp -a /repo /tmp/seedw/repo && rm -rf /tmp/seedw/repo/target')
def tests():
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=W, env={**os.environ, 'CARGO_TARGET_DIR': T + '/t', 'CARGO_NET_OFFLINE': 'true'})
    ok = sum(int(x) for x in re.findall(r'(\d+) passed', r.stdout)); bad = sum(int(x) for x in re.findall(r'(\d+) failed', r.stdout))
    return ok, bad, r
def demo(d):
    return sh('bash %s/demo.sh' % d, cwd=W, env={**os.environ, 'DEMO_TARGET': T + '/d'})
def main():
    exec(open(sys.argv[1]).read(), globals())
    ids = sys.argv[2:] or list(S)
    base()
    for id in ids:
        prop, edits, mainrs, needs, breaks = S[id]
        sh('git checkout -q -- .', cwd=W)
        d = '/tmp/seedw/' + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/main.rs', 'w').write(mainrs); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        r0 = demo(d)
        if r0.returncode: print(id, 'DEMO FAILS ON CLEAN', r0.stderr[-800:]); continue
        ok = True
        for f, old, new in edits:
            p = W + '/src/' + f; s = open(p).read()
            if s.count(old) != 1: print(id, 'EDIT MATCHES', s.count(old), repr(old[:60])); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: continue
        diff = sh('git diff', cwd=W).stdout
        # removed lines must be original
        orig = False
        for f in {e[0] for e in edits}:
            bl = sh('git blame -s HEAD -- src/' + f, cwd=W).stdout.split('\n')
            cur = None
            for l in sh('git diff -U0 src/' + f, cwd=W).stdout.split('\n'):
                m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for i in range(a, a + n):
                        if '321f63f' in bl[i - 1].split()[0]: orig = True
                        else: print('   ', id, 'touches fix line', bl[i - 1][:80])
        if not orig: print(id, 'NO ORIGINAL LINE REMOVED')
        okn, bad, r = tests()
        if 'error' in r.stderr and okn == 0: print(id, 'DOES NOT BUILD', r.stderr[-800:]); continue
        if okn < 27: print(id, 'TESTS', okn, bad, [x for x in r.stdout.split('\n') if 'FAILED' in x][:3]); continue
        r1 = demo(d)
        if r1.returncode == 0: print(id, 'DEMO PASSES WITH PATCH'); continue
        if 'could not compile' in r1.stderr: print(id, 'DEMO DOES NOT COMPILE', r1.stderr[-600:]); continue
        o = OUT + '/' + id; shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
        open(o + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
        print(id, prop, 'ok; demo says', (r1.stderr.strip().split('\n') or [''])[-2 if len(r1.stderr.strip().split('\n')) > 1 else -1][:100])
if __name__ == '__main__': main()
