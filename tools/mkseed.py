#!/usr/bin/env python3
"""usage: mkseed.py [ID...]: writes /verif/seeded/<id> from tools/seeds/*.py and verifies each in a scratch copy of /repo.
A seed file sets: property, edits = [(file, old, new), ...], needs, breaks, demo (shell, after seedlib.sh)."""
import sys, os, subprocess, json, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def build():
    return sh('. /opt/vp/env.sh; cargo build --workspace --locked --offline', cwd=W)
def test():
    return sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 --skip introspection::', cwd=W)
def main():
    ids = sys.argv[1:] or [os.path.basename(f)[:-3] for f in sorted(glob.glob(V + '/tools/seeds/c[0-9]*.py'))]
    if not os.path.isdir(W):
        sh(f'cp -a /repo {W}')
    sh(f'git -C {W} checkout -q -- . ; git -C {W} fetch -q /repo HEAD; git -C {W} reset -q --hard FETCH_HEAD')
    b = build(); assert b.returncode == 0, b.stderr
    shutil.copy(W + '/target/debug/podo', '/tmp/seed-podo-orig')
    bad = 0
    for i in ids:
        g = {}
        exec(open(f'{V}/tools/seeds/{i}.py').read(), g)
        d = f'{V}/seeded/{i}'
        os.makedirs(d, exist_ok=True)
        msg = []
        for f, old, new in g['edits']:
            s = open(f'{W}/{f}').read()
            if s.count(old) != 1: msg.append(f'{f}: {s.count(old)} matches of {old[:60]!r}')
            open(f'{W}/{f}', 'w').write(s.replace(old, new, 1))
        diff = sh('git diff', cwd=W).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + open(V + '/tools/seedlib.sh').read() + '\n' + (open(V + '/tools/seeds/dblib.sh').read() + '\n' if g.get('db') else '') + g['demo'])
        for x in g.get('files', []) + (['fakepg.py'] if g.get('db') else []): shutil.copy(f'{V}/tools/seeds/{x}', d)
        json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if not msg:
            b = build()
            if b.returncode: msg.append('build: ' + b.stderr[-2000:])
            else:
                t = test()
                if t.returncode: msg.append('tests: ' + '\n'.join(l for l in t.stdout.split('\n') if 'FAILED' in l or 'panicked' in l)[:800])
                r = sh(f'timeout 300 bash {d}/demo.sh', cwd=W)
                if r.returncode == 0: msg.append('demo passes with the patch')
                bl = r.stderr.strip().split('\n')[-1][:150]
        sh('git checkout -q -- .', cwd=W)
        if not msg:
            b = build()
            r = sh(f'timeout 300 bash {d}/demo.sh', cwd=W)
            if r.returncode: msg.append('demo fails without the patch: ' + r.stdout[-500:] + r.stderr[-1500:])
        print(i, 'BAD ' + '; '.join(msg) if msg else f'ok ({bl})', flush=True)
        bad += bool(msg)
    sys.exit(bool(bad))
main()
