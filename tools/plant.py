#!/usr/bin/env python3
"""plant.py ID   confirm and write /verif/seeded/ID from tools/plants/ID/{edit.py,demo_test.go,meta.json}
edit.py defines EDITS = [(file, old, new), ...]; PKG, LIB (demo library) optional in meta."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    d = tempfile.mkdtemp(prefix='plant')
    sh('cp -a /repo %s/r' % d, '/')
    sh('git checkout -q -- . && git clean -fdq', d + '/r')
    return d
def main(i, edits, meta, pkg, demo, lib):
    out = os.path.join(H, 'seeded', i)
    os.makedirs(out, exist_ok=True)
    t = open(H + '/tools/demo/demo.sh').read().replace('./PKG', './' + pkg if pkg else '.').replace('/PKG/', '/' + pkg + '/' if pkg else '/')
    open(out + '/demo.sh', 'w').write(t)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo_test.go', 'w').write(demo)
    if lib:
        shutil.copy(H + '/tools/demo/' + lib, out + '/lib_test.go')
    json.dump(meta, open(out + '/meta.json', 'w'), indent=1)
    d = scratch()
    r = d + '/r'
    try:
        # 'demo.sh' runs env.sh, which changes to /repo: it goes back itself
        p = sh('bash %s/demo.sh' % out, r)
        if p.returncode != 0:
            print('DEMO FAILS ON CLEAN TREE\n' + p.stdout[-3000:]); return 1
        for f, old, new in edits:
            s = open(r + '/' + f).read()
            if s.count(old) != 1:
                print('edit matches %d times: %s %r' % (s.count(old), f, old)); return 1
            open(r + '/' + f, 'w').write(s.replace(old, new))
        p = sh('gofmt -l %s' % ' '.join(sorted({e[0] for e in edits})), r)
        if p.stdout.strip(): print('gofmt', p.stdout)
        p = sh('git diff', r)
        open(out + '/patch.diff', 'w').write(p.stdout)
        p = sh('bash %s/demo.sh' % out, r)
        if p.returncode == 0:
            print('DEMO PASSES WITH THE PATCH\n' + p.stdout[-3000:]); return 1
        if 'build failed' in p.stdout or 'setup failed' in p.stdout:
            print('DOES NOT BUILD\n' + p.stdout[-2000:]); return 1
        print('demo:', [l for l in p.stdout.split('\n') if l.strip()][:6])
        p = sh('. /opt/vp/env.sh; cd %s; export LD_LIBRARY_PATH="$(go list -m -f "{{.Dir}}" github.com/nanu-c/zkgroup)/lib"; go test -vet=off -count=1 ./... 2>&1 | grep -E "FAIL|panic" | grep -vE "/axolotl .build failed|^FAIL.?$"' % r, r)
        if p.stdout.strip():
            print('TESTS FAIL\n' + p.stdout[-2000:]); return 1
        if '-n' not in sys.argv:
            e = dict(os.environ, VSIM_REPO=r, VERIF_SEED='1', VERIF_TIER='quick')
            for prop in [meta['property']]:
                p = subprocess.run(['python3', H + '/check.py', prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=H)
                print(i, prop, 'exit', p.returncode, '\n'.join(p.stdout.split('\n')[-6:])[-900:])
        return 0
    finally:
        shutil.rmtree(d)
