#!/usr/bin/env python3
"""dev.py BUILD PROPS RUNS [FIRST]: runs profiles by hand on 8 workers and prints what came out."""
import collections, json, os, subprocess, sys
b, props, n = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
first = int(sys.argv[4]) if len(sys.argv) > 4 else 1
for p in props:
    env = dict(os.environ, LD_LIBRARY_PATH=open(b + '/libdir').read().strip(), GOMAXPROCS='2', GOTRACEBACK='single')
    ws = []
    for i in range(8):
        jf = '%s/dev%d.job' % (b, i)
        json.dump(dict(mode='run', prop=p, seeds=list(range(first + i, first + n, 8)), out=jf + '.out', seconds=600), open(jf, 'w'))
        if os.path.exists(jf + '.out'): os.remove(jf + '.out')
        ws.append((subprocess.Popen([b + '/h.test', '-test.run', 'TestWorker$', '-test.timeout', '0'], env=dict(env, VSIM_JOB=jf), cwd=b, stdout=open(jf + '.err', 'w'), stderr=subprocess.STDOUT), jf))
    st, cls, ex, k, sim = collections.Counter(), collections.Counter(), {}, 0, 0
    import time; t = time.time()
    for w, jf in ws:
        rc = w.wait()
        started = None; ended = False
        for l in open(jf + '.out'):
            d = json.loads(l)
            if d.get('err'): print('ERR', d['err'][:3000])
            if d['kind'] == 'start': started = d['res']['seed']
            if d['kind'] == 'end': ended = True
            if d['kind'] != 'run': continue
            r = d['res']; k += 1; sim += r['sim_s']
            st.update(r['stats']); st['~stop ' + r['stop']] += 1; st['~evals'] += r['evals']; st['~steps'] += r['steps']
            for v in r.get('viol') or []:
                c = v['prop'] + ' | ' + v['class']; cls[c] += 1
                if c not in ex or len(ex[c]) < 3: ex.setdefault(c, []).append((r['steps'], r['seed'], v['msg']))
        if not ended: print('WORKER DIED rc', rc, 'seed', started, open(jf + '.err', errors='replace').read()[-1800:])
    print('%s: %d runs in %.1f s, %.0f sim h' % (p, k, time.time() - t, sim / 3600)); print(dict(sorted(st.items())))
    for c, m in cls.most_common():
        print(m, c)
        for s in sorted(ex[c])[:2]: print('     seed', s[1], '|', s[2][:700])
