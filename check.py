#!/usr/bin/env python3
"""check.py PROPERTY            decide a property by simulation
   check.py --replay FILE       replay a recorded violation
Environment: VERIF_SEED, VERIF_TIER (quick/thorough), VSIM_REPO (default /repo),
VSIM_RUNS (override the number of runs), VSIM_KEEP (keep the build directory).
Exit 0: held on everything explored; 1: violated; anything else: no answer."""
import collections, glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VSIM_REPO', '/repo')
LEVEL = json.load(open(os.path.join(HERE, 'tools', 'profiles.json')))
WORKERS = 8


class NoAnswer(Exception):
    pass


def build(d):
    t = time.time()
    p = subprocess.run([os.path.join(HERE, 'tools', 'build.sh'), d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    if p.returncode != 0:
        raise NoAnswer('build failed:\n' + p.stdout[-6000:])
    return time.time() - t


class Worker:
    def __init__(self, d, name, job):
        self.out = os.path.join(d, name + '.jsonl')
        self.err = os.path.join(d, name + '.err')
        job = dict(job, out=self.out)
        jf = os.path.join(d, name + '.job')
        json.dump(job, open(jf, 'w'))
        env = dict(os.environ, VSIM_JOB=jf, LD_LIBRARY_PATH=open(os.path.join(d, 'libdir')).read().strip(), GOMAXPROCS='2', GOTRACEBACK='single',
                   GOMEMLIMIT='2500MiB')
        self.p = subprocess.Popen([os.path.join(d, 'h.test'), '-test.run', 'TestWorker$', '-test.timeout', '0'], env=env, cwd=d,
                                  stdin=subprocess.DEVNULL, stdout=open(self.err, 'w'), stderr=subprocess.STDOUT, start_new_session=True)
        self.job = job

    def lines(self):
        if not os.path.exists(self.out):
            return []
        r = []
        for l in open(self.out):
            try:
                r.append(json.loads(l))
            except ValueError:
                pass
        return r

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stderr(self):
        # the code under test prints to stdout as well: keep what matters
        t = open(self.err, errors='replace').read()
        for mark in ('fatal error:', 'panic:', 'runtime:'):
            i = t.find(mark)
            if i >= 0:
                return t[i:i + 4000]
        return t[-2000:]


def wait(ws, limit):
    end = time.time() + limit
    for w in ws:
        try:
            w.p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            for x in ws:
                x.kill()
            raise NoAnswer('a worker did not finish in time')


def one(d, name, job, limit):
    w = Worker(d, name, job)
    wait([w], limit)
    return w


def fatal(w):
    """signature of a worker that died of the code under test"""
    e = w.stderr()
    for s in ('stack overflow', 'concurrent map', 'out of memory', 'all goroutines are asleep', 'signal arrived during cgo', 'SIGSEGV', 'SIGABRT', 'Rust panic'):
        if s in e:
            return s
    return None


def last_start(w):
    s = None
    for l in w.lines():
        if l['kind'] == 'start':
            s = l['res']['seed']
    return s


def finding(d, prop, cls, lst, seed, msg, tier):
    """shrink, replay in a fresh process, write the replay file"""
    want = {'prop': prop, 'class': cls}
    best = lst
    tried = 0
    if len(lst) > 2:
        try:
            w = one(d, 'shrink', dict(mode='shrink', prop=prop, list=lst, seconds=40, **{'class': cls}), 150)
            for l in w.lines():
                if l['kind'] == 'shrunk':
                    tried = l.get('tried', 0)
                    if l.get('list'):
                        best = l['list']
        except NoAnswer:
            pass
    rep = None
    for cand in (best, lst):
        hashes = []
        for k in range(2):
            w = one(d, 'replay%d' % k, dict(mode='replay', prop=prop, list=cand), 120)
            for l in w.lines():
                if l['kind'] == 'replay' and any(v['prop'] == prop and v['class'] == cls for v in l['res'].get('viol') or []):
                    hashes.append(l['res']['log'])
                    rep = l
        if len(hashes) == 2 and hashes[0] == hashes[1]:
            best = cand
            break
        rep = None
    if rep is None:
        raise NoAnswer('a violation (%s, seed %d: %s) does not replay: the simulation is not deterministic' % (cls, seed, msg[:300]))
    v = [v for v in rep['res']['viol'] if v['prop'] == prop and v['class'] == cls][0]
    rd = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, '%s-%s.json' % (prop, hashlib.sha1(cls.encode()).hexdigest()[:10]))
    json.dump({'property': prop, 'class': cls, 'seed': seed, 'what': v['msg'], 'choices': best, 'choices_before_minimising': len(lst), 'runs_to_minimise': tried,
               'nonzero_choices': sum(1 for c in best if c), 'log_hash': rep['res']['log'], 'trace': rep.get('logs') or [], 'replay': 'python3 check.py --replay ' + path},
              open(path, 'w'), indent=1)
    return path, v['msg'], rep


def replay(path):
    r = json.load(open(path))
    d = tempfile.mkdtemp(prefix='vsim')
    try:
        build(d)
        if r.get('fatal'):
            w = one(d, 'replay', dict(mode='run', prop=r['property'], seeds=[r['seed']]), 300)
            s = fatal(w)
            print('\n'.join(w.stderr().split('\n')[:40]))
            if s == r['fatal']:
                print('VIOLATION property=%s replay=%s' % (r['property'], path))
                return 1
            return 0
        w = one(d, 'replay', dict(mode='replay', prop=r['property'], list=r['choices']), 300)
        for l in w.lines():
            if l['kind'] == 'replay':
                print('\n'.join(l.get('logs') or []))
                for v in l['res'].get('viol') or []:
                    if v['prop'] == r['property'] and v['class'] == r['class']:
                        print('log hash %s, recorded %s' % (l['res']['log'], r['log_hash']))
                        print('VIOLATION property=%s replay=%s' % (r['property'], path))
                        return 1
                print('the recorded violation does not occur on this tree')
                return 0
        raise NoAnswer('replay: ' + w.stderr())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed0 = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = LEVEL[prop]
    runs = int(os.environ.get('VSIM_RUNS') or (cfg['quick'] if tier == 'quick' else cfg['thorough']))
    budget = 420 if tier == 'quick' else 3 * 3600
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json'))) if k['property'] == prop and k['status'] == 'known']
    known_cls = [k['class'] for k in known]
    d = tempfile.mkdtemp(prefix='vsim')
    rc = 0
    try:
        tb = build(d)
        print('built in %.1f s; %d runs from seed %d (%s)' % (tb, runs, seed0, tier), flush=True)
        t1 = time.time()
        base = (seed0 & 0xffffffff) << 24
        seeds = [base + i for i in range(runs)]
        n = WORKERS
        ws = [Worker(d, 'w%d' % i, dict(mode='run', prop=prop, seeds=seeds[i::n], seconds=budget, known=known_cls)) for i in range(n)]
        # the same seeds once more, in another process: same event logs?
        twice = seeds[::max(1, runs // 32)][:32]
        ws.append(Worker(d, 'again', dict(mode='run', prop=prop, seeds=twice, seconds=budget, known=known_cls)))
        wait(ws, budget + 300)
        wall = time.time() - t1
        stats, sched, logs, notes, classes, stops = collections.Counter(), set(), set(), [], {}, collections.Counter()
        done = evals = 0
        sims = steps = switches = events = 0.0
        nontriv = set()
        loghash, rule, faults = {}, '', ''
        fatals = []
        for i, w in enumerate(ws):
            ended = False
            for l in w.lines():
                if l['kind'] == 'base':
                    if l.get('err'):
                        raise NoAnswer('no installation to start from: ' + l['err'])
                    rule, faults = l.get('rule', ''), l.get('faults', '')
                elif l['kind'] == 'end':
                    ended = True
                elif l['kind'] == 'run':
                    r = l['res']
                    if i == n:
                        if loghash.get(r['seed'], r['log']) != r['log']:
                            raise NoAnswer('seed %d gave two different event logs: the simulation is not deterministic' % r['seed'])
                        continue
                    loghash[r['seed']] = r['log']
                    done += 1
                    stats.update(r['stats'])
                    stops[r['stop']] += 1
                    sched.add(r['sched'])
                    logs.add(r['log'])
                    if r['evals'] > 0:
                        nontriv.add(r['log'])
                    evals += r['evals']
                    sims += r['sim_s']
                    steps += r['steps']
                    switches += r['switches']
                    events += r['events']
                    if len(notes) < 6 and r.get('notes'):
                        notes.append({'seed': r['seed'], 'notes': r['notes'][:8]})
                    for v in r.get('viol') or []:
                        if v['prop'] == prop:
                            c = classes.setdefault(v['class'], [0, None])
                            c[0] += 1
                            if l.get('list') and (c[1] is None or len(l['list']) < len(c[1][0])):
                                c[1] = (l['list'], r['seed'], v['msg'])
            if not ended:
                s = fatal(w)
                if s is None or w.p.returncode == -9:
                    raise NoAnswer('worker %d died (%s):\n%s' % (i, w.p.returncode, w.stderr()))
                fatals.append((s, last_start(w), w.stderr()))
        # findings
        out = []
        for k in known:
            n_seen = classes.get(k['class'], [0])[0]
            print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (prop, k['what'], n_seen))
        new = [c for c in classes if c not in known_cls]
        for s, seed, err in fatals[:1]:
            w = one(d, 'fatal', dict(mode='run', prop=prop, seeds=[seed]), 300)
            if fatal(w) != s:
                raise NoAnswer('a worker died (%s) on seed %s, but not again:\n%s' % (s, seed, err))
            rd = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-fatal.json' % prop)
            json.dump({'property': prop, 'fatal': s, 'class': 'fatal ' + s, 'seed': seed, 'what': err[:3000]}, open(path, 'w'), indent=1)
            print('the runtime ended the process: %s\n%s' % (s, err[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            rc = 1
            out.append({'class': 'fatal ' + s, 'seed': seed, 'runs': len(fatals)})
        for c in sorted(new, key=lambda c: -classes[c][0])[:3]:
            lst, seed, msg = classes[c][1]
            path, what, rep = finding(d, prop, c, lst, seed, msg, tier)
            print('%s: %s' % (c, what))
            print('  in %d of %d runs; %d choices (%d not zero) after minimising; last events:' % (classes[c][0], done, len(json.load(open(path))['choices']), sum(1 for x in json.load(open(path))['choices'] if x)))
            for x in (rep.get('logs') or [])[-25:]:
                print('   | ' + x[:200])
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            rc = 1
            out.append({'class': c, 'seed': seed, 'runs': classes[c][0], 'replay': path})
        if done == 0:
            raise NoAnswer('no run was completed')
        if rc == 0:
            missing = [k for k in cfg.get('probes', []) if not stats.get(k)]
            if missing and done >= cfg['quick']:
                raise NoAnswer('never happened in any run: ' + ', '.join(missing))
        ev = {'property': prop, 'tier': tier, 'seed': seed0, 'level': cfg['level'],
              'coverage': {
                  'evaluations': done, 'distinct_nontrivial': len(nontriv),
                  'rule': rule + ' One evaluation is one simulated run (one seed). It is non-trivial if at least one oracle had something to judge; distinct by the hash of its event log.',
                  'samples': notes or [{'seed': seeds[0], 'notes': ['no notes']}],
                  'oracle_evaluations': evals, 'runs_per_hour': int(done / wall * 3600), 'seeds': [seeds[0], seeds[done - 1] if done <= len(seeds) else seeds[-1]],
                  'simulated_seconds': round(sims), 'faults_and_events': dict(sorted(stats.items())),
                  'distinct_schedules': len(sched), 'distinct_schedules_measure': 'hash of the sequence of scheduling decisions (which goroutine runs next, at every yield and preemption)',
                  'distinct_histories': len(logs), 'distinct_histories_measure': 'hash of the run\'s event log (network, disk faults, callbacks, calls, with simulated times)',
                  'steps': int(steps), 'context_switches': int(switches), 'run_endings': dict(stops), 'fault_kinds': faults,
                  'determinism': '%d seeds run twice in different processes: identical event logs' % len(twice),
                  'real_components': 'the whole of textsecure and its packages (instrumented copy of the working tree), gorilla/websocket, protobuf, zkgroup (cgo), Go crypto',
                  'stubs': 'service, CDN, directory, storage service and peers (independent protocol implementation), crayfish helper process, file system, network, clock, scheduler, randomness'},
              'assumptions': cfg.get('assumptions', ['the simulated service, peers, disk and network behave as documented in DESIGN.md']),
              'wall_s': round(time.time() - t0, 1), 'violations': len(out)}
        if out:
            ev['coverage']['violations'] = out
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s: %d runs, %d oracle evaluations, %d distinct histories, %.0f simulated hours, %.1f s' % (prop, done, evals, len(logs), sims / 3600, time.time() - t0))
        return rc
    finally:
        if os.environ.get('VSIM_KEEP'):
            print('kept', d)
        else:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    try:
        if len(sys.argv) == 3 and sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1]))
    except NoAnswer as e:
        print('NO ANSWER: %s' % e)
        sys.exit(3)
    except subprocess.TimeoutExpired as e:
        print('NO ANSWER: %s' % e)
        sys.exit(3)
