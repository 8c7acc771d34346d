#!/usr/bin/env python3
"""Driver: builds the harnesses of one property against /repo's working tree, explores every scenario,
merges the counts into evidence/<id>.json.   run.py C07   |   run.py --replay replays/x.json   |   run.py --list
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run."""
import sys, os, json, subprocess, tempfile, shutil, time, resource, signal, threading, queue, glob
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('EVR_REPO', '/repo')
sys.path.insert(0, HERE)
from units import UNITS, COMMON_ASSUMPTIONS
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('EVR_JOBS', '0')) or max(1, os.cpu_count() or 1)
T0 = time.time()
LIMIT = 840 if TIER == 'quick' else 6 * 3600
SCEN_LIMIT = 300 if TIER == 'quick' else 4 * 3600
KEEP = os.environ.get('EVR_KEEP')

def unit_cmd(u, exe):
    return [u.get('cxx', 'g++'), '-std=gnu++17', '-g0', '-w'] + u.get('opt', ['-O2', '-ftrivial-auto-var-init=pattern']) + \
        ['-I' + REPO + '/include', '-I' + HERE + '/harness'] + ['-D' + d for d in u.get('defs', [])] + \
        [os.path.join(HERE, 'harness', u['src'])] + [os.path.join(HERE, 'harness', x) for x in u.get('extra', [])] + ['-o', exe] + u.get('link', [])

def pre():
    os.setsid()
    try: resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        h = resource.getrlimit(resource.RLIMIT_STACK)[1]
        try: resource.setrlimit(resource.RLIMIT_STACK, (h, h))
        except Exception: pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

PROCS = set(); PLOCK = threading.Lock(); STOP = threading.Event()
def call(cmd, env, timeout, out=None):
    f = open(out, 'wb') if out else subprocess.DEVNULL
    p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT if out else subprocess.DEVNULL, preexec_fn=pre)
    with PLOCK: PROCS.add(p)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGTERM)
        except Exception: pass
        try: p.wait(timeout=3)
        except Exception: pass
        rc = 'timeout'
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except Exception: pass
        p.wait()
        with PLOCK: PROCS.discard(p)
        if out: f.close()
    return rc
def stop_all():
    STOP.set()
    with PLOCK:
        for p in list(PROCS):
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass

def run_scen(bd, i, u, exe, scen, limit):
    tag = '%d_%s' % (i, scen); outj = os.path.join(bd, tag + '.json'); log = os.path.join(bd, tag + '.log')
    for x in (outj, log):
        if os.path.exists(x): os.unlink(x)
    env = dict(os.environ); env.update({'VERIF_TIER': TIER, 'VERIF_SEED': str(SEED), 'MALLOC_PERTURB_': '165', 'OMP_DYNAMIC': 'FALSE', 'LC_ALL': 'C', 'EVR_TMP': bd, 'EVR_REPO': REPO, 'MC_SOFT': str(limit * 0.5), 'MC_END': str(T0 + LIMIT * 0.65)})
    env.update(u.get('env', {}))
    t = time.time(); rc = call([exe, '--run', scen, outj], env, limit, log); dt = time.time() - t
    r = None
    try: r = json.load(open(outj))
    except Exception: r = None
    try: tail = open(log, errors='replace').read()[-1500:]
    except Exception: tail = ''
    if rc == 'timeout': r = dict(r or {}, status='timeout', msg='no end within %d s; last at: %s' % (limit, (r or {}).get('msg', '?')))
    elif r is None or r.get('status') == 'ok' and rc != 0: r = dict(r or {}, status='crash', msg='exit status %s: %s' % (rc, tail))
    r.update(scenario=scen, unit=i, secs=round(dt, 2), rc=str(rc), log=tail)
    return r

WRAP = 'memcpy memmove memset free realloc pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock'.split()
def unit_cmds(u, exe):
    if not u.get('rt'): return [unit_cmd(u, exe)]
    # controlled-scheduler units: the instrumented program and the (uninstrumented) runtime are compiled apart, then linked
    h = HERE + '/harness'
    return [['g++', '-std=gnu++17', '-O2', '-w', '-I' + h, '-c', h + '/rt.cpp', '-o', exe + '.rt.o'],
            ['g++', '-std=gnu++17', '-g0', '-w'] + u['opt'] + ['-fsanitize=thread', '-fopenmp', '-fno-builtin', '-DMC_TLS=thread_local', '-DMC_RT', '-I' + REPO + '/include', '-I' + h] + ['-D' + d for d in u.get('defs', [])] + ['-c', os.path.join(h, u['src']), '-o', exe + '.o'],
            ['g++', '-rdynamic', exe + '.o', exe + '.rt.o', '-o', exe, '-ldl'] + ['-Wl,--wrap=' + w for w in WRAP]]
def compile_unit(bd, i, u):
    exe = os.path.join(bd, 'u%d' % i); log = exe + '.clog'
    for cmd in unit_cmds(u, exe):
        rc = call(cmd, dict(os.environ, LC_ALL='C'), 600, log)
        if rc != 0: break
    if rc != 0:
        try: t = [l for l in open(log, errors='replace') if 'error' in l or 'undefined' in l][:6]
        except Exception: t = []
        return None, 'compile failed (%s): %s' % (rc, ' | '.join(x.strip()[:300] for x in t))
    ls = subprocess.run([exe, '--list'], stdout=subprocess.PIPE, text=True, preexec_fn=pre).stdout.split('\n')
    sc = []
    for l in ls:
        if l.strip():
            n, t = l.split()[:2]
            if int(t) == 0 or TIER == 'thorough' and not u.get('tier0'): sc.append(n)
    return exe, sc

def known(prop):
    d = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('open:'):
                f = l[5:].split('|')
                kv = f[0].split()
                if kv[0] == 'property=' + prop: d.append((f[1].strip(), f[2].strip(), f[3].strip()))   # scenario | substring of the message | what
    except FileNotFoundError: pass
    return d

def main(prop):
    U = [u for u in UNITS[prop]['units'] if TIER == 'thorough' or not u.get('thorough')]
    bd = tempfile.mkdtemp(prefix='evr_%s_' % prop)
    results, errors, viol, found = [], [], [], []
    kn = known(prop); lock = threading.Lock(); q = queue.PriorityQueue(); pend = [0]; cnt = [0]
    def put(pri, job):
        with lock: pend[0] += 1; cnt[0] += 1; q.put((pri, cnt[0], job))
    def judge(i, u, exe, r):
        if r['status'] == 'ok': return
        for sc, sub, what in kn:
            if sc == r['scenario'] and sub in r['msg']:
                with lock: found.append(what)
                return
        if r['status'] == 'error':
            with lock: errors.append('%s: %s' % (r['scenario'], r['msg']))
            return
        if r['status'] != 'fail':           # crash or hang: must reproduce
            again = [run_scen(bd, 1000 * (k + 1) + i, u, exe, r['scenario'], max(5, min(SCEN_LIMIT + 100, LIMIT - (time.time() - T0)))) for k in range(1 if r['status'] == 'timeout' else 2)]
            bad = [a for a in again if a['status'] not in ('ok', 'error')]
            if not bad or STOP.is_set():
                with lock: errors.append('%s %s did not reproduce: %s' % (r['scenario'], r['status'], r['msg']))
                return
        with lock: viol.append((i, r))
        stop_all()
    def work():
        while True:
            try: pri, _, job = q.get(timeout=0.2)
            except queue.Empty:
                with lock:
                    if pend[0] == 0: return
                continue
            try:
                if STOP.is_set() or time.time() - T0 > LIMIT - 5:
                    if not STOP.is_set():
                        with lock: errors.append('out of time before %s' % (job[1:],))
                    continue
                if job[0] == 'c':
                    i = job[1]; exe, sc = compile_unit(bd, i, U[i])
                    if STOP.is_set(): continue
                    if exe is None:
                        with lock: (results if False else errors).append(('must_compile', i, sc) if U[i].get('must_compile') else 'unit %d %s: %s' % (i, U[i]['src'], sc))
                    else:
                        for s in sc: put(U[i].get('pri', 1), ('r', i, exe, s))
                else:
                    _, i, exe, s = job
                    r = run_scen(bd, i, U[i], exe, s, min(SCEN_LIMIT, max(5, LIMIT - (time.time() - T0))))
                    if STOP.is_set(): continue
                    if r['status'] == 'ok':
                        with lock: results.append(r)
                    else: judge(i, U[i], exe, r)
            except Exception as e:
                with lock: errors.append('driver: %r' % (e,))
            finally:
                with lock: pend[0] -= 1
    try:
        for i, u in enumerate(U): put(u.get('pri', 1), ('c', i))
        ts = [threading.Thread(target=work) for _ in range(JOBS)]
        [t.start() for t in ts]; [t.join() for t in ts]
    finally:
        stop_all()
        if not KEEP: shutil.rmtree(bd, ignore_errors=True)
    mc = [e for e in errors if isinstance(e, tuple)]; errors = [e for e in errors if not isinstance(e, tuple)]
    if mc and not viol and not errors:
        for _, i, msg in mc: viol.append((i, dict(scenario='(instantiation)', status='fail', msg='this unit must compile: ' + msg)))
    elif mc: errors += [m[2] for m in mc]
    st = sum(r['states'] for r in results); tr = sum(r['transitions'] for r in results); vt = sum(r['traces'] for r in results)
    samples = [x for r in sorted(results, key=lambda r: r['scenario']) for x in r['samples'][:2]][:12]
    ev = dict(property=prop, tier=TIER, seed=SEED, level='model_checking', wall_s=round(time.time() - T0, 2), violations=len(viol),
              assumptions=COMMON_ASSUMPTIONS + UNITS[prop].get('assumptions', []),
              coverage=dict(states=st, transitions=tr, traces_validated_against_impl=vt, samples=samples or ['(none completed)'], exhaustive=not errors and not viol and not any(r['capped'] for r in results),
                            distinct_outcomes=sum(r['outcomes'] for r in results), scenarios_completed=len(results), programs_built=len({r['unit'] for r in results}),
                            meaning=UNITS[prop].get('meaning', 'states: distinct operand/machine states visited; transitions: operations executed on the real code and compared with the reference; traces: complete executions from an initial state whose every step agreed with the reference'),
                            bounds={('%d:%s' % (r['unit'], r['scenario'])): r['bounds'] for r in sorted(results, key=lambda r: (r['unit'], r['scenario']))},
                            seconds={('%d:%s' % (r['unit'], r['scenario'])): r['secs'] for r in sorted(results, key=lambda r: (r['unit'], r['scenario']))}, errors=errors[:20]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for w in sorted(set(found)): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    if viol:
        i, r = viol[0]; os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s_%s_%d.json' % (prop, r['scenario'].strip('()'), i))
        with open(path, 'w') as f: json.dump(dict(property=prop, unit=U[i], scenario=r['scenario'], tier=TIER, seed=SEED, status=r['status'], message=r['msg'], log=r.get('log', '')), f, indent=1)
        print('%s in scenario %s (unit %d): %s' % (r['status'], r['scenario'], i, r['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
    if errors:
        for e in errors[:20]: print('ERROR', e[:1500])
        return 2
    print('OK %s tier=%s states=%d transitions=%d traces=%d scenarios=%d wall=%.1fs' % (prop, TIER, st, tr, vt, len(results), time.time() - T0))
    return 0

def replay(path):
    d = json.load(open(path)); u = d['unit']; os.environ['VERIF_TIER'] = d['tier']; os.environ['VERIF_SEED'] = str(d['seed'])
    global TIER, SEED; TIER, SEED = d['tier'], d['seed']
    bd = tempfile.mkdtemp(prefix='evr_replay_')
    try:
        exe, sc = compile_unit(bd, 0, u)
        if exe is None: print(sc); print('VIOLATION property=%s replay=%s' % (d['property'], path)); return 1
        r = run_scen(bd, 0, u, exe, d['scenario'], SCEN_LIMIT); print(r['status'], r['msg'])
        if r['status'] != 'ok': print('VIOLATION property=%s replay=%s' % (d['property'], path)); return 1
        return 0
    finally: shutil.rmtree(bd, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--replay': sys.exit(replay(a[1]))
    if a and a[0] == '--list': print('\n'.join(UNITS)); sys.exit(0)
    if len(a) == 2 and a[1] in ('quick', 'thorough'): TIER = a[1]; LIMIT = 840 if TIER == 'quick' else 6 * 3600; SCEN_LIMIT = 300 if TIER == 'quick' else 4 * 3600
    if not a or a[0] not in UNITS: print('usage: run.py <property> | --replay FILE | --list'); sys.exit(2)
    sys.exit(main(a[0]))
