#!/usr/bin/env python3-vt
"""Decides one property: verifies its functions against their contracts, then evaluates the same contracts on
executions of the real code.   python3-vt check.py S01 [--tier quick|thorough]

exit 0: every obligation was discharged (or stood in for as recorded in the evidence) and no execution broke a contract
exit 1: a line VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2: the check itself could not run
"""
import argparse, json, os, re, signal, subprocess, sys, time, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

EVDIR = os.path.join(HERE, 'evidence')
REPLAY = os.path.join(HERE, 'replay')
PY = '/opt/venv/bin/python'


def env_mpi():
    out = subprocess.check_output(['bash', '-c', '. /opt/vp/env.sh; env -0'], env={'PATH': os.environ.get('PATH', '/usr/bin:/bin')})
    e = dict(x.split('=', 1) for x in out.decode().split('\0') if '=' in x)
    e.pop('CCACHE_DIR', None)
    return e


# ------------------------------------------------------------------ the verifier
def _verify(args):
    pid, i = args
    from dv import registry
    t0 = time.time()
    u = registry.PROPS[pid].units(B.SRC)[i]
    r = u.run()
    obs = []
    for o in r.obs:
        obs.append({'name': o.name, 'kind': o.kind, 'status': o.status, 'backend': o.backend, 'time': round(o.time or 0, 3)})
    failed = []
    for o in r.failed or []:
        failed.append({'name': o.name, 'kind': o.kind, 'status': o.status, 'path': [str(x) for x in (o.path or [])][-40:], 'model': o.model if isinstance(o.model, list) else None})
    return {'unit': r.name, 'status': r.status, 'mode': r.mode, 'why': r.why[-600:], 'obs': obs, 'failed': failed, 'paths': r.paths,
            'returns': r.returns, 'called': sorted(r.called), 'inlined': sorted(r.inlined), 'models': sorted(r.models), 'cover': getattr(r, 'cover', None),
            'time': round(time.time() - t0, 2), 'cut': getattr(r, 'cut', None)}


def _verify_child(args, q):
    try:
        q.put(_verify(args))
    except BaseException:
        q.put({'unit': '#%d' % args[1], 'status': 'unsupported', 'mode': None, 'why': traceback.format_exc()[-800:], 'obs': [], 'failed': [],
               'paths': 0, 'returns': 0, 'called': [], 'inlined': [], 'models': [], 'cover': None, 'time': 0})


def verify_all(pid, names, limit, workers=4):
    """each unit in a process of its own (a unit solves its obligations in a pool of its own)"""
    ctx = mp.get_context('fork')
    todo = list(range(len(names)))
    run, res = {}, {}
    while todo or run:
        while todo and len(run) < workers:
            i = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_verify_child, args=((pid, i), q))
            p.start()
            run[i] = (p, q, time.time())
        time.sleep(0.05)
        for i, (p, q, t) in list(run.items()):
            if not q.empty():
                res[i] = q.get()
                p.join()
                del run[i]
            elif not p.is_alive() or time.time() - t > limit:
                kill_tree(p.pid)
                p.join()
                res[i] = {'unit': names[i], 'status': 'undecided', 'mode': None, 'why': 'the unit took longer than %d s' % limit if p.exitcode is None or time.time() - t > limit else 'the verifier ended unexpectedly',
                          'obs': [], 'failed': [], 'paths': 0, 'returns': 0, 'called': [], 'inlined': [], 'models': [], 'cover': None, 'time': limit}
                del run[i]
    return [res[i] for i in range(len(names))]


def kill_tree(pid):
    try:
        kids = subprocess.run(['pgrep', '-P', str(pid)], capture_output=True, text=True).stdout.split()
        for k in kids:
            kill_tree(int(k))
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


# ------------------------------------------------------------------ executions of the real code
def driver_cmd(script, n):
    s = os.path.join(HERE, 'rt', script)
    return (['mpirun.openmpi', '-n', str(n), PY, s] if n else [PY, s])


def run_driver(bd, pid, script, n, tier, seed, budget, known, env):
    out = os.path.join(REPLAY, '%s-%s-%d.out' % (pid, script.replace('.py', ''), n))
    for f in (out, out + '.cur'):
        if os.path.exists(f):
            os.remove(f)
    kf = out + '.known'
    with open(kf, 'w') as f:
        json.dump(known, f)
    cmd = driver_cmd(script, n) + ['--prop', pid, '--seed', str(seed), '--tier', tier, '--budget', str(budget), '--out', out, '--known', kf]
    log = out + '.log'
    scratch = out + '.d'
    subprocess.run(['rm', '-rf', scratch])
    os.makedirs(scratch)
    t0 = time.time()
    limit = budget * 1.5 + 60
    with open(log, 'w') as lf:
        p = subprocess.Popen(cmd, env=dict(env, PYTHONPATH=bd, TMPDIR=scratch, VERIF_SCRATCH=scratch), stdout=lf, stderr=lf, cwd=scratch, start_new_session=True)
        hung = False
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            hung = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    subprocess.run(['rm', '-rf', scratch])
    r = {'driver': script, 'nprocs': n, 'violation': None, 'evaluations': 0, 'distinct': 0, 'samples': [], 'known': {}, 'error': None}
    if os.path.exists(out):
        r.update(json.load(open(out)))
        return r
    tail = open(log, errors='replace').read()[-1500:]
    cur = None
    if os.path.exists(out + '.cur'):
        try:
            cur = json.load(open(out + '.cur'))
        except ValueError:
            pass
    crash = p.returncode is not None and (p.returncode < 0 or 'signal' in tail.lower() or 'segmentation' in tail.lower()) and not hung
    if cur is not None and (hung or crash):
        r['violation'] = {'property': pid, 'case': cur, 'nprocs': n or 1, 'message': ('the case did not end within %d s' % limit) if hung else 'the interpreter crashed: ' + tail[-300:], 'fatal': True}
        r['evaluations'] = 1
    else:
        r['error'] = 'exit %s%s: %s' % (p.returncode, ' (hung)' if hung else '', tail)
    return r


def replay_fatal(bd, v, path, env, script, n):
    """a crash or a hang must come back when its case is run alone"""
    p = subprocess.Popen(driver_cmd(script, n) + ['--replay', path], env=dict(env, PYTHONPATH=bd), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        rc = p.wait(60)
        return rc != 0
    except subprocess.TimeoutExpired:
        return True
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


# ------------------------------------------------------------------ main
def load_known(pid):
    known, fixed = [], []
    for ln in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'(fixed|KNOWN-FINDING): property=(\w+) (.*)', ln.strip())
        if not m or m.group(2) != pid:
            continue
        if m.group(1) == 'fixed':
            fixed.append(m.group(3))
        else:
            k = re.match(r'match=<<(.*?)>> (.*)', m.group(3))
            known.append({'match': k.group(1), 'what': k.group(2)})
    return known, fixed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-rt', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(EVDIR, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    from dv import registry
    P = registry.PROPS[pid]
    env = env_mpi()
    known, fixed = load_known(pid)
    if a.replay:
        r = json.load(open(a.replay))
        bd = B.build()
        if 'case' in r:
            n = r.get('n', 0)
            sys.exit(subprocess.call(driver_cmd(r['driver'], n) + ['--replay', a.replay], env=dict(env, PYTHONPATH=bd)))
        print(json.dumps(r, indent=1)[:4000])
        sys.exit(1)
    for f in os.listdir(REPLAY):
        if f.startswith(pid + '-') and f.endswith('.json'):
            os.remove(os.path.join(REPLAY, f))
    # the verifier, on /repo's current source
    units = P.units(B.SRC)
    names = [u.name for u in units]
    limit = 240 if tier == 'quick' else 600
    results = verify_all(pid, names, limit) if units else []
    # the contracts on executions
    rts, err = [], None
    if P.drivers and not a.no_rt:
        try:
            bd = B.build()
        except RuntimeError as ex:
            print('cannot build: %s' % ex)
            sys.exit(2)
        total = P.budget * (1 if tier == 'quick' else 6)
        for script, n in P.drivers:
            r = run_driver(bd, pid, script, n, tier, seed, total / len(P.drivers), [{'match': k['match']} for k in known], env)
            rts.append(r)
            if r['violation']:
                break
    # outcome
    violations, lines = [], []
    for r in rts:
        v = r['violation']
        if v:
            path = os.path.join(REPLAY, '%s-case.json' % pid)
            broken = [{'unit': x['unit'], 'failed': x['failed'][:6]} for x in results if x['status'] in ('refuted', 'undecided')]
            with open(path, 'w') as f:
                json.dump(dict(v, driver=r['driver'], n=r['nprocs'] if r['nprocs'] and 'mpi' in r['driver'] else 0, failed_obligations=broken,
                               how='PYTHONPATH=<build> %s --replay <this file>' % ' '.join(driver_cmd(r['driver'], r['nprocs']))), f, indent=1)
            if v.get('fatal'):
                n = r['nprocs'] if 'mpi' in r['driver'] else 0
                if not replay_fatal(bd, v, path, env, r['driver'], n):
                    r['error'] = 'a crash or hang did not come back: ' + v['message'][:300]
                    r['violation'] = None
                    continue
            print('%s: %s' % (pid, v['message'][:600]))
            violations.append('VIOLATION property=%s replay=%s' % (pid, path))
    refuted = [x for x in results if x['status'] == 'refuted']
    if refuted and not violations:
        path = os.path.join(REPLAY, '%s-obligation.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'obligations': [{'unit': x['unit'], 'mode': x['mode'], 'why': x['why'], 'failed': x['failed'][:8]} for x in refuted],
                       'note': 'no failing input was found by the executions'}, f, indent=1)
        for x in refuted:
            for o in x['failed'][:3]:
                print('%s: obligation fails: %s / %s (%s)' % (pid, x['unit'], o['name'], o['status']))
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    nob = sum(len(x['obs']) for x in results)
    # obligations of a unit that was not proved in full count as generated, discharged are only those of the full mode
    dis = sum(1 for x in results if not (x['mode'] or '').startswith('bounded') for o in x['obs'] if o['status'] == 'proved')
    by = {}
    for x in results:
        for o in x['obs']:
            if o['status'] == 'proved' and not (x['mode'] or '').startswith('bounded'):
                by[o['backend'] or 'trivial'] = by.get(o['backend'] or 'trivial', 0) + 1
    undis = [x for x in results if x['status'] != 'proved']
    hits = {}
    for r in rts:
        for k, c in (r.get('known') or {}).items():
            hits[k] = hits.get(k, 0) + c
    trusted = sorted(set(P.trusted) | {'model: ' + m for x in results for m in x['models']})
    cov = {'obligations': nob, 'discharged': dis,
           'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, tier), 'trusted_base': trusted,
           'functions_under_contract': [{'function': x['unit'], 'status': x['status'], 'mode': x['mode'], 'obligations': len(x['obs']),
                                         'discharged': sum(o['status'] == 'proved' for o in x['obs']), 'solver_s': round(sum(o['time'] for o in x['obs']), 2),
                                         'paths': x['paths'], 'precondition_satisfiable': x['cover'], 'callees_by_contract': x['called'],
                                         'callees_inlined': x['inlined'], 'why': x['why'][:300] if x['status'] != 'proved' else ''} for x in results],
           'by_backend': by, 'solver_s': round(sum(o['time'] for x in results for o in x['obs']), 2),
           'undischarged': [{'function': x['unit'], 'status': x['status'], 'why': x['why'][:300], 'failed': [o['name'] + ': ' + o['status'] for o in x['failed'][:10]]} for x in undis],
           'evaluations': sum(r['evaluations'] for r in rts), 'distinct_nontrivial': sum(r['distinct'] for r in rts),
           'rule': 'bounded, never counted as proved: random and directed cases made by rt/ drivers from VERIF_SEED and judged by the contracts; non-trivial cases are counted once by content',
           'samples': [s for r in rts for s in r['samples'][:1]][:3],
           'executions': [{k: r.get(k) for k in ('driver', 'nprocs', 'evaluations', 'distinct', 'wall_s', 'error')} for r in rts],
           'explanation': P.note, 'known_findings_hit': hits}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': {'bounded': 'exploration'}.get(P.level, P.level), 'coverage': cov, 'assumptions': list(P.assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    with open(os.path.join(EVDIR, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if violations:
        for v in violations:
            print(v)
        sys.exit(1)
    errs = [r['error'] for r in rts if r['error']]
    for x in undis:
        print('%s: not discharged: %s: %s (%s)' % (pid, x['unit'], x['status'], x['why'][:200].replace('\n', ' ')))
    print('%s: %d of %d obligations discharged in %d units, %d executions, %.0f s' % (pid, dis, nob, len(results), cov['evaluations'], time.time() - t0))
    if errs:
        print('driver error: %s' % errs[0][-1200:])
    # nothing decided: neither a proof nor an execution
    proved = results and all(x['status'] in ('proved', 'bounded-ok') for x in results)
    if errs and not (proved or any(r['evaluations'] for r in rts)):
        sys.exit(2)
    if not results and not any(r['evaluations'] for r in rts):
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the order of sets of names decides the order of hypotheses: the same on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    main()
