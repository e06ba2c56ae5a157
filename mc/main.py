"""Driver of one check.

usage: python -m mc.main PID            explore (tier from VERIF_TIER)
       python -m mc.main PID --replay FILE   re-execute one recorded violation
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from mc import core

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def job_env(scratch):
    env = dict(os.environ)
    env['TMPDIR'] = scratch
    env['MC_SCRATCH'] = scratch
    env['PYTHONPATH'] = ROOT + ':' + env.get('MC_REPO', '/repo')
    env['PYTHONHASHSEED'] = '0'
    env['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
    return env


def replay(pid, path):
    from mc import worker
    with open(path) as f:
        v = json.load(f)
    worker.init(v['precision'])
    mod = core.load(pid)
    fam = next(f for f in mod.FAMILIES if f.name == v['family'])
    scratch = tempfile.mkdtemp(prefix='mc_replay_')
    os.environ['MC_SCRATCH'] = scratch
    tempfile.tempdir = scratch
    try:
        if v['case'] is None:
            print('no single case recorded:', v['message'])
            return 1
        msg = worker.execute(fam, v['case'], core.Stats(), max(fam.timeout, 120))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('case:', json.dumps(v['case']))
    print('result:', msg if msg is not None else 'property held')
    return 1 if msg is not None else 0


def main(argv):
    pid = argv[0]
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(pid, argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('MC_BUDGET', '700' if tier == 'quick' else '6000'))
    t0 = time.time()
    mod = core.load(pid)
    known = core.known_findings(pid)
    scratch = tempfile.mkdtemp(prefix=f'mc_{pid}_')
    evdir = os.path.join(ROOT, 'evidence')
    repdir = os.path.join(evdir, 'replays', pid)
    os.makedirs(evdir, exist_ok=True)
    shutil.rmtree(repdir, ignore_errors=True)
    jobs = []
    for fam in mod.FAMILIES:
        for p in fam.precisions:
            w = fam.weight if tier == 'quick' else max(fam.weight, 8)
            for s in range(w):
                jobs.append((fam.name, p, s, w))
    # families declared heavy first
    jobs.sort(key=lambda j: -j[3])
    env0 = job_env(scratch)
    env0['MC_DEADLINE'] = str(t0 + budget)
    running, results, broken = [], [], []
    ncpu = min(8, os.cpu_count() or 1)
    if os.environ.get('MC_JOBS'):
        ncpu = int(os.environ['MC_JOBS'])
    else:
        ncpu = max(ncpu, 8)
    todo = list(enumerate(jobs))
    try:
        while todo or running:
            while todo and len(running) < ncpu:
                k, (name, p, s, w) = todo.pop(0)
                d = os.path.join(scratch, f'job{k}')
                os.makedirs(d)
                env = dict(env0, TMPDIR=d, MC_SCRATCH=d)
                out = os.path.join(scratch, f'job{k}.json')
                err = open(os.path.join(scratch, f'job{k}.err'), 'w')
                pr = subprocess.Popen([sys.executable, '-m', 'mc.worker', pid, name, str(p),
                                       str(s), str(w), tier, out],
                                      env=env, cwd=d, stderr=err, stdout=subprocess.DEVNULL,
                                      stdin=subprocess.DEVNULL, start_new_session=True)
                running.append((pr, k, out, err))
            still = []
            for pr, k, out, err in running:
                rc = pr.poll()
                if rc is None and time.time() - t0 > budget + 100:
                    try:
                        os.killpg(pr.pid, 9)
                    except ProcessLookupError:
                        pass
                    rc = pr.wait()
                    err.write('\nworker did not finish in time\n')
                if rc is None:
                    still.append((pr, k, out, err))
                    continue
                err.close()
                try:
                    os.killpg(pr.pid, 9)
                except (ProcessLookupError, PermissionError):
                    pass
                if rc == 0 and os.path.exists(out):
                    with open(out) as f:
                        results.append((k, json.load(f)))
                else:
                    with open(err.name, errors='replace') as f:
                        broken.append((k, rc, f.read()[-3000:]))
                shutil.rmtree(os.path.join(scratch, f'job{k}'), ignore_errors=True)
            running = still
            if running:
                time.sleep(0.02)
    finally:
        for pr, *_ in running:
            try:
                os.killpg(pr.pid, 9)
            except ProcessLookupError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    results.sort()
    viols, finds = [], {}
    states, outcomes = set(), set()
    transitions = cases = 0
    per = {}
    samples = []
    complete = True
    for k, r in results:
        viols += r['violations']
        complete &= r['complete']
        for f, n in r['findings'].items():
            finds[f] = finds.get(f, 0) + n
        states.update(r['states'])
        outcomes.update(r['outcomes'])
        transitions += r['transitions']
        cases += r['cases']
        d = per.setdefault(r['family'], {'cases': 0, 'transitions': 0, 'precisions': set()})
        d['cases'] += r['cases']
        d['transitions'] += r['transitions']
        d['precisions'].add(r['precision'])
        if d['cases'] == r['cases'] and r['samples']:
            samples.append({'family': r['family'], 'case': r['samples'][-1]})
    for k, rc, tail in broken:
        name, p, s, w = jobs[k]
        viols.append({'family': name, 'precision': p, 'case': None, 'index': -1,
                      'message': f'worker ended with status {rc}: {tail}'})
    for fam in mod.FAMILIES:
        if fam.name in per:
            per[fam.name]['precisions'] = sorted(per[fam.name]['precisions'])
            per[fam.name]['what'] = fam.what
        if per.get(fam.name, {}).get('cases', 0) == 0 and not broken:
            viols.append({'family': fam.name, 'precision': 0, 'case': None, 'index': -1,
                          'message': 'family produced no case: the exploration is vacuous'})

    viols.sort(key=lambda v: (v['family'], v['index']))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states),
            'transitions': transitions,
            'traces_validated_against_impl': cases,
            'distinct_outcomes': len(outcomes),
            'exhaustive': bool(complete and not broken),
            'rule': mod.RULE,
            'families': per,
            'samples': samples[:6],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    with open(os.path.join(evdir, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid} {tier}: {cases} executions, {transitions} transitions, {len(states)} states, '
          f'{len(outcomes)} outcomes, exhaustive={ev["coverage"]["exhaustive"]}, '
          f'{ev["wall_s"]} s')
    for name, d in per.items():
        print(f'  {name}: {d["cases"]} cases, {d["transitions"]} transitions')
    for fid, what in known.items():
        if fid in finds:
            print(f'KNOWN-FINDING: property={pid} {what} [{fid}, {finds[fid]} cases]')
    if not viols:
        return 0
    os.makedirs(repdir, exist_ok=True)
    for i, v in enumerate(viols[:4]):
        path = os.path.join(repdir, f'{i}.json')
        v['property'] = pid
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  family={v["family"]} precision={v["precision"]} case={json.dumps(v["case"])[:400]}')
        print('  ' + v['message'].strip().replace('\n', '\n  ')[-900:])
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
