"""One worker process: explores one shard of one family.

usage: python -m mc.worker PID FAMILY PRECISION SHARD NSHARDS TIER OUTFILE
"""
import json
import os
import signal
import sys
import time
import traceback
import warnings

from mc import core

MAX_VIOLATIONS = 3


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def execute(fam, case, st, timeout):
    """Run one case; any exception escaping from the code is a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return fam.run(case, st)
    except CaseTimeout:
        return f'no result after {timeout} s (hang)'
    except SystemExit as e:
        return f'the code called exit({e.code})'
    except Exception:
        return 'unexpected exception: ' + ''.join(traceback.format_exc(limit=-6))[-2500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def init(precision):
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import specula
    specula.init(-1, precision=precision)
    want = os.environ.get('MC_REPO', '/repo')
    got = os.path.dirname(os.path.dirname(os.path.abspath(specula.__file__)))
    if os.path.realpath(got) != os.path.realpath(want):
        raise RuntimeError(f'specula imported from {got}, not from {want}')


def main(argv):
    pid, famname, precision, shard, nshards, tier, outfile = argv
    precision, shard, nshards = int(precision), int(shard), int(nshards)
    core.silence()
    init(precision)
    mod = core.load(pid)
    fam = next(f for f in mod.FAMILIES if f.name == famname)
    st = core.Stats()
    viol, samples, findings = [], [], {}
    n = 0
    t0 = time.time()
    known = core.known_findings(pid)
    deadline = float(os.environ.get('MC_DEADLINE', '1e18'))
    complete = True
    for i, case in enumerate(fam.gen(tier)):
        if i % nshards != shard:
            continue
        if time.time() > deadline:
            complete = False
            break
        n += 1
        if len(samples) < 2:
            samples.append(case)
        msg = execute(fam, case, st, fam.timeout)
        if msg is None:
            continue
        fid = None
        if isinstance(msg, tuple):
            fid, msg = msg
        if fid is not None and fid in known:
            findings[fid] = findings.get(fid, 0) + 1
            continue
        viol.append({'family': famname, 'precision': precision, 'case': case,
                     'index': i, 'message': str(msg)[:3000]})
        if len(viol) >= MAX_VIOLATIONS:
            complete = False
            break
    out = {'family': famname, 'precision': precision, 'shard': shard, 'cases': n + st.runs,
           'transitions': st.transitions, 'states': sorted(st.states),
           'outcomes': sorted(st.outcomes), 'violations': viol, 'findings': findings,
           'samples': samples, 'complete': complete, 'wall_s': time.time() - t0}
    with open(outfile, 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main(sys.argv[1:])
