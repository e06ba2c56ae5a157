"""P03: simulation clock - unit conversion, iteration grid, object life cycle."""
from fractions import Fraction

from mc.core import Family
from mc.harness import main_params, run_simul

RULE = ('conversions: every integer number of ns/us/ms ... in the stated ranges; loop: every '
        '(time step, duration, start time, number of priority groups) of the grid is run by the '
        'real loop with recording objects and compared with exact rational arithmetic')
ASSUMPTIONS = ['times below 1e6 s', 'finite run time', 'CPU, single process']


def run_units(case, st):
    from specula.base_value import BaseValue
    v = BaseValue()
    scale = case['scale']
    for n in range(case['lo'], case['hi']):
        t = n * scale
        sec = t / 1e9                      # correctly rounded
        st.step()
        if v.seconds_to_t(sec) != t:
            return f'{sec!r} s converts to {v.seconds_to_t(sec)} ns, expected {t}'
        lit = float(f'{n * scale / 1e9:.9f}')
        if v.seconds_to_t(lit) != t:
            return f'{lit!r} s converts to {v.seconds_to_t(lit)} ns, expected {t}'
        back = v.t_to_seconds(t)
        if back != sec:
            return f'{t} ns converts to {back!r} s, expected {sec!r}'
        if type(v.seconds_to_t(sec)) is not int:
            return f'time is not an integer: {v.seconds_to_t(sec)!r}'
    st.state(scale, case['lo'])
    if v.seconds_to_t(case['lo']) != case['lo'] * 10**9:
        return 'integer seconds are not converted exactly'
    return None


def gen_units(tier):
    step = 5000
    top = 50000 if tier == 'quick' else 500000
    for scale in (1, 10, 100, 1000, 10**4, 10**5, 10**6, 10**7, 10**8, 10**9):
        for lo in range(0, top, step):
            if lo * scale > 10**15:
                break
            yield {'scale': scale, 'lo': lo, 'hi': lo + step}


def check_log(log, times, uids):
    """Life cycle of every object against the exact list of times."""
    kinds = [ev[0] for ev in log]
    first = next((i for i, k in enumerate(kinds) if k in ('prepare', 'trigger')), len(kinds))
    fin = next((i for i, k in enumerate(kinds) if k == 'finalize'), len(kinds))
    for u in uids:
        mine = [(i, ev) for i, ev in enumerate(log) if ev[1] == u]
        setups = [i for i, ev in mine if ev[0] == 'setup']
        fins = [i for i, ev in mine if ev[0] == 'finalize']
        if len(setups) != 1 or setups[0] > first:
            return f'object {u} set up {len(setups)} times (or after the first iteration)'
        if len(fins) != 1:
            return f'object {u} finalized {len(fins)} times'
        body = [(i, ev) for i, ev in mine if ev[0] in ('prepare', 'trigger', 'post')]
        if any(i > fin for i, _ in body):
            return f'object {u} still ran after finalization started'
        want = [(k, t) for t in times for k in ('prepare', 'trigger', 'post')]
        got = [(ev[0], ev[2]) for _, ev in body]
        if got != want:
            k = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b),
                     min(len(got), len(want)))
            return (f'object {u}: event #{k}: {len(got)} events, expected {len(want)}; got '
                    f'{got[k:k + 3]}, expected {want[k:k + 3]}')
        for _, ev in body:
            if ev[0] == 'prepare' and (ev[3] != ev[2] or ev[4] != ev[2] / 1e9):
                return f'object {u}: inconsistent current time {ev}'
    # groups run one after the other: at each time, indices are non decreasing
    return None


def exact_ns(txt):
    ns = Fraction(txt) * 10**9
    assert ns.denominator == 1
    return int(ns)


def run_loop(case, st):
    from specula.loop_control import LoopControl
    from mc import objs
    from mc.objs.mc_node import McNode
    del objs.LOG[:]
    loop = LoopControl()
    n = case['groups']
    # added in reverse order on purpose: the group index decides
    for g in reversed(range(n)):
        for j in range(2):
            loop.add(McNode(uid=10 * g + j), g * 3)
    dt, t0, run_time = exact_ns(case['dt']), exact_ns(case['t0']), exact_ns(case['run'])
    loop.run(float(case['run']), float(case['dt']), t0=float(case['t0']))
    times = []
    t = t0
    while t < t0 + run_time:
        times.append(t)
        t += dt
    log = list(objs.LOG)
    st.step(len(times))
    st.state(times, n)
    st.outcome(len(times))
    uids = [10 * g + j for g in range(n) for j in range(2)]
    msg = check_log(log, times, uids)
    if msg:
        return msg
    for t in times:
        evs = [ev for ev in log if ev[0] in ('prepare', 'trigger', 'post') and ev[2] == t]
        groups = [ev[1] // 10 for ev in evs]
        if groups != sorted(groups):
            return f't={t}: groups interleaved or out of order: {groups}'
        for g in range(n):
            ks = [ev[0] for ev in evs if ev[1] // 10 == g]
            if ks != ['prepare'] * 2 + ['trigger'] * 2 + ['post'] * 2:
                return f't={t}: group {g} ran phases {ks}'
    return None


DTS = ['0.001', '0.0005', '0.002', '0.0001', '0.000065', '0.00013', '0.001001', '0.0011',
       '0.000333', '0.0025', '0.1', '1', '0.000000001', '0.000249', '4.1', '1.001']


def gen_loop(tier):
    for dt in DTS:
        f = Fraction(dt)
        for num in ([1, 2, 3, 5] if tier == 'quick' else range(1, 12)):
            for part in ('0', '1/2', '-1/4'):
                run = f * num + (f * Fraction(part))
                if (run * 10**9).denominator != 1 or run <= 0:
                    continue
                for t0k in (0, 1, 7):
                    for groups in (1, 2) if tier == 'quick' else (1, 2, 3):
                        yield {'dt': dt, 'run': dec(run), 't0': dec(f * t0k), 'groups': groups}
    for num in ([999, 1000, 1001] if tier == 'quick' else range(990, 1030)):
        yield {'dt': '0.001', 'run': dec(Fraction(num, 1000)), 't0': '0', 'groups': 1}


def dec(fr):
    n = fr * 10**9
    assert n.denominator == 1
    n = int(n)
    s = '-' if n < 0 else ''
    n = abs(n)
    return f'{s}{n // 10**9}.{n % 10**9:09d}'


def run_sim(case, st):
    dt, total = exact_ns(case['dt']), exact_ns(case['total'])
    params = {'main': main_params(total_time=float(case['total']), time_step=float(case['dt']))}
    params['b'] = {'class': 'McNode', 'uid': 1, 'single': ['i'], 'inputs': {'i': 'a.out'},
                   'outputs': ['out']}
    params['a'] = {'class': 'McNode', 'uid': 0, 'outputs': ['out']}
    _, log = run_simul(params)
    times = list(range(0, total, dt))
    st.step(len(times))
    st.state(times)
    return check_log(log, times, [0, 1])


def gen_sim(tier):
    for dt in DTS:
        f = Fraction(dt)
        for num in (1, 2, 3, 7) if tier == 'quick' else range(1, 30):
            for part in ('0', '1/2'):
                run = f * num + f * Fraction(part)
                if (run * 10**9).denominator == 1:
                    yield {'dt': dt, 'total': dec(run)}


FAMILIES = [
    Family('units', gen_units, run_units, weight=2,
           what='every multiple of 10^k ns, k=0..9, in the stated ranges'),
    Family('loop', gen_loop, run_loop, weight=2,
           what='time step x duration (multiples and non multiples) x start time x groups'),
    Family('simul', gen_sim, run_sim, weight=1,
           what='time step x total time given in the parameter file'),
]
