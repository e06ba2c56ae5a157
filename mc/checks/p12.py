"""P12: detectors and windowed integrations: every photon is counted once, in the right exposure.

The real CCD and WindowedIntegration are driven step by step through all schedules (time step,
exposure, start time, number of iterations) and compared, after every step, with a direct sum
over the exposure; the noise chain is compared, for every subset of the noises, with a direct
application of the documented steps on generators with the same seeds."""
import itertools

import numpy as np

from mc.core import Family
from mc.harness import close, feed, simul_params, step

RULE = ('all (time step, exposure, start, iterations, frame shape, binning, efficiency, bandwidth) '
        'of a grid, every iteration compared; all subsets of the noise sources x two frames; all '
        'windowed integration schedules of a grid')
ASSUMPTIONS = ['the input is refreshed at every iteration',
               'start times are multiples of the time step',
               'each noise level is zero when its noise is off; dark current only with photon noise']


def tol():
    import specula
    return 1e-5 if specula.global_precision else 1e-12


def pattern(nx, ny):
    a = np.arange(1.0, nx * ny + 1).reshape(ny, nx)
    a[0, 0] = 64.0
    return a


# ------------------------------------------------------------------ exposures of the detector
def gen_exposure(tier):
    kmax, nmax = ((3, 7), (5, 12))[tier == 'thorough']
    dts = (0.001, 0.00065, 0.5)
    for dt, k in itertools.product(dts, range(1, kmax + 1)):
        for start in range(0, 4 if tier != 'thorough' else 7):
            yield {'dt': dt, 'k': k, 'start': start, 'n': nmax, 'size': [4, 6], 'bin': 1,
                   'qe': 1.0, 'bw': 3.0}
    for size, b in (([4, 6], 2), ([6, 4], 2), ([6, 6], 3), ([4, 4], 4), ([2, 6], 1), ([12, 4], 4),
                    ([6, 3], 3), ([8, 8], 2)):
        for qe, bw, k in itertools.product((1.0, 0.25, 0.7), (1.0, 300.0), (1, 2)):
            yield {'dt': 0.001, 'k': k, 'start': 0, 'n': 4, 'size': size, 'bin': b, 'qe': qe,
                   'bw': bw}


def run_exposure(case, st):
    from specula.processing_objects.ccd import CCD
    from specula.data_objects.intensity import Intensity
    nx, ny = case['size']
    b = case['bin']
    dt = case['dt']
    sp = simul_params(time_step=dt)
    ccd = CCD(sp, size=[nx, ny], dt=dt * case['k'], bandw=case['bw'], binning=b,
              quantum_eff=case['qe'], start_time=dt * case['start'])
    src = Intensity(nx, ny)
    ccd.inputs['in_i'].set(src)
    feed(src, pattern(nx, ny), 0)
    ccd.setup()
    ndt = round(dt * 1e9)
    base = pattern(nx, ny)
    frame = np.zeros((ny // b, nx // b))
    integ = np.zeros((ny, nx))
    stamp = None
    pix, integrated = ccd.outputs['out_pixels'], ccd.outputs['integrated_i']
    for i in range(case['n']):
        t = i * ndt
        arr = base * 2.0 ** i
        feed(src, arr, t)
        if not step(ccd, t):
            return f'iteration {i}: not triggered by a new intensity'
        if not np.array_equal(src.i, np.asarray(arr, dtype=src.i.dtype)):
            return f'iteration {i}: the input was changed'
        m = i - case['start'] + 1             # iterations since the start, this one included
        if m > 0 and m % case['k'] == 0:
            first = i - case['k'] + 1
            integ = sum(base * 2.0 ** j for j in range(first, i + 1)) * dt * case['bw']
            frame = np.zeros((ny // b, nx // b))
            for y in range(ny):
                for x in range(nx):
                    frame[y // b, x // b] += integ[y, x]
            frame = frame * case['qe']
            stamp = t
        st.step()
        st.state(case['k'], case['start'], frame)
        if stamp is None:
            if pix.generation_time == t or integrated.generation_time == t:
                return f'iteration {i}: a frame was emitted before the end of the first exposure'
            continue
        for name, o, got, ref in (('out_pixels', pix, pix.pixels, frame),
                                  ('integrated_i', integrated, integrated.i, integ)):
            if o.generation_time != stamp:
                return f'iteration {i}: {name} has time {o.generation_time}, expected {stamp}'
            if not close(got, ref, tol()):
                return f'iteration {i}: {name} is {got.tolist()}, expected {ref.tolist()}'
    st.outcome(stamp, case['k'], b)
    return None


# ------------------------------------------------------------------ noises
NOISES = ['background', 'darkcurrent', 'cte', 'cic', 'photon', 'excess', 'readout', 'gains']


def gen_noise(tier):
    for r in range(len(NOISES) + 1):
        for sub in itertools.combinations(NOISES, r):
            if 'darkcurrent' in sub and 'photon' not in sub:
                continue
            for bin_ in (1, 2):
                for adu in (None, 2.0):
                    yield {'on': list(sub), 'bin': bin_, 'adu': adu, 'seed': 11}
                    if tier == 'thorough':
                        yield {'on': list(sub), 'bin': bin_, 'adu': adu, 'seed': 40}


def run_noise(case, st):
    from specula.processing_objects.ccd import CCD
    from specula.data_objects.intensity import Intensity
    on = set(case['on'])
    n, b = 4, case['bin']
    s = case['seed']
    kw = {}
    lev = {'background': 3.0, 'darkcurrent': 2.0, 'cic': 1.0, 'readout': 1.5}
    for k in ('background', 'darkcurrent', 'cic', 'readout'):
        if k in on:
            kw[k + '_level'] = lev[k]
    m = n // b
    cte = np.zeros((m, m, 2))
    cte[:, :, 0] = np.eye(m)
    cte[:, :, 1] = np.eye(m) * 0.75 + np.eye(m, k=1) * 0.25
    gains = 1.0 + np.arange(m * m).reshape(m, m) / 8.0
    if 'cte' in on:
        kw['cte_mat'] = cte
    if 'gains' in on:
        kw['pixelGains'] = gains
    if 'excess' in on:
        kw['emccd_gain'] = 100
    if case['adu'] is not None:
        kw['ADU_gain'] = case['adu']
    seeds = dict(photon_seed=s, readout_seed=s + 1, excess_seed=s + 2)

    def make(first=True):
        o = CCD(simul_params(time_step=0.5), size=[n, n], dt=0.5, bandw=2.0, binning=b,
                quantum_eff=0.5, excess_delta=2.0, **{k + '_noise': k in on for k in NOISES
                                                      if k != 'gains'}, **kw, **seeds)
        src = Intensity(n, n)
        o.inputs['in_i'].set(src)
        feed(src, pattern(n, n), 0)
        o.setup()
        return o, src
    ccd, src = make()
    other, osrc = make()        # another detector interleaved with the first
    rp, rr, re = (np.random.default_rng(s + i) for i in range(3))
    adu = case['adu'] if case['adu'] is not None else (1 / 20 if 'excess' in on else 8.0)
    em = 100.0 if 'excess' in on else 1.0
    for i in range(3):
        t = i * 500000000
        light = pattern(n, n) * (2.0, 0.0, 5.0)[i]
        feed(src, light, t)
        step(ccd, t)
        feed(osrc, light, t)
        step(other, t)
        p = light.reshape(m, b, m, b).sum(axis=(1, 3)) * 0.5
        if 'background' in on:
            p = p + lev['background']
        if 'darkcurrent' in on:
            p = p + lev['darkcurrent']
        if 'cte' in on:
            p = cte[:, :, 0] @ p @ cte[:, :, 1]
        if 'cic' in on:
            p = p + 1.0
        if 'photon' in on:
            p = rp.poisson(p).astype(float)
        if 'excess' in on:
            p = re.gamma(shape=np.maximum(2.0 * p, 1e-10), scale=em) / 2.0
        if 'readout' in on:
            p = p + rr.standard_normal(size=p.size).reshape(p.shape) * lev['readout'] * em
        if 'gains' in on:
            p = p * gains
        if 'photon' in on:
            counts = np.maximum(np.round(p * adu) + 400, 0) - 400
            p = counts / adu / em
            if 'darkcurrent' in on:
                p = p - lev['darkcurrent']
        got = ccd.outputs['out_pixels'].pixels
        st.step()
        st.state(case['on'], got)
        if not close(got, p, 1e-9):
            return f'frame {i}, noises {sorted(on)}: {got.tolist()}, expected {p.tolist()}'
        o2 = other.outputs['out_pixels'].pixels
        if not np.array_equal(got, o2):
            return f'frame {i}: two detectors with the same seeds and light differ'
    st.outcome(sorted(on), b)
    return None


# ------------------------------------------------------------------ windowed integration
def gen_window(tier):
    kmax, n = ((4, 9), (6, 16))[tier == 'thorough']
    for dt, k, start, upd in itertools.product((0.001, 0.00065, 0.25), range(1, kmax + 1),
                                               range(0, 5), (False, True)):
        yield {'dt': dt, 'k': k, 'start': start, 'upd': upd, 'n': n}


def run_window(case, st):
    from specula.processing_objects.windowed_integration import WindowedIntegration
    from specula.base_value import BaseValue
    dt, k = case['dt'], case['k']
    ndt = round(dt * 1e9)
    w = WindowedIntegration(simul_params(time_step=dt), n_elem=3, dt=dt * k,
                            start_time=dt * case['start'], update_time_on_dt=case['upd'])
    src = BaseValue(value=np.zeros(3))
    src.generation_time = 0
    w.inputs['input'].set(src)
    w.setup()
    out = w.outputs['output']
    base = np.array([1.0, -3.0, 7.0])
    done = 0
    for i in range(case['n']):
        t = i * ndt
        arr = base * 2.0 ** i + i
        feed(src, arr, t)
        step(w, t)
        if not np.array_equal(src.value, np.asarray(arr, dtype=src.value.dtype)):
            return f'iteration {i}: the input was changed'
        m = i - case['start'] + 1
        full = m > 0 and m % k == 0
        st.step()
        st.state(case['k'], case['start'], out.value)
        if full:
            done += 1
            ref = sum(base * 2.0 ** j + j for j in range(i - k + 1, i + 1)) / k
            if not close(out.value, ref, tol()):
                return f'iteration {i}: {out.value.tolist()}, expected the mean {ref.tolist()}'
            if out.generation_time != t:
                return f'iteration {i}: the mean has time {out.generation_time}, expected {t}'
        elif case['upd']:
            if out.generation_time == t:
                return f'iteration {i}: refreshed in the middle of a window'
        else:
            if out.generation_time != t:
                return f'iteration {i}: not refreshed'
            if m > 0 and np.any(out.value != 0):
                return f'iteration {i}: {out.value.tolist()} in the middle of a window'
    st.outcome(case['k'], case['start'], done)
    return None


def gen_refuse(tier):
    for num, den in itertools.product(range(1, 9), range(1, 5)):
        for cls in ('CCD', 'WindowedIntegration'):
            yield {'cls': cls, 'dt': num, 'step': den}


def run_refuse(case, st):
    """Exposures that are not a multiple of the time step are refused, all others accepted."""
    from specula.processing_objects.ccd import CCD
    from specula.processing_objects.windowed_integration import WindowedIntegration
    sp = simul_params(time_step=case['step'] * 0.0001)
    st.step()
    try:
        if case['cls'] == 'CCD':
            CCD(sp, size=[2, 2], dt=case['dt'] * 0.0001, bandw=1.0)
        else:
            WindowedIntegration(sp, n_elem=2, dt=case['dt'] * 0.0001)
        ok = True
    except ValueError:
        ok = False
    st.outcome(ok)
    if ok != (case['dt'] % case['step'] == 0):
        return f'exposure of {case["dt"]}, time step {case["step"]}: ' + \
            ('accepted' if ok else 'refused')
    return None


FAMILIES = [
    Family('exposure', gen_exposure, run_exposure, precisions=(0, 1), weight=2,
           what='detector schedules, shapes, binnings'),
    Family('noise', gen_noise, run_noise, precisions=(0,), weight=2, what='subsets of noises'),
    Family('window', gen_window, run_window, precisions=(0, 1), weight=1,
           what='windowed integration schedules'),
    Family('refuse', gen_refuse, run_refuse, precisions=(0,), weight=1,
           what='exposures and time steps'),
]
