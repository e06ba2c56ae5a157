"""P29: the analysis and design of filters describe the filter that runs in the loop."""
import itertools
import math
import warnings

import numpy as np

from mc.core import Family
from mc.harness import step, simul_params

RULE = ('every filter of the stated grids is run by the real IirFilter, open loop and in a closed '
        'loop of every delay; its analysis is compared with that run and with the polynomials, '
        'and every history of gains with the filter it should give')
ASSUMPTIONS = ['filters of up to 7 coefficients, delays up to 3 frames in quarters, 1000 Hz',
               'a loop is called stable or unstable by its run only when its slowest pole is '
               'further than 2% from the unit circle']
MS = 1_000_000
FS = 1000.0
FREQ = np.array([0.0, 0.7, 20.0, 125.0, 250.0, 333.0, 480.0, 500.0])

# numerators and denominators, lowest power of z first
FILTERS = {
    'integrator': ([0, 0.5], [-1, 1]),
    'leaky': ([0, 0.8], [-0.9, 1]),
    'slow': ([0, 0.05], [-0.99, 1]),
    'gain': ([0, 0.6], [0, 1]),
    'zero': ([-0.2, 0.5], [-0.95, 1]),
    'two': ([0, -0.3, 0.7], [0.2, -1.1, 1]),
    'complex': ([0, 0.1, 0.4], [0.6, -1.2, 1]),
    'double': ([0, -0.45, 0.5], [1, -2, 1]),
    'lag': ([0.1, 0.2, 0.3], [0, 0, 1]),
    'delayed': ([0.4, 0, 0], [0, -0.5, 1]),
}


def value(coef, z):
    """Polynomial with the lowest power first."""
    out = np.zeros(np.shape(z), dtype=complex)
    for k, c in enumerate(coef):
        out = out + c * np.asarray(z) ** k
    return out


def transfer(name, z, gain=1.0):
    num, den = FILTERS[name]
    with np.errstate(all='ignore'):
        return gain * value(num, z) / value(den, z)


def plant(delay, z):
    """A delay in frames: the value is interpolated between two frames."""
    z = np.asarray(z, dtype=complex)
    lo = math.floor(delay)
    f = delay - lo
    out = (1 - f) * z ** -lo
    return out if f == 0 else out + f * z ** -(lo + 1)


def delay_coef(delay):
    """The same as polynomials (numerator, power of z of the denominator)."""
    lo = math.floor(delay)
    f = delay - lo
    if f == 0:
        return np.array([1.0]), lo
    return np.array([f, 1 - f]), lo + 1


def closed_poles(num, den, delay):
    """Roots of den z^n + num p (highest power last)."""
    p, n = delay_coef(delay)
    a = np.concatenate([np.zeros(n), den])
    b = np.convolve(num, p)
    m = max(len(a), len(b))
    c = np.pad(a, (0, m - len(a))) + np.pad(b, (0, m - len(b)))
    return np.roots(c[::-1])


def make(names, gains=None):
    """One IirFilterData with all these filters, padded as the class does."""
    from specula.data_objects.iir_filter_data import IirFilterData
    n = max(len(FILTERS[x][0]) for x in names)
    num = np.zeros((len(names), n))
    den = np.zeros((len(names), n))
    for i, x in enumerate(names):
        a, b = FILTERS[x]
        num[i, n - len(a):] = a
        den[i, n - len(b):] = b
    if gains is not None:
        num = num * np.asarray(gains, float)[:, None]
    return IirFilterData([n] * len(names), [n] * len(names), num, den)


def run_filter(data, inputs, delay=0, closed=False, steps=64):
    """Outputs of the real filter; in closed loop the input is the error."""
    from specula.base_value import BaseValue
    from specula.processing_objects.iir_filter import IirFilter
    f = IirFilter(simul_params(), data, delay=delay - 1 if closed else delay)
    n = data.nfilter
    v = BaseValue(value=np.zeros(n))
    f.inputs['delta_comm'].set(v)
    f.setup()
    out, err = np.zeros((steps, n)), np.zeros((steps, n))
    last = np.zeros(n)
    for k in range(steps):
        x = np.full(n, inputs[k] if k < len(inputs) else 0.0)
        if closed:
            x = x - last
        v.value = x
        v.generation_time = k * MS
        step(f, k * MS)
        last = np.array(f.outputs['out_comm'].value, dtype=float)
        out[k], err[k] = last, x
    return out, err


# ---------------------------------------------------------------- open loop
def run_open(case, st):
    names = case['names']
    data = make(names)
    z = np.exp(2j * np.pi * FREQ / FS)
    out, _ = run_filter(data, case['x'], steps=200)
    nyq = np.arange(200)
    for i, nm in enumerate(names):
        num, den = (np.asarray(v) for v in (data.num[i], data.den[i]))
        fr = FREQ if nm not in ('integrator', 'double') else FREQ[2:]
        w = np.exp(2j * np.pi * fr / FS)
        got = np.asarray(data.frequency_response(data.num[i], data.den[i], FS, freq=fr))
        want = transfer(nm, w)
        st.step()
        st.state(got)
        if np.max(np.abs(got - want)) > 1e-6 * max(1, np.max(np.abs(want))):
            return f'{nm}: response {got}, expected {want}'
        # the recurrence of the definition, and the transform of the run
        y = np.zeros(200)
        x = np.zeros(200)
        x[:len(case['x'])] = case['x']
        n, d = np.asarray(FILTERS[nm][0])[::-1], np.asarray(FILTERS[nm][1])[::-1]
        for k in range(200):
            y[k] = (sum(n[j] * x[k - j] for j in range(len(n)) if k >= j)
                    - sum(d[j] * y[k - j] for j in range(1, len(d)) if k >= j)) / d[0]
        if np.max(np.abs(out[:, i] - y)) > 1e-9 * max(1, np.max(np.abs(y))):
            return f'{nm}: ran as {out[:8, i]}, expected {y[:8]}'
        poles = np.abs(np.roots(FILTERS[nm][1][::-1]))
        if np.max(poles, initial=0) < 0.93:
            for f, h in zip(fr, got):
                e = np.exp(-2j * np.pi * f / FS * nyq)
                r = np.sum(out[:, i] * e) - h * np.sum(x * e)
                if abs(r) > 1e-4:
                    return f'{nm}: the run has a response different by {abs(r)} at {f} Hz'
        st.step()


def gen_open(tier):
    for k in (1, 2):
        for c in itertools.permutations(FILTERS, k):
            for x in ([1.0], [1.0, -2.0, 0.5], [0.0, 3.0]):
                yield {'names': list(c), 'x': x}
    yield {'names': list(FILTERS), 'x': [1.0, 0.3]}


# ---------------------------------------------------------------- closed loop
def run_closed(case, st):
    nm, delay, gains = case['name'], case['delay'], np.array(case['gains'])
    n = len(gains)
    data = make([nm] * n, gains)
    num, den = FILTERS[nm]
    p, order = delay_coef(delay)
    dw = np.zeros(order + 1)
    dw[-1] = 1
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        out, err = run_filter(data, [1.0], delay=delay, closed=True, steps=300)
    got_num, got_den = data.discrete_delay_tf(delay)
    z = np.exp(2j * np.pi * FREQ[2:] / FS)
    got = value(got_num, z) / value(got_den, z)
    if np.max(np.abs(got - plant(delay, z))) > 1e-9:
        return f'delay of {delay} frames: {got}, expected {plant(delay, z)}'
    for i, g in enumerate(gains):
        poles = closed_poles(g * np.array(num), den, delay)
        r = np.max(np.abs(poles))
        stable = bool(data.is_stable(i, dm=np.array([1.0]), nw=p, dw=dw))
        st.step()
        st.outcome(str(stable))
        if abs(r - 1) > 1e-6 and stable != (r < 1):
            return f'gain {g}: stable {stable}, largest pole {r}'
        if abs(r - 1) > 0.02:
            tail = np.max(np.abs(err[250:, i]))
            head = np.max(np.abs(err[60:110, i]))
            if stable != (tail < head or tail < 1e-9):
                return f'gain {g}: stable {stable}, but the loop went from {head} to {tail}'
        plants = dict(dm=np.array([1.0]), nw=p, dw=dw)
        rtf = np.asarray(data.RTF(i, FS, freq=FREQ[2:], plot=False, **plants))
        ntf = np.asarray(data.NTF(i, FS, freq=FREQ[2:], plot=False, **plants))
        ol = transfer(nm, z, g) * plant(delay, z)
        with np.errstate(all='ignore'):
            want = np.abs(1 / (1 + ol)), np.abs(ol / (1 + ol))
        st.state((rtf, ntf))
        for k, (a, b) in enumerate(zip((rtf, ntf), want)):
            a, b = np.minimum(a, 1e9), np.minimum(b, 1e9)
            if np.max(np.abs(a - b)) > 1e-5 * max(1, np.max(b)):
                return f'gain {g}: {("RTF", "NTF")[k]} {a}, expected {b}'
        if r < 0.95:
            for f, h in zip(FREQ[2:], rtf):
                e = np.exp(-2j * np.pi * f / FS * np.arange(300))
                if abs(abs(np.sum(err[:, i] * e)) - h) > 1e-3:
                    return f'gain {g}: the error of the run is {abs(np.sum(err[:, i] * e))} at {f} Hz, RTF {h}'


def gen_closed(tier):
    delays = (1, 1.25, 1.5, 2, 2.75, 3) if tier == 'quick' else tuple(1 + k / 8 for k in range(25))
    for nm in FILTERS:
        for d in delays:
            yield {'name': nm, 'delay': d, 'gains': [0.05, 0.2, 0.5, 0.9, 1.3, 2.1, 3.5, 5.0]}


# ---------------------------------------------------------------- largest gain, resonance
def run_limit(case, st):
    nm, delay, g0 = case['name'], case['delay'], case['gain']
    data = make([nm, nm], [g0, 2 * g0])
    num, den = FILTERS[nm]
    unit = np.array(num) / num[-1]
    ng = 400
    grid = np.linspace(1e-6, 8.0, ng)
    p, order = delay_coef(delay)
    dw = np.zeros(order + 1)
    dw[-1] = 1
    one = float(data.max_stable_gain(mode=0, delay=delay, max_gain=8.0, n_gain=ng))
    both = np.asarray(data.max_stable_gain(delay=delay, max_gain=8.0, n_gain=ng))
    st.step(2)
    st.state((one, both))
    if not np.array_equal(both, [one, one]):
        return f'largest gains {both} of the same filter, alone {one}'
    byp = float(data.max_stable_gain(mode=1, dm=np.array([1.0]), nw=p, dw=dw, max_gain=8.0, n_gain=ng))
    if byp != one:
        return f'largest gain {byp} with the plant given, {one} with its delay'
    r = np.array([np.max(np.abs(closed_poles(g * unit, den, delay))) for g in grid])
    bad = np.where(r >= 1)[0]
    k = bad[0] if len(bad) else ng
    want = grid[k - 1] if k else 0.0
    near = {float(want)}
    for j in (k - 2, k - 1, k):
        if 0 <= j < ng and abs(r[j] - 1) < 1e-7:
            near.update(float(grid[i]) if i >= 0 else 0.0 for i in (j - 1, j, min(j + 1, ng - 1)))
    if not any(abs(one - v) < 1e-9 for v in near):
        return f'largest gain {one}, expected {want}'
    freq = np.linspace(1.0, 500.0, 250)
    z = np.exp(2j * np.pi * freq / FS)
    for gf in (0.3, 1.0, 1.7):
        f, a = data.resonance_frequency(1, gain_factor=gf, delay=delay, fs=FS, freq=freq)
        d = np.abs(value(np.array(den), z) * z ** order + 2 * g0 * gf * value(num, z) * value(p, z))
        st.step()
        j = int(np.argmin(d))
        i = int(np.where(freq == f)[0][0])
        if d[i] > d[j] * (1 + 1e-4) + 1e-6 or abs(a - 1 / d[i]) > 1e-3 / d[i]:
            return f'resonance at {f} Hz ({a}), expected {freq[j]} ({1 / d[j]})'
    for an in (data.stability_analysis(mode=1, delay=delay, fs=FS, max_gain=8.0, n_gain=ng),
               data.stability_analysis(delay=delay, fs=FS, max_gain=8.0, n_gain=ng)[1]):
        if an['mode'] != 1 or an['max_stable_gain'] != one or an['is_stable_at_max'] != (one > 0):
            return f'analysis {an}, largest gain {one}'
        if one > 0:
            # as if the filter had 99% of the largest gain
            other = make([nm], [1 / num[-1]])
            f, a = other.resonance_frequency(0, gain_factor=one * 0.99, delay=delay, fs=FS)
            st.step()
            if abs(f - an['resonance_frequency']) > 1e-9 * f or \
                    abs(a - an['resonance_amplitude']) > 1e-3 * a:
                return (f'resonance at 99% of the largest gain: {an["resonance_frequency"]} Hz, '
                        f'{an["resonance_amplitude"]}; expected {f}, {a}')


def gen_limit(tier):
    for nm in FILTERS:
        if FILTERS[nm][0][-1] == 0:
            continue
        for d in (1, 1.5, 2, 2.25, 3):
            for g in ((0.5, 1.0) if tier == 'quick' else (0.1, 0.5, 1.0, 2.0)):
                yield {'name': nm, 'delay': d, 'gain': g}


# ---------------------------------------------------------------- gains
def run_gain(case, st):
    """Any history of gains gives the filter of the last ones."""
    names = ['integrator', 'zero', 'two']
    data = make(names)
    g = np.array([FILTERS[n][0][-1] for n in names])
    shape = [np.array(FILTERS[n][0]) / FILTERS[n][0][-1] for n in names]
    for k, new in enumerate(case['gains']):
        arg = np.array(new, dtype=float) if isinstance(new, list) else new
        data.set_gain(arg)
        v = np.full(3, new, float) if not isinstance(new, list) else np.array(new, float)
        g = g.copy()
        for i in range(min(3, len(v))):
            if np.isfinite(v[i]):
                g[i] = v[i]
        st.step()
        if np.max(np.abs(np.asarray(data.gain) - g)) > 1e-12:
            return f'gains {data.gain} after {case["gains"][:k + 1]}, expected {g}'
        for i in range(3):
            n = np.asarray(data.num[i])
            want = np.zeros(3)
            want[3 - len(shape[i]):] = shape[i] * g[i]
            if np.max(np.abs(n - want)) > 1e-12:
                return f'numerator {n} after {case["gains"][:k + 1]}, expected {want}'
            if not np.array_equal(np.asarray(data.den[i]), np.pad(
                    np.array(FILTERS[names[i]][1], float), (3 - len(FILTERS[names[i]][1]), 0))):
                return 'the denominator changed'
        st.state((g,))
    out, _ = run_filter(data, [1.0], steps=12)
    for i, n in enumerate(names):
        ref, _ = run_filter(make([n], [g[i] / FILTERS[n][0][-1]]), [1.0], steps=12)
        if np.max(np.abs(out[:, i] - ref[:, 0])) > 1e-9:
            return f'{n} runs as {out[:, i]}, expected {ref[:, 0]}'


def gen_gain(tier):
    nan = float('nan')
    vals = [0.0, 0.7, [0.1, 0.2, 0.3], [0.0, 1.0, 0.0], [nan, 0.4, nan], [-0.5, 2.0, 1e-3], nan]
    for k in range(1, 4 if tier == 'quick' else 5):
        for h in itertools.product(range(len(vals)), repeat=k):
            yield {'gains': [vals[i] for i in h]}


# ---------------------------------------------------------------- designs
def run_design(case, st):
    from specula.data_objects.iir_filter_data import IirFilterData
    import scipy.signal
    kind, fc = case['kind'], case['fc']
    fcs = fc if isinstance(fc, list) else [fc]
    fr = np.linspace(0.5, 499.0, 60)
    w = np.exp(2j * np.pi * fr / FS)
    if kind == 'gain':
        g, ff = case['g'], case['ff']
        d = IirFilterData.from_gain_and_ff(g, ff=ff)
        ff = [1.0] * len(g) if ff is None else (list(ff) * len(g) if len(ff) != len(g) else ff)
        if d.nfilter != len(g):
            return f'{d.nfilter} filters of {len(g)} gains'
        for i in range(len(g)):
            got = np.asarray(d.frequency_response(d.num[i], d.den[i], FS, freq=fr))
            want = g[i] * w / (w - ff[i])
            st.step()
            if np.max(np.abs(got - want)) > 1e-6 * np.max(np.abs(want)):
                return f'gain {g[i]}, forgetting {ff[i]}: response {got[:3]}, expected {want[:3]}'
        st.state(got)
        return None
    if kind == 'butter':
        d = IirFilterData.lpf_from_fc(fc, FS, n_ord=case['n'])
    else:
        amp = case['amp']
        d = IirFilterData.lpf_from_fc_and_ampl(fc, amp, FS)
    if d.nfilter != len(fcs):
        return f'{d.nfilter} filters of {len(fcs)} frequencies'
    for i, f in enumerate(fcs):
        got = np.asarray(d.frequency_response(d.num[i], d.den[i], FS, freq=fr))
        at, zero = (np.abs(np.asarray(d.frequency_response(d.num[i], d.den[i], FS, freq=np.array([x])))[0])
                    for x in (f, 0.0))
        st.step(3)
        st.state(got)
        if abs(zero - 1) > 1e-5:
            return f'gain {zero} at zero frequency'
        if kind == 'butter' and case['n'] > 1:
            b, a = scipy.signal.butter(case['n'], f, fs=FS)
            want = scipy.signal.freqz(b, a, worN=fr, fs=FS)[1]
            if np.max(np.abs(got - want)) > 1e-4:
                return f'not the Butterworth filter: {np.max(np.abs(got - want))}'
        if kind == 'butter' and case['n'] == 1:
            # one pole without delay, low pass
            if np.any(np.diff(np.abs(got)) > 1e-9):
                return 'not a low pass filter'
            a0 = math.tan(math.pi * f / FS)
            a0 = a0 / (1 + a0)
            want = a0 / (1 - (1 - a0) / w)
            if np.max(np.abs(got - want)) > 1e-5:
                return f'not the filter of one pole: {np.max(np.abs(got - want))}'
        if kind == 'ampl':
            a = amp[i] if isinstance(amp, list) and len(amp) > 1 else (amp[0] if isinstance(amp, list) else amp)
            if abs(at - a) > 1e-4 * a:
                return f'amplitude {at} at {f} Hz, expected {a}'
        if np.max(np.abs(np.roots(np.asarray(d.den[i])[::-1]))) >= 1:
            return 'an unstable filter'
    out, _ = run_filter(d, [1.0] * 400, steps=400)
    if min(fcs) >= 20 and np.max(np.abs(out[-1] - 1)) > 1e-3:
        return f'a constant goes through as {out[-1]}'


def gen_design(tier):
    fc = (20.0, 100.0, 249.0, 450.0, [30.0, 200.0], [5.0])
    for n in (1, 2, 4, 6):
        for f in fc:
            yield {'kind': 'butter', 'fc': f, 'n': n}
    for a in (0.6, 1.0, 3.0, [0.8, 2.0], [1.5]):
        for f in fc:
            nf = len(f) if isinstance(f, list) else 1
            if isinstance(a, list) and len(a) not in (1, nf):
                continue
            yield {'kind': 'ampl', 'fc': f, 'amp': a}
    for g in ([0.5], [0.1, 0.9], [0.0, 1.2, 0.4]):
        for ff in (None, [0.9], [0.99, 0.5][:len(g)] if len(g) < 3 else [1.0, 0.9, 0.0]):
            yield {'kind': 'gain', 'fc': 0, 'g': g, 'ff': ff}


# ---------------------------------------------------------------- conversion
def run_convert(case, st):
    from specula.data_objects.iir_filter_data import IirFilterData
    import control
    names = case['names']
    data = make(names)
    dt = 1 / FS
    tfs = data.to_control_tf_list(dt=dt)
    back = IirFilterData.from_control_tf(tfs if len(tfs) > 1 else tfs[0])
    fr = FREQ[2:]
    z = np.exp(2j * np.pi * fr / FS)
    if len(tfs) != len(names) or back.nfilter != len(names):
        return f'{len(tfs)} transfer functions, {back.nfilter} filters of {len(names)}'
    out, _ = run_filter(data, [1.0, 0.5], steps=30)
    out2, _ = run_filter(back, [1.0, 0.5], steps=30)
    for i, nm in enumerate(names):
        want = transfer(nm, z)
        t = tfs[i]
        if t.dt != dt:
            return f'sampling time {t.dt}'
        a = np.array([complex(t(v)) for v in z])
        b = np.asarray(back.frequency_response(back.num[i], back.den[i], FS, freq=fr))
        st.step(2)
        st.state(a)
        for k, x in enumerate((a, b)):
            if np.max(np.abs(x - want)) > 1e-5 * np.max(np.abs(want)):
                return f'{nm}: {("control", "restored")[k]} response {x}, expected {want}'
        if np.max(np.abs(out[:, i] - out2[:, i])) > 1e-6 * max(1, np.max(np.abs(out[:, i]))):
            return f'{nm}: the restored filter runs as {out2[:5, i]}, not as {out[:5, i]}'


def gen_convert(tier):
    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
        for c in itertools.permutations(FILTERS, k):
            yield {'names': list(c)}


FAMILIES = [
    Family('open', gen_open, run_open, weight=2, precisions=(0,),
           what='response and run: all pairs of ten filters x three inputs'),
    Family('closed', gen_closed, run_closed, weight=2, precisions=(0,),
           what='rejection, noise and stability against the closed loop run: filters x delays x 8 gains'),
    Family('limit', gen_limit, run_limit, weight=4, precisions=(0,),
           what='largest stable gain, resonance and their summary: filters x delays x current gains'),
    Family('gains', gen_gain, run_gain, weight=2, precisions=(0,),
           what='all histories of up to 3 (4) gains of seven kinds on three filters'),
    Family('designs', gen_design, run_design, precisions=(0,),
           what='designed filters: kinds x orders x cut-offs x amplitudes x gains and forgetting factors'),
    Family('convert', gen_convert, run_convert, precisions=(0,),
           what='conversion to the control library and back: all pairs (triples) of filters'),
]
