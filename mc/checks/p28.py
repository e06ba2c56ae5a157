"""P28: estimators and monitors report what the loop's own data say, when they say it."""
import contextlib
import io
import itertools
import math

import numpy as np

from mc.core import Family
from mc.harness import close, simul_params, step

RULE = ('every history of inputs of the stated sets is fed to the real estimator; each output is '
        'compared with the value and the time that the definition of the estimator gives')
ASSUMPTIONS = ['histories of up to 5 steps (optical gain), 3 optimisations (gains), 3 estimations '
               '(misregistration), 3 frames (spots)', '1000 Hz loops',
               'misregistration: interaction matrices linear in the parameters']
MS = 1_000_000


# ---------------------------------------------------------------- optical gain
# what arrives at a step: (delta, command); None = not refreshed
ARRIVE = {
    'both': (0.4, 0.8), 'over': (1.5, 1.0), 'delta': (0.3, None), 'cmd': (None, 2.0),
    'zero': (0.2, 0.0), 'tiny': (0.2, 5e-13), 'neg': (0.3, -0.6), 'same': (0.7, 0.7), 'none': None,
}


def gen_og(tier):
    kinds = ('both', 'over', 'delta', 'cmd', 'zero', 'none', 'neg')
    depth = 3 if tier == 'quick' else 4
    for gain in (0.3, 1.0):
        for og0 in (0.5, 1.0):
            for h in itertools.product(kinds, repeat=depth):
                yield {'gain': gain, 'og0': og0, 'h': h}
    for h in itertools.product(('tiny', 'same', 'over', 'cmd'), repeat=3):
        yield {'gain': 0.3, 'og0': 1.4, 'h': h}


def run_og(case, st):
    from specula.base_value import BaseValue
    from specula.processing_objects.optical_gain_estimator import OpticalGainEstimator
    est = OpticalGainEstimator(gain=case['gain'], initial_optical_gain=case['og0'])
    d = BaseValue(value=np.zeros(1))
    c = BaseValue(value=np.zeros(1))
    est.inputs['in_demod_delta_command'].set(d)
    est.inputs['in_demod_command'].set(c)
    est.setup()
    og, og_t, out, out_t = case['og0'], None, case['og0'], None
    dv = cv = 0.0
    first = [est.outputs[n].generation_time for n in ('optical_gain', 'output')]
    og_t, out_t = first
    for k, name in enumerate(case['h']):
        t = k * MS
        a = ARRIVE[name]
        if a is not None:
            if a[0] is not None:
                d.value[:] = dv = a[0]
                d.generation_time = t
            if a[1] is not None:
                c.value[:] = cv = a[1]
                c.generation_time = t
        ran = step(est, t)
        if ran != (a is not None):
            return f'step {k} ({name}): triggered {ran}'
        if ran:
            if a[0] is not None and a[1] is not None and abs(cv) > 1e-12:
                og = og - (1 - dv / cv) * case['gain'] * og
                og_t = t
            out, out_t = min(og, 1.0), t
        got = [(float(est.outputs[n].value[0]), est.outputs[n].generation_time)
               for n in ('optical_gain', 'output')]
        st.step()
        st.state(got)
        for n, (gv, gt), (wv, wt) in zip(('optical_gain', 'output'), got, ((og, og_t), (out, out_t))):
            if k == 0 and not ran and n == 'output':
                continue        # what the output holds before anything happened is not claimed
            if n == 'output' and out_t == first[1]:
                continue
            if abs(gv - wv) > 1e-6 * max(1, abs(wv)) or gt != wt:
                return f'step {k} of {case["h"]}: {n} = {gv} at {gt}, expected {wv} at {wt}'
    return None


# ---------------------------------------------------------------- gains
def signal_of(kind, n, modes):
    k = np.arange(n)[:, None]
    m = np.arange(1, modes + 1)[None, :]
    if kind == 'slow':
        return np.cos(2 * np.pi * 0.03 * k / m + m) * 3 + 0.01 * ((k * 7 + m * 3) % 5)
    if kind == 'white':
        return ((k * k * 37 + k * 11 * m + 5 * m) % 17 - 8) / 4.0
    if kind == 'mixed':
        return np.where(m % 2, np.cos(2 * np.pi * 0.02 * k) * 2,
                        ((k * k * 29 + 7 * k) % 13 - 6) / 3.0)
    return np.zeros((n, modes)) + m


GO_BASE = {'filters': ('integrator', 'leaky'), 'gains': (0.3, 0.5), 'delay': 2.0, 'opt': 5,
           'signal': 'slow', 'miss': (), 'og': None, 'kw': {}, 'n': 16}


def gen_go(tier):
    def case(**kw):
        return dict(GO_BASE, **kw)
    delays = (1.0, 2.0, 2.5, 3.0)
    for signal in ('slow', 'white', 'mixed', 'const'):
        for delay in delays if tier != 'quick' else delays[1:3]:
            for kw in ({}, {'limit_inc': False}, {'ngains': 7, 'max_inc': 0.25, 'limit_inc': True},
                       {'safety_factor': 1.0, 'max_gain_factor': 0.8, 'limit_inc': False}):
                yield case(signal=signal, delay=delay, kw=kw)
    for og in ((1.0,) * 16, tuple(0.5 + 0.03 * i for i in range(16)),
               tuple(1.0 if i % 5 else 0.6 for i in range(16))):
        for limit in (True, False):
            yield case(og=og, kw={'limit_inc': limit})
            yield case(og=og, kw={'limit_inc': limit, 'safety_factor': 0.6}, signal='white')
    # steps at which nothing arrives: before the first optimisation, on one, between two
    for miss in ((0,), (0, 1, 2, 3, 4), (5,), (10,), (5, 10), (3, 7), (0, 1, 2, 3),
                 (0, 1, 2, 3, 4, 6, 7, 8, 9)):
        for limit in (True, False):
            yield case(miss=miss, kw={'limit_inc': limit})
    for opt in (1, 3, 4, 16) if tier == 'quick' else (1, 2, 3, 4, 6, 7, 16):
        yield case(opt=opt, n=9 if opt == 1 else 16)
        yield case(opt=opt, n=9 if opt == 1 else 16, kw={'limit_inc': False}, signal='mixed')
    for f in (('two',), ('zero',), ('slow', 'complex')):
        yield case(filters=f, gains=(0.4,) * len(f), n=11, kw={'limit_inc': False})


def welch(x, nper):
    """Welch's estimate: half overlapping Hann segments without their mean."""
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(nper) / nper)
    hop = nper - nper // 2
    segs = [x[i:i + nper] for i in range(0, len(x) - nper + 1, hop)]
    p = np.mean([np.abs(np.fft.rfft((s - s.mean()) * w)) ** 2 for s in segs], axis=0)
    p = p / (1000.0 * np.sum(w ** 2))
    p[1:] *= 2
    if nper % 2 == 0:
        p[-1] /= 2
    return np.fft.rfftfreq(nper, 0.001), p


def run_go(case, st):
    from mc.checks.p29 import closed_poles, make, value
    from specula.base_value import BaseValue
    from specula.processing_objects.gain_optimizer import GainOptimizer
    names = case['filters']
    n = len(names)
    data = make(names)
    data.set_gain(np.array(case['gains']))
    shapes = [(np.array(data.num[i]) / case['gains'][i], np.array(data.den[i])) for i in range(n)]
    opt = case['opt'] * MS
    kw = dict({'verbose': False}, **case['kw'])
    g = GainOptimizer(simul_params(), data, opt_dt=case['opt'] * 1e-3, delay=case['delay'], **kw)
    mgf, sf = kw.get('max_gain_factor', 0.95), kw.get('safety_factor', 0.90)
    inc, limit, ng = kw.get('max_inc', 0.5), kw.get('limit_inc', True), kw.get('ngains', 20)
    dc, oc, og = (BaseValue(value=np.zeros(n)), BaseValue(value=np.zeros(n)),
                  BaseValue(value=np.ones(1)))
    g.inputs['delta_comm'].set(dc)
    g.inputs['out_comm'].set(oc)
    if case['og']:
        g.inputs['optical_gain'].set(og)
    g.setup()
    sig, com = signal_of(case['signal'], case['n'], n), signal_of('white', case['n'], n) * 0.3
    hist_d, hist_c, hist_og = [], [], []
    prev = np.array(case['gains'], dtype=float)
    current = prev.copy()
    stamp = g.outputs['optimized_gain'].generation_time
    nper, shown = None, None
    limits = {}
    for k in range(case['n']):
        t = k * MS
        if k not in case['miss']:
            for v, x in ((dc, sig[k]), (oc, com[k])):
                v.value = x.copy()
                v.generation_time = t
            if case['og']:
                og.value = np.array([case['og'][k]])
                og.generation_time = t
            hist_d.append(sig[k])
            hist_c.append(com[k])
            hist_og.append(case['og'][k] if case['og'] else None)
        step(g, t)
        if k not in case['miss'] and t >= opt and t % opt == 0 and len(hist_d) >= 2:
            pol = np.array(hist_d)
            pol[1:] += np.array(hist_c)[:-1]
            if nper is None:
                nper = min(len(pol), 256)
            got = np.array(g.outputs['optimized_gain'].value, dtype=float)
            new, gmaxs = np.zeros(n), np.zeros(n)
            choices = []
            for i in range(n):
                num, den = shapes[i]
                if i not in limits:
                    grid = np.linspace(1e-6, 20, 20000)
                    unit = num / num[-1]
                    # the largest stable gain, on the grid of the analysis (checked by P29)
                    lo, hi = 0, len(grid) - 1
                    ok = lambda j: np.max(np.abs(closed_poles(unit * grid[j], den,
                                                              case['delay']))) < 1
                    if ok(hi):
                        lo = hi
                    while hi - lo > 1:
                        mid = (lo + hi) // 2
                        lo, hi = (mid, hi) if ok(mid) else (lo, mid)
                    limits[i] = grid[lo]
                gmaxs[i] = limits[i] * mgf
                fr, p = welch(pol[:, i], nper)
                z = np.exp(2j * np.pi * fr * 1e-3)
                with np.errstate(all='ignore'):
                    c = value(num, z) / np.where(np.abs(value(den, z)) < 1e-12, 1e-12,
                                                 value(den, z))
                gains = np.linspace(gmaxs[i] / ng, gmaxs[i], ng)
                tot = np.array([np.sum(np.abs(1 / (1 + x * c * z ** -case['delay'])) ** 2 * p)
                                for x in gains])
                near = [x for x, v in zip(gains, tot)
                        if v <= tot.min() * (1 + 1e-6) + 1e-9 * np.max(np.abs(pol)) ** 2]
                choices.append(near)
            for i in range(n):
                best = None
                for x in choices[i]:
                    y = prev[i] + inc * (x - prev[i]) if limit else x
                    if case['og'] and len(hist_og) >= 2:
                        y *= hist_og[-1] / hist_og[-2]
                    y = min(y * sf, gmaxs[i])
                    if best is None or abs(y - got[i]) < abs(best - got[i]):
                        best = y
                new[i] = best
            # the analysis scans the gains in steps of 1e-3
            if np.any(np.abs(got - new) > 2e-5 * np.abs(new) + 1e-7):
                return f'step {k}: gains {got}, expected {new} (choices {choices})'
            prev = current = shown = got
            stamp = t
        out = g.outputs['optimized_gain']
        st.step()
        st.state(np.array(out.value), out.generation_time)
        if out.generation_time != stamp:
            return f'step {k}: gains stamped {out.generation_time}, expected {stamp}'
        if shown is not None and not np.array_equal(np.asarray(out.value, float), shown):
            return f'step {k}: gains changed between optimisations'
        if not close(np.array(data.gain), current, 1e-6):
            return f'step {k}: the filter has gains {np.array(data.gain)}, expected {current}'
        for i in range(n):
            if not close(np.array(data.num[i]), shapes[i][0] * current[i], 1e-6) \
                    or not close(np.array(data.den[i]), shapes[i][1], 1e-6):
                return f'step {k}: the shape of filter {i} changed'
    return None


# ---------------------------------------------------------------- printing
PVALUES = {
    'scalar': np.float64(2.5), 'zerod': np.array(-1.25), 'one': np.array([3.0]),
    'vec': np.arange(7) * 1.5, 'int': np.arange(4), 'mat': np.arange(12.).reshape(3, 4),
    'small': np.arange(4.).reshape(2, 2), 'none': None, 'empty': np.zeros(0),
    'ten': np.arange(10.).reshape(2, 5),
}


def shown_as(v, sl, fmt):
    if v is None:
        return 'None'
    v = np.asarray(v)
    if v.ndim:
        v = v[slice(*sl)] if sl else v
    if v.ndim == 0:
        return format(float(v), fmt)
    if v.ndim == 1:
        return '[' + ', '.join(format(x, fmt) for x in v) + ']'
    flat = v.flatten()
    return (f'shape={v.shape}, [' + ', '.join(format(x, fmt) for x in flat[:10])
            + ('...' if flat.size > 10 else '') + ']')


def gen_print(tier):
    n = 6
    for every in (1, 2, 3, 0.5):
        for fresh in itertools.product((0, 1), repeat=n):
            yield {'every': every, 'fresh': fresh, 'value': 'vec', 'slice': None, 'prefix': 'x',
                   'fmt': '.2f'}
    for v in PVALUES:
        for sl in (None, (0, 2), (None, None, 2), (1, None), (-1, None), (5, 2)):
            for prefix in ('', 'gain'):
                for fmt in ('.4f', '.1e', '8.3f') if tier != 'quick' or sl is None else ('.4f',):
                    yield {'every': 1, 'fresh': (1, 0, 1), 'value': v, 'slice': sl,
                           'prefix': prefix, 'fmt': fmt}


def run_print(case, st):
    from specula.base_value import BaseValue
    from specula.processing_objects.data_print import DataPrint
    p = DataPrint(print_dt=case['every'] * 1e-3, range_slice=case['slice'],
                  prefix=case['prefix'], format_str=case['fmt'])
    v = BaseValue(value=None)
    p.inputs['in_value'].set(v)
    base = PVALUES[case['value']]
    v.value = base
    p.setup()
    last = None
    for k, fresh in enumerate(case['fresh']):
        t = k * MS
        cur = base if base is None else base + k if base.dtype != int else base + k
        if fresh:
            v.value = cur
            v.generation_time = t
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            step(p, t)
        got = buf.getvalue()
        due = fresh and (last is None or t - last >= case['every'] * MS)
        st.step()
        st.state(got)
        if not due:
            if got:
                return f'step {k}: printed {got!r}, the last was at {last}'
            continue
        last = t
        if got.count('\n') != 1 or not got.endswith('\n'):
            return f'step {k}: printed {got!r}'
        if not got.startswith(f't={t / 1e9:.4f}s') or case['prefix'] not in got:
            return f'step {k}: printed {got!r}'
        text = shown_as(cur, case['slice'], case['fmt'])
        if not got.rstrip('\n').endswith(': ' + text):
            return f'step {k}: printed {got!r}, expected the values {text}'
    return None


# ---------------------------------------------------------------- spots
def moffat(n, p):
    amp, x0, y0, gam, alpha, sky = p
    y, x = np.mgrid[0:n, 0:n]
    return sky + amp * (1 + ((x - x0) ** 2 + (y - y0) ** 2) / gam ** 2) ** -alpha


SPOTS = {
    'centre': (100., 3.5, 3.5, 1.8, 2.5, 2.0),
    'moved': (80., 2.6, 4.3, 2.2, 2.0, 5.0),
    'wide': (50., 4.0, 3.0, 2.6, 3.0, 0.5),
    'sharp': (120., 3.1, 4.2, 2.0, 2.2, 8.0),
}


def subaps(n_side, valid, ns):
    """Pixel indices of the valid subapertures of a detector of n_side x n_side of them."""
    w = n_side * ns
    idx = np.arange(w * w).reshape(w, w)
    rows = [idx[(s // n_side) * ns:(s // n_side + 1) * ns,
                (s % n_side) * ns:(s % n_side + 1) * ns].ravel() for s in valid]
    return np.array(rows)


def gen_spot(tier):
    names = list(SPOTS)
    for ns in (8,) if tier == 'quick' else (8, 9, 10):
        for n_side, valid in ((1, (0,)), (2, (0, 1, 2, 3)), (2, (0, 3)), (2, (2, 1, 3)), (3, (4, 0))):
            for h in itertools.product(names, repeat=2 if tier == 'quick' else 3):
                yield {'ns': ns, 'side': n_side, 'valid': valid, 'h': h, 'noise': 0}
            for h in ((names[0], names[2]), (names[1], names[3])):
                yield {'ns': ns, 'side': n_side, 'valid': valid, 'h': h, 'noise': 1}


def run_spot(case, st):
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.subap_data import SubapData
    from specula.processing_objects.spot_monitor import SpotMonitor
    ns, side, valid = case['ns'], case['side'], case['valid']
    sub = SubapData(subaps(side, valid, ns), np.array(valid), side, side)
    mon = SpotMonitor(sub)
    pix = Pixels(side * ns, side * ns)
    mon.inputs['in_pixels'].set(pix)
    mon.setup()
    k = 0
    for name in (case['h'] + (None,) if case['noise'] == 0 else case['h']):
        t = k * MS
        if name is None:
            before = [np.array(mon.outputs[o].get_value()) for o in sorted(mon.outputs)]
            if step(mon, t):
                return 'triggered without a new frame'
            after = [np.array(mon.outputs[o].get_value()) for o in sorted(mon.outputs)]
            if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, after)):
                return 'outputs changed without a new frame'
            continue
        p = SPOTS[name]
        img = np.zeros((side * ns, side * ns))
        flat = img.ravel()
        flat += 1000.0 * (np.arange(flat.size) % 7 + 1)      # light outside the subapertures
        one = moffat(ns, p).ravel()
        rows = subaps(side, valid, ns)
        share = np.arange(1, len(valid) + 1, dtype=float)
        share /= share.sum()
        extra = ((np.arange(ns * ns) * 13 + k * 5) % 7 - 3) * 0.4 * case['noise']
        for s, f in zip(rows, share):
            flat[s] = (one + extra) * f
        pix.pixels[:] = img
        pix.generation_time = t
        step(mon, t)
        tot = (one + extra).reshape(ns, ns)
        got = {o: np.array(mon.outputs[o].get_value(), dtype=float) for o in mon.outputs}
        q = got['out_params']
        st.step()
        st.state(got['out_sum_pixels'], np.round(q, 4))
        for o in mon.outputs:
            if mon.outputs[o].generation_time != t:
                return f'{name}: {o} stamped {mon.outputs[o].generation_time} at {t}'
        if not close(got['out_sum_pixels'], tot, 1e-5):
            return f'{name}: the summed image is not the sum of the subapertures'
        model = moffat(ns, q[:6])
        if not close(got['out_model_pixels'], model, 1e-5):
            return f'{name}: the model image is not that of the parameters {q}'
        if np.max(np.abs(got['out_residual_pixels'] - (tot - model))) > 1e-5 * np.max(tot):
            return f'{name}: the residual is not image - model'
        if abs(q[7] - np.mean((tot - model) ** 2)) > 1e-4 * q[7] + 1e-7 * np.max(tot):
            return f'{name}: chi2 {q[7]}, expected {np.mean((tot - model) ** 2)}'
        if abs(q[6] - 2 * q[3] * math.sqrt(2 ** (1 / q[4]) - 1)) > 1e-5 * q[6]:
            return f'{name}: fwhm {q[6]} of gamma {q[3]}, alpha {q[4]}'
        # half of the maximum is met half of the fwhm away from the centre
        half = q[0] * (1 + (q[6] / 2 / q[3]) ** 2) ** -q[4]
        if abs(half - q[0] / 2) > 1e-4 * q[0]:
            return f'{name}: {half} at half the fwhm of a peak of {q[0]}'
        if q[8] != 1.0:
            return f'{name}: success {q[8]}'
        if case['noise'] == 0 and ns == 8:     # other boxes have local minima of the fit
            if np.max(np.abs(np.abs(q[:6]) - p)) > 1e-3 * max(p):
                return f'{name}: parameters {q[:6]}, the spot has {p}'
        elif case['noise'] and np.mean((tot - model) ** 2) > np.mean(extra ** 2) * 1.001:
            return f'{name}: the fit is worse than the true spot'
        if abs(mon.amplitude - q[0]) + abs(mon.fwhm - q[6]) + abs(mon.sky_level - q[5]) > 1e-6 \
                or not np.allclose(mon.centroid, q[1:3]) or mon.fit_quality['success'] is not True:
            return f'{name}: the properties differ from the parameters'
        k += 1
    return None


# ---------------------------------------------------------------- misregistration
def sprint_matrices(modes, nslopes, npar):
    """Nominal matrix and one orthogonal direction per parameter, for every mode."""
    n = nslopes
    base = np.linalg.qr(np.cos(np.arange(n)[:, None] * (1 + np.arange(n)[None, :]) * 0.7
                               + np.arange(n)[None, :]))[0]
    m0 = np.stack([base[:, i] * (i + 1.) for i in range(modes)], axis=1)
    dirs = np.zeros((n, modes, npar))
    for p in range(npar):
        for m in range(modes):
            dirs[:, m, p] = base[:, modes + p * modes + m] * (0.5 + p)
    return m0, dirs


def gen_sprint(tier):
    trues = ((0., 0.), (0.4, -0.2), (-0.3, 0.1))
    for modes in (1, 2):
        for g, f in ((0.5, 1.0), (1.0, 1.0), (0.5, 0.8), (0.25, 1.0)):
            for its in (1, 2, 10):
                for est in (20, 40):
                    yield {'modes': modes, 'gain': g, 'forget': f, 'its': its, 'est': est,
                           'true': trues[1:], 'init': None, 'abs': False, 'miss': ()}
    for init in ((0.2, 0.1), (0.4, -0.2)):
        for its in (1, 3):
            yield {'modes': 2, 'gain': 0.5, 'forget': 1.0, 'its': its, 'est': 20, 'true': trues,
                   'init': init, 'abs': False, 'miss': ()}
    # frames that are missing; too few of them at the time of the estimation
    for miss in ((20,), (0, 1), (5, 9), tuple(range(1, 12)), tuple(range(0, 11)), (40,), (20, 21)):
        yield {'modes': 2, 'gain': 0.5, 'forget': 1.0, 'its': 2, 'est': 20, 'true': trues[1:],
               'init': None, 'abs': False, 'miss': miss}
    # due before ten frames have come, with every single frame missing in turn
    for est in (5, 8, 9, 10, 12):
        for miss in ((),) + tuple((k,) for k in range(0, 24)):
            yield {'modes': 1, 'gain': 0.5, 'forget': 1.0, 'its': 2, 'est': est,
                   'true': trues[1:2] * (30 // est), 'init': None, 'abs': False, 'miss': miss}
    for its in (1, 2):
        yield {'modes': 2, 'gain': 0.5, 'forget': 1.0, 'its': its, 'est': 20, 'true': trues[1:2],
               'init': None, 'abs': True, 'miss': ()}


def stub_sprint():
    from specula.processing_objects.base_sprint_estimator import BaseSprintEstimator

    class Linear(BaseSprintEstimator):
        m0 = dirs = None
        calls = 0

        def _validate_wfs(self):
            pass

        def _compute_nominal_im(self):
            self.calls += 1
            return self.m0 + self.dirs @ self.to_xp(self.misreg_params)
    return Linear


def run_sprint(case, st):
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.slopes import Slopes
    from specula.lib.demodulate_signal import demodulate_signal
    from specula.processing_objects.dm import DM
    modes, npar, ns = case['modes'], 2, 8
    m0, dirs = sprint_matrices(modes, ns, npar)
    sp = simul_params(pixel_pupil=4)
    dm = DM(sp, height=0, ifunc=IFunc(np.ones((3, 16)) * np.arange(1, 4)[:, None],
                                      mask=np.ones((4, 4))))
    freq = (100., 200.)[:modes]
    est = stub_sprint()(sp, dm, None, None, None, list(range(modes)), list(freq),
                        n_params=npar, estimation_dt=case['est'] * 1e-3,
                        max_iterations=case['its'], convergence_threshold=1e-3,
                        initial_misreg=list(case['init']) if case['init'] else None,
                        apply_absolute_slopes=case['abs'],
                        integration_gain=case['gain'], forgetting_factor=case['forget'])
    est.m0, est.dirs = m0, dirs
    est.perturbations = {0: (0.01, 'a'), 1: (0.02, 'b')}
    sl = Slopes(ns)
    est.inputs['in_slopes'].set(sl)
    est.setup()
    params = np.array(case['init'] or (0., 0.), dtype=float)
    shown, stamp, err = params.copy(), est.outputs['out_misreg_params'].generation_time, 0.0
    hist, last = [], 0
    inter = None
    for k in range(case['est'] * len(case['true']) + 3):
        t = k * MS
        true = np.array(case['true'][min(k // case['est'], len(case['true']) - 1)])
        if k not in case['miss']:
            im = m0 + dirs @ true
            x = sum(im[:, m] * np.cos(2 * np.pi * freq[m] * k * 1e-3) for m in range(modes))
            sl.slopes = x.copy()
            sl.generation_time = t
            hist.append(x)
        step(est, t)
        if k not in case['miss'] and t - last >= case['est'] * MS and len(hist) >= 10:
            h = np.array(hist)
            meas = np.zeros((ns, modes))
            for m in range(modes):
                a, ph = demodulate_signal(h, freq[m], 1000.0, xp=np, dtype=np.float64)
                meas[:, m] = a * np.sign(np.cos(ph))
            if case['abs']:
                meas = np.abs(meas)
            elif not case['miss'] and case['est'] % 20 == 0 and k % 10 == 0 and np.max(np.abs(np.abs(meas) - np.abs(im))) > 0.5:
                return f'step {k}: the demodulated matrix is not that of the slopes'
            for _ in range(case['its']):
                nom = m0 + dirs @ params
                og = np.diag(np.linalg.lstsq(nom, meas, rcond=None)[0])
                diff = meas / (og + 1e-12) - nom
                delta = np.array([np.mean([dirs[:, m, p] @ diff[:, m] / (dirs[:, m, p]
                                                                         @ dirs[:, m, p])
                                           for m in range(modes)]) for p in range(npar)])
                params = params * case['forget'] + delta * case['gain']
                err = np.sqrt(np.mean(diff ** 2)) / np.sqrt(np.mean(meas ** 2))
                if err * np.mean(np.abs(og)) < 1e-3:
                    break
            hist, last, stamp, shown = [], t, t, params.copy()
            inter = m0 + dirs @ params
        outs = [est.outputs[o] for o in ('out_misreg_params', 'out_convergence_error', 'out_intmat')]
        st.step()
        st.state(np.round(np.array(outs[0].value), 9), outs[0].generation_time)
        if any(o.generation_time != stamp for o in outs):
            return f'step {k}: stamped {[o.generation_time for o in outs]}, expected {stamp}'
        if not np.allclose(outs[0].value, shown, atol=1e-5):
            return f'step {k}: parameters {outs[0].value}, expected {shown}'
        if inter is not None:
            if abs(float(outs[1].value[0]) - err) > 1e-4:
                return f'step {k}: error {outs[1].value}, expected {err}'
            if not close(np.array(outs[2].intmat), inter, 1e-5):
                return f'step {k}: the matrix is not that of the parameters'
    return None


FAMILIES = [
    Family('optical', gen_og, run_og, weight=2,
           what='optical gain: all sequences of 3 (4) arrivals of the two demodulated values of '
                'seven kinds x gains x initial values'),
    Family('gains', gen_go, run_go, weight=5, timeout=120,
           what='gain optimisation: signals x delays x options, optical gains, all stated patterns '
                'of missing frames, intervals, filters; up to 16 steps and 16 optimisations'),
    Family('print', gen_print, run_print, weight=1,
           what='printed values: all patterns of refreshes over 6 steps x 4 intervals; kinds of '
                'values x slices x prefixes x formats'),
    Family('spot', gen_spot, run_spot, weight=3,
           what='spot monitor: geometries x all sequences of 2 (3) spots, with and without noise'),
    Family('sprint', gen_sprint, run_sprint, weight=2,
           what='misregistration: modes x gains x forgetting x iterations x intervals x starting '
                'points x missing frames, on linear matrices'),
]
