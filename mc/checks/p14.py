"""P14: discrete time filters do what their coefficients say, and predict it.

The real filters are driven through every input history of a bounded length (and every sequence
of resets and gain changes) and compared step by step with the difference equation; what the
filter data say about themselves (frequency response, stability, gain limits, cut-off) is
compared with the measured behaviour of the real filters in open and closed loop."""
import itertools

import numpy as np

from mc.core import Family
from mc.harness import close, feed, main_params, run_simul, simul_params, step

RULE = ('all input histories of 4-5 steps over a 3-letter alphabet x filters x delays x gain '
        'modulations; all sequences of resets and gain changes; all update patterns of slow '
        'sensors; closed loops over a grid of gains, leaks and delays; all orders of a parameter '
        'file; every output compared at every step')
ASSUMPTIONS = ['numerator and denominator of the same length, last denominator term not zero',
               'closed loops nearer than 2% to the limit of stability are not judged']


def tol():
    import specula
    return 2e-5 if specula.global_precision else 1e-11


class Ref:
    """Difference equation, delay line and gains of a set of independent filters."""

    def __init__(self, num, den, delay, integration=True):
        self.num = np.array(num, float)
        self.den = np.array(den, float)
        self.delay = delay
        self.integration = integration
        self.reset()

    def reset(self):
        n = len(self.num)
        self.u = [np.zeros(n)] * 8
        self.y = [np.zeros(n)] * 8
        self.out = [np.zeros(n)] * 8

    def step(self, u, gm=1.0):
        n, k = self.num.shape
        self.u.append(np.broadcast_to(np.asarray(u, float), (n,)))
        acc = np.zeros(n)
        for j in range(k):
            acc = acc + self.num[:, k - 1 - j] * gm * self.u[-1 - j]
        m = self.den.shape[1]
        if self.integration:
            for j in range(1, m):
                acc = acc - self.den[:, m - 1 - j] * self.y[-j]
        acc = acc / self.den[:, -1]
        self.y.append(acc)
        self.out.append(acc)
        return self.delayed(), acc

    def delayed(self):
        lo = int(np.floor(self.delay))
        f = self.delay - lo
        res = (1 - f) * self.out[-1 - lo]
        if f:
            res = res + f * self.out[-2 - lo]
        return res


def check_out(obj, t, ref, what):
    d, now = ref
    for name, r in (('out_comm', d), ('out_comm_no_delay', now)):
        o = obj.outputs[name]
        if o.generation_time != t:
            return f'{what}: {name} has time {o.generation_time}, expected {t}'
        if not close(o.value, r, tol()):
            return f'{what}: {name} is {o.value.tolist()}, expected {r.tolist()}'
    return None


DELAYS = (0, 0.25, 0.5, 1, 1.5, 2, 2.75)
LETTERS = (0.0, 1.0, -2.0)

BANKS = {
    'int': ([[0, .5], [0, .25]], [[-1, 1], [-1, 1]]),
    'leaky': ([[0, .5], [0, 1.]], [[-.5, 1], [-.875, 1]]),
    'fir': ([[.25, .5, 1.], [1., 0, 0]], [[0, 0, 1.], [0, 0, 1.]]),
    'second': ([[.5, -.25, 1.], [0, .5, .25]], [[.25, -.5, 1], [0, -.5, 2.]]),
    'third': ([[.125, 0, -.5, 1.]], [[-.125, .25, .5, 1.]]),
}


# ------------------------------------------------------------------ IIR
def gen_iir(tier):
    n = 5 if tier == 'thorough' else 4
    for bank, d, integ, gm in itertools.product(BANKS, DELAYS, (True, False),
                                                (None, 'scalar', 'vector')):
        yield {'bank': bank, 'delay': d, 'integ': integ, 'gm': gm, 'n': n}


def run_iir(case, st):
    from specula.base_value import BaseValue
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.iir_filter import IirFilter
    num, den = BANKS[case['bank']]
    nf, k = len(num), len(num[0])
    for k0, word in enumerate(itertools.product(LETTERS, repeat=case['n'])):
        data = IirFilterData([k] * nf, [k] * nf, np.array(num, float), np.array(den, float))
        f = IirFilter(simul_params(), data, delay=case['delay'], integration=case['integ'])
        scalar_in = k0 % 2 == 1
        u = BaseValue(value=np.zeros(1 if scalar_in else nf))
        g = BaseValue(value=np.ones(nf))
        f.inputs['delta_comm'].set(u)
        if case['gm']:
            f.inputs['gain_mod'].set(g)
        u.generation_time = 0
        f.setup()
        ref = Ref(num, den, case['delay'], case['integ'])
        for t, x in enumerate(word + (0.0, 0.0, 0.0)):
            arr = np.array([x]) if scalar_in else x * (1.0 + np.arange(nf))
            feed(u, arr, t)
            gm = 1.0
            if case['gm'] == 'scalar':
                gm = 2.0 - t / 2
                g.value, g.generation_time = np.array([gm]), t
            elif case['gm'] == 'vector':
                gm = (2.0 - t / 2) * (1 + np.arange(nf))
                feed(g, gm, t)
            if not step(f, t):
                return f'{word}: step {t} not triggered'
            st.step()
            r = check_out(f, t, ref.step(arr, gm), f'input {word}, step {t}')
            if r:
                return r
            if not np.array_equal(u.value, np.asarray(arr, dtype=u.value.dtype)):
                return f'{word}: the input was changed'
            if step(f, t + 0.5):
                return f'{word}: triggered without a new input'
        st.state(f.outputs['out_comm'].value)
    st.outcome(case['bank'], case['delay'])
    return None


# ------------------------------------------------------------------ resets and gains
EVENTS = ('none', 'reset', 'gscalar', 'gvector', 'gpart', 'gnan', 'gmod', 'both', 'zero')


def gen_dyn(tier):
    n = 4 if tier == 'thorough' else 3
    for cls, d in itertools.product(('DynamicIntegrator', 'DynamicIirFilter', 'zerogain'),
                                    (0, 0.5, 1, 2)):
        for first in EVENTS:
            yield {'cls': cls, 'delay': d, 'first': first, 'n': n}


def run_dyn(case, st):
    from specula.base_value import BaseValue
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.dynamic_iir_filter import DynamicIirFilter
    from specula.processing_objects.dynamic_integrator import DynamicIntegrator
    nf = 2
    for tail in itertools.product(EVENTS, repeat=case['n'] - 1):
        word = ('none', case['first']) + tail + ('none',)
        if case['cls'] == 'DynamicIirFilter':
            num = np.array([[.25, .5], [-.5, 1.]])
            den = np.array([[-.5, 1.], [-1., 1.]])
            f = DynamicIirFilter(simul_params(), IirFilterData([2, 2], [2, 2], num, den),
                                 delay=case['delay'])
            shape = num / num[:, -1:]
            gain = num[:, -1].copy()
        else:
            gain = np.array([.5, .25 if case['cls'] == 'DynamicIntegrator' else 0.])
            ff = [1.0, .5]
            f = DynamicIntegrator(simul_params(), int_gain=gain.tolist(), ff=ff,
                                  delay=case['delay'])
            den = np.array([[-ff[0], 1.], [-ff[1], 1.]])
            shape = np.array([[0, 1.], [0, 1.]])
        u, rs, ig, gmv = (BaseValue(value=np.zeros(nf)) for _ in range(4))
        gmv.value = np.ones(nf)
        for name, v in (('delta_comm', u), ('reset', rs), ('int_gain', ig), ('gain_mod', gmv)):
            f.inputs[name].set(v)
            v.generation_time = -1
        u.generation_time = 0
        f.setup()
        ref = Ref(shape * gain[:, None], den, case['delay'])
        gm = np.ones(nf)
        for t, ev in enumerate(word):
            arr = np.array([1.0, -2.0]) * (t + 1)
            feed(u, arr, t)
            if ev in ('reset', 'both'):
                feed(rs, np.ones(1), t)
                ref.reset()
            new = None
            if ev in ('gscalar', 'both'):
                new = np.array([0.75])
                gain = np.full(nf, .75)
            elif ev == 'gvector':
                new = np.array([2.0, -.5])
                gain = new.copy()
            elif ev == 'gpart' and case['cls'] == 'DynamicIirFilter':
                new = np.array([1.5])
                gain = np.array([1.5, gain[1]])
            elif ev == 'gpart':
                new = np.array([1.5, np.nan])
                gain = np.array([1.5, gain[1]])
            elif ev == 'gnan':
                new = np.array([np.nan, .125])
                gain = np.array([gain[0], .125])
            elif ev == 'zero':
                new = np.zeros(nf)
                gain = np.zeros(nf)
            if case['cls'] == 'DynamicIirFilter' and ev in ('gscalar', 'both'):
                new = np.full(nf, .75)
            if new is not None:
                ig.value = new
                ig.generation_time = t
            if ev == 'gmod':
                gm = np.array([.5, 3.0])
                feed(gmv, gm, t)
            ref.num = shape * gain[:, None]
            step(f, t)
            st.step()
            r = check_out(f, t, ref.step(arr, gm), f'events {word}, step {t}')
            if r:
                return r
        st.state(f.outputs['out_comm'].value, gain)
    st.outcome(case['cls'], case['first'])
    return None


# ------------------------------------------------------------------ integrators and state space
def gen_forms(tier):
    gains = ([.5], [.5, .25], [1.0, .75, .125])
    for g in gains:
        for ff in (None, 'one', 'all'):
            for nm in (None, 'list', 'int'):
                if nm == 'int' and len(g) != 1:
                    continue
                for d in (0, .5, 1, 2.25):
                    yield {'gain': g, 'ff': ff, 'nm': nm, 'delay': d}


def run_forms(case, st):
    """The ways of describing one leaky integrator are the same filter."""
    from specula.base_value import BaseValue
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.data_objects.ssr_filter_data import SsrFilterData
    from specula.processing_objects.iir_filter import IirFilter
    from specula.processing_objects.integrator import Integrator
    from specula.processing_objects.ssr_filter import SsrFilter
    g = case['gain']
    n = len(g)
    ff = {None: None, 'one': [.5], 'all': [.5 + .125 * i for i in range(n)]}[case['ff']]
    nm = {None: None, 'list': [i + 1 for i in range(n)], 'int': 3}[case['nm']]
    if nm is not None and case['ff'] == 'one' and n > 1:
        ff = [.5] * n
    reps = [1] * n if nm is None else ([nm] if isinstance(nm, int) else nm)
    ffl = [1.0] * n if ff is None else (ff * n if len(ff) == 1 else ff)
    G = [v for v, r in zip(g, reps) for _ in range(r)]
    F = [v for v, r in zip(ffl, reps) for _ in range(r)]
    N = len(G)
    num = [[0, v] for v in G]
    den = [[-v, 1] for v in F]
    sp = simul_params()
    d = case['delay']

    def m(v):
        return np.array([[float(v)]])
    objs = {
        'Integrator': Integrator(sp, int_gain=list(g), ff=ff, n_modes=nm, delay=d),
        'IirFilter': IirFilter(sp, IirFilterData.from_gain_and_ff(G, ff=F), delay=d),
        'IirFilter n_modes': IirFilter(sp, IirFilterData(
            [2] * n, [2] * n, [[0, v] for v in g], [[-v, 1] for v in ffl], n_modes=reps), delay=d),
        'SsrFilter': SsrFilter(sp, SsrFilterData.from_integrator(G, ff=F), delay=d),
        'SsrFilter old state': SsrFilter(sp, SsrFilterData(
            [m(v) for v in F], [m(v) for v in G], [m(v) for v in F], [m(v) for v in G]),
            delay=d, output_uses_new_state=False),
        'SsrFilter lists': SsrFilter(sp, SsrFilterData(F, G, [1.0] * N, [0.0] * N), delay=d),
        'SsrFilter arrays': SsrFilter(sp, SsrFilterData(
            np.array(F), np.array(G), np.ones(N), np.zeros(N)), delay=d),
        'SsrFilter n_modes': SsrFilter(sp, SsrFilterData(
            [m(v) for v in ffl], [m(v) for v in g], [m(1)] * n, [m(0)] * n, n_modes=reps), delay=d),
        'SsrFilter matrices': SsrFilter(sp, SsrFilterData(
            np.diag(F), np.diag(G), np.eye(N), np.zeros((N, N))), delay=d),
    }
    us = {}
    for k, o in objs.items():
        u = us[k] = BaseValue(value=np.zeros(N))
        o.inputs['delta_comm'].set(u)
        u.generation_time = 0
        o.setup()
    ref = Ref(num, den, d)
    for t, x in enumerate((1.0, -2.0, 0.0, 0.5, 0.0, 3.0)):
        arr = x * (1.0 + np.arange(N))
        r = ref.step(arr)
        for k, o in objs.items():
            feed(us[k], arr, t)
            step(o, t)
            st.step()
            e = check_out(o, t, r, f'{k}, step {t}')
            if e:
                return e
        st.state(r[0])
    st.outcome(N, d)
    return None


def gen_ssr(tier):
    for new, d, gm, reset in itertools.product((True, False), (0, .5, 1, 2), (False, True),
                                               (None, 1, 2)):
        yield {'new': new, 'delay': d, 'gm': gm, 'reset': reset, 'n': 4 if tier != 'thorough' else 5}


def run_ssr(case, st):
    from specula.base_value import BaseValue
    from specula.data_objects.ssr_filter_data import SsrFilterData
    from specula.processing_objects.ssr_filter import SsrFilter
    A1 = np.array([[.5, .25], [-.25, .75]])
    B1 = np.array([[1.], [.5]])
    C1 = np.array([[1., -1.]])
    D1 = np.array([[.25]])
    A2, B2, C2, D2 = np.array([[.5]]), np.array([[2.]]), np.array([[-1.]]), np.array([[0.]])
    for word in itertools.product(LETTERS, repeat=case['n']):
        f = SsrFilter(simul_params(), SsrFilterData([A1, A2], [B1, B2], [C1, C2], [D1, D2]),
                      delay=case['delay'], output_uses_new_state=case['new'])
        u, g = BaseValue(value=np.zeros(2)), BaseValue(value=np.ones(2))
        f.inputs['delta_comm'].set(u)
        if case['gm']:
            f.inputs['gain_mod'].set(g)
        u.generation_time = 0
        f.setup()
        xs = [np.zeros(2), np.zeros(1)]
        dl = Ref(np.zeros((2, 2)), np.ones((2, 2)), case['delay'])
        for t, w in enumerate(word + (0., 0.)):
            arr = w * np.array([1., 3.])
            gm = np.array([1., 1.])
            if case['gm']:
                gm = np.array([t + 1., -1.])
                feed(g, gm, t)
            if case['reset'] == t:
                f.reset_states()
                xs = [np.zeros(2), np.zeros(1)]
                dl.reset()
            feed(u, arr, t)
            step(f, t)
            st.step()
            y = []
            for i, (A, B, C, D) in enumerate(((A1, B1, C1, D1), (A2, B2, C2, D2))):
                v = arr[i] * gm[i]
                xn = A @ xs[i] + B[:, 0] * v
                y.append((C @ (xn if case['new'] else xs[i]))[0] + D[0, 0] * v)
                xs[i] = xn
            y = np.array(y)
            dl.out.append(y)
            r = check_out(f, t, (dl.delayed(), y), f'input {word}, step {t}')
            if r:
                return r
        st.state(y)
    st.outcome(case['new'], case['delay'])
    return None


# ------------------------------------------------------------------ multirate fusion
def gen_multirate(tier):
    Ns = ([1], [2], [3], [2, 3], [2, 2], [1, 4]) + (([5], [3, 4], [2, 3, 4])
                                                    if tier == 'thorough' else ())
    for N in Ns:
        for w0, gt, d, vec in itertools.product((1.0, .5, 3.0), (0.25, 0., 1.0), (0, .5, 1),
                                                (False, True)):
            yield {'N': N, 'w0': w0, 'g': gt, 'delay': d, 'vec': vec}


def run_multirate(case, st):
    from specula.base_value import BaseValue
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.multirate_complementary_filter import \
        MultirateComplementaryFilter
    N = case['N']
    ns = len(N)
    nf = 2
    w = [case['w0']] + [1.0 + i for i in range(ns)]
    num, den = [[.1, .5], [-.2, .25]], [[-1, 1.], [-.5, 1]]
    f = MultirateComplementaryFilter(
        simul_params(), IirFilterData([2, 2], [2, 2], np.array(num), np.array(den)),
        g_track=case['g'], weights=w, N_list=N, delay=case['delay'],
        idx_yf=list(range(nf)) if case['vec'] else None,
        idx_ys=[list(range(nf * (i + 1), nf * (i + 2))) for i in range(ns)] if case['vec'] else None)
    yf = BaseValue(value=np.zeros(nf))
    ys = [BaseValue(value=np.zeros(nf)) for _ in N]
    vec = BaseValue(value=np.zeros(nf * (ns + 1)))
    if case['vec']:
        f.inputs['in_vec'].set(vec)
    else:
        f.inputs['in_yf'].set(yf)
        f.inputs['in_ys'].set(ys)
        for y in ys:
            y.generation_time = -1
    vec.generation_time = yf.generation_time = 0
    f.setup()
    ref = Ref(num, den, case['delay'])
    tot = sum(w)
    prev = np.zeros(nf)
    slow = [np.zeros(nf)] * ns
    for t in range(9):
        fast = np.array([1., -2.]) * 2.0 ** (t % 5) + t
        u = fast * (1 + case['g'] * w[0] / tot) - prev
        for i in range(ns):
            if (t + 1) % N[i] == 0:
                slow[i] = np.array([3., 1.]) * (i + 1) + t
                u = u + case['g'] * w[i + 1] / tot * N[i] * slow[i]
                if not case['vec']:
                    feed(ys[i], slow[i], t)
        prev = fast
        feed(yf, fast, t)
        feed(vec, np.concatenate([fast] + slow), t)
        step(f, t)
        st.step()
        r = check_out(f, t, ref.step(u), f'frame {t}')
        if r:
            return r
        if not case['vec'] and not np.array_equal(yf.value, np.asarray(fast, yf.value.dtype)):
            return f'frame {t}: the input was changed'
    st.state(case['N'], f.outputs['out_comm'].value)
    st.outcome(case['N'])
    return None


def gen_sync(tier):
    frames = 5 if tier == 'thorough' else 4
    for n in range(1, 5):
        for pat in itertools.product((0, 1), repeat=frames):
            yield {'N': n, 'pat': list(pat)}


def run_sync(case, st):
    """Of all update patterns of a slow sensor only the right one is accepted."""
    from specula.base_value import BaseValue
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.multirate_complementary_filter import \
        MultirateComplementaryFilter
    for validate in (True, False):
        f = MultirateComplementaryFilter(
            simul_params(), IirFilterData.from_gain_and_ff([.5]), g_track=.5, weights=[1., 1.],
            N_list=[case['N']], validate_sync=validate)
        yf, ys = BaseValue(value=np.zeros(1)), BaseValue(value=np.zeros(1))
        f.inputs['in_yf'].set(yf)
        f.inputs['in_ys'].set([ys])
        ys.generation_time = -1
        yf.generation_time = 0
        f.setup()
        for t, upd in enumerate(case['pat']):
            feed(yf, np.ones(1), t)
            if upd:
                feed(ys, np.ones(1), t)
            expect = validate and bool(upd) != ((t + 1) % case['N'] == 0)
            st.step()
            try:
                step(f, t)
                err = False
            except RuntimeError:
                err = True
            if err != expect:
                return f'frame {t}, validate={validate}: ' + \
                    ('refused' if err else 'accepted')
            if err:
                break
        st.outcome(t, err)
    return None


# ------------------------------------------------------------------ predictions
def measure(data, u, delay=0, integration=True, loop=None):
    """Output of the real filter; with loop=True `u` is the disturbance of a closed loop whose
    correction is the command of the previous step. Returns (errors or inputs, commands)."""
    from specula.base_value import BaseValue
    from specula.processing_objects.iir_filter import IirFilter
    f = IirFilter(simul_params(), data, delay=delay, integration=integration)
    nf = data.nfilter
    v = BaseValue(value=np.zeros(nf))
    f.inputs['delta_comm'].set(v)
    v.generation_time = 0
    f.setup()
    es, ys = [], []
    y = np.zeros(nf)
    for t, x in enumerate(u):
        e = np.full(nf, x) - (y if loop else 0)
        feed(v, e, t)
        step(f, t)
        y = np.array(f.outputs['out_comm'].value)
        es.append(np.array(v.value))
        ys.append(y)
        if np.max(np.abs(y)) > 1e12:
            break
    return np.array(es), np.array(ys)


def gen_stable(tier):
    gains = [.05, .2, .35, .5, .6, .75, .9, 1.1, 1.4, 1.8, 1.95, 2.1, 2.5]
    if tier == 'thorough':
        gains = [.05 * i for i in range(1, 60)]
    for g in gains:
        for ff in (1.0, .9, .5, 0.):
            for d in (0, .25, .5, 1, 1.5, 2, 3):
                yield {'g': g, 'ff': ff, 'd': d}


def run_stable(case, st):
    """is_stable() says whether the loop closed on the real filter decays."""
    from specula.data_objects.iir_filter_data import IirFilterData
    data = IirFilterData.from_gain_and_ff([case['g']], ff=[case['ff']])
    num, den = data.discrete_delay_tf(case['d'] + 1)
    pred = bool(data.is_stable(0, dm=np.array([1.0]), nw=num, dw=den))
    n = 600
    es, _ = measure(data, [1.0] + [0.0] * (n - 1), delay=case['d'], loop=True)
    st.step(len(es))
    e = np.abs(es[:, 0])
    if len(e) < n:
        rate = 2.0
    else:
        a, b = e[100:150].max(), e[550:600].max()
        rate = (b / a) ** (1 / 450) if a > 1e-250 and b > 1e-290 else 0.0
    st.state(round(rate, 4))
    st.outcome(pred)
    if abs(rate - 1) < .01:
        return None
    if pred != (rate < 1):
        return f'predicted {"stable" if pred else "unstable"}, the measured loop changes by ' \
               f'{rate:.3f} per step'
    return None


def gen_maxgain(tier):
    for ff in (1.0, .9, .5):
        for d in (0, .5, 1, 1.5, 2):
            for n in (21, 47):
                yield {'ff': ff, 'd': d, 'n': n}


def run_maxgain(case, st):
    """max_stable_gain() is the last gain of its grid before the real loop diverges."""
    from specula.data_objects.iir_filter_data import IirFilterData
    data = IirFilterData.from_gain_and_ff([.3, .6], ff=[case['ff']])
    top = 3.0
    gm = data.max_stable_gain(delay=case['d'] + 1, max_gain=top, n_gain=case['n'])
    if not close(gm, [gm[0], gm[0]], 1e-9):
        return f'the limit depends on the present gain: {gm.tolist()}'
    one = data.max_stable_gain(mode=1, delay=case['d'] + 1, max_gain=top, n_gain=case['n'])
    if one != gm[1]:
        return 'one mode and all modes differ'
    grid = np.linspace(1e-6, top, case['n'])
    last = 0.0
    for g in grid:
        d = IirFilterData.from_gain_and_ff([g], ff=[case['ff']])
        es, _ = measure(d, [1.0] + [0.0] * 399, delay=case['d'], loop=True)
        st.step(len(es))
        e = np.abs(es[:, 0])
        if len(e) < 400:
            rate = 2.0
        else:
            a, b = e[50:100].max(), e[350:400].max()
            rate = (b / a) ** (1 / 300) if a > 1e-250 and b > 1e-290 else 0.0
        if g > 1e-3 and abs(rate - 1) < .004:
            return None          # a grid point on the limit itself
        if g <= 1e-3 or rate < 1:
            last = g
        else:
            break
    st.state(last)
    st.outcome(round(last, 3))
    if abs(last - gm[0]) > 1e-6:
        return f'predicted {gm[0]:.4f}, measured {last:.4f} on the same grid'
    return None


FREQS = (0., 10., 37.5, 100., 125., 250., 400., 499.)


def dft(x, freqs, fs):
    k = np.arange(len(x))
    return np.array([np.sum(x * np.exp(-2j * np.pi * f / fs * k)) for f in freqs])


def gen_response(tier):
    for ff in (.9, .5, 0.):
        for g in (.1, .5, 1.0):
            yield {'kind': 'gain', 'g': g, 'ff': ff}
    for b in ('fir', 'second', 'third'):
        yield {'kind': 'bank', 'bank': b}
    for fc in (20., 50., 125., 200., 400.):
        for n in (1, 2, 4, 6):
            yield {'kind': 'lpf', 'fc': fc, 'n': n}
        for amp in (.5, 1., 2., 5.):
            yield {'kind': 'ampl', 'fc': fc, 'amp': amp}


def run_response(case, st):
    """Frequency response, rejection and noise functions are those measured on the filter."""
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.low_pass_filter import LowPassFilter
    from scipy import signal
    import control
    fs = 1000.0
    k = case['kind']
    if k == 'gain':
        data = IirFilterData.from_gain_and_ff([case['g']], ff=[case['ff']])
    elif k == 'bank':
        num, den = BANKS[case['bank']]
        o = [len(num[0])] * len(num)
        data = IirFilterData(o, o, np.array(num, float), np.array(den, float))
    elif k == 'lpf':
        data = IirFilterData.lpf_from_fc(case['fc'], fs, n_ord=case['n'])
        flt = LowPassFilter(simul_params(time_step=1 / fs), cutoff_freq=case['fc'],
                            n_ord=case['n'])
    else:
        data = IirFilterData.lpf_from_fc_and_ampl(case['fc'], case['amp'], fs)
        flt = LowPassFilter(simul_params(time_step=1 / fs), cutoff_freq=case['fc'],
                            amplif_fact=case['amp'])
    n = 3000
    freqs = np.array(FREQS + ((case['fc'],) if 'fc' in case else ()))
    _, imp = measure(data, [1.0] + [0.0] * (n - 1))
    for m in range(data.nfilter):
        st.step(n)
        H = dft(imp[:, m], freqs, fs)
        got = data.frequency_response(data.num[m], data.den[m], fs, freq=freqs)
        if not close(got, H, 1e-8):
            return f'frequency_response of filter {m}: {got}, measured {H}'
        tf = data.to_control_tf(m, dt=1 / fs)
        back = IirFilterData.from_control_tf(tf)
        _, imp2 = measure(back, [1.0] + [0.0] * 30)
        if not close(imp2[:, 0], imp[:31, m], 1e-9):
            return f'filter {m} converted to a control transfer function and back: impulse ' \
                   f'response {imp2[:6, 0].tolist()}, expected {imp[:6, m].tolist()}'
        for d in (0, .5, 1, 2):
            es, _ = measure(data, [1.0] + [0.0] * (n - 1), delay=d, loop=True)
            if len(es) < n or np.max(np.abs(es[-100:, m])) > 1e-10:
                continue
            pn, pd = data.discrete_delay_tf(d + 1)
            st.step(n)
            E = np.abs(dft(es[:, m], freqs, fs))
            r = data.RTF(m, fs, freq=freqs, dm=np.array([1.0]), nw=pn, dw=pd, plot=False)
            if not close(r, E, 1e-7):
                return f'RTF of filter {m}, delay {d}: {r}, measured {E}'
            N = np.abs(dft(np.eye(n)[0] - es[:, m], freqs, fs))
            r = data.NTF(m, fs, freq=freqs, dm=np.array([1.0]), nw=pn, dw=pd, plot=False)
            if not close(r, N, 1e-7):
                return f'NTF of filter {m}, delay {d}: {r}, measured {N}'
        st.state(H)
    if k in ('lpf', 'ampl'):
        for a, b in ((flt.iir_filter_data.num, data.num), (flt.iir_filter_data.den, data.den)):
            if not close(a, b, 1e-9):
                return 'the LowPassFilter object has other coefficients'
        H = dft(imp[:, 0], freqs, fs)
        if abs(H[0] - 1) > 1e-6:
            return f'response to constants is {H[0]}, not 1'
        if k == 'lpf' and case['n'] > 1:
            b, a = signal.butter(case['n'], case['fc'], fs=fs)
            x = signal.lfilter(b, a, np.eye(n)[0])
            if not close(imp[:200, 0], x[:200], 1e-6):
                return f'not the Butterworth filter of order {case["n"]}: {imp[:5, 0]}, {x[:5]}'
        elif k == 'lpf':
            w = np.tan(np.pi * case['fc'] / fs)
            p = 1 / (1 + w)
            if not close(imp[:50, 0], (1 - p) * p ** np.arange(50), 1e-6):
                return 'not the first order low pass filter'
        else:
            if abs(abs(H[-1]) - case['amp']) > 1e-6:
                return f'gain {abs(H[-1])} at the cut-off frequency, expected {case["amp"]}'
    st.outcome(case['kind'])
    return None


def gen_proper(tier):
    for nd in range(1, 5):
        for nn in range(1, nd + 1):
            for other in range(0, 5):
                yield {'nd': nd, 'nn': nn, 'other': other}


def run_proper(case, st):
    """Transfer functions of the control library become the same filter, delays included."""
    from specula.data_objects.iir_filter_data import IirFilterData
    from scipy import signal
    import control
    tfs = []
    for nn, nd in ((case['nn'], case['nd']),) + (((1, case['other']),) if case['other'] else ()):
        tfs.append(([1.0 + i for i in range(nn)], [1.0] + [.5 / (i + 1) for i in range(nd - 1)]))
    data = IirFilterData.from_control_tf([control.TransferFunction(b, a, 1.0) for b, a in tfs])
    _, imp = measure(data, [1.0] + [0.0] * 12)
    st.step(13)
    for m, (b, a) in enumerate(tfs):
        x = signal.lfilter([0.] * (len(a) - len(b)) + b, a, np.eye(13)[0])
        if not close(imp[:, m], x, 1e-9):
            return f'{b} / {a}: impulse response {imp[:6, m].tolist()}, expected {x[:6].tolist()}'
        t2 = data.to_control_tf(m, dt=1.0)
        if not (close(t2.num[0][0], b, 1e-12) and close(t2.den[0][0], a, 1e-12)):
            return f'{b} / {a} becomes {t2.num[0][0]} / {t2.den[0][0]}'
    st.state(imp)
    st.outcome(case['nn'], case['nd'])
    return None


# ------------------------------------------------------------------ in a simulation
def gen_simul(tier):
    for d in (0, .5, 1, 2):
        for perm in itertools.permutations(('gen', 'ctrl', 'late', 'now')):
            for cls in ('Integrator', 'SsrFilter'):
                yield {'delay': d, 'perm': list(perm), 'cls': cls}


def run_sim(case, st):
    """Readers of the command, direct or one step late, whatever the order of the file."""
    ctrl = {'simul_params_ref': 'main', 'delay': case['delay'],
            'inputs': {'delta_comm': 'gen.output'}}
    extra = {}
    if case['cls'] == 'Integrator':
        ctrl.update({'class': 'Integrator', 'int_gain': [0.5]})
    else:
        ctrl.update({'class': 'SsrFilter', 'ssr_filter_data_ref': 'ssr'})
        extra = {'ssr': {'class': 'SsrFilterData', 'A': 1.0, 'B': 0.5, 'C': 1.0, 'D': 0.0}}
    objs = {'gen': {'class': 'WaveGenerator', 'constant': [1.0], 'slope': [250.0], 'vsize': 1},
            'ctrl': ctrl,
            'late': {'class': 'BaseOperation', 'sum': True,
                     'inputs': {'in_value1': 'ctrl.out_comm:-1', 'in_value2': 'gen.output'}},
            'buf': {'class': 'DataBuffer', 'buffer_size': 6,
                    'inputs': {'input_list': ['l-late.out_value']}},
            'now': {'class': 'DataBuffer', 'buffer_size': 6,
                    'inputs': {'input_list': ['x-ctrl.out_comm', 'y-ctrl.out_comm_no_delay']}}}
    p = {'main': main_params(total_time=0.006), **extra}
    for k in case['perm'] + ['buf']:
        p[k] = objs[k]
    s, _ = run_simul(p)
    ref = Ref([[0, .5]], [[-1, 1]], case['delay'])
    us = [1.0 + .25 * i for i in range(6)]
    outs = [ref.step(u) for u in us]
    x = [float(o[0][0]) for o in outs]
    y = [float(o[1][0]) for o in outs]
    st.step(6)
    st.state(x)
    st.outcome(case['delay'], s.trigger_order)
    for name, key, r in (('now', 'x_buffered', x), ('now', 'y_buffered', y),
                         ('buf', 'l_buffered', [a + b for a, b in
                                                     zip(us, [0.0] + x[:-1])])):
        got = np.array(s.objs[name].outputs[key].value).reshape(-1)
        if not close(got, r, 1e-9):
            return f'{name}.{key}: {got.tolist()}, expected {r}'
    return None


FAMILIES = [
    Family('iir', gen_iir, run_iir, precisions=(0, 1), weight=6,
           what='filters x delays x gain modulation x all input words'),
    Family('dyn', gen_dyn, run_dyn, precisions=(0,), weight=6,
           what='all sequences of resets and gain changes'),
    Family('forms', gen_forms, run_forms, precisions=(0, 1), weight=1,
           what='descriptions of the same integrator'),
    Family('ssr', gen_ssr, run_ssr, precisions=(0,), weight=2, what='state space filters'),
    Family('multirate', gen_multirate, run_multirate, precisions=(0, 1), weight=1,
           what='rates, weights, gains, delays'),
    Family('sync', gen_sync, run_sync, precisions=(0,), weight=1,
           what='all update patterns of a slow sensor'),
    Family('stable', gen_stable, run_stable, precisions=(0,), weight=4, what='closed loops'),
    Family('maxgain', gen_maxgain, run_maxgain, precisions=(0,), weight=4,
           what='gain limits by closing the loop at every grid gain'),
    Family('response', gen_response, run_response, precisions=(0,), weight=4,
           what='measured frequency responses'),
    Family('proper', gen_proper, run_proper, precisions=(0,), weight=1,
           what='degrees of transfer functions'),
    Family('simul', gen_simul, run_sim, precisions=(0,), weight=1,
           what='orders of the parameter file'),
]
