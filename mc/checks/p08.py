"""P08: what is stored is what was produced, and is played back at the same times."""
import itertools
import os
import pickle
import shutil
from unittest import mock

import numpy as np

from mc.core import Family
from mc.harness import main_params, run_simul, scratch

RULE = ('every refresh history x storage option combination of the stated space is stored by the '
        'real simulator; the files, and what a reader sees when they are played back, are compared '
        'with the list of samples the producers emitted')
ASSUMPTIONS = ['at most 7 iterations, 2 producers with periodic refresh patterns',
               'values and times compared in the storage precision', 'scratch file system']


def fresh_dir(name='store'):
    d = os.path.join(scratch(), name)
    shutil.rmtree(d, ignore_errors=True)
    return d


def patterns(n):
    for L in range(1, n + 1):
        for p in itertools.product('01', repeat=L):
            p = ''.join(p)
            if L > 1 and p in ('00', '11', '000', '111'):
                continue
            yield p


def refreshed(pat, k):
    return pat[k % len(pat)] == '1'


def load(d, name, fmt):
    if fmt == 'fits':
        from astropy.io import fits
        with fits.open(os.path.join(d, name + '.fits')) as h:
            return [int(x) for x in h[1].data], np.array(h[0].data), dict(h[0].header)
    with open(os.path.join(d, name + '.pickle'), 'rb') as f:
        p = pickle.load(f)
    return [int(x) for x in p['times']], np.array(p['data']), dict(p['hdr'])


def grid(dt, n):
    return [k * dt for k in range(n)]


def base(case):
    """A simulation of two producers; returns params, and the samples each one emits."""
    n, dt = case['n'], case['dt']
    params = {'main': main_params(total_time=n * dt / 1e9, time_step=dt / 1e9)}
    for u, pat in enumerate(case['emit']):
        params[f'p{u}'] = {'class': 'McNode', 'uid': u, 'emit': pat, 'outputs': ['out']}
    return params


def emitted(case, log):
    """{producer: [(t, (v0, v1))]}: recorded by running the same producers without a store."""
    out = {}
    for u, pat in enumerate(case['emit']):
        out[u] = []
    for ev in log:
        if ev[0] == 'finalize':
            pass
    # The value of a producer without inputs is a pure function of its trigger count.
    from mc.objs import fold
    for u, pat in enumerate(case['emit']):
        acc = u + 1
        for k in range(case['n']):
            t = k * case['dt']
            acc = fold(acc, t)
            if refreshed(pat, k):
                out[u].append((t, (float(fold(acc, 0)), float(k))))
    return out


def every(case, u):
    ds = case['ds']
    if isinstance(ds, int):
        return ds
    return ds[u]


def run_store(case, st):
    import specula
    params = base(case)
    d = fresh_dir()
    store = {'class': 'DataStore', 'store_dir': d, 'create_tn': False,
             'data_format': case['fmt'],
             'inputs': {'input_list': [f's{u}-p{u}.out' for u in range(len(case['emit']))]}}
    if case['start']:
        store['start_time'] = case['start'] * case['dt'] / 1e9
    if isinstance(case['ds'], int):
        if case['ds'] != 1:
            store['downsample_factor'] = case['ds']
    else:
        store['downsample_factor_by_input'] = {f's{u}': f for u, f in enumerate(case['ds'])
                                               if f > 1}
    params['store'] = store
    _, log = run_simul(params)
    em = emitted(case, log)
    dtype = specula.cpu_float_dtype_list[specula.global_precision]
    want = {}
    for u in em:
        s = [x for x in em[u] if x[0] >= case['start'] * case['dt']]
        want[u] = s[::every(case, u)]
    ext = '.' + case['fmt']
    for u in em:
        if not want[u]:
            if os.path.exists(os.path.join(d, f's{u}{ext}')):
                t, v, _ = load(d, f's{u}', case['fmt'])
                if len(t):
                    return f'p{u} emitted nothing to store, the file holds {t}'
            continue
        try:
            t, v, h = load(d, f's{u}', case['fmt'])
        except FileNotFoundError:
            return f'samples of p{u} were not stored: {os.listdir(d)}'
        if t != [x[0] for x in want[u]]:
            return f'p{u}: stored times {t}, expected {[x[0] for x in want[u]]}'
        w = np.array([x[1] for x in want[u]], dtype=dtype)
        if v.shape != w.shape or not np.array_equal(v, w):
            return f'p{u}: stored values {v.tolist()}, expected {w.tolist()}'
        if v.dtype.itemsize != np.dtype(dtype).itemsize or v.dtype.kind != 'f':
            return f'p{u}: stored with type {v.dtype}'
        if int(h['DOWNSAMP']) != every(case, u):
            return f'p{u}: declared downsampling {h["DOWNSAMP"]}'
        st.step(len(t))
    st.state(case['n'], want)
    # ---- playback
    names = [f's{u}' for u in em if want[u]]
    if not names:
        return None
    play = {'main': main_params(total_time=case['n'] * case['dt'] / 1e9,
                                time_step=case['dt'] / 1e9),
            'src': {'class': 'DataSource', 'store_dir': d, 'data_format': case['fmt'],
                    'outputs': names}}
    for u in em:
        if want[u]:
            play[f'r{u}'] = {'class': 'McNode', 'uid': 50 + u, 'single': ['i'],
                             'inputs': {'i': f'src.s{u}'}, 'outputs': ['out']}
    _, log = run_simul(play)
    for u in em:
        if not want[u]:
            continue
        got = [(ev[2], ev[3][0][1]) for ev in log if ev[0] == 'trigger' and ev[1] == 50 + u]
        w = [(t, (int(dtype(v[0])), int(dtype(v[1])), t)) for t, v in want[u]]
        if got != w:
            return f'playback of p{u}: reader saw {got}, expected {w}'
        st.step(len(w))
    st.outcome(case['fmt'], case['ds'], case['start'], want)
    return None


DTS = {'quick': (1000000, 1000001, 2500000000), 'thorough': (1000000, 1000001, 2500000000, 7, 125000)}


def gen_store(tier):
    N = 5 if tier == 'quick' else 7
    for fmt in ('fits', 'pickle'):
        for n in range(1, N + 1):
            for pat in patterns(2 if tier == 'quick' else 3):
                for ds in (1, 2, 3, (2, 1), (1, 3)):
                    for start in (0, 1, 2):
                        dts = DTS[tier]
                        yield {'fmt': fmt, 'n': n, 'emit': (pat, '1' if pat != '1' else '01'),
                               'ds': ds, 'start': start,
                               'dt': dts[(n + start + len(pat)) % len(dts)]}


# ---------------------------------------------------------------- split storage
def run_split(case, st):
    import specula
    params = base(case)
    d = fresh_dir()
    params['store'] = {'class': 'DataStore', 'store_dir': d, 'data_format': case['fmt'],
                       'split_size': case['split'], 'first_suffix': case['first'],
                       'start_time': case['start'] * case['dt'] / 1e9,
                       'downsample_factor': case['ds'],
                       'inputs': {'input_list': [f's{u}-p{u}.out'
                                                 for u in range(len(case['emit']))]}}
    _, log = run_simul(params)
    em = emitted(case, log)
    dtype = specula.cpu_float_dtype_list[specula.global_precision]
    # the store is triggered when any input is refreshed
    trig = [k for k in range(case['start'], case['n'])
            if any(refreshed(p, k) for p in case['emit'])]
    want = {}
    for u in em:
        s = [x for x in em[u] if x[0] >= case['start'] * case['dt']][::case['ds']]
        for t, v in s:
            chunk = trig.index(t // case['dt']) // case['split'] * case['split'] + case['first']
            want.setdefault(chunk, {}).setdefault(u, []).append((t, v))
    dirs = sorted(os.listdir(d)) if os.path.exists(d) else []
    got = {}
    for x in dirs:
        chunk = int(x.rsplit('_', 1)[1])
        for u in em:
            if os.path.exists(os.path.join(d, x, f's{u}.{case["fmt"]}')):
                t, v, _ = load(os.path.join(d, x), f's{u}', case['fmt'])
                if t:
                    got.setdefault(chunk, {})[u] = [(a, tuple(b)) for a, b in zip(t, v.tolist())]
        if not os.path.exists(os.path.join(d, x, 'params.yml')):
            return f'{x} has no parameter file'
    w = {c: {u: [(t, tuple(float(dtype(y)) for y in v)) for t, v in s] for u, s in x.items()}
         for c, x in want.items()}
    if got != w:
        return f'stored chunks {got}, expected {w}'
    st.step(sum(len(s) for x in w.values() for s in x.values()))
    st.state(w)
    return None


def gen_split(tier):
    N = 6 if tier == 'quick' else 9
    for n in range(1, N + 1):
        for split in range(1, 5 if tier == 'quick' else 7):
            for emit in (('1', '1'), ('1', '01'), ('10', '010'), ('01', '001'), ('1', '0')):
                for start in (0, 1):
                    for ds in (1, 2):
                        yield {'n': n, 'split': split, 'emit': emit, 'start': start, 'ds': ds,
                               'first': 3 * (n % 2), 'dt': 1000000,
                               'fmt': ('fits', 'pickle')[(n + split) % 2]}


# ---------------------------------------------------------------- folders
def run_folders(case, st):
    from specula.processing_objects.data_store import DataStore
    from specula.base_value import BaseValue
    from specula.connections import InputValue
    d = fresh_dir()
    with mock.patch('specula.lib.utils.make_tn', lambda: '20260101_000000'):
        for i, (k, split) in enumerate(case['seq']):
            s = DataStore(store_dir=d, split_size=split, data_format=k)
            s.params = {'n': i}
            v = BaseValue(value=np.array([float(i)]))
            s.inputs['v'] = InputValue(type=BaseValue)
            s.inputs['v'].set(v)
            s.setup()
            for t in range(2):
                v.value[:] = 10 * i + t
                v.generation_time = t
                s.check_ready(t)
                s.trigger()
                s.post_trigger()
            s.finalize()
            st.step()
    got = []
    for x in sorted(os.listdir(d)):
        for fmt in ('fits', 'pickle'):
            if os.path.exists(os.path.join(d, x, 'v.' + fmt)):
                t, v, _ = load(os.path.join(d, x), 'v', fmt)
                got += [(a, b[0]) for a, b in zip(t, v.tolist())]
    want = [(t, 10.0 * i + t) for i in range(len(case['seq'])) for t in range(2)]
    if sorted(got) != sorted(want):
        return f'samples on disk {sorted(got)}, expected {sorted(want)}'
    st.state(case)
    return None


def gen_folders(tier):
    kinds = [('fits', 0), ('pickle', 0), ('fits', 1), ('pickle', 2)]
    for n in range(1, 4 if tier == 'quick' else 5):
        for seq in itertools.product(kinds, repeat=n):
            yield {'seq': seq}


# ---------------------------------------------------------------- stored types
def make_obj(kind, prec):
    from specula.base_value import BaseValue
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.layer import Layer
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes
    if kind == 'value1d':
        return BaseValue(value=np.zeros(3), precision=prec)
    if kind == 'value2d':
        return BaseValue(value=np.zeros((2, 3)), precision=prec)
    if kind == 'scalar':
        return BaseValue(value=0.0, precision=prec)
    if kind == 'field':
        return ElectricField(3, 2, 0.25, S0=7.5, precision=prec)
    if kind == 'layer':
        return Layer(3, 2, 0.25, 1000.0, shiftXYinPixel=(1.5, -2.0), rotInDeg=30.0,
                     magnification=1.5, precision=prec)
    if kind == 'pixels':
        return Pixels(3, 2, bits=16, signed=0, precision=prec)
    if kind == 'pixels8s':
        return Pixels(3, 2, bits=8, signed=1, precision=prec)
    if kind == 'intensity':
        return Intensity(3, 2, precision=prec)
    if kind == 'slopes':
        return Slopes(length=6, precision=prec)
    if kind == 'slopesI':
        return Slopes(slopes=np.zeros(6), interleave=True, precision=prec)
    raise KeyError(kind)


KINDS = ('value1d', 'value2d', 'scalar', 'field', 'layer', 'pixels', 'pixels8s', 'intensity',
         'slopes', 'slopesI')
META = {'field': ('pixel_pitch', 'S0'), 'layer': ('pixel_pitch', 'height', 'shiftXYinPixel',
                                                  'rotInDeg', 'magnification'),
        'pixels': ('bpp', 'signed'), 'pixels8s': ('bpp', 'signed'), 'slopes': ('interleave',),
        'slopesI': ('interleave',)}


def fill(kind, v, k):
    x = np.asarray(v.get_value())
    a = (np.arange(x.size).reshape(x.shape) * 3 + 17 * k + 1)
    if kind == 'pixels8s':
        a = a - 60
    if kind not in ('pixels', 'pixels8s'):
        a = a / 8.0 - 2.0
    if kind == 'scalar':
        a = float(a)
    v.set_value(a)
    return np.array(a, dtype=float)


def run_types(case, st):
    """Several objects of several types in one store, played back and compared."""
    import specula
    from specula.connections import InputValue
    from specula.processing_objects.data_source import DataSource
    from specula.processing_objects.data_store import DataStore
    d = fresh_dir()
    s = DataStore(store_dir=d, create_tn=False, data_format=case['fmt'])
    s.params = {}
    vs = {}
    for i, k in enumerate(case['kinds']):
        v = make_obj(k, specula.global_precision)
        vs[f'{k}_{i}'] = (k, v)
        s.inputs[f'{k}_{i}'] = InputValue(type=type(v))
        s.inputs[f'{k}_{i}'].set(v)
    s.setup()
    want = {}
    for t in range(3):
        for i, (name, (k, v)) in enumerate(vs.items()):
            if (t + i) % 2 == 0:
                a = fill(k, v, t)
                v.generation_time = t
                want.setdefault(name, {})[t] = a
        if s.check_ready(t):
            s.trigger()
            s.post_trigger()
    s.finalize()
    src = DataSource(outputs=list(vs), store_dir=d, data_format=case['fmt'])
    for name, (k, v) in vs.items():
        o = src.outputs[name]
        if type(o) is not type(v):
            return f'{name}: played back as {type(o).__name__}, was {type(v).__name__}'
        for a in META.get(k, ()):
            if tuple(np.atleast_1d(getattr(o, a))) != tuple(np.atleast_1d(getattr(v, a))):
                return (f'{name}: {a} played back as {getattr(o, a)}, was {getattr(v, a)}')
    last = {}
    for t in range(3):
        src.check_ready(t)
        src.trigger()
        src.post_trigger()
        for name, (k, v) in vs.items():
            o = src.outputs[name]
            fresh = t in want[name]
            if (o.generation_time == t) != fresh:
                return f'{name} at t={t}: refreshed={o.generation_time == t}, expected {fresh}'
            if fresh:
                last[name] = want[name][t]
            if name in last:
                g = np.asarray(o.get_value(), dtype=float)
                if g.shape != last[name].shape or not np.array_equal(g, last[name]):
                    return f'{name} at t={t}: value {g.tolist()}, expected {last[name].tolist()}'
            st.step()
    st.state(case)
    return None


def gen_types(tier):
    for fmt in ('fits', 'pickle'):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for kinds in itertools.product(KINDS, repeat=n):
                yield {'fmt': fmt, 'kinds': kinds}


# ---------------------------------------------------------------- buffers
def run_buffer(case, st):
    params = base(case)
    n = len(case['emit'])
    params['buf'] = {'class': 'DataBuffer', 'buffer_size': case['size'],
                     'inputs': {'input_list': [f's{u}-p{u}.out' for u in range(n)]}}
    import specula
    del specula
    from specula.processing_objects.data_buffer import DataBuffer
    got = {u: [] for u in range(n)}
    seen = {u: -1 for u in range(n)}

    def look(self):
        for u in range(n):
            o = self.outputs[f's{u}_buffered']
            if o.generation_time == self.current_time and o.value is not None and \
                    seen[u] != o.generation_time:
                seen[u] = o.generation_time
                got[u].append((o.generation_time, np.array(o.value).tolist()))

    real_t, real_f = DataBuffer.trigger_code, DataBuffer.finalize

    def trig(self):
        real_t(self)
        look(self)

    def fin(self):
        before = {u: self.outputs[f's{u}_buffered'].generation_time for u in range(n)}
        vals = {u: self.outputs[f's{u}_buffered'].value for u in range(n)}
        real_f(self)
        for u in range(n):
            o = self.outputs[f's{u}_buffered']
            if o.value is not None and (o.generation_time != before[u] or o.value is not vals[u]):
                got[u].append(('end', np.array(o.value).tolist()))
    with mock.patch.object(DataBuffer, 'trigger_code', trig), \
            mock.patch.object(DataBuffer, 'finalize', fin):
        _, log = run_simul(params)
    em = emitted(case, log)
    trig_k = [k for k in range(case['n']) if any(refreshed(p, k) for p in case['emit'])]
    for u in range(n):
        want = []
        for c in range(0, len(trig_k), case['size']):
            ks = trig_k[c:c + case['size']]
            vals = [list(v) for t, v in em[u] if t // case['dt'] in ks]
            if vals:
                full = len(ks) == case['size']
                want.append((ks[-1] * case['dt'] if full else 'end', vals))
        if got[u] != want:
            return f'p{u}: buffered {got[u]}, expected {want}'
        st.step(len(want))
    st.state(got)
    return None


def gen_buffer(tier):
    N = 6 if tier == 'quick' else 8
    for n in range(1, N + 1):
        for size in range(1, 5 if tier == 'quick' else 7):
            for emit in itertools.product(list(patterns(2)), repeat=2):
                yield {'n': n, 'size': size, 'emit': emit, 'dt': 1000000}


FAMILIES = [
    Family('store', gen_store, run_store, precisions=(0, 1), weight=8,
           what='formats x 1-5 (7) iterations x refresh patterns of 2 producers x downsampling '
                '(global, per input) x start times x time steps; files and playback compared'),
    Family('split', gen_split, run_split, weight=4,
           what='iterations x chunk size x refresh patterns x start time x downsampling: every '
                'sample is in exactly one chunk, the right one'),
    Family('folders', gen_folders, run_folders,
           what='sequences of 1-3 (4) stores created in the same second never lose samples'),
    Family('types', gen_types, run_types, precisions=(0, 1), weight=3,
           what='all 1- and 2- (3-) tuples of 10 kinds of stored objects x formats'),
    Family('buffer', gen_buffer, run_buffer, weight=4,
           what='buffer size x iterations x refresh patterns of two inputs'),
]
