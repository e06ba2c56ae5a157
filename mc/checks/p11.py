"""P11: files kept for later runs (phase screens, laser kernels, calibrations, stored chunks).

Histories of runs sharing a folder, all interleavings (bounded preemptions) of two or three runs
at the level of file operations, and a kill at every file operation and half-written block; after
each the real code reads what is there and must get what it computes in an empty folder."""
import itertools
import os
import shutil

import numpy as np

from mc import lgs, sched
from mc.checks.p21 import quiet
from mc.core import Family
from mc.fsops import controlled
from mc.harness import close, scratch, step

RULE = ('all ordered pairs of parameter sets and profiles (return to the first one included) on a '
        'shared folder; all sequences of profile changes; all schedules of the file operations of '
        'two or three runs up to a preemption bound; a kill at every file operation; all subsets '
        'of existing result files x overwrite')
ASSUMPTIONS = ['runs sharing a folder are emulated by threads with their own process id, one at a '
               'time, switched at file operations (existence tests, creation, each half block '
               'written, rename, removal)',
               'a killed run leaves what it wrote, in order (no reordering by the disk)',
               'CPU arrays, kernels of 1 to 3 lenses']

PROFILES = [([85e3, 90e3, 95e3], [0.3, 0.5, 0.2]), ([85e3, 90e3, 95e3], [0.5, 0.3, 0.2]),
            ([80e3, 90e3], [1.0, 2.0]), ([85e3, 90e3, 95.5e3], [0.3, 0.5, 0.2])]
BASE = dict(dimx=2, dimy=2, pxscale=0.3, pupil_size_m=8.0, dimension=6,
            launcher_pos=[5.0, 1.0, 0.0], seeing=0.6, launcher_size=0.3, zfocus=90e3,
            theta=[0.0, 0.0], airmass=1.0, oversampling=1, return_fft=True,
            positive_shift_tt=True)
ALT = [dict(dimx=3, dimy=3), dict(dimx=1, dimy=1), dict(pxscale=0.3001), dict(pupil_size_m=8.1),
       dict(dimension=7), dict(launcher_pos=[1.0, 5.0, 0.0]), dict(launcher_pos=[5.0, 1.0, 10.0]),
       dict(seeing=0.0), dict(launcher_size=0.4), dict(zfocus=-1), dict(zfocus=91e3),
       dict(theta=[0.1, 0.0]), dict(theta=[0.0, 0.1]), dict(airmass=1.2), dict(oversampling=2),
       dict(return_fft=False), dict(positive_shift_tt=False)]
GBASE = dict(dimx=2, dimy=2, pxscale=0.3, pupil_size_m=8.0, dimension=6, spot_size=0.7,
             return_fft=True, positive_shift_tt=True)
GALT = [dict(dimx=3, dimy=3), dict(dimx=1, dimy=1), dict(pxscale=0.31), dict(pupil_size_m=8.1),
        dict(dimension=7), dict(spot_size=0.9), dict(return_fft=False),
        dict(positive_shift_tt=False)]
CONFS = [('lgs', BASE)] + [('lgs', {**BASE, **a}) for a in ALT] + \
        [('gauss', GBASE)] + [('gauss', {**GBASE, **a}) for a in GALT]
TOL = 3e-6


def folder(name):
    d = os.path.join(scratch(), name)
    shutil.rmtree(d, ignore_errors=True)
    return d


_refs = {}


def kernel_ref(kind, c, prof):
    key = repr((kind, sorted(c.items()), prof))
    if key not in _refs:
        if kind == 'lgs':
            am = c['airmass']
            ref = lgs.kernels(c['dimx'], c['pupil_size_m'], c['pxscale'], c['dimension'],
                              c['launcher_pos'], np.hypot(c['seeing'], c['launcher_size']),
                              c['zfocus'] * am if c['zfocus'] != -1 else -1,
                              [h * am for h in prof[0]], prof[1], c['theta'], c['oversampling'],
                              c['positive_shift_tt'])
        else:
            ref = lgs.kernels(c['dimx'], c['pupil_size_m'], c['pxscale'], c['dimension'],
                              (0, 0, 0), c['spot_size'], 90e3, [90e3], [1.0],
                              positive=c['positive_shift_tt'])
        _refs[key] = np.fft.ifft2(ref) if c['return_fft'] else ref
    return _refs[key]


def make_kernel(kind, c, d, precision=None):
    from specula.data_objects.convolution_kernel import ConvolutionKernel
    from specula.data_objects.gaussian_convolution_kernel import GaussianConvolutionKernel
    cls = ConvolutionKernel if kind == 'lgs' else GaussianConvolutionKernel
    return cls(**c, data_dir=d, precision=precision)


def prepare(k, prof, t, as_list=False):
    h, p = prof if as_list else (np.array(prof[0]), np.array(prof[1]))
    with quiet():
        k.prepare_for_sh(h, p, t)


def judge(k, kind, c, prof, t, what):
    ref = kernel_ref(kind, c, prof)
    if k.generation_time != t:
        return f'{what}: stamped {k.generation_time} at {t}'
    got = np.asarray(k.kernels)
    if np.iscomplexobj(got) != np.iscomplexobj(ref):
        return f'{what}: kernels are {got.dtype}'
    if not close(got, ref, TOL):
        e = np.abs(got - ref).max() / np.abs(ref).max()
        return f'{what}: the kernels differ by {e:.3g} of the largest one from those of a new folder'
    return None


def changed(c):
    return {k: v for k, v in c.items() if (BASE if 'airmass' in c else GBASE).get(k) != v}


# ------------------------------------------------------------------ histories of kernels
def gen_kernels(tier):
    for i in range(len(CONFS)):
        for j in range(len(PROFILES) if CONFS[i][0] == 'lgs' else 1):
            yield {'first': [i, j], 'deep': tier == 'thorough'}


def run_kernels(case, st):
    """Another run, then the present one, then back to the first object with another profile."""
    i1, j1 = case['first']
    d = folder('p11k')
    second = [(i, j) for i in range(len(CONFS))
              for j in range(len(PROFILES) if CONFS[i][0] == 'lgs' else 1)]
    for i2, j2 in second:
        for p1, p2 in ((None, None), (None, 1), (1, None)):
            if (p1 is not None or p2 is not None) and j2 and not case['deep']:
                continue
            shutil.rmtree(d, ignore_errors=True)
            (k1, c1), (k2, c2) = CONFS[i1], CONFS[i2]
            a = make_kernel(k1, c1, d, p1)
            b = make_kernel(k2, c2, d, p2)
            f1, f2 = PROFILES[j1], PROFILES[j2]
            f3 = PROFILES[(j1 + 1) % 2]
            what = f'{k1} {changed(c1)} profile {j1}, {k2} {changed(c2)} profile {j2}'
            t = 0
            for o, k, c, f in ((a, k1, c1, f1), (b, k2, c2, f2), (a, k1, c1, f3), (a, k1, c1, f1),
                               (b, k2, c2, f2), (make_kernel(k2, c2, d, p2), k2, c2, f2)):
                t += 1
                prepare(o, f, t, as_list=t % 2 == 0)
                st.step()
                msg = judge(o, k, c, f, t, f'{what}, step {t}')
                if msg:
                    return msg
            # nothing of the others was lost by it
            for o, k, c, f, tt in ((a, k1, c1, f1, 4), (b, k2, c2, f2, 5)):
                msg = judge(o, k, c, f, tt, f'{what}, at the end')
                if msg:
                    return msg
        st.state((i1, j1, i2, j2))
    st.outcome(k1)
    return None


# ------------------------------------------------------------------ attributes and profiles
CHANGES = {'lgs': [('seeing', 0.9), ('launcher_size', 0.1), ('zfocus', -1), ('profile', 1),
                   ('profile', 2), ('theta', [0.1, -0.1]), ('none', None), ('seeing', 0.6),
                   ('zfocus', 90e3), ('profile', 0)],
           'gauss': [('spot_size', 0.9), ('pxscale', 0.31), ('positive_shift_tt', False),
                     ('none', None), ('spot_size', 0.7), ('pxscale', 0.3)]}


def gen_attrs(tier):
    n = 4 if tier == 'thorough' else 3
    for kind in CHANGES:
        for fft in (True, False):
            for head in range(len(CHANGES[kind])):
                yield {'kind': kind, 'n': n + (kind == 'gauss'), 'head': head, 'fft': fft}


def run_attrs(case, st):
    kind = case['kind']
    al = CHANGES[kind]
    d = folder('p11a')
    for word in itertools.product(range(len(al)), repeat=case['n'] - 1):
        word = (case['head'],) + word
        if sum(word) % 5 == 0:
            shutil.rmtree(d, ignore_errors=True)
        c = dict(BASE if kind == 'lgs' else GBASE, return_fft=case['fft'])
        k = make_kernel(kind, c, d)
        prof = 0
        prepare(k, PROFILES[0], 1)
        for t, w in enumerate(word):
            name, v = al[w]
            if name == 'profile':
                prof = v
            elif name != 'none':
                setattr(k, name, np.array(v) if isinstance(v, list) else v)
                c[name] = v
            prepare(k, PROFILES[prof], t + 2)
            st.step()
            msg = judge(k, kind, c, PROFILES[prof], t + 2, f'{kind} {[al[x] for x in word[:t + 1]]}')
            if msg:
                return msg
        st.state((kind, word))
    st.outcome(kind, case['head'])
    return None


# ------------------------------------------------------------------ screens
SCREENS = [dict(seed=1, dim=16, pitch=0.1, L0=20.0, prec=0), dict(seed=2, dim=16, pitch=0.1, L0=20.0, prec=0),
           dict(seed=1, dim=32, pitch=0.1, L0=20.0, prec=0), dict(seed=1, dim=16, pitch=0.1004, L0=20.0, prec=0),
           dict(seed=1, dim=16, pitch=0.2, L0=20.0, prec=0), dict(seed=1, dim=16, pitch=0.1, L0=25.0, prec=0),
           dict(seed=1, dim=16, pitch=0.1, L0=20.00004, prec=0), dict(seed=1, dim=16, pitch=0.1, L0=20.0, prec=1),
           dict(seed=12, dim=16, pitch=0.1, L0=2.0, prec=0), dict(seed=1, dim=16, pitch=0.1, L0=1e6, prec=1)]
_scr = {}


def screen(s, d, many=False):
    from specula.lib.phasescreen_manager import phasescreens_manager
    with quiet():
        r = phasescreens_manager(np.array([s['L0']]), s['dim'], s['pitch'], d, np, s['prec'],
                                 seed=np.array([s['seed'], s['seed'] + 1] if many else [s['seed']]))
    return [np.array(x) for x in r]


def screen_ref(s, many=False):
    key = repr((sorted(s.items()), many))
    if key not in _scr:
        _scr[key] = screen(s, folder('p11ref'), many)
    return _scr[key]


def judge_screen(got, s, what, many=False):
    ref = screen_ref(s, many)
    if len(got) != len(ref):
        return f'{what}: {len(got)} screens'
    for g, r in zip(got, ref):
        if g.shape != r.shape or not np.array_equal(g.astype(float), r.astype(float)) \
                or g.dtype.itemsize != r.dtype.itemsize:
            return f'{what}: screen {s} is not that of a new folder'
    return None


def gen_screens(tier):
    n = 4 if tier == 'thorough' else 3
    for i in range(len(SCREENS)):
        for j in range(len(SCREENS)):
            yield {'head': [i, j], 'n': n}


def run_screens(case, st):
    d = folder('p11s')
    for word in itertools.product(range(len(SCREENS)), repeat=case['n'] - 2):
        shutil.rmtree(d, ignore_errors=True)
        w = tuple(case['head']) + word
        for k, i in enumerate(w):
            many = (i + k) % 2 == 1
            got = screen(SCREENS[i], d, many)
            st.step()
            msg = judge_screen(got, SCREENS[i], f'requests {w[:k + 1]}', many)
            if msg:
                return msg
            for x in got:
                if x.flags.writeable:
                    x[...] = -1.0           # a user that works in place spoils only its own
        st.state(w)
    st.outcome(case['head'])
    return None


# ------------------------------------------------------------------ runs at the same time
class Request:
    """What one run asks: act() does it on the real code, verdict() judges what it got."""

    def __init__(self, spec, d):
        self.spec, self.d, self.got = spec, d, None
        self.where = None

    def act(self):
        k = self.spec[0]
        if k == 'screen':
            self.got = screen(SCREENS[self.spec[1]], self.d, self.spec[2])
        elif k == 'kernel':
            kind, c = CONFS[self.spec[1]]
            o = make_kernel(kind, c, self.d)
            prepare(o, PROFILES[0], 7)
            self.got = o
        elif k == 'store':
            self.got = store(self.spec, os.path.join(self.d, 'store'), self)

    def verdict(self):
        k = self.spec[0]
        if self.got is None:
            return f'{self.spec}: no answer'
        if k == 'screen':
            return judge_screen(self.got, SCREENS[self.spec[1]], f'{self.spec}', self.spec[2])
        if k == 'kernel':
            kind, c = CONFS[self.spec[1]]
            return judge(self.got, kind, c, PROFILES[0], 7, f'{self.spec}')
        return judge_store(self)


def store(spec, d, req):
    """A run of 4 steps with a data store: [folder of each save]."""
    from specula.base_value import BaseValue
    from specula.processing_objects.data_store import DataStore
    _, fmt, split, label = spec
    ds = DataStore(store_dir=d, data_format=fmt, split_size=split)
    ds.name = 'store'
    ds.today = '20260101_120000'        # all started within the same second
    ds.setParams({'main': {'class': 'SimulParams'}})
    ds.setReplayParams({'data_source': {'class': 'DataSource'}})
    from specula.connections import InputValue
    v = BaseValue(value=np.zeros(2))
    ds.inputs['v'] = InputValue(type=BaseValue)
    ds.inputs['v'].set(v)
    ds.setup()
    req.where = []
    for t in range(4):
        v.set_value(np.array([label, t + 1.0]))
        v.generation_time = t * 1000
        with quiet():
            step(ds, t * 1000)
        if split and (t + 1) % split == 0:
            req.where.append(str(ds.tn_dir))
    with quiet():
        ds.finalize()
    if not split:
        req.where.append(str(ds.tn_dir))
    return req.where


def chunks(spec):
    split = spec[2] or 4
    return [list(range(k, min(k + split, 4))) for k in range(0, 4, split)]


def read_chunk(spec, where):
    import pickle
    from astropy.io import fits
    fn = os.path.join(where, 'v.' + spec[1])
    if spec[1] == 'fits':
        with fits.open(fn) as f:
            return np.array(f[0].data, float), np.array(f[1].data).tolist()
    with open(fn, 'rb') as f:
        x = pickle.load(f)
    return np.array(x['data'], float), np.array(x['times']).tolist()


def judge_store(req):
    spec = req.spec
    for n, (where, its) in enumerate(zip(req.where, chunks(spec))):
        try:
            data, times = read_chunk(spec, where)
        except Exception as e:
            return f'{spec}: chunk {n} in {where}: {e!r}'
        if times != [t * 1000 for t in its] or \
                not np.array_equal(data, [[spec[3], t + 1.0] for t in its]):
            return f'{spec}: chunk {n} holds {data.tolist()} at {times}, expected steps {its}'
    return None


G0 = len(ALT) + 1       # index of the gaussian kernel
PAIRS = [[('screen', 0, False), ('screen', 0, False)], [('screen', 0, True), ('screen', 1, False)],
         [('screen', 0, False), ('screen', 7, False)],
         [('kernel', 0), ('kernel', 0)], [('kernel', G0), ('kernel', G0)],
         [('kernel', 0), ('kernel', ALT.index(dict(return_fft=False)) + 1)],
         [('kernel', 0), ('kernel', 3)], [('kernel', 0), ('screen', 0, False)],
         [('store', 'fits', 0, 1.0), ('store', 'fits', 0, 2.0)],
         [('store', 'fits', 2, 1.0), ('store', 'pickle', 2, 2.0)],
         [('store', 'pickle', 0, 1.0), ('store', 'pickle', 0, 2.0)],
         [('store', 'fits', 3, 1.0), ('store', 'fits', 3, 2.0)]]


def gen_race(tier):
    thorough = tier == 'thorough'
    for i, p in enumerate(PAIRS):
        for exists in (False, True):
            yield {'reqs': p, 'exists': exists, 'bound': 3 if thorough else 2}
    for r in (PAIRS[0][0], PAIRS[3][0], PAIRS[8][0]):
        rs = [list(r[:3]) + [float(k + 1)] for k in range(3)] if r[0] == 'store' else [r] * 3
        yield {'reqs': rs, 'exists': False, 'bound': 2 if thorough else 1}


def run_race(case, st):
    d = folder('p11r')
    pids = {}
    orig = os.getpid

    def build(s):
        shutil.rmtree(d, ignore_errors=True)
        if case['exists']:
            os.makedirs(d)
        reqs = [Request(tuple(r), d) for r in case['reqs']]
        ctx = controlled(d, lambda: s.point())
        failed = []

        def work(n, r):
            def f():
                try:
                    r.act()
                except sched.Kill:
                    raise
                except Exception as e:
                    failed.append(f'run {n} {r.spec} stops with {e!r}')
            return f
        for n, r in enumerate(reqs):
            t = s.spawn(f'run{n}', work(n, r))
            pids[id(t)] = 100000 + n
        base = s.run

        def run():
            os.getpid = lambda: pids.get(id(s.current), 1)
            try:
                with ctx:
                    base()
            finally:
                os.getpid = orig
        s.run = run

        def check():
            if failed:
                return failed[0]
            for r in reqs:
                msg = r.verdict()
                if msg:
                    return msg
            if reqs[0].spec[0] == 'store':
                w = [x for r in reqs for x in r.where]
                if len(set(w)) != len(w):
                    return f'two saves in the same folder: {w}'
            # and those who come later
            for r in case['reqs']:
                if r[0] == 'store':
                    continue
                late = Request(tuple(r), d)
                late.act()
                msg = late.verdict()
                if msg:
                    return 'a later run: ' + msg
            return None
        return check
    n, steps, msg = sched.explore(build, case['bound'])
    st.step(steps)
    st.runs += n - 1
    st.state(case['reqs'], case['exists'], n)
    st.outcome(case['reqs'][0][0], len(case['reqs']))
    return msg


# ------------------------------------------------------------------ killed runs
CRASH = [('screen', 0, False), ('screen', 0, True), ('screen', 7, False), ('kernel', 0),
         ('kernel', G0), ('kernel', ALT.index(dict(return_fft=False)) + 1),
         ('store', 'fits', 2, 1.0), ('store', 'fits', 3, 1.0), ('store', 'fits', 1, 1.0),
         ('store', 'pickle', 2, 1.0), ('store', 'pickle', 1, 1.0)]


def gen_crash(tier):
    for r in CRASH:
        yield {'req': r, 'twice': r[0] != 'store'}


def killed(req, k):
    """Run the request up to its k-th file operation: True if it ended before."""
    count = [0]
    s = sched.Sched()

    def point():
        count[0] += 1
        if count[0] > k:
            s.kill(s.tasks)
        s.point()
    ended = []

    def f():
        req.act()
        ended.append(True)
    s.spawn('run', f)
    with controlled(req.d, point):
        try:
            s.run()
        finally:
            pass
    return bool(ended)


def run_crash(case, st):
    spec = tuple(case['req'])
    d = folder('p11c')
    k = 0
    while True:
        shutil.rmtree(d, ignore_errors=True)
        a = Request(spec, d)
        over = killed(a, k)
        st.step(k)
        st.runs += 1
        what = f'{spec} killed at file operation {k}'
        if spec[0] == 'store':
            done = Request(spec, d)
            done.where = (a.where or [])
            msg = judge_store(done)
            if msg:
                return f'{what}: {msg}'
            if over and len(done.where) < 4 // (spec[2] or 4):
                return f'{what}: {len(done.where)} chunks at the end'
        else:
            j = 0
            while True:
                if j:       # the next one is killed as well
                    shutil.rmtree(d, ignore_errors=True)
                    killed(Request(spec, d), k)
                    if killed(Request(spec, d), j - 1):
                        break
                b = Request(spec, d)
                try:
                    b.act()
                except Exception as e:
                    return f'{what} ({j}): the next run stops with {e!r}'
                st.step()
                st.runs += 1
                msg = b.verdict()
                if msg:
                    return f'{what} ({j}), next run: {msg}'
                j += 1
                if not case['twice']:
                    break
        st.state(spec, k)
        if over:
            break
        k += 1
        if k > 2000:
            return 'not finished'
    st.outcome(spec, k)
    return None


# ------------------------------------------------------------------ results already on disk
def calibrators():
    """name -> (files, run(overwrite, folder, amplitude)): one calibration with its results."""
    from specula.base_value import BaseValue
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes

    def drive(o, refresh):
        for t in (1, 2):
            refresh(t)
            step(o, t)
        o.finalize()

    def sn(over, d, a):
        from specula.processing_objects.sn_calibrator import SnCalibrator
        o = SnCalibrator(data_dir=d, output_tag='sn', overwrite=over)
        s = Slopes(slopes=np.arange(4.) * a)
        o.inputs['in_slopes'].set(s)
        o.setup()
        drive(o, lambda t: setattr(s, 'generation_time', t))

    def im(over, d, a, multi=False):
        from specula.processing_objects.im_calibrator import ImCalibrator
        from specula.processing_objects.multi_im_calibrator import MultiImCalibrator
        s = Slopes(slopes=np.arange(1., 5.) * a)
        s2 = Slopes(slopes=np.arange(2., 5.) * a)
        c = BaseValue(value=np.array([1.0, 0.0]))
        if multi:
            o = MultiImCalibrator(2, 2, d, im_tag=['i0', 'i1'], full_im_tag='full', overwrite=over)
            o.inputs['in_slopes_list'].set([s, s2])
            o.inputs['in_commands_list'].set([c])
        else:
            o = ImCalibrator(2, d, im_tag='im', overwrite=over)
            o.inputs['in_slopes'].set(s)
            o.inputs['in_commands'].set(c)
        o.setup()

        def refresh(t):
            for x in (s, s2, c):
                x.generation_time = t
            c.value[:] = [1.0, 0.0] if t == 1 else [0.0, 1.0]
        drive(o, refresh)

    def rec(over, d, a, multi=False):
        from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
        from specula.processing_objects.rec_calibrator import RecCalibrator
        m = (np.arange(8.).reshape(4, 2) + np.eye(4, 2)) * a
        if multi:
            o = MultiRecCalibrator(2, d, rec_tag='m', full_rec_tag='f', overwrite=over)
            o.inputs['intmat_list'].set([Intmat(m), Intmat(m[::-1].copy())])
            o.inputs['full_intmat'].set(Intmat(np.vstack([m, m])))
        else:
            o = RecCalibrator(2, d, 'r', overwrite=over)
            im_ = Intmat(m)
            o.inputs['in_intmat'].set(im_)
        o.setup()
        o.check_ready(1)
        o.finalize()

    def subap(over, d, a):
        from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
        o = ShSubapCalibrator(2, data_dir=d, energy_th=0.1, output_tag='sub', overwrite=over)
        i = Intensity(8, 8)
        i.i[:] = 1.0
        if a > 1:
            i.i[:4, :4] = 0.0
        o.inputs['in_i'].set(i)
        o.setup()
        drive(o, lambda t: setattr(i, 'generation_time', t))

    def pup(over, d, a):
        from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
        o = PyrPupdataCalibrator(data_dir=d, output_tag='pup', overwrite=over,
                                 auto_detect_obstruction=False)
        i = Intensity(20, 20)
        y, x = np.mgrid[0:20, 0:20]
        for q in range(4):
            cy, cx = 4.5 + 10 * (q // 2), 4.5 + 10 * (q % 2)
            i.i[np.hypot(y - cy, x - cx) < 1.6 + a] = 10.0
        o.inputs['in_i'].set(i)
        o.setup()
        drive(o, lambda t: setattr(i, 'generation_time', t))

    def dark(over, d, a):
        from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator
        o = DynamicDarkCalibrator(data_dir=d, nframes=1, overwrite=over)
        p = Pixels(3, 3)
        p.pixels[:] = 5 * a
        tr, sv = BaseValue(value=1), BaseValue()
        sv.value = 'dark'
        for n, v in (('in_pixels', p), ('in_trigger', tr), ('in_save', sv)):
            o.inputs[n].set(v)
        o.setup()

        def refresh(t):
            p.generation_time = tr.generation_time = t
            if t == 2:
                sv.generation_time = t
        drive(o, refresh)
    return {'sn': (['sn'], sn), 'im': (['im'], im),
            'multi_im': (['i0', 'i1', 'full'], lambda *x: im(*x, multi=True)),
            'rec': (['r'], rec), 'multi_rec': (['m0', 'm1', 'f'], lambda *x: rec(*x, multi=True)),
            'subap': (['sub'], subap), 'pup': (['pup'], pup), 'dark': (['dark'], dark)}


def gen_keep(tier):
    for name in ('sn', 'im', 'multi_im', 'rec', 'multi_rec', 'subap', 'pup', 'dark'):
        yield {'name': name}


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), 'rb') as h:
                out[os.path.relpath(os.path.join(r, f), d)] = h.read()
    return out


def run_keep(case, st):
    """Files there before x overwrite: kept and refused, or replaced by the new results."""
    files, run = calibrators()[case['name']]
    files = [f + '.fits' for f in files]
    d = folder('p11o')

    def go(over, a):
        with quiet():
            run(over, d, a)
        st.step()
    new = {}
    for a in (1, 2):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        go(False, a)
        new[a] = tree(d)
        if sorted(new[a]) != sorted(files):
            return f'{case["name"]} writes {sorted(new[a])}, expected {sorted(files)}'
    if any(new[1][f] == new[2][f] for f in files):
        return f'{case["name"]}: the results do not depend on the measurements'
    others = {'other.fits': b'x', files[0] + '.old': b'y', files[0].replace('.fits', '2.fits'): b'z'}
    for sub in itertools.product((False, True), repeat=len(files)):
        for over in (False, True):
            for a in (1, 2):
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                before = dict(others)
                before.update({f: new[3 - a][f] for f, s in zip(files, sub) if s})
                for f, b in before.items():
                    with open(os.path.join(d, f), 'wb') as h:
                        h.write(b)
                what = f'{case["name"]}: {[f for f, s in zip(files, sub) if s]} there, overwrite={over}'
                refused = None
                try:
                    go(over, a)
                except OSError as e:
                    refused = e
                now = tree(d)
                if over or not any(sub):
                    if refused is not None:
                        return f'{what}: refused, {refused!r}'
                    want = {**others, **new[a]}
                    if now != want:
                        return f'{what}: {[f for f in want if now.get(f) != want[f]]} not as expected'
                else:
                    if refused is None:
                        return f'{what}: not refused'
                    bad = [f for f in before if now.get(f) != before[f]]
                    if bad:
                        return f'{what}: {bad} changed'
                    # ... before or after: what was written is a right result
                    bad = [f for f in now if f not in before and now[f] != new[a].get(f)]
                    if bad:
                        return f'{what}: {bad} wrong'
                st.state(case['name'], sub, over, a)
    st.outcome(case['name'])
    return None


FAMILIES = [
    Family('kernels', gen_kernels, run_kernels, precisions=(0, 1), weight=4,
           what='kernels after any other ones in the same folder'),
    Family('attrs', gen_attrs, run_attrs, precisions=(0,), weight=2,
           what='sequences of changes of one kernel'),
    Family('screens', gen_screens, run_screens, precisions=(0,), weight=2,
           what='sequences of phase screens in one folder'),
    Family('race', gen_race, run_race, precisions=(0,), weight=6, timeout=400,
           what='schedules of runs sharing a folder'),
    Family('crash', gen_crash, run_crash, precisions=(0,), weight=2, timeout=400,
           what='kill at every file operation'),
    Family('keep', gen_keep, run_keep, precisions=(0,), weight=1,
           what='results already on disk'),
]
