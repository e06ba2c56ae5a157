"""P25: objects commanded while the simulation runs."""
import itertools
import os
import queue
import shutil
import tempfile

import numpy as np

from mc.core import Family
from mc.harness import step, scratch, close, main_params, run_simul

RULE = ('Objects commanded while the simulation runs (dynamic dark and pupil calibrators, command '
        'inputs) carry out each command at the step it is received, and go on unchanged after a '
        'wrong one')
ASSUMPTIONS = [
    'frames of up to 3x4 pixels for the dark frame, of 16x16 for the pyramid pupils',
    'the number of frames and the trigger are not changed in the same step',
    'saving over an existing file is refused with an exception, as for the other calibrators',
]
MS = 1_000_000


def tol():
    import specula
    return 1e-9 if specula.global_precision == 0 else 1e-5


class quiet:
    """Discards what the code under test prints."""

    def __enter__(self):
        import io
        import sys
        self.old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.old


# ------------------------------------------------------------------ dark frames
SHAPE = (3, 4)


def frame_at(k):
    """Frame number k: each pixel of each frame tells itself from every other."""
    a = np.arange(12, dtype=float).reshape(SHAPE)
    return 100.0 * (k + 1) ** 2 + 3 * a * (k + 1) - 7.0 * (k % 2)


class RefDark:
    def __init__(self, nframes):
        self.n = nframes
        self.dark = np.zeros(SHAPE)
        self.time = -1
        self.left = 0
        self.acc = []
        self.frame = None
        self.sub = None
        self.sub_time = -1

    def step(self, t, frame, cmds, files):
        """One step of the simulation. frame: None when there is no new one."""
        if frame is not None:
            self.frame = frame
        if frame is None and not cmds:
            return
        if 'trigger' in cmds:
            self.left = self.n
            self.acc = []
        if 'reset' in cmds:
            self.dark, self.time = np.zeros(SHAPE), t
        if 'nframes' in cmds:
            try:
                n = int(cmds['nframes'])
            except (ValueError, TypeError):
                n = 0
            if n > 0:
                self.n = n
        if 'load' in cmds and cmds['load'] in files:
            self.dark, self.time = files[cmds['load']].copy(), t
        self.sub, self.sub_time = self.frame - self.dark, t
        if self.left and frame is not None:
            self.acc.append(frame)
            self.left -= 1
            if self.left == 0:
                self.dark, self.time = sum(self.acc) / len(self.acc), t


def gen_dark(tier):
    depth = 7 if tier == 'thorough' else 6
    for n in (1, 2, 3):
        for head in itertools.product(range(len(DARK)), repeat=2):
            yield {'n': n, 'head': list(head), 'depth': depth if n == 2 else depth - 1,
                   'fixed': False}
    for n in (2,) if tier != 'thorough' else (1, 2, 3):
        for head in itertools.product(range(len(FILES)), repeat=2):
            yield {'n': n, 'head': list(head), 'depth': 4 if tier != 'thorough' else 5,
                   'fixed': True}


# (new frame?, commands)
DARK = [(True, {}), (True, {'trigger': False}), (False, {'trigger': '1'}), (False, {}),
        (True, {'reset': False}), (True, {'nframes': '2'}), (False, {'nframes': 3})]
FILES = [(True, {}), (True, {'trigger': 1}), (False, {'reset': 1}),
         (True, {'load': 'good'}), (False, {'load': 'good.fits'}), (True, {'load': 'missing'}),
         (True, {'load': 'wide', 'trigger': 1}), (True, {'nframes': 'many'}), (True, {'nframes': 0}),
         (True, {'nframes': -2}), (False, {'nframes': None}), (True, {'save': None})]


def make_dark(n, d, precision=None):
    from specula.base_value import BaseValue
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator
    o = DynamicDarkCalibrator(data_dir=d, nframes=n)
    px = Pixels(SHAPE[1], SHAPE[0], bits=16, signed=True)
    o.inputs['in_pixels'].set(px)
    com = {}
    for k in ('trigger', 'reset', 'nframes', 'load', 'save'):
        com[k] = BaseValue(value=None)
        o.inputs['in_' + k].set(com[k])
    o.setup()
    return o, px, com


def darkfile(name, arr):
    from specula.data_objects.pixels import Pixels
    p = Pixels(arr.shape[1], arr.shape[0], bits=16, signed=True)
    p.pixels[:] = arr
    p.save(name, overwrite=True)


def run_dark(case, st):
    from specula.data_objects.pixels import Pixels
    alpha = FILES if case['fixed'] else DARK
    d = tempfile.mkdtemp(dir=scratch())
    files = {}
    if case['fixed']:
        good = np.linspace(-5, 40, 12).reshape(SHAPE)
        darkfile(os.path.join(d, 'good.fits'), good)
        darkfile(os.path.join(d, 'wide.fits'), np.ones((5, 5)))
        files = {'good': good, 'good.fits': good}
    try:
        for tail in itertools.product(range(len(alpha)), repeat=case['depth'] - 2):
            seq = case['head'] + list(tail)
            if not alpha[seq[0]][0]:
                continue            # there is a frame at the first step
            o, px, com = make_dark(case['n'], d)
            ref = RefDark(case['n'])
            st.runs += 1
            saved = []
            for k, s in enumerate(seq):
                t = (k + 1) * MS
                new, cmds = alpha[s]
                f = frame_at(k) if new else None
                if new:
                    px.pixels[:] = f
                    px.generation_time = t
                cmds = dict(cmds)
                if 'save' in cmds:
                    cmds['save'] = f's{k}'
                for c, v in cmds.items():
                    com[c].value = v
                    com[c].generation_time = t
                with quiet():
                    try:
                        step(o, t)
                    except Exception as e:
                        return f'{[alpha[i] for i in seq]}: step {k}: {type(e).__name__}: {e}'
                ref.step(t, f, cmds, files)
                st.step()
                msg = None
                dark, sub = o.outputs['out_darkframe'], o.outputs['out_subtracted_pixels']
                if not close(dark.pixels, ref.dark, tol()):
                    msg = f'dark {dark.pixels[0]}, expected {ref.dark[0]}'
                elif dark.generation_time != ref.time:
                    msg = f'dark of time {dark.generation_time}, expected {ref.time}'
                elif not close(sub.pixels, ref.sub, tol()):
                    msg = f'subtracted {sub.pixels[0]}, expected {ref.sub[0]}'
                elif sub.generation_time != ref.sub_time:
                    msg = f'subtracted of time {sub.generation_time}, expected {ref.sub_time}'
                elif not np.array_equal(px.pixels, ref.frame):
                    msg = 'the input frame was changed'
                if not msg and 'save' in cmds:
                    saved.append((os.path.join(d, f's{k}.fits'), ref.dark.copy()))
                if msg:
                    return f'nframes {case["n"]}, {[alpha[i] for i in seq]}: step {k}: {msg}'
                st.state(dark.pixels, o.outputs['out_subtracted_pixels'].pixels)
            for fn, want in saved:
                if not os.path.exists(fn):
                    return f'{[alpha[i] for i in seq]}: {os.path.basename(fn)} was not saved'
                back = Pixels.restore(fn)
                os.remove(fn)
                if not close(back.pixels, want, tol()):
                    return f'{[alpha[i] for i in seq]}: saved {back.pixels[0]}, expected {want[0]}'
    finally:
        shutil.rmtree(d)
    return None


# ------------------------------------------------------------------ pyramid pupils
N = 16


def pup_frame(kind):
    """Frames with four discs: 'g' (with a halo), 'b' (moved, larger), 'm' (a pupil missing)."""
    f = np.zeros((N, N))
    yy, xx = np.mgrid[0:N, 0:N]
    rad = {'b': 2.9, 'm': 2.1, 'g': 2.1}[kind]
    dx = 1 if kind == 'b' else 0
    for q in range(4):
        if kind == 'm' and q == 2:
            continue
        cy, cx = 3 + (q // 2) * 8, 3 + (q % 2) * 8 + dx
        r = np.hypot(yy - cy, xx - cx)
        f[r <= rad] = 10.0 + q
        if kind == 'g':
            f[(r > rad) & (r <= rad + 1.1)] = 2.0
    return f


PCMD = [{}, {'thr1': '0.3'}, {'thr2': 0.05}, {'thr1': 'abc'}, {'thr2': None}, {'dt': '0.002'},
        {'dt': 0}, {'dt': 'x'}, {'dt': -0.001}, {'dt': 1e-13}, {'output_tag': 'other'},
        {'save': 'now'}, {'save': False}, {'thr1': 2.0}]
SECOND = [0, 5, 10, 11]        # of PCMD


def gen_pup(tier):
    depth = 4 if tier == 'thorough' else 3
    for inten in (False, True):
        for dt in (None, 0.001, 0.002, 0.003):
            if dt == 0.001 and inten and tier != 'thorough':
                continue
            for head in range(len(PCMD)):
                yield {'inten': inten, 'dt': dt, 'head': head, 'depth': depth}


class RefPup:
    """Reference of the interactive pupil calibrator; the measurement of one image is that of the
    plain calibrator (decided by P16)."""
    cache = {}

    def __init__(self, dt, inten):
        self.dt = None if dt is None else round(dt * 1e9)
        self.thr1, self.thr2, self.tag = 0.1, 0.25, 'first'
        self.acc = np.zeros((N, N))
        self.inten = inten
        self.pup, self.time, self.status = None, -1, None
        self.last = None
        self.files = {}

    def measure(self, image):
        from specula.data_objects.intensity import Intensity
        from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
        key = (image.tobytes(), self.thr1, self.thr2, self.inten)
        if key not in self.cache:
            c = PyrPupdataCalibrator(data_dir='.', thr1=self.thr1, thr2=self.thr2,
                                     slopes_from_intensity=self.inten, save_on_exit=False)
            i = Intensity(N, N)
            i.i[:] = image
            i.generation_time = 5
            c.inputs['in_i'].set(i)
            c.setup()
            try:
                step(c, 5)
                p = c.pupdata
                self.cache[key] = tuple(np.array(x) for x in (p.ind_pup, p.radius, p.cx, p.cy))
            except (ValueError, TypeError):
                self.cache[key] = None
        return self.cache[key]

    def step(self, t, frame, cmd):
        if frame is None and not cmd:
            return
        for k, v in cmd.items():
            if k in ('thr1', 'thr2', 'dt'):
                try:
                    v = float(v)
                except (ValueError, TypeError):
                    continue
                if k == 'dt':
                    if round(v * 1e9) > 0:
                        self.dt = round(v * 1e9)
                else:
                    setattr(self, k, v)
            if k == 'output_tag':
                self.tag = v
        if frame is not None:
            self.last = frame
            self.acc = self.acc + frame
        elif self.dt is None:
            self.acc = self.acc + self.last     # measured again, with the present parameters
        self.status = 'OK'
        if self.dt is None or t % self.dt == 0:
            m = self.measure(self.acc)
            self.acc = np.zeros((N, N))
            if m is None:
                self.status = None
            else:
                self.pup, self.time = m, t
        if 'save' in cmd:
            self.files[cmd['save'] or self.tag] = self.pup


def run_pup(case, st):
    from specula.base_value import BaseValue
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pupdata import PupData
    from specula.processing_objects.dynamic_pyr_pupdata_calibrator import DynamicPyrPupdataCalibrator
    d = tempfile.mkdtemp(dir=scratch())
    n = case['depth'] - 2
    try:
        for kinds in itertools.product('gmb', 'gb-', *['gmb-'] * n, 'gb'):
            for tail in itertools.product(SECOND, repeat=n):
                cmds = [0, case['head']] + list(tail) + [0]
                seq = [(k, PCMD[c]) for k, c in zip(kinds, cmds)]
                if case['dt'] is not None or any('dt' in c for _, c in seq):
                    # a command alone measures nothing again when frames are integrated
                    if any(k == '-' and c for k, c in seq):
                        continue
                saves = [c['save'] for _, c in seq if 'save' in c]
                if len(set(saves)) < len(saves):
                    continue
                msg = one_pup(case, seq, d, st)
                if msg:
                    return f'dt {case["dt"]}, {seq}: {msg}'
    finally:
        shutil.rmtree(d)
    return None


def one_pup(case, seq, d, st):
    from specula.base_value import BaseValue
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pupdata import PupData
    from specula.processing_objects.dynamic_pyr_pupdata_calibrator import DynamicPyrPupdataCalibrator
    o = DynamicPyrPupdataCalibrator(data_dir=d, dt=case['dt'], output_tag='first', overwrite=True,
                                    slopes_from_intensity=case['inten'], save_on_exit=True)
    img = Intensity(N, N)
    o.inputs['in_i'].set(img)
    com = {}
    for k in ('thr1', 'thr2', 'dt', 'output_tag', 'save'):
        com[k] = BaseValue(value=None)
        o.inputs['in_' + k].set(com[k])
    o.setup()
    ref = RefPup(case['dt'], case['inten'])
    st.runs += 1
    for k, (kind, cmd) in enumerate(seq):
        t = (k + 1) * MS
        f = None if kind == '-' else pup_frame(kind)
        if f is not None:
            img.i[:] = f
            img.generation_time = t
        for c, v in cmd.items():
            if c == 'save' and ref.pup is None and not (f is not None and ref_ok(ref, t, f)):
                return None         # nothing to save yet
            com[c].value = v
            com[c].generation_time = t
        with quiet(), np.errstate(all='ignore'):
            try:
                trig = step(o, t)
            except Exception as e:
                return f'step {k}: {type(e).__name__}: {e}'
            ref.step(t, f, cmd)
        st.step()
        if not trig:
            if f is not None or cmd:
                return f'step {k}: not triggered'
            continue
        p = o.outputs['out_pupdata']
        if p.generation_time != ref.time:
            return f'step {k}: pupils of time {p.generation_time}, expected {ref.time}'
        if ref.pup is not None:
            got = (p.ind_pup, p.radius, p.cx, p.cy)
            for name, g, w in zip(('pixels', 'radii', 'x', 'y'), got, ref.pup):
                if not close(np.array(g, dtype=float), np.array(w, dtype=float), 1e-6):
                    return f'step {k}: pupil {name} {np.array(g).tolist()}, expected {w.tolist()}'
            if bool(p.slopes_from_intensity) != case['inten']:
                return f'step {k}: wrong kind of slopes'
        par = o.outputs['out_params']
        v = par.value
        want_dt = None if ref.dt is None else ref.dt / 1e9
        if par.generation_time != t:
            return f'step {k}: parameters of time {par.generation_time}'
        if (v['dt'], v['thr1'], v['thr2']) != (want_dt, ref.thr1, ref.thr2):
            return f'step {k}: parameters {v}, expected {(want_dt, ref.thr1, ref.thr2)}'
        if (v['status'] == 'OK') != (ref.status == 'OK'):
            return f'step {k}: status {v["status"]}, expected {ref.status}'
        if f is not None and not np.array_equal(img.i, f):
            return f'step {k}: the input was changed'
        st.state(p.cx, p.radius, v['status'], repr(v['dt']), v['thr1'])
    if ref.pup is not None:
        with quiet():
            o.finalize()
        ref.files[ref.tag] = ref.pup
        for name, want in ref.files.items():
            fn = os.path.join(d, name + '.fits')
            if not os.path.exists(fn):
                return f'{name} was not saved'
            back = PupData.restore(fn)
            if not np.array_equal(np.array(back.ind_pup), want[0]):
                return f'{name} holds pixels {np.array(back.ind_pup).tolist()}, expected {want[0].tolist()}'
        for fn in os.listdir(d):
            if fn[:-5] not in ref.files:
                return f'{fn} was saved'
            os.remove(os.path.join(d, fn))
    return None


def ref_ok(ref, t, f):
    """Would this frame give the first pupils?"""
    if ref.dt is not None and t % ref.dt:
        return False
    return ref.measure(ref.acc + f) is not None


# ------------------------------------------------------------------ command inputs
MSGS = [('a', '1.5'), ('a', False), ('b', 2.5), ('c', 'x'), ('', None)]


def gen_input(tier):
    depth = 5 if tier == 'thorough' else 4
    for n in range(depth + 1):
        for msgs in itertools.product(range(len(MSGS)), repeat=n):
            yield {'msgs': list(msgs)}


def run_input(case, st):
    """Each message is set at the first step after it arrives; the last one of a name stays."""
    from specula.processing_objects.specula_input import SpeculaInput
    n = len(case['msgs'])
    for when in itertools.combinations_with_replacement(range(3), n):
        o = SpeculaInput(output_list=['a', 'b'])
        o.q = queue.Queue()
        o.setup()
        ref = {'a': (None, -1), 'b': (None, -1)}
        st.runs += 1
        for s in range(3):
            t = (s + 1) * MS
            for m, w in zip(case['msgs'], when):
                if w == s:
                    o.q.put(MSGS[m])
                    if MSGS[m][0] in ref:
                        ref[MSGS[m][0]] = (MSGS[m][1], t)
            with quiet():
                try:
                    step(o, t)
                except Exception as e:
                    return f'messages {[MSGS[m] for m in case["msgs"]]} at {when}: {type(e).__name__}: {e}'
            st.step()
            got = {k: (v.value, v.generation_time) for k, v in o.outputs.items()}
            if got != ref:
                return f'messages {[MSGS[m] for m in case["msgs"]]} at steps {when}: {got}, expected {ref}'
            st.state(repr(got))
    return None


TOKENS = ['gain', 'help', '0.5', '']


def gen_term(tier):
    for n in range(4):
        for w in itertools.product(TOKENS, repeat=n):
            yield {'line': ' '.join(w)}


def run_term(case, st):
    """Every line typed: a name, a name with its value, help, or nothing; then one more line."""
    import builtins
    import sys
    from specula.processing_objects import terminal_input
    line = case['line']
    for sep in (' ', '  ', '\t'):
        text = line.replace(' ', sep)
        words = text.split()
        want = []
        if len(words) == 1 and words[0] != 'help':
            want = [(words[0], False)]
        elif len(words) == 2:
            want = [(words[0], words[1])]
        want.append(('reset', '7'))
        feed = iter([text, 'reset 7'])

        def fake(prompt=''):
            try:
                return next(feed)
            except StopIteration:
                raise EOFError

        q = queue.Queue()
        old, oldin, oldopen = builtins.input, sys.stdin, getattr(terminal_input, 'open', None)
        builtins.input = fake
        terminal_input.open = lambda *a: sys.stdin
        try:
            with quiet():
                terminal_input.terminal_task(q)
        finally:
            builtins.input = old
            sys.stdin = oldin
            if oldopen is None:
                del terminal_input.open
        got = []
        while not q.empty():
            got.append(q.get())
        st.step()
        if got != want:
            return f'line {text!r}: {got}, expected {want}'
    st.outcome(line)
    return None


# ------------------------------------------------------------------ whole simulations
SCMD = [('trigger', False), ('trigger', '2'), ('reset', False), ('nframes', '2'), ('nframes', 'q'),
        ('load', 'good'), ('load', 'none')]


def gen_run(tier):
    steps = 5
    places = range(steps)
    for every in (1, 2):
        for a, b in itertools.product(range(len(SCMD)), repeat=2):
            yield {'every': every, 'cmds': [a, b], 'steps': steps}
    if tier == 'thorough':
        for every in (1, 2, 3):
            for c in itertools.product(range(len(SCMD)), repeat=3):
                yield {'every': every, 'cmds': list(c), 'steps': steps}


def run_run(case, st):
    """Commands typed at any step reach the calibrator of a running simulation."""
    from mc.objs.mc_input import McInput
    n = len(case['cmds'])
    d = tempfile.mkdtemp(dir=scratch())
    os.makedirs(os.path.join(d, 'data'))
    good = np.linspace(-5, 40, 12).reshape(SHAPE)
    darkfile(os.path.join(d, 'good.fits'), good)
    try:
        for when in itertools.combinations_with_replacement(range(case['steps']), n):
            cm = [(w,) + SCMD[c] for w, c in zip(when, case['cmds'])]
            at = {}
            bad = False
            for w, name, v in cm:
                at.setdefault(w, {})[name] = v
                if {'trigger', 'nframes'} <= set(at[w]):
                    bad = True
            if bad:
                continue
            McInput.script = cm
            p = {'main': main_params(total_time=case['steps'] * 0.001, root_dir=d),
                 'frames': {'class': 'McFrames', 'every': case['every'], 'outputs': ['out']},
                 'cmd': {'class': 'McInput', 'outputs': ['trigger', 'reset', 'nframes', 'load'],
                         'output_list': ['trigger', 'reset', 'nframes', 'load']},
                 'dark': {'class': 'DynamicDarkCalibrator', 'nframes': 1, 'data_dir': d,
                          'inputs': dict([('in_pixels', 'frames.out')] +
                                         [('in_' + k, 'cmd.' + k) for k in
                                          ('trigger', 'reset', 'nframes', 'load')])},
                 'probe': {'class': 'McProbe',
                           'inputs': {'dark': 'dark.out_darkframe',
                                      'sub': 'dark.out_subtracted_pixels'}}}
            with quiet():
                s, log = run_simul(p)
            st.runs += 1
            ref = RefDark(1)
            want = []
            for k in range(case['steps']):
                t = k * MS
                f = frame_at(k) if k % case['every'] == 0 else None
                ref.step(t, f, at.get(k, {}), {'good': good})
                want.append((t, ref.dark.copy(), ref.time, ref.sub.copy(), ref.sub_time))
                st.step()
            got = [x[1:] for x in log if x[0] == 'probe']
            # the probe is triggered when one of its inputs is new
            want = [w for w in want if w[0] in (w[2], w[4])]
            if [g[0] for g in got] != [w[0] for w in want]:
                return f'{cm}: outputs at {[g[0] for g in got]}, expected {[w[0] for w in want]}'
            for g, w in zip(got, want):
                if g[2] != w[2] or g[4] != w[4]:
                    return f'{cm}: step {g[0]}: times {g[2]}, {g[4]}, expected {w[2]}, {w[4]}'
                if not close(g[1], w[1], tol()) or not close(g[3], w[3], tol()):
                    return f'{cm}: step {g[0]}: dark {g[1][0]}, expected {w[1][0]}'
            st.outcome([w[2] for w in want])
    finally:
        shutil.rmtree(d)
    return None


FAMILIES = [
    Family('dark', gen_dark, run_dark, precisions=(0, 1), weight=6, timeout=300,
           what='sequences of frames and commands to the dark frame calibrator'),
    Family('pupils', gen_pup, run_pup, precisions=(0,), weight=8, timeout=300,
           what='sequences of frames and commands to the pyramid pupil calibrator'),
    Family('input', gen_input, run_input, precisions=(0,), weight=1,
           what='messages to the command inputs over three steps'),
    Family('terminal', gen_term, run_term, precisions=(0,), weight=1, what='lines typed'),
    Family('run', gen_run, run_run, precisions=(0,), weight=2,
           what='commands at every step of a whole simulation'),
]
