"""P31: displays show the present data, recover from errors, and touch nothing."""
import itertools
import os
import warnings

os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np  # noqa: E402

from mc.core import Family  # noqa: E402
from mc.harness import step  # noqa: E402

RULE = ('every sequence of valid and invalid inputs up to the stated length is shown by the real '
        'displays in a memory backend; the images, lines, limits, texts and markers found in the figure '
        'after each step are compared with the definition computed from the inputs alone')
ASSUMPTIONS = ['sequences of at most 4 steps, images of 4-8 pixels, vectors of 2-6 elements',
               'Agg backend of matplotlib; the pixels rendered from the artists are not compared',
               'CPU, one process']
MS = 1_000_000


class Fig:
    """Builds a display, closes its figure."""

    def __init__(self, make):
        import matplotlib
        matplotlib.use('Agg')
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        FigureCanvasAgg.draw_idle = lambda self: None      # what is rendered is not compared
        warnings.simplefilter('ignore')
        self.make = make

    def __enter__(self):
        self.d = self.make()
        return self.d

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        if self.d.fig is not None:
            plt.close(self.d.fig)


class quiet:
    def __enter__(self):
        import io
        import sys
        self.old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.old


def errors(ax):
    return [x.get_text() for x in ax.texts if x.get_color() == 'red']


def check_image(ax, want, lim, what, n_images=1):
    """The axes show exactly this image, with these colour limits, completely."""
    if errors(ax):
        return f'{what}: error shown: {errors(ax)}'
    if len(ax.images) != n_images:
        return f'{what}: {len(ax.images)} images in the axes'
    im = ax.images[-1]
    got = np.asarray(im.get_array())
    if got.shape != want.shape:
        return f'{what}: shape {got.shape} shown instead of {want.shape}'
    if not np.allclose(got, want, rtol=1e-5, atol=1e-9 * max(1, np.abs(want).max())):
        return f'{what}: shown {got.tolist()} instead of {want.tolist()}'
    c = im.get_clim()
    if not (np.allclose(c, lim, rtol=1e-5, atol=1e-12) or lim[0] == lim[1] and c[0] <= lim[0] <= c[1]):
        return f'{what}: colours between {im.get_clim()} instead of {lim}'
    ext = im.get_extent()
    if not np.allclose(ext, (-.5, want.shape[1] - .5, want.shape[0] - .5, -.5)):
        return f'{what}: image of {want.shape} drawn over {ext}'
    for (lo, hi), l in (((ext[0], ext[1]), sorted(ax.get_xlim())), ((ext[3], ext[2]), sorted(ax.get_ylim()))):
        if l[0] > lo + 1e-9 or l[1] < hi - 1e-9:
            return f'{what}: limits {l} cut the image ({lo}, {hi})'


def logref(image, ratio):
    hi = image.max()
    lo = image.min()
    if hi <= 0:
        hi = 1.
    if lo <= 0 or lo >= hi * ratio:
        lo = hi * ratio
    return np.clip(image, lo, hi), (lo, hi)


def crop_ref(image, crop, mode):
    if crop is None:
        return image
    h, w = image.shape
    a, b, c, d = crop
    if mode == 'slice':
        return image[c:d, a:b]
    return image[max(0, b - d):min(h, b + d), max(0, a - c):min(w, a + c)]


def arr(h, w, k):
    y, x = np.mgrid[:h, :w]
    return (((x * 7 + y * 5 + k * 3) % 11) + k + 0.25 * x).astype(float)


# ---------------------------------------------------------------- images
CROPS = ((None, 'slice'), ((1, 4, 0, 3), 'slice'), ((-4, -1, 1, 5), 'slice'), ((2, 20, -3, 20), 'slice'),
         ((3, 2, 2, 1), 'center'), ((0, 4, 2, 2), 'center'), ((3, 3, 9, 9), 'center'))


def gen_images(tier):
    L = 3 if tier == 'quick' else 4
    for seq in itertools.product('ab0x-', repeat=L):
        yield ['phase', {}, ''.join(seq)]
    for kw in ({}, {'image_p2v': 100.}, {'log_scale': True}, {'log_scale': True, 'image_p2v': 50.}):
        for seq in itertools.product('abzx-' if tier == 'quick' else 'abzxn-', repeat=3):
            yield ['psf', kw, ''.join(seq)]
    for seq in itertools.product('abx-', repeat=L):
        for kind in ('xy', 'mixed', 'flat'):
            yield ['slopes', {'kind': kind}, ''.join(seq)]
    for kw in ({}, {'log_scale': True}):
        for c in range(len(CROPS)):
            for seq in itertools.product('abz-' if tier == 'quick' else 'abzn-', repeat=2 if tier == 'quick' else 3):
                yield ['pixels', dict(kw, c=c), ''.join(seq)]
        for cs in itertools.product(range(len(CROPS)), repeat=2 if tier == 'quick' else 3):
            yield ['crops', dict(kw, cs=list(cs)), 'abab'[:len(cs) + 1]]
    for n, sub in ((2, 4), (3, 2)):
        for seq in itertools.product('ab-', repeat=3):
            yield ['pyramid', {'n': n, 'sub': sub}, ''.join(seq)]


def phase_of(s, n):
    a = np.ones((n, n))
    p = np.zeros((n, n))
    if s == 'a':
        p, a = arr(n, n, 1), (arr(n, n, 2) % 3 > 0.5).astype(float)
    elif s == 'b':
        p, a = -5 * arr(n, n, 4), 0.3 * (arr(n, n, 3) > 4)
    elif s == '0':
        p, a = arr(n, n, 2), np.zeros((n, n))
    return a, p


def img_of(s, h, w):
    if s == 'a':
        return arr(h, w, 1)
    if s == 'b':
        return 1e-3 * arr(h, w, 5) ** 6
    if s == 'z':
        return np.zeros((h, w))
    return arr(h, w, 2) - 6       # negative values too


def run_images(case, st):
    kind, kw, seq = case
    kw = dict(kw)
    from specula.base_value import BaseValue
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes
    from specula.data_objects.subap_data import SubapData
    from specula.display.phase_display import PhaseDisplay
    from specula.display.pixels_display import PixelsDisplay
    from specula.display.psf_display import PsfDisplay
    from specula.display.slopec_display import SlopecDisplay
    n = 6
    crops = None
    if kind == 'phase':
        make, key, o = PhaseDisplay, 'phase', ElectricField(n, n, 0.1)
    elif kind == 'psf':
        make, key, o = lambda: PsfDisplay(**kw), 'psf', BaseValue()
    elif kind == 'slopes':
        make, key = SlopecDisplay, 'slopes'
        ns = 5
        idx = np.array([0, 2, 5, 7, 11])
        flat = kw['kind'] == 'flat'
        o = Slopes(ns if flat else 2 * ns, interleave=kw['kind'] == 'mixed')
        o.single_mask = np.zeros((3, 4))
        o.single_mask.flat[idx] = 1
        o.display_map = idx
    elif kind == 'pyramid':
        key = 'pixels'
        m, sub = kw['n'], kw['sub']
        n = m * sub
        o = Pixels(n, n)
        keep = [i for i in range(m * m) if i != 1]
        grid = np.arange(n * n).reshape(n, n)
        boxes = [grid[i // m * sub:(i // m + 1) * sub, i % m * sub:(i % m + 1) * sub].ravel() for i in keep]
        sd = SubapData(np.array(boxes), np.array(keep), m, m)
        make = lambda: PixelsDisplay(sh_as_pyr=True, subapdata=sd)     # noqa: E731
    else:
        key, o = 'pixels', Pixels(7, 6)
        if kind == 'crops':
            crops = [CROPS[0]] + [CROPS[c] for c in kw['cs']]
            kw = {k: v for k, v in kw.items() if k != 'cs'}
            make = lambda: PixelsDisplay(**kw)     # noqa: E731
        else:
            crop, mode = CROPS[kw.pop('c')]
            crops = [(crop, mode)] * len(seq)
            make = lambda: PixelsDisplay(crop=crop, crop_mode=mode, **kw)     # noqa: E731
    mask0 = None
    with Fig(make) as d, quiet():
        d.inputs[key].set(o)
        d.setup()
        shown = None
        for i, s in enumerate(seq):
            t = (i + 1) * MS
            if kind == 'crops' and i:
                if crops[i][0] is None:
                    d.clear_crop()
                else:
                    d.set_crop(*crops[i])
            before = None
            if s != '-':
                o.generation_time = t
                if kind == 'phase':
                    a, p = phase_of(s, n)
                    o.A[:], o.phaseInNm[:] = a, p
                    if s == 'x':
                        o.field = None
                    before = (o.field[0].copy(), o.field[1].copy()) if s != 'x' else None
                elif kind == 'psf':
                    o.value = None if s == 'x' else img_of(s, 6, 5)
                    before = (o.value.copy(),) if s != 'x' else None
                elif kind == 'slopes':
                    o.slopes[:] = 3 * np.arange(o.size) + ord(s) % 7 * np.arange(o.size) ** 2
                    if s == 'x':
                        mask0, o.single_mask = o.single_mask, None
                    before = (o.slopes.copy(),)
                else:
                    hw = o.pixels.shape
                    o.pixels[:] = img_of(s, *hw)
                    before = (o.pixels.copy(),)
            if step(d, t) != (s != '-'):
                return f'step {i} of {seq}: triggered {s == "-"}'
            st.step()
            what = f'{kind} {kw}, step {i} of {seq}'
            if before is not None:
                after = {'phase': lambda: o.field, 'psf': lambda: (o.value,), 'slopes': lambda: (o.slopes,)}.get(
                    kind, lambda: (o.pixels,))()
                if any(not np.array_equal(x, y) for x, y in zip(before, after)):
                    return f'{what}: the displayed data were changed'
            if s == 'x':
                if not errors(d.ax):
                    return f'{what}: no error shown'
                if kind == 'phase':
                    o.field = np.zeros((2, n, n))
                elif kind == 'slopes':
                    o.single_mask = mask0
                shown = 'x'
                continue
            if s != '-':
                if kind == 'phase':
                    lit = a > 0
                    want = np.where(lit, p - (p[lit].mean() if lit.any() else 0), 0)
                    lim = want.min(), want.max()
                elif kind == 'psf':
                    want = before[0]
                    p2v = kw.get('image_p2v', 0)
                    if p2v:
                        want = np.maximum(want, want.max() / p2v)
                    lim = want.min(), want.max()
                    if kw.get('log_scale'):
                        want, lim = logref(want, 1 / p2v if p2v else 1e-6)
                elif kind == 'slopes':
                    x = before[0]
                    if flat:
                        want = np.zeros((3, 4))
                        want.flat[idx] = x
                    else:
                        f = np.zeros((2, 3, 4))
                        f[0].flat[idx] = x[0::2] if kw['kind'] == 'mixed' else x[:ns]
                        f[1].flat[idx] = x[1::2] if kw['kind'] == 'mixed' else x[ns:]
                        want = np.concatenate([f[0], f[1]], axis=1)
                    lim = want.min(), want.max()
                elif kind == 'pyramid':
                    h = sub // 2
                    q = before[0].reshape(m, 2, h, m, 2, h).sum(axis=(2, 5))    # row, top/bottom, col, left/right
                    q[0, :, 1 % m, :] = 0 if m > 1 else q[0, :, 1 % m, :]
                    want = np.concatenate([np.concatenate([q[:, i_, :, j_] for j_ in (0, 1)], axis=1)
                                           for i_ in (0, 1)], axis=0)
                    lim = want.min(), want.max()
                else:
                    want = crop_ref(before[0], *crops[i])
                    lim = want.min(), want.max()
                    if kw.get('log_scale'):
                        want, lim = logref(want, 1e-6)
                shown = want, lim
            if shown is None:
                continue
            if shown == 'x':
                if not errors(d.ax):
                    return f'{what}: no error shown'
                continue
            bad = check_image(d.ax, *shown, what)
            if bad:
                return bad
            if kind == 'slopes' and s != '-' and d._title and d.fig._suptitle.get_text() != d._title:
                return f'{what}: title {d.fig._suptitle.get_text()}'
            st.state(kind, shown[0])


# ---------------------------------------------------------------- modes and histories
def gen_modes(tier):
    al = 'abcpnx-' if tier == 'quick' else 'abcpnzx-'
    for xr, yr in itertools.product((None, (0, 2), (-1, 9)), ((-500, 500), (0, 0), (-1, 3))):
        for seq in itertools.product(al, repeat=2 if tier == 'quick' else 3):
            yield [xr, yr, 0, ''.join(seq)]
    for calls in ('x', 'y', 'A', 'xy', 'yA'):
        for seq in itertools.product('abp', repeat=3):
            yield [None, (0, 0), calls, ''.join(seq)]


VEC = {'a': [1., -2., 3.], 'b': [5., 0., -7., 2., 2.], 'c': [-1., 4.], 'p': [100., 250., 180.], 'n': [-40., -7., -90.],
       'z': [0., 0., 0.]}


def check_line(ax, line, x, y, what):
    if errors(ax):
        return f'{what}: error shown: {errors(ax)}'
    if line not in ax.lines:
        return f'{what}: the line is not in the axes'
    if not np.allclose(line.get_xdata(), x, rtol=1e-6) or not np.allclose(line.get_ydata(), y, rtol=1e-5):
        return f'{what}: shown {line.get_xydata().tolist()} instead of {list(x)}, {list(y)}'


def run_modes(case, st):
    xr, yr, calls, seq = case
    from specula.base_value import BaseValue
    from specula.display.modes_display import ModesDisplay
    o = BaseValue()
    with Fig(lambda: ModesDisplay(xrange=xr, yrange=tuple(yr))) as d, quiet():
        d.inputs['modes'].set(o)
        d.setup()
        last = None
        for i, s in enumerate(seq):
            t = (i + 1) * MS
            if s != '-':
                o.value = None if s == 'x' else np.array(VEC[s], dtype=float)
                o.generation_time = t
            if calls and i == 1:
                for c in calls:
                    if c == 'x':
                        d.set_x_range(-2, 7)
                        xr = (-2, 7)
                    elif c == 'y':
                        d.set_y_range(-11, 12)
                        yr = (-11, 12)
                    else:
                        d.auto_y_range()
                        yr = (0, 0)
            step(d, t)
            st.step()
            what = f'modes xrange={xr} yrange={yr}, step {i} of {seq}'
            if s == 'x' or (s == '-' and last == 'x'):
                if not errors(d.ax):
                    return f'{what}: no error shown'
                last = 'x'
                continue
            if s != '-':
                last = VEC[s]
                if not np.array_equal(o.value, VEC[s]):
                    return f'{what}: input changed'
            if last is None:
                continue
            bad = check_line(d.ax, d.line, range(len(last)), last, what)
            if bad:
                return bad
            if len(d.ax.lines) != 2:
                return f'{what}: {len(d.ax.lines)} lines'
            if tuple(d.ax.get_xlim()) != tuple(xr or (0, len(last) - 1)):
                return f'{what}: x limits {d.ax.get_xlim()}'
            y = d.ax.get_ylim()
            if any(yr):
                if tuple(y) != tuple(yr):
                    return f'{what}: y limits {y}'
            elif not y[0] <= min(last) <= max(last) <= y[1]:
                return f'{what}: y limits {y} for {last}'
            st.state(last, y)


def gen_plot(tier):
    L = 4 if tier == 'quick' else 6
    for hist, axis, yr in itertools.product((2, 3, 10), ('time', 'iteration'), ((0, 0), (-2, 5))):
        for n in (0, 1, 2, 3):
            for seq in itertools.product('abx-' if n < 2 else 'ab-' if n == 2 or tier != 'quick' else 'a-', repeat=L):
                yield [hist, axis, yr, n, ''.join(seq)]


def series(ts, rows, hist, axis):
    """The last points of a plot: x, rows."""
    k = len(rows)
    x = [t / 1e9 for t in ts] if axis == 'time' else list(range(1, k + 1))
    return x[-hist:], rows[-hist:]


def check_limits(ax, x, ys, yr, what):
    lx, ly = ax.get_xlim(), ax.get_ylim()
    if not (lx[0] <= min(x) + 1e-9 and max(x) <= lx[1] + 1e-9):
        return f'{what}: x limits {lx} for {x}'
    if any(yr):
        if tuple(ly) != tuple(yr):
            return f'{what}: y limits {ly} instead of {yr}'
    elif not (ly[0] <= ys.min() + 1e-6 and ys.max() <= ly[1] + 1e-6):
        return f'{what}: y limits {ly} for {ys.tolist()}'


def run_plot(case, st):
    hist, axis, yr, n, seq = case
    from specula.base_value import BaseValue
    from specula.display.plot_display import PlotDisplay
    nv = max(n, 1)
    objs = [BaseValue() for _ in range(nv)]
    labels = ['one', 'two'] if hist != 3 else None
    with Fig(lambda: PlotDisplay(histlen=hist, x_axis=axis, yrange=tuple(yr), labels=labels)) as d, quiet():
        if n == 0:
            d.inputs['value'].set(objs[0])
        else:
            d.inputs['value_list'].set(objs)
        d.setup()
        ts, rows = [], []
        for i, s in enumerate(seq):
            t = (i + 2) * MS
            if s != '-':
                for k, o in enumerate(objs):
                    v = (i + 1) * (k + 2) * (-1) ** k * (1.5 if s == 'b' else 1)
                    if s == 'x' and k == nv - 1:
                        o.value = np.array([1., 2.])
                    else:
                        o.value = np.array([v]) if s == 'b' else np.float64(v)
                objs[i % nv].generation_time = t
            step(d, t)
            st.step()
            what = f'plot of {n} values, history {hist}, step {i} of {seq}'
            if s == 'x':
                if not errors(d.ax):
                    return f'{what}: no error shown'
                last_bad = True
                continue
            if s != '-':
                ts.append(t)
                rows.append([float(np.ravel(o.value)[0]) for o in objs])
                last_bad = False
            if not rows or last_bad:
                continue
            x, ys = series(ts, rows, hist, axis)
            ys = np.array(ys)
            if len(d.lines) != nv:
                return f'{what}: {len(d.lines)} lines'
            for k in range(nv):
                bad = check_line(d.ax, d.lines[k], x, ys[:, k], what)
                if bad:
                    return bad
            bad = check_limits(d.ax, x, ys, yr, what)
            if bad:
                return bad
            if nv > 1:
                want = [(labels or [])[k] if k < len(labels or []) else f'Input {k}' for k in range(nv)]
                got = [q.get_text() for q in d.ax.get_legend().get_texts()]
                if got != want:
                    return f'{what}: legend {got} instead of {want}'
            st.state(ys, np.array(x))


SELECT = ({}, {'indices': [0]}, {'indices': 2}, {'indices': [3, 1]}, {'indices': [1, 7]}, {'slice_args': [2]},
          {'slice_args': [1, 4, 2]}, {'slice_args': [None, None, -1]}, {'max_elements': 2},
          {'max_elements': None}, {'indices': [3, 2, 0], 'max_elements': 2}, {'legend_labels': ['u', 'v'], 'indices': [2, 0, 1]})


def gen_vector(tier):
    for sel in range(len(SELECT)):
        for hist, axis in itertools.product((2, 3), ('time', 'iteration')):
            for seq in itertools.product('abx-', repeat=3 if tier == 'quick' else 5):
                if ''.join(seq).strip('-')[:1] != 'x':      # the size is that of the first vector
                    yield [sel, hist, axis, (0, 0) if hist == 2 else (-3, 4), ''.join(seq)]


def run_vector(case, st):
    sel, hist, axis, yr, seq = case
    from specula.base_value import BaseValue
    from specula.display.plot_vector_display import PlotVectorDisplay
    kw = SELECT[sel]
    n = 5
    o = BaseValue()
    if 'slice_args' in kw:
        idx = list(range(n))[slice(*kw['slice_args'])]
    elif 'indices' in kw:
        q = kw['indices']
        idx = [j for j in ([q] if isinstance(q, int) else q) if j < n]
    else:
        idx = list(range(n))
    mx = kw.get('max_elements', 20)
    idx = idx[:mx] if mx else idx
    with Fig(lambda: PlotVectorDisplay(histlen=hist, x_axis=axis, yrange=tuple(yr), **kw)) as d, quiet():
        d.inputs['vector'].set(o)
        d.setup()
        ts, rows = [], []
        last_bad = False
        for i, s in enumerate(seq):
            t = (i + 2) * MS
            good = s in 'ab'
            if s != '-':
                if s == 'x':
                    o.value = np.zeros(n + 1)
                else:
                    v = (np.arange(n) - 1.5) * (i + 1) * (1 if s == 'a' else -2)
                    o.value = v if s == 'a' else v.reshape(1, n)
                o.generation_time = t
            step(d, t)
            st.step()
            what = f'vector {kw}, history {hist}, step {i} of {seq}'
            if s == 'x':
                if not errors(d.ax):
                    return f'{what}: no error shown'
                last_bad = True
                continue
            if good:
                ts.append(t)
                rows.append(o.value.ravel().tolist())
                last_bad = False
            if not rows or last_bad:
                continue
            x, ys = series(ts, rows, hist, axis)
            ys = np.array(ys)[:, idx]
            if len(d.lines) != len(idx):
                return f'{what}: {len(d.lines)} lines'
            for k in range(len(idx)):
                bad = check_line(d.ax, d.lines[k], x, ys[:, k], what)
                if bad:
                    return bad
            bad = check_limits(d.ax, x, ys, yr, what)
            if bad:
                return bad
            lab = kw.get('legend_labels', [])
            want = [lab[k] if k < len(lab) else f'Elem. {j}' for k, j in enumerate(idx)]
            got = [q.get_text() for q in d.ax.get_legend().get_texts()]
            if got != want:
                return f'{what}: legend {got} instead of {want}'
            st.state(ys, np.array(x))


# ---------------------------------------------------------------- pupils and pairs
PCROPS = ((None, 'slice'), ((1, 6, 0, 5), 'slice'), ((-6, -1, 2, 8), 'slice'), ((4, 3, 3, 2), 'center'),
          ((1, 6, 4, 9), 'center'))


def gen_pups(tier):
    for c, log, par in itertools.product(range(len(PCROPS)), (False, True), (False, True)):
        for seq in itertools.product('abp-' if tier == 'quick' else 'abpzq-', repeat=3):
            yield [c, log, par, ''.join(seq)]


def run_pups(case, st):
    c, log, par, seq = case
    from specula.base_value import BaseValue
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.pupdata import PupData
    from specula.display.pixels_pup_display import PixelsPupDisplay
    crop, mode = PCROPS[c]
    pix = Pixels(8, 8)
    pup = PupData(ind_pup=np.arange(8).reshape(2, 4), radius=np.full(4, 1.5), cx=np.array([2., 5, 2, 5]),
                  cy=np.array([1., 1, 6, 6]), framesize=np.array([8, 8]))
    pup.generation_time = 0
    prm = BaseValue()
    prm.value = {'mode': 3, 'gain': 0.5}
    with Fig(lambda: PixelsPupDisplay(log_scale=log, crop=crop, crop_mode=mode)) as d, quiet():
        d.inputs['in_pixels'].set(pix)
        d.inputs['in_pupdata'].set(pup)
        if par:
            d.inputs['in_params'].set(prm)
        d.setup()
        seen = False
        for i, s in enumerate(seq):
            t = (i + 1) * MS
            if s in 'abz':
                pix.pixels[:] = img_of(s, 8, 8)
                pix.generation_time = t
            elif s in 'pq':
                sh = 0.5 * (i + 1) * (1 if s == 'p' else -1)
                pup.cx = np.array([2., 5, 2, 5]) + sh
                pup.cy = np.array([1., 1, 6, 6]) - sh / 2
                pup.radius = np.array([1, 1.5, 2, 2.5]) + sh / 4
                pup.generation_time = t
            if step(d, t) != (s != '-'):
                return f'step {i} of {seq}: triggered {s == "-"}'
            st.step()
            if s == '-' and not seen:
                continue
            seen = True
            what = f'pupils crop={crop} {mode} log={log}, step {i} of {seq}'
            want = crop_ref(pix.pixels, crop, mode)
            lim = want.min(), want.max()
            if log:
                want, lim = logref(want, 1e-6)
            bad = check_image(d.ax, want, lim, what)
            if bad:
                return bad
            x0 = y0 = 0
            if crop is not None:
                corner = crop_ref(np.arange(64).reshape(8, 8), crop, mode)[0, 0]
                y0, x0 = divmod(int(corner), 8)
            if len(d.ax.patches) != 4:
                return f'{what}: {len(d.ax.patches)} circles'
            for k in range(4):
                xy = pup.cx[k] - x0, pup.cy[k] - y0
                p = d.ax.patches[k]
                if not np.allclose(p.center, xy) or not np.isclose(p.radius, pup.radius[k]):
                    return f'{what}: pupil {k} drawn at {p.center} radius {p.radius} instead of {xy} {pup.radius[k]}'
                if not np.allclose(d.ax.lines[k].get_xydata(), [xy]):
                    return f'{what}: centre {k} drawn at {d.ax.lines[k].get_xydata()} instead of {xy}'
            text = [q.get_text() for q in d.ax.texts]
            if len(text) != 1:
                return f'{what}: texts {text}'
            for k in range(4):
                w = f'P{k}: cx={pup.cx[k]:.1f}  cy={pup.cy[k]:.1f}  r={pup.radius[k]:.1f}\n'
                if w not in text[0]:
                    return f'{what}: {w!r} not in {text[0]!r}'
                for j in range(k + 1, 4):
                    w = f'd({k},{j}) = {np.hypot(pup.cx[k] - pup.cx[j], pup.cy[k] - pup.cy[j]):.2f}\n'
                    if w not in text[0]:
                        return f'{what}: {w!r} not in {text[0]!r}'
            if ('gain = 0.5' in text[0]) != par:
                return f'{what}: parameters: {text[0]!r}'
            if f't={pup.generation_time / 1e9:.2f} sec' not in text[0]:
                return f'{what}: time: {text[0]!r}'
            st.state(want, pup.cx, pup.cy)


def gen_double(tier):
    al = 'ab0x-'
    for s1 in itertools.product(al, repeat=2 if tier == 'quick' else 3):
        for s2 in itertools.product('ab-', repeat=len(s1)):
            yield [''.join(s1), ''.join(s2)]


def run_double(case, st):
    s1, s2 = case
    from specula.data_objects.electric_field import ElectricField
    from specula.display.double_phase_display import DoublePhaseDisplay
    n = 8
    e = [ElectricField(n, n, 0.1), ElectricField(n, n, 0.1)]
    cur = [np.zeros((n, n))] * 2
    with Fig(lambda: DoublePhaseDisplay(title='pair')) as d, quiet():
        d.inputs['phase1'].set(e[0])
        d.inputs['phase2'].set(e[1])
        d.setup()
        psds, shown = [], False
        for i, ss in enumerate(zip(s1, s2)):
            t = (i + 1) * MS
            for k, s in enumerate(ss):
                if s == '-':
                    continue
                a, p = phase_of(s, n)
                if s == 'x':
                    e[k].field = None
                else:
                    e[k].A[:], e[k].phaseInNm[:] = a, p
                    lit = a > 0
                    cur[k] = np.where(lit, p - (p[lit].mean() if lit.any() else 0), 0)
                e[k].generation_time = t
            fired = step(d, t)
            st.step()
            if fired != (ss != ('-', '-')):
                return f'step {i} of {case}: triggered {fired}'
            what = f'step {i} of {case}'
            if 'x' in ss:
                if not errors(d.ax):
                    return f'{what}: no error shown'
                e[0].field = np.zeros((2, n, n))
                cur[0] = np.zeros((n, n))
                shown = False
                continue
            if fired:
                shown = True
                psds.append([np.abs(np.fft.fftshift(np.fft.fft2(f)) / n ** 2) ** 2 for f in cur])
            if not shown:
                continue
            if d.fig._suptitle is None or d.fig._suptitle.get_text() != 'pair':
                return f'{what}: no title'
            axes = d.fig.axes
            if len(axes) != 4:
                return f'{what}: {len(axes)} plots'
            for k in range(2):
                bad = check_image(axes[k], cur[k], (cur[k].min(), cur[k].max()), what + f' phase {k + 1}')
                if bad:
                    return bad
                for j, psd in ((2, psds[-1][k]), (3, np.mean([q[k] for q in psds], axis=0))):
                    if len(axes[j].lines) != 2:
                        return f'{what}: {len(axes[j].lines)} spectra'
                    got = axes[j].lines[k].get_ydata()
                    want = psd[n // 2, n // 2 + 1:]
                    if not np.allclose(got, want, rtol=1e-4, atol=1e-9 * max(1, psd.max())):
                        return f'{what}: spectrum {j} of phase {k + 1} is {got} instead of {want}'
            if f'n={len(psds)})' not in axes[3].get_title():
                return f'{what}: title {axes[3].get_title()} after {len(psds)} frames'
            st.state(*cur, len(psds))


FAMILIES = [
    Family('images', gen_images, run_images, weight=8,
           what='fields, PSFs, slopes and detector images: every sequence of valid, dark, invalid or missing '
                'data x scale x crop region, also changed while running, and Shack-Hartmann images as pyramid ones'),
    Family('modes', gen_modes, run_modes, weight=2,
           what='vectors of modes of changing length and sign x axis ranges, set before or while running'),
    Family('plot', gen_plot, run_plot, weight=6,
           what='history of 1-3 values x length of the history x time or iterations x every sequence of refreshes '
                'and errors'),
    Family('vector', gen_vector, run_vector, weight=6,
           what='history of selected elements of a vector x every sequence of refreshes and errors'),
    Family('pupils', gen_pups, run_pups, weight=4,
           what='detector image with pupils x crop region x every sequence of refreshes of image and pupils'),
    Family('pairs', gen_double, run_double, weight=2,
           what='pairs of fields with their spectra, all sequences of refreshes and errors of both'),
]
