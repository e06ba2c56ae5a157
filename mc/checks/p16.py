"""P16: slope computers and their calibrations."""
import itertools
import math
import os

import numpy as np

from mc.core import Family
from mc.harness import step, feed, close, scratch

RULE = ('For every frame, threshold, weighting and history, the slopes are the stated function of '
        'the pixels of their own subaperture; a frame without light gives finite slopes; the '
        'calibrated geometry and reference are those of the frames which produced them')
ASSUMPTIONS = [
    'frames built from a small alphabet of subaperture images; the formulas are evaluated directly',
    'masks and weights with pixels exactly on the border of the radius are not used',
]


def tol():
    import specula
    return 2e-6 if specula.global_precision == 0 else 3e-5


def fresh(obj, px, frame, t):
    px.set_value(np.array(frame, dtype=float))
    px.generation_time = t
    ok = step(obj, t)
    if not np.allclose(px.get_value(), frame, rtol=1e-6, atol=0):
        raise AssertionError('the input pixels were modified')
    return ok


def check(obj, name, ref, t, lim=None):
    out = obj.outputs[name]
    v = np.array(out.get_value(), dtype=float)
    if not np.all(np.isfinite(v)):
        return f'{name} = {v.tolist()}'
    ref = np.array(ref, dtype=float)
    lim = lim or tol()
    if v.shape != ref.shape or \
            not np.all(np.abs(v - ref) <= lim * max(1.0, float(np.abs(ref).max()) if ref.size else 0)):
        return f'{name} = {v.tolist()}, expected {ref.tolist()}'
    if out.generation_time != t:
        return f'{name} has generation time {out.generation_time}, expected {t}'
    return None


# ------------------------------------------------------------------ Shack-Hartmann
def subaps(n, np_sub, order=None):
    """n subapertures side by side, given in any order: (SubapData, pixel lists)."""
    from specula.data_objects.subap_data import SubapData
    w = n * np_sub
    order = order or list(range(n))
    idx = []
    for s in order:
        idx.append([r * w + s * np_sub + c for r in range(np_sub) for c in range(np_sub)])
    idx = np.array(idx)
    return SubapData(idx.copy(), np.array(order), nx=n, ny=1), idx, (np_sub, w)


def xy_weights(n, exp, rad, windowing):
    """(x, y, mask) weights of the pixels in row-major order."""
    xs, ys, ms = [], [], []
    for r in range(n):
        for c in range(n):
            x, y = (2 * c + 1 - n) / n, (2 * r + 1 - n) / n
            if rad == 0:
                m = 1.0
            elif windowing:
                m = 1.0 if math.hypot(x, y) <= 2 * rad / n else 0.0
            else:
                sd = 2 * rad / (2 * math.sqrt(2 * math.log(2)))
                dr, dc = r - (n - 1) / 2, c - (n - 1) / 2
                best = 0.0 if n % 2 else 0.5
                m = math.exp(-0.5 * (dr * dr + dc * dc - 2 * best * best) / sd ** 2)
                if m < 1e-6:
                    m = 0.0
            xs.append(math.copysign(abs(x) ** exp, x) * m)
            ys.append(math.copysign(abs(y) ** exp, y) * m)
            ms.append(m)
    return np.array(xs), np.array(ys), np.array(ms)


def sh_ref(pix, thr, w):
    """pix: [subap, pixel] -> (sx, sy)"""
    x, y, m = w
    p = np.maximum(pix - (thr if thr > 0 else 0.0), 0.0)
    tot = (p * m).sum(axis=1)
    sx, sy = [], []
    for k in range(len(p)):
        if tot[k] <= 0 or tot[k] < 1e-3 * tot.mean():
            sx.append(0.0)
            sy.append(0.0)
        else:
            sx.append((p[k] * x).sum() / tot[k])
            sy.append((p[k] * y).sum() / tot[k])
    return sx, sy


def images(n):
    """Alphabet of images of one subaperture of n x n pixels."""
    z = np.zeros(n * n)
    res = [z.copy()]
    for k in range(n * n):
        a = z.copy()
        a[k] = 4.0
        res.append(a)
    res.append(np.full(n * n, 2.0))
    res.append(np.arange(n * n) * 1.0 + 1)
    res.append(np.arange(n * n)[::-1] * 3.0 - 2)
    a = z.copy()
    a[0] = 1e-4
    res.append(a)
    a = z - 1.0
    a[-1] = 7.0
    res.append(a)
    return res


def gen_sh(tier):
    confs = [(1.0, 0, False), (2.0, 0, False), (0.5, 0, False), (1.0, 0.8, False),
             (1.0, 0.8, True), (1.0, 1.1, True), (1.5, 1.3, False)]
    for n in (2, 3) if tier != 'thorough' else (2, 3, 4, 5):
        for exp, rad, win in confs:
            for thr in (-1, 0, 1.5):
                for inter in (False, True):
                    yield {'n': n, 'exp': exp, 'rad': rad, 'win': win, 'thr': thr, 'inter': inter}


def run_sh(case, st):
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.sh_slopec import ShSlopec
    n = case['n']
    imgs = images(n)
    w = xy_weights(n, case['exp'], case['rad'], case['win'])
    for nsub, order, use_sn in ((1, None, False), (2, None, True), (2, [1, 0], False),
                                (3, [2, 0, 1], True)):
        sd, idx, shape = subaps(nsub, n, order)
        sn = None
        snv = np.zeros(2 * nsub)
        if use_sn:
            snv = np.arange(2 * nsub) * 0.125 - 0.3
            # the reference is always given as x, then y
            sn = Slopes(slopes=snv.copy())
        o = ShSlopec(sd, sn=sn, thr_value=case['thr'], exp_weight=case['exp'],
                     weightedPixRad=case['rad'], windowing=case['win'], interleave=case['inter'])
        px = Pixels(shape[1], shape[0])
        px.generation_time = 0
        o.inputs['in_pixels'].set(px)
        o.setup()
        t = 0
        alphabet = imgs if nsub < 3 else imgs[::3] + [imgs[-1]]
        for word in itertools.product(range(len(alphabet)), repeat=nsub):
            t += 1
            frame = np.zeros(shape)
            pix = np.array([alphabet[k] for k in word])
            for k in range(nsub):
                frame.reshape(-1)[idx[k]] = pix[k]
            if not fresh(o, px, frame, t):
                return 'not triggered'
            st.step()
            sx, sy = sh_ref(pix, case['thr'], w)
            sx, sy = np.array(sx) - snv[:nsub], np.array(sy) - snv[nsub:]
            ref = np.stack([sx, sy], axis=1).reshape(-1) if case['inter'] else np.concatenate([sx, sy])
            flux = pix.sum(axis=1)
            for name, r in (('out_slopes', ref), ('out_flux_per_subaperture', flux),
                            ('out_total_counts', [flux.sum()]), ('out_subap_counts', [flux.mean()])):
                msg = check(o, name, r, t)
                if msg:
                    return f'{nsub} subapertures in order {order}, images {word}: {msg}'
            if step(o, t + 0.5):
                return 'triggered without new pixels'
        st.state(ref)
        if sn is not None and not np.array_equal(sn.slopes, snv.astype(sn.slopes.dtype)):
            return 'the reference slopes were modified'
    st.outcome(case['exp'], case['rad'], case['win'], case['thr'])
    return None


def gen_weight(tier):
    for dt in (1, 2, 3):
        for window in (False, True):
            yield {'dt': dt, 'window': window, 'len': 5 if tier != 'thorough' else 6}


def run_weight(case, st):
    """Weights from the frames accumulated, for all words of frames."""
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.sh_slopec import ShSlopec
    n, nsub = 2, 2
    sd, idx, shape = subaps(nsub, n)
    frames = [np.array([[4., 1, 0, 2], [0., 0, 0, 0]]), np.array([[1., 2, 3, 6], [5., 5, 0, 1]]),
              np.array([[0., 0, 0, 0], [0., 0, 0, 0]])]
    w = xy_weights(n, 1.0, 0, False)
    for word in itertools.product(range(3), repeat=case['len']):
        o = ShSlopec(sd, weight_int_pixel_dt=case['dt'] * 0.001, window_int_pixel=case['window'],
                     window_int_threshold=3.0)
        px = Pixels(shape[1], shape[0])
        px.generation_time = 0
        o.inputs['in_pixels'].set(px)
        o.setup()
        acc = np.zeros((nsub, n * n))
        wt = np.ones((nsub, n * n))
        reset = False
        for k, letter in enumerate(word):
            t = k * 1_000_000
            pix = frames[letter]
            frame = np.zeros(shape)
            for s in range(nsub):
                frame.reshape(-1)[idx[s]] = pix[s]
            if not fresh(o, px, frame, t):
                return 'not triggered'
            st.step()
            if reset:
                acc = np.zeros((nsub, n * n))
                reset = False
            acc = acc + pix
            if k and k % case['dt'] == 0:
                a = acc - acc.min(axis=1, keepdims=True)
                mx = a.max(axis=1)
                if not np.any(mx > 0):
                    wt = np.ones_like(a)
                elif case['window']:
                    wt = ((a >= 3.0) | (a[:, ::-1] >= 3.0)).astype(float)
                    wt[mx <= 0] = 1
                else:
                    wt = np.array([a[s] / mx[s] if mx[s] > 0 else np.ones(n * n)
                                   for s in range(nsub)])
                reset = True
            sx, sy = sh_ref(pix * wt, -1, w)
            msg = check(o, 'out_slopes', sx + sy, t)
            if msg:
                return f'frames {word[:k + 1]}: {msg}'
        st.state(word, wt)
    st.outcome(case['dt'], case['window'])
    return None


def gen_radius(tier):
    for perm in itertools.permutations(range(3)):
        yield {'radii': [[0.6, 0.9, 1.4][k] for k in perm]}


def run_radius(case, st):
    """Weight radius scheduled in time."""
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.sh_slopec import ShSlopec
    n, nsub = 3, 2
    sd, idx, shape = subaps(nsub, n)
    imgs = images(n)
    times = [0.0015, 0.0025, 0.0045]
    for vec in (lambda v: v, lambda v: np.array(v)):
        o = ShSlopec(sd, weightedPixRad=0.0,
                     vecWeiPixRadT=vec([[r, t] for r, t in zip(case['radii'], times)]))
        px = Pixels(shape[1], shape[0])
        px.generation_time = 0
        o.inputs['in_pixels'].set(px)
        o.setup()
        for k in range(7):
            t = k * 1_000_000
            pix = np.array([imgs[-3 + k % 2], imgs[2 + k]])
            frame = np.zeros(shape)
            for s in range(nsub):
                frame.reshape(-1)[idx[s]] = pix[s]
            if not fresh(o, px, frame, t):
                return 'not triggered'
            st.step()
            past = [r for r, tt in zip(case['radii'], times) if k * 0.001 > tt]
            rad = past[-1] if past else 0
            sx, sy = sh_ref(pix, -1, xy_weights(n, 1.0, rad, False))
            msg = check(o, 'out_slopes', sx + sy, t)
            if msg:
                return f'step {k}, radius {rad}: {msg}'
        st.state(case)
    st.outcome(case['radii'])
    return None


# ------------------------------------------------------------------ pyramid, double roof
def gen_pyr(tier):
    for roof in (False, True):
        for mode in ('default', 'norm', 'shlike', 'intensity'):
            for thr in (0, 1.0):
                for sn in (False, True):
                    yield {'roof': roof, 'mode': mode, 'thr': thr, 'sn': sn,
                           'letters': 3 if tier != 'thorough' else 4}


def run_pyr(case, st):
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.pupdata import PupData
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.pyr_slopec import PyrSlopec
    from specula.processing_objects.double_roof_slopec import DoubleRoofSlopec
    # 4x6 frame, two pixels per pupil, not in the order of the frame
    ind = np.array([[4, 1, 12, 23], [9, 6, 19, 16]])
    n = 2
    kw = {'norm': {'norm_factor': 2.5}, 'shlike': {'shlike': True},
          'intensity': {'slopes_from_intensity': True}}.get(case['mode'], {})
    ns = 4 * n if case['mode'] == 'intensity' else 2 * n
    snv = np.arange(ns) * 0.25 - 0.5
    if case['sn']:
        kw['sn'] = Slopes(slopes=snv.copy())
    cls = DoubleRoofSlopec if case['roof'] else PyrSlopec
    pd = PupData(ind_pup=ind.copy(), framesize=[4, 6])
    o = cls(pd, thr_value=case['thr'], **kw)
    px = Pixels(6, 4)
    px.generation_time = 0
    o.inputs['in_pixels'].set(px)
    o.setup()
    vals = [0.0, 1.0, 3.5, 8.0][:case['letters']]
    t = 0
    for word in itertools.product(vals, repeat=4 * n):
        t += 1
        frame = np.full((4, 6), 50.0)      # light outside of the pupils must not matter
        q = np.array(word).reshape(n, 4)
        frame.reshape(-1)[ind] = q
        if not fresh(o, px, frame, t):
            return 'not triggered'
        st.step()
        q = np.maximum(q - case['thr'], 0)
        A, B, C, D = q.T
        tot = q.sum()
        if case['mode'] == 'intensity':
            f = 4 * n / tot if tot > 0 else 0.0
            ref = np.concatenate([A, B, C, D]) * f
        else:
            if case['mode'] == 'norm':
                f = 1 / 2.5
            elif case['mode'] == 'shlike':
                f = 1 / tot if tot > 0 else 0.0
            else:
                f = n / tot if tot > 0 else 0.0
            if case['roof']:
                ref = np.concatenate([A - B, D - C]) * f
            else:
                ref = np.concatenate([A + B - C - D, B + C - A - D]) * f
        if case['sn']:
            ref = ref - snv
        for name, r in (('out_slopes', ref), ('out_flux_per_subaperture', q.sum(axis=1)),
                        ('out_total_counts', [tot]), ('out_subap_counts', [tot / n])):
            msg = check(o, name, r, t)
            if msg:
                return f'pupils {q.tolist()}: {msg}'
        if t % 97 == 0:
            st.state(ref)
    st.outcome(case['mode'], case['roof'])
    return None


def gen_single(tier):
    for kind in ('zwfs', 'cur'):
        for thr in (0.0, 0.75):
            for sn in (False, True):
                for size, diam in ((2, 3), (3, 2.5), (4, 2.4)):
                    yield {'kind': kind, 'thr': thr, 'sn': sn, 'size': size, 'diam': diam}


def run_single(case, st):
    """Zernike and curvature sensors: one value per pixel of the pupil."""
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.zwfs_slopec import ZwfsSlopec
    from specula.processing_objects.cur_wfs_slopec import CurWfsSlopec
    n = case['size']
    pos = [(r, c) for r in range(n) for c in range(n)
           if math.hypot(2 * r + 1 - n, 2 * c + 1 - n) < case['diam']]
    m = len(pos)
    snv = np.arange(m) * 0.25 - 0.5
    sn = Slopes(slopes=snv.copy()) if case['sn'] else None
    px = [Pixels(n, n) for _ in range(2)]
    for p in px:
        p.generation_time = 0
    if case['kind'] == 'zwfs':
        o = ZwfsSlopec(pup_diam=case['diam'], ccd_size=n, thr_value=case['thr'], sn=sn)
        o.inputs['in_pixels'].set(px[0])
        words = itertools.product((0.0, 1.0, 4.0), repeat=m)
    else:
        if case['thr']:
            return None
        o = CurWfsSlopec(diameter=case['diam'], ccd_size=(n, n), sn=sn)
        o.inputs['in_pixels1'].set(px[0])
        o.inputs['in_pixels2'].set(px[1])
        words = itertools.product((0.0, 1.0, 4.0), repeat=2 * m) if m < 5 else \
            itertools.product((0.0, 3.0), repeat=2 * m)
    o.setup()
    t = 0
    for word in words:
        t += 1
        vals = [np.array(word[:m]), np.array(word[m:])]
        for k in range(2):
            frame = np.full((n, n), 9.0)
            if len(vals[k]):
                for (r, c), v in zip(pos, vals[k]):
                    frame[r, c] = v
            px[k].set_value(frame)
            px[k].generation_time = t
        if not step(o, t):
            return 'not triggered'
        st.step()
        if case['kind'] == 'zwfs':
            v = vals[0] - case['thr']
            flux = v
            tot = v.sum()
            if abs(tot) < 1e-12 and np.any(v):
                continue
            ref = v / (tot / m) if tot else np.zeros(m)
        else:
            flux = vals[0] + vals[1]
            ref = np.array([(a - b) / (a + b) if a + b > 0 else 0.0 for a, b in zip(*vals)])
        if case['sn']:
            ref = ref - snv
        for name, r in (('out_slopes', ref), ('out_flux_per_subaperture', flux),
                        ('out_total_counts', [flux.sum()]), ('out_subap_counts', [flux.sum() / m])):
            msg = check(o, name, r, t, 5e-6)
            if msg:
                return f'pixels {[v.tolist() for v in vals]}: {msg}'
    st.state(ref)
    st.outcome(case['kind'], m)
    return None


# ------------------------------------------------------------------ filtering, reference
def gen_filt(tier):
    for nm in (1, 2, 3):
        for inter in (False, True):
            yield {'nm': nm, 'inter': inter}


def run_filt(case, st):
    """Slopes filtered by a pair of matrices: the filtered modes disappear, the others stay."""
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.sh_slopec import ShSlopec
    n, nsub = 2, 2
    sd, idx, shape = subaps(nsub, n)
    base = np.array([[1., 1, 0, 0], [0, 0, 1., 1], [1, -1, 2., 0.5]])[:case['nm']].T  # [slopes, modes]
    rec = np.linalg.pinv(base).T
    imgs = images(n)
    w = xy_weights(n, 1.0, 0, False)
    o = ShSlopec(sd, filtmat=np.array([base, rec]), interleave=case['inter'])
    px = Pixels(shape[1], shape[0])
    px.generation_time = 0
    o.inputs['in_pixels'].set(px)
    o.setup()
    t = 0
    for word in itertools.product(range(len(imgs)), repeat=nsub):
        t += 1
        pix = np.array([imgs[k] for k in word])
        frame = np.zeros(shape)
        for s in range(nsub):
            frame.reshape(-1)[idx[s]] = pix[s]
        if not fresh(o, px, frame, t):
            return 'not triggered'
        st.step()
        sx, sy = sh_ref(pix, -1, w)
        s = np.stack([sx, sy], axis=1).reshape(-1) if case['inter'] else np.array(sx + sy)
        ref = s - base @ (np.linalg.pinv(base) @ s)
        msg = check(o, 'out_slopes', ref, t, 1e-5)
        if msg:
            return f'images {word}: {msg}'
        if np.abs(np.linalg.pinv(base) @ np.array(o.outputs['out_slopes'].slopes)).max() > 1e-4:
            return f'images {word}: a filtered mode is still there'
    st.state(ref)
    st.outcome(case['nm'])
    return None


def gen_sn(tier):
    for nfr in (1, 2, 3):
        for inter in (False, True):
            for over in (False, True):
                yield {'n': nfr, 'inter': inter, 'over': over}


def run_sn(case, st):
    """The reference calibrated on some frames is their mean; using it, their mean is zero."""
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.sh_slopec import ShSlopec
    from specula.processing_objects.sn_calibrator import SnCalibrator
    n, nsub = 2, 3
    sd, idx, shape = subaps(nsub, n)
    imgs = images(n)
    words = list(itertools.product((1, 4, 6), repeat=nsub))
    d = os.path.join(scratch(), 'sn')
    os.makedirs(d, exist_ok=True)
    for first in range(0, len(words) - case['n'], 4):
        seq = words[first:first + case['n']]
        path = os.path.join(d, 'ref.fits')
        if os.path.exists(path):
            os.remove(path)
        if case['over']:
            Slopes(slopes=np.arange(6.)).save(path)
        cal = SnCalibrator(data_dir=d, output_tag='ref', overwrite=case['over'])

        def run(sn, calib=None):
            o = ShSlopec(sd, sn=sn, interleave=case['inter'])
            px = Pixels(shape[1], shape[0])
            px.generation_time = 0
            o.inputs['in_pixels'].set(px)
            if calib:
                calib.inputs['in_slopes'].set(o.outputs['out_slopes'])
            o.setup()
            if calib:
                calib.setup()
            res = []
            for t, word in enumerate(seq):
                frame = np.zeros(shape)
                for s in range(nsub):
                    frame.reshape(-1)[idx[s]] = imgs[word[s]]
                if not fresh(o, px, frame, t + 1):
                    raise AssertionError('not triggered')
                if calib and not step(calib, t + 1):
                    raise AssertionError('calibrator not triggered')
                st.step()
                res.append(np.array(o.outputs['out_slopes'].slopes, dtype=float))
            return np.array(res)
        raw = run(None, cal)
        cal.finalize()
        sn = Slopes.restore(path)
        if not close(np.array(sn.slopes), raw.mean(axis=0), 1e-6):
            return f'frames {seq}: reference {np.array(sn.slopes).tolist()}, mean {raw.mean(axis=0).tolist()}'
        rel = run(sn)
        if np.abs(rel.mean(axis=0)).max() > 1e-6:
            return f'frames {seq}: with its own reference the mean slopes are {rel.mean(axis=0).tolist()}'
        if not case['over']:
            try:
                SnCalibrator(data_dir=d, output_tag='ref')
                return 'would overwrite an existing reference'
            except FileExistsError:
                pass
        st.state(raw)
    st.outcome(case['n'], case['inter'])
    return None


# ------------------------------------------------------------------ geometry
def gen_subap(tier):
    for nl in (2, 3):
        for np_sub in (2, 3, 4):
            for src in ('in_i', 'in_pixels'):
                yield {'nl': nl, 'np': np_sub, 'src': src}


def run_subap(case, st):
    """All the subsets of lit subapertures."""
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.subap_data import SubapData
    from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
    from specula.processing_objects.sh_slopec import ShSlopec
    nl, n = case['nl'], case['np']
    size = nl * n
    d = scratch()
    for mask in range(1, 1 << (nl * nl)):
        frame = np.zeros((size, size))
        lit = [k for k in range(nl * nl) if mask >> k & 1]
        for k in range(nl * nl):
            r, c = divmod(k, nl)
            frame[r * n + k % n, c * n + (k // 2) % n] = (10.0 + 0.1 * k) if k in lit else 4.0
        cal = ShSubapCalibrator(nl, data_dir=d, energy_th=0.5, output_tag='mcsub', overwrite=True)
        if case['src'] == 'in_i':
            obj = Intensity(size, size)
            obj.i[:] = frame
        else:
            obj = Pixels(size, size)
            obj.pixels[:] = frame
        obj.generation_time = 1
        cal.inputs[case['src']].set(obj)
        cal.setup()
        if not step(cal, 1):
            return 'not triggered'
        st.step()
        sd = cal.subaps
        if mask % 37 == 0:
            cal.finalize()
            sd = SubapData.restore(os.path.join(d, 'mcsub.fits'))
        if sd.n_subaps != len(lit) or sd.np_sub != n:
            return f'lit {lit}: {sd.n_subaps} subapertures of {sd.np_sub} pixels'
        seen = set()
        for k in range(sd.n_subaps):
            px = np.array(sd.idxs[k])
            r0, c0 = divmod(int(px.min()), size)
            want = [(r0 + i) * size + c0 + j for i in range(n) for j in range(n)]
            if px.tolist() != want or r0 % n or c0 % n:
                return f'lit {lit}: subaperture {k} has pixels {px.tolist()}'
            cell = (r0 // n) * nl + c0 // n
            seen.add(cell)
            if int(sd.display_map[k]) != cell:
                return f'lit {lit}: subaperture {k} in cell {cell} is displayed in {int(sd.display_map[k])}'
        if seen != set(lit):
            return f'lit {lit}: found {sorted(seen)}'
        m = np.array(sd.single_mask()).reshape(-1)
        if set(np.flatnonzero(m)) != set(lit):
            return f'lit {lit}: mask {m.tolist()}'
        if mask % 5 == 0:
            # the slopes map shows every slope in the cell where its light is
            o = ShSlopec(sd)
            p = Pixels(size, size)
            p.pixels[:] = frame
            p.generation_time = 1
            o.inputs['in_pixels'].set(p)
            o.setup()
            step(o, 1)
            fx, fy = np.array(o.outputs['out_slopes'].get2d(), dtype=float)
            for k in range(nl * nl):
                r, c = divmod(k, nl)
                want = (0.0, 0.0) if k not in lit else \
                    ((2 * ((k // 2) % n) + 1 - n) / n, (2 * (k % n) + 1 - n) / n)
                got = (fx[r, c], fy[r, c])
                if max(abs(got[0] - want[0]), abs(got[1] - want[1])) > 1e-5:
                    return f'lit {lit}: cell {k} shows slopes {got}, expected {want}'
        st.state(mask)
    st.outcome(nl, n)
    return None


def gen_pupil(tier):
    for inten in (False, True):
        for size in (20, 24, 32):
            for rad in (2.2, 3.1, 4.2):
                if (size // 2 - 1) // 2 - 1 < int(rad):
                    continue        # the pupils must lie inside their quadrants
                for obs in (0.0, 0.4):
                    yield {'inten': inten, 'size': size, 'rad': rad, 'obs': obs,
                           'moves': 2 if tier != 'thorough' else 3}


def run_pupil(case, st):
    """Four pupils anywhere in their quadrants: the pixels found are theirs, in the same order."""
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
    from specula.processing_objects.pyr_slopec import PyrSlopec
    n = case['size']
    h = n // 2
    shifts = [(0, 0), (-1, 0), (0, 1), (1, -1)][:case['moves'] + 1]
    base = (h - 1) // 2
    for dt in (None, 0.002):
        for move in itertools.product(shifts, repeat=2):
            move = (move[0], (0, 0), move[1], (0, 0))
            frame = np.zeros((n, n))
            discs = []
            for q in range(4):
                cy = base + (q // 2) * h + move[q][1]
                cx = base + (q % 2) * h + move[q][0]
                d = [(y, x) for y in range(n) for x in range(n)
                     if math.hypot(y - cy, x - cx) <= case['rad']]
                discs.append(((cy, cx), d))
                for y, x in d:
                    frame[y, x] = 10.0
            cal = PyrPupdataCalibrator(data_dir=scratch(), dt=dt, thr1=0.1, thr2=0.25,
                                       slopes_from_intensity=case['inten'], output_tag='mcpup',
                                       auto_detect_obstruction=False, save_on_exit=False)
            cal.central_obstruction_ratio = case['obs']
            img = Intensity(n, n)
            img.i[:] = frame
            img.generation_time = 0
            cal.inputs['in_i'].set(img)
            cal.setup()
            for t in range(3):
                img.generation_time = t * 1_000_000
                if not step(cal, t * 1_000_000):
                    return 'not triggered'
                st.step()
            pd = cal.pupdata
            ind = np.array(pd.ind_pup)
            order = [1, 0, 2, 3]
            for k in range(4):
                (cy, cx), d = discs[order[k]]
                req = math.sqrt(len(d) / math.pi)
                want = [y * n + x for y in range(n) for x in range(n)
                        if req * case['obs'] <= math.hypot(y - cy, x - cx) <= req]
                if ind[:, k].tolist() != want:
                    return f'pupils moved by {move}: pupil {k} has {ind[:, k].tolist()}, expected {want}'
                if abs(float(pd.cx[k]) - cx) > 1e-6 or abs(float(pd.cy[k]) - cy) > 1e-6:
                    return f'pupils moved by {move}: centre {k} at {float(pd.cx[k])}, {float(pd.cy[k])}'
            # slopes of a frame with one brighter pupil: the same in every subaperture
            o = PyrSlopec(pd)
            px = Pixels(n, n)
            g = [1.0, 2.0, 4.0, 8.0]
            f2 = np.zeros((n, n))
            for k in range(4):
                f2.flat[ind[:, k]] = g[k]
            px.pixels[:] = f2
            px.generation_time = 1
            o.inputs['in_pixels'].set(px)
            o.setup()
            step(o, 1)
            m = len(ind)
            ref = [(1 + 2 - 4 - 8) / 15.0] * m + [(2 + 4 - 1 - 8) / 15.0] * m
            msg = None if case['inten'] else check(o, 'out_slopes', ref, 1)
            if msg:
                return f'pupils moved by {move}: {msg}'
            st.state(ind)
    st.outcome(case['inten'], n)
    return None


FAMILIES = [
    Family('sh', gen_sh, run_sh, precisions=(0, 1), weight=4, what='centroids'),
    Family('weight', gen_weight, run_weight, precisions=(0,), weight=1,
           what='weights from accumulated frames'),
    Family('radius', gen_radius, run_radius, precisions=(0,), weight=1, what='scheduled weights'),
    Family('pyr', gen_pyr, run_pyr, precisions=(0, 1), weight=6, what='pyramid and double roof'),
    Family('single', gen_single, run_single, precisions=(0,), weight=2,
           what='Zernike and curvature sensors'),
    Family('filt', gen_filt, run_filt, precisions=(0,), weight=1, what='filtered slopes'),
    Family('sn', gen_sn, run_sn, precisions=(0,), weight=1, what='reference slopes'),
    Family('subap', gen_subap, run_subap, precisions=(0,), weight=4,
           what='all sets of lit subapertures'),
    Family('pupil', gen_pupil, run_pupil, precisions=(0,), weight=2, what='pupil detection'),
]
