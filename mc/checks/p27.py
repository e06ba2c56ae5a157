"""P27: sources with an extent, and the sensors of curvature, interference and ideal derivatives."""
import itertools
import math
import warnings

import numpy as np

from mc.core import Family
from mc.harness import step, close, simul_params
from mc.checks.p13 import extrap_ref, overlap

RULE = ('every configuration up to the stated bounds builds the real source or sensor; every '
        'sequence of fields, images or PSFs drives it, and each output is compared with the '
        'definition computed for that step alone')
ASSUMPTIONS = ['fields of 6-20 pixels, images of 8-17, sources of at most 300 points',
               'interpolation of fields and resampling of images as P13 states them',
               'CPU, one process']
MS = 1_000_000
RAD2ASEC = 206264.80624709636


class quiet:
    def __enter__(self):
        import io
        import sys
        self.old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.old


def resample(a, shape):
    """Areas of the old pixels in each new one."""
    return overlap(a.shape[0], shape[0]) @ a @ overlap(a.shape[1], shape[1]).T


def disc(n, hole=0.0):
    c = np.arange(n) - (n - 1) / 2
    r = np.hypot(c[:, None], c[None, :])
    return ((r <= n / 2) & (r >= hole * n / 2)).astype(float)


def smooth(n, k):
    c = (np.arange(n) - (n - 1) / 2) / n
    y, x = c[:, None], c[None, :]
    if k == 0:
        return np.zeros((n, n)) * x * y
    if k == 1:
        return 60 * x + 20 * y + 90 * x * y
    return -40 * x + 150 * (x * x - y * y / 2) + 70 * y


# ---------------------------------------------------------------- curvature sensor
def gen_curv(tier):
    sizes = ((16, 16), (16, 12), (12, 16), (16, 8), (18, 9)) if tier == 'quick' else tuple(
        (n, q) for n in (12, 16, 18) for q in range(6, n + 1))
    for (n, fov), npx in itertools.product(sizes, (8, 16, 11)):
        for defocus in (0., 80., -150.):
            yield {'kind': 'exact', 'n': n, 'fov': fov, 'npx': npx, 'defocus': defocus}
    for n, ratio, ovs in itertools.product((24, 32), (1.0, 1.25, 1.5), (1.0, 1.5, 2.0, 3.0)):
        for fov in (10, 16):
            yield {'kind': 'scale', 'n': n, 'ratio': ratio, 'ovs': ovs, 'fov': fov}


def run_curv(case, st):
    from specula.data_objects.electric_field import ElectricField
    from specula.processing_objects.curvature_sensor import CurvatureSensor
    lam = 500.
    n = case['n']
    px = 0.1
    ratio = case.get('ratio', 1.0)
    pitch = lam * 1e-9 / (n * ratio * px / RAD2ASEC)
    ef = ElectricField(n, n, pitch, S0=3.0)
    A = disc(n)
    ef.A[:] = A
    ef.generation_time = 0
    exact = case['kind'] == 'exact'
    # field of view in pixels of the focal plane: lambda / D = ratio * px
    scale = ratio * px
    fov = (case['fov'] - 0.001) * scale
    npx = case.get('npx', case['fov'] * 2)
    s = CurvatureSensor(lam, fov, px, npx, case.get('defocus', 0.),
                        fov_ovs_coeff=case.get('ovs', 1.0))
    s.inputs['in_ef'].set(ef)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s.setup()
    area = A.sum() * pitch ** 2
    if exact:
        c = np.arange(n) - n / 2 + 0.5
        rho = np.hypot(c[:, None], c[None, :]) / (n / 2)
        z4 = math.sqrt(3) * (2 * rho ** 2 - 1)
        frames = [(smooth(n, k), 3.0 + k) for k in (1, 2, 0, 1)]
    else:
        x = (np.arange(n) - (n - 1) / 2) * pitch
        frames = [((ty * x[:, None] + tx * x[None, :]) / RAD2ASEC * 1e9, 3.0)
                  for tx, ty in ((0, 0), (0.3, 0), (0, -0.2), (-0.25, 0.15), (0, 0))]
    base = None
    for t, (ph, s0) in enumerate(frames):
        ef.phaseInNm[:] = ph
        ef.S0 = s0
        ef.generation_time = t * MS
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if not step(s, t * MS):
                return f'step {t}: not triggered'
        st.step()
        got = [s.outputs['out_i1'].i, s.outputs['out_i2'].i]
        if not (np.array_equal(ef.phaseInNm, ph) and np.array_equal(ef.A, A)):
            return f'step {t}: the field was changed'
        for k, g in enumerate(got):
            if s.outputs[f'out_i{k + 1}'].generation_time != t * MS:
                return f'step {t}: image {k + 1} not refreshed'
            if abs(g.sum() - s0 * area) > 1e-6 * s0 * area:
                return f'step {t}: image {k + 1} has {g.sum()} photons, expected {s0 * area}'
        if exact:
            fpx = case['fov']
            for k, sign in enumerate((1, -1)):
                E = A * np.exp(2j * np.pi / lam * (ph + sign * case['defocus'] * z4))
                f = np.arange(n) - n // 2
                D = np.exp(-2j * np.pi * np.outer(f, np.arange(n)) / n)
                I = np.abs(D @ E @ D.T) ** 2
                start = (n - fpx) // 2
                cc = np.arange(n) - (n - 1) / 2
                # circular field stop of the size of the field of view, centred on the grid
                I = I * (np.hypot(cc[:, None], cc[None, :]) <= (fpx - 0.001) / 2)
                I = I[start:start + fpx, start:start + fpx]
                ref = resample(I, (npx, npx))
                ref = ref / ref.sum() * s0 * area
                if not close(got[k], ref, 2e-5):
                    return f'step {t}: image {k + 1} {got[k][npx // 2].tolist()}, expected ' \
                           f'{ref[npx // 2].tolist()}'
        else:
            if not close(got[0], got[1], 1e-6):
                return f'step {t}: the images differ without defocus'
            q = (np.arange(npx) - (npx - 1) / 2) * fov / npx
            g = got[0]
            # brightest region only: the wings are cut by the field stop
            g = np.where(g > 0.1 * g.max(), g, 0)
            cx, cy = (g.sum(0) @ q) / g.sum(), (g.sum(1) @ q) / g.sum()
            if base is None:
                base = cx, cy
                if max(abs(cx), abs(cy)) > 1.1 * scale:
                    return f'the image of a flat field is at {cx}, {cy} arcsec'
                tx = ty = 0
            tx, ty = ((0, 0), (0.3, 0), (0, -0.2), (-0.25, 0.15), (0, 0))[t]
            if max(abs(cx - base[0] - tx), abs(cy - base[1] - ty)) > 0.6 * scale:
                return f'a field tilted by {tx}, {ty} arcsec has its image moved by ' \
                       f'{cx - base[0]:.3f}, {cy - base[1]:.3f} arcsec'
        st.state(got[0], got[1])
    st.outcome(got[0].shape)
    return None


# ---------------------------------------------------------------- interferometer
def gen_ciao(tier):
    for n, npx in ((8, 8), (8, 4), (9, 6), (6, 9)):
        for flux in (0., 0.2, 0.5, 1.):
            for tilt in (0.4, (0.3, -0.2), (0., 0.)):
                for norm in (False, True):
                    yield {'n': n, 'npx': npx, 'flux': flux, 'tilt': tilt, 'norm': norm}


def run_ciao(case, st):
    from specula.data_objects.electric_field import ElectricField
    from specula.processing_objects.ciao_ciao_sensor import CiaoCiaoSensor
    n, npx, lam, pitch = case['n'], case['npx'], 600., 0.1
    s = CiaoCiaoSensor(lam, npx, diffRotAngleInDeg=0., tiltInArcsec=case['tilt'],
                       channel_flux=case['flux'], normalize_flux=case['norm'])
    ef = ElectricField(n, n, pitch, S0=3.0)
    A = disc(n, 0.3)
    ef.A[:] = A
    ef.generation_time = 0
    s.inputs['in_ef'].set(ef)
    s.setup()
    tx, ty = (case['tilt'], 0.) if isinstance(case['tilt'], float) else case['tilt']
    for t, k in enumerate((1, 2, 0, 1)):
        ph = smooth(n, k)
        amp = A * (1 + 0.5 * (k == 2))
        ef.A[:] = amp
        ef.phaseInNm[:] = ph
        ef.S0 = 3.0 + t
        ef.generation_time = t * MS
        step(s, t * MS)
        st.step()
        got = s.outputs['out_i'].i
        E = amp * np.exp(2j * np.pi / lam * ph)
        best = None
        # the tilt is zero on pixel n//2 when n is even, on the centre when it is odd
        c = (np.arange(n) - n // 2) * pitch
        ramp = (tx * c[None, :] + ty * c[:, None]) / RAD2ASEC
        E2 = E * np.exp(2j * np.pi / lam * 1e9 * ramp)
        I = np.abs(math.sqrt(2 * case['flux']) * E + math.sqrt(2 - 2 * case['flux']) * E2) ** 2
        ref = resample(I, (npx, npx)) if npx != n else I
        if case['norm']:
            tot = ef.S0 * (amp > 0).sum() * pitch ** 2
            tot2 = ef.S0 * (amp ** 2).sum() * pitch ** 2
            tot3 = ef.S0 * amp.sum() * pitch ** 2
            best = min((abs(got.sum() - x), x) for x in (tot, tot2, tot3))[1]
            ref = ref / ref.sum() * best
            if abs(best - ef.S0 * ef.masked_area()) > 1e-6 * best:
                return f'step {t}: {got.sum()} photons, the field has {ef.S0 * ef.masked_area()}'
        if not close(got, ref, 1e-5):
            return f'step {t}: {got[npx // 2].tolist()}, expected {ref[npx // 2].tolist()}'
        if s.outputs['out_i'].generation_time != t * MS:
            return f'step {t}: not refreshed'
        st.state(got)
    st.outcome(n, npx)
    return None


# ---------------------------------------------------------------- its slopes
def gen_opd(tier):
    for n, m in ((12, 12), (13, 13), (16, 12), (15, 16), (12, 13)):
        for kx, ky in ((4, 0), (0, 3), (3, -2), (-4, 1), (0, 0)):
            for sigma in (1.0, 2.5):
                for mask in (None, 'disc', 'bigger', 'rot'):
                    if mask == 'rot' and n != m:
                        continue
                    yield {'n': n, 'm': m, 'k': (ky, kx), 'sigma': sigma, 'mask': mask}


def run_opd(case, st):
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.pupilstop import Pupilstop
    from specula.processing_objects.ciao_ciao_slopec import CiaoCiaoSlopec
    n, m = case['n'], case['m']
    ky, kx = case['k']
    lam, sig = 700., case['sigma']
    wy, wx = n // 2 + ky, m // 2 + kx
    valid = np.ones((n, m), bool)
    stop = None
    rot = 0.
    if case['mask'] is not None:
        if case['mask'] == 'bigger':
            a = np.zeros((2 * n, 2 * m))
            a[n // 2:n + n // 2, 4:2 * m - 4] = 1
        else:
            a = np.zeros((n, m))
            a[2:n - 2, 3:m - 2] = 1
            if case['mask'] == 'rot':
                a[:] = 0
                a[2:n - 2, 2:n // 2 + 2] = 1
                rot = 180.
        sp = simul_params(pixel_pupil=8, pixel_pitch=0.1)
        stop = Pupilstop(sp, input_mask=a) if a.shape == (8, 8) else None
        if stop is None:
            sp = simul_params(pixel_pupil=max(a.shape), pixel_pitch=0.1)
            stop = Pupilstop(sp)
            stop.field = np.zeros((2,) + a.shape)
            stop.A[:] = a
        if case['mask'] == 'bigger':
            valid = None
        else:
            valid = a > 0.5
            if rot:
                valid = valid & (a[::-1, ::-1] > 0.5)
    o = CiaoCiaoSlopec(lam, wx, wy, sig, stop, diffRotAngleInDeg=rot)
    px = Pixels(m, n)
    px.generation_time = 0
    o.inputs['in_pixels'].set(px)
    o.setup()
    y, x = np.arange(n)[:, None], np.arange(m)[None, :]
    car = 2 * np.pi * (ky * y / n + kx * x / m)
    images = [50 + 20 * np.cos(car + 0.7), 30 + 10 * np.cos(car - 2.0 + 2 * np.pi * x / m),
              40 + ((3 * x + 7 * y) % 11), np.zeros((n, m)) * x * y + 5.,
              50 + 20 * np.cos(car + 0.7)]
    fy, fx = np.arange(n) - n // 2, np.arange(m) - m // 2
    Dy = np.exp(-2j * np.pi * np.outer(fy, np.arange(n)) / n)
    Dx = np.exp(-2j * np.pi * np.outer(fx, np.arange(m)) / m)
    W = np.exp(-(((fx[None, :] - kx) ** 2 + (fy[:, None] - ky) ** 2) / (2 * sig ** 2)) ** 2)
    for t, I in enumerate(images):
        px.pixels[:] = I
        px.generation_time = t * MS
        step(o, t * MS)
        st.step()
        F = (Dy @ I @ Dx.T) * W
        S = np.zeros((n, m), complex)
        # frequencies in the band, with respect to its centre, as the transform wraps them
        gy = (fy - ky + n // 2) % n - n // 2
        gx = (fx - kx + m // 2) % m - m // 2
        S = np.exp(2j * np.pi * np.outer(np.arange(n), gy) / n) @ F \
            @ np.exp(2j * np.pi * np.outer(gx, np.arange(m)) / m)
        ref = np.angle(S) * lam / (2 * np.pi)
        got = np.array(o.slopes.slopes).reshape(n, m)
        v = valid
        if v is None:
            v = np.zeros((n, m), bool)
            v[n // 4 + 1:n - n // 4 - 1, 3:m - 3] = True       # surely inside
        d = (got - ref + lam / 2) % lam - lam / 2
        # (an image without fringes has no phase)
        sure = v & (np.abs(S) > 1e-6 * np.abs(I).sum())
        if sure.any() and np.abs(d[sure]).max() > 1e-3:
            i = np.argwhere(sure & (np.abs(d) > 1e-3))[0]
            return f'image {t}: path difference at {i.tolist()} is {got[tuple(i)]}, expected ' \
                   f'{ref[tuple(i)]}'
        if valid is not None and np.abs(got[~valid]).max(initial=0) > 0:
            return f'image {t}: path difference outside the pupil'
        if np.abs(got).max() > lam / 2 * 1.000001:
            return f'image {t}: path difference beyond half a wavelength'
        flux = float(np.ravel(o.outputs['out_flux_per_subaperture'].value)[0])
        if valid is not None and abs(flux - I[valid].mean()) > 1e-5 * abs(flux):
            return f'image {t}: flux {flux}, expected {I[valid].mean()}'
        if o.outputs['out_slopes'].generation_time != t * MS:
            return f'image {t}: slopes not refreshed'
        st.state(got)
    st.outcome(n, m)
    return None


# ---------------------------------------------------------------- extended sources
def source(**kw):
    from specula.processing_objects.extended_source import ExtendedSource
    pars = dict(pixel_pupil=40, pixel_pitch=0.2, zenithAngleInDeg=kw.pop('zenith', 0.))
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ExtendedSource(simul_params(**pars), 700., **kw)


LD = 700e-9 / 8. / 4.848e-6


def gen_ext(tier):
    sizes = (0.4, 1, 1.5, 2, 2.5, 3, 4, 5, 6.5, 10) if tier == 'quick' else \
        [k / 4 for k in range(1, 49)]
    for size in sizes:
        for kind, sam in (('TOPHAT', 'CARTESIAN'), ('TOPHAT', 'POLAR'), ('TOPHAT', 'RINGS'),
                          ('GAUSS', 'CARTESIAN'), ('GAUSS', 'RINGS')):
            for rings in (0, 1, 2, 4) if sam == 'RINGS' else (0,):
                for by in (1.0, 0.7):
                    for thr in (0., 0.5, 1.1):
                        yield {'kind': kind, 'sam': sam, 'size': size, 'rings': rings, 'by': by,
                               'thr': thr}
    yield {'kind': 'POINT_SOURCE', 'sam': 'CARTESIAN', 'size': None, 'rings': 0, 'by': 1.0,
           'thr': 0.}


def points(case):
    """Positions in units of lambda/D and weights (not normalised)."""
    size, by = case['size'], case['by']
    if case['kind'] == 'POINT_SOURCE':
        return np.array([[0., 0.]]), np.array([1.])
    gauss = case['kind'] == 'GAUSS'
    sigma = size / (2 * math.sqrt(2 * math.log(2))) if gauss else None
    if case['sam'] == 'CARTESIAN':
        if gauss:
            k = int(np.round(3 * sigma / by)) * 2
            c = (np.arange(k) - k / 2 + 0.5) * by
        else:
            k = int(np.round(size / by / 2)) * 2
            c = np.linspace(-size / 2, size / 2, k)
        y, x = np.meshgrid(c, c, indexing='ij')
        p = np.stack([x.ravel(), y.ravel()], 1)
        r = np.hypot(p[:, 0], p[:, 1])
        if gauss:
            w = np.exp(-r ** 2 / (2 * sigma ** 2))
            keep = w >= 0.1 * w.max()
            return p[keep], w[keep]
        p = p[r <= size / 2]
        if not len(p):
            p = np.array([[0., 0.]])
        return p, np.ones(len(p))
    p = [(0., 0.)]
    if case['sam'] == 'POLAR':
        k = int(np.round(size / by / 2))
        for r in np.linspace(0, size / 2, k)[1:]:
            m = int(np.round(2 * np.pi * r / by))
            p += [(r * math.cos(2 * np.pi * j / m), r * math.sin(2 * np.pi * j / m))
                  for j in range(m)]
        return np.array(p), np.ones(len(p))
    ext = 3 * sigma if gauss else size / 2
    k = case['rings'] or int(np.round(ext / 5))
    if not gauss:
        k = max(k, 1)
        if k == 1:
            p = []
    for j in range(k):
        r = (j + 0.5) * ext / k
        m = math.ceil(2 * np.pi * r / by)
        p += [(r * math.cos(2 * np.pi * i / m), r * math.sin(2 * np.pi * i / m))
              for i in range(m)]
    p = np.array(p)
    r = np.hypot(p[:, 0], p[:, 1])
    return p, np.exp(-r ** 2 / (2 * sigma ** 2)) if gauss else np.ones(len(p))


def tip(angle):
    """Coefficient (rad rms) of the Zernike tilt of a wave coming from angle (lambda/D)."""
    return angle * LD / RAD2ASEC * 8. * 2 * np.pi / 700e-9 / 4


def same_points(got, ref):
    """Rows equal, in any order."""
    if got.shape != ref.shape:
        return False
    used = np.zeros(len(ref), bool)
    for g in got:
        d = np.abs(ref - g).max(axis=1)
        d[used] = np.inf
        k = int(np.argmin(d))
        if d[k] > 2e-5 * max(1., np.abs(ref).max()):
            return False
        used[k] = True
    return True


def run_ext(case, st):
    p, w = points(case)
    w = w / w.sum()
    ref = np.column_stack([tip(p[:, 0]), tip(p[:, 1]), np.zeros(len(p)), w])
    if case['thr']:
        ref = ref[ref[:, 3] > case['thr'] * ref[:, 3].mean()]
    kw = {} if case['size'] is None else {'size_obj': case['size'] * LD}
    o = source(source_type=case['kind'], sampling_type=case['sam'], n_rings=case['rings'],
               sampling_lambda_over_d=case['by'], flux_threshold=case['thr'], **kw)
    got = np.array(o.outputs['coeff'].value)
    st.step()
    if case['thr'] and (case['kind'] == 'TOPHAT' or
                        np.abs(w / w.mean() - case['thr']).min() < 1e-6):
        # equal weights: all or none
        if case['kind'] == 'TOPHAT' and len(got) not in (0, len(p)):
            return f'{len(got)} points of {len(p)} equal ones kept'
    elif not same_points(got, ref):
        return f'{len(got)} points {got[:4].tolist()}..., expected {len(ref)}: ' \
               f'{ref[:4].tolist()}...'
    # it is constant
    before = got.copy()
    o.setup()
    for t in range(2):
        step(o, t * MS)
        st.step()
    if not np.array_equal(np.array(o.outputs['coeff'].value), before):
        return 'the source changed during the simulation'
    st.state(got)
    st.outcome(len(got))
    return None


def gen_layers(tier):
    for kind, sam in (('POINT_SOURCE', 'CARTESIAN'), ('TOPHAT', 'POLAR'), ('GAUSS', 'CARTESIAN')):
        for heights in ((90e3,), (80e3, 90e3), (85e3, 90e3, 95e3, 110e3)):
            for focus in (90e3, 100e3):
                for tt in (False, True):
                    for zen in (0., 40.):
                        for thr in (0., 0.6):
                            yield {'kind': kind, 'sam': sam, 'size': 4, 'rings': 0, 'by': 1.0,
                                   'h': heights, 'focus': focus, 'tt': tt, 'zen': zen, 'thr': thr}


def run_layers(case, st):
    p, w = points(case)
    w = w / w.sum()
    h = case['h']
    prof = [0.1, 0.5, 0.3, 0.1][:len(h)] if len(h) > 1 else [1.0]
    tt = [[0.3 * k * LD, -0.2 * k * LD] for k in range(len(h))]
    kw = {} if case['kind'] == 'POINT_SOURCE' else {'size_obj': case['size'] * LD}
    o = source(source_type=case['kind'], sampling_type=case['sam'], layer_height=list(h),
               intensity_profile=list(prof), focus_height=case['focus'], zenith=case['zen'],
               tt_profile=np.array(tt) if case['tt'] else None, flux_threshold=case['thr'], **kw)
    got = np.array(o.outputs['coeff'].value)
    st.step()
    air = 1 / math.cos(math.radians(case['zen']))
    oks = []
    flat = len(h) == 1 and h[0] == case['focus']
    for exact in (False, True):
        rows = []
        for k, z in enumerate(h):
            dx, dy = (tt[k][0] / LD, tt[k][1] / LD) if case['tt'] else (0, 0)
            zz, ff = z * air, case['focus'] * air
            foc = 8. ** 2 / (16 * math.sqrt(3)) * (zz - ff) / (zz * (ff if exact else zz)) \
                * 2 * np.pi / 700e-9
            for (x, y), v in zip(p, w):
                rows.append((tip(x + dx), tip(y + dy), foc, v * prof[k]))
        ref = np.array(rows)
        if flat:
            ref[:, 2] = 0
        ref = ref[ref[:, 3] > case['thr'] * ref[:, 3].mean()] if case['thr'] else ref
        oks.append(same_points(got, ref))
    if not any(oks):
        return f'{len(got)} points {got[:4].tolist()}..., expected {ref[:4].tolist()}...'
    st.state(got)
    st.outcome(len(got))
    return None


PSFS = ('none', 'a', 'b', 'small', 'big', 'zero')


def psf(name, n0):
    n = {'small': n0 - 3, 'big': n0 + 5}.get(name, n0)
    if name == 'zero':
        return np.zeros((n, n))
    y, x = np.ogrid[:n, :n]
    c = n // 2
    k = {'a': 0.0, 'b': 1.0, 'small': 0.5, 'big': 0.3, 'init': 0.2}[name]
    return np.exp(-((x - c) ** 2 + (y - c) ** 2 * (1 + k)) / 6) * (1 + 0.1 * k * (x - c)) + 0.01


def gen_psf(tier):
    n = 3 if tier == 'thorough' else 2
    for sam, crop, n0, by in itertools.product(('CARTESIAN', 'POLAR'), (False, True), (8, 9),
                                               (1.0, 1.6)):
        yield {'sam': sam, 'crop': crop, 'n0': n0, 'by': by, 'n': n}


def run_psf(case, st):
    from specula.base_value import BaseValue
    n0 = case['n0']
    scale = 0.6 * LD

    def build(a):
        return source(source_type='FROM_PSF', sampling_type=case['sam'], initial_psf=a,
                      pixel_scale_psf=scale, crop_psf=case['crop'],
                      sampling_lambda_over_d=case['by'])

    def judge(o, a):
        got = np.array(o.outputs['coeff'].value)
        c = a.shape[0] // 2
        v = []
        for tx, ty, _, _ in got:
            x, y = tx / tip(1.0) * LD / scale + c, ty / tip(1.0) * LD / scale + c
            x, y = min(max(x, 0), len(a) - 1), min(max(y, 0), len(a) - 1)
            i, j = min(int(y), len(a) - 2), min(int(x), len(a) - 2)
            fy, fx = y - i, x - j
            v.append(a[i, j] * (1 - fy) * (1 - fx) + a[i + 1, j] * fy * (1 - fx)
                     + a[i, j + 1] * (1 - fy) * fx + a[i + 1, j + 1] * fy * fx)
        v = np.array(v) / sum(v)
        if np.abs(v - got[:, 3]).max() > 1e-5:
            k = int(np.abs(v - got[:, 3]).argmax())
            return f'flux {got[k, 3]} at {got[k, :2].tolist()}, expected {v[k]}'
        if np.any(got[:, 2] != 0):
            return 'focus in a flat source'
        # extent and number of points
        half = len(a) * scale / LD / 2
        q = got[:, :2] / tip(1.0)
        k = int(np.round(len(a) * scale / LD / case['by']))
        if case['sam'] == 'CARTESIAN':
            k += k % 2 == 0
            c1 = np.linspace(-1, 1, k) * int(np.round(2 * half / case['by'])) * case['by'] / 2
            inside = [(x, y) for x in c1 for y in c1
                      if all(1e-6 < u * LD / scale + len(a) // 2 < len(a) - 1 - 1e-6
                             for u in (x, y))]
            if len(inside) > len(q):
                return f'{len(q)} points, expected {len(inside)} at least'
            for x in inside:
                if np.abs(q - x).max(axis=1).min() > 1e-4:
                    return f'no point at {x}'
        else:
            k = int(np.round((k + 1) / 2))
            if len(q) != 1 + sum(6 * j for j in range(1, k)):
                return f'{len(q)} points for {k} rings'
            r = np.hypot(q[:, 0], q[:, 1])
            want = [j * len(a) / (2 * k - 1) * scale / LD for j in range(k)
                    for _ in range(max(6 * j, 1))]
            if np.abs(np.sort(r) - np.sort(want)).max() > 1e-4:
                return f'radii {np.unique(np.round(r, 4)).tolist()}'
        return None

    def cut(a):
        if not case['crop'] or len(a) == n0:
            return a
        out = np.zeros((n0, n0))
        for i, j in itertools.product(range(n0), repeat=2):
            y, x = i - n0 // 2 + len(a) // 2, j - n0 // 2 + len(a) // 2
            if 0 <= y < len(a) and 0 <= x < len(a):
                out[i, j] = a[y, x]
        return out
    for connected in (True, False):
        for word in itertools.product(PSFS if connected else ('none',), repeat=case['n']):
            with quiet():
                o = build(psf('init', n0))
                m = judge(o, psf('init', n0))
            if m:
                return f'initial PSF: {m}'
            v = BaseValue(value=np.zeros((n0, n0)))
            v.generation_time = -1
            if connected:
                o.inputs['psf'].set(v)
            o.setup()
            cur, stamp = psf('init', n0), o.outputs['coeff'].generation_time
            for t, name in enumerate(word):
                if name != 'none':
                    v.value = psf(name, n0)
                    v.generation_time = t * MS
                    keep = v.value.copy()
                    if name != 'zero':
                        cur, stamp = cut(keep), t * MS
                with quiet():
                    step(o, t * MS)
                st.step()
                m = judge(o, cur)
                if m:
                    return f'PSFs {word[:t + 1]}: {m}'
                if connected and o.outputs['coeff'].generation_time != stamp:
                    return f'PSFs {word[:t + 1]}: source stamped ' \
                           f'{o.outputs["coeff"].generation_time}, expected {stamp}'
                if name != 'none':
                    if not np.array_equal(v.value, keep):
                        return f'PSFs {word[:t + 1]}: the PSF was changed'
                    v.value[:] = -7           # nothing may refer to it later
            st.state(word, o.outputs['coeff'].value)
    st.outcome(case['sam'], case['crop'])
    return None


# ---------------------------------------------------------------- ideal derivatives
def gen_der(tier):
    for nx, k, sub in ((2, 4, 4), (3, 4, 6), (4, 3, 5), (3, 5, 2), (2, 6, 8)):
        for hole in (0., 0.45):
            for order in (0, 1):
                for fov in (1.0, 2.5):
                    yield {'nx': nx, 'k': k, 'sub': sub, 'hole': hole, 'order': order, 'fov': fov}


def run_der(case, st):
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.subap_data import SubapData
    from specula.processing_objects.ideal_derivative_sensor import IdealDerivativeSensor
    nx, k, sub = case['nx'], case['k'], case['sub']
    n = nx * k
    pitch = 0.05
    order = list(range(nx * nx))
    if case['order']:
        order = [j * 3 % (nx * nx) for j in order] if nx != 3 else [8, 1, 4, 7, 2, 0]
        order = list(dict.fromkeys(order))[::-1]
    idxs = []
    for m in order:
        i0, j0 = m // nx * sub, m % nx * sub
        idxs.append([(i0 + a) * nx * sub + j0 + b for a in range(sub) for b in range(sub)])
    sd = SubapData(np.array(idxs), np.array(order), nx, nx)
    ef = ElectricField(n, n, pitch, S0=1.0)
    A = disc(n, case['hole'])
    A[n // 2, n - 2] = 0
    ef.A[:] = A
    ef.generation_time = 0
    sp = simul_params(pixel_pupil=n, pixel_pitch=pitch)
    s = IdealDerivativeSensor(sp, sd, fov=case['fov'])
    s.inputs['in_ef'].set(ef)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s.setup()
    y, x = np.arange(n)[:, None] * 1.0, np.arange(n)[None, :] * 1.0
    half = np.where(x + 0 * y > n / 2, (x - n / 2) * 5, 0.)
    fields = [3 * x + 0 * y, 0 * x - 2 * y + 7, smooth(n, 1) * 3, smooth(n, 2) - 11, half,
              np.where((x - n / 2) ** 2 + (y - n / 2) ** 2 < 4, 50., 0.), 0 * x * y,
              smooth(n, 1) * 3 + half]
    c = 1e-9 * RAD2ASEC / (pitch * case['fov'] / 2) * (sub - 1) / sub
    out = []
    for t, ph in enumerate(fields):
        ef.phaseInNm[:] = ph
        ef.generation_time = t * MS
        step(s, t * MS)
        st.step()
        if not (np.array_equal(ef.phaseInNm, ph) and np.array_equal(ef.A, A)):
            return f'field {t}: the field was changed'
        e, _ = extrap_ref(A >= 1e-3, ph)
        gx, gy = np.zeros((n, n)), np.zeros((n, n))
        for i, j in itertools.product(range(n), repeat=2):
            a, b = max(j - 1, 0), min(j + 1, n - 1)
            gx[i, j] = (e[i, b] - e[i, a]) / (b - a)
            a, b = max(i - 1, 0), min(i + 1, n - 1)
            gy[i, j] = (e[b, j] - e[a, j]) / (b - a)
        ref = np.zeros((2, len(order)))
        for q, m in enumerate(order):
            sl = np.s_[m // nx * k:(m // nx + 1) * k, m % nx * k:(m % nx + 1) * k]
            lit = A[sl] > 0.5
            if lit.any():
                ref[:, q] = gx[sl][lit].mean() * c, gy[sl][lit].mean() * c
        got = np.stack([np.array(s.slopes.xslopes), np.array(s.slopes.yslopes)])
        if np.abs(got - ref).max() > 1e-5 * max(np.abs(ref).max(), 3 * c):
            q = int(np.abs(got - ref).max(axis=0).argmax())
            return f'field {t}, subaperture {order[q]}: slopes {got[:, q].tolist()}, expected ' \
                   f'{ref[:, q].tolist()}'
        if s.slopes.generation_time != t * MS:
            return f'field {t}: slopes not refreshed'
        out.append(got)
        st.state(got)
    if np.abs(out[7] - out[2] - out[4]).max() > 1e-5 * np.abs(out[7]).max():
        return 'the slopes of a sum of phases are not the sum of the slopes'
    st.outcome(nx, k)
    return None


FAMILIES = [
    Family('curvature', gen_curv, run_curv, weight=6,
           what='curvature sensor: grids x fields of view x pixels x defocus x sequences of fields '
                '(exact), grids x pixel scales x oversampling x tilted fields (image scale)'),
    Family('interferometer', gen_ciao, run_ciao, weight=1,
           what='interferometer: grids x pixels x flux of the branches x tilts x normalisation x '
                'sequences of fields'),
    Family('opd', gen_opd, run_opd, weight=2,
           what='path differences from the fringes: detectors x carriers x windows x pupils x '
                'sequences of images'),
    Family('source', gen_ext, run_ext, weight=2,
           what='extended sources: shapes x samplings x sizes x rings x steps x thresholds'),
    Family('layers', gen_layers, run_layers, weight=1,
           what='sources in depth: shapes x layers x focus x tilts x zenith angle x thresholds'),
    Family('psf', gen_psf, run_psf, weight=3,
           what='sources from a PSF: samplings x sizes x cutting x all sequences of 2 (3) PSFs of '
                'five kinds or none, connected or not'),
    Family('derivative', gen_der, run_der, weight=2,
           what='ideal derivative sensor: geometries x pupils x subapertures x sequences of phases'),
]
