"""P13: resampling, masks and grids: shapes, masks and parameters are enumerated exhaustively.

The real library functions are run on every array shape, mask and parameter of a bounded grid,
and (for the field interpolator) on every sequence of parameter updates, and compared with direct
per-pixel loops written from their documentation."""
import itertools
import math

import numpy as np

from mc.core import Family
from mc.harness import close

RULE = ('all shapes, shape pairs, masks and parameters up to the stated sizes; all sequences of '
        'parameter updates of a field interpolator; per-pixel references')
ASSUMPTIONS = ['arrays up to 8x8 (1-d factors up to 60); light is not negative', 'CPU arrays']


def generic(m, n):
    return (np.arange(m * n).reshape(m, n) * 7 % 11) + 1.0 + np.arange(n) / 4


# ------------------------------------------------------------------ rebin2d
def gen_rebin(tier):
    top = 8 if tier == 'thorough' else 6
    for M, N in itertools.product(range(1, top + 1), repeat=2):
        yield {'M': M, 'N': N, 'top': top}


def run_rebin(case, st):
    from specula.lib.rebin import rebin2d
    M, N = case['M'], case['N']
    a = generic(M, N)
    keep = a.copy()
    for m, n in itertools.product(range(1, 2 * case['top'] + 1), repeat=2):
        got = rebin2d(a, (m, n), sample=True, xp=np)
        ref = np.array([[a[i * M // m, j * N // n] for j in range(n)] for i in range(m)])
        st.step()
        if got.shape != ref.shape or not np.array_equal(got, ref):
            return f'sampling {M}x{N} to {m}x{n}: {got.tolist()}, expected {ref.tolist()}'
        ok = (m, n) == (M, N) or (M % m == 0 and N % n == 0)
        try:
            got = rebin2d(a, (m, n), xp=np)
        except ValueError:
            got = None
        if (got is not None) != ok:
            return f'averaging {M}x{N} to {m}x{n}: {"accepted" if got is not None else "refused"}'
        st.outcome(ok, got is None)
        if ok:
            ref = np.array([[a[i * M // m:(i + 1) * M // m, j * N // n:(j + 1) * N // n].mean()
                             for j in range(n)] for i in range(m)])
            if not close(got, ref, 1e-12):
                return f'averaging {M}x{N} to {m}x{n}: {got.tolist()}, expected {ref.tolist()}'
    if not np.array_equal(a, keep):
        return 'the input was changed'
    st.state(M, N)
    return None


def gen_factor(tier):
    for old in range(1, (130 if tier == 'thorough' else 64) + 1):
        yield {'old': old, 'top': 130 if tier == 'thorough' else 64}


def run_factor(case, st):
    """Area weights of 1-d resampling, any factor."""
    from specula.lib.rebin import rebin2d
    from specula.lib.toccd import toccd
    old = case['old']
    a = (np.arange(old) * 5 % 7 + 1.0)
    for new in range(1, case['top'] + 1):
        got = rebin2d(a[:, None], (new, 1), sample=True, xp=np)
        st.step()
        if got.shape != (new, 1) or not np.array_equal(
                got[:, 0], [a[i * old // new] for i in range(new)]):
            return f'sampling {old} to {new} elements: {got[:, 0].tolist()}'
        try:
            got = toccd(a[None, :], (1, new), xp=np)
        except ValueError as e:
            return f'toccd from {old} to {new} elements fails: {e}'
        fine = np.repeat(a, new).reshape(new, old).sum(axis=1) / new
        if got.shape != (1, new) or not close(got[0], fine, 1e-11):
            return f'toccd from {old} to {new} elements: {got[0].tolist()}, expected {fine.tolist()}'
    st.state(old)
    st.outcome(old)
    return None


def overlap(old, new):
    """Matrix of the length of each old cell inside each new one, in old cells."""
    w = np.zeros((new, old))
    for i in range(new):
        for j in range(old):
            lo = max(i * old, j * new)
            hi = min((i + 1) * old, (j + 1) * new)
            w[i, j] = max(0, hi - lo) / new
    return w


def gen_toccd(tier):
    top = 8 if tier == 'thorough' else 6
    for M, N in itertools.product(range(1, top + 1), repeat=2):
        yield {'M': M, 'N': N, 'top': top}


def run_toccd(case, st):
    from specula.lib.toccd import toccd
    M, N = case['M'], case['N']
    for m, n in itertools.product(range(1, case['top'] + 1), repeat=2):
        wy, wx = overlap(M, m), overlap(N, n)
        arrays = [generic(M, N)]
        for k in range(M * N):
            e = np.zeros((M, N))
            e[k // N, k % N] = 4.0
            arrays.append(e)
        for a in arrays:
            keep = a.copy()
            ref = wy @ a @ wx.T
            got = toccd(a, (m, n), xp=np)
            st.step()
            if not close(got, ref, 1e-11):
                return f'{M}x{N} to {m}x{n} of {a.tolist()}: {np.asarray(got).tolist()}, ' \
                       f'expected {ref.tolist()}'
            if (m, n) != (M, N):
                got = toccd(a, [m, n], set_total=3.0, xp=np)
                if not close(got, ref / ref.sum() * 3.0, 1e-11):
                    return f'{M}x{N} to {m}x{n} with set_total: the sum is {got.sum()}'
            if not np.array_equal(a, keep):
                return 'the input was changed'
        z = toccd(np.zeros((M, N)), (m, n), xp=np)
        if not np.array_equal(z, np.zeros((m, n))):
            return 'a dark frame is not resized to a dark frame'
        st.state(M, N, m, n)
    st.outcome(M, N)
    return None


# ------------------------------------------------------------------ Interp2D
def bilinear(a, y, x):
    M, N = a.shape
    y = min(max(y, 0.0), M - 1.0)
    x = min(max(x, 0.0), N - 1.0)
    i, j = min(int(y), M - 2), min(int(x), N - 2)
    fy, fx = y - i, x - j
    return (a[i, j] * (1 - fy) * (1 - fx) + a[i, j + 1] * (1 - fy) * fx
            + a[i + 1, j] * fy * (1 - fx) + a[i + 1, j + 1] * fy * fx)


def interp_ref(a, out_shape, rot, rs, cs, mag, yy=None, xx=None):
    M, N = a.shape
    m, n = out_shape
    res = np.zeros(out_shape)
    c, s = math.cos(math.radians(rot)), math.sin(math.radians(rot))
    for i in range(m):
        for j in range(n):
            if yy is None:
                same = (M, N) == (m, n) and rot == 0 and rs == 0 and cs == 0 and mag == 1
                y, x = (i, j) if same else (i * (M - 1) / m, j * (N - 1) / n)
            else:
                y, x = yy[i, j], xx[i, j]
            yc, xc = (y - (M - 1) / 2) / mag, (x - (N - 1) / 2) / mag
            y, x = xc * s + yc * c + (M - 1) / 2, xc * c - yc * s + (N - 1) / 2
            res[i, j] = bilinear(a, y + rs, x + cs)
    return res


def gen_interp(tier):
    sizes = ((2, 2), (3, 5), (4, 4), (6, 3)) + (((5, 5), (2, 7)) if tier == 'thorough' else ())
    outs = ((2, 2), (4, 4), (3, 5), (6, 6), (1, 3)) + (((5, 9), (8, 4)) if tier == 'thorough' else ())
    for i, o in itertools.product(sizes, outs):
        yield {'in': list(i), 'out': list(o), 'more': tier == 'thorough'}


def run_interp(case, st):
    from specula.lib.interp2d import Interp2D
    i, o = tuple(case['in']), tuple(case['out'])
    a = generic(*i)
    rots = (0, 30, 90, -45, 180, 360) + ((7, 135, 270) if case['more'] else ())
    shifts = (0, 1, -0.5, 2.25)
    yy0, xx0 = np.mgrid[0:o[0], 0:o[1]] * 0.75
    for rot, rs, cs, mag, grid in itertools.product(rots, shifts, shifts, (1.0, 2.0, 0.5),
                                                    (False, True)):
        kw = {}
        if grid:
            kw = {'yy': yy0.copy(), 'xx': xx0.copy()}
        ip = Interp2D(i, o, rotInDeg=rot, rowShiftInPixels=rs, colShiftInPixels=cs,
                      magnification=mag, dtype=np.float64, xp=np, **kw)
        keep = a.copy()
        got = ip.interpolate(a)
        out = np.full(o, np.nan)
        got2 = ip.interpolate(a, out=out)
        ref = interp_ref(a, o, rot, rs, cs, mag, yy0 if grid else None, xx0 if grid else None)
        st.step()
        if not close(got, ref, 1e-10):
            return f'rotation {rot}, shifts {rs}, {cs}, magnification {mag}: ' \
                   f'{np.asarray(got).tolist()}, expected {ref.tolist()}'
        if got2 is not out or not np.array_equal(out, got):
            return 'the result in a given array differs'
        if not np.array_equal(a, keep):
            return 'the input was changed'
        if grid and not (np.array_equal(kw['yy'], yy0) and np.array_equal(kw['xx'], xx0)):
            return 'the coordinates given were changed'
    st.state(i, o)
    st.outcome(i, o)
    return None


# ------------------------------------------------------------------ extrapolation
def extrap_ref(mask, data):
    """Data inside the mask, linear extrapolation on the pixels beside it, 0 elsewhere."""
    M, N = mask.shape
    out = np.where(mask, data, 0.0)
    edges = []
    for y in range(M):
        for x in range(N):
            if mask[y, x]:
                continue
            vals = []
            near = False
            for dy, dx in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                def ok(k):
                    p, q = y + k * dy, x + k * dx
                    return 0 <= p < M and 0 <= q < N and mask[p, q]
                if not ok(1):
                    continue
                near = True
                p1 = data[y + dy, x + dx]
                if ok(2):
                    vals.append(2 * p1 - data[y + 2 * dy, x + 2 * dx])
                elif not vals:
                    vals.append(p1)
            if near:
                edges.append((y, x))
                out[y, x] = sum(vals) / len(vals)
    return out, edges


def gen_extrap(tier):
    shapes = ((2, 2), (3, 3), (3, 4), (2, 5)) + (((4, 4),) if tier == 'thorough' else ())
    for sh in shapes:
        n = sh[0] * sh[1]
        lo = max(0, n - 9)
        for hi in range(1 << lo):
            yield {'shape': list(sh), 'base': hi << (n - lo), 'bits': n - lo}
    if tier != 'thorough':
        for hi in range(0, 128, 8):
            yield {'shape': [4, 4], 'base': hi << 9, 'bits': 9}


def run_extrap(case, st):
    import warnings
    from specula.lib import extrapolation_2d as E
    sh = tuple(case['shape'])
    data = np.array([[3.0 * y - 2.0 * x + y * x + 5 for x in range(sh[1])] for y in range(sh[0])])
    for low in range(1 << case['bits']):
        m = case['base'] | low
        mask = np.array([(m >> k) & 1 for k in range(sh[0] * sh[1])], bool).reshape(sh)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            e, r, c, v = E._calculate_extrapolation_indices_coeffs(mask.astype(float) * 0.5)
        out = np.where(mask, data, 0.0)
        keep = data.copy()
        E._apply_extrapolation(data, e, r, c, v, out=out, xp=np)
        ref, _ = extrap_ref(mask, data)
        st.step()
        if not close(out, ref, 1e-6):
            return f'mask {mask.astype(int).tolist()}: {out.tolist()}, expected {ref.tolist()}'
        if not np.array_equal(data, keep):
            return 'the input was changed'
        flat = np.where(mask, 1.0, 0.0)
        E._apply_extrapolation(np.ones(sh), e, r, c, v, out=flat, xp=np)
        if not np.all(np.isin(np.round(flat, 5), (0.0, 1.0))):
            return f'mask {mask.astype(int).tolist()}: a constant is extrapolated to {flat.tolist()}'
    st.state(case['base'], sh)
    st.outcome(sh)
    return None


# ------------------------------------------------------------------ field interpolator
UPD = ({'xShiftPhInPixel': 1.0}, {'yShiftPhInPixel': -0.5}, {'rotAnglePhInDeg': 30.0},
       {'magnification': 1.5}, {'rotAnglePhInDeg': -90.0, 'yShiftPhInPixel': 2.0},
       {'xShiftPhInPixel': 0.0, 'yShiftPhInPixel': 0.0, 'rotAnglePhInDeg': 0.0,
        'magnification': 1.0})


def gen_efint(tier):
    n = 3 if tier == 'thorough' else 2
    for fac, grey, cache in itertools.product((1, 2, 1.5), (False, True), (False, True)):
        for first in range(len(UPD)):
            yield {'fac': fac, 'grey': grey, 'cache': cache, 'first': first, 'n': n}


def run_efint(case, st):
    import warnings
    from specula.data_objects.electric_field import ElectricField
    from specula.lib.extrapolation_2d import EFInterpolator
    M = 6
    m = int(M * case['fac'])
    for tail in itertools.product(range(len(UPD)), repeat=case['n'] - 1):
        word = (case['first'],) + tail
        ef = ElectricField(M, M, 0.5, S0=4.0)
        A = np.ones((M, M))
        A[0] = 0
        A[4, 4:] = 0
        A[3, 2] = 0
        if case['grey']:
            A = A * np.linspace(0.5, 1.0, M)
        ef.A[:] = A
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ip = EFInterpolator(ef, (m, m), rotAnglePhInDeg=10.0, force_extrapolation=True,
                                use_out_ef_cache=case['cache'])
            p = {'xShiftPhInPixel': 0.0, 'yShiftPhInPixel': 0.0, 'rotAnglePhInDeg': 10.0,
                 'magnification': 1.0}
            for k, u in enumerate((None,) + word):
                if u is not None:
                    ip.update_parameters(**UPD[u])
                    p.update(UPD[u])
                ph = generic(M, M) * (k + 1)
                ef.phaseInNm[:] = ph
                ip.interpolate()
                out = ip.interpolated_ef()
                st.step()
                args = ((m, m), -p['rotAnglePhInDeg'], p['xShiftPhInPixel'],
                        p['yShiftPhInPixel'], p['magnification'])
                ra = interp_ref(A, *args)
                edge = np.abs(ra - 0.5) < 1e-7
                if not case['grey']:
                    ra = (ra > 0.5).astype(float)
                rp = interp_ref(extrap_ref(A >= 1e-3, ph)[0], *args)
                d = np.abs(out.A - ra)
                if np.max(np.where(edge, 0, d)) > 1e-5:
                    return f'updates {word[:k]}: amplitude {out.A.tolist()}, expected {ra.tolist()}'
                if not close(out.phaseInNm, rp, 1e-5):
                    return f'updates {word[:k]}: phase {out.phaseInNm.tolist()}, ' \
                           f'expected {rp.tolist()}'
                if out.S0 != ef.S0 or abs(out.pixel_pitch - 0.5 / case['fac']) > 1e-9:
                    return 'flux or pixel pitch not kept'
                if not (close(ef.A, A, 1e-6) and close(ef.phaseInNm, ph, 1e-6)):
                    return f'updates {word[:k]}: the input field was changed'
        st.state(word, out.phaseInNm)
    st.outcome(case['fac'], case['grey'])
    return None


def gen_chain(tier):
    for rot, shift, rot2, shift2 in itertools.product((0, 20., 90.), (0., 1.), (0., 30., 180.),
                                                      (0., 2.)):
        yield {'rot': rot, 'shift': shift, 'rot2': rot2, 'shift2': shift2}


def run_chain(case, st):
    """The self-interfering sensor: the field plus its rotated copy, whatever happened before."""
    import warnings
    from specula.data_objects.electric_field import ElectricField
    from specula.lib.extrapolation_2d import EFInterpolator
    from specula.processing_objects.ciao_ciao_sensor import CiaoCiaoSensor
    from mc.harness import step
    n = 8
    tilt = (0.05, -0.02)

    def build():
        s = CiaoCiaoSensor(wavelengthInNm=500., number_px=n, diffRotAngleInDeg=case['rot2'],
                           tiltInArcsec=tilt, rotAnglePhInDeg=case['rot'],
                           xShiftPhInPixel=case['shift'], xShiftDiffPhInPixel=case['shift2'],
                           normalize_flux=False)
        ef = ElectricField(n, n, 0.1, S0=2.0)
        s.inputs['in_ef'].set(ef)
        ef.generation_time = 0
        return s, ef
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s, ef = build()
        other, oef = build()
        A = np.ones((n, n))
        A[:2] = 0
        A[6, 5:] = 0
        ef.A[:] = A
        oef.A[:] = A.T
        s.setup()
        other.setup()
        for t in range(3):
            ph = np.arange(n * n).reshape(n, n) * (1.0 + t)
            ef.phaseInNm[:] = ph
            oef.phaseInNm[:] = -ph
            ef.generation_time = oef.generation_time = t
            for o in (s, other):
                if not o.check_ready(t):
                    return f'step {t}: not triggered'
            for o in (s, other):
                o.trigger()
            for o in (s, other):
                o.post_trigger()
            st.step()
            for o, e in ((s, ef), (other, oef)):
                def interp(x, rot, sh):
                    ip = EFInterpolator(x, (n, n), rotAnglePhInDeg=rot, xShiftPhInPixel=sh)
                    ip.interpolate()
                    return ip.interpolated_ef()
                e1 = interp(e, case['rot'], case['shift'])
                e2 = interp(e1, case['rot2'], case['shift2'])
                c = (np.arange(n) - n // 2) * 0.1
                ramp = (c[None, :] * tilt[0] + c[:, None] * tilt[1]) / 206264.80624709636
                k = 2 * np.pi / 500e-9
                amp = 1.0
                f = amp * e1.A * np.exp(1j * k * e1.phaseInNm * 1e-9) \
                    + amp * e2.A * np.exp(1j * k * (e2.phaseInNm * 1e-9 + ramp))
                ref = np.abs(f) ** 2
                got = o.outputs['out_i'].i
                if not close(got, ref, 1e-5):
                    return f'step {t}: interference {got[3].tolist()}, expected {ref[3].tolist()}'
    st.state(got)
    st.outcome(case['rot'], case['rot2'])
    return None


# ------------------------------------------------------------------ grids, masks, profiles
def gen_grid(tier):
    for n in range(2, 12 if tier != 'thorough' else 24):
        yield {'n': n}


def run_grid(case, st):
    from specula.lib.make_xy import make_xy
    from specula.lib.utils import make_subpixel_shift_phase, unravel_index_2d
    n = case['n']
    for ratio, zs, q, fft in itertools.product((1.0, 2.5), (False, True), (False, True),
                                               (False, True)):
        v = [(2 * k + 1 - n) / n * ratio for k in range(n)]
        if n % 2 == 0 and zs:
            v = [(2 * k - n) / n * ratio for k in range(n)]
        if q:
            v = [a for a in v if a >= -1e-12]
        elif fft:
            p = [a for a in v if a >= -1e-12]
            v = p + [a for a in v if a < -1e-12]
        st.step()
        kw = dict(zero_sampled=zs, quarter=q, fft=fft, xp=np, dtype=np.float64)
        x1 = make_xy(n, ratio, vector=True, **kw)
        if not close(x1, v, 1e-12):
            return f'n={n}, ratio={ratio}, zero_sampled={zs}, quarter={q}, fft={fft}: ' \
                   f'{x1.tolist()}, expected {v}'
        x, y = make_xy(n, ratio, **kw)
        r, th = make_xy(n, ratio, polar=True, **kw)
        for i, j in itertools.product(range(len(v)), repeat=2):
            if abs(x[i, j] - v[j]) > 1e-12 or abs(y[i, j] - v[i]) > 1e-12:
                return f'n={n}: x, y at row {i}, column {j} are {x[i, j]}, {y[i, j]}'
            if abs(r[i, j] - math.hypot(v[i], v[j])) > 1e-12 or \
                    abs(th[i, j] - math.atan2(v[i], v[j])) > 1e-9 and abs(v[i]) + abs(v[j]) > 1e-9:
                return f'n={n}: polar coordinates at row {i}, column {j} are {r[i, j]}, {th[i, j]}'
    for sx, sy in itertools.product((0., 1., -2., 3.), repeat=2):
        a = generic(n, n)
        ph = make_subpixel_shift_phase(n, np, np.complex128, shift_x=sx, shift_y=sy)
        b = np.real(np.fft.ifft2(np.fft.fft2(a) * ph))
        st.step()
        if not close(b, np.roll(a, (int(sy), int(sx)), (0, 1)), 1e-9):
            return f'n={n}: a shift by x={sx}, y={sy} pixels is another one'
    for m in range(1, n + 1):
        i, j = unravel_index_2d(np.arange(m * n), (m, n), np)
        if not (np.array_equal(i, np.repeat(np.arange(m), n))
                and np.array_equal(j, np.tile(np.arange(n), m))):
            return f'unravelling the indexes of a {m}x{n} array'
    st.state(n)
    st.outcome(n)
    return None


def gen_mask(tier):
    for n in range(2, 13 if tier != 'thorough' else 25):
        yield {'n': n}


def run_mask(case, st):
    from specula.lib.make_mask import make_mask
    n = case['n']
    for obs, dia, xc, yc, sq, inv in itertools.product(
            (0.0, 0.3, 0.5), (1.0, 0.8, 0.45), (0.0, 0.26), (0.0, -0.41), (False, True),
            (False, True)):
        m, idx = make_mask(n, obs, dia, xc, yc, square=sq, inverse=inv, get_idx=True, xp=np)
        st.step()
        for i, j in itertools.product(range(n), repeat=2):
            x, y = (2 * j + 1 - n) / n - xc, (2 * i + 1 - n) / n - yc
            if sq:
                d = max(abs(x), abs(y))
            else:
                d = math.hypot(x, y)
            if abs(d - dia) < 1e-9 or abs(d - dia * obs) < 1e-9:
                continue
            inside = dia * obs < d < dia
            if bool(m[i, j]) != (inside != inv):
                return f'n={n}, obstruction {obs}, diameter {dia}, centre {xc}, {yc}, ' \
                       f'square={sq}, inverse={inv}: pixel ({i}, {j}) at {d:.3f} is {m[i, j]}'
        if not (np.array_equal(idx[0], np.where(m)[0]) and np.array_equal(idx[1], np.where(m)[1])):
            return 'the indexes returned are not those of the mask'
    st.state(n)
    st.outcome(n)
    return None


def gen_local(tier):
    shapes = ((4, 4, 2), (3, 5, 2), (3, 3, 1), (4, 3, 3))
    for m, n, b in shapes:
        yield {'m': m, 'n': n, 'b': b}


def run_local(case, st):
    from specula.lib.utils import local_mean_rebin
    m, n, b = case['m'], case['n'], case['b']
    a = generic(m, n)
    for w in range(1 << (m * n)):
        if m * n > 12 and w % 3:       # every third mask of the largest arrays
            continue
        mask = np.array([(w >> k) & 1 for k in range(m * n)], bool).reshape(m, n)
        if not mask.any():
            continue
        got = local_mean_rebin(a, mask, np, block_size=b)
        st.step()
        ref = np.full((m, n), np.nan)
        for i in range(m // b):
            for j in range(n // b):
                s = np.s_[i * b:(i + 1) * b, j * b:(j + 1) * b]
                v = a[s][mask[s]]
                ref[s] = v.mean() if v.size else a[mask].mean()
        if not np.allclose(got, ref, rtol=1e-10, equal_nan=True):
            return f'mask {mask.astype(int).tolist()}: {got.tolist()}, expected {ref.tolist()}'
    st.state(m, n, b)
    st.outcome(b)
    return None


def gen_profile(tier):
    top = 6 if tier != 'thorough' else 10
    for m, n in itertools.product(range(1, top + 1), repeat=2):
        yield {'m': m, 'n': n}


def run_profile(case, st):
    from specula.lib import radial_profile as R
    m, n = case['m'], case['n']
    a = generic(m, n)
    for cy, cx in [(None, None)] + list(itertools.product((0, 1.5, m - 1), (0, 2.25, n))):
        y0 = m / 2 if cy is None else cy
        x0 = n / 2 if cx is None else cx
        bins = {}
        for i, j in itertools.product(range(m), range(n)):
            d = math.sqrt((i - y0) ** 2 + (j - x0) ** 2)
            bins.setdefault(int(d), []).append((a[i, j], d))
        ks = sorted(bins)
        prof = [sum(v for v, _ in bins[k]) / len(bins[k]) for k in ks]
        dist = [sum(d for _, d in bins[k]) / len(bins[k]) for k in ks]
        cnt = [len(bins[k]) for k in ks]
        p, d, c = R.compute_radial_profile(a, cy, cx, return_counts=True)
        st.step()
        if not (close(p, prof, 1e-10) and close(d, dist, 1e-10) and close(c, cnt, 0)):
            return f'{m}x{n} about {cy}, {cx}: {p.tolist()} at {d.tolist()}, expected ' \
                   f'{prof} at {dist}'
        ee = R.compute_encircled_energy(p, c)
        tot = np.cumsum(np.array(prof) * cnt)
        if not close(ee, tot / a.sum(), 1e-10):
            return f'{m}x{n}: encircled energy {ee.tolist()}'
        raw = R.compute_encircled_energy(p, c, normalize=False)
        if abs(raw[-1] - a.sum()) > 1e-9:
            return 'the encircled energy does not reach the energy of the image'
        q = list(dist) + [-1.0, dist[-1] + 3] + [(u + v) / 2 for u, v in zip(dist, dist[1:])]
        got = R.get_encircled_energy_at_distance(ee, d, q)
        if not close(got, np.interp(q, dist, tot / a.sum()), 1e-9):
            return f'{m}x{n}: encircled energy at {q} is {got.tolist()}'
    # width of a triangle of each half width
    for w in (1.5, 2.0, 3.25):
        r = np.arange(8.0)
        f = R.compute_fwhm_from_profile(np.maximum(1 - r / (2 * w), 0), r)
        if abs(f - 2 * w) > 1e-9:
            return f'FWHM of a triangle of half width {w}: {f}'
    st.state(m, n)
    st.outcome(len(prof))
    return None


FAMILIES = [
    Family('rebin', gen_rebin, run_rebin, weight=1, what='all pairs of shapes'),
    Family('factor', gen_factor, run_factor, weight=1, what='all 1-d resampling factors'),
    Family('toccd', gen_toccd, run_toccd, weight=2, what='all pairs of shapes x all impulses'),
    Family('interp', gen_interp, run_interp, weight=3, what='shapes x rotations x shifts x scales'),
    Family('extrap', gen_extrap, run_extrap, weight=3, what='all masks'),
    Family('efint', gen_efint, run_efint, precisions=(0, 1), weight=2,
           what='sequences of parameter updates'),
    Family('chain', gen_chain, run_chain, weight=1, what='chained interpolations'),
    Family('grid', gen_grid, run_grid, weight=1, what='samplings and options'),
    Family('mask', gen_mask, run_mask, weight=1, what='sizes and options'),
    Family('local', gen_local, run_local, weight=1, what='all masks'),
    Family('profile', gen_profile, run_profile, weight=1, what='image shapes and centres'),
]
