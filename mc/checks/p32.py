"""P32: calculators of photons, air, wind, petals, plate scales, noise and dark zones."""
import itertools
import math

import numpy as np

from mc.core import Family
from mc.harness import simul_params, step
from mc.mathar import TABLES

RULE = ('every combination of the arguments of each calculator is evaluated by the real code and compared '
        'with the definition, written independently')
ASSUMPTIONS = ['arguments from finite sets; maps of 8-25 pixels, 1-8 petals, 3-9 subapertures',
               'CPU, one process']


class quiet:
    def __enter__(self):
        import io
        import sys
        import warnings
        self.old = sys.stdout
        sys.stdout = io.StringIO()
        warnings.simplefilter('ignore')

    def __exit__(self, *a):
        import sys
        sys.stdout = self.old


def near(a, b, rel=1e-9, ab=0.):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=rel, atol=ab)


# ---------------------------------------------------------------- photons
PHOT = {
    'default': dict(U=(.36, .068, 435., 23.), B=(.44, .098, 720., 22.), V=(.55, .089, 392., 21.),
                    R=(.70, .220, 176., 20.), I=(.90, .240, 83., 19.5), J=(1.25, .300, 34., 14.),
                    H=(1.65, .350, 7., 13.5), K=(2.2, .400, 3.9, 12.5), L=(3.4, .550, .81, 3.),
                    M=(5., .300, .22, 0.), Na=(.589, .010, 392., 23.)),
    'MAORY-1': dict(V=(.54, .090, 368., 21.4), R=(.65, .130, 177., 20.6), I=(.80, .200, 119., 19.7),
                    J=(1.25, .300, 28.6, 16.5), H=(1.65, .350, 10.8, 14.4), K=(2.2, .400, 3.79, 13.)),
}
WAVES = (None, .3, .37, .5, .56, .5885, .58895, .589, .5895, .64, .75, .82, 1., 1.3, 1.5, 1.9, 2.1, 2.7, 3., 4.9, 7.)


def gen_photons(tier):
    mags = (0., 8.3, -1.5) if tier == 'quick' else (0., 8.3, -1.5, 21., 0.5)
    for model in PHOT:
        for band in (None, 'X', *PHOT['default']):
            for lam in WAVES:
                for mag in mags:
                    yield ['n', model, band, lam, mag]
    for band in ('', *PHOT['default']):
        for lam in WAVES[1:]:
            for zp in (0, 3.1e-9):
                for mag in mags:
                    yield ['source', 'default', band, lam, [mag, zp]]


def phot_row(model, band, lam):
    """Row of the table (um, um, 1e-10 J/s/m2/um, mag), or None if there is none."""
    tab = PHOT[model]
    if band is not None:
        return tab.get(band)
    rows = dict(tab)
    if abs(lam - .589) >= 1e-4:
        rows.pop('Na', None)
    return min(rows.values(), key=lambda r: abs(r[0] - lam))


def run_photons(case, st):
    kind, model, band, lam, x = case
    from specula.lib.n_phot import n_phot

    def ref(row, lam, mag, back=None, surf=1., dt=1., width=None, e0=None):
        lam = row[0] if lam is None else lam
        width = row[1] if width is None else width * 1e6
        e0 = row[2] * 1e-10 if e0 is None else e0
        back = row[3] if back is None else back
        k = lam * 1e-6 * dt * surf * width * e0 / (6.626e-34 * 3e8)
        return k * 10 ** (-mag / 2.5), k * 10 ** (-back / 2.5)

    if kind == 'source':
        from specula.data_objects.source import Source
        mag, zp = x
        s = Source(polar_coordinates=[0., 0.], magnitude=mag, wavelengthInNm=lam * 1e3, band=band,
                   zero_point=zp)
        with quiet():
            got = s.phot_density()
            if s.phot_density() != got:
                return f'{case}: the photons of the source change'
        st.step()
        want = ref(phot_row(model, band or None, lam), lam, mag, width=1e-9, e0=zp or None)[0]
        st.outcome(round(math.log10(got), 3))
        return None if near(got, want) else f'{case}: {got} photons/s/m2/nm instead of {want}'
    row = None if band is None and lam is None else phot_row(model, band, lam)
    for surf, dt, width, e0, back in itertools.product((1., 49.3), (1., .002), (None, 3e-8), (None, 2.2e-9),
                                                       (None, 0., 18.7)):
        kw = dict(surf=surf, delta_t=dt, width=width, e0=e0, back_mag=back, model=model)
        if band is not None:
            kw['band'] = band
        if lam is not None:
            kw['lambda_'] = lam * 1e-6
        try:
            with quiet():
                got = n_phot(x, **kw)
        except Exception as e:
            if row is None:
                st.outcome('refused')
                continue
            return f'{case} {kw}: {e!r}'
        st.step()
        if row is None:
            return f'{case}: {got} photons of an unknown band'
        want = ref(row, lam, x, back, surf, dt, width, e0)
        if not near(got, want):
            return f'{case} {kw}: {got} photons instead of {want}'
        st.outcome((row, round(math.log10(got[0]), 2)))
    st.state(kind, model, band, lam, x)


# ---------------------------------------------------------------- air
AIR_W = (.3, .35, .4, .55, .589, .633, .85, 1., 1.25, 1.29, 1.3001, 1.31, 1.65, 2.2, 2.49, 2.81, 3.3, 3.4, 3.8, 4.19,
         4.36, 4.7, 5.29, 7.51, 8.6, 10.1, 12., 14.09, 16.01, 18., 20., 24., 27.99)


def gen_air(tier):
    T = (-10., 0., 15., 17.5, 25.) if tier == 'quick' else (-15., -10., 0., 5., 15., 17.5, 25., 40.)
    P = (60e3, 75e3, 101325.) if tier == 'quick' else (50e3, 60e3, 71e3, 75e3, 90e3, 101325.)
    for t in T:
        for p in P:
            for h in (0., 10., 60.) if tier == 'quick' else (0., 10., 35., 60., 100.):
                yield ['point', t, p, h]
    for t in (-5., 8., 15.):
        yield ['physics', t, 0, 0]


def svp(T):
    return math.exp(1.2378847e-5 * T ** 2 - 1.9121316e-2 * T + 33.93711047 - 6.3431645e3 / T)


def air_ref(w, t, p, h):
    T = t + 273.15
    if w < 1.3:
        s2 = w ** -2
        dry = 1e-8 * (5792105. / (238.0185 - s2) + 167917. / (57.362 - s2))
        wet = 1e-8 * 1.022 * (295.235 + 2.6422 * s2 - .03238 * s2 ** 2 + .004028 * s2 ** 3)
        pw = h / 100 * (1.00062 + 3.14e-8 * p + 5.6e-7 * t ** 2) * svp(T)
        return dry * (p - pw) / 101325. * 288.15 / T + wet * pw / 1333. * 293.15 / T
    for (lo, hi), ref, rows in TABLES.values():
        if lo <= w <= hi:
            q, dp, dh = 1 / T - 1 / 290.65, p - 75e3, h - 10.
            n, dn = 0., 1e4 / w - 1e4 / ref
            for i, (c, cT, cTT, cH, cHH, cp, cpp, cTH, cTp, cHp) in enumerate(rows):
                n += dn ** i * (c + cT * q + cTT * q * q + cH * dh + cHH * dh * dh + cp * dp + cpp * dp * dp
                                + cTH * q * dh + cTp * q * dp + cHp * dh * dp)
            return n
    raise ValueError(w)


def run_air(case, st):
    kind, t, p, h = case
    from specula.lib.air_refraction import MatharAirRefraction
    m = MatharAirRefraction()

    def n(w, t=t, p=p, h=h):
        return m.get_refractive_index(np.asarray(w) * 1e-6, T_celsius=t, P_pa=p, H_pct=h)

    if kind == 'point':
        vec = n(AIR_W)
        for w, v in zip(AIR_W, vec):
            one = n(w)
            st.step()
            st.outcome(round(float(v) * 1e6, 2))
            if np.shape(one) != () or one != v:
                return f'{w} um, {case}: alone {one}, in a list {v}'
            want = air_ref(w, t, p, h)
            if not near(v, want, 1e-9):
                return f'{w} um, {case}: refractivity {v} instead of {want}'
        rev = n(AIR_W[::-1])
        if not np.array_equal(rev[::-1], vec):
            return f'{case}: the order of the wavelengths matters'
        if t == 15. and p == 101325. and h == 0.:
            if not near(m.get_refractive_index(np.asarray(AIR_W) * 1e-6), vec, 1e-12):
                return 'the standard conditions are not 15 C, 101325 Pa and dry air'
        st.state(case)
        return None
    # physics that does not come from the tables
    for w in (.3, .4, .55, .7, 1., 1.29):
        s2 = w ** -2
        birch = 1e-8 * (8342.54 + 2406147 / (130 - s2) + 15998 / (38.9 - s2))
        st.step()
        if not near(n(w, 15., 101325., 0.), birch, 1e-4):
            return f'{w} um: not the refractivity of standard air'
    for p in (60e3, 75e3, 90e3):
        a, b = n(1.2999, t, p, 0.), n(1.3001, t, p, 0.)
        st.step()
        if not near(a, b, 2e-3):
            return f'{t} C, {p} Pa: step from {a} to {b} at 1.3 um'
    for w in AIR_W:
        if w > 14.5:                        # fits of the Q band are of lower quality
            continue
        k = [n(w, t, p, 0.) * (t + 273.15) / p for p in (65e3, 75e3, 85e3)]
        k2 = n(w, t + 4, 75e3, 0.) * (t + 277.15) / 75e3
        st.step()
        if not near(k, [k[1]] * 3, 2e-3) or not near(k2, k[1], 2e-3):
            return f'{w} um at {t} C: the refractivity of dry air is not in proportion to its density'
    # the dispersion due to water follows the density of vapour
    for b in 'LMN' if t == 15. else ():     # the fits are linear around 17.5 C
        lo, hi = TABLES[b][0]
        for w1, w2 in itertools.combinations(np.linspace(lo + .01, hi - .01, 7), 2):
            if w2 - w1 < .45 * (hi - lo):
                continue
            def wet(t):
                return (n(w1, t, 75e3, 20.) - n(w1, t, 75e3, 0.)) - (n(w2, t, 75e3, 20.) - n(w2, t, 75e3, 0.))
            r = wet(t + 5) / wet(t)
            T = t + 273.15
            want = svp(T + 5) / (T + 5) / (svp(T) / T)
            st.step()
            if abs(r - want) > .2:
                return f'water between {w1:.2f} and {w2:.2f} um: {t} to {t + 5} C changes it by {r}, not {want}'
    st.state(case)


# ---------------------------------------------------------------- wind of a moving object
def gen_wind(tier):
    dirs = range(-180, 361, 45 if tier == 'quick' else 15)
    for od in dirs:
        for wd in dirs:
            for v in ((7600., 5e5), (3070., 3.6e7), (0., 5e5)):
                yield [od, wd, *v]


def run_wind(case, st):
    od, wd, v, h = case
    from specula.lib.fsoc_lib import calc_effective_wind_speed, calc_paa, calc_timing_uplink_downlink
    c = 299792458.0
    heights = np.array([0., 4000., 15000.])
    for ws in (np.array([0., 10., 30.]), np.array([12., 0., 5.])):
        a = [np.array(heights), np.array(ws), np.array([wd, wd + 30., wd - 100.])]
        cp = [x.copy() for x in a]
        sp, di = calc_effective_wind_speed(a[0], a[1], a[2], h, v, od)
        st.step()
        if not all(np.array_equal(x, y) for x, y in zip(a, cp)):
            return f'{case}: an argument was changed'
        # motion seen by the layer: the point ahead angle is covered in the time of light
        s = np.tan(2 * v / c) * heights * c / h
        z = ws * np.exp(1j * np.radians(cp[2])) + s * np.exp(1j * np.radians(od))
        if not near(sp, abs(z), 1e-9, 1e-9):
            return f'{case}: speed {sp} instead of {abs(z)}'
        got = np.asarray(sp) * np.exp(1j * np.radians(np.asarray(di)))
        if np.max(np.abs(got - z)) > 1e-8 * (1 + np.max(np.abs(z))):
            return f'{case}: direction {di} instead of {np.degrees(np.angle(z))}'
        st.outcome(np.round(sp, 6).tolist())
    if not near(calc_paa(v), np.degrees(2 * v / c) * 3600):
        return f'{case}: point ahead angle {calc_paa(v)}'
    for zen in (0., 30., 60., od / 6.):
        up, down = calc_timing_uplink_downlink(zen, h, heights)
        k = 1 / np.cos(np.radians(zen)) / c
        st.step()
        if not near(down, heights * k, 1e-9) or not near(up, (2 * h - heights) * k, 1e-9):
            return f'{case} at {zen} degrees: light takes {up} and {down}'
    st.state(case)


# ---------------------------------------------------------------- petals
def gen_petals(tier):
    dims = (8, 13, 20) if tier == 'quick' else (8, 11, 16, 20, 25)
    for dim, n, off, obs, sp, tilts in itertools.product(
            dims, (1, 2, 3, 4, 6, 8), (0., 15., 30., -40., 90., 200.), (0., .3), (0, 1, 2, 3), (False, True)):
        yield [dim, n, off, obs, sp, tilts, None]
    for dim, n, off, tilts in itertools.product(dims, (2, 3, 5), (0., 33.), (False, True)):
        for mk in ('half', 'odd'):
            yield [dim, n, off, 0., 0, tilts, mk]


def run_petals(case, st):
    dim, n, off, obs, width, tilts, mk = case
    from specula.lib.compute_petal_ifunc import compute_petal_ifunc
    y, x = np.mgrid[:dim, :dim] - (dim - 1) / 2.
    r = np.hypot(x, y)
    disc = (r < dim / 2) & (r >= obs * dim / 2)
    kw = {}
    if mk:
        user = disc & (x > -1) if mk == 'half' else (disc & ((np.arange(dim * dim).reshape(dim, dim) % 5) != 0))
        kw['mask'] = user.astype(np.uint8)
    ifs, mask, cen = compute_petal_ifunc(dim, n, angle_offset=off, obsratio=obs, spider=width > 0,
                                         spider_width=width, add_tilts=tilts, dtype=np.float64, **kw)
    st.step()
    mask = np.asarray(mask) > 0
    if mk:
        if not np.array_equal(mask, user):
            return f'{case}: the mask was changed'
    elif not width:
        if not np.array_equal(mask, disc):
            return f'{case}: not the mask of the pupil'
    else:
        gone = disc & ~mask
        if (mask & ~disc).any():
            return f'{case}: the mask exceeds the pupil'
        ang = np.radians(off) + 2 * np.pi * np.arange(n) / n
        along = x[..., None] * np.cos(ang) + y[..., None] * np.sin(ang)
        across = np.abs(-x[..., None] * np.sin(ang) + y[..., None] * np.cos(ang))
        arm = along > -width - 1.5
        if (gone & ~(arm & (across <= .6 * width + 1.25)).any(-1)).any():
            return f'{case}: pixels far from the spiders are missing'
        if (mask & ((along > 0) & (across < .5 * width - .3)).any(-1)).any():
            return f'{case}: spiders with holes'
    if ifs.shape != ((3 if tilts else 1) * n, mask.sum()):
        return f'{case}: {ifs.shape} functions'
    # petal k of pixel: the k-th sector counted from the offset
    u = ((np.arctan2(y, x) - np.radians(off)) % (2 * np.pi)) / (2 * np.pi / n)
    edge = np.abs(u - np.round(u)) * r * 2 * np.pi / n < 1e-6
    k = np.floor(u).astype(int) % n
    k2 = np.where(edge, (np.round(u).astype(int) - (np.floor(u) == np.round(u))) % n, k)
    maps = np.zeros((len(ifs), dim, dim))
    maps[:, mask] = ifs
    pet = maps[:n]
    if not np.isin(pet, (0, 1)).all() or not np.array_equal(pet.sum(0), mask):
        return f'{case}: the petals do not cover every pixel of the mask once'
    got = pet.argmax(0)
    bad = mask & (got != k) & ~(edge & ((got == k2) | (got == (k + 1) % n) | (got == (k - 1) % n)))
    if bad.any():
        j = np.argwhere(bad)[0]
        return f'{case}: pixel {j.tolist()} is of petal {got[tuple(j)]}, not {k[tuple(j)]}'
    if width >= 2 and n > 1 and not mk:
        for a, b in (((slice(1, None), slice(None)), (slice(None, -1), slice(None))),
                     ((slice(None), slice(1, None)), (slice(None), slice(None, -1)))):
            if (mask[a] & mask[b] & (got[a] != got[b])).any():
                return f'{case}: two petals touch in spite of the spiders'
    st.outcome((dim, n, width, pet.sum((1, 2)).astype(int).tolist()))
    for i in range(n):
        on = pet[i] > 0
        if not on.any():
            continue
        c = (np.nonzero(on)[1].mean(), np.nonzero(on)[0].mean())
        if not near(np.asarray(cen)[:, i], c):
            return f'{case}: centre of petal {i} is {cen[:, i]}, not {c}'
        if tilts:
            for j, g in ((n, x), (2 * n, y)):
                f = maps[j + i]
                if (f[~on] != 0).any():
                    return f'{case}: tilt of petal {i} outside it'
                v = g[on] - g[on].mean()
                v = v / (v.std() or 1.)
                if not near(f[on], v, 1e-6, 1e-6):
                    return f'{case}: tilt of petal {i} is not its {"xy"[j // n - 1]} coordinate'
    st.state(case)


# ---------------------------------------------------------------- plate scale
SHAPES = ('same', 'wide', 'mixed', 'flip')


def gen_plate(tier):
    ns = ((16, 24),) if tier == 'quick' else ((16, 24), (20, 26), (12, 20))
    for (n, big), sh, s0, obs in itertools.product(ns, SHAPES, (None, 0, 2), (0., .3)):
        for s1, s2 in itertools.product((None, 0, 1, 2, 3, 5), (0, 2, 4)):
            yield [n, big, sh, s0, s1, s2, obs]


def run_plate(case, st):
    n, big, sh, s0, s1, s2, obs = case
    from specula.base_value import BaseValue
    from specula.data_objects.m2c import M2C
    from specula.lib.platescale_coeff import platescale_coeff
    from specula.processing_objects.dm import DM
    sp = simul_params(pixel_pupil=n, pixel_pitch=.1)
    nm = 9

    def m2c(k):
        if sh not in ('mixed', 'flip'):
            return None
        if sh == 'flip':
            return M2C(np.diag([(-1.) ** (i + k) * (1 + .1 * i) for i in range(nm)]), precision=0)
        i, j = np.mgrid[:nm, :nm]
        return M2C(np.eye(nm) + .2 * ((i * 3 + j * 5 + k) % 4 == 1), precision=0)

    starts = [s0, s1, s2]
    dms = []
    for k, s in enumerate(starts):
        kw = {} if s is None else {'start_mode': s}
        with quiet():
            dms.append(DM(sp, height=4000. * k, type_str='zernike', nmodes=nm, obsratio=obs if k == 0 else 0.,
                          npixels=n if k == 0 or sh == 'same' else big + 4 * (k - 1), m2c=m2c(k), precision=0, **kw))
    with quiet():
        got = platescale_coeff(dms, [s or 0 for s in starts], n)
        again = platescale_coeff(dms, [s or 0 for s in starts], n)
    st.step()
    if not np.array_equal(got, again):
        return f'{case}: a second calculation gives another result'
    lit = np.asarray(dms[0].mask) > 0

    def modes(k):
        """Maps in the pupil of focus and astigmatisms, shown by a mirror that has all the modes."""
        with quiet():
            size = np.asarray(dms[k].mask).shape[0]
            d = DM(sp, height=0., type_str='zernike', nmodes=nm, obsratio=obs if k == 0 else 0., npixels=size,
                   m2c=m2c(k), sign=1, precision=0)
            v = BaseValue(value=np.zeros(nm), precision=0)
            d.inputs['in_command'].set(v)
            d.setup()
            out = []
            for i in (2, 3, 4):
                v.value[:] = 0
                v.value[i] = 1
                v.generation_time = i
                step(d, i)
                f = np.array(d.outputs['out_layer'].phaseInNm)
                o = (size - n) // 2
                f = f[o:o + n, o:o + n][lit]
                out.append(f - f.mean())
        return np.array(out).T

    a = modes(0)
    want = np.zeros((2, 3))
    for k in (1, 2):
        if (starts[k] or 0) <= 2:
            want[k - 1] = np.diag(np.linalg.lstsq(a, modes(k), rcond=None)[0])
    if not near(got, want, 1e-5, 1e-7):
        return f'{case}: coefficients {got.tolist()} instead of {want.tolist()}'
    if sh in ('same', 'wide') and obs == 0.:
        for k in (1, 2):
            if (starts[k] or 0) <= 2:
                rho = n / np.asarray(dms[k].mask).shape[0]
                if np.max(np.abs(np.abs(got[k - 1]) / rho ** 2 - 1)) > .2:
                    return f'{case}: {got[k - 1]} on a mirror {1 / rho} times the pupil'
    st.outcome(np.round(got, 5).tolist())
    st.state(case)


# ---------------------------------------------------------------- elongated noise
def gen_noise(tier):
    ns = (3, 4, 6) if tier == 'quick' else (3, 4, 5, 6, 8, 9)
    for n, la, tg, diag, zen in itertools.product(ns, range(5), (0., .05, .3, .6, 1.), (False, True), (0., 40.)):
        for sub in ('all', 'disc', 'shuffled'):
            yield [n, la, tg, diag, zen, sub]


def run_noise(case, st):
    n, la, tg, diag, zen, sub = case
    from specula.lib.calc_noise_cov_elong import calc_noise_cov_elong
    D, thick, fwhm, s2, h0 = 8., 10e3, 1.1, 3.7, None if la % 2 else 88e3
    lx, ly = ((4.413, 0.117), (-5.2, 3.31), (0.021, 0.153), (0.37, -4.9), (-1.72, 2.23))[la]
    idx = np.arange(n * n)
    if sub != 'all':
        yy, xx = np.divmod(idx, n)
        idx = idx[np.hypot(yy - (n - 1) / 2, xx - (n - 1) / 2) < n / 2]
    if sub == 'shuffled':
        idx = idx[np.argsort((idx * 7) % 11, kind='stable')]
    cp = idx.copy()
    with quiet():
        C = calc_noise_cov_elong(D, zen, thick, [lx, ly, 0.], idx, n, 5., fwhm, s2, tg, h_in_m=h0, only_diag=diag)
    st.step()
    if not np.array_equal(cp, idx):
        return f'{case}: the list of subapertures was changed'
    m = len(idx)
    if C.shape != (2 * m, 2 * m):
        return f'{case}: shape {C.shape}'
    # position of the corner of the subaperture with respect to the launcher
    X = (idx % n - n / 2) * D / n - lx
    Y = (idx // n - n / 2) * D / n - ly
    am = 1 / np.cos(np.radians(zen))
    h, t = (90e3 if h0 is None else h0) * am, thick * am
    as_ = 180 * 3600 / np.pi

    def el(p):                              # angle between the ends of the sodium layer
        return (np.arctan2(p, h - t / 2) - np.arctan2(p, h + t / 2)) * as_
    bx, by = -el(-X), -el(-Y)
    want = np.zeros((2 * m, 2 * m))
    if diag:
        far = np.abs(np.concatenate([X, Y]))
        nt = int(tg * 2 * m)
    else:
        far = np.maximum(np.abs(X), np.abs(Y))
        nt = int(tg * m)
    order = np.sort(far)
    cut = order[len(far) - nt] if nt else np.inf
    tie = nt and nt < len(far) and order[len(far) - nt] - order[len(far) - nt - 1] < 1e-9
    tr = far >= cut - 1e-9
    for i in range(m):
        ii = np.array([i, i + m])
        b = np.array([bx[i], by[i]])
        if diag:
            one = np.diag(1 / (s2 * (1 + b ** 2 / fwhm ** 2)))
            one = one * np.diag(np.where(tr[ii], .25, 1.))
            alts = [one]
        else:
            full = np.linalg.inv(s2 * (np.eye(2) + np.outer(b, b) / fwhm ** 2))
            q = np.array([b[1], -b[0]]) / np.hypot(*b)
            cutm = np.outer(q, q) / s2      # nothing is known along the elongation
            alts = [cutm if tr[i] else full]
        blk = C[np.ix_(ii, ii)]
        want[np.ix_(ii, ii)] = blk
        if tie and (np.abs(far[ii if diag else [i]] - cut) < 1e-9).any():
            continue
        if not near(blk, alts[0], 1e-6, 1e-7 / s2):
            return f'{case}: subaperture {idx[i]} has {blk.tolist()} instead of {alts[0].tolist()}'
    if not np.array_equal(want, C):
        return f'{case}: noise of a subaperture correlated with that of others'
    if np.linalg.eigvalsh((C + C.T) / 2).min() < -1e-9 or np.abs(C - C.T).max() > 1e-12:
        return f'{case}: not the inverse of a covariance'
    st.outcome((m, nt, round(float(np.trace(C)), 6)))
    st.state(case)


# ---------------------------------------------------------------- dark zones
def gen_dark(tier):
    ns = (16, 24) if tier == 'quick' else (16, 24, 32)
    for n, res, obs, con, beta, sym in itertools.product(ns, (2., 3., 4.), (0., .3), (1e-2, 1e-3, 1e-4), (.9, .5, 0.),
                                                         (False, True)):
        for iwa, owa in ((2., 5.), (3., 6.), (None, 4.)) if not sym else ((3., 5.), (4., 7.)):
            yield ['app', n, res, obs, con, beta, sym, iwa, owa]
    for con, sym in itertools.product((.05, 1e-2, 1e-3, 1e-6), (False, True)):
        yield ['short', 16, 3., 0., con, .9, sym, 3., 5.]
    for n, res, con, stop in itertools.product(ns[:1], (2., 3.), (1e-2, 1e-3), ((0., 1.), (.3, .9))):
        yield ['papl', n, res, 0., con, .9, False, 2., 5., *stop, 1.5, 6.]
        yield ['papl', n, res, 0., con, .9, True, 3., 5., *stop, 0., None]
        yield ['knife', n, res, 0., con, .9, False, 2., None, *stop, 1., None]


def run_dark(case, st):
    kind, n, res, obs, con, beta, sym, iwa, owa = case[:9]
    from specula.data_objects.electric_field import ElectricField
    from specula.processing_objects.apodizer_coronagraph import APPCoronagraph, PAPLCoronagraph
    lam, pitch = 500., .05
    sp = simul_params(pixel_pupil=n, pixel_pitch=pitch)
    y, x = np.mgrid[:n, :n] - (n - 1) / 2.
    r = np.hypot(x, y)
    pup = ((r < n / 2) & (r >= obs * n / 2)).astype(float)
    kw = dict(simul_params=sp, wavelengthInNm=lam, pupil=pup.copy(), contrastInDarkHole=con, iwaInLambdaOverD=iwa,
              owaInLambdaOverD=owa, fft_res=res, make_symmetric=sym, beta=beta)
    stop = np.ones((n, n))
    m = int(round(n * res))
    fy, fx = (np.mgrid[:m, :m] - (m - 1) / 2.) / res
    fr = np.hypot(fx, fy)
    fp = np.ones((m, m))
    if kind not in ('app', 'short'):
        inn, out, fi, fo = case[9:]
        kw.update(fpmIWAInLambdaOverD=fi, fpmOWAInLambdaOverD=fo, knife_edge=kind == 'knife',
                  innerStopAsRatioOfPupil=inn, outerStopAsRatioOfPupil=out)
        stop = (r < out * n / 2) & (r >= inn * n / 2)
        if kind == 'knife':
            kw['owaInLambdaOverD'] = None
            fp = 1. * (fx >= fi)
        else:
            fp = (fr < (fo if fo is not None else m / 2 / res)) & (fr >= fi)
    if kind in ('app', 'short'):
        kw['max_its'] = 1000 if kind == 'app' else 3
    try:
        with quiet():
            o = (APPCoronagraph if kind in ('app', 'short') else PAPLCoronagraph)(precision=0, **kw)
    except Warning:
        st.outcome('not reached')
        # these are easily reached; the others may fail, but not silently
        easy = kind != 'short' and iwa is not None and (not sym or con >= 1e-2)
        return f'{case}: the contrast is not reached' if easy else None
    st.step()
    ap = np.asarray(o.apodizer)
    if np.max(np.abs(np.abs(ap) - 1)) > 1e-6:
        return f'{case}: the plate absorbs light'
    u = np.arange(m) - m / 2
    W = np.exp(-2j * np.pi * np.outer(u, np.arange(n)) / m)
    v, w = np.meshgrid(u / res, u / res)
    rr, px = np.hypot(v, w), 1 / res
    psf = np.abs(W @ (pup * ap) @ W.T) ** 2
    i0 = iwa or 0.
    owa = owa if kind != 'knife' else n / 2
    zone = (rr > i0 + px) & (rr < owa - px)
    if not sym:
        zone &= v > i0 + px
    far = psf[zone].max() / psf.max()
    flat = np.abs(W @ pup @ W.T) ** 2
    st.outcome((kind, round(math.log10(far), 2)))
    if far > con * 1.001:
        return f'{case}: contrast {far:.2e} in the dark zone'
    # the plate acts only because of the zone: a pupil already dark enough there is left alone
    out_zone = (rr >= i0 - px) & (rr <= owa + px)
    if not sym:
        out_zone &= v >= i0 - px
    if (flat[out_zone] <= con * flat.max()).all() and np.max(np.abs(ap[pup > 0] - 1)) > 1e-6:
        return f'{case}: aberrations although the zone was dark already'
    if psf.max() < .05 * flat.max():
        return f'{case}: no star left'
    # the field goes through plate, masks and stop
    ef = ElectricField(n, n, pitch, S0=2., precision=0)
    o.inputs['in_ef'].set(ef)
    ph = 40. * np.sin(.5 * x + .1) * np.cos(.3 * y)
    ef.A[:], ef.phaseInNm[:], ef.generation_time = pup, 0., 1
    o.setup()
    for t, p in ((1, 0 * ph), (2, ph), (3, 0 * ph)):
        ef.phaseInNm[:], ef.generation_time = p, t
        with quiet():
            step(o, t)
        E = pup * np.exp(2j * np.pi * p / lam)
        uu = np.arange(m) - (m - 1) / 2.
        V = np.exp(-2j * np.pi * np.outer(uu, np.arange(n)) / m)
        F = V @ (E * ap) @ V.T
        G = np.conj(V).T @ (F * fp) @ np.conj(V) / m ** 2 * stop
        oe = o.outputs['out_ef']
        got = np.asarray(oe.A) * np.exp(2j * np.pi * np.asarray(oe.phaseInNm) / lam)
        st.step()
        if np.max(np.abs(got - G)) > 1e-6:
            return f'{case} step {t}: not the field filtered by the plate and the masks'
        s0 = 2. * (np.abs(G) ** 2).sum() / (np.abs(E) ** 2).sum()
        if abs(float(oe.S0) - s0) > 1e-6:
            return f'{case} step {t}: S0 {float(oe.S0)} instead of {s0}'
    st.state(case)


FAMILIES = [
    Family('photons', gen_photons, run_photons, weight=3,
           what='photometric model x band x wavelength x magnitude x area, time, width, zero point, sky, also of sources'),
    Family('air', gen_air, run_air, weight=1,
           what='refractivity of air: 33 wavelengths x temperature x pressure x humidity against formulas and physics'),
    Family('wind', gen_wind, run_wind, weight=1,
           what='effective wind, point ahead and timing: direction of the object x of the wind x orbit x zenith angle'),
    Family('petals', gen_petals, run_petals, weight=5,
           what='size x petals x rotation x obstruction x spiders x tilts or mask given'),
    Family('plate', gen_plate, run_plate, weight=4,
           what='bases and footprints of three mirrors x first mode of each x obstruction'),
    Family('noise', gen_noise, run_noise, weight=3,
           what='subapertures x launcher x truncation x full or diagonal x zenith angle x selection'),
    Family('dark', gen_dark, run_dark, weight=6,
           what='phase plates: pupil x sampling x contrast x acceleration x zone, Lyot masks and stops'),
]
