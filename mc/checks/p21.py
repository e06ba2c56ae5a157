"""P21: focal planes (PSF, Strehl ratio, coronagraphs): all small pupils, phase histories and masks.

The real PSF and coronagraph objects are run on every combination of a bounded set of pupils,
samplings, masks and histories of fields, and compared with direct Fourier sums."""
import contextlib
import io
import itertools
import math

import numpy as np

from mc.core import Family
from mc.harness import close, simul_params, step

RULE = ('all combinations of pupil, sampling, mask and starting time; all histories of fields up to '
        'the stated length')
ASSUMPTIONS = ['pupils of 4 to 8 pixels, square fields', 'CPU arrays',
               'focal plane masks whose edges do not fall exactly on a pixel centre']
PITCH = 0.1
DT = 1000000


def tol():
    import specula
    return 2e-4 if int(specula.global_precision) else 1e-9


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def pupil(n, kind):
    y, x = np.mgrid[0:n, 0:n] - (n - 1) / 2
    r = np.hypot(x, y)
    if kind == 'full':
        return np.ones((n, n))
    if kind == 'round':
        return 1.0 * ((r < n / 2) & (r > 0.8))
    if kind == 'grey':
        return 0.25 + 0.5 * (r < n / 3) + 0.25 * (x > 0)
    raise ValueError(kind)


def phase(n, kind, lam):
    """nm"""
    i, j = np.mgrid[0:n, 0:n]
    if kind == 'F':
        return np.zeros((n, n))
    if kind == 'T':
        return lam * (0.9 * j - 0.4 * i) / n
    if kind == 'P':
        return np.full((n, n), lam * 0.3)
    return ((i * 7 + j * 11 + i * j * 3) % 13) * lam / 29.0


def make_ef(n, s0=2.0):
    from specula.data_objects.electric_field import ElectricField
    return ElectricField(n, n, PITCH, S0=s0)


def put(ef, A, ph, t):
    ef.A[:] = A
    ef.phaseInNm[:] = ph
    ef.generation_time = t


def spectrum(E, m, off):
    """Fourier sums on m points, at positions k - off, and the transform matrix."""
    n = E.shape[0]
    u = np.arange(m) - off
    W = np.exp(-2j * np.pi * np.outer(u, np.arange(n)) / m)
    return W @ E @ W.T, W


# ---------------------------------------------------------------- PSF

def profile_ref(p, nd):
    m = p.shape[0]
    d = {}
    for i in range(m):
        for j in range(m):
            r = math.hypot(i - m / 2, j - m / 2)
            s = d.setdefault(int(math.floor(r + 1e-12)), [0.0, 0.0, 0])
            s[0] += p[i, j]
            s[1] += r
            s[2] += 1
    ks = sorted(d)
    prof = np.array([d[k][0] / d[k][2] for k in ks]) / p.max()
    rad = np.array([d[k][1] / d[k][2] for k in ks]) / nd
    ee = np.cumsum([d[k][0] for k in ks]) / p.sum()
    half = prof.max() / 2
    fwhm = float('nan')
    for k in range(1, len(prof)):
        if prof[k] <= half:
            fwhm = 2 * (rad[k - 1] + (half - prof[k - 1]) * (rad[k] - rad[k - 1]) / (prof[k] - prof[k - 1])) \
                if prof[k] != prof[k - 1] else 2 * rad[k - 1]
            break
    return prof, rad, ee, fwhm


def psf_cases(tier):
    hl = 3 if tier == 'quick' else 4
    hist = [''.join(h) for h in itertools.product('FTRA-', repeat=hl) if any(c != '-' for c in h)]
    cfg = [(4, 2, 'full', 500), (6, 1.5, 'round', 750), (5, 2, 'grey', 500), (8, 1, 'round', 500)]
    if tier != 'quick':
        cfg += [(6, 3, 'grey', 1000), (4, 1, 'grey', 500), (7, 2.3, 'round', 600)]
    for c in cfg:
        for start in (0, 1, hl + 5):
            for h in hist:
                yield dict(n=c[0], nd=c[1], pup=c[2], lam=c[3], start=start, h=h, coro=False)
        for h in hist[::3] if tier == 'quick' else hist:
            for avg in (False, True):
                yield dict(n=c[0], nd=c[1], pup=c[2], lam=c[3], start=1, h=h, coro=True, avg=avg)


def run_psf(c, st):
    n, nd, lam = c['n'], c['nd'], c['lam']
    sp = simul_params(pixel_pupil=n, pixel_pitch=PITCH)
    radii = [0.3, 0.8, 1.7]
    kw = dict(nd=nd, start_time=c['start'] * 1e-3, compute_profile_metrics=True,
              compute_metrics_in_trigger=True, ee_radius_in_lambda_d=radii, verbose=False)
    with quiet():
        if c['coro']:
            from specula.processing_objects.psf_coronagraph import PsfCoronagraph
            o = PsfCoronagraph(sp, lam, use_average_field=c['avg'], **kw)
        else:
            from specula.processing_objects.psf import PSF
            o = PSF(sp, lam, **kw)
        ef = make_ef(n)
        A0 = pupil(n, c['pup'])
        put(ef, A0, 0, -1)
        o.inputs['in_ef'].set(ef)
        o.setup()
    m = int(round(n * nd / 2)) * 2
    psfs, srs, cors, ref = [], [], [], None
    tl = tol()
    out = o.outputs
    now = None
    for k, s in enumerate(c['h']):
        t = k * DT
        if s != '-':
            A = A0 * (1.0 if s != 'A' else (0.3 + 0.1 * np.arange(n))[None, :])
            ph = phase(n, s, lam)
            put(ef, A, ph, t)
            Ac, pc = A.copy(), np.array(ef.phaseInNm)
        with quiet():
            trig = step(o, t)
        st.step()
        if trig != (s != '-'):
            return f'step {k} of {c["h"]}: triggered={trig}'
        if not trig:
            continue
        if not (np.allclose(ef.A, Ac) and np.array_equal(ef.phaseInNm, pc)):
            return f'step {k} of {c["h"]}: the input field was modified'
        now = t
        E = A * np.exp(2j * np.pi * ph / lam)
        F, _ = spectrum(E, m, m // 2)
        p = np.abs(F) ** 2 / (np.sum(A ** 2) * m * m)
        if ref is None:
            ref = A.sum() ** 2 / np.sum(A ** 2)
        sr = abs(E.sum()) ** 2 / np.sum(A ** 2) / ref
        st.outcome(round(float(sr), 6))
        where = f'step {k} of {c["h"]} (n={n}, nd={nd}, {c["pup"]}, {lam} nm)'
        if not close(out['out_psf'].value, p, tl):
            return f'{where}: the PSF is not the normalised square modulus of the transform'
        if not close(out['out_sr'].value, sr, tl * 5):
            return f'{where}: Strehl ratio {float(out["out_sr"].value)}, not {sr}'
        if out['out_psf'].generation_time != t or out['out_sr'].generation_time != t:
            return f'{where}: outputs do not carry the present time'
        msg = metrics(out, p, nd, radii, tl, '')
        if msg:
            return f'{where}: {msg}'
        q = None
        if c['coro']:
            pup = A > 0
            if c['avg']:
                Ec = E - E[pup].mean() * pup
            else:
                phr = 2 * np.pi * ph / lam
                mp = phr[pup].mean()
                vp = ((phr[pup] - mp) ** 2).mean()
                Ec = E - np.exp(-vp / 2) * np.exp(1j * mp) * A
            G, _ = spectrum(Ec, m, m // 2)
            q = np.abs(G) ** 2 / (np.sum(A ** 2) * m * m)
            if np.max(np.abs(out['out_coronagraph_psf'].value - q)) > tl * p.max():
                return f'{where}: the coronagraphic PSF is wrong'
        if k >= c['start']:
            psfs.append(p)
            srs.append(sr)
            cors.append(q)
    with quiet():
        o.finalize()
    where = f'after {c["h"]} from step {c["start"]} (n={n}, nd={nd}, {c["pup"]})'
    if psfs:
        mean = np.mean(psfs, axis=0)
        if not close(out['out_int_psf'].value, mean, tl):
            return f'{where}: the integrated PSF is not the mean of the {len(psfs)} integrated PSFs'
        if not close(out['out_int_sr'].value, np.mean(srs), tl * 5):
            return f'{where}: the integrated Strehl ratio is not the mean of the integrated ones'
        if np.max(np.abs(np.asarray(out['out_std_psf'].value) - np.std(psfs, axis=0))) > \
                math.sqrt(tl / 50) * mean.max():
            return f'{where}: the standard deviation is not that of the integrated PSFs'
        msg = metrics(out, mean, nd, radii, tl, 'int_')
        if msg:
            return f'{where}: {msg}'
        if c['coro']:
            if np.max(np.abs(out['out_int_coronagraph_psf'].value - np.mean(cors, axis=0))) > tl * mean.max():
                return f'{where}: the integrated coronagraphic PSF is not the mean'
            if np.max(np.abs(out['out_std_coronagraph_psf'].value - np.std(cors, axis=0))) > \
                    math.sqrt(tl / 50) * mean.max():
                return f'{where}: the standard deviation of the coronagraphic PSF is wrong'
    else:
        if np.any(out['out_int_psf'].value) or float(out['out_int_sr'].value) != 0:
            return f'{where}: something was integrated before start_time'
    for name in ('out_int_psf', 'out_int_sr', 'out_std_psf'):
        if now is not None and out[name].generation_time < now:
            return f'{where}: {name} does not carry the final time'
    return None


def metrics(out, p, nd, radii, tl, pre):
    prof, rad, ee, fwhm = profile_ref(p, nd)
    tl = max(tl * 5, 1e-8)
    a = np.asarray(out[f'out_{pre}psf_profile'].value)
    if a.shape != (2, len(prof)) or not close(a[0], rad, tl) or not close(a[1], prof, tl):
        return f'{pre}psf_profile is not the azimuthal mean in rings of one pixel'
    b = np.asarray(out[f'out_{pre}encircled_energy'].value)
    if b.shape != (2, len(prof)) or not close(b[0], rad, tl) or not close(b[1], ee, tl):
        return f'{pre}encircled_energy is not the cumulated flux'
    f = float(out[f'out_{pre}psf_fwhm'].value)
    # near-ties of the half maximum are decided by rounding
    tie = np.min(np.abs(prof - prof.max() / 2)) < 1e-3
    if not tie and not (math.isnan(f) and math.isnan(fwhm)) and not abs(f - fwhm) <= 10 * tl * max(1, abs(fwhm)):
        return f'{pre}psf_fwhm is {f}, not {fwhm}'
    e = np.asarray(out[f'out_{pre}encircled_energy_at_radius'].value)
    want = np.interp(radii, rad, ee)
    if not close(e, want, tl * 10):
        return f'{pre}encircled_energy_at_radius is {e}, not {want}'
    return None


# ---------------------------------------------------------------- coronagraphs

def stop_ref(n, inner, outer):
    y, x = np.mgrid[0:n, 0:n] - (n - 1) / 2
    r = np.hypot(x, y) / (n / 2)
    return 1.0 * ((r < outer) & (r >= inner))


def coro_cases(tier):
    masks = []
    for iwa in (0.0, 0.9, 1.3):
        for owa in (None, 1.7, 2.2):
            masks.append(('lyot', dict(iwa=iwa, owa=owa)))
    for edge in (0.05, 0.4, 1.1, -0.45):
        masks.append(('knife', dict(edge=edge)))
    for ch in (0, 1, 2, 4):
        masks.append(('vortex', dict(charge=ch)))
    masks.append(('vortex', dict(charge=2, inner=(0.7, 1, 1.0))))
    masks.append(('vortex', dict(charge=2, inner=(None, None, None))))
    for d in (math.pi, 1.0, 0.0):
        masks.append(('quad', dict(delay=d)))
    for f in (0.45, 0.8, 1.0):
        masks.append(('filter', dict(fov=f, obs=0.0)))
        masks.append(('filter', dict(fov=f, obs=0.27)))
    sizes = [(4, 3.0), (6, 2.0), (8, 2.5)] + ([] if tier == 'quick' else [(6, 4.0), (12, 3.0), (7, 3.0)])
    stops = [(0.0, 1.0), (0.0, 0.83), (0.31, 0.83), (0.31, 1.0)]
    hist = ['F', 'TR', 'RAF'] if tier == 'quick' else ['F', 'TR', 'RAF', 'ATRF', 'RPRP']
    for (n, res), (kind, par), pk, h in itertools.product(sizes, masks, ('full', 'round', 'grey'), hist):
        for s in stops if kind != 'filter' else stops[:1]:
            yield dict(n=n, res=res, kind=kind, par=par, pup=pk, h=h, stop=list(s))


def run_coro(c, st):
    n, res, kind, par = c['n'], c['res'], c['kind'], c['par']
    lam = 500
    sp = simul_params(pixel_pupil=n, pixel_pitch=PITCH)
    m = int(np.around(n * res / 2) * 2)
    res = m / n                                     # pixels per lambda/D after rounding
    off = m / 2 if kind == 'vortex' else (m - 1) / 2
    y, x = (np.mgrid[0:m, 0:m] - off) / res         # lambda/D
    r = np.hypot(x, y)
    inn, outer = c['stop']
    st_kw = dict(innerStopAsRatioOfPupil=inn, outerStopAsRatioOfPupil=outer)
    stop = stop_ref(n, inn, outer)
    with quiet():
        if kind in ('lyot', 'knife'):
            from specula.processing_objects.lyot_coronagraph import LyotCoronagraph
            if kind == 'lyot':
                o = LyotCoronagraph(sp, lam, iwaInLambdaOverD=par['iwa'], owaInLambdaOverD=par['owa'],
                                    fft_res=c['res'], **st_kw)
                ow = par['owa'] if par['owa'] is not None else m / 2 / res
                mask = 1.0 * ((r < ow) & (r >= par['iwa']))
            else:
                o = LyotCoronagraph(sp, lam, iwaInLambdaOverD=par['edge'], knife_edge=True,
                                    fft_res=c['res'], **st_kw)
                mask = 1.0 * (x >= par['edge'])
                if par['edge'] < 0:                 # the plate ends at the edge of the field
                    mask *= x <= 2 * m / 2 / res + par['edge']
        elif kind == 'vortex':
            from specula.processing_objects.vortex_coronagraph import VortexCoronagraph
            inner = par.get('inner')
            kw = {}
            if inner:
                kw = dict(addInVortex=True, inVortexRadInLambdaOverD=inner[0], inVortexCharge=inner[1],
                          inVortexShift=inner[2])
            o = VortexCoronagraph(sp, lam, vortexCharge=par['charge'], fft_res=c['res'], **st_kw, **kw)
            th = np.arctan2(y, x) % (2 * np.pi)
            v = par['charge'] * th
            if inner:
                rad = 0.6 if inner[0] is None else inner[0]
                q = par['charge'] if inner[1] is None else inner[1]
                sh = np.pi if inner[2] is None else inner[2]
                v = np.where(r <= rad, q * th + sh, v)
            mask = np.exp(1j * v)
        elif kind == 'quad':
            from specula.processing_objects.four_quadrant_coronagraph import FourQuadrantCoronagraph
            o = FourQuadrantCoronagraph(sp, lam, phase_delay=par['delay'], fft_res=c['res'], **st_kw)
            mask = np.exp(1j * par['delay'] * ((x > 0) != (y > 0)))
        else:
            from specula.processing_objects.focal_plane_filter import FocalPlaneFilter
            fint = lam * 1e-9 / PITCH * 206264.80624709636
            o = FocalPlaneFilter(sp, lam, fov=fint * par['fov'], fft_res=c['res'],
                                 fp_obs=fint * par['obs'])
            mask = 1.0 * ((r < par['fov'] * m / 2 / res) & (r >= par['obs'] * m / 2 / res))
            stop = np.ones((n, n))
        ef = make_ef(n)
        A0 = pupil(n, c['pup'])
        put(ef, A0, 0, -1)
        o.inputs['in_ef'].set(ef)
        o.setup()
    tl = tol()
    for k, s in enumerate(c['h']):
        t = k * DT
        A = A0 * (1.0 if s != 'A' else (0.3 + 0.1 * np.arange(n))[None, :])
        ph = phase(n, s, lam)
        put(ef, A, ph, t)
        Ac, pc = np.array(ef.A), np.array(ef.phaseInNm)
        with quiet():
            if not step(o, t):
                return f'step {k} of {c["h"]}: not triggered'
        st.step()
        if not (np.array_equal(ef.A, Ac) and np.array_equal(ef.phaseInNm, pc)):
            return f'step {k} of {c["h"]}: the input field was modified'
        E = A * np.exp(2j * np.pi * ph / lam)
        F, W = spectrum(E, m, off)
        G = np.conj(W).T @ (F * mask) @ np.conj(W) / m ** 2 * stop
        oe = o.outputs['out_ef']
        got = np.asarray(oe.A) * np.exp(2j * np.pi * np.asarray(oe.phaseInNm) / lam)
        where = f'{kind} {par} stop {c["stop"]} on {n} pixels, {c["pup"]} pupil, step {k} of {c["h"]}'
        if np.max(np.abs(got - G)) > max(tl, 1e-9) * 5 * np.abs(E).max():
            return f'{where}: output field is not the field filtered by the masks'
        s0 = 2.0 * np.sum(np.abs(G) ** 2) / np.sum(A ** 2)
        if abs(float(oe.S0) - s0) > max(tl, 1e-9) * 20:
            return f'{where}: S0 is {float(oe.S0)}, not {s0}'
        if oe.generation_time != t:
            return f'{where}: output does not carry the present time'
        st.outcome((kind, round(s0, 5)))
    return None


# ---------------------------------------------------------------- interpolated filters

def interp_cases(tier):
    for n in (4, 6, 8):
        for f in (1.5, 2.0, 3.0):
            for a in (1.0, 0.5):
                for res in (2.0, 3.0):
                    yield dict(n=n, f=f, a=a, res=res)


def run_interp(c, st):
    """A uniform field of constant phase goes through an interpolated filter with its amplitude and
    phase, apart from the light that the field stop takes away."""
    from specula.processing_objects.focal_plane_filter import FocalPlaneFilter
    n, lam = c['n'], 500
    sp = simul_params(pixel_pupil=n, pixel_pitch=PITCH)
    fint = lam * 1e-9 / PITCH * 206264.80624709636
    with quiet():
        o = FocalPlaneFilter(sp, lam, fov=fint * c['f'], fft_res=c['res'])
        ef = make_ef(n)
        put(ef, c['a'], 60., 0)
        o.inputs['in_ef'].set(ef)
        o.setup()
        step(o, 0)
    st.step()
    oe = o.outputs['out_ef']
    st.outcome(round(float(np.mean(oe.A)), 3))
    if abs(np.mean(oe.A) - c['a']) > 0.06 * c['a'] or np.max(np.abs(oe.A - c['a'])) > 0.4 * c['a']:
        return (f'filter with field {c["f"]} times that of {n} pixels: amplitude {c["a"]} becomes '
                f'{float(np.min(oe.A))}..{float(np.max(oe.A))}')
    if np.max(np.abs(oe.phaseInNm - 60.)) > 1.0:
        return f'filter with field {c["f"]} times that of {n} pixels: the phase changed'
    if not 0.9 * 2.0 < float(oe.S0) <= 2.0 * (1 + 1e-6):
        return f'filter with field {c["f"]} times that of {n} pixels: S0 {float(oe.S0)} of 2'
    return None


# ---------------------------------------------------------------- sampling

def geom_cases(tier):
    for n in (4, 7, 16, 40):
        for lam in (500, 1650):
            for f in (1.0, 0.9, 0.5, 0.37, 0.21):
                yield dict(n=n, lam=lam, f=f)


def run_geom(c, st):
    """pixel_size_mas gives the closest PSF sampling with an integer number of pixels."""
    from specula.processing_objects.psf import PSF
    n, lam = c['n'], c['lam']
    sp = simul_params(pixel_pupil=n, pixel_pitch=PITCH)
    ld = lam * 1e-9 / (n * PITCH) * 206264806.24709636
    want = ld * c['f']
    with quiet():
        o = PSF(sp, lam, pixel_size_mas=want * (1 - 1e-9), verbose=False)
    st.step()
    size = o.nd * n
    st.outcome(round(size, 6))
    if abs(size - round(size)) > 1e-6:
        return f'{c}: the PSF has {size} pixels'
    best = min(abs(ld * n / k - want) for k in range(1, 20 * n))
    if abs(ld / o.nd - want) > best * (1 + 1e-6) + 1e-9:
        return f'{c}: pixel of {ld / o.nd} mas, not the closest to {want}'
    if abs(o.psf_pixel_size - ld / o.nd) > 1e-6 * ld:
        return f'{c}: psf_pixel_size {o.psf_pixel_size} is not {ld / o.nd}'
    with quiet():
        o2 = PSF(sp, lam, nd=2, verbose=False)
        if abs(o2.psf_pixel_size - ld / 2) > 1e-6 * ld or o2.nd != 2:
            return f'{c}: pixel size {o2.psf_pixel_size} with nd=2'
        try:
            PSF(sp, lam, pixel_size_mas=ld * 1.2, verbose=False)
            return f'{c}: accepted a pixel larger than lambda/D'
        except ValueError:
            pass
        try:
            PSF(sp, lam, nd=2, pixel_size_mas=want, verbose=False)
            return f'{c}: accepted both nd and pixel_size_mas'
        except ValueError:
            pass
    return None


FAMILIES = [
    Family('psf', psf_cases, run_psf, (0, 1), 'PSF histories', weight=4),
    Family('coronagraph', coro_cases, run_coro, (0, 1), 'coronagraph masks and histories', weight=4),
    Family('interpolated', interp_cases, run_interp, (0, 1), 'interpolated focal plane filters'),
    Family('sampling', geom_cases, run_geom, (0,), 'PSF sampling'),
]
