"""P24: pyramid-like sensors: all modulations, histories of frames and source patterns, small pupils.

The real ModulatedPyramid, ModulatedDoubleRoof, ZernikeSensor, ExtSourcePyramid and PolyCromPyramid
are compared with a direct Fourier model: pupil -> focal plane (stop and faces) -> pupil, one
point of the modulation at a time."""
import itertools

import numpy as np

from mc.checks.p21 import quiet
from mc.core import Family
from mc.harness import close, step

RULE = ('all modulation types x amplitudes x step numbers x detector geometries; all sequences of '
        'frames over the alphabet of fields; all histories of extended sources over their alphabet')
ASSUMPTIONS = ['12 to 16 pixel pupils whose focal plane sampling is an integer number of detector '
               'pixels', 'the modulation tilt may be normalised between pixel centres or edges '
               '(N/(N-1), pinned by the existing tests)', 'CPU arrays']
R2A = 206264.80624709636
LAM = 600.
PITCH = 0.5
DT = 1000000
S0 = 3.0


def tol():
    import specula
    return 2e-4 if int(specula.global_precision) else 1e-9


# geometry: n pixels, pupils of pd pixels, r = internal resolution, ccd side, pupil distance, stop
GEO = {'eq': dict(n=16, pd=4, r=4, ccd=16, dist=8), 'crop': dict(n=16, pd=4, r=5, ccd=16, dist=8),
       'pad': dict(n=16, pd=4, r=4, ccd=20, dist=8), 'stop': dict(n=12, pd=4, r=4, ccd=16, dist=8, stop=0.61),
       'far': dict(n=16, pd=4, r=5, ccd=20, dist=12), 'obs': dict(n=12, pd=4, r=4, ccd=16, dist=8, obs=2.0)}


def kwargs(g, lam=LAM):
    """Arguments common to all the sensors."""
    from specula.data_objects.simul_params import SimulParams
    fov = lam * 1e-9 / PITCH * R2A * g.get('stop', 1.0) * (1 - 1e-9)
    kw = dict(simul_params=SimulParams(pixel_pupil=g['n'], pixel_pitch=PITCH), fov=fov,
              wavelengthInNm=lam, pup_diam=g['pd'], output_resolution=g['ccd'], fft_res=g['r'])
    if 'dist' in g:
        kw.update(pup_dist=g['dist'], min_pup_dist=0)
    if 'obs' in g:
        kw['fp_obs'] = g['obs']
    return kw


# ---------------------------------------------------------------- model

def faces(kind, k, g):
    """Phases (in cycles) of the focal plane elements of one sensor."""
    if kind == 'zernike':
        rr = np.sqrt(k[None, :] ** 2 + k[:, None] ** 2)
        return [-g['shift'] / 2 * (rr < g['spot'] * g['r'])]
    b = k * g['dist'] / (2.0 * g['pd'] * g['r'])
    a = np.abs(b)
    if kind == 'roof':
        return [-a[None, :] + b[:, None], -a[:, None] + b[None, :]]
    return [a[None, :] + a[:, None]]


def model(kind, g, fields, weights):
    """Detector image (normalised to the flux entering the sensor), transmission, fraction of the
    flux on the detector. `fields`: complex fields, one for each point of the modulation."""
    n, T = g['n'], g['n'] * g['r']
    side = g['pd'] * g['r']
    k = np.arange(T) - (T - 1) / 2
    x = np.arange(n) - (n - 1) / 2
    X = np.arange(T) - (T - 1) / 2
    E = np.exp(-2j * np.pi * np.outer(k, x) / T)
    B = np.exp(2j * np.pi * np.outer(X, k) / T) / T
    rr = np.sqrt(k[None, :] ** 2 + k[:, None] ** 2)
    mask = 1.0 * (rr <= g.get('stop', 1.0) * T / 2)
    if 'obs' in g:
        mask[rr < g['obs'] * g['r'] / 2] = 0
    img = bef = aft = 0
    for u, w in zip(fields, weights):
        F = E @ u @ E.T
        bef = bef + w * np.abs(F) ** 2
        aft = aft + w * np.abs(F * mask) ** 2
        for t, ph in enumerate(faces(kind, k, g)):
            G = B @ (F * mask * np.exp(2j * np.pi * ph)) @ B.T
            img = img + w * np.rot90(np.abs(G) ** 2, t)
    tr = aft.sum() / bef.sum()
    m = T // side
    img = img.reshape(side, m, side, m).sum((1, 3))
    img *= tr / img.sum()
    c = g['ccd']
    frac = 1.0
    if c > side:
        d = (c - side) // 2
        out = np.zeros((c, c))
        out[d:d + side, d:d + side] = img
    elif c < side:
        d = (side - c) // 2
        out = img[d:d + c, d:d + c]
        frac = out.sum() / img.sum()
    else:
        out = img
    return out, tr, frac, bef / sum(weights), aft / sum(weights)


def fields(n, k, s0=S0):
    """(amplitude, phase in nm) of frame k."""
    i, j = np.mgrid[0:n, 0:n] - (n - 1) / 2
    circ = 1.0 * (i * i + j * j <= n * n / 4)
    ring = circ * (i * i + j * j > n * n / 40)
    if k == 0:
        return circ, 0 * i
    if k == 1:
        return circ, 30. * j + 11. * i
    if k == 2:
        return ring, 3. * i * i - 2. * i * j + 17 * j
    if k == 3:
        return circ * (0.6 + 0.4 * (j > 0)), 80. * (((3 * i + 2 * j) % 7) > 3)
    return circ, -45. * i - 200.


def put(ef, A, ph, t, s0=S0):
    ef.A[:] = A
    ef.phaseInNm[:] = ph
    ef.S0 = s0
    ef.generation_time = t


def make_ef(n):
    from specula.data_objects.electric_field import ElectricField
    ef = ElectricField(n, n, PITCH, S0=S0)
    put(ef, *fields(n, 0), -1)
    return ef


def connect(o, ef):
    o.inputs['in_ef'].set(ef)
    o.setup()
    return o


def tilts(mod, amp, steps, frame, n, norm):
    """Tilts of the modulation (radians over the pupil), and their weights."""
    i, j = (np.mgrid[0:n, 0:n] - (n - 1) / 2) * 2 * np.pi / norm
    out, wei = [], []
    if mod == 'circular':
        for s in range(steps):
            a = 2 * np.pi * s / steps
            out.append(amp * (np.sin(a) * j + np.cos(a) * i))
            wei.append(1.0)
        return out, wei
    ax = {'vertical': i, 'horizontal': j, 'alternating': (i, j)[frame % 2]}[mod]
    if steps == 1:
        return [0 * ax], [1.0]
    v = np.linspace(-amp, amp, steps)
    half = (v[1] - v[0]) / 4
    c = v.copy()
    c[0] += half
    c[-1] -= half
    return [a * ax for a in v], list(1 / np.cos(np.abs(c) * np.pi / 2 / amp))


def judge(o, ef, s0, want, tl, what, generation):
    """Compare all the outputs with (one of) the models."""
    A = np.array(ef.A)
    phot = s0 * A.sum() * PITCH ** 2
    msg = None
    for out, tr, frac, bef, aft in want:
        msg = None
        got = np.array(o.outputs['out_i'].i)
        if not close(got, out * phot, tl):
            msg = f'{what}: the image is wrong (by {np.abs(got - out * phot).max() / (out * phot).max():.2g})'
        elif abs(float(o.outputs['out_transmission'].value[0]) - tr) > tl:
            msg = f'{what}: transmission {o.outputs["out_transmission"].value}, not {tr}'
        elif abs(float(o.outputs['out_flux_frac_inside_detector'].value[0]) - frac) > tl:
            msg = f'{what}: fraction {o.outputs["out_flux_frac_inside_detector"].value}, not {frac}'
        elif not close(o.outputs['out_psf_bfm'].value, bef, tl):
            msg = f'{what}: the PSF before the mask is wrong'
        elif not close(o.outputs['out_psf_tot'].value, aft, tl):
            msg = f'{what}: the PSF is wrong'
        if msg is None:
            break
    if msg:
        return msg
    for k, v in o.outputs.items():
        if v.generation_time != generation:
            return f'{what}: {k} does not carry the present time'
    return None


# ---------------------------------------------------------------- modulation

MODS = [('circular', 0, None), ('circular', 0.2, None), ('circular', 1.0, None), ('circular', 1.0, 7),
        ('circular', 2.0, None), ('vertical', 0, None), ('vertical', 0.3, None), ('vertical', 1.0, 8),
        ('horizontal', 1.0, None), ('horizontal', 2.0, 13), ('horizontal', 0.1, 1),
        ('alternating', 0, None), ('alternating', 1.0, None), ('alternating', 2.0, 14)]


def mod_cases(tier):
    seqs = list(itertools.permutations(range(4), 3)) if tier == 'thorough' else [(0, 1, 2), (3, 2, 1), (1, 3, 3)]
    for g in GEO:
        for m in MODS if tier == 'thorough' or g in ('eq', 'stop') else MODS[2:9:3] + MODS[12:]:
            for q in seqs:
                yield dict(g=g, mod=m[0], amp=m[1], step=m[2], q=list(q))


def run_mod(c, st):
    from specula.processing_objects.modulated_pyramid import ModulatedPyramid
    g = GEO[c['g']]
    n = g['n']
    with quiet():
        o = ModulatedPyramid(mod_amp=c['amp'], mod_type=c['mod'], mod_step=c['step'], **kwargs(g))
    steps = o.mod_steps
    if c['amp'] == 0 and steps != 1:
        return f'{c}: {steps} steps without modulation'
    if c['step'] is not None and steps != c['step']:
        return f'{c}: {steps} steps'
    if c['step'] is None and c['amp'] > 0:
        if c['mod'] == 'circular' and (steps % 4 or steps < 2 * np.pi * c['amp']):
            return f'{c}: {steps} steps'
        if c['mod'] != 'circular' and (steps % 2 == 0 or steps < 3):
            return f'{c}: {steps} steps'
    ef = make_ef(n)
    with quiet():
        connect(o, ef)
    tl = max(tol(), 1e-9)
    for f, k in enumerate(c['q']):
        A, ph = fields(n, k)
        s0 = S0 + f
        put(ef, A, ph, f * DT, s0)
        with quiet():
            if not step(o, f * DT):
                return f'{c}: not triggered'
        st.step()
        if not np.array_equal(ph.astype(ef.phaseInNm.dtype), ef.phaseInNm) or not np.array_equal(A.astype(ef.A.dtype), ef.A):
            return f'{c}: the input field was modified'
        want = []
        for norm in (n - 1, n):
            tt, w = tilts(c['mod'], c['amp'], steps, f, n, norm)
            u = A * np.exp(2j * np.pi * ph / LAM)
            want.append(model('pyramid', g, [u * np.exp(-1j * t) for t in tt], w))
        st.outcome(round(float(want[0][0].max()), 8))
        msg = judge(o, ef, s0, want, tl, f'{c}: frame {f}', f * DT)
        if msg:
            return msg
    return None


# ---------------------------------------------------------------- roof and Zernike

def variant_cases(tier):
    seqs = list(itertools.permutations(range(4), 3)) if tier == 'thorough' else [(0, 1, 2), (3, 2, 1)]
    for g in ('eq', 'crop', 'pad', 'stop'):
        for amp in (0, 1.0, 2.0):
            for q in seqs:
                yield dict(kind='roof', g=g, amp=amp, q=list(q))
    for g in ('eq', 'crop', 'pad', 'stop'):
        for spot in (0.7, 1.1):
            for shift in (0.0, 0.5, 1.0):
                for q in seqs:
                    yield dict(kind='zernike', g=g, spot=spot, shift=shift, q=list(q))


def run_variant(c, st):
    from specula.processing_objects.modulated_double_roof import ModulatedDoubleRoof
    from specula.processing_objects.zernike_sensor import ZernikeSensor
    g = dict(GEO[c['g']])
    n = g['n']
    kw = kwargs(g)
    with quiet():
        if c['kind'] == 'roof':
            o = ModulatedDoubleRoof(mod_amp=c['amp'], **kw)
        else:
            g.update(spot=c['spot'], shift=c['shift'], ccd=g['ccd'])
            for k in ('pup_dist', 'min_pup_dist', 'fp_obs'):
                kw.pop(k, None)
            o = ZernikeSensor(spot_radius_lambda=c['spot'], phase_shift_pi=c['shift'], **kw)
        ef = make_ef(n)
        connect(o, ef)
    for f, k in enumerate(c['q']):
        A, ph = fields(n, k)
        put(ef, A, ph, f * DT, S0 + f)
        with quiet():
            if not step(o, f * DT):
                return f'{c}: not triggered'
        st.step()
        u = A * np.exp(2j * np.pi * ph / LAM)
        if c['kind'] == 'roof':
            want = []
            for norm in (n - 1, n):
                tt, w = tilts('circular', c['amp'], o.mod_steps, f, n, norm)
                want.append(model('roof', g, [u * np.exp(-1j * t) for t in tt], w))
        else:
            want = [model('zernike', g, [u], [1.0])]
        st.outcome(round(float(want[0][0].max()), 8))
        msg = judge(o, ef, S0 + f, want, max(tol(), 1e-9), f'{c}: frame {f}', f * DT)
        if msg:
            return msg
    return None


# ---------------------------------------------------------------- extended sources

PTS = {'o': [0, 0, 0, 1.0], 'x': [2.0, 0, 0, 0.5], 'y': [0, -1.5, 0, 0.25], 'f': [0, 0, 0.7, 1.0],
       'd': [-1.0, 1.0, -0.4, 2.0], 'z': [1.0, 0, 0, 0.0]}
SOURCES = ['o', 'x', 'ox', 'xyd', 'oxyfd', 'zo', 'f', 'dz']


def ext_cases(tier):
    hist = [(a, None, b) for a in SOURCES for b in SOURCES]
    if tier == 'quick':
        hist = [h for k, h in enumerate(hist) if k % 3 == 0]
    for h in hist:
        for batch in (1, 2, 3, 8):
            for stream in (True, False):
                yield dict(h=list(h), batch=batch, stream=stream)


def run_ext(c, st):
    from specula.base_value import BaseValue
    from specula.processing_objects.ext_source_pyramid import ExtSourcePyramid
    g = GEO['eq']
    n = g['n']
    with quiet():
        o = ExtSourcePyramid(max_batch_size=c['batch'], cuda_stream_enable=c['stream'], **kwargs(g))
    ef = make_ef(n)
    co = BaseValue(value=np.array([PTS[k] for k in c['h'][0]]))
    co.generation_time = 0
    o.inputs['ext_source_coeff'].set(co)
    with quiet():
        connect(o, ef)
    i, j = (np.mgrid[0:n, 0:n] - (n - 1) / 2) / (n / 2)
    Z = [2 * j, 2 * i, np.sqrt(3) * (2 * (i * i + j * j) - 1)]
    cur = known = None
    for f, src in enumerate(c['h']):
        if src is not None:
            cur = np.array([PTS[k] for k in src])
            if f:
                co.value = cur.copy()
            co.generation_time = f * DT
        A, ph = fields(n, f)
        put(ef, A, ph, f * DT, S0 + f)
        with quiet():
            if not step(o, f * DT):
                return f'{c}: not triggered'
        st.step()
        u = A * np.exp(2j * np.pi * ph / LAM)
        us = [u * np.exp(-1j * (p[0] * Z[0] + p[1] * Z[1] - p[2] * Z[2])) for p in cur]
        want = [model('pyramid', g, us, cur[:, 3])]
        st.outcome(round(float(want[0][0].max()), 8))
        msg = judge(o, ef, S0 + f, want, max(tol(), 1e-9) * 3, f'{c}: frame {f}', f * DT)
        if msg:
            return msg
        if np.shape(co.value) != cur.shape or not close(co.value, cur, 1e-6):
            known = f'{c}: the coefficients of the source were modified'
    if known:
        return known if c['stream'] else ('ext_mutates', known)
    return None


# ---------------------------------------------------------------- polychromatic

def poly_cases(tier):
    for L in ((600.,), (600., 600.), (600., 300.), (300., 450., 600.)):
        for w in itertools.product((1.0, 3.0, 0.0) if tier == 'thorough' else (1.0, 3.0), repeat=len(L)):
            if not any(w):
                continue
            for tl in (None, 0, 1, 2):
                for mod, amp in (('circular', 0), ('circular', 1.0), ('alternating', 1.0)):
                    yield dict(lams=list(L), w=list(w), tilt=tl, mod=mod, amp=amp)


def run_poly(c, st):
    from specula.processing_objects.poly_crom_pyramid import PolyCromPyramid
    g = dict(GEO['eq'])
    n = g['n']
    lmin = min(c['lams'])
    px = lmin * 1e-9 / (n * PITCH) * R2A
    t = None
    if c['tilt'] is not None:
        t = [[px * ((k + c['tilt']) % 3 - 1), px * (k == c['tilt'])] for k in range(len(c['lams']))]
    kw = kwargs(g, lmin)
    kw['wavelengthInNm'] = c['lams']
    with quiet():
        o = PolyCromPyramid(flux_factor=c['w'], mod_amp=c['amp'], mod_type=c['mod'],
                            xy_tilts_in_arcsec=t, **kw)
        ef = make_ef(n)
        connect(o, ef)
    steps = 1 if not c['amp'] else 8 if c['mod'] == 'circular' else 3
    i, j = np.mgrid[0:n, 0:n] - (n - 1) / 2
    for f, k in enumerate((1, 2, 3)):
        A, ph = fields(n, k)
        put(ef, A, ph, f * DT, S0 + f)
        pc = np.array(ef.phaseInNm)
        with quiet():
            if not step(o, f * DT):
                return f'{c}: not triggered'
        st.step()
        if not np.array_equal(pc, ef.phaseInNm):
            return f'{c}: the input field was modified'
        ok = False
        for norm in (n - 1, n):
            img = 0
            for m, lam in enumerate(c['lams']):
                extra = 0
                if t:
                    extra = (t[m][0] * j + t[m][1] * i) / R2A * PITCH * 1e9
                tt, w = tilts(c['mod'], c['amp'], steps, f, n, norm)
                u = A * np.exp(2j * np.pi * (ph + extra) / lam)
                img = img + c['w'][m] * model('pyramid', dict(g, stop=lmin / lam),
                                              [u * np.exp(-1j * q) for q in tt], w)[0]
            img *= (S0 + f) * A.sum() * PITCH ** 2 / img.sum()
            ok |= close(o.outputs['out_i'].i, img, max(tol(), 1e-6))
        st.outcome(round(float(img.max()), 6))
        if not ok:
            return f'{c}: frame {f} is not the weighted sum of the monochromatic images'
        if o.outputs['out_i'].generation_time != f * DT:
            return f'{c}: frame {f} does not carry the present time'
    return None


# ---------------------------------------------------------------- geometry

def geo_cases(tier):
    for n in (24, 40, 60) if tier == 'thorough' else (24, 40):
        for pd in (4, 6, 8, 10, 12):
            for dist in (None, pd + 4, int(1.5 * pd) // 2 * 2 + 2, 2 * pd, 2 * pd + 4):
                for r in (2.0, 3.0, 4.0):
                    for more in (0, 6):
                        yield dict(n=n, pd=pd, dist=dist, r=r, more=more)


def run_geo(c, st):
    """The four images of the pupil have the requested size and distance."""
    from specula.processing_objects.modulated_pyramid import ModulatedPyramid
    n, pd = c['n'], c['pd']
    dist = c['dist'] or pd + 4
    side = dist + pd + 4 + c['more']
    g = dict(n=n, pd=pd, ccd=side, r=c['r'])
    with quiet():
        o = ModulatedPyramid(mod_amp=3.0, pup_dist=c['dist'], min_pup_dist=0, **kwargs(g))
        ef = make_ef(n)
        connect(o, ef)
        put(ef, fields(n, 0)[0], 0, 0, 1.0)
        step(o, 0)
    st.step()
    im = np.array(o.outputs['out_i'].i)
    if im.shape != (side, side):
        return f'{c}: detector {im.shape}'
    h = (side + 1) // 2
    u = np.arange(side) - (side - 1) / 2
    tl = 1e-6 * im.max() if tol() < 1e-6 else 1e-3 * im.max()
    for name, b in (('transposed', im.T), ('mirrored', im[::-1])):
        if np.abs(im - b).max() > tl:
            return f'{c}: the image of a flat wavefront changes when it is {name}'
    q = im[:side // 2, :side // 2]
    cx = 2 * abs((q.sum(0) @ u[:side // 2]) / q.sum())
    diam = np.sqrt(4 / np.pi * q.sum() / np.median(q[q > q.max() / 2]))
    st.outcome((round(cx, 2), round(diam, 2)))
    if abs(cx - dist) > 0.05 * dist + 0.4:
        return f'{c}: pupils at {cx:.2f} pixels instead of {dist}'
    if abs(diam - pd) > 0.08 * pd + 0.5:
        return f'{c}: pupils of {diam:.2f} pixels instead of {pd}'
    return None


# ---------------------------------------------------------------- sensors together

TOG = [dict(n=16, pd=4, r=4, ccd=16, dist=8), dict(n=16, pd=4, r=4, ccd=16, dist=8, stop=1.9),
       dict(n=16, pd=4, r=4, ccd=16, dist=8, stop=1.9, kw=dict(rotAnglePhInDeg=30.)),
       dict(n=16, pd=4, r=4, ccd=16, dist=8, kw=dict(xShiftPhInPixel=1.0, yShiftPhInPixel=-2.0)),
       dict(n=16, pd=4, r=4, ccd=16, dist=8, stop=1.9, kw=dict(mod_type='alternating', magnification=1.1)),
       dict(n=16, pd=4, r=4, ccd=16, dist=8, stop=1.9, kw=dict(pup_shifts=(0.5, 0.0)))]


def tog_cases(tier):
    for k in (2, 3) if tier == 'thorough' else (2,):
        for idx in itertools.product(range(len(TOG)), repeat=k):
            for order in ('group', 'one'):
                for shared in (False, True):
                    yield dict(idx=list(idx), order=order, shared=shared)


def run_tog(c, st):
    """Sensors in the same process give the images they give alone."""
    from specula.processing_objects.modulated_pyramid import ModulatedPyramid
    n = 16

    def build(i, ef):
        g = TOG[i]
        with quiet():
            return connect(ModulatedPyramid(mod_amp=1.0, **kwargs(g), **g.get('kw', {})), ef)

    def frame(w, k):
        return fields(n, (k + 1 + (0 if c['shared'] else 2 * w)) % 5)

    common = make_ef(n)
    efs = [common if c['shared'] else make_ef(n) for _ in c['idx']]
    objs = [build(i, e) for i, e in zip(c['idx'], efs)]
    got = []
    for k in range(3):
        t = k * DT
        for w, e in enumerate(efs):
            put(e, *frame(w, k), t)
        with quiet():
            if c['order'] == 'group':
                for o in objs:
                    o.check_ready(t)
                for o in objs:
                    o.trigger()
                for o in objs:
                    o.post_trigger()
            else:
                for o in objs:
                    step(o, t)
        st.step(len(objs))
        got.append([np.array(o.outputs['out_i'].i) for o in objs])
    for w, i in enumerate(c['idx']):
        e = make_ef(n)
        o = build(i, e)
        for k in range(3):
            put(e, *frame(w, k), k * DT)
            with quiet():
                step(o, k * DT)
            st.step()
            A = frame(w, k)[0]
            im = np.array(o.outputs['out_i'].i)
            st.outcome((i, round(float(im.max()), 5)))
            if not close(got[k][w], im, max(tol(), 1e-9) * 3):
                return (f'sensors {c["idx"]} ({c["order"]}, {"one field" if c["shared"] else "own fields"}): '
                        f'image {k} of sensor {w} is not the one it gives alone')
            flux = S0 * A.sum() * PITCH ** 2 * float(o.outputs['out_transmission'].value[0])
            if 'pup_shifts' not in TOG[i].get('kw', {}) and 'kw' not in TOG[i] and \
                    abs(im.sum() - flux) > max(tol(), 1e-9) * flux:
                return f'sensor {i}: flux {im.sum()}, not {flux}'
    return None


FAMILIES = [
    Family('modulated', mod_cases, run_mod, (0, 1), 'modulations and fields', weight=6),
    Family('variants', variant_cases, run_variant, (0, 1), 'double roof and Zernike sensors', weight=3),
    Family('extended', ext_cases, run_ext, (0, 1), 'histories of extended sources', weight=3),
    Family('polychromatic', poly_cases, run_poly, (0, 1), 'wavelengths, weights and tilts', weight=3),
    Family('geometry', geo_cases, run_geo, (0, 1), 'pupil sizes and distances', weight=3),
    Family('together', tog_cases, run_tog, (0, 1), 'sensors sharing a process', weight=3),
]
