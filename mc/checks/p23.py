"""P23: Shack-Hartmann sensors: all patterns of subaperture fields on small lenslet arrays.

The real SH, DistributedSH and PolyChromSH are run on every assignment of a small set of fields to
the subapertures, on every division in slices and on every group of sensors that share a
simulation, and compared with a direct Fourier sum of each subaperture."""
import itertools
import os

import numpy as np

from mc import lgs
from mc.checks.p21 import quiet
from mc.core import Family
from mc.harness import close, scratch, simul_params, step

RULE = ('all assignments of the field alphabet to the subapertures; all slice numbers; all ordered '
        'pairs and triples of sensor geometries sharing a process')
ASSUMPTIONS = ['2 to 5 lenses on the diameter, 4 to 12 pixels per subaperture',
               'detector pixels that are a rational fraction of the internal ones', 'CPU arrays',
               'the oversampling of the internal focal plane is free (any integer from 2 to 12)']
PITCH = 0.1
LAM = 500.
R2A = 206264.80624709636
DT = 1000000


def tol():
    import specula
    return 3e-4 if int(specula.global_precision) else 1e-9


def pxscale(g):
    """Pixel scale (arcsec) of a geometry: f times lambda/d."""
    return g['f'] * LAM * 1e-9 / (g['np'] * PITCH) * R2A


def make(g, cls='SH', lam=LAM, **kw):
    px = pxscale(g)
    d = dict(subap_wanted_fov=px * g['npx'] * g.get('wide', 1.0), sensor_pxscale=px,
             subap_on_diameter=g['n'], subap_npx=g['npx'], fov_ovs_coeff=g.get('ovs', 1.0),
             squaremask=g.get('square', True))
    d.update(kw)
    if cls == 'SH':
        from specula.processing_objects.sh import SH as C
    elif cls == 'DistributedSH':
        from specula.processing_objects.distributed_sh import DistributedSH as C
    else:
        from specula.processing_objects.poly_chrom_sh import PolyChromSH as C
    return C(wavelengthInNm=lam, **d)


def make_ef(g, s0=3.0):
    from specula.data_objects.electric_field import ElectricField
    N = g['n'] * g['np']
    ef = ElectricField(N, N, PITCH, S0=s0)
    return ef


def connect(o, ef):
    with quiet():
        o.inputs['in_ef'].set(ef)
        o.setup()
    return o


def sub_field(kind, n, f, lam=LAM):
    """(amplitude, phase in nm) of one subaperture of n pixels."""
    i, j = np.mgrid[0:n, 0:n]
    A, ph = np.ones((n, n)), np.zeros((n, n))
    if kind == 'P':
        ph += 170.
    elif kind == 'X':                       # one detector pixel along x
        ph = lam * f * j / n + 40.
    elif kind == 'Y':
        ph = -lam * f * i / n
    elif kind == 'R':
        ph = ((i * 7 + j * 11 + i * j * 3) % 13) * 31.
        A = 0.5 + 0.5 * ((i + 2 * j) % 3 != 0)
    elif kind == 'D':
        A = np.zeros((n, n))
    return A, ph


def area_matrix(a, b):
    """Rebin from a to b pixels."""
    m = np.zeros((b, a))
    for k in range(b):
        for l in range(a):
            m[k, l] = max(0., min((k + 1) * a / b, l + 1) - max(k * a / b, l))
    return m


_spots = {}


def spot(E, g, s, lam, key=None, kern=None):
    """Detector image of one subaperture, with internal oversampling s."""
    if key is not None and (key, s, lam) in _spots:
        return _spots[key, s, lam]
    n = E.shape[0]
    M = n * s
    # internal pixel: lambda / (subaperture * s); detector pixels: f*s*lam0/lam of them
    per = pxscale(g) * g['npx'] / (lam * 1e-9 / (g['np'] * PITCH) * R2A / s)
    fov = int(round(per / 2) * 2)
    if abs(per - fov) > 1e-6 or fov < 1:
        return None
    u = np.arange(M) - (M - 1) / 2
    W = np.exp(-2j * np.pi * np.outer(u, np.arange(n)) / M)
    I = np.abs(W @ E @ W.T) ** 2
    if kern is not None:
        I = lgs.convolve(I, kern(M))
    half = fov / 2 * g.get('wide', 1.0)
    if g.get('square', True):
        k = np.abs(u) <= half + 1e-9
        I = I * np.outer(k, k)
    else:
        I = I * (u[:, None] ** 2 + u[None, :] ** 2 < half ** 2)
    cut = (M - fov) // 2
    if cut < 0:
        return None
    I = I[cut:cut + fov, cut:cut + fov]
    B = area_matrix(fov, g['npx'])
    r = B @ I @ B.T
    if key is not None:
        _spots[key, s, lam] = r
    return r


def image(A, ph, g, s, lam=LAM, keys=None, flux=None, kern=None):
    n, q = g['n'], g['np']
    out = np.zeros((n * g['npx'],) * 2)
    for a in range(n):
        for b in range(n):
            sl = np.s_[a * q:(a + 1) * q, b * q:(b + 1) * q]
            E = A[sl] * np.exp(2j * np.pi * ph[sl] / lam)
            t = spot(E, g, s, lam, None if keys is None else (g['id'], keys[a * n + b]),
                     None if kern is None else lambda m: kern(m)[a * n + b])
            if t is None:
                return None
            out[a * g['npx']:(a + 1) * g['npx'], b * g['npx']:(b + 1) * g['npx']] = t
    tot = out.sum()
    flux = 3.0 * A.sum() * PITCH ** 2 if flux is None else flux
    return out * (flux / tot if tot else 0)


def field(g, kinds):
    n, q = g['n'], g['np']
    A, ph = np.zeros((n * q, n * q)), np.zeros((n * q, n * q))
    for k, kind in enumerate(kinds):
        a, b = divmod(k, n)
        A[a * q:(a + 1) * q, b * q:(b + 1) * q], ph[a * q:(a + 1) * q, b * q:(b + 1) * q] = \
            sub_field(kind, q, g['f'])
    return A, ph


GEOMS = [
    dict(id=0, n=2, np=4, npx=4, f=1.0),
    dict(id=1, n=2, np=8, npx=4, f=2.0),
    dict(id=2, n=2, np=6, npx=6, f=1.0, wide=0.7),
    dict(id=3, n=2, np=4, npx=4, f=0.5, wide=2.0),
    dict(id=4, n=2, np=8, npx=6, f=1.0, wide=1.3, square=False),
    dict(id=5, n=3, np=4, npx=4, f=1.0),
    dict(id=6, n=4, np=4, npx=2, f=1.0),
    dict(id=7, n=2, np=4, npx=2, f=2.0),
]


def put(ef, A, ph, t):
    ef.A[:] = A
    ef.phaseInNm[:] = ph
    ef.generation_time = t


def find_scale(got, refs, tl):
    """Oversamplings for which the image is right."""
    return [s for s in range(2, 13) if refs(s) is not None and close(got, refs(s), tl)]


# ---------------------------------------------------------------- subapertures

def tiles_cases(tier):
    al = 'FXYRDP' if tier == 'thorough' else 'FXRD'
    for g in GEOMS[:5] + GEOMS[7:]:
        for h in itertools.product(al, repeat=2):
            yield dict(g=g, first=''.join(h), al=al)
    # larger arrays: one subaperture, then two, differ from the rest
    for g in GEOMS[5:7]:
        for bg in 'FR':
            for k in range(g['n'] ** 2):
                yield dict(g=g, bg=bg, k=k, al=al + 'Y')


def run_tiles(c, st):
    g = c['g']
    nn = g['n'] ** 2
    with quiet():
        o = make(g)
    ef = make_ef(g)
    put(ef, 1, 0, -1)
    connect(o, ef)
    if 'first' in c:
        seqs = [c['first'] + ''.join(r) for r in itertools.product(c['al'], repeat=nn - 2)]
    else:
        seqs = []
        for a in c['al']:
            w = [c['bg']] * nn
            w[c['k']] = a
            seqs.append(''.join(w))
            w[(c['k'] + 1) % nn] = 'Y'
            seqs.append(''.join(w))
    scales = set(range(2, 13))
    t = 0
    tl = tol()
    for kinds in seqs:
        if set(kinds) == {'D'}:
            continue
        t += DT
        A, ph = field(g, kinds)
        put(ef, A, ph, t)
        Ac, pc = np.array(ef.A), np.array(ef.phaseInNm)
        with quiet():
            trig = step(o, t)
        if not trig:
            return f'subapertures {kinds}: not triggered'
        st.step()
        got = np.array(o.outputs['out_i'].i)
        if got.shape != (g['n'] * g['npx'],) * 2:
            return f'detector of {got.shape} pixels'
        if not (np.array_equal(ef.A, Ac) and np.array_equal(ef.phaseInNm, pc)):
            return f'subapertures {kinds}: the input field was modified'
        if o.outputs['out_i'].generation_time != t:
            return f'subapertures {kinds}: output does not carry the present time'
        ok = set()
        for s in scales:
            ref = image(A, ph, g, s, keys=kinds)
            if ref is not None and close(got, ref, tl):
                ok.add(s)
        if not ok:
            tot = 3.0 * A.sum() * PITCH ** 2
            return (f'subapertures {kinds} of geometry {g}: the image is not that of the '
                    f'subapertures (total {got.sum():.6g}, expected {tot:.6g})')
        scales = ok
        st.state((g['id'], kinds))
    st.outcome((g['id'], tuple(sorted(scales))))
    return None


# ---------------------------------------------------------------- oversampled pupil

def ovs_cases(tier):
    for g in (dict(id=20, n=2, np=4, npx=4, f=1.0, ovs=2.0), dict(id=21, n=2, np=4, npx=8, f=1.0),
              dict(id=22, n=3, np=4, npx=4, f=1.0, ovs=2.0), dict(id=23, n=2, np=5, npx=4, f=1.0),
              dict(id=24, n=2, np=6, npx=6, f=1.0, ovs=1.5)):
        for tx in (-1, 0, 1):
            for ty in (-1, 0, 1):
                yield dict(g=g, tx=tx, ty=ty)


def run_ovs(c, st):
    """With an oversampled pupil: the flux is conserved, a flat wavefront has equal symmetric
    spots, and a tilt of one pixel moves the spots by about one pixel the right way (the grid of
    the interpolation spans slightly less than the pupil by design, so this is not exact)."""
    g = c['g']
    N = g['n'] * g['np']
    i, j = np.mgrid[0:N, 0:N]
    border = 1.0 * ((i > 0) & (j > 0) & (i < N - 1) & (j < N - 1))
    ph = LAM * g['f'] / g['np'] * (c['tx'] * j + c['ty'] * i)
    imgs = []
    tl = max(tol(), 1e-8) * 10
    for A, seq in ((1.0, [0 * ph]), (border, [0 * ph, ph])):
        with quiet():
            o = make(g)
        ef = make_ef(g)
        put(ef, A, 0, 0)
        connect(o, ef)
        for k, q in enumerate(seq):
            put(ef, A, q, k * DT)
            with quiet():
                step(o, k * DT)
            st.step()
            im = np.array(o.outputs['out_i'].i)
            flux = 3.0 * np.sum(A * np.ones((N, N))) * PITCH ** 2
            if abs(im.sum() - flux) > tl * flux:
                return f'{c}: total flux {im.sum()}, not {flux}'
            imgs.append(im)
    full, flat, got = imgs
    st.outcome(round(float(got.max()), 6))
    p = g['npx']
    for a in range(g['n']):
        for b in range(g['n']):
            f = full[a * p:(a + 1) * p, b * p:(b + 1) * p]
            if not close(f, full[:p, :p], tl) or not close(f, f[::-1], tl) or not close(f, f.T, tl):
                return f'{c}: the spots of a flat wavefront are not equal and symmetric'
            f = flat[a * p:(a + 1) * p, b * p:(b + 1) * p]
            s = got[a * p:(a + 1) * p, b * p:(b + 1) * p]
            u = np.arange(p)
            for ax, t, name in ((0, c['tx'], 'x'), (1, c['ty'], 'y')):
                m = (s.sum(ax) @ u) / s.sum() - (f.sum(ax) @ u) / f.sum()
                if abs(m) > 0.2 if t == 0 else not 0.4 < m * t < 1.2:
                    return f'{c}: subaperture {a},{b}: the spot moved by {m} pixels along {name}'
    return None


# ---------------------------------------------------------------- rotation

def rot_cases(tier):
    for g in (GEOMS[0], dict(id=30, n=2, np=8, npx=8, f=1.0), dict(id=31, n=3, np=6, npx=6, f=1.0)):
        for tx in (-1, 0, 1):
            for ty in (-1, 0, 1):
                yield dict(g=g, tx=tx, ty=ty)


def run_rot(c, st):
    """The flux does not depend on the rotation of the field, and the spots of a tilted field move
    in the rotated direction (the sense of rotation is not assumed; the interpolation is not exact)."""
    g = c['g']
    N = g['n'] * g['np']
    i, j = np.mgrid[0:N, 0:N]
    ph = LAM * g['f'] / g['np'] * (c['tx'] * j + c['ty'] * i)
    A = 1.0 * ((i > 0) & (j > 0) & (i < N - 1) & (j < N - 1))
    mean = {}
    p = g['npx']
    u = np.arange(p)
    for rot in (0, 90, 180, 270):
        with quiet():
            o = make(g, rotAnglePhInDeg=rot)
        ef = make_ef(g)
        put(ef, A, 0, 0)
        connect(o, ef)
        m = []
        for k in (0, 1):
            put(ef, A, ph * k, k * DT)
            with quiet():
                step(o, k * DT)
            st.step()
            im = np.array(o.outputs['out_i'].i)
            flux = 3.0 * A.sum() * PITCH ** 2
            if abs(im.sum() - flux) > max(tol(), 1e-8) * 10 * flux:
                return f'{c}: rotation {rot}: total flux {im.sum()}, not {flux}'
            im = im.reshape(g['n'], p, g['n'], p).sum((0, 2))
            m.append(np.array([im.sum(0) @ u, im.sum(1) @ u]) / im.sum())
        mean[rot] = m[1] - m[0]
    st.outcome(tuple(np.round(mean[90], 2)))
    t = np.array([c['tx'], c['ty']])
    ok = False
    for sense in (1, -1):
        q = np.array([[0, -sense], [sense, 0]])
        want = {0: t, 90: q @ t, 180: -t, 270: -(q @ t)}
        ok |= all(np.all(np.abs(mean[r] - 0.8 * want[r]) < 0.45) for r in want)
    if not ok:
        return f'{c}: the spots moved by {mean}'
    return None


# ---------------------------------------------------------------- sensors together

TOGETHER = [dict(id=30, n=2, np=8, npx=4, f=0.5), dict(id=31, n=2, np=8, npx=4, f=1.0, ovs=2.0),
            dict(id=32, n=2, np=8, npx=4, f=1.0), dict(id=33, n=2, np=4, npx=4, f=0.5),
            dict(id=34, n=2, np=12, npx=6, f=2.0)]


def together_cases(tier):
    k = len(TOGETHER)
    for r in (2,) if tier == 'quick' else (2, 3):
        for idx in itertools.product(range(k), repeat=r):
            for order in ('group', 'turns'):
                yield dict(idx=list(idx), order=order)


def frames(g, k):
    N = g['n'] * g['np']
    i, j = np.mgrid[0:N, 0:N]
    A = 1.0 * ((i + j + k) % 7 != 0)
    return A, ((i * 5 + j * (k + 2) + i * j * (k + 1)) % 11) * 20.


def run_together(c, st):
    """Sensors in the same process give the images they give alone."""
    nst = 3
    alone, objs, efs = [], [], []
    for w, i in enumerate(c['idx']):
        g = TOGETHER[i]
        from specula.processing_objects.sh import SH
        with quiet():
            o = make(g)
        ef = make_ef(g)
        put(ef, *frames(g, w), -1)
        objs.append(connect(o, ef))
        efs.append(ef)
    got = []
    for k in range(nst):
        t = k * DT
        for w, i in enumerate(c['idx']):
            put(efs[w], *frames(TOGETHER[i], w * 3 + k), t)
        with quiet():
            if c['order'] == 'group':
                for o in objs:
                    o.check_ready(t)
                for o in objs:
                    o.trigger()
                for o in objs:
                    o.post_trigger()
            else:
                for o in objs:
                    step(o, t)
        st.step(len(objs))
        got.append([np.array(o.outputs['out_i'].i) for o in objs])
    tl = tol()
    for w, i in enumerate(c['idx']):
        g = TOGETHER[i]
        for k in range(nst):
            A, ph = frames(g, w * 3 + k)
            if g.get('ovs', 1.0) == 1.0:
                ok = find_scale(got[k][w], lambda s: image(A, ph, g, s), tl)
                if not ok:
                    return (f'sensors {c["idx"]} ({c["order"]}): image {k} of sensor {w} is not that of '
                            f'its field')
                st.outcome((i, ok[0]))
            # the same object repeated by itself
            put(efs[w], A, ph, (10 + k) * DT)
        # second run, by itself: same images
        for k in range(nst):
            put(efs[w], *frames(g, w * 3 + k), (20 + k) * DT)
            with quiet():
                step(objs[w], (20 + k) * DT)
            if not close(objs[w].outputs['out_i'].i, got[k][w], tl):
                return (f'sensors {c["idx"]} ({c["order"]}): image {k} of sensor {w} changes when it '
                        f'works by itself')
    return None


# ---------------------------------------------------------------- distributed

def dist_cases(tier):
    for n in (2, 3, 4, 5):
        for ns in range(1, n + 1):
            for f in (1.0, 2.0):
                for dev in (None, -1):
                    yield dict(g=dict(id=40, n=n, np=8 if f == 2 else 4, npx=4, f=f), ns=ns, dev=dev)


def run_dist(c, st):
    g = c['g']
    with quiet():
        o = make(g, 'DistributedSH', n_slices=c['ns'], target_device_idx=c['dev'])
        s = make(g, 'SH')
    ef = make_ef(g)
    put(ef, *frames(g, 0), -1)
    connect(o, ef)
    connect(s, ef)
    for k in range(3):
        put(ef, *frames(g, k + 1), k * DT)
        with quiet():
            if not step(o, k * DT):
                return f'{c}: not triggered'
            step(s, k * DT)
        st.step(2)
        a, b = np.array(o.outputs['out_i'].i), np.array(s.outputs['out_i'].i)
        st.outcome(round(float(b.max()), 6))
        if not close(a, b, max(tol(), 1e-9)):
            return f'{c}: frame {k} of the distributed sensor is not that of the SH'
        if o.outputs['out_i'].generation_time != k * DT:
            return f'{c}: frame {k} does not carry the present time'
    return None


# ---------------------------------------------------------------- polychromatic

def poly_cases(tier):
    lams = [(500.,), (500., 500.), (500., 1000.), (500., 250., 1000.)]
    for L in lams:
        for w in itertools.product((1.0, 3.0, 0.0) if tier == 'thorough' else (1.0, 3.0), repeat=len(L)):
            if not any(w):
                continue
            for tl in (None, 0, 1, 2):
                yield dict(lams=list(L), w=list(w), tilt=tl)


def run_poly(c, st):
    g = dict(id=50, n=2, np=8, npx=4, f=2.0)
    px = pxscale(g)
    tilts = None
    if c['tilt'] is not None:
        tilts = [[px * ((k + c['tilt']) % 3 - 1), px * (k == c['tilt'])] for k in range(len(c['lams']))]
    with quiet():
        o = make(g, 'PolyChromSH', lam=c['lams'], flux_factor=c['w'], xy_tilts_in_arcsec=tilts)
    ef = make_ef(g)
    N = g['n'] * g['np']
    put(ef, *frames(g, 0), -1)
    connect(o, ef)
    singles = []
    for lam in c['lams']:
        with quiet():
            s = make(g, 'SH', lam=lam)
        e = make_ef(g)
        put(e, *frames(g, 0), -1)
        singles.append((connect(s, e), e))
    i, j = np.mgrid[0:N, 0:N] - (N - 1) / 2
    for k in range(3):
        A, ph = frames(g, k + 1)
        put(ef, A, ph, k * DT)
        pc = np.array(ef.phaseInNm)
        with quiet():
            if not step(o, k * DT):
                return f'{c}: not triggered'
        st.step()
        if not np.array_equal(pc, ef.phaseInNm):
            return f'{c}: the input field was modified'
        ref = 0
        for m, (s, e) in enumerate(singles):
            extra = 0
            if tilts:
                extra = (tilts[m][0] * j + tilts[m][1] * i) / R2A * PITCH * 1e9
            put(e, A, ph + extra, k * DT)
            with quiet():
                step(s, k * DT)
            ref = ref + c['w'][m] * np.array(s.outputs['out_i'].i)
        ref *= 3.0 * A.sum() * PITCH ** 2 / ref.sum()
        st.outcome(round(float(ref.max()), 6))
        if not close(o.outputs['out_i'].i, ref, max(tol(), 2e-5)):
            return f'{c}: frame {k} is not the weighted sum of the monochromatic ones'
        if o.outputs['out_i'].generation_time != k * DT:
            return f'{c}: frame {k} does not carry the present time'
    return None


# ---------------------------------------------------------------- laser guide stars

SODIUM = [([85e3, 90e3, 95e3], [0.3, 0.5, 0.2]), ([85e3, 90e3, 95e3], [0.2, 0.5, 0.3]),
          ([70e3, 90e3], [1.0, 2.0])]
LLTS = [dict(spot_size=1.2), dict(spot_size=0.8, tel_position=[]),
        dict(spot_size=0.9, tel_position=[3.0, 1.0, 0.0]),
        dict(spot_size=0.9, tel_position=[-2.0, 2.0, 5.0], beacon_focus=85e3),
        dict(spot_size=0.9, tel_position=[0.0, 3.0, 0.0], beacon_tt=[0.3, -0.2]),
        dict(spot_size=1.1, tel_position=[3.0, 1.0, 0.0], zen=60.0)]


def lgs_cases(tier):
    for k in range(len(LLTS)):
        for g in (GEOMS[0], GEOMS[1], GEOMS[5], dict(id=60, n=1, np=8, npx=4, f=2.0)):
            if g['n'] == 3 and tier != 'thorough' and k not in (0, 2):
                continue
            for cls in ('SH', 'DistributedSH'):
                yield dict(llt=k, g=g, cls=cls, len=3 if tier == 'thorough' else 2)


def run_lgs(c, st):
    """Sequences of fields and sodium profiles: each image is convolved with the present column."""
    here = os.getcwd()
    os.chdir(scratch())         # sensors without a data_dir keep their kernels there
    try:
        return lgs_images(c, st)
    finally:
        os.chdir(here)


def lgs_images(c, st):
    from specula.base_value import BaseValue
    from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
    g = dict(c['g'])
    p = dict(LLTS[c['llt']])
    am = 1 / np.cos(np.radians(p['zen'])) if 'zen' in p else 1.0
    sp = simul_params(zenithAngleInDeg=p.pop('zen', 0.0))
    pos = p.get('tel_position')
    al = [(f, s) for f in 'FR' for s in ((None, 0, 1, 2) if pos else (None,))]
    for word in itertools.product(range(len(al)), repeat=c['len']):
        # focal plane oversampled enough for the kernels to differ
        kw = dict(laser_launch_tel=LaserLaunchTelescope(sp, **p), data_dir=scratch())
        if c['cls'] == 'DistributedSH':
            kw['n_slices'] = g['n']
            del kw['data_dir']
        with quiet():
            o = make(g, c['cls'], **kw)
        o.name = 'sensor'
        ef = make_ef(g)
        put(ef, 1, 0, -1)
        prof = 0
        if pos:
            alt, inten = BaseValue(value=np.array(SODIUM[0][0])), BaseValue(value=np.array(SODIUM[0][1]))
            alt.generation_time = inten.generation_time = -1
            o.inputs['sodium_altitude'].set(alt)
            o.inputs['sodium_intensity'].set(inten)
        connect(o, ef)
        o.sanity_check()
        # the sense of the sky axes in the focal plane is a convention
        ok = set(itertools.product(range(2, 13), (1, -1)))
        for k, w in enumerate(word):
            kind, new = al[w]
            t = k * DT
            A, ph = field(g, ''.join((kind, 'X', 'F', 'P')[(q + k) % 4] for q in range(g['n'] ** 2)))
            put(ef, A, ph, t)
            if new is not None:
                prof = new
                alt.value, inten.value = (np.array(x) for x in SODIUM[new])
                alt.generation_time = inten.generation_time = t
            with quiet():
                if not step(o, t):
                    return f'{c}: not triggered'
            st.step()
            got = np.array(o.outputs['out_i'].i)

            def kern(m, s):
                key = repr((p, am, g['n'], g['np'], g['f'], m, s, prof))
                if key not in _kernels:
                    ps = LAM * 1e-9 / (g['np'] * PITCH) * R2A / s
                    if pos:
                        _kernels[key] = lgs.kernels(
                            g['n'], g['n'] * g['np'] * PITCH, ps, m, pos, p['spot_size'],
                            p.get('beacon_focus', 90e3) * am, [h * am for h in SODIUM[prof][0]],
                            SODIUM[prof][1], p.get('beacon_tt', [0., 0.]))
                    else:
                        _kernels[key] = lgs.kernels(
                            g['n'], g['n'] * g['np'] * PITCH, ps, m, (0, 0, 0), p['spot_size'],
                            90e3, [90e3], [1.0])
                return _kernels[key]
            good = set()
            for s, sense in ok:
                ref = image(A, ph, g, s, kern=lambda m: lgs.turned(kern(m, s), sense))
                if ref is not None and close(got, ref, max(tol(), 1e-5)):
                    good.add((s, sense))
            if not good:
                return (f'{c}: fields and profiles {[al[x] for x in word[:k + 1]]}: the image is not '
                        f'that of the present column (total {got.sum():.6g})')
            ok = good
            st.state((c['llt'], g['id'], word[:k + 1]))
        st.outcome((c['llt'], g['id'], tuple(sorted(ok))))
    return None


_kernels = {}

FAMILIES = [
    Family('subapertures', tiles_cases, run_tiles, (0, 1), 'fields of the subapertures', weight=6),
    Family('oversampled', ovs_cases, run_ovs, (0, 1), 'oversampled pupils and tilts'),
    Family('rotated', rot_cases, run_rot, (0,), 'quarter turns'),
    Family('together', together_cases, run_together, (0, 1), 'sensors sharing a process', weight=3),
    Family('distributed', dist_cases, run_dist, (0, 1), 'slices of the distributed sensor'),
    Family('lgs', lgs_cases, run_lgs, (0,), "sequences of sodium profiles", weight=2),
    Family('polychromatic', poly_cases, run_poly, (0, 1), 'wavelengths, weights and tilts'),
]
