"""P19: fields, mirrors and propagation: all small geometries and update histories.

The real AtmoPropagation, DM and field objects are run on every combination of a bounded set of
layers, sources, shifts, rotations, magnifications and histories, and compared with a direct
evaluation of the line of sight of each pupil pixel."""
import itertools
import math

import numpy as np

from mc.core import Family
from mc.harness import close, simul_params, step

RULE = ('all combinations of layer geometry, source geometry and orientation up to the stated sizes; '
        'all histories of layer and command refreshes up to the stated length')
ASSUMPTIONS = ['pupils of 4 and 6 pixels, square layers up to 24 pixels whose size has the parity of '
               'the pupil', 'layer magnifications of 1 or more', 'CPU arrays',
               'one output field per source (layer contributions merged)']

PITCH = 0.5
ASEC = 4.84813681109536e-6


def prec():
    import specula
    return int(specula.global_precision)


def tol():
    return 3e-4 if prec() else 1e-9


def pattern(n, k=0, m=None):
    """Generic phase, in nm."""
    m = n if m is None else m
    i, j = np.mgrid[0:n, 0:m]
    return ((i * 7 + j * 11 + i * j * (k + 3)) % 17) * 10.0 + 3.0 * k + i - 0.5 * j


def amplitude(n, kind, m=None):
    i, j = np.mgrid[0:n, 0:n if m is None else m]
    if kind == 'one':
        return np.ones(i.shape)
    if kind == 'holes':
        return 1.0 * ((i + 2 * j) % 5 != 0)
    return 0.5 + 0.1 * ((i + j) % 3)


def make_layer(n, h, kind, k, shift=(0., 0.), rot=0., mag=1., t=0):
    from specula.data_objects.layer import Layer
    l = Layer(n, n, PITCH, h, shiftXYinPixel=shift, rotInDeg=rot, magnification=mag)
    l.A = amplitude(n, kind)
    l.phaseInNm = pattern(n, k)
    l.generation_time = t
    return l


def bilinear(a, y, x):
    n, m = a.shape
    y, x = min(max(y, 0.), n - 1.), min(max(x, 0.), m - 1.)
    i, j = min(int(y), n - 2), min(int(x), m - 2)
    fy, fx = y - i, x - j
    return ((a[i, j] * (1 - fx) + a[i, j + 1] * fx) * (1 - fy)
            + (a[i + 1, j] * (1 - fx) + a[i + 1, j + 1] * fx) * fy)


def filled(phase, A):
    """Phase of a magnified layer: pixels without light get the mean of their block."""
    n = phase.shape[0]
    b = next(d for d in (5, 4, 3, 2, 1) if n % d == 0)
    out = phase.copy()
    ok = A != 0
    for i0 in range(0, n, b):
        for j0 in range(0, n, b):
            sl = np.s_[i0:i0 + b, j0:j0 + b]
            m = ok[sl]
            v = phase[sl][m].mean() if m.any() else phase[ok].mean()
            out[sl] = np.where(m, out[sl], v)
    return out


class Geo:
    """Line of sight of one source through one layer."""

    def __init__(self, pup, zen, src, ppos):
        self.pup, self.src, self.ppos = pup, src, ppos
        self.air = 1 / math.cos(math.radians(zen))

    def offset(self, n, h, dy=0.0):
        """Displacement in pixels of the footprint from the centre of the layer, and its scale."""
        r, phi, H = self.src
        px = r * ASEC * h * self.air / PITCH
        x, y = px * math.cos(math.radians(phi)), px * math.sin(math.radians(phi))
        if self.ppos is not None and n > self.pup:
            f = 1.0 if math.isinf(H) else 1 - h / H
            x += self.ppos[0] / PITCH * f
            y += self.ppos[1] / PITCH * f
        return x, y + dy, 1.0 if math.isinf(H) else (H - h) / H

    def inside(self, n, h, dy=0.0):
        x, y, _ = self.offset(n, h, dy)
        lim = (n - self.pup) / 2
        return abs(x) <= lim and abs(y) <= lim

    def sample(self, a, h, shift, rot, mag, dy=0.0):
        n = a.shape[0]
        ox, oy, cone = self.offset(n, h, dy)
        c = (n - 1) / 2
        out = np.zeros((self.pup, self.pup))
        th = math.radians(-rot)
        for i in range(self.pup):
            for j in range(self.pup):
                x = (j - (self.pup - 1) / 2) * cone / mag + ox - shift[0]
                y = (i - (self.pup - 1) / 2) * cone / mag + oy - shift[1]
                xr = x * math.cos(th) - y * math.sin(th)
                yr = x * math.sin(th) + y * math.cos(th)
                out[i, j] = bilinear(a, yr + c, xr + c)
        return out


def make_source(src, wl=750.):
    from specula.data_objects.source import Source
    return Source([src[0], src[1]], 8., wl, height=src[2])


def same_field(ef, A, P, what, t=None):
    if t is not None and ef.generation_time != t:
        return f'{what}: generation_time {ef.generation_time} at time {t}'
    if ef.A.shape != A.shape:
        return f'{what}: shape {ef.A.shape}, expected {A.shape}'
    if not close(ef.A, A, tol()):
        return f'{what}: amplitude {np.round(ef.A, 5).tolist()}, expected {np.round(A, 5).tolist()}'
    if not close(ef.phaseInNm, P, tol()):
        return (f'{what}: phase {np.round(ef.phaseInNm, 4).tolist()}, '
                f'expected {np.round(P, 4).tolist()}')
    return None


INF = math.inf
# r (arcsec), angle (deg), height (m)
SOURCES = [(0., 0., INF), (20., 0., INF), (20., 90., INF), (33., 210., INF), (0., 0., 9000.),
           (25., 130., 9000.), (400., 45., INF)]


# ------------------------------------------------------------------ geometry of one layer
def gen_geom(tier):
    heights = (0., 5000.)
    shifts = ((0., 0.), (1., 0.), (0.3, -0.6))
    rots = (0., 90., 30., -45.)
    mags = (1., 1.25, 2.)
    for pup, n in ((4, 4), (4, 10), (6, 14)) + (((6, 24), (4, 20)) if tier == 'thorough' else ()):
        for h, zen, sh, rot, mag in itertools.product(heights, (0., 40.), shifts, rots, mags):
            if n == pup and h:
                continue
            for ppos in (None, (0.5, -0.25)):
                yield {'pup': pup, 'n': n, 'h': h, 'zen': zen, 'shift': sh, 'rot': rot, 'mag': mag,
                       'ppos': ppos}
    for n in (5, 7, 15):        # sizes with and without small divisors, odd pupil
        for mag in (1.5, 3.):
            yield {'pup': 5, 'n': n, 'h': 0., 'zen': 0., 'shift': (0., 0.), 'rot': 0., 'mag': mag,
                   'ppos': None}


def run_geom(case, st):
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    pup, n, h = case['pup'], case['n'], case['h']
    sp = simul_params(pixel_pupil=pup, pixel_pitch=PITCH, zenithAngleInDeg=case['zen'])
    for si, src in enumerate(SOURCES):
        for kind in ('one', 'holes'):
            lay = make_layer(n, h, kind, si, case['shift'], case['rot'], case['mag'])
            A, P = np.array(lay.A, dtype=float), np.array(lay.phaseInNm, dtype=float)
            g = Geo(pup, case['zen'], src, case['ppos'])
            source = make_source(src)
            pr = AtmoPropagation(sp, {'s': source}, pupil_position=case['ppos'])
            pr.inputs['atmo_layer_list'].set([lay])
            pr.inputs['common_layer_list'].set([])
            ok = g.inside(n, h) or (h == 0 and case['ppos'] is None)
            try:
                pr.setup()
            except ValueError as e:
                if ok:
                    return f'{case} source {src}: refused ({e}) though inside the field of view'
                st.outcome('outside')
                continue
            if not ok:
                return f'{case} source {src}: accepted though outside the layer'
            st.step()
            st.outcome('inside')
            if not step(pr, 0):
                return 'not triggered'
            F = P if case['mag'] == 1 else filled(P, A)
            m = same_field(pr.outputs['out_s_ef'],
                           g.sample(A, h, case['shift'], case['rot'], case['mag']),
                           g.sample(F, h, case['shift'], case['rot'], case['mag']),
                           f'{case} source {src} layer {kind}', 0)
            if m:
                return m
            st.state(np.round(pr.outputs['out_s_ef'].phaseInNm, 3))
            ok = A != 0
            if not np.array_equal(lay.A, A) or not close(np.array(lay.phaseInNm)[ok], P[ok], 1e-6):
                return f'{case}: the propagation changed the lit pixels of its layer'
    return None


# ------------------------------------------------------------------ several layers, histories
LAYERS = [('c', 4, 0., 'holes', (0., 0.), 0., 1.), ('c', 8, 600., 'grey', (0., 0.), 90., 1.),
          ('a', 4, 0., 'one', (0., 0.), 0., 1.), ('a', 12, 4000., 'one', (0., 0.), 0., 1.),
          ('a', 14, 7000., 'grey', (0.4, 0.), 0., 1.)]


def gen_layers(tier):
    for r in range(1, len(LAYERS) + 1):
        for sub in itertools.combinations(range(len(LAYERS)), r):
            if not any(LAYERS[i][0] == 'c' for i in sub):
                continue
            for up in (False, True):
                yield {'layers': sub, 'up': up, 'n': 3 if tier == 'thorough' else 2}


def run_layers(case, st):
    """Every subset of the layers, every history of which layers are refreshed."""
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    srcs = {'on': (0., 0., INF), 'off': (20., 60., INF), 'lgs': (15., 200., 12000.)}
    sub = case['layers']
    masks = list(itertools.product((0, 1), repeat=len(sub)))
    if len(sub) > 3:
        masks = [m for m in masks if sum(m) <= 1 or sum(m) == len(sub)]
    sp = simul_params(pixel_pupil=4, pixel_pitch=PITCH, zenithAngleInDeg=20.)
    for hist in itertools.product(masks, repeat=case['n']):
        lays = [make_layer(*LAYERS[i][1:4], i, *LAYERS[i][4:]) for i in sub]
        pr = AtmoPropagation(sp, {k: make_source(v) for k, v in srcs.items()}, upwards=case['up'])
        pr.inputs['atmo_layer_list'].set([l for l, i in zip(lays, sub) if LAYERS[i][0] == 'a'])
        pr.inputs['common_layer_list'].set([l for l, i in zip(lays, sub) if LAYERS[i][0] == 'c'])
        pr.setup()
        content = [(np.array(l.A, dtype=float), np.array(l.phaseInNm, dtype=float)) for l in lays]
        last = None
        for k, refresh in enumerate([(1,) * len(sub)] + list(hist)):
            t = k * 1000000
            if k:
                for q, f in enumerate(refresh):
                    if f:
                        content[q] = (np.roll(content[q][0], k, 0), pattern(lays[q].size[0], 5 * k + q))
                        lays[q].A, lays[q].phaseInNm = content[q]
                        lays[q].generation_time = t
            ran = step(pr, t)
            st.step()
            if ran != bool(any(refresh)):
                return f'{case}, refreshes {hist}: triggered={ran} at step {k}'
            if ran:
                last = t
            for name, src in srcs.items():
                g = Geo(4, 20., src, None)
                A, P = np.ones((4, 4)), np.zeros((4, 4))
                for (a, p), i in zip(content, sub):
                    A = A * g.sample(a, *[LAYERS[i][j] for j in (2, 4, 5, 6)])
                    P = P + g.sample(p, *[LAYERS[i][j] for j in (2, 4, 5, 6)])
                m = same_field(pr.outputs[f'out_{name}_ef'], A, P,
                               f'{case}, source {name}, refreshes {hist}, step {k}', last)
                if m:
                    return m
                st.state(name, np.round(P, 3))
                S0 = pr.source_dict[name].phot_density()
                if abs(pr.outputs[f'out_{name}_ef'].S0 - S0) > 1e-6 * abs(S0):
                    return f'{case}: flux of the source {name} lost'
    return None


# ------------------------------------------------------------------ chromatic shift
def pressure(h):
    if h < 11000.:
        return 1012.9 * ((288.08 - 0.00649 * h) / 288.08) ** 5.256
    if h < 25000.:
        return 226.5 * math.exp(1.73 - 0.000157 * h)
    return 24.88 * ((141.94 + 0.00299 * h) / 216.6) ** -11.388


def gen_chrom(tier):
    for wl, ref in ((500., 500.), (500., 2200.), (2200., 500.), (750., 1600.)):
        for zen in (0., 30., 60.):
            for alt in (0., 2500.):
                for h in (0., 3000., 9000., 16000., 27000.):
                    yield {'wl': wl, 'ref': ref, 'zen': zen, 'alt': alt, 'h': h}


def run_chrom(case, st):
    from specula.lib.air_refraction import MatharAirRefraction
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    ar = MatharAirRefraction()
    dN = float(ar.get_refractive_index(case['ref'] * 1e-9) - ar.get_refractive_index(case['wl'] * 1e-9))
    z = math.radians(case['zen'])
    p0 = pressure(case['alt'])
    dy = (dN * math.tan(z) / math.cos(z) * p0 * 100. / (9.8 * 1.225)
          * (1 - pressure(case['alt'] + case['h']) / p0)) / PITCH
    sp = simul_params(pixel_pupil=4, pixel_pitch=PITCH, zenithAngleInDeg=case['zen'])
    for src in ((0., 0., INF), (5., 30., INF)):
        for on in (True, False):
            la = make_layer(24, case['h'], 'one', 1)
            lc = make_layer(24, case['h'], 'grey', 2)
            pr = AtmoPropagation(sp, {'s': make_source(src, case['wl'])}, enable_chromatic_effect=on,
                                 telescope_altitude_m=case['alt'],
                                 chromatic_reference_wavelengthInNm=case['ref'])
            pr.inputs['atmo_layer_list'].set([la])
            pr.inputs['common_layer_list'].set([lc])
            g = Geo(4, case['zen'], src, None)
            ok = g.inside(24, case['h'], dy if on else 0.0)
            try:
                pr.setup()
            except ValueError:
                if ok:
                    return f'{case}: refused though inside the layer'
                continue
            step(pr, 0)
            st.step()
            P = (g.sample(np.array(la.phaseInNm, dtype=float), case['h'], (0, 0), 0., 1., dy if on else 0.)
                 + g.sample(np.array(lc.phaseInNm, dtype=float), case['h'], (0, 0), 0., 1.))
            A = g.sample(np.array(lc.A, dtype=float), case['h'], (0, 0), 0., 1.)
            m = same_field(pr.outputs['out_s_ef'], A, P, f'{case} source {src} chromatic effect {on}', 0)
            if m:
                return m
            st.state(round(dy, 6), src, on)
    return None


# ------------------------------------------------------------------ Fresnel
def fresnel(field, dist, wl, pad, band):
    """Angular spectrum propagation of a complex field, by explicit sums."""
    n = field.shape[0]
    N = n * pad
    s = (N - n + 1) // 2
    big = np.zeros((N, N), complex)
    big[s:s + n, s:s + n] = field
    f = np.arange(-(N // 2) - (N % 2), N // 2) / (N * PITCH) if N % 2 else \
        np.arange(-N // 2, N // 2) / (N * PITCH)
    k = np.arange(N)
    E = np.exp(-2j * np.pi * np.outer(f, k) * PITCH) / math.sqrt(N)
    spec = E @ big @ E.T
    fsq = f[:, None] ** 2 + f[None, :] ** 2
    L = N * PITCH
    lim = L / (wl * math.sqrt(L ** 2 + 4 * dist ** 2))
    top = N / 2 / L * band
    if lim < top:
        lim = top
        dist = math.sqrt((L / lim) ** 2 / wl ** 2 - L ** 2) / 2
    H = np.exp(-1j * np.pi * dist * wl * fsq)
    if band < 1.0:
        H = H * (((f[None, :] / lim) ** 2 + (f[:, None] * wl) ** 2 <= 1)
                 & ((f[:, None] / lim) ** 2 + (f[None, :] * wl) ** 2 <= 1))
    Ei = np.conj(E).T
    out = Ei @ (spec * H) @ Ei.T
    return out[s:s + n, s:s + n]


def gen_fresnel(tier):
    for hs in ((0.,), (0., 300.), (0., 0., 300.), (100., 300.), (0., 300., 900.)):
        for up in (False, True):
            for pad in (1, 2, 3):
                for band in (1.0, 0.5):
                    for H in (1000., 5000.):
                        for pup in (4, 6):
                            yield {'hs': hs, 'up': up, 'pad': pad, 'band': band, 'H': H, 'pup': pup}


def run_fresnel(case, st):
    import warnings
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    warnings.simplefilter('ignore')
    pup, H, wl = case['pup'], case['H'], 1550e-9
    sp = simul_params(pixel_pupil=pup, pixel_pitch=PITCH)
    src = (0., 0., H)
    lays = [make_layer(pup + 4 * (h > 0), h, 'grey' if i else 'holes', i) for i, h in enumerate(case['hs'])]
    pr = AtmoPropagation(sp, {'s': make_source(src)}, doFresnel=True, wavelengthInNm=wl * 1e9,
                         upwards=case['up'], padding_factor=case['pad'], band_limit_factor=case['band'])
    pr.inputs['common_layer_list'].set(lays[:1])
    pr.inputs['atmo_layer_list'].set(lays[1:])
    pr.setup()
    for k in range(2):
        t = k * 1000000
        for i, l in enumerate(lays):
            l.phaseInNm = pattern(l.size[0], i + 4 * k) / 3
            l.generation_time = t
        if not step(pr, t):
            return 'not triggered'
        st.step()
        u = np.ones((pup, pup), complex)
        order = list(range(len(lays))) if case['up'] else list(range(len(lays)))[::-1]
        g = Geo(pup, 0., src, None)
        for q, i in enumerate(order):
            h = case['hs'][i]
            a = g.sample(np.array(lays[i].A, dtype=float), h, (0, 0), 0., 1.)
            p = g.sample(np.array(lays[i].phaseInNm, dtype=float), h, (0, 0), 0., 1.)
            u = u * a * np.exp(2j * np.pi * p / (wl * 1e9))
            if case['up']:
                nxt = case['hs'][order[q + 1]] if q + 1 < len(order) else H
            elif q + 1 < len(order):
                nxt = case['hs'][order[q + 1]]
            else:
                nxt = h
            if abs(nxt - h) > 0:
                u = fresnel(u, abs(nxt - h), wl, case['pad'], case['band'])
        ef = pr.outputs['out_s_ef']
        got = np.array(ef.A) * np.exp(2j * np.pi * np.array(ef.phaseInNm) / (wl * 1e9))
        if not close(got, u, 2e-3 if prec() else 1e-8):
            return f'{case}: propagated field off by {np.abs(got - u).max():.3g} at step {k}'
        st.state(np.round(np.abs(u), 3))
    return None


# ------------------------------------------------------------------ DM
def dm_mask(n):
    i, j = np.mgrid[0:n, 0:n]
    return 1.0 * ((i - (n - 1) / 2) ** 2 + (j - (n - 1) / 2) ** 2 <= (n / 2) ** 2) * (i + j > 1)


def gen_dm(tier):
    for sel in ({}, {'nmodes': 3}, {'start_mode': 1}, {'start_mode': 2, 'nmodes': 4},
                {'idx_modes': [0, 3]}, {'idx_modes': [4, 1, 2]}):
        for m2c in (None, 'square', 'wide'):
            for sign in (-1, 1, 2):
                yield {'sel': sel, 'm2c': m2c, 'sign': sign, 'n': 4 if tier == 'thorough' else 3}


def run_dm(case, st):
    from specula.base_value import BaseValue
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.m2c import M2C
    from specula.processing_objects.dm import DM
    n, nm = 5, 5
    mask = dm_mask(n)
    px = int(mask.sum())
    IF = np.array([[((a + 2) * (b + 3)) % 13 - 4.0 + 0.25 * a for b in range(px)] for a in range(nm)])
    sel = case['sel']
    modes = list(range(nm))
    if 'idx_modes' in sel:
        modes = sel['idx_modes']
    else:
        modes = modes[sel.get('start_mode', 0):sel.get('nmodes', nm)]
    M = None
    if case['m2c']:
        M = np.array([[((a * 3 + b * 5) % 7) - 2.0 for b in range(nm)] for a in range(nm)])
        if case['m2c'] == 'wide':       # more actuators than modes
            M = M[:, :4]
            modes = [m for m in modes if m < 4]
            if 'idx_modes' in sel and max(sel['idx_modes']) >= 4:
                return None
    cmds = [np.array([2.0, -1.0, 0.5, 3.0, -4.0][:len(modes)]), np.array([1.0, 5.0, -2.0, 0.25, 1.5][:len(modes)]),
            np.array([7.0]), np.zeros(len(modes))]
    if M is None:
        cmds.append(np.array([1.0, 5.0, -2.0, 0.25, 1.5, 8., 9.]))      # more commands than modes
    for hist in itertools.product(range(len(cmds)), repeat=case['n']):
        ifo = IFunc(ifunc=IF.copy(), mask=mask.copy())
        kw = dict(sel)
        dm = DM(simul_params(pixel_pupil=n, pixel_pitch=PITCH), height=100., ifunc=ifo,
                m2c=M2C(M.copy()) if M is not None else None, sign=case['sign'], **kw)
        v = BaseValue(value=np.zeros(1))
        dm.inputs['in_command'].set(v)
        dm.setup()
        for k, c in enumerate(hist):
            t = k * 1000000
            v.value = np.array(cmds[c], dtype=dm.dtype)
            v.generation_time = t
            if not step(dm, t):
                return 'not triggered'
            st.step()
            if M is not None:
                act = sum(M[:, m] * cmds[c][q] for q, m in enumerate(modes) if q < len(cmds[c]))
                ph = act @ IF
            else:
                ph = sum(IF[m] * cmds[c][q] for q, m in enumerate(modes) if q < len(cmds[c]))
            exp = np.zeros((n, n))
            exp[mask > 0] = case['sign'] * ph
            m = same_field(dm.outputs['out_layer'], mask, exp, f'{case}, commands {hist}, step {k}', t)
            if m:
                return m
            if not np.array_equal(v.value, cmds[c].astype(dm.dtype)):
                return f'{case}: the DM changed its command'
            st.state(np.round(exp, 4))
        if not close(ifo.influence_function, IF, 1e-6):
            return f'{case}: the DM changed the influence functions'
    st.outcome(len(modes), case['m2c'])
    return None


# ------------------------------------------------------------------ operations on fields
def gen_ops(tier):
    for obj in ('list1', 'list2', 'list3', 'pair', 'reflect', 'flatten'):
        for shape in ((3, 3), (2, 4), (4, 2)):
            for kind in ('one', 'holes', 'grey', 'dark'):
                yield {'obj': obj, 'shape': shape, 'kind': kind, 'n': 3 if tier == 'thorough' else 2}


def run_ops(case, st):
    from specula.data_objects.electric_field import ElectricField
    from specula.processing_objects.electric_field_combinator import ElectricFieldCombinator
    from specula.processing_objects.electric_field_reflection import ElectricFieldReflection
    from specula.processing_objects.phase_flattening import PhaseFlattening
    ny, nx = case['shape']
    nin = {'list1': 1, 'list2': 2, 'list3': 3, 'pair': 2}.get(case['obj'], 1)
    for hist in itertools.product(itertools.product((0, 1), repeat=nin), repeat=case['n']):
        efs = [ElectricField(nx, ny, PITCH, S0=2.0 + i) for i in range(nin)]
        if case['obj'] == 'reflect':
            o = ElectricFieldReflection()
            o.inputs['in_ef'].set(efs[0])
        elif case['obj'] == 'flatten':
            o = PhaseFlattening()
            o.inputs['in_ef'].set(efs[0])
        else:
            o = ElectricFieldCombinator()
            if case['obj'] == 'pair':
                o.inputs['in_ef1'].set(efs[0])
                o.inputs['in_ef2'].set(efs[1])
            else:
                o.inputs['in_ef_list'].set(efs)
        o.setup()
        last = None
        for k, ref in enumerate(((1,) * nin,) + hist):
            t = k * 1000000
            for i, e in enumerate(efs):
                if ref[i]:
                    a = np.zeros((ny, nx)) if case['kind'] == 'dark' else \
                        np.roll(amplitude(ny, case['kind'], nx), k, 1)
                    e.A, e.phaseInNm = a, pattern(ny, 3 * k + i, nx)
                    e.S0 = 2.0 + i + k
                    e.generation_time = t
            keep = [np.array(e.field) for e in efs]
            ran = step(o, t)
            st.step()
            if ran != bool(any(ref)):
                return f'{case}: triggered={ran} at step {k} of {hist}'
            if ran:
                last = t
            A = np.prod([np.array(e.A, dtype=float) for e in efs], axis=0)
            P = np.sum([np.array(e.phaseInNm, dtype=float) for e in efs], axis=0)
            S0 = sum(e.S0 for e in efs)
            if case['obj'] == 'reflect':
                P = -P
            if case['obj'] == 'flatten' and (A > 0).any():
                P = np.where(A > 0, P - P[A > 0].mean(), P)
            out = o.outputs['out_ef']
            m = same_field(out, A, P, f'{case}, refreshes {hist}, step {k}', last)
            if m:
                return m
            if abs(out.S0 - S0) > 1e-9 or out.pixel_pitch != PITCH:
                return f'{case}: S0 {out.S0}, pitch {out.pixel_pitch}; expected {S0}, {PITCH}'
            if not all(np.array_equal(a, e.field) for a, e in zip(keep, efs)):
                return f'{case}: the input fields were changed'
            st.state(np.round(P, 4))
    return None


def gen_field(tier):
    for shape in itertools.product((1, 2, 3, 5), repeat=2):
        for kind in ('one', 'holes', 'grey', 'dark'):
            yield {'shape': shape, 'kind': kind}


def run_field(case, st):
    """Algebra of a field: wavelengths, product, display, reset and resize."""
    from specula.data_objects.electric_field import ElectricField
    ny, nx = case['shape']
    A = np.zeros((ny, nx)) if case['kind'] == 'dark' else amplitude(ny, case['kind'], nx)
    P = pattern(ny, 1, nx)
    ef = ElectricField(nx, ny, PITCH, S0=3.0)
    if ef.size != (ny, nx) or not np.all(ef.A == 1) or np.any(ef.phaseInNm):
        return f'{case}: a new field is not flat'
    ef.A, ef.phaseInNm = A, P
    for wl in (500., 1234.5):
        for sy, sx in ((None, None), (np.s_[0:1], None), (None, np.s_[1:]), (np.s_[:2], np.s_[:1])):
            s = (sy or np.s_[:], sx or np.s_[:])
            phi = 2 * np.pi * P[s] / wl
            st.step()
            if not close(ef.phi_at_lambda(wl, slicey=sy, slicex=sx), phi, tol()):
                return f'{case}: phase at {wl} nm wrong'
            if not close(ef.ef_at_lambda(wl, slicey=sy, slicex=sx), A[s] * np.exp(1j * phi), 10 * tol()):
                return f'{case}: field at {wl} nm wrong'
        if not close(ef.square_modulus(wl), A * A, 10 * tol()):
            return f'{case}: intensity wrong'
    if abs(float(ef.area()) - ny * nx * PITCH ** 2) > 1e-9 or \
            abs(float(ef.masked_area()) - A.sum() * PITCH ** 2) > 1e-4:
        return f'{case}: area wrong'
    for oy, ox in itertools.product(range(3), repeat=2):
        big = ElectricField(nx + ox, ny + oy, PITCH)
        big.A, big.phaseInNm = amplitude(ny + oy, 'grey', nx + ox), pattern(ny + oy, 2, nx + ox)
        e2 = ElectricField(nx, ny, PITCH)
        e2.A, e2.phaseInNm = A, P
        e2.product(big, subrect=[oy, ox])
        st.step()
        m = same_field(e2, A * np.array(big.A)[oy:, ox:], P + np.array(big.phaseInNm)[oy:, ox:],
                       f'{case}: product at {oy},{ox}')
        if m:
            return m
    d = np.array(ef.array_for_display())
    exp = np.where(A > 0, P - (P[A > 0].mean() if (A > 0).any() else 0), 0)
    if not close(d, exp, max(tol(), 1e-6)):
        return f'{case}: displayed array {d.tolist()}, expected {exp.tolist()}'
    m = same_field(ef, A, P, f'{case}: after the display')
    if m:
        return m
    e3 = ElectricField(nx, ny, PITCH)
    e3.set_value(ef.get_value())
    if e3.compare(ef) or not close(e3.field, ef.field, 1e-12):
        return f'{case}: set_value(get_value()) gives another field'
    e3.reset()
    if not np.all(e3.A == 1) or np.any(e3.phaseInNm) or np.array_equal(ef.A, e3.A) and case['kind'] != 'one':
        return f'{case}: reset does not give a flat field of its own'
    ef.resize(nx + 1, ny + 2, pitch=0.25)
    if ef.size != (ny + 2, nx + 1) or not np.all(ef.A == 1) or np.any(ef.phaseInNm) or \
            ef.pixel_pitch != 0.25 or ef.S0 != 3.0:
        return f'{case}: resize wrong'
    st.state(case['shape'], case['kind'])
    return None


FAMILIES = [
    Family('geom', gen_geom, run_geom, precisions=(0, 1), weight=6,
           what='all geometries of one layer and one source'),
    Family('layers', gen_layers, run_layers, weight=6,
           what='all subsets of five layers, both directions, all refresh histories, three sources'),
    Family('chrom', gen_chrom, run_chrom, weight=2, what='chromatic displacement of the layers'),
    Family('fresnel', gen_fresnel, run_fresnel, precisions=(0, 1),
           what='physical propagation: all layer stacks, paddings and band limits'),
    Family('dm', gen_dm, run_dm, precisions=(0, 1), weight=2,
           what='mirror: all mode selections and command histories'),
    Family('ops', gen_ops, run_ops, precisions=(0, 1), what='combination, reflection and flattening of fields'),
    Family('field', gen_field, run_field, precisions=(0, 1), what='field algebra on all shapes'),
]
