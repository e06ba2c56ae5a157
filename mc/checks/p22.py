"""P22: turbulence generators: all wind/seeing/step histories of small atmospheres.

The real atmosphere objects are stepped through every history of a bounded set (time steps, wind
speeds and directions, seeing values, time offsets, cache states) and every layer is compared with
the phase screen read directly at the position that the history implies."""
import glob
import itertools
import math
import os
import shutil

import numpy as np

from mc.core import Family
from mc.harness import close, scratch, simul_params, step

RULE = ('all sequences of time steps, wind speeds, wind directions and seeing values up to the stated '
        'length, for every layer configuration; all histories of screen-cache contents')
ASSUMPTIONS = ['infinite screens: the offsets of the up lists are all before or all after the down ones',
               'screens of 16 to 64 pixels (infinite screens: the 257 pixels of the code), layers of '
               '4 to 10 pixels', 'winds are not negative', 'CPU arrays',
               'calc_phasescreen and InfinitePhaseScreen.add_line are the source of randomness: '
               'the screens they give for a seed are taken as given']

PITCH = 0.5
RTOL = {0: 1e-9, 1: 2e-4}


def prec():
    import specula
    return int(specula.global_precision)


def rtol():
    return RTOL[prec()]


def cachedir(name, clear=False):
    d = os.path.join(scratch(), 'p22_' + name)
    if clear and os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d, exist_ok=True)
    return d


_screens = {}


def raw_screen(L0, dim, pitch, seed):
    """Square screen of a seed, from the generator itself."""
    from specula.lib.calc_phasescreen import calc_phasescreen
    key = (L0, dim, pitch, seed, prec())
    if key not in _screens:
        _screens[key] = np.array(calc_phasescreen(L0, dim, pitch, np, prec(), seed=seed), dtype=float)
    return _screens[key].copy()


def const(obj, name, value):
    """Connect an input to a value of our own."""
    from specula.base_value import BaseValue
    v = BaseValue(value=np.array(value, dtype=obj.dtype))
    v.generation_time = 0
    obj.inputs[name].set(v)
    return v


def connect(obj, seeing, speed, direction):
    return {'seeing': const(obj, 'seeing', [seeing]), 'wind_speed': const(obj, 'wind_speed', speed),
            'wind_direction': const(obj, 'wind_direction', direction)}


def refresh(v, arr, t):
    v.set_value(np.array(arr, dtype=v.value.dtype))
    v.generation_time = t


def scale_of(seeing, airmass, pitch):
    """(pixel/r0)^(5/6) with r0 at 500 nm along the line of sight."""
    if seeing <= 0:
        return 0.0
    r0 = 0.9759 * 500e-9 / (seeing * 4.848e-6) * airmass ** (-0.6)
    return (pitch / r0) ** (5. / 6.)


# ------------------------------------------------------------------ finite screens
CONFIGS = {
    # heights, L0, Cn2, screen size, zenith angle, fov
    'one': ([0.], [25.], [1.], 32, 0., 0.),
    'two': ([0., 3000.], [25., 25.], [0.25, 0.75], 64, 0., 40.),
    'two_L0': ([0., 3000.], [25., 10.], [0.25, 0.75], 32, 30., 40.),
    'five': ([0., 0., 0., 0., 1000.], [8.] * 5, [0.2] * 5, 32, 60., 60.),
}
PUP = 6


def layer_size(h, zen, fov, ppos=(0, 0)):
    air = 1 / math.cos(math.radians(zen))
    n = PUP + 2 * math.hypot(*ppos) / PITCH + abs(h) * air / PITCH * fov * 4.84813681e-6
    return int(math.ceil(n / 2 - 1e-6)) * 2


def ref_screens(cfg, seed, ppos=(0, 0)):
    """The normalised screen of each layer (nm for pixel = r0) as lists of arrays."""
    heights, L0, cn2, dim, zen, fov = CONFIGS[cfg]
    big = max(layer_size(h, zen, fov, ppos) for h in heights)
    out = []
    if len(set(L0)) == 1:
        per = dim // big
        for i in range(len(heights)):
            sq = raw_screen(L0[0], dim, PITCH, seed + i // per)
            out.append(sq[big * (i % per):big * (i % per + 1)])
    else:
        for i in range(len(heights)):
            out.append(raw_screen(L0[i], dim, PITCH, seed + i)[:big])
    res = []
    for i, s in enumerate(out):
        s = s * math.sqrt(cn2[i])
        s = (s - s.mean()) * 500. / (2 * math.pi)
        res.append(s[:, ::-1] if i % 2 else s)
    return res


def turn(a, deg):
    from scipy.ndimage import rotate
    whole = math.trunc(deg / 90.)
    a = np.rot90(a, whole)
    rest = deg - 90. * whole
    return rotate(a, rest, reshape=False, order=1) if rest else a


def gen_finite(tier):
    steps = [0.25, 0.5, 1.0]
    n = 4 if tier == 'thorough' else 3
    for cfg, (heights, *_r) in CONFIGS.items():
        nl = len(heights)
        for hist in itertools.product(steps, repeat=n):
            for ws in ((0.4, 2.3), (3.1, 0.7), (7.9, 4.1)):
                speed = [ws[i % 2] + 0.1 * (i // 2) for i in range(nl)]
                for d0 in ((0., 0.), (90., 180.), (270., -90.), (30., -100.)):
                    for extra in (0., 0.5) if d0 == (0., 0.) or tier == 'thorough' else (0.,):
                        yield {'cfg': cfg, 'dts': hist, 'speed': speed,
                               'dir': [d0[i % 2] for i in range(nl)], 'extra': extra}


def finite_atmo(cfg, cls='AtmoEvolution', seed=3, ppos=(0, 0), **kw):
    import importlib
    mod = {'AtmoEvolution': 'atmo_evolution', 'AtmoEvolutionUpDown': 'atmo_evolution_up_down'}[cls]
    C = getattr(importlib.import_module('specula.processing_objects.' + mod), cls)
    heights, L0, cn2, dim, zen, fov = CONFIGS[cfg]
    return C(simul_params(pixel_pupil=PUP, pixel_pitch=PITCH, zenithAngleInDeg=zen), L0=L0,
             heights=heights, Cn2=cn2, data_dir=cachedir('f%d' % prec()), fov=fov,
             pixel_phasescreens=dim, seed=seed, pupil_position=list(ppos), **kw)


class Position:
    """Where a layer reads its screen: moves with the wind, restarts at the end of the screen."""

    def __init__(self, size, length, extra):
        self.size, self.length, self.extra, self.pos = size, length, extra, 0.0

    def move(self, speed, dt):
        self.pos += speed * dt / PITCH
        off = speed * self.extra / PITCH
        if self.pos + off + self.size >= self.length:
            self.pos = 0.0
        return self.pos + off


def read(screen, size, x):
    n = int(math.floor(x))
    f = x - n
    return (1 - f) * screen[:size, n:n + size] + f * screen[:size, n + 1:n + 1 + size]


def same_layers(got, refs, t, heights, what):
    if len(got) != len(refs):
        return f'{what}: {len(got)} layers, expected {len(refs)}'
    for i, (l, r) in enumerate(zip(got, refs)):
        if l.generation_time != t:
            return f'{what}, layer {i}: generation_time {l.generation_time} at time {t}'
        if abs(l.height - heights[i]) > 1e-6 * (1 + heights[i]) or l.pixel_pitch != PITCH:
            return f'{what}, layer {i}: height {l.height}, pitch {l.pixel_pitch}'
        if not np.all(l.A == 1):
            return f'{what}, layer {i}: the amplitude is not one'
        if l.phaseInNm.shape != r.shape:
            return f'{what}, layer {i}: shape {l.phaseInNm.shape}, expected {r.shape}'
        if not close(l.phaseInNm, r, max(rtol(), 1e-9) * (50 if prec() else 1)):
            return (f'{what}, layer {i}: the phase is not the screen at the position of the wind '
                    f'(max difference {np.abs(l.phaseInNm - r).max():.4g} nm of {np.abs(r).max():.4g})')
    return None


def run_finite(case, st):
    cfg = case['cfg']
    heights, L0, cn2, dim, zen, fov = CONFIGS[cfg]
    air = 1 / math.cos(math.radians(zen))
    refs = ref_screens(cfg, 3)
    sizes = [layer_size(h, zen, fov) for h in heights]
    at = finite_atmo(cfg, extra_delta_time=case['extra'])
    ins = connect(at, 0.8, case['speed'], case['dir'])
    at.setup()
    pos = [Position(s, dim, case['extra']) for s in sizes]
    t = 0
    for k, dt in enumerate((0.0,) + tuple(case['dts'])):
        t += at.seconds_to_t(dt)
        see = (0.8, 0.0, 1.6, 0.5, 0.9)[k]
        refresh(ins['seeing'], [see], t)
        if not step(at, t):
            return f'not triggered at step {k}'
        exp = [turn(read(s, n, p.move(v, dt)), d) * scale_of(see, air, PITCH)
               for s, n, p, v, d in zip(refs, sizes, pos, case['speed'], case['dir'])]
        st.step()
        st.state(cfg, [round(p.pos, 6) for p in pos], see)
        m = same_layers(at.outputs['layer_list'], exp, t, heights, f'step {k} of {case}')
        if m:
            return m
    st.outcome(cfg, tuple(p.pos == 0 for p in pos))
    return None


def gen_wind(tier):
    """Wind that changes during the run; position of the pupil; per-layer offsets."""
    n = 4 if tier == 'thorough' else 3
    for ws in itertools.product((0.0, 1.3, 4.2), repeat=n):
        for wd in itertools.product((0., 90., 250.), repeat=n) if tier == 'thorough' \
                else ((0.,) * n, (90., 0., 250.)):
            for ppos in ((0, 0), (1.5, 2.), (-3., 0.)):
                yield {'ws': ws, 'wd': wd, 'ppos': ppos, 'extra': (0.1, 0.6)}


def run_wind(case, st):
    cfg = 'two'
    heights, L0, cn2, dim, zen, fov = CONFIGS[cfg]
    refs = ref_screens(cfg, 5, case['ppos'])
    sizes = [layer_size(h, zen, fov, case['ppos']) for h in heights]
    at = finite_atmo(cfg, seed=5, ppos=case['ppos'], extra_delta_time=list(case['extra']))
    ins = connect(at, 1.0, [0., 0.], [0., 0.])
    at.setup()
    pos = [Position(s, dim, e) for s, e in zip(sizes, case['extra'])]
    t = 0
    for k, (v, d) in enumerate(zip(case['ws'], case['wd'])):
        t = at.seconds_to_t(0.3 * k)
        refresh(ins['wind_speed'], [v, 1.7 * v], t)
        refresh(ins['wind_direction'], [d, 90. - d], t)
        if not step(at, t):
            return f'not triggered at step {k}'
        exp = [turn(read(s, n, p.move(vv, 0.3 if k else 0.)), dd) * scale_of(1.0, 1., PITCH)
               for s, n, p, vv, dd in zip(refs, sizes, pos, (v, 1.7 * v), (d, 90. - d))]
        st.step()
        st.state([round(p.pos, 6) for p in pos], d)
        m = same_layers(at.outputs['layer_list'], exp, t, heights, f'step {k} of {case}')
        if m:
            return m
    return None


def gen_updown(tier):
    vals = ([0., 0.], [0.5, 0.5], [0.9, 0.2], [0.2, 0.9])
    for dn, up in itertools.product(vals, repeat=2):
        for ws in ((1.3, 4.2), (6.1, 2.2)):
            for dts in itertools.product((0.25, 0.5), repeat=4 if tier == 'thorough' else 3):
                yield {'down': dn, 'up': up, 'ws': ws, 'dts': dts}


def run_updown(case, st):
    cfg = 'two'
    heights, L0, cn2, dim, zen, fov = CONFIGS[cfg]
    refs = ref_screens(cfg, 3)
    sizes = [layer_size(h, zen, fov) for h in heights]
    at = finite_atmo(cfg, cls='AtmoEvolutionUpDown', extra_delta_time_down=case['down'],
                     extra_delta_time_up=case['up'])
    connect(at, 1.0, case['ws'], [0., 90.])
    at.setup()
    pos = {k: [Position(s, dim, e) for s, e in zip(sizes, case[k])] for k in ('down', 'up')}
    t = 0
    for k, dt in enumerate((0.0,) + tuple(case['dts'])):
        t += at.seconds_to_t(dt)
        at.inputs['seeing'].get(-1).generation_time = t
        if not step(at, t):
            return f'not triggered at step {k}'
        for way in ('down', 'up'):
            exp = [turn(read(s, n, p.move(v, dt)), d) * scale_of(1.0, 1., PITCH)
                   for s, n, p, v, d in zip(refs, sizes, pos[way], case['ws'], (0., 90.))]
            st.step()
            st.state(way, [round(p.pos, 6) for p in pos[way]])
            m = same_layers(at.outputs['layer_list_' + way], exp, t, heights,
                            f'{way} list, step {k} of {case}')
            if m:
                return m
    return None


# ------------------------------------------------------------------ screen cache
def gen_cache(tier):
    """All histories of constructions that share a directory."""
    items = [(0.5, 25., 1, 32), (0.5, 25.3, 1, 32), (0.5002, 25., 1, 32), (0.5, 25., 2, 32),
             (0.5, 25., 1, 64), (0.5, 25.00001, 1, 32)]
    n = 4 if tier == 'thorough' else 3
    for h in itertools.product(range(len(items)), repeat=n):
        yield {'items': [items[i] for i in h]}


def run_cache(case, st):
    from specula.lib.phasescreen_manager import phasescreens_manager
    d = cachedir('c%d' % prec(), clear=True)
    for k, (pitch, L0, seed, dim) in enumerate(case['items']):
        got = phasescreens_manager(np.array([L0]), dim, pitch, d, xp=np, precision=prec(),
                                   seed=np.array([seed, seed + 1]))
        st.step()
        st.state(sorted(os.path.basename(f) for f in glob.glob(d + '/*')))
        for j in range(2):
            ref = raw_screen(L0, dim, pitch, seed + j)
            if not close(np.asarray(got[j], dtype=float), ref, 1e-5 if prec() else 1e-13):
                return (f'screen {k} of the history {case["items"]} (seed {seed + j}) is not the one '
                        f'of its own parameters')
            got[j] *= 2     # what a user does with a screen must not reach the cache
    return None


def gen_repeat(tier):
    for cfg in CONFIGS:
        for cls in ('AtmoEvolution', 'AtmoRandomPhase'):
            yield {'cfg': cfg, 'cls': cls}


def run_repeat(case, st):
    """The same parameters give the same turbulence, with an empty and with a filled cache, and
    whatever other objects do in between."""
    def build(d):
        if case['cls'] == 'AtmoEvolution':
            from specula.processing_objects.atmo_evolution import AtmoEvolution
            heights, L0, cn2, dim, zen, fov = CONFIGS[case['cfg']]
            return AtmoEvolution(simul_params(pixel_pupil=PUP, pixel_pitch=PITCH, zenithAngleInDeg=zen),
                                 L0=L0, heights=heights, Cn2=cn2, data_dir=d, fov=fov,
                                 pixel_phasescreens=dim, seed=2)
        from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
        return AtmoRandomPhase(simul_params(pixel_pupil=PUP, pixel_pitch=PITCH), L0=25., data_dir=d,
                               pixel_phasescreens=32, seed=2)
    d = cachedir('r%d' % prec(), clear=True)
    first = build(d)
    keep = [np.array(p, dtype=float) for p in first.phasescreens]
    for k in range(3):
        np.random.seed(k)
        np.random.random(5)
        other = build(d)
        st.step()
        for a, b in zip(keep, other.phasescreens):
            if not np.array_equal(a, np.asarray(b, dtype=float)):
                return f'{case}: construction {k + 1} gives other screens than the first'
        for a, b in zip(keep, first.phasescreens):
            if not np.array_equal(a, np.asarray(b, dtype=float)):
                return f'{case}: construction {k + 1} changed the screens of the first'
        for p in other.phasescreens:
            p *= 0
    st.state(case['cfg'], case['cls'])
    return None


# ------------------------------------------------------------------ infinite screens
def memoise():
    """Remember the matrices of the stencils (pure function of positions, r0 and L0)."""
    from specula.data_objects.infinite_phase_screen import InfinitePhaseScreen as I
    if getattr(I, '_mc_memo', None) is None:
        I._mc_memo = {}
        plain = I.AB_from_positions

        def AB(self, positions):
            key = (positions.shape, positions.tobytes(), float(self.r0), float(self.L0), self.precision)
            if key not in I._mc_memo:
                I._mc_memo[key] = plain(self, positions)
            a, b = I._mc_memo[key]
            return a.copy(), b.copy()
        I.AB_from_positions = AB


_first = {}


def first_screen(size, r0, L0, seed):
    """A fresh infinite screen: its initial content."""
    from specula.data_objects.infinite_phase_screen import InfinitePhaseScreen
    key = (size, r0, L0, seed, prec())
    if key not in _first:
        s = InfinitePhaseScreen(size, PITCH, r0, L0, random_seed=seed)
        _first[key] = np.array(s.full_scrn, dtype=float)
    return _first[key]


INF = {
    'one': ([0.], 25., [1.], 0., 0.),
    'two': ([0., 3000.], [25., 10.], [0.25, 0.75], 30., 40.),
}


def infinite_atmo(cfg, cls='AtmoInfiniteEvolution', **kw):
    import importlib
    memoise()
    mod = {'AtmoInfiniteEvolution': 'atmo_infinite_evolution',
           'AtmoInfiniteEvolutionUpDown': 'atmo_infinite_evolution_up_down'}[cls]
    C = getattr(importlib.import_module('specula.processing_objects.' + mod), cls)
    heights, L0, cn2, zen, fov = INF[cfg]
    at = C(simul_params(pixel_pupil=PUP, pixel_pitch=PITCH, zenithAngleInDeg=zen), L0=L0,
           heights=heights, Cn2=cn2, fov=fov, seed=4, **kw)
    air = 1 / math.cos(math.radians(zen))
    r0 = 0.9759 * 0.5 / 4.848 * air ** (-0.6)
    L0s = L0 if isinstance(L0, list) else [L0] * len(heights)
    raws = [first_screen(layer_size(h, zen, fov), at.ref_r0, L0s[i], 4 + i)
            for i, h in enumerate(heights)]
    return at, raws, r0


def part(raw, n, y, x):
    """raw moved by (y, x): value and whether it comes from the initial screen."""
    i0, j0 = int(math.floor(y)), int(math.floor(x))
    fy, fx = y - i0, x - j0
    out = np.zeros((n, n))
    known = np.ones((n, n), bool)
    for i in range(n):
        for j in range(n):
            v = 0.0
            for di, wy in ((0, 1 - fy), (1, fy)):
                for dj, wx in ((0, 1 - fx), (1, fx)):
                    if wy * wx < 3e-4:
                        continue
                    a, b = i + i0 + di, j + j0 + dj
                    if a < 0 or b < 0:
                        known[i, j] = False
                    else:
                        v += wy * wx * raw[a, b]
            out[i, j] = v
    return out, known


def same_infinite(layers, raws, pos, t, seeing, cfg, what):
    heights, L0, cn2, zen, fov = INF[cfg]
    for i, (l, raw) in enumerate(zip(layers, raws)):
        n = layer_size(heights[i], zen, fov)
        if l.generation_time != t or not np.all(l.A == 1) or l.phaseInNm.shape != (n, n):
            return f'{what}, layer {i}: time {l.generation_time}, shape {l.phaseInNm.shape} or amplitude'
        exp, known = part(raw, n, *pos[i])
        k = (seeing ** (5. / 6.) if seeing > 0 else 0.0) * 500. / (2 * math.pi) * math.sqrt(cn2[i])
        scale = max(np.abs(raw[:n, :n]).max() * k, 1e-9)
        err = np.abs(l.phaseInNm - exp * k)[known]
        if not np.all(np.isfinite(l.phaseInNm)):
            return f'{what}, layer {i}: phase not finite'
        if err.size and err.max() > scale * (2e-3 if prec() else 1.5e-3):
            return (f'{what}, layer {i}: the phase is not the screen moved by {pos[i]} pixels '
                    f'(max difference {err.max():.4g} of {scale:.4g})')
    return None


def gen_infinite(tier):
    dirs = (0., 45., 90., 135., 180., 225., 270., 315., 30.)
    speeds = (0.9, 3.3) if tier != 'thorough' else (0.9, 2.0, 3.3, 7.7)
    for cfg in INF:
        for d, v in itertools.product(dirs, speeds):
            for dts in itertools.product((0.25, 0.4), repeat=3):
                for extra in (0., 0.7):
                    yield {'cfg': cfg, 'dir': d, 'speed': v, 'dts': dts, 'extra': extra}


def run_infinite(case, st):
    cfg = case['cfg']
    heights = INF[cfg][0]
    nl = len(heights)
    at, raws, _ = infinite_atmo(cfg, extra_delta_time=case['extra'])
    speed = [case['speed'] + 0.4 * i for i in range(nl)]
    wdir = [case['dir'] + 40. * i for i in range(nl)]
    ins = connect(at, 1.0, speed, wdir)
    at.setup()
    t, el = 0, 0.0
    for k, dt in enumerate((0.0,) + tuple(case['dts'])):
        t += at.seconds_to_t(dt)
        el += dt
        see = (1.0, 0.6, 0.0, 1.4)[k]
        refresh(ins['seeing'], [see], t)
        if not step(at, t):
            return f'not triggered at step {k}'
        pos = []
        for v, d in zip(speed, wdir):
            m = v * (el + case['extra']) / PITCH
            pos.append((m * math.sin(math.radians(d)), m * math.cos(math.radians(d))))
        st.step()
        st.state(cfg, [(round(a, 5), round(b, 5)) for a, b in pos], see)
        m = same_infinite(at.outputs['layer_list'], raws, pos, t, see, cfg, f'step {k} of {case}')
        if m:
            return m
    st.outcome(cfg, case['dir'] % 90 == 0)
    return None


def gen_partition(tier):
    """All ways to cut the same time in steps."""
    tot = 6 if tier == 'thorough' else 5
    for d in (0., 90., 180., 270.):
        for v in (1.0, 0.6, 3.7):
            yield {'dir': d, 'speed': v, 'units': tot}


def compositions(n):
    if n == 0:
        yield ()
        return
    for a in range(1, n + 1):
        for rest in compositions(n - a):
            yield (a,) + rest


def run_partition(case, st):
    """With a wind along an axis the screens reached at a time do not depend on the steps taken."""
    ref = {}
    for comp in compositions(case['units']):
        at, _, _ = infinite_atmo('one')
        connect(at, 1.0, [case['speed']], [case['dir']])
        at.setup()
        u = 0
        for k, c in enumerate((0,) + comp):
            u += c
            t = at.seconds_to_t(0.25) * u
            at.inputs['seeing'].get(-1).generation_time = t
            if not step(at, t):
                return f'not triggered at {u}'
            got = np.array(at.outputs['layer_list'][0].phaseInNm, dtype=float)
            st.step()
            st.state(u, got)
            if u in ref and not close(got, ref[u], 1e-6 if prec() == 0 else 1e-3):
                return (f'{case}: the screen at time {u} depends on the steps taken ({comp}): '
                        f'max difference {np.abs(got - ref[u]).max():.4g}')
            ref.setdefault(u, got)
    return None


def gen_infupdown(tier):
    vals = ([0., 0.], [0.5, 0.5], [0.9, 0.5], [0.2, 0.9], [1.0, 0.0])
    for dn, up in itertools.product(vals, repeat=2):
        if not (all(a <= b for a, b in zip(dn, up)) or all(a >= b for a, b in zip(dn, up))):
            continue
        for d in (0., 90., 30., 180.):
            for dts in itertools.product((0.25, 0.4), repeat=4 if tier == 'thorough' else 3):
                yield {'down': dn, 'up': up, 'dir': d, 'dts': dts}


def run_infupdown(case, st):
    cfg = 'two'
    at, raws, _ = infinite_atmo(cfg, cls='AtmoInfiniteEvolutionUpDown',
                                extra_delta_time_down=case['down'], extra_delta_time_up=case['up'])
    speed, wdir = [1.3, 2.9], [case['dir'], case['dir'] + 45.]
    connect(at, 1.0, speed, wdir)
    at.setup()
    t, el = 0, 0.0
    for k, dt in enumerate((0.0,) + tuple(case['dts'])):
        t += at.seconds_to_t(dt)
        el += dt
        at.inputs['seeing'].get(-1).generation_time = t
        if not step(at, t):
            return f'not triggered at step {k}'
        for way in ('down', 'up'):
            pos = []
            for i, (v, d) in enumerate(zip(speed, wdir)):
                m = v * (el + case[way][i]) / PITCH
                pos.append((m * math.sin(math.radians(d)), m * math.cos(math.radians(d))))
            st.step()
            st.state(way, [(round(a, 5), round(b, 5)) for a, b in pos])
            m = same_infinite(at.outputs['layer_list_' + way], raws, pos, t, 1.0, cfg,
                              f'{way} list, step {k} of {case}')
            if m:
                return m
    return None


# ------------------------------------------------------------------ random phase, cube
def gen_random(tier):
    for interval in (1, 2, 3):
        for dim, pup in ((16, 8), (32, 8), (16, 6)):
            for src in (None, 1, 2):
                yield {'interval': interval, 'dim': dim, 'pup': pup, 'src': src,
                       'n': 40 if tier == 'thorough' else 16}


def run_random(case, st):
    from specula.data_objects.pupilstop import Pupilstop
    from specula.data_objects.source import Source
    from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
    sp = simul_params(pixel_pupil=case['pup'], pixel_pitch=PITCH, zenithAngleInDeg=30.)
    kw = {}
    names = ['out']
    if case['src']:
        kw['source_dict'] = {f's{i}': Source([1. * i, 0.], 8., 750.) for i in range(case['src'])}
        names = ['out_' + k for k in kw['source_dict']]
    o = AtmoRandomPhase(sp, L0=25., data_dir=cachedir('p%d' % prec()), wavelengthInNm=750., seed=2,
                        pixel_phasescreens=case['dim'], update_interval=case['interval'], **kw)
    mask = (np.arange(case['pup'] ** 2).reshape(case['pup'], -1) % 5 != 0) * 1.0
    ps = Pupilstop(sp, input_mask=mask)
    see = const(o, 'seeing', [1.0])
    o.inputs['pupilstop'].set(ps)
    o.setup()
    n = case['dim'] // case['pup']
    for k in range(case['n']):
        t = o.seconds_to_t(0.001) * k
        s = (1.0, 0.5)[k % 2]
        refresh(see, [s], t)
        if not step(o, t):
            return f'not triggered at step {k}'
        which = k // case['interval']
        raw = raw_screen(25., case['dim'], PITCH, 2 + which // (n * n))
        a, b = divmod(which % (n * n), n)
        p = case['pup']
        air = 1 / math.cos(math.radians(30.))
        r0 = 0.9759 * 0.5 / (s * 4.848) * air ** (-0.6) * (750. / 500) ** 1.2
        exp = raw[a * p:(a + 1) * p, b * p:(b + 1) * p] * 750. / (2 * math.pi) * (PITCH / r0) ** (5. / 6)
        st.step()
        st.state(case['dim'], which)
        for nm in names:
            for kind in ('_layer', '_ef'):
                q = o.outputs[nm + kind]
                if q.generation_time != t or not np.array_equal(q.A, mask) or \
                        not close(q.phaseInNm, exp, max(rtol(), 1e-6)):
                    return f'{case}: {nm + kind} at step {k} is not screen {which} of the sequence'
    return None


def gen_cube(tier):
    vecs = ([0., 0.001, 0.002, 0.003], [0., 0.002, 0.003], [0., 0.0005, 0.004], [0., 0.003])
    for tv in vecs:
        for n, m in ((4, 4), (8, 4)):
            for scale in (1.0, 2.5):
                for axis in (0, -1):
                    yield {'tv': tv, 'n': n, 'pup': m, 'scale': scale, 'axis': axis}


def run_cube(case, st):
    from specula.data_objects.pupilstop import Pupilstop
    from specula.data_objects.spatio_temp_array import SpatioTempArray
    from specula.processing_objects.phase_screen_cube import PhaseScreenCube
    tv = np.array(case['tv'])
    n, p = case['n'], case['pup']
    data = (np.arange(len(tv) * n * n).reshape(len(tv), n, n) * 7 % 23) * 10.0
    if n != p:      # smooth in space: only the time interpolation is of interest
        data[:] = data[:, :1, :1]
    sp = simul_params(pixel_pupil=p, pixel_pitch=PITCH)
    cube = SpatioTempArray(data if case['axis'] == 0 else np.moveaxis(data, 0, -1), tv,
                           time_axis=case['axis'])
    o = PhaseScreenCube(sp, cube, pixel_scale=PITCH * p / n, scale_factor=case['scale'])
    mask = (np.arange(p * p).reshape(p, -1) % 3 != 0) * 1.0
    ps = Pupilstop(sp, input_mask=mask)
    o.inputs['pupilstop'].set(ps)
    o.setup()
    for k in range(9):
        s = 0.0005 * k
        t = o.seconds_to_t(s)
        ps.generation_time = t
        if s > tv[-1] + 1e-9:
            try:
                step(o, t)
            except ValueError:
                st.outcome('end')
                continue
            return f'{case}: no error at {s} s, after the end of the cube'
        if not step(o, t):
            return f'not triggered at step {k}'
        exp = np.array([[np.interp(s, tv, data[:, i, j]) for j in range(n)] for i in range(n)])
        exp = exp[:p, :p] * case['scale']
        st.step()
        st.state(s, exp)
        for nm in ('out_layer', 'out_ef'):
            q = o.outputs[nm]
            if q.generation_time != t or not np.array_equal(q.A, mask) or \
                    not close(q.phaseInNm, exp, 1e-4 if prec() else 1e-6):
                return f'{case}: {nm} at {s} s is not the cube interpolated in time'
    return None


FAMILIES = [
    Family('finite', gen_finite, run_finite, precisions=(0, 1), weight=4,
           what='finite screens: all histories of time steps for every layer configuration, wind and offset'),
    Family('wind', gen_wind, run_wind, what='all histories of wind speed and direction'),
    Family('updown', gen_updown, run_updown, weight=2,
           what='up and down lists of finite screens: all pairs of offsets and step histories'),
    Family('cache', gen_cache, run_cache, precisions=(0, 1), what='all histories of a shared screen cache'),
    Family('repeat', gen_repeat, run_repeat, precisions=(0, 1), what='same parameters, same screens'),
    Family('infinite', gen_infinite, run_infinite, precisions=(0, 1), weight=3,
           what='infinite screens: all directions, speeds, offsets and step histories'),
    Family('partition', gen_partition, run_partition, weight=2,
           what='infinite screens: all partitions of the same time in steps'),
    Family('infupdown', gen_infupdown, run_infupdown, weight=3,
           what='up and down lists of infinite screens: all pairs of offsets and step histories'),
    Family('random', gen_random, run_random, precisions=(0, 1), what='random phases: sequence of screens'),
    Family('cube', gen_cube, run_cube, precisions=(0, 1), what='screen cubes: interpolation in time'),
]
