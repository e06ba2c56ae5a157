"""P26: mode bases, influence functions, the mirror they shape and the analysis that reads it."""
import itertools
import math

import numpy as np

from mc.core import Family
from mc.harness import step, simul_params

RULE = ('every configuration (grid, obscuration, mask, geometry, number of modes, selection of '
        'modes, command matrix) up to the stated bounds builds the real mode bases and influence '
        'functions, which are compared with the formulas of their definition; every history of '
        'commands drives the real mirror, and its shapes go through the real analysis')
ASSUMPTIONS = ['grids of 6-17 pixels, at most 36 actuators (geometry alone: 241), 36 polynomials',
               'influence functions through the thin plate spline without singular system',
               'CPU, one process']
MS = 1_000_000


class quiet:
    def __enter__(self):
        import io
        import sys
        self.old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.old


# ---------------------------------------------------------------- polynomials
def noll(j):
    """Radial order and azimuthal frequency of polynomial j (from 1), by counting."""
    k = 1
    for n in range(100):
        ms = sorted(abs(m) for m in range(-n, n + 1, 2))
        if j < k + len(ms):
            return n, ms[j - k]
        k += len(ms)


def poly(j):
    """{(a, b): c}: polynomial j as sum of c x^a y^b."""
    n, m = noll(j)
    # (x + iy)^m
    ang = {}
    for k in range(m + 1):
        re, im = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}[k % 4]
        c = math.comb(m, k) * (re if j % 2 == 0 or m == 0 else im)
        if c:
            ang[m - k, k] = c
    out = {}
    norm = math.sqrt(n + 1) * (1 if m == 0 else math.sqrt(2))
    for s in range((n - m) // 2 + 1):
        c = ((-1) ** s * math.factorial(n - s)
             / (math.factorial(s) * math.factorial((n + m) // 2 - s)
                * math.factorial((n - m) // 2 - s)))
        p = (n - m) // 2 - s                        # times (x^2+y^2)^p
        for q in range(p + 1):
            for (a, b), v in ang.items():
                key = (a + 2 * (p - q), b + 2 * q)
                out[key] = out.get(key, 0) + norm * c * math.comb(p, q) * v
    return out


def deriv(p, axis):
    out = {}
    for (a, b), c in p.items():
        if axis == 0 and a:
            out[a - 1, b] = out.get((a - 1, b), 0) + a * c
        if axis == 1 and b:
            out[a, b - 1] = out.get((a, b - 1), 0) + b * c
    return out


def evaluate(p, x, y):
    z = np.zeros(np.broadcast(x, y).shape)
    for (a, b), c in p.items():
        z = z + c * x ** a * y ** b
    return z


def run_poly(case, st):
    from specula.lib.zernike_generator import ZernikeGenerator
    from specula.lib.mask import CircularMask
    if 'mask' in case:
        shape, c, r = case['mask']
        zg = ZernikeGenerator(CircularMask(tuple(shape), maskRadius=r, maskCenter=tuple(c)),
                              xp=np, dtype=np.float64)
        sy, sx = shape
        cy, cx = c
    else:
        d = case['d']
        zg = ZernikeGenerator(d, xp=np, dtype=np.float64)
        sy = sx = math.ceil(d)
        cy = cx = sy / 2
        r = d / 2
    y, x = np.mgrid[0:sy, 0:sx]
    y = (y + 0.5 - cy) / r
    x = (x + 0.5 - cx) / r
    rho = np.hypot(x, y)
    sure = np.abs(rho - 1) > 1e-6                    # not on the border
    inside = (rho < 1)
    order = range(1, case['n'] + 1)
    if case['rev']:
        order = order[::-1]
    for j in order:
        p = poly(j)
        got = {'value': zg.getZernike(j), 'x derivative': zg.getDerivativeX(j),
               'y derivative': zg.getDerivativeY(j)}
        want = {'value': p, 'x derivative': deriv(p, 0), 'y derivative': deriv(p, 1)}
        if case['rev']:
            got['value again'], want['value again'] = zg[j], p
        for k in got:
            w = np.where(inside, evaluate(want[k], x, y), 0)
            g = np.asarray(got[k])
            st.step()
            if g.shape != w.shape:
                return f'polynomial {j}: {k} has shape {g.shape}'
            if np.max(np.abs(g - w)[sure], initial=0) > 1e-8 * max(1, np.max(np.abs(w))):
                return f'polynomial {j}: {k} is wrong by {np.max(np.abs(g - w)[sure])}'
    st.state(case)


def gen_poly(tier):
    for n in (36,) if tier == 'quick' else (36, 66):
        for rev in (False, True):
            for d in (1, 2, 3, 4, 5, 6.5, 8, 9, 12, 15.3, 16):
                yield {'d': d, 'n': n, 'rev': rev}
            for shape in ((8, 8), (9, 6), (5, 12)):
                for c in ((4, 4), (3.5, 2.25), (2, 6)):
                    for r in (2, 3.3, 5):
                        yield {'mask': [shape, c, r], 'n': n, 'rev': rev}


# ---------------------------------------------------------------- Zernike influence functions
def masks(name, d):
    y, x = np.mgrid[0:d, 0:d]
    if name == 'full':
        return np.ones((d, d))
    if name == 'half':
        return (x < d / 2 + 1).astype(float)
    if name == 'cut':
        m = (np.hypot(x - d / 2 + 0.5, y - d / 2 + 0.5) < d / 2).astype(float)
        m[:2] = 0
        m[d // 2, d // 2 - 1] = 0
        return m
    if name == 'grey':
        return np.where((x + y) % 3 == 0, 0.5, 1.0) * (np.abs(x - y) < d - 3)
    raise ValueError(name)


def reversed_signs(p):
    """Which vectors change sign in a Householder factorisation (or may, by rounding)."""
    a = p.T.copy()
    out = []
    for k in range(a.shape[1]):
        x = a[k:, k]
        norm = np.linalg.norm(x)
        out.append(x[0] > -1e-9 * norm)
        v = x.copy()
        v[0] += norm if np.linalg.qr(a[k:, k:k + 1])[1][0, 0] < 0 else -norm
        if v @ v > 0:
            a[k:] -= np.outer(2 * v / (v @ v), v @ a[k:])
    return out


def run_zern(case, st):
    from specula.data_objects.ifunc import IFunc
    from specula.lib.make_mask import make_mask
    d, n = case['d'], case['n']
    kw = {}
    if case['mask'] is not None:
        kw['mask'] = masks(case['mask'], d)
        want_mask = (kw['mask'] > 0).astype(float)
    else:
        kw.update(obsratio=case['obs'], diaratio=case['dia'])
        want_mask = np.asarray(make_mask(d, case['obs'], case['dia'], xp=np))
    i = IFunc(type_str=case['type'], npixels=d, nmodes=n, **kw)
    z = np.asarray(i.influence_function)
    if not np.array_equal(np.asarray(i.mask_inf_func), want_mask):
        return 'the mask is not the requested one'
    idx = np.where(want_mask)
    if z.shape != (n, len(idx[0])):
        return f'{z.shape} for {n} modes and {len(idx[0])} pixels'
    y, x = np.mgrid[0:d, 0:d]
    x, y = [(v + 0.5 - d / 2) / (d / 2) for v in (x, y)]
    inside = np.hypot(x, y) <= 1 + 1e-9
    p = np.array([(evaluate(poly(j), x, y) * inside)[idx] for j in range(2, n + 2)])
    if np.linalg.matrix_rank(np.vstack([np.ones(p.shape[1]), p]), tol=1e-6) < n + 1:
        st.outcome('degenerate')
        return None                                 # not a basis on this grid
    st.step(n)
    st.state(z)
    if np.max(np.abs(z.mean(1))) > 1e-9:
        return f'modes with piston {z.mean(1)}'
    if np.max(np.abs(z.std(1) - 1)) > 1e-9:
        return f'modes with rms {z.std(1)}'
    flips = reversed_signs(p)                       # those of the known finding zern_sign
    finding = None
    for k in range(n):
        # mode k is made of the first k polynomials and piston
        b = np.vstack([np.ones(p.shape[1]), p[:k + 1]]).T
        r = z[k] - b @ np.linalg.lstsq(b, z[k], rcond=None)[0]
        if np.max(np.abs(r)) > 1e-6:
            return f'mode {k} is not a combination of the first {k + 1} polynomials'
        # orthogonal to the previous polynomials, up to piston: what is left of polynomial k
        q = np.linalg.lstsq(p[:k].T, p[k], rcond=None)[0] if k else np.zeros(0)
        w = p[k] - q @ p[:k]
        w = w - w.mean()
        if w.std() < 1e-6:
            continue
        if flips[k] and np.max(np.abs(z[k] + w / w.std())) <= 1e-5:
            finding = finding or ('zern_sign', f'mode {k} has the sign of its polynomial changed')
        elif np.max(np.abs(z[k] - w / w.std())) > 1e-5:
            return (f'mode {k} is not the polynomial less the previous ones '
                    f'(correlation {np.corrcoef(z[k], w)[0, 1]:.3f})')
    # cut to a part of the modes
    i2 = IFunc(type_str=case['type'], npixels=d, nmodes=n, **kw)
    i2.cut(idx_modes=[n - 1, 0])
    if not np.array_equal(np.asarray(i2.influence_function), z[[n - 1, 0]]):
        return 'cut does not keep the modes asked'
    cube = np.asarray(i.ifunc_2d_to_3d(normalize=case['type'] == 'zern'))
    if cube.shape != (d, d, n) or not np.allclose(cube[idx].T, z, atol=1e-9) \
            or np.any(cube[want_mask == 0]):
        return 'the cube of the modes does not hold them'
    inv = np.asarray(i.inverse().ifunc_inv)
    if inv.shape != z.T.shape or np.max(np.abs(z @ inv - np.eye(n))) > 1e-6:
        return 'the inverse is not one'
    return finding


def gen_zern(tier):
    for d in (6, 7, 8, 9, 10, 12, 13, 16, 17) if tier == 'quick' else range(4, 26):
        for n in (2, 3, 5, 9, 14):
            for t in ('zern', 'Zernike'):
                for obs, dia in ((0.0, 1.0), (0.3, 1.0), (0.0, 0.7), (0.2, 0.8), (None, None)):
                    yield {'d': d, 'n': n, 'type': t, 'mask': None, 'obs': obs, 'dia': dia}
                for m in ('full', 'half', 'cut', 'grey'):
                    yield {'d': d, 'n': n, 'type': t, 'mask': m}


# ---------------------------------------------------------------- zonal influence functions
def coordinates(geom, d, n, angle):
    c = (d - 1) / 2
    if geom == 'circular':
        rings = n // 2 + 1 if n % 2 == 0 else (n + 1) // 2
        stp = (d - 1) / (2 * rings - 2)
        pts = [(c, c)]
        for k in range(1, rings):
            for j in range(6 * k):
                a = math.radians(60 * j / k + angle)
                pts.append((c + k * stp * math.cos(a), c + k * stp * math.sin(a)))
        return np.array(pts).T, stp
    stp = (d - 1) / (n - 1)
    pts = [(i * stp, j * stp) for j in range(n) for i in range(n)]
    if geom == 'alpao':
        r = (d - 1) * (9 / 8 - n / 384) / 2
        pts = [(a, b) for a, b in pts if math.hypot(a - c, b - c) <= r]
    return np.array(pts).T, stp


def tps(r):
    with np.errstate(divide='ignore', invalid='ignore'):
        return np.where(r > 0, r ** 2 * np.log(np.where(r > 0, r, 1)), 0)


def slave_weights(xy, master, slave, stp, kind):
    w = np.zeros((len(master), len(slave)))
    if kind == 'near':
        for j, s in enumerate(slave):
            near = [i for i, m in enumerate(master)
                    if math.dist(xy[:, m], xy[:, s]) <= 1.1 * stp]
            for i in near:
                w[i, j] = 1 / len(near)
        return w
    c = xy.mean(1)
    for j, s in enumerate(slave):
        d = [math.dist(xy[:, m], xy[:, s]) for m in master]
        near = [i for i in range(len(master)) if d[i] <= 2.5 * stp]
        if len(near) < 3:
            near = list(np.argsort(d)[:3])
        a = np.array([[*xy[:, master[i]], 1] for i in near])
        p = np.array([*xy[:, s], 1])
        if kind == 'edge':
            v = xy[:, s] - c
            v = v / np.hypot(*v) if np.hypot(*v) > 1e-10 else np.array([1.0, 0.0])
            a = np.vstack([a, 0.7 * np.array([*(xy[:, s] + stp * v), 1])])
        if np.linalg.matrix_rank(a, tol=1e-6) < 3:
            return None
        w[near, j] = (np.linalg.pinv(a).T @ p)[:len(near)]
    return w


def run_zonal(case, st):
    from specula.lib.compute_zonal_ifunc import compute_zonal_ifunc
    from specula.lib.make_mask import make_mask
    d, n, geom = case['d'], case['n'], case['geom']
    kw = {'angle_offset': case['angle'], 'do_mech_coupling': case['coup'],
          'coupling_coeffs': [0.4, 0.07], 'do_slaving': case['slave'] is not None,
          'slaving_thr': case['thr'], 'linear_slaving': case['slave'] in ('linear', 'edge'),
          'edge_constraint_weight': 0.7 if case['slave'] == 'edge' else 0.0}
    if geom == 'circular' and case.get('old', True):
        kw['circ_geom'] = True
    elif geom != 'square' or not case.get('old', True):
        kw['geom'] = geom
    if case['mask']:
        kw['mask'] = masks(case['mask'], d)
        mask = kw['mask']
    else:
        kw.update(obsratio=0.25, diaratio=0.9)
        mask = np.asarray(make_mask(d, 0.25, 0.9, xp=np))
    idx = np.where(mask)
    xy, stp = coordinates(geom, d, n, case['angle'] if geom == 'circular' else 0)
    m = xy.shape[1]
    dist = np.hypot(xy[0][:, None] - xy[0], xy[1][:, None] - xy[1])
    a = tps(dist)
    if np.linalg.cond(a) > 1e7:
        st.outcome('singular')
        return None
    gy, gx = np.mgrid[0:d, 0:d]
    ifs = np.linalg.solve(a, tps(np.hypot(gx.ravel()[None] - xy[0][:, None],
                                          gy.ravel()[None] - xy[1][:, None])))
    if case['coup']:
        k = np.where(dist < stp / 1e4, 1, np.where(dist <= stp * 1.0001, 0.4,
                                                   np.where(dist <= stp * 2.0001, 0.07, 0)))
        ifs = k @ ifs
    w = np.zeros((m, m))
    if case['slave']:
        inside = ifs.reshape(m, d, d)[:, idx[0], idx[1]].max(1)
        ratio = inside / ifs.max(1)
        if np.min(np.abs(ratio - case['thr'])) < 1e-6:
            return None
        master = np.where(ratio >= case['thr'])[0]
        slave = np.where(ratio < case['thr'])[0]
        if not len(master):
            return None
        if len(slave):
            ws = slave_weights(xy, master, slave, stp, case['slave'])
            if ws is None:
                st.outcome('collinear')
                return None
            w[np.ix_(master, slave)] = ws
            ifs = ifs[master] + ws @ ifs[slave]
        xy = xy[:, master]
    with quiet():
        got, gmask, gxy, gw = compute_zonal_ifunc(d, n, xp=np, dtype=np.float64, **kw)
    st.step(m)
    st.state(got)
    want = ifs.reshape(-1, d, d)[:, idx[0], idx[1]]
    if not np.array_equal(np.asarray(gmask) > 0, mask > 0):
        return 'the mask is not the requested one'
    if np.shape(gxy) != xy.shape or np.max(np.abs(gxy - xy)) > 1e-6:
        return f'actuators at {np.asarray(gxy).T.tolist()}, expected {xy.T.tolist()}'
    if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-6:
        return f'influence functions wrong by {np.abs(got - want).max(1) if got.shape == want.shape else got.shape}'
    if np.max(np.abs(gw - w)) > 1e-6:
        return 'wrong slaving matrix'


def gen_zonal(tier):
    for d in (8, 9, 12, 14) if tier == 'quick' else range(7, 18):
        for geom, ns in (('circular', (2, 3, 4, 5)), ('square', (3, 4, 5)), ('alpao', (4, 5, 6))):
            for n in ns:
                for mask in (None, 'full', 'half', 'cut'):
                    for angle in (0, 17.0) if geom == 'circular' else (0, 30.0):
                        base = {'d': d, 'n': n, 'geom': geom, 'mask': mask, 'angle': angle}
                        for coup in (False, True):
                            yield dict(base, coup=coup, slave=None, thr=0.1,
                                       old=n % 2 == 0)
                            for slave in ('near', 'linear', 'edge'):
                                for thr in (0.1, 0.5, 0.93):
                                    yield dict(base, coup=coup, slave=slave, thr=thr)


# ---------------------------------------------------------------- actuators of known mirrors
def run_alpao(case, st):
    from specula.lib import compute_zonal_ifunc as mod
    # the geometry alone: the splines are replaced by flat functions
    old = mod.Rbf
    mod.Rbf = lambda *a, **k: (lambda x, y: np.zeros(np.shape(x)))
    try:
        with quiet():
            _, _, xy, _ = mod.compute_zonal_ifunc(case.get('d', 8), case['n'], xp=np, dtype=np.float64,
                                                  **case['kw'])
    finally:
        mod.Rbf = old
    st.step()
    st.state(xy)
    if xy.shape[1] != case['want']:
        return f'{xy.shape[1]} actuators for {case}'


def gen_alpao(tier):
    for n, want in ((11, 97), (17, 241), (24, 468), (32, 820)):
        for d in (8, 17, 40):
            yield {'n': n, 'd': d, 'kw': {'geom': 'alpao'}, 'want': want}
    for n in range(2, 20):
        r = n // 2 if n % 2 == 0 else (n - 1) // 2
        yield {'n': n, 'kw': {'circ_geom': True}, 'want': 1 + 3 * r * (r + 1)}
        yield {'n': n, 'kw': {'geom': 'circular'}, 'want': 1 + 3 * r * (r + 1)}
        yield {'n': n, 'kw': {}, 'want': n * n}


# ---------------------------------------------------------------- the mirror
PIX = 5
MASK = np.array([[0, 1, 1, 1, 0], [1, 1, 1, 1, 1], [1, 1, 0, 1, 1], [1, 1, 1, 1, 0],
                 [0, 1, 1, 1, 0]], dtype=float)


def some_ifunc(m):
    k = int(MASK.sum())
    a = np.arange(m * k, dtype=float).reshape(m, k)
    return np.cos(a * 1.7) + 0.3 * np.sin(a ** 2 * 0.37)


def some_m2c(r, c):
    return np.array([[(7 * i + 3 * j) % 11 - 4.0 for j in range(c)] for i in range(r)])


def run_dm(case, st):
    from specula.base_value import BaseValue
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.m2c import M2C
    from specula.processing_objects.dm import DM
    m = case['m']
    f = some_ifunc(m)
    ifunc = IFunc(f.copy(), mask=MASK.copy())
    kw = {k: case[k] for k in ('start_mode', 'nmodes', 'idx_modes') if case.get(k) is not None}
    if 'sign' in case:
        kw['sign'] = case['sign']
    mat = None
    if case['m2c']:
        mat = some_m2c(*case['m2c'])
        kw['m2c'] = M2C(mat.copy())
    sp = simul_params(pixel_pupil=PIX, pixel_pitch=0.25)
    dm = DM(sp, height=case['h'], ifunc=ifunc, **kw)
    if case.get('idx_modes') is not None:
        sel = list(case['idx_modes'])
    else:
        last = case.get('nmodes')
        sel = list(range(case.get('start_mode') or 0, m if last is None else last))
        if mat is not None:
            sel = [k for k in sel if k < mat.shape[1]]
    sign = case.get('sign', -1)
    cmd = BaseValue(value=np.zeros(1))
    dm.inputs['in_command'].set(cmd)
    dm.setup()
    out = dm.outputs['out_layer']
    want, when = None, -1
    for k, n in enumerate(case['len']):
        t = k * MS
        if n is not None:
            c = np.array([(k + 2) * (1.5 - j) for j in range(n)])
            cmd.value = c.copy()
            cmd.generation_time = t
            a = np.zeros(len(sel))
            u = min(n, len(sel))
            a[:u] = c[:u]
            if mat is None:
                shape = a @ f[sel]
            else:
                act = mat[:, sel] @ a
                shape = act @ f[:len(act)]
            want = np.zeros((PIX, PIX))
            want[MASK > 0] = sign * shape
            when = t
        fired = step(dm, t)
        st.step()
        if fired != (n is not None):
            return f'step {k}: triggered {fired}'
        if out.generation_time != when:
            return f'step {k}: layer of {out.generation_time}, expected {when}'
        got = np.asarray(out.phaseInNm)
        st.state(got)
        if want is not None and np.max(np.abs(got - want)) > 1e-9 * max(1, np.abs(want).max()):
            return f'step {k}: shape wrong by {np.max(np.abs(got - want))}'
        if n is not None and not np.array_equal(cmd.value, c):
            return f'step {k}: the command was changed'
        if not np.array_equal(np.asarray(out.A), MASK):
            return f'step {k}: amplitude is not the mask'
    if not np.array_equal(np.asarray(ifunc.influence_function), f):
        return 'the influence functions were changed'
    if mat is not None and not np.array_equal(np.asarray(kw['m2c'].m2c), mat):
        return 'the command matrix was changed'
    if out.height != case['h'] or out.pixel_pitch != 0.25:
        return f'layer at {out.height} with pixels of {out.pixel_pitch}'


def gen_dm(tier):
    m = 5
    sels = [{}] + [{'start_mode': s} for s in (0, 1, 4)] + [{'nmodes': n} for n in (1, 3, 5)] \
        + [{'start_mode': s, 'nmodes': n} for s, n in ((1, 3), (2, 5), (0, 4), (4, 5))] \
        + [{'idx_modes': x} for x in ([0], [2, 1], [4, 0, 3], [1, 2, 3, 4, 0], [3])]
    for sel in sels:
        for mat in (None, (5, 5), (5, 3), (4, 3), (3, 5), (1, 4)):
            cols = mat[1] if mat else m
            if sel.get('idx_modes') is not None:
                if mat and max(sel['idx_modes']) >= cols:
                    continue
                n = len(sel['idx_modes'])
            else:
                n = len(range(sel.get('start_mode', 0), min(sel.get('nmodes', m), cols)))
            if n == 0:
                continue
            # vectors longer than the modes are cut (with a matrix: refused, unless nmodes says)
            lens = [None, 1, n] + ([n + 2] if not mat else [])
            if n > 2:
                lens.append(2)
            depth = 3 if tier == 'quick' else 4
            for h in itertools.product(dict.fromkeys(lens), repeat=depth):
                if h[0] is not None:
                    yield dict(sel, m=m, m2c=mat, len=h, h=100.0 * len(h),
                               **({'sign': 1} if len(set(h)) == 2 else {}))


# ---------------------------------------------------------------- the analysis
def run_analysis(case, st):
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.ifunc_inv import IFuncInv
    from specula.data_objects.pupilstop import Pupilstop
    from specula.processing_objects.modal_analysis import ModalAnalysis
    src, n = case['src'], case['n']
    kw = {}
    if src == 'type':
        d = 8
        kw = {'type_str': 'zern', 'npixels': d, 'nmodes': n}
        if case['pup']:
            sp = simul_params(pixel_pupil=d, pixel_pitch=0.25)
            mask = masks(case['pup'], d)
            kw['pupilstop'] = Pupilstop(sp, input_mask=mask)
            f = IFunc(type_str='zern', npixels=d, nmodes=n, mask=mask)
        else:
            kw.update(obsratio=0.2, diaratio=1.0)
            f = IFunc(type_str='zern', npixels=d, nmodes=n, obsratio=0.2, diaratio=1.0)
        mask = np.asarray(f.mask_inf_func)
        modes = np.asarray(f.influence_function)
        inv = np.linalg.pinv(modes)
    else:
        d, mask = PIX, MASK
        m = 4
        modes = some_ifunc(m)
        inv = np.linalg.pinv(modes)
        if n is not None:
            kw['nmodes'] = n
        if src in ('ifunc', 'both'):
            kw['ifunc'] = IFunc(modes.copy(), mask=MASK.copy())
            if n is not None:
                inv = np.linalg.pinv(modes[:n])
        if src in ('inv', 'both'):
            inv = np.linalg.pinv(modes)
            if src == 'both':
                inv = inv + 0.01 * np.cos(np.arange(inv.size).reshape(inv.shape))
            kw['ifunc_inv'] = IFuncInv(inv.copy(), mask=MASK.copy())
            if n is not None:
                inv = inv[:, :n]
    ma = ModalAnalysis(n_inputs=case['k'] or 1, dorms=case['rms'], **kw)
    efs = [ElectricField(d, d, 0.1) for _ in range(case['k'] or 1)]
    if case['k']:
        for e in efs:
            ma.inputs['in_ef_list'].append(e)
    else:
        ma.inputs['in_ef'].set(efs[0])
    ma.setup()
    outs = ma.outputs['out_modes_list'] if case['k'] else [ma.outputs['out_modes']]
    last = None
    for k, kinds in enumerate(case['phases']):
        t = k * MS
        fresh = False
        for e, (ef, kind) in enumerate(zip(efs, itertools.cycle(kinds))):
            if kind == '-':
                continue
            y, x = np.mgrid[0:d, 0:d]
            ph = {'c': np.full((d, d), 40.0 + e), 't': 10.0 * x - 3 * y * (k + 1) + e,
                  'w': 100 * np.cos(3 * x + y * y + k + e)}[kind]
            if kind == 'm':
                pass
            ef.phaseInNm[:] = ph
            ef.generation_time = t
            fresh = True
        fired = step(ma, t)
        st.step()
        if fired != fresh:
            return f'step {k}: triggered {fired}, expected {fresh}'
        if fired:
            last = [np.asarray(e.phaseInNm).copy() for e in efs]
            for e, (ef, o) in enumerate(zip(efs, outs)):
                want = last[e][mask > 0] @ inv
                got = np.asarray(o.value)
                st.state(got)
                if o.generation_time != t:
                    return f'step {k}: modes of {o.generation_time}'
                if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-8 * 100:
                    return f'step {k}: field {e}: modes {got}, expected {want}'
            if case['rms'] and not case['k']:
                r = float(np.asarray(ma.outputs['rms'].value)[0])
                if abs(r - last[0][mask > 0].std()) > 1e-9 or ma.outputs['rms'].generation_time != t:
                    return f'step {k}: rms {r}, expected {last[0][mask > 0].std()}'


def gen_analysis(tier):
    hist = [('t', 'w', 't'), ('w', '-', 'c'), ('t', '-', 'w')]
    hl = [('tw', 'wt', '--'), ('w-', '--', '-t'), ('-t', 'cw', 'w-')]
    for k in (0, 1, 2, 3):
        for rms in (False, True):
            for h in (hist if k < 2 else hl):
                for src, ns in (('ifunc', (None, 1, 3, 4)), ('inv', (None, 1, 3, 4)),
                                ('both', (None, 4))):
                    for n in ns:
                        yield {'src': src, 'n': n, 'k': k, 'rms': rms, 'phases': h}
                for pup in (None, 'full', 'cut', 'half'):
                    for n in (2, 5):
                        yield {'src': 'type', 'n': n, 'k': k, 'rms': rms, 'phases': h, 'pup': pup}


# ---------------------------------------------------------------- mirror, field and analysis
def border_lost(ph, lam):
    """The unwrapped phase with the known finding unwrap_border: no vertical curvature there."""
    n, m = ph.shape
    dx, dy = ((np.diff(ph, axis=a) + lam / 2) % lam - lam / 2 for a in (1, 0))
    rho = np.zeros((n, m))
    rho[:-1] += dy
    rho[1:] -= dy
    rho[:, [0, -1]] = 0
    rho[[0, -1], 0] = dy[[0, -1], 0] * [1, -1]
    rho[[0, -1], -1] = dy[[0, -1], -1] * [1, -1]
    rho[:, :-1] += dx
    rho[:, 1:] -= dx
    idx = np.arange(n * m).reshape(n, m)
    lap = np.zeros((n * m, n * m))
    for a, b in ((idx[:, :-1], idx[:, 1:]), (idx[:-1], idx[1:])):
        for i, j in zip(a.ravel(), b.ravel()):
            lap[i, i] -= 1
            lap[j, j] -= 1
            lap[i, j] += 1
            lap[j, i] += 1
    return (np.linalg.pinv(lap, rcond=1e-9) @ rho.ravel()).reshape(n, m)


def run_loop(case, st):
    """The analysis of a field shaped by a mirror gives the command back; a wrapped phase too."""
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.ifunc import IFunc
    from specula.base_value import BaseValue
    from specula.processing_objects.dm import DM
    from specula.processing_objects.modal_analysis import ModalAnalysis
    d, n, lam = case['d'], case['n'], case['lam']
    f = IFunc(type_str='zern', npixels=d, nmodes=n, mask=masks(case['mask'], d))
    modes = np.asarray(f.influence_function)
    mask = np.asarray(f.mask_inf_func)
    sp = simul_params(pixel_pupil=d, pixel_pitch=0.25)
    dm = DM(sp, height=0, ifunc=f, sign=1)
    ma = ModalAnalysis(ifunc=IFunc(modes.copy(), mask=mask.copy()), wavelengthInNm=lam)
    cmd = BaseValue(value=np.zeros(n))
    dm.inputs['in_command'].set(cmd)
    dm.setup()
    ef = ElectricField(d, d, 0.25)
    ma.inputs['in_ef'].set(ef)
    ma.setup()
    finding = None
    for k, c in enumerate(case['cmd']):
        c = np.array(c, dtype=float)
        cmd.value = c
        cmd.generation_time = k * MS
        step(dm, k * MS)
        ph = np.asarray(dm.outputs['out_layer'].phaseInNm).copy()
        if lam:
            g = max(np.abs(np.diff(ph * mask, axis=0)).max(), np.abs(np.diff(ph * mask, axis=1)).max())
            if g >= lam / 2:
                st.outcome('steep')
                continue
            wrapped = (ph + lam / 2) % lam - lam / 2
            if np.any(np.abs(ph) > lam / 2):
                st.outcome('wrapped')
            ph = wrapped
        ef.phaseInNm[:] = ph
        ef.generation_time = k * MS
        step(ma, k * MS)
        st.step()
        got = np.asarray(ma.outputs['out_modes'].value)
        st.state(got)
        if np.max(np.abs(got - c)) > 1e-6 * max(1, np.max(np.abs(c))):
            msg = f'command {c} read as {got}'
            if lam:
                bad = border_lost(ph * mask, lam)[mask > 0] @ np.linalg.pinv(modes)
                if np.max(np.abs(bad - got)) <= 1e-6 * max(1, np.max(np.abs(c))):
                    finding = finding or ('unwrap_border', msg)
                    continue
            return msg
    return finding


def gen_loop(tier):
    for d in (6, 7, 8):
        for mask in ('full', 'half', 'cut'):
            for n in (2, 5):
                for lam in (0.0, 500.0):
                    if lam and mask == 'half':
                        continue
                    vals = (-300, -20, 0, 150)
                    for c in itertools.product(vals, repeat=min(n, 3)):
                        c = list(c) + [10] * (n - len(c))
                        yield {'d': d, 'mask': mask, 'n': n, 'lam': lam,
                               'cmd': [c, c[::-1], [0] * n]}


# ---------------------------------------------------------------- modal bases
def run_base(case, st):
    from specula.lib.compute_zonal_ifunc import compute_zonal_ifunc
    from specula.lib import modal_base_generator as mb
    d, z = case['d'], case['z']
    with quiet():
        ifs, mask, _, _ = compute_zonal_ifunc(d, case['n'], xp=np, dtype=np.float64,
                                              geom=case['geom'], obsratio=case['obs'])
    nact, npix = ifs.shape
    y, x = np.mgrid[0:d, 0:d]
    x, y = [(v + 0.5 - d / 2) / (d / 2) for v in (x, y)]
    filt = None
    if case['filt']:
        filt = np.array([evaluate(poly(j), x, y)[mask > 0] for j in case['filt']])
        filt = filt - filt.mean(1, keepdims=True)
    f0 = None if filt is None else filt.copy()
    i0 = ifs.copy()
    kl, m2c, sv = mb.make_modal_base_from_ifs_fft(
        mask, 8.0, ifs, case['r0'], 25.0, zern_modes=z, oversampling=case['over'],
        filt_modes=filt, xp=np, dtype=np.float64)
    st.step(len(kl))
    st.state(kl)
    nfilt = 0 if filt is None else len(filt)
    if kl.shape != (nact - 1 - nfilt, npix) or m2c.shape != (nact, nact - 1 - nfilt):
        return f'basis {kl.shape}, matrix {m2c.shape} of {nact} actuators'
    if not np.array_equal(ifs, i0) or (filt is not None and not np.array_equal(filt, f0)):
        return 'the influence functions or the modes to filter were changed'
    if np.max(np.abs(kl.mean(1))) > 1e-8:
        return f'modes with piston {kl.mean(1)}'
    r = m2c.T @ ifs - kl
    r -= r.mean(1, keepdims=True)
    if np.max(np.abs(r)) > 1e-7:
        return f'the commands give the modes with errors {np.abs(r).max(1)}'
    k = kl[z:]
    if not len(k):
        return None
    g = k @ k.T / npix
    if np.max(np.abs(g - np.eye(len(k)))) > 1e-7:
        return 'the modes are not orthonormal'
    if z and np.max(np.abs(k @ kl[:z].T)) / npix > 5e-2:
        return 'the modes are not orthogonal to the Zernike modes'
    if filt is not None:
        u = np.abs(k @ filt.T) / npix / filt.std(1)
        if np.max(u) > 5e-2:
            return f'the modes still contain those to filter: {u.max(0)}'
    if z:
        # the Zernike modes are the best the mirror can do of the polynomials
        p = np.array([(evaluate(poly(j), x, y) * (np.hypot(x, y) <= 1 + 1e-9))[mask > 0]
                      for j in range(2, z + 2)])
        b = np.vstack([np.ones(npix), p]).T
        b = ifs.T @ np.linalg.lstsq(ifs.T, b, rcond=None)[0]
        b = np.hstack([b, np.ones((npix, 1))])
        for q in range(z):
            e = kl[q] - b @ np.linalg.lstsq(b, kl[q], rcond=None)[0]
            if np.max(np.abs(e)) > 1e-6:
                return f'Zernike mode {q} is not made of the polynomials'
    # turbulence covariance of the modes: diagonal, in decreasing order
    cov = reference_cov(mask, 8.0, k, case['r0'], 25.0, case['over'])
    v = np.diag(cov)
    off = cov - np.diag(v)
    if np.max(np.abs(off)) > 1e-6 * v.max():
        return f'the modes are correlated: {np.max(np.abs(off)) / v.max()}'
    if np.any(np.diff(v) > 1e-9 * v.max()):
        return 'the modes are not in the order of their variance'
    got = mb.compute_ifs_covmat(mask, 8.0, ifs, case['r0'], 25.0, oversampling=case['over'],
                                xp=np, dtype=np.float64)
    want = reference_cov(mask, 8.0, ifs, case['r0'], 25.0, case['over'])
    if np.max(np.abs(got - want)) > 1e-9 * np.max(np.abs(want)):
        return 'wrong turbulence covariance of the influence functions'


def reference_cov(mask, diam, f, r0, l0, over):
    """von Karman covariance of the modes f, by their Fourier transforms."""
    d = max(mask.shape)
    n = over * d
    k = np.fft.fftfreq(n) * n / (over * diam)
    kk = np.hypot(*np.meshgrid(k, k))
    c = (math.gamma(11 / 6) ** 2 / (2 * math.pi ** (11 / 3))) * (24 * math.gamma(6 / 5) / 5) ** (5 / 6)
    s = c * r0 ** (-5 / 3) * (kk ** 2 + 1 / l0 ** 2) ** (-11 / 6)
    ft = []
    for a in f:
        m = np.zeros((n, n))
        m[:mask.shape[0], :mask.shape[1]][mask > 0] = a
        ft.append(np.fft.fft2(m).ravel())
    ft = np.array(ft)
    return ((ft * s.ravel()) @ ft.conj().T).real / (mask.sum() ** 2 * (over * diam) ** 2)


def gen_base(tier):
    for d, n, geom in ((12, 3, 'circular'), (13, 5, 'circular'), (12, 4, 'square'),
                       (14, 5, 'square'), (12, 5, 'alpao')):
        for obs in (0.0, 0.3):
            for z in (0, 1, 2, 5):
                for filt in ((), (2,), (3, 4), (5,)):
                    if any(j <= z + 1 for j in filt):
                        continue
                    for r0, over in ((0.15, 2), (0.3, 3)) if tier != 'quick' else ((0.15, 2),):
                        yield {'d': d, 'n': n, 'geom': geom, 'obs': obs, 'z': z, 'filt': filt,
                               'r0': r0, 'over': over}


FAMILIES = [
    Family('polynomials', gen_poly, run_poly, weight=3,
           what='the first 36 (66) polynomials and their derivatives, asked in either order, on 11 '
                'diameters and 27 circular masks of any centre, against the explicit formula'),
    Family('zernike', gen_zern, run_zern, weight=4,
           what='Zernike influence functions: grids x numbers of modes x obscurations, diameters '
                'and masks'),
    Family('zonal', gen_zonal, run_zonal, weight=8,
           what='zonal influence functions: grids x geometries x numbers of actuators x masks x '
                'angles x coupling x kinds and thresholds of slaving'),
    Family('actuators', gen_alpao, run_alpao, weight=1,
           what='number of actuators of the geometries for 2-32 actuators across'),
    Family('mirror', gen_dm, run_dm, weight=6,
           what='mirror: selections of modes x command matrices x all histories of commands of 3 '
                '(4) steps, shorter, equal, longer or absent'),
    Family('analysis', gen_analysis, run_analysis, weight=2,
           what='modal analysis: ways to give the modes x numbers of modes x single field or lists '
                'of 1-3 x histories of refreshed fields'),
    Family('loop', gen_loop, run_loop, weight=4,
           what='commands to the mirror read back by the analysis, also through a wrapped phase'),
    Family('bases', gen_base, run_base, weight=2,
           what='modal bases: mirrors x obscurations x Zernike modes x modes to filter'),
]
