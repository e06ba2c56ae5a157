"""P10: data objects keep their contents through any history of operations, saving and restoring.

Every data object type is a small state machine: a grid of initial objects and the operations
that change it.  All sequences of operations up to the depth bound are executed on the real
object and on a plain numpy model; `disk` (save to a file, read it back, continue with what was
read) is one of the operations.  Contents and every described parameter are compared after
every operation."""
import itertools
import os

import numpy as np

from mc.core import Family
from mc.harness import scratch

RULE = ('every initial object of a grid x every sequence of operations up to the depth bound, '
        'where writing the object to disk and going on with the one read back is one of the '
        'operations; contents and parameters compared with a numpy model after every step')
ASSUMPTIONS = ['small arrays of values exactly representable in both precisions',
               'tags that were never set may read back as None or empty']


def A(*shape, k=1):
    """Array of distinct, exactly representable values."""
    n = int(np.prod(shape))
    return (np.arange(1, n + 1, dtype=np.float64) * k + 0.5).reshape(shape)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return (a or None) is None and (b or None) is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    x, y = np.asarray(a), np.asarray(b)
    return x.shape == y.shape and bool(np.array_equal(x, y))


class Refused(Exception):
    pass


class Machine:
    """ops: {name: (on_object, on_model)}; on_model returns nothing, raises Refused when the
    object must refuse.  look(obj) / model dict have the same keys."""
    ops = {}
    ext = '.fits'
    overwrite = True      # save() takes overwrite


# ---------------------------------------------------------------- interaction / reconstruction
class IntmatM(Machine):
    def variants(self):
        for mm, rms in itertools.product((False, True), repeat=2):
            for tags in (('', ''), ('pup1', 'sub2')):
                for nf in (0.0, 2.5):
                    yield {'mm': mm, 'rms': rms, 'tags': tags, 'nf': nf}

    def make(self, v):
        from specula.data_objects.intmat import Intmat
        mm = A(3, 2, k=3) if v['mm'] else None
        rms = A(3, k=5) if v['rms'] else None
        obj = Intmat(A(4, 3), slope_mm=mm, slope_rms=rms, pupdata_tag=v['tags'][0],
                     subapdata_tag=v['tags'][1], norm_factor=v['nf'])
        return obj, {'intmat': A(4, 3), 'slope_mm': mm, 'slope_rms': rms, 'pup': v['tags'][0],
                     'sub': v['tags'][1], 'nf': v['nf']}

    def look(self, o):
        assert o.nmodes == o.intmat.shape[1] and o.nslopes == o.intmat.shape[0]
        assert o.get_value() is o.intmat
        for i in range(o.nmodes):
            assert np.array_equal(o.modes[i], o.intmat[:, i])
        for i in range(o.nslopes):
            assert np.array_equal(o.slopes[i], o.intmat[i])
        return {'intmat': o.intmat, 'slope_mm': o.slope_mm, 'slope_rms': o.slope_rms,
                'pup': o.pupdata_tag, 'sub': o.subapdata_tag, 'nf': o.norm_factor}

    @staticmethod
    def _resize(m, ns, nm):
        new = np.zeros((ns, nm))
        a, b = min(ns, m['intmat'].shape[0]), min(nm, m['intmat'].shape[1])
        new[:a, :b] = m['intmat'][:a, :b]
        m['intmat'] = new

    def _cut(self, m, axis, n, front=False):
        size = m['intmat'].shape[axis]
        if n >= size:
            raise Refused
        sl = slice(n, None) if front else slice(0, size - n)
        m['intmat'] = m['intmat'][:, sl] if axis else m['intmat'][sl]

    def _set(self, m, f):
        m['intmat'] = m['intmat'].copy()
        f(m['intmat'])

    ops = {
        'nmodes+1': (lambda o: o.set_nmodes(o.nmodes + 1),
                     lambda s, m: s._resize(m, m['intmat'].shape[0], m['intmat'].shape[1] + 1)),
        'nmodes2': (lambda o: o.set_nmodes(2), lambda s, m: s._resize(m, m['intmat'].shape[0], 2)),
        'nslopes+1': (lambda o: o.set_nslopes(o.nslopes + 1),
                      lambda s, m: s._resize(m, m['intmat'].shape[0] + 1, m['intmat'].shape[1])),
        'nslopes3': (lambda o: o.set_nslopes(3),
                     lambda s, m: s._resize(m, 3, m['intmat'].shape[1])),
        'reduce': (lambda o: o.reduce_size(2), lambda s, m: s._cut(m, 1, 2)),
        'reduce_s': (lambda o: o.reduce_slopes(1), lambda s, m: s._cut(m, 0, 1)),
        'start': (lambda o: o.set_start_mode(1), lambda s, m: s._cut(m, 1, 1, True)),
        'mode0': (lambda o: o.modes.__setitem__(0, 7.0 + np.arange(o.nslopes)),
                  lambda s, m: s._set(m, lambda x: x.__setitem__(
                      (slice(None), 0), 7.0 + np.arange(x.shape[0])))),
        'slope0': (lambda o: o.slopes.__setitem__(slice(0, 2), 9.0),
                   lambda s, m: s._set(m, lambda x: x.__setitem__(slice(0, 2), 9.0))),
        'set': (lambda o: o.set_value(A(*o.intmat.shape, k=11)),
                lambda s, m: m.__setitem__('intmat', A(*m['intmat'].shape, k=11))),
    }


class RecmatM(Machine):
    def variants(self):
        for nf in (0, 1.5, 3):
            for shape in ((3, 4), (2, 2), (1, 3)):
                yield {'nf': nf, 'shape': shape}

    def make(self, v):
        from specula.data_objects.recmat import Recmat
        a = A(*v['shape'])
        return Recmat(a.copy(), norm_factor=v['nf']), {'rec': a, 'nf': v['nf']}

    def look(self, o):
        assert o.nmodes == o.recmat.shape[0] and o.get_value() is o.recmat
        return {'rec': o.recmat, 'nf': o.norm_factor}

    def _reduce(self, m, n):
        if n >= len(m['rec']):
            raise Refused
        m['rec'] = m['rec'][:-n]

    ops = {'reduce': (lambda o: o.reduce_size(1), lambda s, m: s._reduce(m, 1)),
           'reduce2': (lambda o: o.reduce_size(2), lambda s, m: s._reduce(m, 2)),
           'set': (lambda o: o.set_value(A(*o.recmat.shape, k=7)),
                   lambda s, m: m.__setitem__('rec', A(*m['rec'].shape, k=7)))}


def cut(a, start=None, n=None, idx=None):
    """modes on the first axis"""
    if idx is not None:
        return a[list(idx)]
    s = start or 0
    return a[s:s + (len(a) if n is None else n)]


class M2CM(Machine):
    def variants(self):
        for nf in (None, 0.0, 2.5):
            for nm in (None, 2):
                yield {'nf': nf, 'nm': nm}

    def make(self, v):
        from specula.data_objects.m2c import M2C
        a = A(3, 4)
        m = {'m': a if v['nm'] is None else a[:, :v['nm']], 'nf': v['nf']}
        return M2C(a.copy(), nmodes=v['nm'], norm_factor=v['nf']), m

    def look(self, o):
        assert o.nmodes == o.m2c.shape[1] and o.get_value() is o.m2c
        return {'m': o.m2c, 'nf': o.norm_factor}

    def _cut(self, m, *a, **k):
        m['m'] = cut(m['m'].T, *a, **k).T

    ops = {'nmodes3': (lambda o: o.set_nmodes(3), lambda s, m: s._cut(m, 0, 3)),
           'cut12': (lambda o: o.cut(start_mode=1, nmodes=2), lambda s, m: s._cut(m, 1, 2)),
           'cut1': (lambda o: o.cut(start_mode=1), lambda s, m: s._cut(m, 1)),
           'idx': (lambda o: o.cut(idx_modes=[1, 0]),
                   lambda s, m: s._cut(m, idx=[1, 0])),
           'idx2': (lambda o: o.cut(idx_modes=[0], start_mode=1, nmodes=1),
                    lambda s, m: s._cut(m, idx=[0])),
           'set': (lambda o: o.set_value(A(*o.m2c.shape, k=7)),
                   lambda s, m: m.__setitem__('m', A(*m['m'].shape, k=7)))}
    guard = {'idx': lambda m: m['m'].shape[1] >= 2, 'idx2': lambda m: m['m'].shape[1] >= 1,
             'nmodes3': lambda m: m['m'].shape[1] >= 1, 'cut12': lambda m: m['m'].shape[1] >= 2,
             'cut1': lambda m: m['m'].shape[1] >= 2}


MASK = np.array([[0, 1, 1, 0], [1, 1, 1, 1], [1, 0, 1, 1], [0, 1, 1, 0]], dtype=float)


class IFuncM(Machine):
    def variants(self):
        for s, n, i in itertools.product((None, 1), (None, 2), (None, (2, 0))):
            yield {'s': s, 'n': n, 'i': i}

    def make(self, v):
        from specula.data_objects.ifunc import IFunc
        a = A(4, int(MASK.sum()))
        obj = IFunc(a.copy(), mask=MASK.copy(), start_mode=v['s'], nmodes=v['n'],
                    idx_modes=None if v['i'] is None else list(v['i']))
        return obj, {'f': cut(a, v['s'], v['n'], v['i']), 'mask': MASK}

    def look(self, o):
        assert tuple(o.size) == o.influence_function.shape
        assert np.array_equal(o.idx_inf_func, np.where(MASK))
        c = o.ifunc_2d_to_3d(normalize=False)
        for k in range(len(o.influence_function)):
            assert np.array_equal(c[:, :, k][MASK > 0], o.influence_function[k])
            assert not c[:, :, k][MASK == 0].any()
        return {'f': o.influence_function, 'mask': o.mask_inf_func}

    def _cut(self, m, *a, **k):
        m['f'] = cut(m['f'], *a, **k)

    ops = {'cut12': (lambda o: o.cut(start_mode=1, nmodes=2), lambda s, m: s._cut(m, 1, 2)),
           'cut3': (lambda o: o.cut(nmodes=3), lambda s, m: s._cut(m, 0, 3)),
           'idx': (lambda o: o.cut(idx_modes=[1, 0]), lambda s, m: s._cut(m, idx=[1, 0])),
           'set': (lambda o: o.set_value(A(*o.influence_function.shape, k=7)),
                   lambda s, m: m.__setitem__('f', A(*m['f'].shape, k=7)))}
    guard = {'idx': lambda m: len(m['f']) >= 2, 'cut12': lambda m: len(m['f']) >= 2}


class IFuncInvM(Machine):
    def variants(self):
        yield {'n': 4}
        yield {'n': 1}

    def make(self, v):
        from specula.data_objects.ifunc_inv import IFuncInv
        a = A(int(MASK.sum()), v['n'])
        return IFuncInv(a.copy(), mask=MASK.copy()), {'f': a, 'mask': MASK}

    def look(self, o):
        assert tuple(o.size) == o.ifunc_inv.shape
        assert np.array_equal(o.idx_inf_func, np.where(MASK))
        return {'f': o.ifunc_inv, 'mask': o.mask_inf_func}

    def _cut(self, m, *a, **k):
        m['f'] = cut(m['f'].T, *a, **k).T

    ops = {'cut12': (lambda o: o.cut(start_mode=1, nmodes=2), lambda s, m: s._cut(m, 1, 2)),
           'cut3': (lambda o: o.cut(nmodes=3), lambda s, m: s._cut(m, 0, 3)),
           'idx': (lambda o: o.cut(idx_modes=[1, 0]), lambda s, m: s._cut(m, idx=[1, 0])),
           'set': (lambda o: o.set_value(A(*o.ifunc_inv.shape, k=7)),
                   lambda s, m: m.__setitem__('f', A(*m['f'].shape, k=7)))}
    guard = {'idx': lambda m: m['f'].shape[1] >= 2, 'cut12': lambda m: m['f'].shape[1] >= 2}


# ---------------------------------------------------------------- fields, frames, vectors
class FieldM(Machine):
    kind = 'ElectricField'

    def variants(self):
        for dx, dy in ((3, 3), (4, 2), (2, 5)):
            for s0 in (0.0, 12.5):
                yield {'d': (dx, dy), 'S0': s0}

    def make(self, v):
        from specula.data_objects.electric_field import ElectricField
        dx, dy = v['d']
        o = ElectricField(dx, dy, 0.25, S0=v['S0'])
        return o, {'A': np.ones((dy, dx)), 'ph': np.zeros((dy, dx)), 'S0': v['S0'], 'p': 0.25}

    def look(self, o):
        assert tuple(o.size) == o.A.shape and np.array_equal(o.get_value(), o.field)
        assert o.area() == o.A.size * o.pixel_pitch ** 2
        assert abs(o.masked_area() - o.A.sum() * o.pixel_pitch ** 2) < 1e-3
        lam = 500.0
        want = o.A.astype(complex) * np.exp(2j * np.pi * o.phaseInNm.astype(float) / lam)
        assert np.allclose(o.ef_at_lambda(lam), want, atol=1e-4 * (1 + np.abs(o.A).max()))
        assert np.allclose(o.square_modulus(lam), o.A.astype(float) ** 2, rtol=1e-4)
        return {'A': o.A, 'ph': o.phaseInNm, 'S0': o.S0, 'p': o.pixel_pitch}

    @staticmethod
    def other(shape):
        from specula.data_objects.electric_field import ElectricField
        e = ElectricField(shape[1] + 1, shape[0] + 2, 0.25)
        e.A = A(shape[0] + 2, shape[1] + 1) % 4
        e.phaseInNm = A(shape[0] + 2, shape[1] + 1, k=2)
        return e

    def _product(self, m):
        h, w = m['A'].shape
        a, p = A(h + 2, w + 1) % 4, A(h + 2, w + 1, k=2)
        m['A'] = m['A'] * a[2:2 + h, 1:1 + w]
        m['ph'] = m['ph'] + p[2:2 + h, 1:1 + w]

    def _resize(self, m, dx, dy, pitch=None):
        m['A'], m['ph'] = np.ones((dy, dx)), np.zeros((dy, dx))
        if pitch:
            m['p'] = pitch

    def _set(self, m):
        s = m['A'].shape
        m['A'], m['ph'] = A(*s), A(*s, k=3)

    ops = {'set': (lambda o: o.set_value(np.stack([A(*o.A.shape), A(*o.A.shape, k=3)])),
                   lambda s, m: s._set(m)),
           'A': (lambda o: setattr(o, 'A', A(*o.A.shape, k=5)),
                 lambda s, m: m.__setitem__('A', A(*m['A'].shape, k=5))),
           'ph': (lambda o: setattr(o, 'phaseInNm', A(*o.A.shape, k=-4)),
                  lambda s, m: m.__setitem__('ph', A(*m['A'].shape, k=-4))),
           'reset': (lambda o: o.reset(), lambda s, m: s._resize(m, *m['A'].shape[::-1])),
           'resize': (lambda o: o.resize(3, 4), lambda s, m: s._resize(m, 3, 4)),
           'resize_p': (lambda o: o.resize(5, 2, pitch=0.5),
                        lambda s, m: s._resize(m, 5, 2, 0.5)),
           'product': (lambda o: o.product(FieldM.other(o.A.shape), [2, 1]),
                       lambda s, m: s._product(m)),
           'S0': (lambda o: setattr(o, 'S0', 3.5), lambda s, m: m.__setitem__('S0', 3.5))}


class LayerM(FieldM):
    def variants(self):
        for d in ((3, 3), (4, 2)):
            for h in (0.0, 4500.5):
                for sh, r, mg in (((0.0, 0.0), 0.0, 1.0), ((1.5, -2.25), 30.5, 1.25)):
                    yield {'d': d, 'h': h, 'sh': sh, 'r': r, 'mg': mg}

    def make(self, v):
        from specula.data_objects.layer import Layer
        dx, dy = v['d']
        o = Layer(dx, dy, 0.25, v['h'], shiftXYinPixel=v['sh'], rotInDeg=v['r'],
                  magnification=v['mg'])
        return o, {'A': np.ones((dy, dx)), 'ph': np.zeros((dy, dx)), 'S0': 0.0, 'p': 0.25,
                   'h': v['h'], 'sh': v['sh'], 'r': v['r'], 'mg': v['mg']}

    def look(self, o):
        d = super().look(o)
        d.update(h=o.height, sh=tuple(float(x) for x in o.shiftXYinPixel), r=o.rotInDeg,
                 mg=o.magnification)
        return d


class PupilstopM(Machine):
    def variants(self):
        for n in (4, 6):
            for mask in (False, True):
                for obs in (None, 0.25):
                    for sh, r, mg in (((0.0, 0.0), 0.0, 1.0), ((1.5, -2.25), 30.5, 1.25)):
                        yield {'n': n, 'mask': mask, 'obs': obs, 'sh': sh, 'r': r, 'mg': mg}

    def make(self, v):
        from specula.data_objects.pupilstop import Pupilstop
        from specula.data_objects.simul_params import SimulParams
        n = v['n']
        mask = (A(n, n) % 3 > 1).astype(float) if v['mask'] else None
        o = Pupilstop(SimulParams(n, 0.25), input_mask=mask, mask_diam=0.9, obs_diam=v['obs'],
                      shiftXYinPixel=v['sh'], rotInDeg=v['r'], magnification=v['mg'])
        return o, {'A': o.A.copy() if mask is None else mask, 'p': 0.25, 'h': 0,
                   'sh': v['sh'], 'r': v['r'], 'mg': v['mg'], 'ph': np.zeros((n, n)), 'gt': 0}

    def look(self, o):
        assert o.pixel_pupil == len(o.A)
        return {'A': o.A, 'p': o.pixel_pitch, 'h': o.height, 'ph': o.phaseInNm,
                'sh': tuple(float(x) for x in o.shiftXYinPixel), 'r': o.rotInDeg,
                'mg': o.magnification, 'gt': o.generation_time}

    ops = {'set': (lambda o: o.set_value((A(*o.A.shape) % 2)),
                   lambda s, m: m.__setitem__('A', A(*m['A'].shape) % 2))}


class PixelsM(Machine):
    def variants(self):
        for d in ((3, 3), (4, 2)):
            for bits in (1, 8, 9, 12, 16, 17, 24, 32, 33, 64):
                for signed in (0, 1):
                    yield {'d': d, 'bits': bits, 'signed': signed}

    @staticmethod
    def _type(bits, signed):
        n = next(x for x in (8, 16, 32, 64) if bits <= x)
        return f'{"" if signed else "u"}int{n}'

    def make(self, v):
        from specula.data_objects.pixels import Pixels
        o = Pixels(*v['d'], bits=v['bits'], signed=v['signed'])
        return o, {'v': np.zeros(v['d'][::-1]), 'bits': v['bits'], 'signed': v['signed']}

    def look(self, o):
        assert np.dtype(o.type).name == self._type(o.bpp, o.signed), (o.type, o.bpp)
        assert o.bytespp == -(-o.bpp // 8)
        assert tuple(o.size) == o.pixels.shape
        return {'v': o.pixels, 'bits': o.bpp, 'signed': o.signed}

    def _resize(self, m):
        m.update(v=np.zeros((3, 5)), bits=12, signed=1)

    ops = {'set': (lambda o: o.set_value(A(*o.size, k=3)),
                   lambda s, m: m.__setitem__('v', A(*m['v'].shape, k=3))),
           'mul': (lambda o: o.multiply(2), lambda s, m: m.__setitem__('v', m['v'] * 2)),
           'resize': (lambda o: o.resize(5, 3, bits=12, signed=1), lambda s, m: s._resize(m)),
           'size': (lambda o: o.set_size((2, 3)),
                    lambda s, m: m.__setitem__('v', np.zeros((2, 3))))}


class IntensityM(Machine):
    def variants(self):
        yield {'d': (3, 3)}
        yield {'d': (4, 2)}

    def make(self, v):
        from specula.data_objects.intensity import Intensity
        return Intensity(*v['d']), {'v': np.zeros(v['d'][::-1])}

    def look(self, o):
        return {'v': o.i}

    @staticmethod
    def other(o):
        from specula.data_objects.intensity import Intensity
        e = Intensity(*o.i.shape[::-1])
        e.set_value(A(*o.i.shape))
        return e

    ops = {'set': (lambda o: o.set_value(A(*o.i.shape, k=3)),
                   lambda s, m: m.__setitem__('v', A(*m['v'].shape, k=3))),
           'sum': (lambda o: o.sum(IntensityM.other(o), 2.0),
                   lambda s, m: m.__setitem__('v', m['v'] + 2 * A(*m['v'].shape)))}


class SlopesM(Machine):
    def variants(self):
        for n in (2, 4, 6, 5):
            for il in (False, True):
                for tags in ((None, None), ('p1', None), ('p1', 's2')):
                    if n % 2 == 0 or not il:
                        yield {'n': n, 'il': il, 'tags': tags}

    def make(self, v):
        from specula.data_objects.slopes import Slopes
        o = Slopes(slopes=A(v['n']), interleave=v['il'])
        o.pupdata_tag, o.subapdata_tag = v['tags']
        return o, {'s': A(v['n']), 'il': v['il'], 'pt': v['tags'][0], 'st': v['tags'][1]}

    @staticmethod
    def xy(n, il):
        if il:
            return list(range(0, n, 2)), list(range(1, n, 2))
        return list(range(0, n // 2)), list(range(n // 2, n))

    def look(self, o):
        n = len(o.slopes)
        x, y = self.xy(n, o.interleave)
        assert o.size == n
        assert list(o.indx()) == x and list(o.indy()) == y, (o.indx(), o.indy())
        assert np.array_equal(o.xslopes, o.slopes[x]) and np.array_equal(o.yslopes, o.slopes[y])
        if n % 2 == 0:
            o.single_mask = np.zeros((3, 3))
            o.display_map = np.arange(n // 2)[::-1] + 2
            two = o.get2d()
            for k in range(n // 2):
                pos = divmod(int(o.display_map[k]), 3)
                assert two[0][pos] == o.slopes[x[k]] and two[1][pos] == o.slopes[y[k]]
        return {'s': o.slopes, 'il': o.interleave, 'pt': o.pupdata_tag, 'st': o.subapdata_tag}

    @staticmethod
    def other(o, cls):
        from specula.data_objects.slopes import Slopes
        from specula.base_value import BaseValue
        v = A(o.size, k=3)
        return Slopes(slopes=v) if cls == 'S' else BaseValue(value=v)

    def _xy(self, m, which, val):
        s = m['s'].copy()
        i = self.xy(len(s), m['il'])[which]
        s[i] = val + np.arange(len(i))
        m['s'] = s

    def _rot(self, m):
        s = m['s'].copy()
        x, y = self.xy(len(s), m['il'])
        s[x], s[y] = m['s'][y], m['s'][x]     # rotation by 90 deg with x flipped: (y, x)
        m['s'] = s

    @staticmethod
    def rot90(o):
        o.rotate(90, flipx=True)
        o.slopes[:] = np.round(o.slopes * 4) / 4

    ops = {'resize': (lambda o: o.resize(4), lambda s, m: m.__setitem__('s', np.zeros(4))),
           'resize7': (lambda o: o.resize(7) if not o.interleave else o.resize(8),
                       lambda s, m: m.__setitem__('s', np.zeros(8 if m['il'] else 7))),
           'set': (lambda o: o.set_value(A(o.size, k=2)),
                   lambda s, m: m.__setitem__('s', A(len(m['s']), k=2))),
           'x': (lambda o: setattr(o, 'xslopes', 20.0 + np.arange(len(o.indx()))),
                 lambda s, m: s._xy(m, 0, 20.0)),
           'y': (lambda o: setattr(o, 'yslopes', 30.0 + np.arange(len(o.indy()))),
                 lambda s, m: s._xy(m, 1, 30.0)),
           'sum': (lambda o: o.sum(SlopesM.other(o, 'S'), 2),
                   lambda s, m: m.__setitem__('s', m['s'] + 2 * A(len(m['s']), k=3))),
           'sub': (lambda o: o.subtract(SlopesM.other(o, 'S')),
                   lambda s, m: m.__setitem__('s', m['s'] - A(len(m['s']), k=3))),
           'subv': (lambda o: o.subtract(SlopesM.other(o, 'V')),
                    lambda s, m: m.__setitem__('s', m['s'] - A(len(m['s']), k=3))),
           'rot': (lambda o: SlopesM.rot90(o), lambda s, m: s._rot(m)),
           'tag': (lambda o: setattr(o, 'subapdata_tag', 'new'),
                   lambda s, m: m.__setitem__('st', 'new'))}
    guard = {'rot': lambda m: len(m['s']) % 2 == 0}


class BaseValueM(Machine):
    VALUES = {'none': None, 'vec': A(3), 'mat': A(2, 3), 'cube': A(2, 2, 2), 'num': 2.5,
              'int': 4, 'neg': -0.125, 'one': A(1)}

    def variants(self):
        for k in self.VALUES:
            yield {'v': k}

    def make(self, v):
        from specula.base_value import BaseValue
        x = self.VALUES[v['v']]
        return BaseValue(value=x), {'v': x}

    def look(self, o):
        assert o.get_value() is o.value
        return {'v': o.value}

    def _set(self, m, val):
        if m['v'] is None:
            m['v'] = np.asarray(val)
        elif np.ndim(m['v']) == 0:
            m['v'] = val
        else:
            m['v'] = np.broadcast_to(np.asarray(val), np.shape(m['v'])).copy()

    ops = {'set': (lambda o: o.set_value(7.5), lambda s, m: s._set(m, 7.5)),
           'setv': (lambda o: o.set_value(2.0 if o.value is not None and np.ndim(o.value) == 0 else
                                          A(*np.shape(o.value), k=5) if o.value is not None
                                          else A(2)),
                    lambda s, m: s._set(m, 2.0 if m['v'] is not None and np.ndim(m['v']) == 0 else
                                        A(*np.shape(m['v']), k=5) if m['v'] is not None
                                        else A(2)))}


# ---------------------------------------------------------------- calibration geometries
class PupDataM(Machine):
    def variants(self):
        for n, p in ((4, 4), (3, 4), (4, 1), (5, 3), (1, 4)):
            for fs in ((6, 6), (6, 8)):
                yield {'n': n, 'p': p, 'fs': fs}

    def make(self, v):
        from specula.data_objects.pupdata import PupData
        i = (np.arange(v['n'] * v['p']) * 2).reshape(v['n'], v['p'])
        r, cx, cy = A(v['p']), A(v['p'], k=2), A(v['p'], k=3)
        o = PupData(ind_pup=i.copy(), radius=r, cx=cx, cy=cy, framesize=list(v['fs']))
        return o, {'i': i, 'r': r, 'cx': cx, 'cy': cy, 'fs': v['fs']}

    def look(self, o):
        assert o.n_subap == o.ind_pup.shape[0] and o.n_pupils == o.ind_pup.shape[1]
        m = np.zeros(int(o.framesize[0] * o.framesize[1]))
        for k in range(o.n_pupils):
            assert np.array_equal(o.pupil_idx(k), o.ind_pup[:, k])
            m[o.ind_pup[:, k]] = 1
        assert np.array_equal(o.complete_mask().ravel(), m)
        assert o.ind_pup.dtype.kind == 'i'
        z = o.zcorrection(o.ind_pup)
        if o.n_pupils == 4:
            assert np.array_equal(z, o.ind_pup[:, [0, 1, 3, 2]])
        return {'i': o.ind_pup, 'r': o.radius, 'cx': o.cx, 'cy': o.cy,
                'fs': tuple(int(x) for x in o.framesize)}

    ops = {'set': (lambda o: o.set_value(o.ind_pup[::-1] // 2),
                   lambda s, m: m.__setitem__('i', m['i'][::-1] // 2))}


class SubapDataM(Machine):
    def variants(self):
        for nx, ny in ((3, 3), (4, 2), (2, 4)):
            for th in (0, 0.5):
                for keep in (3, 5):
                    yield {'nx': nx, 'ny': ny, 'th': th, 'keep': keep}

    def make(self, v):
        from specula.data_objects.subap_data import SubapData
        idx = np.arange(v['keep'] * 4).reshape(v['keep'], 4)
        dm = np.arange(v['keep'])[::-1] + 1
        o = SubapData(idxs=idx.copy(), display_map=dm.copy(), nx=v['nx'], ny=v['ny'],
                      energy_th=v['th'])
        return o, {'i': idx, 'm': dm, 'nx': v['nx'], 'ny': v['ny'], 'th': v['th']}

    def look(self, o):
        assert o.n_subaps == len(o.idxs) and o.np_sub == 2
        for k in range(o.n_subaps):
            assert np.array_equal(o.subap_idx(k), o.idxs[k])
            assert o.display_map_idx(k) == o.display_map[k]
        f = np.zeros(o.nx * o.ny)
        f[o.display_map] = 1
        assert np.array_equal(o.single_mask(), f.reshape(o.nx, o.ny))
        return {'i': o.idxs, 'm': o.display_map, 'nx': o.nx, 'ny': o.ny, 'th': o.energy_th}


class LltM(Machine):
    def variants(self):
        for z in (None, 0.0, 60.0):
            for pos in ((), (5.5, -2.25, 0.5)):
                if z is None and pos:
                    continue
                for tt in ((0.0, 0.0), (0.25, -0.5)):
                    yield {'z': z, 'pos': pos, 'tt': tt}

    def make(self, v):
        from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
        from specula.data_objects.simul_params import SimulParams
        sp = None if v['z'] is None else SimulParams(zenithAngleInDeg=v['z'])
        o = LaserLaunchTelescope(sp, spot_size=1.25, tel_position=list(v['pos']),
                                 beacon_focus=90e3, beacon_tt=list(v['tt']))
        air = 1 / np.cos(np.radians(v['z'] or 0.0))
        assert abs(o.beacon_focus - 90e3 * air) < 1
        return o, {'spot': 1.25, 'pos': list(v['pos']), 'foc': float(o.beacon_focus),
                   'tt': list(v['tt'])}

    def look(self, o):
        return {'spot': o.spot_size, 'pos': list(o.tel_pos), 'foc': float(o.beacon_focus),
                'tt': list(o.beacon_tt)}


class SourceM(Machine):
    def variants(self):
        for h in (float('inf'), 90000.0, 0.0):
            for band in ('', 'R'):
                for zp in (0, 2.5):
                    for err in ((0., 0.), (0.5, -0.25)):
                        yield {'h': h, 'band': band, 'zp': zp, 'err': err}

    def make(self, v):
        from specula.data_objects.source import Source
        o = Source(polar_coordinates=[10.5, 30.25], magnitude=8.5, wavelengthInNm=750.5,
                   height=v['h'], band=v['band'], zero_point=v['zp'], error_coord=v['err'])
        return o, {'c': (10.5 + v['err'][0], 30.25 + v['err'][1]), 'm': 8.5, 'w': 750.5,
                   'h': v['h'], 'b': v['band'], 'z': v['zp'], 'e': v['err'], 'o': (10.5, 30.25)}

    def look(self, o):
        return {'c': tuple(float(x) for x in o.polar_coordinates), 'm': o.magnitude,
                'w': o.wavelengthInNm, 'h': o.height, 'b': o.band, 'z': o.zero_point,
                'e': tuple(o.error_coord), 'o': tuple(o.orig_polar_coordinates)}


class LensletM(Machine):
    def variants(self):
        for n in (1, 2, 3, 8):
            yield {'n': n}

    def make(self, v):
        from specula.data_objects.lenslet import Lenslet
        return Lenslet(v['n']), {'n': v['n']}

    def look(self, o):
        n = o.n_lenses
        assert o.dimx == n and o.dimy == n
        for i in range(n):
            for j in range(n):
                x, y, s = o.get(i, j)
                c = [-1 + (2 * k + 1) / n for k in range(n)]
                assert abs(x - c[j]) < 1e-6 and abs(y - c[i]) < 1e-6 or \
                    (abs(x - c[i]) < 1e-6 and abs(y - c[j]) < 1e-6)
                assert abs(s - 2 / n) < 1e-9
        return {'n': n}


class TimeHistoryM(Machine):
    overwrite = False

    def variants(self):
        yield {'s': (5,)}
        yield {'s': (4, 2)}

    def make(self, v):
        from specula.data_objects.time_history import TimeHistory
        return TimeHistory(A(*v['s'])), {'v': A(*v['s'])}

    def look(self, o):
        return {'v': o.time_history}

    ops = {'set': (lambda o: o.set_value(A(*o.time_history.shape, k=4)),
                   lambda s, m: m.__setitem__('v', A(*m['v'].shape, k=4)))}


class SpatioM(Machine):
    overwrite = False

    def variants(self):
        for shape in ((3,), (3, 2), (3, 3), (4, 2, 3), (3, 2, 3)):
            for ax in (0, -1):
                yield {'shape': shape, 'ax': ax}

    def make(self, v):
        from specula.data_objects.spatio_temp_array import SpatioTempArray
        a = A(*v['shape'])
        t = A(v['shape'][v['ax']], k=2)
        o = SpatioTempArray(a.copy(), t.copy(), time_axis=v['ax'])
        return o, {'a': a if v['ax'] == 0 else np.moveaxis(a, -1, 0), 't': t}

    def look(self, o):
        assert o.get_value() is o.array and o.get_time_vector() is o.time_vector
        return {'a': o.array, 't': o.time_vector}

    ops = {'set': (lambda o: o.set_value(A(*o.array.shape, k=4)),
                   lambda s, m: m.__setitem__('a', A(*m['a'].shape, k=4))),
           'set_last': (lambda o: o.set_value(np.moveaxis(A(*o.array.shape, k=6), 0, -1)),
                        lambda s, m: m.__setitem__('a', A(*m['a'].shape, k=6))),
           'time': (lambda o: o.set_time_vector(A(len(o.time_vector), k=9)),
                    lambda s, m: m.__setitem__('t', A(len(m['t']), k=9)))}
    guard = {'set_last': lambda m: len({m['a'].shape[0], m['a'].shape[-1]}) == 2}


# ---------------------------------------------------------------- filters
class IirM(Machine):
    overwrite = False
    FILTERS = [
        # (ordnum, ordden, num, den), lowest order first, right aligned or (as in PASSATA) left
        ([2, 2], [2, 2], [[0, 0.5], [0, 0.25]], [[-1, 1], [-0.5, 1]]),
        ([1], [2], [[0.5, 0]], [[-1, 1]]),
        ([3, 2], [3, 2], [[0.5, 1, 2], [0.5, 4, 0]], [[0.25, -1, 1], [-1, 1, 0]]),
        ([2], [3], [[0, 0.25, 0.5]], [[0.5, -1.5, 1]]),
    ]

    def variants(self):
        for k, f in enumerate(self.FILTERS):
            yield {'f': k, 'n': None}
            yield {'f': k, 'n': [2] + [1] * (len(f[0]) - 1)}

    @staticmethod
    def _align(c, o):
        c = np.array(c, dtype=float)
        for i in range(len(c)):
            if o[i] < c.shape[1] and not np.abs(c[i, o[i]:]).any():
                c[i] = np.roll(c[i], c.shape[1] - o[i])
        return c

    def make(self, v):
        from specula.data_objects.iir_filter_data import IirFilterData
        on, od, num, den = self.FILTERS[v['f']]
        o = IirFilterData(list(on), list(od), np.array(num, float), np.array(den, float),
                          n_modes=v['n'])
        rep = v['n'] or [1] * len(on)
        num, den = self._align(num, on), self._align(den, od)
        m = {'on': np.repeat(on, rep), 'od': np.repeat(od, rep),
             'num': np.repeat(num, rep, axis=0), 'den': np.repeat(den, rep, axis=0)}
        return o, m

    def look(self, o):
        assert o.nfilter == len(o.num)
        assert np.array_equal(o.gain, o.num[:, -1])
        return {'on': o.ordnum, 'od': o.ordden, 'num': o.num, 'den': o.den}

    def _gain(self, m, g):
        g = np.broadcast_to(np.asarray(g, float), (len(m['num']),))
        num = m['num'].copy()
        for i in range(len(num)):
            if np.isfinite(g[i]):
                num[i] = num[i] / (num[i, -1] if num[i, -1] else 1) * g[i]
        m['num'] = num

    ops = {'gain2': (lambda o: o.set_gain(2.0), lambda s, m: s._gain(m, 2.0)),
           'gainv': (lambda o: o.set_gain(np.array([0.25, np.nan, 4.0, 0.5][:o.nfilter])),
                     lambda s, m: s._gain(m, np.array([0.25, np.nan, 4.0, 0.5][:len(m['num'])]))),
           'num': (lambda o: o.set_num(np.roll(o.num, 0) * 4),
                   lambda s, m: m.__setitem__('num', m['num'] * 4)),
           'den': (lambda o: o.set_den(o.den * np.array([0.5] * (o.den.shape[1] - 1) + [1])),
                   lambda s, m: m.__setitem__('den', m['den'] * np.array(
                       [0.5] * (m['den'].shape[1] - 1) + [1])))}


class SsrM(Machine):
    overwrite = False

    def variants(self):
        yield {'k': 'scalar'}
        yield {'k': 'gain'}
        yield {'k': 'int'}
        yield {'k': 'two'}
        yield {'k': 'modes'}

    def make(self, v):
        from specula.data_objects.ssr_filter_data import SsrFilterData
        from scipy.linalg import block_diag
        a, b = np.array([[0.5, 0.25], [0, 1]]), np.array([[1.], [2]])
        c, d = np.array([[1., 0]]), np.array([[0.5]])
        if v['k'] == 'scalar':
            o = SsrFilterData(0.5, 2.0, 1.0, 0.25)
            m = dict(A=[[0.5]], B=[[2.0]], C=[[1.0]], D=[[0.25]])
        elif v['k'] == 'gain':
            o = SsrFilterData.from_gain([0.5, 2.0])
            m = dict(A=np.zeros((2, 2)), B=np.zeros((2, 2)), C=np.zeros((2, 2)),
                     D=np.diag([0.5, 2.0]))
        elif v['k'] == 'int':
            o = SsrFilterData.from_integrator([0.5, 2.0], ff=[0.25])
            m = dict(A=np.diag([0.25] * 2), B=np.diag([0.5, 2.0]), C=np.eye(2),
                     D=np.zeros((2, 2)))
        elif v['k'] == 'two':
            o = SsrFilterData([a, np.array([[0.5]])], [b, np.array([[3.]])],
                              [c, np.array([[2.]])], [d, np.array([[0.]])])
            m = dict(A=block_diag(a, [[0.5]]), B=block_diag(b, [[3.]]), C=block_diag(c, [[2.]]),
                     D=np.diag([0.5, 0]))
        else:
            o = SsrFilterData([a], [b], [c], [d], n_modes=[2])
            m = dict(A=block_diag(a, a), B=block_diag(b, b), C=block_diag(c, c),
                     D=np.diag([0.5, 0.5]))
        return o, m

    def look(self, o):
        assert o.nfilter == o.B.shape[1] and o.total_states == len(o.A)
        return {'A': o.A, 'B': o.B, 'C': o.C, 'D': o.D}


class KernelM(Machine):
    overwrite = False
    cls = 'ConvolutionKernel'

    def variants(self):
        for n in (1, 2):
            for pos in (False, True):
                yield {'n': n, 'pos': pos}

    def make(self, v):
        from specula.data_objects.convolution_kernel import ConvolutionKernel
        o = ConvolutionKernel(dimx=v['n'], dimy=v['n'], pxscale=0.25, pupil_size_m=8.0,
                              dimension=4, launcher_size=1.5, oversampling=2,
                              positive_shift_tt=v['pos'])
        o.spot_size = 1.25
        o.set_value(self.norm(A(v['n'] ** 2, 4, 4)))
        return o, {'k': self.norm(A(v['n'] ** 2, 4, 4)), 'n': v['n'], 'pos': v['pos'],
                   'px': 0.25, 'ov': 2, 'sp': 1.25}

    @staticmethod
    def norm(a):
        """kernels whose sum is exactly 1"""
        out = np.zeros_like(a)
        for i in range(len(a)):
            out[i, i % 4, 0] = 0.25
            out[i, 1, 1 + i % 3] = 0.75
        return out

    def look(self, o):
        n = o.dimx
        for i in range(n):
            for j in range(n):
                # the reader chooses between the kernels and their transforms
                k, r = o.kernels[j * n + i], o.real_kernels[i * n + j]
                assert np.array_equal(k, r) or np.allclose(k, np.fft.ifft2(r), atol=1e-6), \
                    'the kernels in use are not those of the object'
        return {'k': o.real_kernels, 'n': o.dimx, 'pos': bool(o.positive_shift_tt),
                'px': o.pxscale, 'ov': o.oversampling, 'sp': float(o.spot_size)}

    ops = {'set': (lambda o: o.set_value(KernelM.norm(o.real_kernels)[::-1]),
                   lambda s, m: m.__setitem__('k', KernelM.norm(m['k'])[::-1]))}


MACHINES = {'Intmat': IntmatM(), 'Recmat': RecmatM(), 'M2C': M2CM(), 'IFunc': IFuncM(),
            'IFuncInv': IFuncInvM(), 'ElectricField': FieldM(), 'Layer': LayerM(),
            'Pupilstop': PupilstopM(), 'Pixels': PixelsM(), 'Intensity': IntensityM(),
            'Slopes': SlopesM(), 'BaseValue': BaseValueM(), 'PupData': PupDataM(),
            'SubapData': SubapDataM(), 'LaserLaunchTelescope': LltM(), 'Source': SourceM(),
            'Lenslet': LensletM(), 'TimeHistory': TimeHistoryM(), 'SpatioTempArray': SpatioM(),
            'IirFilterData': IirM(), 'SsrFilterData': SsrM(), 'ConvolutionKernel': KernelM()}

# every number these objects hold is written: what is read back has the working precision or the
# one of the file, never a coarser one


def run(case, st):
    mc = MACHINES[case['type']]
    obj, model = mc.make(case['v'])
    cls = type(obj)
    d = scratch()
    held = []          # objects read earlier and what they must still hold

    def check(o, m, what):
        got = mc.look(o)
        for k in m:
            if not same(got[k], m[k]):
                return f'{what}: {k} is {got[k]!r}, expected {m[k]!r}'
        return None
    msg = check(obj, model, 'new')
    if msg:
        return msg
    for n, op in enumerate(case['ops']):
        what = f'after {case["ops"][:n + 1]}'
        if op == 'disk':
            fn = os.path.join(d, 'obj.fits')
            if not mc.overwrite and os.path.exists(fn):
                os.remove(fn)
            if mc.overwrite:
                obj.save(fn, overwrite=True)
            else:
                obj.save(fn)
            msg = check(obj, model, what + ' (the object that was saved)')
            if msg:
                return msg
            held.append((obj, {k: np.copy(v) if isinstance(v, np.ndarray) else v
                               for k, v in model.items()}))
            obj = cls.restore(fn)
            if type(obj) is not cls:
                return f'{what}: read back as {type(obj).__name__}'
        else:
            guard = getattr(mc, 'guard', {}).get(op)
            if guard and not guard(model):
                continue
            on_obj, on_model = mc.ops[op]
            refused = False
            try:
                on_model(mc, model)
            except Refused:
                refused = True
            try:
                on_obj(obj)
                if refused:
                    return f'{what}: accepted, expected an error'
            except ValueError:
                if not refused:
                    raise
        msg = check(obj, model, what)
        if msg:
            return msg
        st.step()
        st.state(case['type'], [np.asarray(v) if v is not None else None
                                for v in model.values()])
    for o, m in held:
        msg = check(o, m, 'an object used earlier')
        if msg:
            return msg
    st.outcome(case['type'], case['ops'])
    return None


def gen(types, depth):
    def g(tier):
        for t in types:
            mc = MACHINES[t]
            names = ['disk'] + sorted(mc.ops)
            dep = depth[tier == 'thorough']
            vs = list(mc.variants())
            seqs = [s for k in range(1, dep + 1) for s in itertools.product(names, repeat=k)]
            seqs.append(('disk',) * 4)
            for v in vs:
                for s in seqs:
                    # beyond two operations, only histories that go through the disk
                    if len(s) <= 2 or 'disk' in s[-2:]:
                        yield {'type': t, 'v': v, 'ops': list(s)}
    return g


BIG = ['Intmat', 'Slopes', 'ElectricField', 'Layer']
FAMILIES = [
    Family('matrices', gen(['Intmat', 'Recmat', 'M2C', 'IFunc', 'IFuncInv'], (3, 4)), run,
           precisions=(0, 1), weight=6, what='operation sequences on calibration matrices'),
    Family('fields', gen(['ElectricField', 'Layer', 'Pupilstop'], (3, 4)), run,
           precisions=(0, 1), weight=6, what='operation sequences on fields, layers, pupils'),
    Family('vectors', gen(['Slopes', 'Pixels', 'Intensity', 'BaseValue', 'TimeHistory',
                           'SpatioTempArray'], (3, 4)), run, precisions=(0, 1), weight=6,
           what='operation sequences on slopes, frames, vectors, histories'),
    Family('others', gen(['PupData', 'SubapData', 'LaserLaunchTelescope', 'Source', 'Lenslet',
                          'IirFilterData', 'SsrFilterData', 'ConvolutionKernel'], (3, 5)), run,
           precisions=(0, 1), weight=2,
           what='operation sequences on geometries, sources, filters, kernels'),
]
