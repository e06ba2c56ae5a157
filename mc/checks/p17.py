"""P17: interaction matrices, reconstructors and modal reconstruction."""
import copy
import itertools
import os

import numpy as np

from mc.core import Family
from mc.harness import close, feed, main_params, run_simul, scratch, step

RULE = ('all words of pokes, refreshed and old slopes for the calibrators; all refresh words and '
        'options for the reconstructors; all validity masks; all orders of a calibration file; all '
        'sequences of resizings of an interaction matrix; all noise models of the MMSE formula')
ASSUMPTIONS = [
    'linear sensors with up to 6 slopes and 4 modes; matrices of full rank',
    'a calibration command has at most one non-zero element',
]


def tol():
    import specula
    return 1e-9 if specula.global_precision == 0 else 1e-4


def mat(ns, nm, k=0):
    """A full-rank matrix without symmetries."""
    m = np.array([[((3 * i + 5 * j + 7 * i * j + 2 * k) % 11) - 4.0 for j in range(nm)]
                  for i in range(ns)])
    m += 6 * np.eye(ns, nm)
    return m


def slopes_of(n, v=None):
    from specula.data_objects.slopes import Slopes
    s = Slopes(n)
    if v is not None:
        s.slopes[:] = v
    return s


def bv(arr):
    from specula.base_value import BaseValue
    return BaseValue(value=np.array(arr, dtype=float))


def clean(*names):
    for n in names:
        if os.path.exists(n):
            os.remove(n)


# ------------------------------------------------------------------ calibration of the matrix
def alphabet(nact):
    """Moves: (mode or None, amplitude, slopes refreshed, commands refreshed)."""
    a = [(None, 0.0, True, True)]
    for m in range(nact):
        a.append((m, 2.0, True, True))
    a.append((0, -0.5, True, True))
    a.append((nact - 1, -4.0, True, True))
    a.append((0, 3.0, False, True))
    a.append((1, 3.0, True, False))
    return a


def gen_im(tier):
    for nact, first, nmodes in ((3, 0, 3), (3, 0, 2), (3, 1, 2), (3, 2, 1), (3, 1, 1), (2, 0, 3)):
        for kind in ('im', 'multi1', 'multi2'):
            if kind != 'im' and first:
                continue
            n = len(alphabet(nact))
            if tier == 'thorough':
                for head in range(n):
                    yield {'nact': nact, 'first': first, 'nmodes': nmodes, 'kind': kind,
                           'len': 5, 'head': head}
            else:
                yield {'nact': nact, 'first': first, 'nmodes': nmodes, 'kind': kind, 'len': 3}


def run_im(case, st):
    from specula.data_objects.intmat import Intmat
    from specula.processing_objects.im_calibrator import ImCalibrator
    from specula.processing_objects.multi_im_calibrator import MultiImCalibrator
    nact, first, nmodes = case['nact'], case['first'], case['nmodes']
    d = os.path.join(scratch(), 'im17')
    nin = 2 if case['kind'] == 'multi2' else 1
    ms = [mat(4, nact, 0), mat(3, nact, 1)][:nin]
    al = alphabet(nact)
    paths = [os.path.join(d, f'mc{i}.fits') for i in range(nin)]
    full = os.path.join(d, 'mcfull.fits')
    heads = [case['head']] if 'head' in case else range(len(al))
    n = case['len']
    for word in itertools.product(range(len(al)), repeat=n):
        if word[0] not in heads:
            continue
        clean(full, *paths)
        if case['kind'] == 'im':
            cal = ImCalibrator(nmodes, d, im_tag='mc0', first_mode=first)
        else:
            cal = MultiImCalibrator(nmodes, nin, d, im_tag=['mc0', 'mc1'][:nin], full_im_tag='mcfull')
        sl = [slopes_of(m.shape[0]) for m in ms]
        com = bv(np.zeros(nact))
        for s in sl:
            s.generation_time = 0
        com.generation_time = 0
        if case['kind'] == 'im':
            cal.inputs['in_slopes'].set(sl[0])
            cal.inputs['in_commands'].set(com)
        else:
            cal.inputs['in_slopes_list'].set(sl)
            cal.inputs['in_commands_list'].set([com])
        cal.setup()
        acc = [np.zeros((m.shape[0], nmodes)) for m in ms]
        cnt = [np.zeros(nmodes) for m in ms]
        c = np.zeros(nact)
        for k, w in enumerate(word):
            t = (k + 1) * 1000000
            mode, amp, fs, fc = al[w]
            if fc:
                c = np.zeros(nact)
                if mode is not None:
                    c[mode] = amp
                feed(com, c, t)
            if fs:
                for i, m in enumerate(ms):
                    # the second sensor is slower: refreshed on odd steps only
                    if i == 1 and k % 2 == 0:
                        continue
                    feed(sl[i], m @ c + 0.125 * (k % 2), t)
                    nz = np.nonzero(c)[0]
                    if len(nz) and 0 <= nz[0] - first < nmodes:
                        acc[i][:, nz[0] - first] += (m @ c + 0.125 * (k % 2)) / c[nz[0]]
                        cnt[i][nz[0] - first] += 1
            step(cal, t)
            st.step()
        cal.finalize()
        for i in range(nin):
            ref = acc[i] / np.maximum(cnt[i], 1)
            im = cal.outputs['out_intmat'] if case['kind'] == 'im' else cal.outputs['out_intmat_list'][i]
            got = np.array(im.intmat, dtype=float)
            if im.nslopes and not close(got, ref, 1e-6):
                return f'{[al[w] for w in word]}: matrix {i} {got.tolist()}, expected {ref.tolist()}'
            if not os.path.exists(paths[i]):
                return f'{[al[w] for w in word]}: nothing saved'
            if im.nslopes:
                back = np.array(Intmat.restore(paths[i]).intmat, dtype=float)
                if not close(back, ref, 1e-6):
                    return f'{[al[w] for w in word]}: saved {back.tolist()}, expected {ref.tolist()}'
            elif np.any(ref):
                return f'{[al[w] for w in word]}: empty matrix'
            st.state(np.round(ref, 6))
        if case['kind'] != 'im':
            got = np.array(cal.outputs['out_intmat_full'].intmat, dtype=float)
            want = np.vstack([np.array(x.intmat) for x in cal.outputs['out_intmat_list']])
            if not np.array_equal(got, want):
                return f'full matrix {got.tolist()}, expected {want.tolist()}'
    st.outcome(case['kind'], first)
    return None


# ------------------------------------------------------------------ from files of measures
def gen_build(tier):
    yield {'n': 4 if tier != 'thorough' else 6}


def run_build(case, st):
    from specula.data_objects.intmat import Intmat
    m = mat(4, 3)
    pokes = [(0, 1.0), (0, -2.0), (1, 0.5), (2, -4.0), (2, 2.0)]
    for n in range(1, case['n'] + 1):
        for word in itertools.product(range(len(pokes)), repeat=n):
            sl, com = {}, {}
            acc, cnt = np.zeros((4, 3)), np.zeros(3)
            for k, w in enumerate(word):
                mode, amp = pokes[w]
                c = np.zeros(3)
                c[mode] = amp
                sl[k * 10], com[k * 10] = m @ c + k, c
                acc[:, mode] += (m @ c + k) / amp
                cnt[mode] += 1
            im = Intmat.build_from_slopes(sl, com)
            st.step()
            ref = acc / np.maximum(cnt, 1)
            if not close(im.intmat, ref, 1e-6):
                return f'{word}: {np.array(im.intmat).tolist()}, expected {ref.tolist()}'
    st.outcome('build')
    return None


# ------------------------------------------------------------------ resizing
def gen_size(tier):
    yield {'n': 3 if tier != 'thorough' else 4}


def run_size(case, st):
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    ops = [('set_nmodes', 2), ('set_nmodes', 5), ('set_nslopes', 3), ('set_nslopes', 6),
           ('reduce_size', 1), ('reduce_size', 2), ('reduce_slopes', 1), ('set_start_mode', 1),
           ('col', 0), ('row', 1)]

    def model(m, op, k):
        ns, nm = m.shape
        if op == 'set_nmodes':
            r = np.zeros((ns, k))
            r[:, :min(k, nm)] = m[:, :k]
        elif op == 'set_nslopes':
            r = np.zeros((k, nm))
            r[:min(k, ns)] = m[:k]
        elif op == 'reduce_size':
            r = None if k >= nm else m[:, :nm - k]
        elif op == 'reduce_slopes':
            r = None if k >= ns else m[:ns - k]
        elif op == 'set_start_mode':
            r = None if k >= nm else m[:, k:]
        elif op == 'col':
            r = m.copy()
            r[:, k] = 2 * r[:, k] + 1
        else:
            r = m.copy()
            r[k] = r[k] - 3
        return r
    for n in range(1, case['n'] + 1):
        for word in itertools.product(ops, repeat=n):
            src = mat(4, 3)
            im = Intmat(src.copy())
            ref = src.copy()
            for op, k in word:
                new = model(ref, op, k)
                try:
                    if op == 'col':
                        im.modes[k] = 2 * im.modes[k] + 1
                    elif op == 'row':
                        im.slopes[k] = im.slopes[k] - 3
                    else:
                        getattr(im, op)(k)
                    if new is None:
                        return f'{word}: {op} accepted'
                    ref = new
                except ValueError:
                    if new is not None:
                        return f'{word}: {op} refused'
                st.step()
                if not np.array_equal(np.array(im.intmat), ref) or im.nmodes != ref.shape[1] \
                        or im.nslopes != ref.shape[0]:
                    return f'{word}: {np.array(im.intmat).tolist()}, expected {ref.tolist()}'
            st.state(ref)
    for cut in range(0, 5):
        r = Recmat(mat(3, 4))
        try:
            r.reduce_size(cut)
            if cut >= 3 or not np.array_equal(np.array(r.recmat), mat(3, 4)[:3 - cut]):
                return f'recmat reduced by {cut}: {np.array(r.recmat).tolist()}'
        except ValueError:
            if cut < 3:
                return f'recmat reduced by {cut}: refused'
    st.outcome('size')
    return None


# ------------------------------------------------------------------ inversion
def gen_inv(tier):
    for ns in range(1, 6 if tier != 'thorough' else 8):
        for nm in range(1, 6 if tier != 'thorough' else 8):
            for k in range(3):
                yield {'ns': ns, 'nm': nm, 'k': k}


def run_inv(case, st):
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
    from specula.processing_objects.rec_calibrator import RecCalibrator
    ns, nm = case['ns'], case['nm']
    m = mat(ns, nm, case['k'])
    d = os.path.join(scratch(), 'rec17')
    for nmodes in list(range(1, nm + 1)) + [None, nm + 2]:
        im = Intmat(m.copy())
        rec = im.generate_rec(nmodes)
        st.step()
        used = m[:, :nmodes] if nmodes else m
        ref = np.linalg.pinv(used)
        if not close(np.array(rec.recmat), ref, 1e-4):
            return f'{nmodes} modes: {np.array(rec.recmat).tolist()}, expected {ref.tolist()}'
        if not np.array_equal(np.array(im.intmat), m):
            return 'the interaction matrix was modified'
        if np.linalg.matrix_rank(used) == used.shape[1]:
            eye = np.array(rec.recmat) @ used
            if not np.allclose(eye, np.eye(used.shape[1]), atol=1e-3):
                return f'{nmodes} modes: R D = {eye.tolist()}'
        if nmodes is None:
            continue
        files = [os.path.join(d, x + '.fits') for x in ('r', 'm0', 'm1', 'f')]
        clean(*files)
        if os.path.isdir(d):
            os.rmdir(d)
        o = RecCalibrator(nmodes, d, 'r')
        im.generation_time = 1
        o.inputs['in_intmat'].set(im)
        o2 = MultiRecCalibrator(nmodes, d, rec_tag='m', full_rec_tag='f')
        im2 = Intmat(m[::-1].copy())
        full = Intmat(np.vstack([m, m[::-1]]))
        o2.inputs['intmat_list'].set([im, im2])
        o2.inputs['full_intmat'].set(full)
        for x in (o2, o) if nmodes % 2 else (o, o2):
            x.setup()
            x.check_ready(1)
            x.finalize()
            st.step()
        for f, src in zip(files, (m, m, m[::-1], np.vstack([m, m[::-1]]))):
            got = np.array(Recmat.restore(f).recmat, dtype=float)
            want = np.linalg.pinv(src[:, :nmodes])
            if not close(got, want, 1e-4):
                return f'{os.path.basename(f)}: {got.tolist()}, expected {want.tolist()}'
        st.state(ref)
    st.outcome(ns >= nm)
    return None


# ------------------------------------------------------------------ MMSE
def gen_mmse(tier):
    for scale_n in (1.0, 1e-6, 1e-14, 1e8):
        for scale_a in (1.0, 1e-13, 1e6):
            for off in (0.0, 0.3, 1e-7):
                yield {'n': scale_n, 'a': scale_a, 'off': off}


def run_mmse(case, st):
    from specula.lib.mmse_reconstructor import compute_mmse_reconstructor
    ns, nm = 4, 3
    m = mat(ns, nm) * np.sqrt(case['n'] / case['a'])
    cx = np.diag([3.0, 2.0, 1.0])
    cx[0, 1] = cx[1, 0] = case['off']
    cx[2, 1] = cx[1, 2] = -case['off']
    cx *= case['a']
    noises = {'none': None, 'one': [2.0], 'two': [2.0, 5.0],
              'diag': np.diag([1.0, 2.0, 3.0, 4.0]),
              'full': np.diag([1.0, 2.0, 3.0, 4.0]) + case['off'] * (np.ones((4, 4)) - np.eye(4))}
    for name, nz in noises.items():
        for inv in (False, True):
            kw = {}
            if name in ('one', 'two'):
                nz2 = [x * case['n'] for x in nz]
                kw['noise_variance'] = nz2
                cz = np.diag(np.repeat(nz2, ns // len(nz2)))
                if inv:
                    continue
            elif name == 'none':
                cz = np.eye(ns)
            else:
                cz = nz * case['n']
                kw['c_noise'] = np.linalg.inv(cz) if inv else cz.copy()
            c = np.linalg.inv(cx) if inv else cx.copy()
            got = compute_mmse_reconstructor(m.copy(), c, np, float, c_inverse=inv, **kw)
            st.step()
            ref = cx @ m.T @ np.linalg.inv(m @ cx @ m.T + cz)
            if not close(got, ref, 1e-6):
                return f'noise {name} inverted={inv}: {got.tolist()}, expected {ref.tolist()}'
            st.state(ref)
    st.outcome(case['off'])
    return None


def gen_gmmse(tier):
    for nmodes in (None, 1, 2, 3):
        yield {'nmodes': nmodes}


def run_gmmse(case, st):
    """The noise given as a number, a list, a vector or a matrix: the same reconstructor."""
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.ifunc import IFunc
    from specula.lib.compute_zern_ifunc import compute_zern_ifunc
    from specula.lib.modal_base_generator import compute_ifs_covmat
    nmax = 3
    ifs, mask = compute_zern_ifunc(8, nmax, obsratio=0.0, diaratio=1.0, xp=np, dtype=np.float64)
    base = IFunc(ifunc=ifs, mask=mask)
    im = Intmat(mat(4, nmax) * 0.1)
    nm = case['nmodes'] or nmax
    cx = compute_ifs_covmat(base.mask_inf_func, 1.0, base.influence_function, 0.15, 25.0,
                            oversampling=2, verbose=False, xp=np, dtype=np.float64)[:nm, :nm]
    a = np.array(im.intmat)[:, :nm]
    for v in (0.5, 2.0):
        forms = {'number': v, 'list1': [v], 'vec1': np.array([v]), 'mat1': np.array([[v]]),
                 'list': [v] * 4, 'scalar0d': np.array(v), 'matrix': v * np.eye(4)}
        for k, f in forms.items():
            rec = im.generate_rec_mmse(0.15, 25.0, 1.0, base, f, nmodes=case['nmodes'])
            st.step()
            ref = cx @ a.T @ np.linalg.inv(a @ cx @ a.T + v * np.eye(4))
            if not close(np.array(rec.recmat), ref, 1e-3):
                return f'noise {k} {v}: {np.array(rec.recmat).tolist()}, expected {ref.tolist()}'
            st.state(ref)
    lst = [0.5, 1.0, 2.0, 4.0]
    rec = im.generate_rec_mmse(0.15, 25.0, 1.0, base, lst, nmodes=case['nmodes'])
    ref = cx @ a.T @ np.linalg.inv(a @ cx @ a.T + np.diag(lst))
    if not close(np.array(rec.recmat), ref, 1e-3):
        return f'noise {lst}: {np.array(rec.recmat).tolist()}, expected {ref.tolist()}'
    st.outcome(case['nmodes'])
    return None


# ------------------------------------------------------------------ modal reconstruction
def gen_rec(tier):
    for sizes in ([4], [2, 2], [1, 3], [1, 2, 1]):
        for how in ('one', 'list'):
            if how == 'one' and len(sizes) > 1:
                continue
            for cut in (None, 1, 2):
                for filt in (False, True):
                    for shared in ('before', 'after'):
                        yield {'sizes': sizes, 'how': how, 'cut': cut, 'filt': filt,
                               'shared': shared, 'n': 3 if tier != 'thorough' else 4}


def run_rec(case, st):
    from specula.data_objects.recmat import Recmat
    from specula.processing_objects.modalrec import Modalrec
    ns, nm = sum(case['sizes']), 3
    r = mat(nm, ns)
    shared = Recmat(r.copy())
    f = mat(ns, ns, 3) if case['filt'] else None
    mk = lambda: Modalrec(recmat=shared, ncutmodes=case['cut'],
                          filtmat=None if f is None else f.copy())
    plain = lambda: Modalrec(recmat=shared)
    objs = [plain(), mk()] if case['shared'] == 'before' else [mk(), plain()]
    if case['shared'] == 'after':
        objs = objs[::-1]
    objs.append(mk())
    ref0 = r
    ref1 = r[:nm - (case['cut'] or 0)]
    if f is not None:
        ref1 = ref1 @ f
    refs = [ref0, ref1, ref1]
    n = case['n']
    for word in itertools.product(range(1, 2 ** len(case['sizes'])), repeat=n):
        sl = [slopes_of(k) for k in case['sizes']]
        for s in sl:
            s.generation_time = 0
        for o in objs:
            o.inputs['in_slopes' if case['how'] == 'one' else 'in_slopes_list'].set(
                sl[0] if case['how'] == 'one' else sl)
            o.setup()
        cur = [np.zeros(k) for k in case['sizes']]
        for t, w in enumerate(word, 1):
            for i in range(len(sl)):
                if w >> i & 1:
                    cur[i] = np.array([(5 * t + 3 * i + 2 * j) % 7 - 3.0 for j in range(case['sizes'][i])])
                    feed(sl[i], cur[i], t)
            prev = [np.array(o.outputs['out_modes'].value) for o in objs]
            for o in objs:
                if not step(o, t):
                    return f'{word}: not triggered at {t}'
            st.step(3)
            v = np.concatenate(cur)
            for k, (o, m) in enumerate(zip(objs, refs)):
                out = o.outputs['out_modes']
                if out.generation_time != t or not close(np.array(out.value), m @ v, tol()):
                    return f'{word}, object {k} at {t}: {np.array(out.value).tolist()} of ' \
                           f'{out.generation_time}, expected {(m @ v).tolist()}'
            for i in range(len(sl)):
                if not np.array_equal(np.array(sl[i].slopes), cur[i]):
                    return 'the slopes were modified'
            st.state(v)
        for o in objs:
            if step(o, n + 1):
                return 'triggered without new slopes'
    ident = Modalrec(nmodes=ns, identity=True)
    s = slopes_of(ns, np.arange(ns))
    s.generation_time = 1
    ident.inputs['in_slopes'].set(s)
    ident.setup()
    step(ident, 1)
    if not close(np.array(ident.outputs['out_modes'].value), np.arange(ns), tol()):
        return 'identity reconstruction'
    st.outcome(case['how'], case['cut'], case['filt'])
    return None


# ------------------------------------------------------------------ pseudo open loop control
def gen_polc(tier):
    for nl in (2, 3):
        for sizes in ([4], [1, 3]):
            for coms in ([2], [1, 1], [1, 2]):
                for onelist in (False, True):
                    if not onelist and len(coms) > 1:
                        continue
                    for kind in ('explicit', 'implicit'):
                        yield {'nl': nl, 'sizes': sizes, 'coms': coms, 'clist': onelist,
                               'kind': kind, 'n': 3 if tier != 'thorough' else 5}


def run_polc(case, st):
    from specula.base_value import BaseValue
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    from specula.processing_objects.modalrec import Modalrec
    from specula.processing_objects.modalrec_implicit_polc import ModalrecImplicitPolc
    ns, nl, nc = sum(case['sizes']), case['nl'], sum(case['coms'])
    r, p, d = mat(nl, ns, 1) / 8, mat(nc, nl, 2) / 4, mat(ns, nc, 3) / 4
    imp = case['kind'] == 'implicit'
    # moves: 0 commands only, 1 slopes only, 2 both, 3 both and then a reader of the old values
    moves = (1, 2) if imp else (0, 1, 2)
    for first_none in (False, True):
        for word in itertools.product(moves, repeat=case['n']):
            kw = dict(recmat=Recmat(r.copy()), projmat=Recmat(p.copy()), intmat=Intmat(d.copy()))
            o = ModalrecImplicitPolc(**kw) if imp else Modalrec(polc=True, **kw)
            sl = [slopes_of(k) for k in case['sizes']]
            cm = [BaseValue(value=None if first_none else np.zeros(k)) for k in case['coms']]
            if len(sl) == 1:
                o.inputs['in_slopes'].set(sl[0])
            else:
                o.inputs['in_slopes_list'].set(sl)
            if case['clist']:
                o.inputs['in_commands_list'].set(cm)
            else:
                o.inputs['in_commands'].set(cm[0])
            for x in sl + cm:
                x.generation_time = 0
            o.setup()
            s, c = np.zeros(ns), np.zeros(nc)
            want = None
            known = not first_none
            for t, w in enumerate(word, 1):
                if w in (0, 2):
                    c = np.array([(3 * t + 2 * j) % 5 - 2.0 for j in range(nc)])
                    known = True
                    k0 = 0
                    for x, k in zip(cm, case['coms']):
                        x.value = np.array(c[k0:k0 + k])
                        x.generation_time = t
                        k0 += k
                if w in (1, 2):
                    s = np.array([(5 * t + 3 * j) % 7 - 3.0 for j in range(ns)])
                    k0 = 0
                    for x, k in zip(sl, case['sizes']):
                        feed(x, s[k0:k0 + k], t)
                        k0 += k
                    ol = r @ (s + d @ (c if known else 0 * c))
                    want = (p @ ol - (c if known else 0 * c), ol, t)
                step(o, t)
                st.step()
                out = o.outputs['out_modes']
                if want is None:
                    if np.any(np.array(out.value)):
                        return f'{word}: modes before any slopes'
                    continue
                if out.generation_time != want[2] or not close(np.array(out.value), want[0], 10 * tol()):
                    return f'{word} at {t}: {np.array(out.value).tolist()} of {out.generation_time}, ' \
                           f'expected {want[0].tolist()} of {want[2]}'
                if not imp:
                    pol = o.outputs['out_pseudo_ol_modes']
                    if pol.generation_time != want[2] or not close(np.array(pol.value), want[1], 10 * tol()):
                        return f'{word} at {t}: open loop modes {np.array(pol.value).tolist()}, ' \
                               f'expected {want[1].tolist()}'
                for x, k in zip(cm, np.split(c, np.cumsum(case['coms'])[:-1])):
                    if x.value is not None and not np.array_equal(np.array(x.value), k):
                        return f'{word} at {t}: the commands were modified'
                st.state(want[0])
    st.outcome(case['kind'], case['clist'])
    return None


# ------------------------------------------------------------------ sensors at different rates
def gen_multi(tier):
    for sizes in ([2, 1], [1, 2, 3], [3, 1]):
        yield {'sizes': sizes, 'n': 3 if tier != 'thorough' or len(sizes) == 3 else 5, 'drop': False}
        yield {'sizes': sizes, 'n': 2, 'drop': True}


def run_multi(case, st):
    from specula.data_objects.recmat import Recmat
    from specula.processing_objects.modalrec_multirate import ModalrecMultirate
    sizes = case['sizes']
    k, nm, tot = len(sizes), 3, sum(sizes)
    masks = [m for m in itertools.product((False, True), repeat=k) if any(m)]
    mats = {m: mat(nm, tot, i) for i, m in enumerate(masks)}
    offs = np.concatenate([[0], np.cumsum(sizes)])
    for drop in (masks if case['drop'] else [None]):
        use = [m for m in masks if m != drop]
        for order in ((use, use[::-1]) if drop is None else (use,)):
            for word in itertools.product(range(2 ** k), repeat=case['n']):
                o = ModalrecMultirate([Recmat(mats[m].copy()) for m in order],
                                      [list(m) for m in order], nm)
                sl = [slopes_of(x) for x in sizes]
                for s in sl:
                    s.generation_time = 0
                o.inputs['in_slopes_list'].set(sl)
                o.setup()
                cur = [np.zeros(x) for x in sizes]
                last = [np.zeros(nm)] * k
                lt = None
                for t, w in enumerate(word, 1):
                    valid = tuple(bool(w >> i & 1) for i in range(k))
                    for i in range(k):
                        if valid[i]:
                            cur[i] = np.array([(5 * t + 3 * i + 2 * j) % 7 - 3.0 for j in range(sizes[i])])
                            feed(sl[i], cur[i], t)
                    if valid == drop:
                        try:
                            step(o, t)
                        except KeyError:
                            break
                        return f'{word}: no error for {valid}, which has no matrix'
                    trig = step(o, t)
                    st.step()
                    if trig != any(valid):
                        return f'{word}: triggered {trig} with {valid}'
                    if trig:
                        last = [mats[valid][:, offs[i]:offs[i + 1]] @ cur[i] if valid[i]
                                else np.zeros(nm) for i in range(k)]
                        lt = t
                    for i in range(k):
                        out = o.outputs[f'out_modes_{i}']
                        if lt is not None and (out.generation_time != lt or
                                               not close(np.array(out.value), last[i], tol())):
                            return f'{word} at {t}, sensor {i}: {np.array(out.value).tolist()} of ' \
                                   f'{out.generation_time}, expected {last[i].tolist()} of {lt}'
                    st.state(np.array(last))
    st.outcome(case['drop'])
    return None


# ------------------------------------------------------------------ the whole calibration
def gen_chain(tier):
    names = ('pp', 'plant', 'imc', 'rec')
    perms = list(itertools.permutations(names))
    for first, nm, nmod in ((0, 3, 3), (0, 3, 2), (1, 4, 3)):
        for pat in ('1', '10', '01'):
            if pat == '01' and tier != 'thorough':
                continue
            for perm in (perms if tier == 'thorough' or (first, nm) == (0, 3) else perms[::5]):
                yield {'first': first, 'nm': nm, 'nmod': nmod, 'perm': list(perm), 'pat': pat}


def run_chain(case, st):
    """Calibrate with a push-pull sequence, then reconstruct: the commands come back."""
    import shutil
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    nm, first, nmod = case['nm'], case['first'], case['nmod']
    m = mat(5, nm)
    root = os.path.join(scratch(), 'chain17')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    rep = 2 if case['pat'] == '1' else 4
    objs = {
        'pp': {'class': 'PushPullGenerator', 'nmodes': nm, 'first_mode': first,
               'push_pull_type': 'PUSHPULL', 'vect_amplitude': [1.5 + 0.5 * i for i in range(nm)],
               'nsamples': rep // 2},
        'plant': {'class': 'McPlant', 'matrix': m.tolist(), 'pattern': case['pat'],
                  'inputs': {'in_commands': 'pp.output'}},
        'imc': {'class': 'ImCalibrator', 'nmodes': nmod, 'first_mode': first, 'im_tag': 'mcim',
                'overwrite': True,
                'inputs': {'in_slopes': 'plant.out_slopes', 'in_commands': 'pp.output'}},
        'rec': {'class': 'RecCalibrator', 'nmodes': nmod, 'first_mode': first, 'rec_tag': 'mcrec',
                'overwrite': True, 'inputs': {'in_intmat': 'imc.out_intmat'}},
    }
    steps = rep * (nm - first)
    p = {'main': main_params(total_time=steps * 0.001, root_dir=root)}
    for k in case['perm']:
        p[k] = copy.deepcopy(objs[k])
    run_simul(p)
    st.step(steps)
    nuse = min(nmod, nm - first)
    ref = np.zeros((5, nmod))
    ref[:, :nuse] = m[:, first:first + nuse]
    found = {}
    for base, _, files in os.walk(root):
        for f in files:
            found[f] = os.path.join(base, f)
    if 'mcim.fits' not in found or 'mcrec.fits' not in found:
        return f'files saved: {sorted(found)}'
    im = np.array(Intmat.restore(found['mcim.fits']).intmat, dtype=float)
    if not close(im, ref, 1e-5):
        return f'interaction matrix {im.tolist()}, expected {ref.tolist()}'
    rec = np.array(Recmat.restore(found['mcrec.fits']).recmat, dtype=float)
    if not close(rec, np.linalg.pinv(ref), 1e-4):
        return f'reconstructor {rec.tolist()}, expected {np.linalg.pinv(ref).tolist()}'
    # closed by a second simulation which uses the saved file
    q = {'main': main_params(total_time=nm * 0.001, root_dir=root)}
    q['gen'] = {'class': 'PushPullGenerator', 'nmodes': nm, 'push_pull_type': 'PUSH', 'amp': 2.0,
                'constant_amp': True}
    q['plant'] = {'class': 'McPlant', 'matrix': m.tolist(), 'inputs': {'in_commands': 'gen.output'}}
    q['mr'] = {'class': 'Modalrec', 'recmat_object': 'mcrec',
               'inputs': {'in_slopes': 'plant.out_slopes'}}
    q['buf'] = {'class': 'DataBuffer', 'buffer_size': nm,
                'inputs': {'input_list': ['m-mr.out_modes']}}
    s, _ = run_simul(q)
    st.step(nm)
    got = np.array(s.objs['buf'].outputs['m_buffered'].value, dtype=float)
    want = np.array([rec @ (m[:, k] * 2.0) for k in range(nm)])
    if not close(got, want, 1e-4):
        return f'reconstructed {got.tolist()}, expected {want.tolist()}'
    if first == 0 and nmod == nm and not close(got, 2 * np.eye(nm), 1e-4):
        return f'reconstructed {got.tolist()} of unit commands'
    st.state(got)
    st.outcome(case['pat'], s.trigger_order)
    shutil.rmtree(root, ignore_errors=True)
    return None


FAMILIES = [
    Family('im', gen_im, run_im, precisions=(0,), weight=4, what='words of pokes and refreshes'),
    Family('build', gen_build, run_build, precisions=(0,), weight=1, what='measures of a file'),
    Family('size', gen_size, run_size, precisions=(0,), weight=1, what='sequences of resizings'),
    Family('inv', gen_inv, run_inv, precisions=(0,), weight=2, what='inversions'),
    Family('mmse', gen_mmse, run_mmse, precisions=(0,), weight=1, what='noise and signal models'),
    Family('gmmse', gen_gmmse, run_gmmse, precisions=(0,), weight=1, what='forms of the noise'),
    Family('rec', gen_rec, run_rec, precisions=(0, 1), weight=2, what='words of refreshed slopes'),
    Family('polc', gen_polc, run_polc, precisions=(0, 1), weight=2,
           what='words of refreshed slopes and commands'),
    Family('multi', gen_multi, run_multi, precisions=(0,), weight=2, what='words of validity masks'),
    Family('chain', gen_chain, run_chain, precisions=(0,), weight=3,
           what='calibration simulations in every order'),
]
