"""P30: the analysis of a stored run at other field points is what the run would have given."""
import itertools
import os
import shutil

import numpy as np
import yaml

from mc.core import Family
from mc.harness import close, scratch, write_yaml

RULE = ('every loop of the stated set is run and stored by the real simulator twice, once with the '
        'field sources and their analysis inside the simulation; each sequence of analyses of the '
        'stored run must return what the simulation with the sources has computed')
ASSUMPTIONS = ['loops of 6 iterations, pupils of 12 pixels, up to 2 mirrors and 2 turbulent layers',
               'up to 3 field sources, sequences of up to 3 analyses of one run']
PIX, PITCH, N = 12, 0.5, 6


def loop_params(case, sources, where):
    """A closed loop with an ideal sensor, and any field sources inside the simulation."""
    p = {'main': {'class': 'SimulParams', 'root_dir': scratch(), 'pixel_pupil': PIX,
                  'pixel_pitch': PITCH, 'total_time': N * 1e-3, 'time_step': 1e-3,
                  'zenithAngleInDeg': case.get('zenith', 0.0)}}
    for k in ('seeing', 'speed', 'direction'):
        p[k] = {'class': 'WaveGenerator', 'outputs': ['output'],
                'constant': {'seeing': 0.6, 'speed': [15., 9.], 'direction': [30., 200.]}[k]}
    p['star'] = {'class': 'Source', 'polar_coordinates': [0.0, 0.0], 'magnitude': 8,
                 'wavelengthInNm': 600}
    p['stop'] = {'class': 'Pupilstop', 'simul_params_ref': 'main'}
    common = ['stop']
    inputs = {}
    if case['atmo']:
        p['atmo'] = {'class': 'AtmoEvolution', 'simul_params_ref': 'main', 'L0': 20.0,
                     'heights': [0., 6000.], 'Cn2': [0.6, 0.4], 'fov': 60.0,
                     'pixel_phasescreens': 64, 'seed': 3,
                     'inputs': {'seeing': 'seeing.output', 'wind_speed': 'speed.output',
                                'wind_direction': 'direction.output'},
                     'outputs': ['layer_list']}
        inputs['atmo_layer_list'] = ['atmo.layer_list']
    else:
        p['wave'] = {'class': 'WaveGenerator', 'amp': [120., -70., 30.], 'freq': [90., 170., 33.],
                     'offset': [0.3, 0.2, 1.0], 'constant': [10., 20., -40.], 'outputs': ['output']}
        p['dist'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 3,
                     'npixels': PIX + 8, 'height': 3000.0, 'sign': 1,
                     'inputs': {'in_command': 'wave.output'}, 'outputs': ['out_layer']}
        common.append('dist.out_layer')
    for i, h in enumerate(case['dms']):
        p[f'dm{i}'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 4,
                       'npixels': PIX if h == 0 else PIX + 8, 'height': h,
                       'inputs': {'in_command': f'ctrl{i}.out_comm'}, 'outputs': ['out_layer']}
        p[f'ctrl{i}'] = {'class': 'Integrator', 'simul_params_ref': 'main', 'delay': i + case['delay'],
                         'int_gain': [0.5 - 0.2 * i] * 4, 'inputs': {'delta_comm': 'sens.out_modes'},
                         'outputs': ['out_comm']}
        common.append(f'dm{i}.out_layer:-1')
    inputs['common_layer_list'] = common
    p['prop'] = {'class': 'AtmoPropagation', 'simul_params_ref': 'main',
                 'source_dict_ref': ['star'], 'inputs': inputs, 'outputs': ['out_star_ef']}
    p['sens'] = {'class': 'ModalAnalysis', 'type_str': 'zernike', 'npixels': PIX, 'nmodes': 4,
                 'inputs': {'in_ef': 'prop.out_star_ef'}, 'outputs': ['out_modes']}
    lst = [f'comm{i}-ctrl{i}.out_comm' for i in range(len(case['dms']))]
    lst += {'comm': [], 'more': ['ph-prop.out_star_ef', 'res-sens.out_modes'],
            'wind': ['wind-speed.output', 'see-seeing.output'] if case['atmo'] else
            ['dist-wave.output']}[case['store']]
    p['store'] = {'class': 'DataStore', 'store_dir': where, 'create_tn': False,
                  'data_format': case['fmt'], 'inputs': {'input_list': lst}}
    extra = []
    for i, (r, t) in enumerate(sources):
        p[f'f{i}'] = {'class': 'Source', 'polar_coordinates': [float(r), float(t)], 'magnitude': 8,
                      'wavelengthInNm': 600}
        p['prop']['source_dict_ref'].append(f'f{i}')
        p['prop']['outputs'].append(f'out_f{i}_ef')
        extra.append(f'cube{i}-prop.out_f{i}_ef')
        for j, a in enumerate(case['ops']):
            if a['op'] == 'psf':
                p[f'a{j}_{i}'] = {'class': 'PSF', 'simul_params_ref': 'main',
                                  'wavelengthInNm': a['wl'], 'start_time': a['start'],
                                  'inputs': {'in_ef': f'prop.out_f{i}_ef'},
                                  'outputs': ['out_int_psf', 'out_int_sr']}
                p[f'a{j}_{i}'].update({'nd': a['nd']} if a['nd'] else {'pixel_size_mas': a['mas']})
                extra += [f'psf{j}_{i}-a{j}_{i}.out_int_psf', f'sr{j}_{i}-a{j}_{i}.out_int_sr']
            elif a['op'] == 'modal':
                p[f'a{j}_{i}'] = dict({'class': 'ModalAnalysis', 'outputs': ['out_modes'],
                                       'inputs': {'in_ef': f'prop.out_f{i}_ef'}}, **modal_of(a))
                extra.append(f'modes{j}_{i}-a{j}_{i}.out_modes')
    if sources:
        p['store2'] = {'class': 'DataStore', 'store_dir': where + '_ref', 'create_tn': False,
                       'data_format': 'fits', 'inputs': {'input_list': extra}}
    return p


def modal_of(a):
    return dict({'type_str': 'zernike', 'npixels': PIX}, **a['modal'])


def simulate(params, precision):
    import specula
    from specula.simul import Simul
    specula.init(-1, precision=precision)
    np.random.seed(1)
    Simul(write_yaml(params), speed_report=False).run()


def read(path):
    from astropy.io import fits
    with fits.open(path) as h:
        return [np.array(x.data, dtype=float) for x in h if x.data is not None]


def coordinates(sources, style):
    a = np.array(sources, dtype=float)
    if style == 'columns':
        return a.T
    return a if style == 'rows' else a[0]


def run_field(case, st):
    import specula
    from specula.field_analyser import FieldAnalyser
    root = os.path.join(scratch(), 'field')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    tn, ref = os.path.join(root, 'tn'), os.path.join(root, 'with')
    prec = case['prec']
    old = specula.global_precision
    try:
        simulate(loop_params(case, [], tn), prec)
        simulate(loop_params(case, case['sources'], ref), prec)
        if case.get('swap'):
            specula.init(-1, precision=1 - prec)
        kept = {f: open(os.path.join(tn, f), 'rb').read() for f in sorted(os.listdir(tn))}
        tol = 1e-9 if prec == 0 else 2e-5
        for j, a in enumerate(case['ops']):
            msg = one_analysis(case, a, j, root, ref + '_ref', st, FieldAnalyser, tol)
            if msg:
                if isinstance(msg, tuple):
                    return msg[0], f'analysis {j} of {case["ops"]}: {msg[1]}'
                return f'analysis {j} of {case["ops"]}: {msg}'
        now = {f: open(os.path.join(tn, f), 'rb').read() for f in sorted(os.listdir(tn))}
        if now != kept:
            return 'the stored run was changed by its analysis'
    finally:
        specula.init(-1, precision=old)
        shutil.rmtree(root, ignore_errors=True)
    return None


def one_analysis(case, a, j, root, ref, st, FieldAnalyser, tol):
    n = len(case['sources'])
    fa = FieldAnalyser(root, 'tn', coordinates(case['sources'], case['style']),
                       wavelength_nm=a.get('wl', 600), start_time=a.get('start', 0.0))
    force = bool(a.get('force'))
    if a['op'] == 'psf':
        got = fa.compute_field_psf(psf_sampling=a['nd'], psf_pixel_size_mas=a['mas'],
                                   force_recompute=force)
        pairs = [('psf_list', 'psf'), ('sr_list', 'sr')]
    elif a['op'] == 'modal':
        got = fa.compute_modal_analysis(modal_of(a), force_recompute=force)
        pairs = [('modal_coeffs', 'modes')]
    else:
        got = fa.compute_phase_cube(force_recompute=force)
        pairs = [('phase_cubes', None)]
    for key, name in pairs:
        if len(got[key]) != n:
            return f'{len(got[key])} results for {n} sources'
        for i in range(n):
            want = read(os.path.join(ref, (f'{name}{j}_{i}' if name else f'cube{i}') + '.fits'))
            g = np.array(got[key][i], dtype=float)
            st.step()
            st.state(np.round(g, 6))
            if g.shape != want[0].shape:
                return f'{key} of source {i} has shape {g.shape}, expected {want[0].shape}'
            if not np.all(np.isfinite(want[0])):
                return f'{key}: the reference is not finite'
            if key == 'phase_cubes':
                ok = close(g[:, 0], want[0][:, 0], tol) and close(g[:, 1], want[0][:, 1], tol * 10)
            else:
                ok = close(g, want[0], tol * 10)
            if not ok:
                return (f'{key} of source {i} {case["sources"][i]} differs by '
                        f'{np.max(np.abs(g - want[0]))} of {np.max(np.abs(want[0]))} from the '
                        f'simulation with that source')
            if key == 'phase_cubes' and not np.array_equal(got['times'], want[1]):
                return f'times {got["times"]}, expected {want[1]}'
            if key == 'modal_coeffs':
                if not close(got['residual_average'][i], want[0].mean(axis=0), tol * 100) or \
                        not close(got['residual_variance'][i], want[0].var(axis=0), tol * 100):
                    return 'average and variance are not those of the modes'
    d = [float(r) for r, _ in case['sources']]
    if not np.allclose(got['distances'], d):
        return f'distances {got["distances"]}, expected {d}'
    return None


PSF = {'op': 'psf', 'nd': 3, 'mas': None, 'wl': 600, 'start': 0.0}
OPS = {
    'psf': PSF, 'fine': dict(PSF, nd=5), 'mas': dict(PSF, nd=None, mas=8.0),
    'ir': dict(PSF, wl=1650), 'late': dict(PSF, start=0.003),
    'modal': {'op': 'modal', 'modal': {'nmodes': 6}},
    'modal4': {'op': 'modal', 'modal': {'nmodes': 4}},
    'obs': {'op': 'modal', 'modal': {'nmodes': 6, 'obsratio': 0.3}},
    'dia': {'op': 'modal', 'modal': {'nmodes': 6, 'diaratio': 0.9}},
    'wrap': {'op': 'modal', 'modal': {'nmodes': 6, 'wavelengthInNm': 900.0}},
    'rms': {'op': 'modal', 'modal': {'nmodes': 6, 'dorms': True}},
    'cube': {'op': 'cube'},
}
BASE = {'atmo': True, 'dms': [0.0], 'delay': 1, 'store': 'comm', 'fmt': 'fits', 'prec': 0,
        'sources': [[12.0, 40.0]], 'style': 'rows', 'ops': [PSF, OPS['modal'], OPS['cube']]}


def gen_field(tier):
    def case(**kw):
        return dict(BASE, **kw)
    for atmo in (True, False):
        for dms in ([], [0.0], [0.0, 4000.0], [4000.0]):
            for fmt in ('fits', 'pickle'):
                for store in ('comm', 'more', 'wind'):
                    if dms == [] and store == 'comm':
                        continue
                    yield case(atmo=atmo, dms=dms, fmt=fmt, store=store)
            for delay in (0, 2):
                if dms:
                    yield case(atmo=atmo, dms=dms, delay=delay)
            for zen in (30.0,):
                if dms:
                    yield case(atmo=atmo, dms=dms, zenith=zen)
    for src in ([[0.0, 0.0]], [[20.0, 0.0], [20.0, 90.0], [5.0, 200.0]], [[7.0, 10.0], [3.0, 300.0]], [[5.0, -90.0]],
                [[5.0, -90.0], [1e-5, 10.0], [8.25, -0.5]]):
        for style in ('rows', 'columns', 'flat'):
            if style == 'flat' and len(src) > 1 or style == 'rows' and len(src) == 2:
                continue            # two rows are radii and angles
            yield case(sources=src, style=style, dms=[0.0, 4000.0])
    for prec in (0, 1):
        for swap in (False, True):
            yield case(prec=prec, swap=swap, dms=[0.0, 4000.0])


def gen_close(tier):
    """Sources that differ little."""
    for a, b in (([12.0, 40.0], [12.04, 40.0]), ([12.0, 40.0], [12.0, 40.04]),
                 ([0.01, 0.0], [0.02, 180.0]), ([12.0, 40.0], [12.0, 40.0])):
        for op in ('psf', 'modal', 'cube'):
            yield dict(BASE, dms=[4000.0], sources=[a, b], style='columns', ops=[OPS[op]])


def gen_seq(tier):
    """Sequences of analyses of the same run: what is on disk is that of earlier ones."""
    for k in (2,) if tier == 'quick' else (2, 3):
        for ops in itertools.product(OPS, repeat=k):
            if tier != 'quick' or len({OPS[o]['op'] for o in ops}) == 1 or ops[0] < ops[1]:
                yield dict(BASE, dms=[0.0], ops=[OPS[o] for o in ops])
    for o in OPS:
        yield dict(BASE, dms=[0.0], ops=[OPS[o], dict(OPS[o], force=True), OPS[o]])


FAMILIES = [
    Family('loops', gen_field, run_field, weight=4, timeout=120,
           what='turbulence or not x mirrors x controller delays x what is stored x formats x '
                'precisions x field sources and their order; PSF, modes and phases'),
    Family('near', gen_close, run_field, weight=1, timeout=120,
           what='field sources that differ by less than the digits of the file names'),
    Family('sequences', gen_seq, run_field, weight=5, timeout=120,
           what='all pairs (triples) of twelve kinds of analysis of the same run, repeated and forced'),
]
