"""P07: a simulation distributed over ranks computes what the single process computes."""
import copy
import itertools

from mc import fakempi, graphs, objs
from mc.core import Family
from mc.harness import main_params, run_simul, write_yaml

RULE = ('every assignment of the objects of every graph (up to the stated bounds) to ranks is run '
        'by real simulator instances, one per rank, exchanging messages through a controlled '
        'communicator; everything each object observes must equal the single-process run, no '
        'rank may wait forever and no message may be left over; for small cases every schedule '
        'with a bounded number of preemptions at communication points is explored')
ASSUMPTIONS = ['sequentially consistent communicator with per-(source,tag) FIFO order; buffered '
               'sends are captured at the call, unbuffered ones at the receive',
               '2-3 ranks, at most 4 objects, 3 iterations', 'CPU, one process per rank modelled '
               'as a thread (module state of the ranks is shared, object state is not)']


def per_uid(log):
    out = {}
    for ev in log:
        if ev[0] in ('trigger', 'finalize', 'setup'):
            out.setdefault(ev[1], []).append(ev)
    return out


def distributed(params, ranks, nranks, explore=None, st=None):
    """Returns (message, log)."""
    p = copy.deepcopy(params)
    for k, r in ranks.items():
        if r is not None:
            p[k]['target_rank'] = r
    path = write_yaml(p)
    from specula.simul import Simul
    sims = {}

    def body(r):
        s = Simul(path, speed_report=False)
        sims[r] = s
        s.run()

    def verdict(w, left):
        if w.errors:
            r, e = sorted(w.errors.items())[0]
            return f'rank {r} failed: {type(e).__name__}: {e}'
        if w.deadlock:
            return w.deadlock
        if left:
            return f'messages never received: {left}'
        if st is not None:
            st.step(w.sent)
        return None

    fakempi.install()
    try:
        if explore is None:
            del objs.LOG[:]
            w = fakempi.World(nranks)
            msg = verdict(w, w.run(body))
            return msg, list(objs.LOG), sims, 1
        want, bound = explore

        def check(w, left):
            msg = verdict(w, left)
            got = per_uid(objs.LOG)
            del objs.LOG[:]
            if msg is None and got != want:
                msg = diff(got, want)
            return msg
        del objs.LOG[:]
        msg, runs = fakempi.explore(nranks, body, bound, check)
        return msg, None, sims, runs
    finally:
        fakempi.uninstall()


def diff(got, want):
    for u in sorted(set(got) | set(want)):
        if got.get(u) != want.get(u):
            return (f'object {u} observed {got.get(u)}, in a single process '
                    f'{want.get(u)}')


def run(case, st):
    g = case['g']
    params = {'main': main_params(total_time=case.get('T', 0.003))}
    params.update(graphs.node_params(
        g, case['style'], {i: {'none': case.get('none')} for i in range(g['n'])},
        emit=case['emit'], delay=case.get('delay', 1)))
    _, log = run_simul(params)
    want = per_uid(log)
    ranks = {f'n{i}': r for i, r in enumerate(case['r'])}
    nr = case.get('nr', 2)
    if 'bound' in case:
        msg, _, _, runs = distributed(params, ranks, nr, (want, case['bound']), st)
        st.outcome(runs)
        st.state(case)
        return msg
    msg, log, _, _ = distributed(params, ranks, nr, None, st)
    if msg:
        return msg
    got = per_uid(log)
    st.state(got)
    st.outcome(case['r'])
    if got != want:
        return diff(got, want)
    return None


EMITS = [('1', '1', '1', '1'), ('1', '01', '10', '1'), ('01', '1', '1', '10')]


def gen(tier):
    for g in graphs.all_graphs(3, max_edges=3 if tier == 'quick' else 6):
        if len(graphs.orderable(g)) < 3:
            continue
        for k, style in enumerate(('single', 'list')):
            for r in itertools.product((None, 1) if tier == 'quick' else (0, 1, None), repeat=3):
                if 1 in r:
                    yield {'g': g, 'style': style, 'r': r, 'emit': EMITS[(k + len(g['edges'])) % 3]}


def gen3(tier):
    for g in graphs.all_graphs(3, max_edges=3 if tier == 'quick' else 4, min_edges=2):
        if len(graphs.orderable(g)) < 3:
            continue
        for r in itertools.permutations((0, 1, 2)):
            yield {'g': g, 'style': 'mixed', 'r': r, 'nr': 3, 'emit': EMITS[1]}


def gen4(tier):
    for g in graphs.all_graphs(4, max_edges=3 if tier == 'quick' else 4, min_edges=3):
        if len(graphs.orderable(g)) < 4:
            continue
        for r in ((1, 0, 0, 1), (0, 1, 0, 1)) if tier == 'quick' else \
                [x for x in itertools.product((0, 1), repeat=4) if x[0] != x[1] or x[2] != x[3]]:
            yield {'g': g, 'style': 'mixed', 'r': r, 'emit': EMITS[2]}


def genv(tier):
    """delays of 2, outputs without a value at first, several wires between the same objects"""
    for g in graphs.all_graphs(2, min_edges=1):
        if len(graphs.orderable(g)) < 2:
            continue
        for m in (1, 2, 3):
            for style in ('single', 'list', 'mixed'):
                for emit in itertools.product(('1', '01', '10'), repeat=2):
                    for delay in (1, 2):
                        for none in (False, True):
                            for r in ((0, 1), (1, 0)):
                                yield {'g': {'n': 2, 'edges': g['edges'] * m}, 'style': style,
                                       'emit': emit, 'r': r, 'delay': delay, 'none': none}
    for g in graphs.all_graphs(3, min_edges=2, max_edges=2):
        if len(graphs.orderable(g)) < 3:
            continue
        for emit in EMITS:
            for r in itertools.product((0, 1), repeat=3):
                if len(set(r)) > 1:
                    yield {'g': g, 'style': 'mixed', 'emit': emit, 'r': r, 'delay': 2,
                           'none': True}


def genT(tier):
    """durations that are not a whole number of steps"""
    for g in graphs.all_graphs(2):
        if len(graphs.orderable(g)) < 2:
            continue
        for T in (0.001, 0.0015, 0.002, 0.0024, 0.0025, 0.0026, 0.0039, 0.0041, 0.007):
            for style in ('single', 'list'):
                for r in ((0, 1), (1, 0)):
                    yield {'g': g, 'style': style, 'r': r, 'emit': EMITS[0], 'T': T}


def gens(tier):
    b = 2 if tier == 'quick' else 3
    for g in graphs.all_graphs(2, min_edges=1):
        if len(graphs.orderable(g)) < 2:
            continue
        for r in ((0, 1), (1, 0)):
            yield {'g': g, 'style': 'single', 'r': r, 'emit': EMITS[1], 'bound': b, 'T': 0.002}
    for g in graphs.all_graphs(3, min_edges=2, max_edges=2):
        if len(graphs.orderable(g)) < 3:
            continue
        yield {'g': g, 'style': 'list', 'r': (0, 1, 0), 'emit': EMITS[2], 'bound': 1, 'T': 0.002}


# ---------------------------------------------------------------- list-valued outputs
def run_list(case, st):
    params = {'main': main_params(total_time=0.003),
              'n0': {'class': 'McNode', 'uid': 0, 'list_out': case['n'], 'emit': case['emit'],
                     'outputs': ['out', 'lst']},
              'n1': {'class': 'McNode', 'uid': 1, 'lists': ['l'], 'outputs': ['out'],
                     'inputs': {'l': ['n0.lst' + case['d']] +
                                (['n0.out' + case['d']] if case['both'] else [])}}}
    _, log = run_simul(params)
    want = per_uid(log)
    msg, log, _, _ = distributed(params, {f'n{i}': r for i, r in enumerate(case['r'])}, 2,
                                 None, st)
    if msg is None and per_uid(log) != want:
        msg = diff(per_uid(log), want)
    st.state(case)
    if msg and case['r'][0] != case['r'][1] and case['n'] > 1:
        return ('listout', msg)
    return msg


def gen_list(tier):
    for n in (1, 2, 3):
        for emit in ('1', '01'):
            for d in ('', ':-1'):
                for both in (0, 1):
                    for r in ((0, 1), (1, 0), (1, 1)):
                        yield {'n': n, 'emit': emit, 'd': d, 'both': both, 'r': r}


def run_outputs(case, st):
    """several outputs of one object, read in any order by one or two others"""
    params = {'main': main_params(total_time=0.003)}
    for k in (0, 1):
        params[f'n{k}'] = {'class': 'McNode', 'uid': k, 'n_out': 3, 'emit': case['emit'][k],
                           'outputs': ['out', 'out1', 'out2']}
    for i, sel in enumerate(case['sel']):
        src = [x + case['d'] for x in sel]
        d = {'class': 'McNode', 'uid': 2 + i, 'outputs': ['out']}
        if case['style'] == 'single':
            d['single'] = [f'i{j}' for j in range(len(src))]
            d['inputs'] = {f'i{j}': x for j, x in enumerate(src)}
        elif case['style'] == 'list':
            d['lists'] = ['l']
            d['inputs'] = {'l': src}
        else:
            d['lists'] = ['l', 'm']
            d['inputs'] = {'l': src, 'm': src[::-1]}
        params[f'n{2 + i}'] = d
    _, log = run_simul(params)
    want = per_uid(log)
    ranks = {f'n{i}': r for i, r in enumerate(case['r'])}
    msg, log, _, _ = distributed(params, ranks, max(case['r']) + 1, None, st)
    st.state(want)
    if msg is None and per_uid(log) != want:
        msg = diff(per_uid(log), want)
    return msg


def gen_outputs(tier):
    outs = [f'n{k}.{o}' for k in (0, 1) for o in ('out', 'out1', 'out2')]
    for d in ('', ':-1'):
        for style in ('single', 'list', 'lists'):
            for m in (2, 3):
                for sel in itertools.permutations(outs[:4] if m == 2 else outs[:3] + outs[4:5], m):
                    for emit in (('1', '1'), ('01', '1')):
                        rs = ((1, 1, 0), (0, 0, 1), (0, 1, 0), (0, 1, 2))
                        for r in rs if m == 2 or tier != 'quick' else rs[:2]:
                            yield {'sel': [sel], 'style': style, 'd': d, 'r': r, 'emit': emit}
            for a, b in itertools.permutations(list(itertools.permutations(outs[:3], 2)), 2):
                for r in ((0, 0, 1, 1), (1, 0, 0, 2)) if tier == 'quick' else \
                        ((0, 0, 1, 1), (1, 1, 0, 0), (1, 0, 0, 2), (0, 0, 1, 0)):
                    yield {'sel': [a, b], 'style': style, 'd': d, 'r': r, 'emit': ('10', '1')}


# ---------------------------------------------------------------- library objects
LIB = {
    'fields': {
        's1': {'class': 'Source', 'polar_coordinates': [0.0, 0.0], 'magnitude': 8,
               'wavelengthInNm': 750},
        's2': {'class': 'Source', 'polar_coordinates': [1.0, 90.0], 'magnitude': 9,
               'wavelengthInNm': 750},
        'pup': {'class': 'Pupilstop', 'simul_params_ref': 'main'},
        'gen': {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': [30.0, 20.0],
                'freq': [100.0, 50.0], 'constant': [5.0, 7.0]},
        'dm': {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 2,
               'height': 0, 'inputs': {'in_command': 'gen.output'}},
        'prop': {'class': 'AtmoPropagation', 'simul_params_ref': 'main',
                 'source_dict_ref': ['s1', 's2'],
                 'inputs': {'common_layer_list': ['pup', 'dm.out_layer']}},
        'comb': {'class': 'ElectricFieldCombinator',
                 'inputs': {'in_ef1': 'prop.out_s1_ef', 'in_ef2': 'prop.out_s2_ef'}},
        'refl': {'class': 'ElectricFieldReflection', 'inputs': {'in_ef': 'prop.out_s2_ef'}},
        'comb2': {'class': 'ElectricFieldCombinator',
                  'inputs': {'in_ef_list': ['comb.out_ef', 'refl.out_ef', 'prop.out_s1_ef']}},
        'psf': {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': 1650, 'nd': 2,
                'inputs': {'in_ef': 'comb2.out_ef'}},
    },
    'loop': {
        's1': {'class': 'Source', 'polar_coordinates': [0.0, 0.0], 'magnitude': 8,
               'wavelengthInNm': 750},
        'pup': {'class': 'Pupilstop', 'simul_params_ref': 'main'},
        'gen': {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': [30.0, 20.0],
                'freq': [100.0, 50.0], 'constant': [5.0, 7.0]},
        'turb': {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 2,
                 'height': 0, 'inputs': {'in_command': 'gen.output'}},
        'prop': {'class': 'AtmoPropagation', 'simul_params_ref': 'main',
                 'source_dict_ref': ['s1'],
                 'inputs': {'common_layer_list': ['pup', 'turb.out_layer',
                                                  'dm.out_layer:-1']}},
        'ana': {'class': 'ModalAnalysis', 'type_str': 'zernike', 'nmodes': 2, 'npixels': 8,
                'inputs': {'in_ef': 'prop.out_s1_ef'}},
        'ctl': {'class': 'Integrator', 'simul_params_ref': 'main', 'int_gain': [0.5, 0.25],
                'inputs': {'delta_comm': 'ana.out_modes'}},
        'dm': {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 2,
               'height': 0, 'inputs': {'in_command': 'ctl.out_comm'}},
    },
    'vector': {
        'g1': {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': [1.0, 2.0],
               'freq': [100.0, 50.0]},
        'g2': {'class': 'WaveGenerator', 'wave_type': 'TRIANGLE', 'amp': [4.0, 3.0],
               'freq': [200.0, 50.0]},
        'add': {'class': 'BaseOperation', 'sum': True,
                'inputs': {'in_value1': 'g1.output', 'in_value2': 'f1.out_comm:-1'}},
        'cat': {'class': 'BaseOperation', 'concat': True,
                'inputs': {'in_value1': 'add.out_value', 'in_value2': 'g2.output'}},
        'f1': {'class': 'LowPassFilter', 'simul_params_ref': 'main', 'cutoff_freq': [100.0] * 2, 'n_ord': 2,
               'inputs': {'delta_comm': 'g2.output'}},
        'mul': {'class': 'BaseOperation', 'mul': True,
                'inputs': {'in_value1': 'g1.output', 'in_value2': 'f1.out_comm:-1'}},
    },
    'detector': {
        's1': {'class': 'Source', 'polar_coordinates': [0.0, 0.0], 'magnitude': 4,
               'wavelengthInNm': 750},
        'pup': {'class': 'Pupilstop', 'simul_params_ref': 'main'},
        'gen': {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': [30.0, 20.0],
                'freq': [100.0, 50.0], 'constant': [5.0, 7.0]},
        'dm': {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 2,
               'height': 0, 'inputs': {'in_command': 'gen.output'}},
        'prop': {'class': 'AtmoPropagation', 'simul_params_ref': 'main',
                 'source_dict_ref': ['s1'],
                 'inputs': {'common_layer_list': ['pup', 'dm.out_layer']}},
        'sh': {'class': 'SH', 'wavelengthInNm': 750, 'subap_wanted_fov': 4.0,
               'sensor_pxscale': 1.0, 'subap_on_diameter': 2, 'subap_npx': 4,
               'inputs': {'in_ef': 'prop.out_s1_ef'}},
        'det': {'class': 'CCD', 'simul_params_ref': 'main', 'size': [8, 8], 'dt': 0.002,
                'bandw': 300, 'photon_noise': False, 'readout_noise': False,
                'inputs': {'in_i': 'sh.out_i'}},
        'win': {'class': 'WindowedIntegration', 'simul_params_ref': 'main', 'n_elem': 2, 'dt': 0.002,
                'inputs': {'input': 'gen.output'}},
    },
}


def lib_params(name):
    p = {'main': main_params(total_time=0.004, pixel_pupil=8)}
    p.update(copy.deepcopy(LIB[name]))
    return p


def observables(o):
    """Everything a reader of data object o can see: numbers, arrays, time."""
    import numpy as np
    out = {}
    for k, v in sorted(vars(o).items()):
        if k in ('gpu_bytes_used', 'xp', 'target_device_idx', 'name', 'tag', 'precision',
                 '_time_resolution', 'gpu_bytes_used_before', 'gpu_bytes_used_after'):
            continue
        if isinstance(v, np.ndarray):
            out[k] = (v.shape, v.tobytes())
        elif isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool):
            out[k] = repr(float(v))
        elif isinstance(v, (str, bool, type(None), np.generic)):
            out[k] = repr(v)
    return out


SEEN = {}


def spy():
    """Record, at every trigger, what an object finds on its inputs."""
    from specula.base_processing_obj import BaseProcessingObj as B
    if getattr(B, '_mc_spied', False):
        return
    real = B.check_ready

    def check_ready(self, t):
        r = real(self, t)
        if r:
            rec = []
            for k, v in self.local_inputs.items():
                for x in (v if isinstance(v, list) else [v]):
                    if x is not None:
                        rec.append((k, observables(x)))
            SEEN.setdefault(self.name, []).append((t, rec))
        return r
    B.check_ready = check_ready
    B._mc_spied = True


def finals(objs_):
    out = {}
    for n, o in objs_.items():
        outs = getattr(o, 'outputs', None)
        if outs:
            for k, v in outs.items():
                for i, x in enumerate(v if isinstance(v, list) else [v]):
                    out[f'{n}.{k}[{i}]'] = observables(x)
    return out


_local = {}


def run_lib(case, st):
    spy()
    name = case['lib']
    if name not in _local:
        SEEN.clear()
        s, _ = run_simul(lib_params(name))
        _local[name] = (finals(s.objs), copy.deepcopy(SEEN))
    want, wseen = _local[name]
    SEEN.clear()
    msg, _, sims, _ = distributed(lib_params(name), case['r'], case['nr'], None, st)
    if msg:
        return msg
    s0 = None
    for n, recs in wseen.items():
        got = SEEN.get(n, [])
        if [x[0] for x in got] != [x[0] for x in recs]:
            return (f'{n} was triggered at {[x[0] for x in got]}, in a single process at '
                    f'{[x[0] for x in recs]}')
        for (t, a), (_, b) in zip(got, recs):
            for (k, x), (_, y) in zip(a, b):
                if x != y:
                    bad = sorted(q for q in set(x) | set(y) if x.get(q) != y.get(q))
                    m = (f'{n}.{k} at t={t}: {bad} differ from the single process: '
                         f'{[(x.get(q), y.get(q)) for q in bad]}')[:600]
                    if bad != ['S0']:
                        return m
                    s0 = s0 or m
    got = {}
    for r, s in sims.items():
        for n, o in s.objs.items():
            if n in wseen or n not in s.remote_objs_ranks:
                got.update(finals({n: o}))
    for k in want:
        if got.get(k) != want[k]:
            bad = sorted(q for q in set(want[k]) if (got.get(k) or {}).get(q) != want[k][q])
            if bad == ['S0']:
                s0 = s0 or f'final S0 of {k} differs'
                continue
            return f'final {k}: {bad} differ from the single process'
    st.state(case)
    st.outcome(case['lib'], sorted(case['r'].items()))
    return ('s0', s0) if s0 else None


def gen_lib(tier):
    for name, p in LIB.items():
        procs = [k for k in p if p[k]['class'] not in ('Source', 'Pupilstop')]
        for r in itertools.product((0, 1), repeat=len(procs)):
            if not any(r):
                continue
            yield {'lib': name, 'r': dict(zip(procs, r)), 'nr': 2}
        if tier != 'quick':
            for r in itertools.product((0, 1, 2), repeat=len(procs)):
                if set(r) == {0, 1, 2}:
                    yield {'lib': name, 'r': dict(zip(procs, r)), 'nr': 3}


FAMILIES = [
    Family('library', gen_lib, run_lib, weight=8,
           what='four simulations of library objects (fields, closed loop, vectors, detector) x '
                'all rank assignments over 2 (thorough also 3) ranks; every input seen at every '
                'trigger is compared', timeout=120),
    Family('outputs', gen_outputs, run_outputs, weight=4,
           what='two objects with three outputs each, two or three of them in any order read by '
                'one or two other objects as single inputs, one or two lists'),
    Family('lists', gen_list, run_list,
           what='an output that is a list of 1-3 objects, read directly or delayed, alone or '
                'together with another output, on the same or another rank'),
    Family('graphs3', gen, run, weight=6,
           what='all orderable graphs of 3 objects with <=3 (thorough 6) edges x all rank '
                'assignments over 2 ranks'),
    Family('ranks3', gen3, run, weight=4,
           what='all orderable graphs of 3 objects with 2-3 (thorough 2-4) edges, one rank each, '
                'all permutations'),
    Family('graphs4', gen4, run, weight=4,
           what='orderable graphs of 4 objects with 3 (thorough 3-4) edges over 2 ranks'),
    Family('variants', genv, run, weight=3,
           what='graphs of 2 objects wired 1-3 times (and 3-object chains), delays of 1 and 2 '
                'steps, outputs that hold no value at first, 9 refresh patterns'),
    Family('duration', genT, run, weight=2,
           what='all orderable graphs of 2 objects x 9 durations, multiple of the step or not'),
    Family('schedules', gens, run, weight=6, timeout=300,
           what='all schedules with <=2 (thorough 3) preemptions of all 2-object graphs, and with '
                '<=1 preemption of all 3-object 2-edge graphs'),
]
