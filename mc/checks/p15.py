"""P15: vector blocks and signal generators."""
import itertools
import math

import numpy as np

from mc.core import Family
from mc.harness import step, feed, close, main_params, run_simul, simul_params

RULE = ('Every vector block (operation, slicer, inserter, matrix product, combinators) outputs the '
        'stated function of its present inputs for every parameter and history of refreshed '
        'inputs, in its own memory; every generator follows its formula or table at every step')
ASSUMPTIONS = [
    'vectors of up to 6 elements; the linear blocks are decided by their basis vectors',
    'random generators are decided by their amplitudes, sizes, seeds and independence of steps',
]


def tol():
    import specula
    return 1e-9 if specula.global_precision == 0 else 3e-5


def bv(arr, t=None):
    from specula.base_value import BaseValue
    v = BaseValue(value=np.array(arr, dtype=float))
    if t is not None:
        v.generation_time = t
    return v


# ------------------------------------------------------------------ BaseOperation
OPS = ('mul', 'div', 'sum', 'sub', 'concat')
CONST = ('constant_mul', 'constant_div', 'constant_sum', 'constant_sub', 'constant_max',
         'constant_min')


def gen_op(tier):
    depth = 4 if tier == 'thorough' else 3
    for op in OPS:
        for mode in ('full', 'short', 'remap'):
            if op == 'concat' and mode == 'remap':
                continue
            yield {'op': op, 'mode': mode, 'depth': depth}
    for op in CONST:
        for c in (2.0, -0.5, 3, 1, [1.0, -2.0, 0.25, 4.0]):
            if isinstance(c, list) and op in ('constant_max', 'constant_min'):
                continue
            for two in (False, True):
                yield {'op': op, 'c': c, 'two': two, 'depth': depth}


V1 = [np.array([1., -2., 3., 0.5]), np.array([0., 4., -1., 2.])]
V2 = {'full': [np.array([2., 4., -1., 0.5]), np.array([-3., 1., 8., -2.])],
      'short': [np.array([2., 4.]), np.array([-3., 8.])],
      'remap': [np.array([5., -4.]), np.array([-3., 8.])]}
REMAP = [3, 1]


def ref_op(case, a, b):
    op = case['op']
    if op in CONST:
        c = np.array(case['c'], dtype=float)
        return {'constant_mul': lambda: a * c, 'constant_div': lambda: a / c,
                'constant_sum': lambda: a + c, 'constant_sub': lambda: a - c,
                'constant_max': lambda: np.where(a > c, a, c),
                'constant_min': lambda: np.where(a < c, a, c)}[op]()
    if op == 'concat':
        return np.concatenate([a, b])
    neutral = 1.0 if op == 'div' else 0.0
    full = np.full(4, neutral)
    if case['mode'] == 'full':
        full = b
    elif case['mode'] == 'short':
        full[:2] = b
    else:
        for k, j in enumerate(REMAP):
            full[j] = b[k]
    return {'mul': a * full, 'div': a / full, 'sum': a + full, 'sub': a - full}[op]


def run_op(case, st):
    from specula.processing_objects.base_operation import BaseOperation
    # per step: which input is refreshed (1, 2 or both) and with which values
    letters = [(0, None), (1, None), (None, 0), (None, 1), (0, 1), (1, 0), None]
    two = case['op'] in OPS or case['two']
    if not two:
        letters = [(0, None), (1, None), None]
    v2s = V2[case.get('mode', 'full')]
    for word in itertools.product(letters, repeat=case['depth']):
        kw = {case['op']: True} if case['op'] in OPS else {case['op']: case['c']}
        if case.get('mode') == 'short':
            kw['value2_is_shorter'] = True
        if case.get('mode') == 'remap':
            kw['value2_remap'] = list(REMAP)
        o = BaseOperation(**kw)
        i1 = bv(V1[0], 0)
        o.inputs['in_value1'].set(i1)
        if two:
            i2 = bv(v2s[0], 0)
            o.inputs['in_value2'].set(i2)
        o.setup()
        a, b = V1[0].copy(), v2s[0].copy()
        t0 = 1000
        ref, when = None, None
        for k, w in enumerate(word):
            t = t0 * (k + 1)
            fresh = False
            if w is not None:
                if w[0] is not None:
                    a = V1[w[0]]
                    feed(i1, a, t)
                    fresh = True
                if w[1] is not None:
                    b = v2s[w[1]]
                    feed(i2, b, t)
                    fresh = True
            if step(o, t) != fresh:
                return f'word {word}: step {k} triggered={not fresh}'
            st.step()
            if fresh:
                ref, when = ref_op(case, a, b), t
            out = o.outputs['out_value']
            if ref is not None:
                if not close(out.value, ref, tol()):
                    return f'word {word}, step {k}: {np.array(out.value).tolist()}, expected {ref.tolist()}'
                if out.generation_time != when:
                    return f'word {word}, step {k}: time {out.generation_time}, expected {when}'
            if not close(i1.value, a, 1e-7) or (two and not close(i2.value, b, 1e-7)):
                return f'word {word}, step {k}: an input was modified'
        st.state(case['op'], ref)
    st.outcome(case['op'])
    return None


# ------------------------------------------------------------------ slicer and inserter
def gen_slice(tier):
    vals = [None, -4, -1, 0, 1, 2, 5, 8] if tier != 'thorough' else [None] + list(range(-7, 9))
    for start in vals:
        for step_ in (None, 1, 2, -1, -2, 3):
            yield {'start': start, 'step': step_, 'stops': vals}
    for k in (1, 2, 3):
        yield {'k': k}
    yield {'k': 0}


def run_slice(case, st):
    from specula.processing_objects.base_slicer import BaseSlicer
    base = np.array([3., 1., 4., 1.5, 9.])

    def one(kw, ref):
        o = BaseSlicer(**kw)
        i = bv(base, 0)
        o.inputs['in_value'].set(i)
        o.setup()
        for k, scale in enumerate((1.0, -2.0)):
            feed(i, base * scale, k + 1)
            if not step(o, k + 1):
                return 'not triggered'
            st.step()
            out = o.outputs['out_value']
            want = ref(base * scale)
            got = np.array(out.value)
            if not close(got.reshape(-1), np.array(want).reshape(-1), 1e-7):
                return f'{kw}: {got.tolist()}, expected {np.array(want).tolist()}'
            if out.generation_time != k + 1:
                return f'{kw}: time {out.generation_time}'
            # the output is the value at its own time: not a window on the input
            keep = got.copy()
            feed(i, base + 17, k + 1)
            if not close(np.array(out.value), keep, 1e-7):
                return f'{kw}: the output changes when the producer refreshes its data'
        st.state(got)
        return None

    if 'k' in case:
        if case['k'] == 0:
            msg = one({}, lambda v: v)
            if msg:
                return msg
            try:
                BaseSlicer(indices=[0], slice_args=[0, 1])
                return 'both selections accepted'
            except ValueError:
                pass
            for j in range(-5, 5):
                msg = one({'indices': j}, lambda v: v[j])
                if msg:
                    return msg
        else:
            for idx in itertools.product(range(-2, 5), repeat=case['k']):
                msg = one({'indices': list(idx)}, lambda v: [v[j] for j in idx])
                if msg:
                    return msg
    else:
        for stop in case['stops']:
            args = [case['start'], stop] if case['step'] is None else \
                [case['start'], stop, case['step']]
            msg = one({'slice_args': args}, lambda v: list(v)[slice(*args)])
            if msg:
                return msg
    st.outcome(sorted(case))
    return None


def gen_insert(tier):
    for k in (1, 2):
        for n in (1, 2):
            yield {'kind': 'indices', 'len': k, 'pairs': n}
    for n in (1, 2):
        yield {'kind': 'slice', 'pairs': n}


def run_insert(case, st):
    from specula.processing_objects.base_inserter import BaseInserter
    src = np.array([10., 20., 30.])
    size = 4
    if case['kind'] == 'indices':
        one = [([*a], [*b]) for a in itertools.product(range(3), repeat=case['len'])
               for b in itertools.permutations(range(size), case['len'])]
    else:
        one = []
        for a in [(0, 2), (1, 3), (0, 3, 2), (-2, None), (2, 0, -1), (None, 2)]:
            for b in [(0, 2), (2, 4), (1, 3), (0, 4, 2), (3, 1, -1), (-2, None)]:
                one.append(([*a], [*b]))
    if case['pairs'] == 1:
        combos = [[p] for p in one]
    else:
        combos = [[p, q] for p in one for q in one[::max(1, len(one) // 24)]]
    for pairs in combos:
        forms = [[list(p) for p in pairs]]
        if len(pairs) == 1:
            forms.append(list(pairs[0]))
        for form in forms:
            kw = {'indices': form} if case['kind'] == 'indices' else {'slice_args': form}
            o = BaseInserter(output_size=size, **kw)
            i = bv(src, 0)
            o.inputs['in_value'].set(i)
            o.setup()
            ref = [0.0] * size
            for k, scale in enumerate((1.0, -1.0)):
                feed(i, src * scale, k + 1)
                if not step(o, k + 1):
                    return 'not triggered'
                st.step()
                for a, b in pairs:
                    if case['kind'] == 'indices':
                        sa, sb = a, b
                    else:
                        sa = list(range(*slice(*a).indices(3)))
                        sb = list(range(*slice(*b).indices(size)))
                    for x, y in zip(sa, sb):
                        ref[y] = src[x] * scale
                out = o.outputs['out_value']
                if not close(out.value, ref, 1e-7) or out.generation_time != k + 1:
                    return f'{kw}: {np.array(out.value).tolist()}, expected {ref}'
            if not close(i.value, -src, 1e-7):
                return f'{kw}: input modified'
            st.state(ref)
    st.outcome(case['kind'], case['pairs'])
    return None


# ------------------------------------------------------------------ linear blocks
def gen_lin(tier):
    for no_focus in (False, True):
        for no_lift in (False, True):
            for ps in (None, 5, 6):
                yield {'kind': 'comb', 'no_focus': no_focus, 'no_lift': no_lift, 'ps': ps}
    for n_in in range(1, 4):
        for n_out in range(1, 4):
            yield {'kind': 'mvm', 'n_in': n_in, 'n_out': n_out}
    for lo in ((2, 0, 3), (1, 0, 1), (2, 0, 2), (2, 1, 2)):
        for f in (0, 1, 2):
            for p in (0, 1, 3):
                yield {'kind': 'mirror', 'lo': list(lo), 'f': f, 'p': p}


def run_lin(case, st):
    """All the refresh patterns of the inputs, with independent numbers in every element."""
    from specula.data_objects.recmat import Recmat
    if case['kind'] == 'comb':
        from specula.processing_objects.linear_combination import LinearCombination
        names = ['lgs'] + ([] if case['no_focus'] else ['focus']) + \
            ([] if case['no_lift'] else ['lift']) + ['ngs']
        size = {'lgs': 9, 'focus': 1, 'lift': 2, 'ngs': 5}
        # the two flags must describe the inputs which are present
        for n_in in range(1, 6):
            for nf, nl in itertools.product((False, True), repeat=2):
                c = LinearCombination(simul_params(), no_focus=nf, no_lift=nl)
                c.inputs['in_vectors_list'].set([bv(np.arange(5.) + 1, 0) for _ in range(n_in)])
                try:
                    c.setup()
                    ok = True
                except ValueError:
                    ok = False
                st.step()
                if ok != (n_in == 4 - nf - nl):
                    return f'{n_in} inputs, no_focus={nf}, no_lift={nl}: accepted={ok}'
        o = LinearCombination(simul_params(), no_focus=case['no_focus'], no_lift=case['no_lift'],
                              plate_scale_idx=case['ps'])
        coeff = np.array([0.5, -0.25, 2.0])
        o.ps_coeff = o.to_xp(coeff)
        outs = {'out_vector': lambda v: comb(v)}

        def comb(v):
            r = list(v['lgs'])
            r[0], r[1] = v['ngs'][0], v['ngs'][1]
            if 'focus' in v:
                r[2] = v['focus'][0]
            if case['ps'] is not None:
                for k in range(3):
                    r[2 + k] -= v['ngs'][2 + k] * coeff[k]
                for k in range(3):
                    r[case['ps'] + k] = v['ngs'][2 + k]
            return r + list(v.get('lift', []))
        ins = {n: bv(np.zeros(size[n]), 0) for n in names}
        o.inputs['in_vectors_list'].set([ins[n] for n in names])
    elif case['kind'] == 'mvm':
        from specula.processing_objects.mvm import MVM
        m = (np.arange(case['n_in'] * case['n_out']).reshape(case['n_out'], case['n_in']) + 1) ** 1.5
        o = MVM(Recmat(m.copy()))
        names = ['in_vector']
        ins = {'in_vector': bv(np.zeros(case['n_in']), 0)}
        o.inputs['in_vector'].set(ins['in_vector'])
        outs = {'out_vector': lambda v: [sum(m[i, j] * v['in_vector'][j] for j in range(case['n_in']))
                                         for i in range(case['n_out'])]}
        bad = MVM(Recmat(m.copy()))
        bad.inputs['in_vector'].set(bv(np.zeros(case['n_in'] + 1), 0))
        try:
            bad.setup()
            return 'a vector of the wrong size is accepted'
        except ValueError:
            pass
    else:
        from specula.processing_objects.mirror_commands_combinator import MirrorCommandsCombinator
        lo, f = case['lo'], case['f']
        out_dims = [8, 3, 4]
        ho = [out_dims[0] - lo[0] - f, out_dims[1] - lo[1], out_dims[2] - lo[2]]
        kvec = np.arange(lo[2]) * 0.5 + 0.25
        n_p = max(case['p'], 1)
        A = np.arange(9 * n_p).reshape(9, n_p) * 0.1 - 1
        o = MirrorCommandsCombinator(kvec, Recmat(A.copy()), dims_LO=lo, dims_P=case['p'], dims_F=f,
                                     out_dims=out_dims)
        size = {'in_commandsHO': sum(ho), 'in_commandsLO': sum(lo), 'in_commandsF': f,
                'in_commandsP': n_p}
        names = list(size)
        ins = {n: bv(np.zeros(size[n]), 0) for n in names}
        for n in names:
            o.inputs[n].set(ins[n])

        def c1(v):
            r = list(v['in_commandsLO'][:lo[0]]) + list(v['in_commandsF']) + \
                list(v['in_commandsHO'][:ho[0]])
            for k in range(lo[2]):
                r[lo[0] + k] += kvec[k] * v['in_commandsLO'][lo[0] + lo[1] + k]
            if case['p'] > 0:
                for i in range(8):
                    r[i] += sum(A[i, j] * v['in_commandsP'][j] for j in range(n_p))
            return r

        def c3(v):
            return list(v['in_commandsLO'][lo[0] + lo[1]:]) + list(v['in_commandsHO'][ho[0] + ho[1]:])
        outs = {'out_result_commands1': c1, 'out_result_commands3': c3}
        if lo[1] == 0:
            outs['out_result_commands2'] = lambda v: v['in_commandsHO'][ho[0]:ho[0] + ho[1]]
        else:
            return None     # a middle mirror with low orders is declared unsupported
    val = {}
    for n in names:
        k = names.index(n)
        val[n] = (np.arange(len(ins[n].value)) + 1.0) * (k + 1.5)
        ins[n].value[:] = val[n]
    o.setup()
    subsets = [s for r in range(len(names) + 1) for s in itertools.combinations(names, r)]
    t = 0
    ref, when = None, None
    for a in subsets:
        for b in subsets:
            for s in (a, b):
                t += 1
                for n in s:
                    val[n] = np.sin(np.arange(len(val[n])) * 1.3 + t) * 5
                    feed(ins[n], val[n], t)
                trig = step(o, t)
                if trig != bool(s):
                    return f'refreshed {s}: triggered={trig}'
                st.step()
                if s:
                    ref, when = {k: np.array(fn(val), dtype=float) for k, fn in outs.items()}, t
                if ref is None:
                    continue
                for k in outs:
                    got = o.outputs[k]
                    if not close(got.value, ref[k], tol()):
                        return (f'after {a}, {b}: {k} = {np.array(got.value).tolist()}, '
                                f'expected {ref[k].tolist()}')
                    if got.generation_time != when:
                        return f'after {a}, {b}: {k} has time {got.generation_time}, expected {when}'
                for n in names:
                    if not close(ins[n].value, val[n], 1e-6):
                        return f'after {a}, {b}: input {n} was modified'
    st.state(case)
    st.outcome(case['kind'])
    return None


# ------------------------------------------------------------------ generators
def gen_wave(tier):
    for w in ('SIN', 'square', 'TRIANGLE'):
        for amp in (0.0, 2.0, [1.0, 3.0]):
            for freq in (0.0, 7.0, 130.0, [5.0, 11.0]):
                for off in (0.0, 0.3, [0.1, 2.0]):
                    yield {'w': w, 'amp': amp, 'freq': freq, 'off': off}


def run_wave(case, st):
    from specula.processing_objects.wave_generator import WaveGenerator
    for slope in (0.0, 3.0, [1.0, -2.0]):
        for const in (0.0, -1.5, [0.5, 4.0]):
            for vsize in (1, 3):
                pars = [case['amp'], case['freq'], case['off'], slope, const]
                n = 2 if any(isinstance(p, list) for p in pars) else 1
                if n == 2 and vsize == 3:
                    continue
                size = n if n > 1 else vsize
                g = WaveGenerator(wave_type=case['w'], amp=case['amp'], freq=case['freq'],
                                  offset=case['off'], slope=slope, constant=const, vsize=vsize)
                g.setup()
                full = [np.broadcast_to(np.array(p, dtype=float), size) for p in pars]
                a, f, o, s, c = full
                for t in (0, 1, 2, 3, 5, 8, 13, 40, 41):
                    ns = t * 1_700_000
                    if not step(g, ns):
                        return 'not triggered'
                    st.step()
                    sec = ns * 1e-9
                    ref = []
                    skip = False
                    for i in range(size):
                        ph = 2 * math.pi * f[i] * sec + o[i]
                        sn = math.sin(ph)
                        if case['w'].upper() == 'SQUARE':
                            if abs(sn) < 1e-3 and a[i] and ph != 0:
                                skip = True
                            wv = (sn > 0) - (sn < 0)
                        elif case['w'] == 'TRIANGLE':
                            wv = 2 / math.pi * math.asin(sn)
                        else:
                            wv = sn
                        ref.append(s[i] * sec + a[i] * wv + c[i])
                    if skip:
                        continue
                    got = g.outputs['output']
                    lim = 1e-9 if tol() < 1e-8 else 1e-3
                    if np.shape(got.value) != (size,) or \
                            not np.all(np.abs(got.value - np.array(ref)) <= lim * 5):
                        return f'slope {slope}, constant {const}, t={sec}: {got.value}, expected {ref}'
                    if got.generation_time != ns:
                        return f't={ns}: generation time {got.generation_time}'
                st.state(ref)
    st.outcome(case['w'])
    return None


def gen_sched(tier):
    n = 6 if tier != 'thorough' else 8
    for mask in range(1 << n):
        yield {'times': [k for k in range(n) if mask >> k & 1], 'n': n}


def run_sched(case, st):
    from specula.processing_objects.schedule_generator import ScheduleGenerator
    times = [k * 0.0013 for k in case['times']]
    for groups in ([1], 2, [2, 1], [1, 0, 3]):
        ng = 1 if isinstance(groups, int) else len(groups)
        vals = [[(j + 1) * 10.0 + g for g in range(ng)] for j in range(len(times) + 1)]
        s = ScheduleGenerator(scheduled_values=vals, scheduled_times=times, modes_per_group=groups)
        s.setup()
        reps = [groups] if isinstance(groups, int) else groups
        for k2 in range(2 * case['n'] + 1):
            t = k2 * 650_000
            if not step(s, t):
                return 'not triggered'
            st.step()
            j = sum(1 for k in case['times'] if k * 1_300_000 <= t)
            ref = [v for g, r in enumerate(reps) for v in [vals[j][g]] * r]
            got = s.outputs['output']
            if not close(got.value, ref, 1e-6) or got.generation_time != t:
                return f'groups {groups}, t={t}: {got.value}, expected {ref}'
        st.state(ref, groups)
    for wrong in (-1, 1):
        try:
            ScheduleGenerator(scheduled_values=[[1.0]] * (len(times) + 1 + wrong),
                              scheduled_times=times, modes_per_group=[1])
            return 'accepts a wrong number of values'
        except (ValueError, IndexError):
            pass
    st.outcome(len(times))
    return None


def gen_pushpull(tier):
    for nm in range(1, 5 if tier != 'thorough' else 7):
        for first in range(0, nm):
            for typ in ('PUSH', 'pushpull'):
                for ncyc in (1, 2, 3):
                    for ns in ((1, 2, 3) if typ == 'pushpull' else (1,)):
                        yield {'nm': nm, 'first': first, 'typ': typ, 'ncyc': ncyc, 'ns': ns}


def radial(j):
    """Radial order of the Noll index j."""
    n = 0
    while j > (n + 1) * (n + 2) // 2:
        n += 1
    return n


def run_pushpull(case, st):
    from specula.processing_objects.push_pull_generator import PushPullGenerator
    nm, first, ncyc, ns = case['nm'], case['first'], case['ncyc'], case['ns']
    k = nm - first
    for amps in ('amp', 'const', 'vect'):
        for rep, full in itertools.product((False, True), repeat=2):
            for pattern in ((1, -1), (-1, 1), (1, -1, 0.5)):
                kw = {'amp': {'amp': 4.0}, 'const': {'amp': 4.0, 'constant_amp': True},
                      'vect': {'vect_amplitude': [2.0 + i for i in range(k)]}}[amps]
                if case['typ'] == 'PUSH':
                    pat = (1,)
                else:
                    pat = pattern
                    kw['pattern'] = list(pattern)
                g = PushPullGenerator(nmodes=nm, first_mode=first, push_pull_type=case['typ'],
                                      ncycles=ncyc, nsamples=ns, repeat_ncycles=rep,
                                      repeat_full_sequence=full, **kw)
                g.setup()
                a = {'amp': [4.0 / math.sqrt(radial(m + 2)) for m in range(first, nm)],
                     'const': [4.0] * k, 'vect': [2.0 + i for i in range(k)]}[amps]
                seq = []
                if full:
                    for _ in range(ncyc):
                        for m in range(k):
                            seq += [(m, p) for p in pat]
                else:
                    for m in range(k):
                        if rep:
                            seq += [(m, p) for p in pat for _ in range(ncyc)]
                        else:
                            seq += [(m, p) for _ in range(ncyc) for p in pat]
                seq = [x for x in seq for _ in range(ns)]
                for i, (m, p) in enumerate(seq):
                    if not step(g, i):
                        return 'not triggered'
                    st.step()
                    ref = [0.0] * nm
                    ref[first + m] = p * a[m]
                    got = g.outputs['output']
                    if not close(got.value, ref, 1e-6) or got.generation_time != i:
                        return (f'{kw}, repeat_ncycles={rep}, full={full}: step {i} is '
                                f'{np.array(got.value).tolist()}, expected {ref}')
                if np.shape(g.time_hist)[0] != len(seq):
                    return f'{kw}, repeat_ncycles={rep}, full={full}: sequence of {np.shape(g.time_hist)[0]} steps, expected {len(seq)}'
                st.state(seq)
    st.outcome(case['typ'], k)
    return None


def gen_hist(tier):
    for n in range(1, 5):
        for m in range(0, 4):
            yield {'n': n, 'm': m}


def run_hist(case, st):
    from specula.processing_objects.time_history_generator import TimeHistoryGenerator
    from specula.data_objects.time_history import TimeHistory
    n, m = case['n'], case['m']
    data = np.arange(n, dtype=float) * 2 + 1 if m == 0 else \
        np.arange(n * m, dtype=float).reshape(n, m) * 2 + 1
    th = TimeHistory(data.copy())
    g, h = TimeHistoryGenerator(th), TimeHistoryGenerator(th)
    for o in (g, h):
        o.setup()
    for i in range(n + 3):
        for o in (g, h):
            if o is h and i % 2:
                continue
            if not step(o, i * 7):
                return 'not triggered'
            st.step()
            k = i if o is g else i // 2
            ref = np.atleast_1d(data[min(k, n - 1)])
            got = o.outputs['output']
            if not close(got.value, ref, 1e-7) or got.generation_time != i * 7:
                return f'step {i}: {got.value}, expected {ref}'
    if not close(th.time_history, data, 0):
        return 'the history was modified'
    st.state(data)
    st.outcome(m)
    return None


def gen_random(tier):
    for dist in ('NORMAL', 'uniform'):
        for size in (1, 3):
            for seed in (1, 2, 7):
                yield {'dist': dist, 'size': size, 'seed': seed}
    for law in ('CONSTANT', 'inverse', 'LINEAR'):
        for n in (1, 3, 6, 10, 15, 21, 28):
            yield {'law': law, 'n': n}


def run_random(case, st):
    from specula.processing_objects.random_generator import RandomGenerator

    def out(g, n=4):
        g.setup()
        res = []
        for t in range(n):
            if not step(g, t):
                raise AssertionError('not triggered')
            st.step()
            res.append(np.array(g.outputs['output'].value, dtype=float))
            if g.outputs['output'].generation_time != t:
                raise AssertionError('time')
        return np.array(res)
    if 'law' in case:
        n = case['n']
        for zero in range(0, n + 2):
            try:
                a = out(RandomGenerator(seed=3, modal_rms=5.0, output_size=n, forced_zero_modes=zero,
                                        scaling_law=case['law']))
            except ValueError:
                if zero <= n:
                    return f'{zero} forced zeros of {n} refused'
                continue
            if zero > n:
                return f'{zero} forced zeros of {n} accepted'
            base = out(RandomGenerator(seed=3, output_size=n))
            w = []
            for j in range(1, n + 1):
                r = radial(j)
                w.append(0.0 if j <= zero else
                         {'CONSTANT': 1.0, 'inverse': 1.0 / max(r, 1), 'LINEAR': float(max(r, 1))}[case['law']])
            nrm = math.sqrt(sum(x * x for x in w))
            ref = base * np.array([x * 5.0 / nrm if nrm else 0.0 for x in w])
            if not close(a, ref, 1e-5):
                return f'{zero} forced zeros: {a[0].tolist()}, expected {ref[0].tolist()}'
            st.state(ref)
        st.outcome(case['law'])
        return None
    size, seed = case['size'], case['seed']
    kw = dict(distribution=case['dist'], seed=seed)
    base = out(RandomGenerator(output_size=size, **kw))
    again = out(RandomGenerator(output_size=size, **kw))
    if not np.array_equal(base, again):
        return 'the same seed gives another sequence'
    if np.array_equal(base, out(RandomGenerator(output_size=size, **{**kw, 'seed': seed + 10}))):
        return 'another seed gives the same sequence'
    if len(np.unique(base)) != base.size:
        return f'values repeat: {base.tolist()}'
    if case['dist'] == 'uniform' and not np.all(np.abs(base) <= 0.5):
        return 'uniform values outside of the range'
    for amp in (2.0, 0.0, [1.0, 2.0, 3.0]):
        for const in (0.0, 4.0, [1.0, 0.0, -1.0]):
            if size == 1 and (isinstance(amp, list) or isinstance(const, list)):
                continue
            a = out(RandomGenerator(output_size=size, amp=amp, constant=const, **kw))
            ref = base * np.array(amp) + np.array(const)
            if not close(a, ref, 1e-5):
                return f'amp {amp}, constant {const}: {a[0].tolist()}, expected {ref[0].tolist()}'
            st.state(ref)
    # many steps: the moments are those of the distribution
    many = out(RandomGenerator(output_size=size, **kw), 3000)
    sd = 1.0 if case['dist'] == 'NORMAL' else math.sqrt(1 / 12)
    if abs(many.mean()) > 0.1 * sd or abs(many.std() / sd - 1) > 0.1:
        return f'mean {many.mean()}, standard deviation {many.std()}, expected 0 and {sd}'
    st.outcome(case['dist'])
    return None


def gen_vib(tier):
    steps = (0.001, 0.002, 0.0005, 0.1, 0.0033)
    for dt in steps:
        for n in range(2, 13 if tier != 'thorough' else 40):
            yield {'dt': dt, 'n': n}


def run_vib(case, st):
    """As many different samples as iterations, with the energy of the given spectrum."""
    from specula.processing_objects.vibration_generator import VibrationGenerator
    dt, n = case['dt'], case['n']
    fs = 1 / dt
    total = float(repr(round(n * dt, 9)))
    freq = np.linspace(0.1, fs / 2, 5)
    psd = np.array([[1., 2, 3, 2, 1], [5., 5, 5, 5, 5], [0., 1, 0, 1, 0]])
    for zero in (False, True):
        all_out = {}
        for nm in (1, 2, 3):
            for twod in (False, True):
                g = VibrationGenerator(simul_params(time_step=dt, total_time=total), nm, psd,
                                       np.tile(freq, (3, 1)).T if twod else freq, seed=11,
                                       start_from_zero=zero)
                g.setup()
                res = []
                for k in range(n):
                    t = round(k * dt * 1e9)
                    if not step(g, t):
                        return 'not triggered'
                    st.step()
                    res.append(np.array(g.outputs['output'].value, dtype=float))
                res = np.array(res)
                if res.shape != (n, nm):
                    return f'shape {res.shape}'
                for k in range(1, n):
                    if np.array_equal(res[k], res[k - 1]) and n > 2:
                        return (f'{n} iterations of {dt} s: the signal stops at iteration {k} '
                                f'(total_time {total})')
                if zero and np.any(res[0] != 0):
                    return 'does not start from zero'
                if not twod:
                    all_out[nm] = res
                elif not close(res, all_out[nm], 1e-6):
                    return 'the same frequencies given per mode change the signal'
                hist = np.array(g.time_hist, dtype=float)
                if not zero:
                    if np.abs(hist.mean(axis=0)).max() > 1e-3 * np.abs(hist).max():
                        return 'the signal has a mean value'
        for nm in (1, 2):
            if not close(all_out[nm], all_out[3][:, :nm], 1e-6):
                return f'the first modes change with the number of modes ({nm} or 3)'
        st.state(all_out[3])
    st.outcome(n % 2)
    return None


# ------------------------------------------------------------------ demodulation
def gen_demod(tier):
    for nper in (2, 4, 5, 8):
        for per in (8, 10, 16):
            yield {'nper': nper, 'per': per}


def run_demod(case, st):
    """Amplitude of one mode out of several, in windows which follow each other."""
    from specula.processing_objects.demodulator import Demodulator
    n = case['nper'] * case['per']
    dt = 0.001
    f = 1 / (dt * case['per'])
    sp = simul_params(time_step=dt, total_time=1.0)
    amps = np.array([0.5, 2.0, 4.0])
    for modes in ([0], [2], [1, 0], [0, 1, 2], [2, 1]):
        outs = {}
        for scale in (1.0, 3.0):
            o = Demodulator(sp, mode_numbers=list(modes), carrier_frequencies=[f] * len(modes),
                            demod_dt=n * dt)
            i = bv(np.zeros(3), 0)
            o.inputs['in_data'].set(i)
            o.setup()
            res = []
            last = o.outputs['output'].generation_time
            for k in range(2 * n):
                t = k * 1_000_000
                win = 1 + k // n           # the second window has twice the amplitude
                feed(i, amps * scale * win * math.sin(2 * math.pi * f * k * dt), t)
                if not step(o, t):
                    return 'not triggered'
                st.step()
                out = o.outputs['output']
                due = (k + 1) % n == 0
                if (out.generation_time == t and t > 0) != due:
                    return f'modes {modes}: output at step {k}: {not due}'
                if due:
                    res.append(np.array(out.value, dtype=float))
            outs[scale] = np.array(res)
            st.state(res)
        if not close(outs[3.0], 3 * outs[1.0], 1e-3):
            return f'modes {modes}: {outs[3.0].tolist()} is not 3 times {outs[1.0].tolist()}'
        if not close(outs[1.0][1], 2 * outs[1.0][0], 1e-3):
            return f'modes {modes}: windows are not independent: {outs[1.0].tolist()}'
        ref = amps[modes]
        r = outs[1.0][0] / ref
        if not close(r, np.full(len(modes), r.mean()), 1e-3) or not 0.7 < r.mean() < 1.2:
            return f'modes {modes}: amplitudes {outs[1.0][0].tolist()}, expected {ref.tolist()}'
    st.outcome(case['nper'])
    return None


# ------------------------------------------------------------------ in a simulation
BLOCKS = {
    'slice': ({'class': 'BaseSlicer', 'slice_args': [0, 2],
               'inputs': {'in_value': 'gen.output'}}, 'out_value', lambda u, p: u[:2]),
    'index': ({'class': 'BaseSlicer', 'indices': [2, 0],
               'inputs': {'in_value': 'gen.output'}}, 'out_value', lambda u, p: u[[2, 0]]),
    'all': ({'class': 'BaseSlicer', 'inputs': {'in_value': 'gen.output'}}, 'out_value',
            lambda u, p: u),
    'tail': ({'class': 'BaseSlicer', 'slice_args': [-2, None, None],
              'inputs': {'in_value': 'gen.output'}}, 'out_value', lambda u, p: u[-2:]),
    'insert': ({'class': 'BaseInserter', 'output_size': 4, 'slice_args': [[0, 2], [1, 3]],
                'inputs': {'in_value': 'gen.output'}}, 'out_value',
               lambda u, p: np.array([0, u[0], u[1], 0])),
    'const': ({'class': 'BaseOperation', 'constant_mul': 3.0,
               'inputs': {'in_value1': 'gen.output'}}, 'out_value', lambda u, p: 3 * u),
    'max': ({'class': 'BaseOperation', 'constant_max': 2.0,
             'inputs': {'in_value1': 'gen.output'}}, 'out_value', lambda u, p: np.maximum(u, 2.0)),
    'cat': ({'class': 'BaseOperation', 'concat': True,
             'inputs': {'in_value1': 'gen.output', 'in_value2': 'gen.output'}}, 'out_value',
            lambda u, p: np.concatenate([u, u])),
    'win': ({'class': 'WindowedIntegration', 'simul_params_ref': 'main', 'n_elem': 3, 'dt': 0.001,
             'inputs': {'input': 'gen.output'}}, 'output', lambda u, p: u),
}


def gen_simul(tier):
    for b in BLOCKS:
        for perm in itertools.permutations(('gen', 'blk', 'late', 'now')):
            yield {'blk': b, 'perm': list(perm)}


def run_sim(case, st):
    """Readers of a block, in the same step or one step late, in every order of the file."""
    import copy
    cfg, out, fn = BLOCKS[case['blk']]
    n = 6
    objs = {'gen': {'class': 'WaveGenerator', 'constant': [1.0, 2.0, 0.5],
                    'slope': [250.0, -500.0, 1000.0], 'vsize': 1},
            'blk': copy.deepcopy(cfg),
            'late': {'class': 'BaseOperation', 'concat': True,
                     'inputs': {'in_value1': f'blk.{out}:-1', 'in_value2': 'gen.output'}},
            'buf': {'class': 'DataBuffer', 'buffer_size': n,
                    'inputs': {'input_list': ['l-late.out_value']}},
            'now': {'class': 'DataBuffer', 'buffer_size': n,
                    'inputs': {'input_list': [f'x-blk.{out}']}}}
    # where the parameters do not give the size of the output, its reader is in the same step
    late = case['blk'] not in ('all', 'tail', 'cat')
    if not late:
        objs['late']['inputs']['in_value1'] = f'blk.{out}'
    # the output of an operation has no size before its setup, which comes after that of the reader
    added = case['blk'] in ('const', 'max')
    if added:
        objs['late'] = {'class': 'BaseOperation', 'sum': True,
                        'inputs': {'in_value1': 'gen.output', 'in_value2': f'blk.{out}:-1'}}
    p = {'main': main_params(total_time=n * 0.001)}
    for k in case['perm'] + ['buf']:
        p[k] = objs[k]
    s, _ = run_simul(p)
    us = [np.array([1.0, 2.0, 0.5]) + np.array([.25, -.5, 1.0]) * i for i in range(n)]
    ref, prev = [], np.zeros(3)
    for u in us:
        ref.append(np.array(fn(u, prev), dtype=float))
        prev = u
    st.step(n)
    st.state(ref)
    st.outcome(case['blk'], s.trigger_order)
    got = np.array(s.objs['now'].outputs['x_buffered'].value, dtype=float)
    if not close(got.reshape(-1), np.array(ref).reshape(-1), 1e-5):
        return f'the output read in its step: {got.tolist()}, expected {np.array(ref).tolist()}'
    m = len(ref[0])
    got = np.array(s.objs['buf'].outputs['l_buffered'].value, dtype=float).reshape(n, -1)
    if added:
        got = np.concatenate([got - np.array(us), np.array(us)], axis=1)
    seen, want = (got[1:, :m], np.array(ref[:-1])) if late else (got[:, :m], np.array(ref))
    if not close(seen, want, 1e-5):
        return f'the output read {"one step late" if late else "in its step"}: {seen.tolist()}, ' \
               f'expected {want.tolist()}'
    if not close(got[:, m:], np.array(us), 1e-5):
        return f'second reader: {got[:, m:].tolist()}'
    return None


FAMILIES = [
    Family('op', gen_op, run_op, precisions=(0, 1), weight=4, what='words of refreshed inputs'),
    Family('slice', gen_slice, run_slice, precisions=(0,), weight=2, what='all selections'),
    Family('insert', gen_insert, run_insert, precisions=(0,), weight=2, what='all insertions'),
    Family('lin', gen_lin, run_lin, precisions=(0, 1), weight=2,
           what='combinators and matrix products, all refresh patterns'),
    Family('wave', gen_wave, run_wave, precisions=(0, 1), weight=2, what='wave parameters'),
    Family('sched', gen_sched, run_sched, precisions=(0, 1), weight=1, what='all schedules'),
    Family('pushpull', gen_pushpull, run_pushpull, precisions=(0,), weight=2,
           what='calibration sequences'),
    Family('hist', gen_hist, run_hist, precisions=(0,), weight=1, what='time histories'),
    Family('random', gen_random, run_random, precisions=(0,), weight=1, what='random generators'),
    Family('vib', gen_vib, run_vib, precisions=(0,), weight=1, what='vibrations'),
    Family('demod', gen_demod, run_demod, precisions=(0,), weight=1, what='demodulation'),
    Family('simul', gen_simul, run_sim, precisions=(0,), weight=2,
           what='readers of a block in every order of the parameter file'),
]
