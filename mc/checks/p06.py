"""P06: erroneous configurations never start."""
import copy
import itertools

from mc import graphs, objs
from mc.core import Family
from mc.harness import main_params, run_simul

RULE = ('every single fault of the stated catalogue is injected at every place of every valid '
        'base configuration of the stated space; the unmodified configuration must run and the '
        'faulty one must stop with an exception before any object is triggered')
ASSUMPTIONS = ['one fault at a time', 'base graphs of at most 3 objects (4 in thorough) plus 3 '
               'configurations of library objects', 'CPU, single process']


def base_graph(g, style):
    p = {'main': main_params(total_time=0.002)}
    p.update(graphs.node_params(g, style))
    p['src'] = {'class': 'McNode', 'uid': 90, 'alien': True, 'outputs': ['out', 'alien']}
    return p


LIB = {
    'control': {
        'src': {'class': 'McNode', 'uid': 90, 'alien': True, 'outputs': ['out', 'alien']},
        'gen': {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': 1.0, 'freq': 10.0,
                'outputs': ['output']},
        'ctl': {'class': 'Integrator', 'int_gain': [0.5], 'simul_params_ref': 'main', 'delay': 1,
                'inputs': {'delta_comm': 'gen.output'}, 'outputs': ['out_comm']},
    },
    'combine': {
        'src': {'class': 'McNode', 'uid': 90, 'alien': True, 'outputs': ['out', 'alien']},
        'g1': {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': 1.0, 'freq': 10.0,
               'outputs': ['output']},
        'g2': {'class': 'WaveGenerator', 'constant': [2.0], 'outputs': ['output']},
        'sum': {'class': 'BaseOperation', 'sum': True,
                'inputs': {'in_value1': 'g1.output', 'in_value2': 'g2.output'}},
    },
    'optics': {
        'src': {'class': 'McNode', 'uid': 90, 'alien': True, 'outputs': ['out', 'alien']},
        'star': {'class': 'Source', 'polar_coordinates': [0.0, 0.0], 'magnitude': 8,
                 'wavelengthInNm': 750},
        'pup': {'class': 'Pupilstop', 'simul_params_ref': 'main'},
        'prop': {'class': 'AtmoPropagation', 'simul_params_ref': 'main',
                 'source_dict_ref': ['star'],
                 'inputs': {'common_layer_list': ['pup']}, 'outputs': ['out_star_ef']},
        'psf': {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': 1650, 'nd': 2,
                'inputs': {'in_ef': 'prop.out_star_ef'}},
    },
}


def faults(p):
    """[(kind, path...)] for every single fault of configuration p."""
    out = []
    for n, d in p.items():
        if n == 'src':
            continue
        out.append(('noclass', n))
        if n == 'main':
            out.append(('param', n, 'pixel_pupill'))
            continue
        for x in ('NoSuchClass', d['class'] + 'X', d['class'].lower()):
            out.append(('class', n, x))
        for x in ('foo', 'foo_ref', 'input', 'ref_', 'target_device'):
            out.append(('param', n, x))
        out.append(('tagextra', n))
        if 'outputs' in d:
            out += [('output', n, 'nope'), ('output', n, 'alien')]
        for k in d:
            if k.endswith('_ref'):
                out += [('refunknown', n, k)]
            if k.endswith('_list_ref') or k.endswith('_dict_ref'):
                out += [('refelem', n, k)]
        if 'inputs' not in d:
            continue
        for i, v in d['inputs'].items():
            for x in ('inputz', i + '1', i.upper()):
                out.append(('inname', n, i, x))
            out += [('drop', n, i)]
            for bad in ('ghost.out', 'src.nope', 'src', 'src.alien', 'ghost', 'main'):
                if bad == 'main' and d['class'] != 'McNode':
                    pass
                if isinstance(v, list):
                    for k in range(len(v)):
                        out.append(('listelem', n, i, k, bad))
                    out.append(('listadd', n, i, bad))
                else:
                    out.append(('inval', n, i, bad))
            for bad in (3, 1.5, True):
                out.append(('inval', n, i, bad))
            if not isinstance(v, list):
                out.append(('two', n, i))
    return out


def required(d, i):
    """Is input i of description d mandatory (library facts of the documented classes)?"""
    if d['class'] == 'McNode':
        return i in d.get('single', [])
    return (d['class'], i) in {('Integrator', 'delta_comm'), ('BaseOperation', 'in_value1'),
                               ('PSF', 'in_ef')}


def inject(p, f):
    p = copy.deepcopy(p)
    kind, n = f[0], f[1]
    d = p[n]
    if kind == 'noclass':
        del d['class']
    elif kind == 'class':
        d['class'] = f[2]
    elif kind == 'param':
        d[f[2]] = 'src'
    elif kind == 'tagextra':
        d['tag'] = 'x'
    elif kind == 'output':
        d['outputs'] = d['outputs'] + [f[2]]
    elif kind == 'refunknown':
        d[f[2]] = ['ghost'] if isinstance(d[f[2]], list) else 'ghost'
    elif kind == 'refelem':
        d[f[2]] = d[f[2]] + ['ghost']
    elif kind == 'inname':
        d['inputs'][f[3]] = d['inputs'].pop(f[2])
    elif kind == 'drop':
        if not required(d, f[2]):
            return None
        del d['inputs'][f[2]]
    elif kind == 'inval':
        d['inputs'][f[2]] = f[3]
    elif kind == 'listelem':
        d['inputs'][f[2]][f[3]] = f[4]
    elif kind == 'listadd':
        d['inputs'][f[2]] = d['inputs'][f[2]] + [f[3]]
    elif kind == 'two':
        d['inputs'][f[2]] = [d['inputs'][f[2]], d['inputs'][f[2]]]
    return p


TRIG = []


def watch():
    """Count every trigger of every object, library ones included."""
    from specula.base_processing_obj import BaseProcessingObj as B
    if getattr(B, '_mc_watched', False):
        return
    real = B.trigger

    def trigger(self):
        TRIG.append(self.name)
        return real(self)
    B.trigger = trigger
    B._mc_watched = True


def base(case):
    if 'lib' in case:
        p = {'main': main_params(total_time=0.002)}
        p.update(copy.deepcopy(LIB[case['lib']]))
        return p
    return base_graph(case['g'], case['style'])


def run(case, st):
    watch()
    p = base(case)
    del TRIG[:]
    run_simul(p)
    if not TRIG:
        return 'the valid configuration triggered nothing'
    st.state(sorted(set(TRIG)))
    for f in faults(base(case)):
        q = inject(base(case), f)
        if q is None:
            continue
        st.step()
        del TRIG[:]
        try:
            run_simul(q)
        except Exception as e:
            st.outcome(f[0], type(e).__name__)
            if TRIG:
                return f'fault {f}: detected ({e}) only after triggering {TRIG}'
            continue
        return f'fault {f} was accepted'
    return None


def gen(tier):
    for n in (2, 3):
        for g in graphs.all_graphs(n, kinds=('', 'd', 'D'),
                                   max_edges=2 if tier == 'quick' else 4, min_edges=1):
            if len(graphs.orderable(g)) < n:
                continue
            for style in ('single', 'list', 'mixed'):
                yield {'g': g, 'style': style}


# ---------------------------------------------------------------- calibrations
EXTRA = {'Recmat': ('recmat', 'modes2recLayer', 'norm_factor', 'precision'),
         'M2C': ('m2c', 'precision'), 'Slopes': ('length', 'slopes', 'interleave', 'precision')}


def run_tags(case, st):
    from mc.checks import p05
    p05.prepare()
    watch()

    def conf(d, more=None):
        p = {'main': main_params(total_time=0.002)}
        p.update({'src': {'class': 'McNode', 'uid': 0, 'outputs': ['out']}, 't': d})
        p.update(more or {})
        return p

    def attempt(p):
        del TRIG[:]
        try:
            run_simul(p)
        except Exception as e:
            st.outcome(type(e).__name__)
            return TRIG and f'detected ({e}) only after triggering {TRIG}'
        return 'accepted'
    st.step()
    st.state(case)
    d = {'class': case['cls'], 'tag': 'a'} if 'cls' in case else {'class': 'McCal', **case['v']}
    if attempt(conf(d)) != 'accepted' or not TRIG:
        return f'the valid configuration {d} was refused'
    d.update(case['bad'])
    m = attempt(conf(d))
    if m:
        return f'{case["bad"]} in {d}: {m}'


def gen_tags(tier):
    from mc.checks import p05
    for cls, pars in EXTRA.items():
        for m in (1, 2):
            for sel in itertools.combinations(pars + ('target_device_idx', 'foo'), m):
                if sel == ('target_device_idx',):
                    continue        # allowed beside the tag
                yield {'cls': cls, 'bad': {k: -1 for k in sel}}
        for t in ('zz', 'A', 'a.fit', '', 'a/b'):
            yield {'cls': cls, 'bad': {'tag': t}}
    for f, (suf, _) in p05.FIELDS.items():
        if suf in ('_data', '_object'):
            for bad in ('zz', 'A', 'a/b'):
                yield {'v': {f + suf: 'a'}, 'bad': {f + suf: bad}}
            for s2 in ('_list_object', '_dict_object', '_list_ref', '_dict_ref', '_ref'):
                yield {'v': {f + suf: 'a'}, 'bad': {f + s2: 'a'}}
            continue
        for n in (1, 2, 3):
            ok = ['a', 'b', 'c.d'][:n]
            for i in range(n):
                for x in ('zz', 'B'):
                    bad = ok[:i] + [x] + ok[i + 1:]
                    if 'dict' in suf:
                        yield {'v': {f + suf: dict(zip('kjm', ok))},
                               'bad': {f + suf: dict(zip('kjm', bad))}}
                    else:
                        yield {'v': {f + suf: ok}, 'bad': {f + suf: bad}}
        yield {'v': {f + suf: None}, 'bad': {f + suf: 'a'}}
        yield {'v': {f + suf: None}, 'bad': {f + suf: {'k': 'a'} if 'list' in suf else ['a']}}


FAMILIES = [
    Family('tags', gen_tags, run_tags,
           what='objects restored from a tag with 1-2 extra parameters or a missing file; every '
                'calibration parameter with a missing file at each position, or of the wrong '
                'form'),
    Family('graphs', gen, run, weight=7,
           what='all faults in all orderable graphs of 2-3 objects with 1-2 (thorough 1-4) edges, '
                'single/list/mixed inputs', timeout=120),
    Family('library', lambda tier: [{'lib': k} for k in LIB], run, weight=3,
           what='all faults in three configurations of library objects', timeout=120),
]
