"""P05: what each object is built with (references, calibration data)."""
import itertools
import os

from mc import objs
from mc.core import Family
from mc.harness import main_params, run_simul, scratch

RULE = ('every acyclic reference graph up to the stated size x kind of reference x textual order '
        'is built by the real Simul and the instances received by each constructor are compared '
        'with the named ones; every assignment of calibration tags up to the stated bounds is '
        'resolved from real files whose contents identify them')
ASSUMPTIONS = ['at most 4 mutually referring objects', 'calibration lists of at most 3 tags',
               'files saved by the data objects themselves']


def dags(n, max_edges):
    ps = [(a, b) for a in range(n) for b in range(n) if a != b]
    for m in range(max_edges + 1):
        for es in itertools.combinations(ps, m):
            left = set(range(n))
            while True:
                free = [x for x in left if not any(a == x and b in left for a, b in es)]
                if not free:
                    break
                left -= set(free)
            yield list(es), not left


def assign(es, style):
    """{node: {'x': t, 'ys': [...], 'zd': [...]}} for the edge list."""
    out = {}
    for i, (a, b) in enumerate(es):
        d = out.setdefault(a, {'x': None, 'ys': [], 'zd': []})
        if style == 'x' and d['x'] is None:
            d['x'] = b
        elif style == 'mix' and d['x'] is None and i % 2:
            d['x'] = b
        elif style in ('ys', 'x') or (style == 'mix' and i % 3 == 0):
            d['ys'].append(b)
        else:
            d['zd'].append(b)
    for d in out.values():
        if style in ('ys', 'mix'):
            d['ys'].reverse()
            if d['ys']:
                d['ys'].append(d['ys'][0])      # the same object twice
    return out


def run_refs(case, st):
    n, es, style, order = case['n'], case['e'], case['style'], case['order']
    ref = assign(es, style)
    params = {}
    main = main_params(total_time=0.001)
    if case['main'] == 'first':
        params['main'] = main
    for u in order:
        kind = 'McRef' if (u + case['kinds']) % 2 else 'McRefData'
        d = {'class': kind, 'uid': u}
        r = ref.get(u, {})
        if r.get('x') is not None:
            d['x_ref'] = f'o{r["x"]}'
        if r.get('ys'):
            d['ys_list_ref'] = [f'o{k}' for k in r['ys']]
        if r.get('zd'):
            d['zd_dict_ref'] = [f'o{k}' for k in r['zd']]
        if u == 0:
            d['p_ref'] = 'main'
        params[f'o{u}'] = d
    if case['main'] == 'last':
        params['main'] = main
    if not case['ok']:
        st.outcome('cyclic')
        try:
            run_simul(params)
        except Exception:
            return None
        return 'objects referring to each other in a cycle were accepted'
    s, log = run_simul(params)
    st.step(len(log))
    st.state([(o.uid, o.name) for o in log])
    if sorted(o.uid for o in log) != list(range(n)):
        return f'objects constructed: {[o.uid for o in log]}'
    for o in log:
        if o is not s.objs[f'o{o.uid}'] or o.name != f'o{o.uid}':
            return f'object {o.uid} is not the one registered under its name'
        r = ref.get(o.uid, {'x': None, 'ys': [], 'zd': []})
        if o.x is not (None if r['x'] is None else s.objs[f'o{r["x"]}']):
            return f'object {o.uid}: wrong referred object'
        want = [s.objs[f'o{k}'] for k in r['ys']] or None
        if (o.ys is None) != (want is None) or (want and (
                len(o.ys) != len(want) or any(a is not b for a, b in zip(o.ys, want)))):
            return f'object {o.uid}: wrong list of referred objects'
        want = {f'o{k}': s.objs[f'o{k}'] for k in r['zd']} or None
        if (o.zd is None) != (want is None) or (want and (
                list(o.zd) != list(want) or any(o.zd[k] is not want[k] for k in want))):
            return f'object {o.uid}: wrong dictionary of referred objects'
        if o.p is not (s.objs['main'] if o.uid == 0 else None):
            return 'wrong reference to the main parameters'
    st.outcome([o.uid for o in log])
    return None


def gen_refs(tier):
    for n, me in ((2, 2), (3, 3), (4, 2 if tier == 'quick' else 6)):
        orders = list(itertools.permutations(range(n)))
        for k, (es, ok) in enumerate(dags(n, me)):
            for style in ('x', 'ys', 'zd', 'mix'):
                if style == 'mix' and len(es) < 2:
                    continue
                oo = orders if n < 4 or tier != 'quick' else [orders[(k * 7) % 24],
                                                              orders[(k * 7 + 11) % 24]]
                if not ok:
                    oo = oo[:2]
                for i, order in enumerate(oo):
                    yield {'n': n, 'e': es, 'ok': ok, 'style': style, 'order': order,
                           'kinds': (i + k) % 2, 'main': 'first' if i % 2 else 'last'}


# ---------------------------------------------------------------- calibration files
TAGS = ['a', 'b', 'c.d', 'e_1']
SUBDIR = {'Recmat': 'rec', 'M2C': 'm2c', 'Slopes': 'slopes', 'Intmat': 'im', 'data': 'data',
          'recmat': 'rec', 'm2c': 'm2c', 'intmat': 'im'}


def content(kind, tag):
    import numpy as np
    k = sorted(SUBDIR).index(kind) * 10 + TAGS.index(tag)
    return np.arange(6.).reshape(2, 3) + 100 * (k + 1)


_done = []


def prepare():
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.m2c import M2C
    from specula.data_objects.slopes import Slopes
    from astropy.io import fits
    if _done:
        return
    root = scratch()
    for d in set(SUBDIR.values()):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for t in TAGS:
        p = os.path.join(root, '%s', t + '.fits')
        Recmat(content('Recmat', t)).save(p % 'rec', overwrite=True)
        Recmat(content('Intmat', t)).save(p % 'im', overwrite=True)
        M2C(content('M2C', t)).save(p % 'm2c', overwrite=True)
        Slopes(slopes=content('Slopes', t).ravel()).save(p % 'slopes', overwrite=True)
        fits.writeto(p % 'data', content('data', t), overwrite=True)
    _done.append(1)


def same(o, kind, tag):
    import numpy as np
    v = o if kind == 'data' else o.get_value()
    w = content(kind, tag[:-5] if tag.endswith('.fits') else tag)
    return np.array_equal(np.asarray(v).ravel(), w.ravel()) and (
        kind == 'data' or o.tag == tag)


FIELDS = {      # parameter -> (suffix, kind of file)
    'd': ('_data', 'data'), 'e': ('_data', 'data'), 'recmat': ('_object', 'Recmat'),
    'm2c': ('_object', 'M2C'), 'intmat': ('_object', 'Intmat'),
    'recs': ('_list_object', 'Recmat'), 'slos': ('_list_object', 'Slopes'),
    'mods': ('_list_object', 'M2C'), 'recd': ('_dict_object', 'Recmat'),
    'm2cd': ('_dict_object', 'M2C')}


def run_cal(case, st):
    prepare()
    par = {'class': 'McCal'}
    for f, v in case['v'].items():
        par[f + FIELDS[f][0]] = v
    params = {'main': main_params(total_time=0.001), 'c': par}
    for i, (cls, tag) in enumerate(case.get('tags', [])):
        params[f't{i}'] = {'class': cls, 'tag': tag}
    s, _ = run_simul(params)
    got = s.objs['c'].pars
    st.step(len(got))
    for i, (cls, tag) in enumerate(case.get('tags', [])):
        o = s.objs[f't{i}']
        if type(o).__name__ != cls or not same(o, cls, tag) or o.name != f't{i}':
            return f'object restored from tag {tag} of {cls} has the wrong contents or name'
    for f in FIELDS:
        v = case['v'].get(f)
        g = got[f]
        kind = FIELDS[f][1]
        if v is None:
            if g is not None:
                return f'parameter {f} is {g}, expected nothing'
        elif isinstance(v, list):
            if len(g) != len(v) or not all(same(a, kind, t) for a, t in zip(g, v)):
                return f'parameter {f}: wrong list of calibrations for {v}'
        elif isinstance(v, dict):
            if list(g) != list(v) or not all(same(g[k], kind, v[k]) for k in v):
                return f'parameter {f}: wrong dictionary of calibrations for {v}'
        elif not same(g, kind, v):
            return f'parameter {f}: wrong calibration for {v}'
    st.state(case['v'])
    st.outcome(sorted(case['v']))
    return None


def gen_cal(tier):
    tags = TAGS + ['a.fits']
    for f, (suf, _) in FIELDS.items():
        yield {'v': {f: None}}
        if suf in ('_data', '_object'):
            for t in tags:
                yield {'v': {f: t}}
        else:
            for n in range(0, 4):
                for ts in itertools.product(tags[:3], repeat=n):
                    yield {'v': {f: list(ts) if suf == '_list_object' else
                                 dict(zip('kjm', ts))}}
    for ts in itertools.product(TAGS[:2], repeat=6):
        yield {'v': {'d': ts[0], 'e': ts[1], 'recmat': ts[2], 'm2c': ts[3],
                     'recs': [ts[4], ts[5]], 'recd': {'u': ts[5], 'v': ts[4]}},
               'tags': [('Recmat', ts[1]), ('M2C', ts[0]), ('Slopes', ts[2])]}
    if tier != 'quick':
        for f, g in itertools.permutations(FIELDS, 2):
            for t, u in itertools.product(tags, repeat=2):
                def val(f, t):
                    suf = FIELDS[f][0]
                    return t if suf in ('_data', '_object') else (
                        [t, 'b'] if 'list' in suf else {'x': t, 'y': 'b'})
                yield {'v': {f: val(f, t), g: val(g, u)}}


# ---------------------------------------------------------------- calibration tree
def run_tree(case, st):
    """write/read sequences on the calibration tree against a dictionary."""
    import shutil
    import numpy as np
    from specula.calib_manager import CalibManager
    root = os.path.join(scratch(), 'tree')
    shutil.rmtree(root, ignore_errors=True)
    for d in ('data', 'rec', 'im', 'phasescreens', 'slopenulls', 'pupils'):
        os.makedirs(os.path.join(root, d))
    cm = CalibManager(root)
    dirs = {'data': 'data', 'recmat': 'rec', 'Recmat': 'rec', 'intmat': 'im',
            'sn': 'slopenulls', 'pupdata': 'pupils', 'PupData': 'pupils'}
    ref = {}
    for i, (op, kind, tag) in enumerate(case['ops']):
        st.step()
        key = (dirs[kind], tag[:-5] if tag.endswith('.fits') else tag)
        want = os.path.join(root, dirs[kind], key[1] + '.fits')
        if os.path.normpath(cm.filename(kind, tag)) != want:
            return f'file of {kind}/{tag} is {cm.filename(kind, tag)}, expected {want}'
        if op == 'w':
            v = np.full((2,), float(i + 1))
            cm.write_data(tag, v) if kind == 'data' else cm.writefits(kind, tag, v)
            ref[key] = i + 1
        else:
            try:
                v = cm.read_data(tag) if kind == 'data' else cm.readfits(kind, tag)
            except FileNotFoundError:
                v = None
            if (None if v is None else v.tolist()) != (
                    [ref[key]] * 2 if key in ref else None):
                return f'op {i}: read {v} from {kind}/{tag}, expected {ref.get(key)}'
    st.state(sorted(ref.items()))
    st.outcome(len(ref))
    return None


def gen_tree(tier):
    alpha = [(o, k, t) for o in 'wr' for k, t in
             (('data', 'a'), ('data', 'a.fits'), ('recmat', 'a'), ('Recmat', 'a'),
              ('intmat', 'a'), ('sn', 'a_b'), ('pupdata', 'a'), ('PupData', 'a'))]
    for n in range(1, 4 if tier == 'quick' else 5):
        for ops in itertools.product(alpha, repeat=n):
            yield {'ops': ops}


# ---------------------------------------------------------------- where results go
PRODUCERS = {       # object that writes a calibration: parameters that read it back
    'SnCalibrator': ['sn', 'slopenull'], 'ImCalibrator': ['intmat', 'Intmat', 'im'],
    'MultiImCalibrator': ['intmat', 'Intmat', 'im'],
    'RecCalibrator': ['recmat', 'Recmat', 'rec', 'projmat'],
    'MultiRecCalibrator': ['recmat', 'Recmat', 'rec'],
    'PyrPupdataCalibrator': ['pupdata', 'PupData', 'pupils'],
    'DynamicPyrPupdataCalibrator': ['pupdata', 'PupData', 'pupils'],
    'ShSubapCalibrator': ['subapdata', 'SubapData'],
    'AtmoEvolution': ['AtmoRandomPhase', 'AtmoInfiniteEvolution', 'AtmoEvolutionUpDown',
                      'AtmoInfiniteEvolutionUpDown', 'phasescreen']}


def run_dirs(case, st):
    from specula.calib_manager import CalibManager
    cm = CalibManager(scratch())
    a = os.path.normpath(os.path.join(cm.root_subdir(case['p']), 'x.fits'))
    b = os.path.normpath(cm.filename(case['q'], 'x'))
    st.step()
    st.state(a)
    if a != b:
        return f'{case["p"]} writes {a}, parameter {case["q"]} reads {b}'


def run_produce(case, st):
    """Calibrate in one simulation, use in the next one."""
    import shutil
    root, other = os.path.join(scratch(), 'prod'), os.path.join(scratch(), 'prod2')
    for d in (root, other):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)

    def main():
        return main_params(total_time=0.002, root_dir=root)
    vals = {}
    for k, (tag, where) in enumerate(case['ops']):
        cal = {'class': 'SnCalibrator', 'output_tag': tag, 'overwrite': True,
               'inputs': {'in_slopes': 'src.out_slopes'}}
        d = os.path.join(root, 'slopenulls')
        if where == 'other':
            d = cal['data_dir'] = other
        run_simul({'main': main(), 'cal': cal,
                   'src': {'class': 'McSlopes', 'n': 4, 'value': k + 1.0}})
        f = tag if tag.endswith('.fits') else tag + '.fits'
        vals[os.path.join(d, f)] = k + 1.0
        got = {os.path.join(r, x) for q in (root, other) for r, _, fs in os.walk(q) for x in fs}
        if got != set(vals):
            return f'after {k + 1} calibrations the files are {sorted(got)}, not {sorted(vals)}'
        st.step()
    for tag in sorted({t for t, w in case['ops'] if w != 'other'}):
        s, _ = run_simul({'main': main(), 'c': {'class': 'McCal', 'sn_object': tag}})
        v = s.objs['c'].pars['sn'].slopes
        f = tag if tag.endswith('.fits') else tag + '.fits'
        w = vals[os.path.join(root, 'slopenulls', f)]
        if v.tolist() != [w] * 4:
            return f'slope null {tag} read back as {v}, the last calibration wrote {w}'
    st.state(sorted(vals.values()))
    st.outcome(len(vals))


def gen_produce(tier):
    alpha = [(t, w) for t in ('a', 'a.b', 'sub/a') for w in ('default', 'other')]
    for n in range(1, 3 if tier == 'quick' else 4):
        for ops in itertools.product(alpha, repeat=n):
            yield {'ops': ops}


FAMILIES = [
    Family('dirs', lambda tier: [{'p': p, 'q': q} for p in PRODUCERS for q in PRODUCERS[p]],
           run_dirs, what='folder where each calibrator writes = folder where each parameter '
                          'reading that calibration looks'),
    Family('produce', gen_produce, run_produce, weight=2,
           what='all sequences of <= 2 (thorough 3) calibration simulations over tags and '
                'explicit or default folders, then a simulation that uses each tag'),
    Family('refs', gen_refs, run_refs, weight=6,
           what='all directed reference graphs of 2-3 objects (4 objects with <=2, thorough <=6, '
                'edges) x single/list/dictionary references x textual orders; cyclic ones must '
                'be refused'),
    Family('calib', gen_cal, run_cal, weight=2,
           what='all tags / tag lists / tag dictionaries of up to 3 entries for every kind of '
                'calibration parameter, and 64 joint assignments'),
    Family('tree', gen_tree, run_tree, weight=3,
           what='all write/read sequences of length <=3 (thorough 4) over 16 operations on the '
                'calibration tree'),
]
