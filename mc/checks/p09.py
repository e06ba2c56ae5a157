"""P09: replaying a stored simulation reproduces it."""
import copy
import itertools
import os
import shutil

import yaml

from mc import graphs
from mc.core import Family
from mc.harness import main_params, run_simul, scratch

RULE = ('every connection graph of the stated bounds x set of stored outputs is run and stored by '
        'the real simulator; the replay file it writes, and the targeted replay of every object, '
        'are run and what every remaining object observes at every iteration is compared with the '
        'original run')
ASSUMPTIONS = ['at most 4 objects, 3-4 iterations', 'everything is stored (no downsampling, no '
               'start time)', 'one store per simulation',
               'stored producers are refreshed at the first iteration']


def fresh():
    d = os.path.join(scratch(), 'replay')
    shutil.rmtree(d, ignore_errors=True)
    return d


def per_uid(log):
    out = {}
    for ev in log:
        if ev[0] == 'trigger':
            out.setdefault(ev[1], []).append(ev[2:])
    return out


def build(case):
    g = case['g']
    params = {'main': main_params(total_time=0.003)}
    params.update(graphs.node_params(g, case['style'], emit=case['emit']))
    d = fresh()
    params['store'] = {'class': 'DataStore', 'store_dir': d, 'create_tn': False,
                       'data_format': case['fmt'],
                       'inputs': {'input_list': [f's{u}-n{u}.out' for u in case['stored']]}}
    return params, d


def merged_orderable(g, stored, keep):
    """Is the graph still orderable when the stored objects become one object?"""
    rep = {u: (u if u not in stored else 'src') for u in range(g['n'])}
    ids = sorted({str(x) for x in rep.values()})
    ren = {u: ids.index(str(rep[u])) for u in rep}
    edges = [[ren[a], ren[b], k] for a, b, k in g['edges'] if b in keep and rep[b] != 'src']
    m = {'n': len(ids), 'edges': edges}
    return len(graphs.orderable(m)) == m['n']


def compare(orig, got, left, st, what):
    for u in left:
        if orig.get(u) != got.get(u):
            return (f'{what}: object {u} observed {got.get(u)}, originally {orig.get(u)}')
        st.step(len(orig.get(u, [])))
    return None


def run_replay(case, st):
    params, d = build(case)
    _, log = run_simul(params)
    orig = per_uid(log)
    with open(os.path.join(d, 'params.yml')) as f:
        saved = yaml.safe_load(f)
    if saved.get('n0') != params['n0']:
        return f'saved parameters {saved.get("n0")} differ from the ones run {params["n0"]}'
    with open(os.path.join(d, 'replay_params.yml')) as f:
        rep = yaml.safe_load(f)
    n = case['g']['n']
    left = [u for u in range(n) if u not in case['stored']]
    names = {f'n{u}' for u in left}
    if {k for k in rep if k.startswith('n')} != names:
        return f'replay file keeps {sorted(rep)}, expected the objects {sorted(names)}'
    try:
        _, log = run_simul(rep)
    except ValueError as e:
        if not merged_orderable(case['g'], case['stored'], left):
            return ('mixed_delay', f'the replay cannot be run: {e}')
        raise
    msg = compare(orig, per_uid(log), left, st, 'replay')
    st.state(orig, case['stored'])
    st.outcome(case['g'], case['stored'])
    return msg


def needed(g, stored, target):
    """Objects that a targeted replay has to run."""
    todo, out = [target], set()
    while todo:
        u = todo.pop()
        if u in out:
            continue
        out.add(u)
        todo += [a for a, b, k in g['edges'] if b == u and a not in stored]
    return out


def run_target(case, st):
    from specula.simul import Simul
    params, d = build(case)
    run_params = copy.deepcopy(params)
    _, log = run_simul(run_params)
    orig = per_uid(log)
    n = case['g']['n']
    found = None
    targets = [(u,) for u in range(n)] + list(itertools.combinations(range(n), 2))
    for tg in targets:
        before = copy.deepcopy(params)
        rep = Simul([]).build_targeted_replay(params, *[f'n{u}' for u in tg])
        if params != before:
            return f'building the replay of {tg} changed the parameters given'
        want = set()
        for u in tg:
            want |= needed(case['g'], case['stored'], u)
        if {k for k in rep if k.startswith('n')} != {f'n{u}' for u in want}:
            return f'replay of {tg} keeps {sorted(rep)}, expected the objects {sorted(want)}'
        if 'store' in rep:
            return 'the store is part of the targeted replay'
        try:
            _, log = run_simul(rep)
        except ValueError as e:
            if not merged_target(case['g'], case['stored'], want):
                found = ('mixed_delay', f'the replay of {tg} cannot be run: {e}')
                continue
            raise
        msg = compare(orig, per_uid(log), sorted(want), st, f'replay of {tg}')
        if msg:
            return msg
    st.state(orig, case['stored'])
    return found


def merged_target(g, stored, want):
    """As above for a targeted replay, where stored objects that are needed are run too."""
    n = g['n']
    edges = []
    for a, b, k in g['edges']:
        if b in want:
            edges.append([n if a in stored else a, b, k])
    return len(graphs.orderable({'n': n + 1, 'edges': edges})) == n + 1


# ---------------------------------------------------------------- objects with several outputs
def run_partial(case, st):
    """n0 has two outputs; only some are stored."""
    d = fresh()
    params = {'main': main_params(total_time=0.003),
              'g': {'class': 'McNode', 'uid': 9, 'outputs': ['out']},
              'n0': {'class': 'McNode', 'uid': 0, 'n_out': 2, 'single': ['a'],
                     'inputs': {'a': 'g.out'}, 'outputs': ['out', 'out1'], 'emit': case['emit']}}
    for u, outs in ((1, case['r1']), (2, case['r2'])):
        params[f'n{u}'] = {'class': 'McNode', 'uid': u, 'lists': ['l'], 'outputs': ['out'],
                           'inputs': {'l': list(outs)}}
    params['store'] = {'class': 'DataStore', 'store_dir': d, 'create_tn': False,
                       'inputs': {'input_list': [f's{i}-{x}' for i, x in
                                                 enumerate(case['stored'])]}}
    _, log = run_simul(params)
    orig = per_uid(log)
    with open(os.path.join(d, 'replay_params.yml')) as f:
        rep = yaml.safe_load(f)
    _, log = run_simul(rep)
    got = per_uid(log)
    left = [u for u in (1, 2) if f'n{u}.out' not in case['stored']]
    st.state(case)
    return compare(orig, got, left, st, 'replay')


def gen_partial(tier):
    reads = [('n0.out',), ('n0.out1',), ('n0.out', 'n0.out1'), ('n0.out', 'g.out'),
             ('g.out', 'n0.out1', 'n0.out')]
    outs = ['n0.out', 'n0.out1', 'g.out', 'n1.out']
    for r1 in reads:
        for r2 in reads + [('n1.out',), ('n1.out', 'n0.out1')]:
            for k in (1, 2, 3, 4):
                for stored in itertools.combinations(outs, k):
                    yield {'r1': r1, 'r2': r2, 'stored': stored, 'emit': ('1', '10')[k % 2]}


# ---------------------------------------------------------------- library objects
STORE = {
    'vector': ['g1.output', 'g2.output', 'add.out_value', 'cat.out_value', 'f1.out_comm'],
    'loop': ['prop.out_s1_ef', 'ana.out_modes', 'ctl.out_comm', 'gen.output', 'turb.out_layer'],
    'detector': ['gen.output', 'dm.out_layer', 'prop.out_s1_ef', 'sh.out_i', 'det.out_pixels',
                 'win.output'],
    'fields': ['gen.output', 'dm.out_layer', 'prop.out_s1_ef', 'comb.out_ef', 'refl.out_ef'],
}


def run_lib(case, st):
    import specula
    from mc.checks import p07
    p07.spy()
    d = fresh()
    params = p07.lib_params(case['lib'])
    if case['lib'] == 'loop':
        params['prop']['inputs']['common_layer_list'][2] = 'dm.out_layer:-1'
    params['store'] = {'class': 'DataStore', 'store_dir': d, 'create_tn': False,
                       'data_format': case['fmt'],
                       'inputs': {'input_list': [f's{i}-{x}' for i, x in
                                                 enumerate(case['stored'])]}}
    p07.SEEN.clear()
    run_simul(params)
    want = copy.deepcopy(p07.SEEN)
    with open(os.path.join(d, 'replay_params.yml')) as f:
        rep = yaml.safe_load(f)
    if int(rep['data_source'].get('global_precision', -1)) != specula.global_precision:
        return 'the precision recorded in the replay file is not the one of the simulation'
    p07.SEEN.clear()
    try:
        run_simul(rep)
    except ValueError as e:
        if 'f1.out_comm' in case['stored'] and len(case['stored']) > 1:
            return ('mixed_delay', f'the replay cannot be run: {e}')
        raise
    got = p07.SEEN
    for n in rep:
        if n in ('main', 'data_source') or n not in want:
            continue
        a, b = got.get(n, []), want[n]
        if [x[0] for x in a] != [x[0] for x in b]:
            return f'{n} was triggered at {[x[0] for x in a]}, originally {[x[0] for x in b]}'
        for (t, x), (_, y) in zip(a, b):
            for (k, u), (_, v) in zip(x, y):
                bad = [q for q in v if u.get(q) != v[q] and q not in ('description',)]
                if bad:
                    return (f'{n}.{k} at t={t}: {bad} differ in the replay: '
                            f'{[(u.get(q), v[q]) for q in bad]}')[:700]
            st.step()
    st.state(case)
    return None


def gen_lib(tier):
    for name, outs in STORE.items():
        for k in range(1, 3 if tier == 'quick' else len(outs) + 1):
            for stored in itertools.combinations(outs, k):
                for fmt in ('fits', 'pickle'):
                    yield {'lib': name, 'stored': stored, 'fmt': fmt}


EM = [('1', '1', '1'), ('1', '10', '110'), ('10', '1', '10')]


def alive(g):
    """Objects refreshed at the first iteration."""
    out = set()
    for u in graphs.orderable(g):
        ins = [(a, k) for a, b, k in g['edges'] if b == u]
        if not ins or any(k == 'd' and a in out for a, k in ins):
            out.add(u)
    return out


def space(tier):
    for n, e in ((2, 2), (3, 2 if tier == 'quick' else 4)):
        for g in graphs.all_graphs(n, min_edges=1, max_edges=e):
            if len(graphs.orderable(g)) < n:
                continue
            for k in range(1, n + 1):
                for stored in itertools.combinations(sorted(alive(g)), k):
                    for s in ('single', 'list') if n == 2 or tier != 'quick' else ('mixed',):
                        for em in EM[:2] if n == 2 or tier != 'quick' else EM[1:2]:
                            yield {'g': g, 'stored': stored, 'style': s, 'emit': em + ('1',),
                                   'fmt': ('fits', 'pickle')[len(stored) % 2]}


FAMILIES = [
    Family('replay', space, run_replay, weight=8,
           what='all orderable graphs of 2-3 objects with <=2 (4) edges x all stored subsets'),
    Family('targeted', space, run_target, weight=8,
           what='same, targeted replay of every object and pair of objects'),
    Family('partial', gen_partial, run_partial, weight=2,
           what='objects with several outputs, any subset of which is stored'),
    Family('library', gen_lib, run_lib, weight=4, precisions=(0, 1), timeout=120,
           what='four simulations of library objects x stored subsets of their outputs'),
]
