"""P04: what a combination of parameter files and override strings builds."""
import copy
import itertools
import json

from mc.core import Family
from mc.harness import main_params, run_simul

RULE = ('every sequence of entries (override / override_N / remove / remove_N / new object / '
        'object_N / erroneous entries) up to the stated length and number of files, and every '
        'override string of up to two assignments, is given to the real Simul; the objects built, '
        'their parameters, the connected producers and the number of iterations are compared with '
        'a reference fold over the documented rules')
ASSUMPTIONS = ['base file with 4 objects; 20 entry kinds; at most 2 additional files',
               'simulation indices 0 and 1', 'one override string per run']


def base():
    return {
        'main': main_params(total_time=0.002),
        'k': {'class': 'McPar', 'uid': 0, 'outputs': ['out']},
        'p': {'class': 'McPar', 'uid': 1, 'a': 10, 'b': 11, 'outputs': ['out']},
        'q': {'class': 'McPar', 'uid': 2, 'a': 20, 'inputs': {'i': 'p.out'}, 'outputs': ['out']},
        'r': {'class': 'McPar', 'uid': 3, 'a': 30,
              'inputs': {'i': 'p.out', 'j': 'q.out', 'l': ['p.out', 'q.out', 'k.out']}},
    }


def obj(uid, a, **kw):
    return dict({'class': 'McPar', 'uid': uid, 'a': a, 'outputs': ['out']}, **kw)


ENTRIES = [
    ('p_override', {'a': 1}),
    ('p_override_0', {'a': 2, 'c': 5}),
    ('p_override_1', {'a': 3}),
    ('r_override', {'inputs': {'i': 'q.out'}, 'b': 4}),
    ('r_override_0', {'inputs': {'l': ['q.out', 'p.out']}}),
    ('remove', ['p']),
    ('remove_0', ['q']),
    ('remove_1', ['r']),
    ('remove', ['q', 'p']),
    ('s', obj(4, 7, inputs={'i': 'p.out'})),
    ('s_0', obj(5, 8)),
    ('s_1', obj(6, 9, inputs={'l': ['q.out', 'k.out']})),
    ('s_override', {'b': 55}),
    ('r_override', {'inputs': {'i': 's.out', 'l': ['k.out', 's.out']}}),
    ('main_override', {'total_time': 0.003}),
    ('main_override_1', {'total_time': 0.001}),
    ('p', obj(7, 1)),                   # already defined
    ('z_override', {'a': 1}),           # unknown object
    ('remove', ['z']),                  # unknown object
    ('q_override', {'zz': 1}),          # unknown parameter
]

STRINGS = [('p.a', 101), ('p.c', [1, 2]), ('r.inputs.i', 'q.out'), ('r.inputs.j', 'k.out'),
           ('main.total_time', 0.004), ('r.inputs.l', ['q.out']), ('q.class', 'McPar'),
           ('p', 3), ('a.b.c.d', 4), ('p.zz', 1), ('main.time_step', 0.002)]


class Reject(Exception):
    pass


def owner(s):
    return s.split(':')[0].split('.')[0]


def remove(params, name):
    if name not in params:
        raise Reject(f'remove unknown {name}')
    del params[name]
    for p in params.values():
        ins = p.get('inputs')
        if not ins:
            continue
        for k in list(ins):
            if isinstance(ins[k], list):
                ins[k] = [x for x in ins[k] if owner(x) != name]
            elif owner(ins[k]) == name:
                del ins[k]


def reference(files, idx, strings):
    params = base()
    for entries in files:
        specific = {}
        for name, val in entries:
            val = copy.deepcopy(val)
            head, _, tail = name.rpartition('_')
            spec = tail.isdigit()
            if spec:
                if int(tail) != idx:
                    continue
                name = head
            if name == 'remove':
                for x in val:
                    remove(params, x)
            elif name.endswith('_override'):
                o = name[:-len('_override')]
                if o not in params:
                    raise Reject(f'override unknown {o}')
                for k, v in val.items():
                    if spec:
                        specific.setdefault(o, set()).add(k)
                    elif k in specific.get(o, ()):
                        continue            # the simulation-specific value wins
                    params[o][k] = v
            else:
                if name in params:
                    raise Reject(f'duplicate {name}')
                params[name] = val
    for key, v in strings:
        parts = key.split('.')
        if len(parts) not in (2, 3):
            raise Reject('malformed override string')
        d = params
        for x in parts[:-1]:
            if x not in d:
                raise Reject(f'override string names unknown {x}')
            d = d[x]
        d[parts[-1]] = v
    want = []
    for n, p in params.items():
        if p['class'] == 'SimulParams':
            niter = -(-round(p['total_time'] * 1e9) // round(p['time_step'] * 1e9))
            continue
        for k in p:
            if k not in ('class', 'inputs', 'outputs', 'uid', 'a', 'b', 'c'):
                raise Reject(f'unknown parameter {k}')
        ins = p.get('inputs', {})

        def who(s):
            if owner(s) not in params:
                raise Reject(f'{n} wants missing {s}')
            return params[owner(s)]['uid']
        one = [who(ins[x]) if x in ins else None for x in 'ij']
        want.append((n, p['uid'], p.get('a'), p.get('b'), p.get('c'), *one,
                     [who(x) for x in ins.get('l', [])]))
    return sorted(want), niter


def run(case, st):
    files = [case['x']] if 'x' in case else [[ENTRIES[i] for i in f] for f in case['f']]
    strings = [STRINGS[i] for i in case.get('s', [])]
    kw = {'simul_idx': case['idx']}
    if strings:
        kw['overrides'] = '{' + ', '.join(f'{k}: {json.dumps(v)}' for k, v in strings) + '}'
    try:
        want, niter = reference(files, case['idx'], strings)
    except Reject as e:
        st.step()
        st.outcome('reject', str(e))
        try:
            run_simul(base(), *[dict(copy.deepcopy(f)) for f in files], **kw)
        except (ValueError, KeyError):
            return None
        return f'accepted an erroneous combination: {e}'
    _, log = run_simul(base(), *[dict(copy.deepcopy(f)) for f in files], **kw)
    got = sorted((x for x in log if x != 'iter'), key=lambda x: x[0])
    st.step(len(got))
    st.state(got, log.count('iter'))
    st.outcome(got)
    if got != want:
        return f'objects built: {got}, expected {want}'
    if log.count('iter') != niter:
        return f'{log.count("iter")} iterations, expected {niter}'
    return None


def seqs(n):
    for f in itertools.permutations(range(len(ENTRIES)), n):
        if len({ENTRIES[i][0] for i in f}) == n:
            yield list(f)


def gen1(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for f in seqs(n):
            if n >= 3 and sum(i >= 16 for i in f) > 1:
                continue        # at most one erroneous entry in the long files
            for idx in (0, 1):
                yield {'f': [f], 'idx': idx}


def gen2(tier):
    for n, m in ((1, 1), (1, 2), (2, 1)) if tier == 'quick' else ((1, 1), (1, 2), (2, 1), (2, 2)):
        for f in seqs(n):
            for g in seqs(m):
                for idx in (0, 1):
                    yield {'f': [f, g], 'idx': idx}


def gens(tier):
    for n in (1, 2):
        for s in itertools.permutations(range(len(STRINGS)), n):
            yield {'f': [], 'idx': 0, 's': list(s)}
            for i in range(len(ENTRIES)):
                if n == 1 or tier != 'quick':
                    for idx in (0, 1):
                        yield {'f': [[i]], 'idx': idx, 's': list(s)}


def geni(tier):
    """simulation indices of one to three digits, that contain each other"""
    ns = (0, 1, 2, 9, 10, 11, 12, 20, 100, 101, 110, 111)
    for idx in ns:
        for n in ns:
            yield {'idx': idx, 'x': [('p_override', {'a': 1}), (f'p_override_{n}', {'a': 2})]}
            yield {'idx': idx, 'x': [(f'p_override_{n}', {'a': 2}), ('p_override', {'a': 1})]}
            yield {'idx': idx, 'x': [(f'remove_{n}', ['q']), (f's_{n}', obj(4, 7))]}
            for m in ns if tier != 'quick' else (1, 10, 101):
                if m != n:
                    yield {'idx': idx, 'x': [(f'p_override_{n}', {'a': 2, 'b': 3}),
                                             (f'p_override_{m}', {'a': 4}),
                                             (f'remove_{m}', ['r'])]}
            for name in ('p2', '2p', 'p_q', 'p_2q', 'p_override2', 'remove2'):
                yield {'idx': idx, 'x': [(name, obj(4, 7)), (f'{name}_override_{n}', {'a': 6})]}
                yield {'idx': idx, 'x': [(f'{name}_{n}', obj(4, 7)),
                                         (f'remove_{n}', ['p', 'q'])]}


FAMILIES = [
    Family('indices', geni, run, weight=2,
           what='12 simulation indices of 1-3 digits against entries for the same 12, and names '
                'that contain digits, underscores and the reserved words'),
    Family('onefile', gen1, run, weight=8,
           what='one additional file: all ordered sequences of <=3 (thorough 4) entries x simul_idx'),
    Family('twofiles', gen2, run, weight=8,
           what='two additional files, all sequences with 1+1, 1+2, 2+1 (thorough 2+2) entries'),
    Family('strings', gens, run, weight=4,
           what='override strings of 1-2 assignments, alone and after a file'),
]
