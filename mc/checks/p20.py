"""P20: objects do not interfere with each other."""
import copy
import itertools

from mc import fresh, library
from mc.core import Family
from mc.harness import run_simul

RULE = ('five simulations that use most of the processing objects are run for real with every '
        'object (and pair of objects) duplicated, alone with its ancestors, in every place of the '
        'file, for every duration and after every other simulation; what each object sees at each '
        'trigger and its outputs must be (to 1e-6) those of the simulation run alone in a '
        'fresh process; the outputs of all other objects and the shared data objects are compared '
        'before and after every call of the life cycle')
ASSUMPTIONS = ['pupils of 16 pixels, 4 steps', 'CPU, double precision', 'private copies of '
               'calibrations are not compared, objects declared in the file are']
RTOL = 1e-6     # alignment changes last bits, a fit amplifies them


def prec():
    import specula
    return int(specula.global_precision)


def ancestors(name, k):
    """Names needed by object k of the simulation, k included."""
    sim = library.SIMS[name]
    need, todo = set(), [k]
    while todo:
        n = todo.pop()
        if n in need:
            continue
        need.add(n)
        d = sim[n]
        for v in d.get('inputs', {}).values():
            for x in v if isinstance(v, list) else [v]:
                todo.append(x.split(':')[0].split('-')[-1].split('.')[0])
        for p, v in d.items():
            if p.endswith('_ref'):
                todo += [x for x in (v if isinstance(v, list) else [v]) if x != 'main']
    return need


def same(got, want, name, twin=None, prefix=False):
    """Message if what `twin` (default: name) saw or produced differs from `want`'s name."""
    twin = twin or name
    fg, sg = got
    fw, sw = want
    a, b = sg.get(twin, []), sw.get(name, [])
    if prefix:
        n = min(len(a), len(b))
        a, b = a[:n], b[:n]
    if [x[0] for x in a] != [x[0] for x in b]:
        return f'{twin} was triggered at {[x[0] for x in a]}, alone at {[x[0] for x in b]}'
    for (t, p), (_, q) in zip(a, b):
        if len(p) != len(q):
            return f'{twin} at t={t} has {len(p)} inputs, alone {len(q)}'
        for (i, x), (_, y) in zip(p, q):
            bad = fresh.equal(x, y, RTOL)
            if bad:
                return f'{twin}.{i} at t={t}: {bad} is {x.get(bad)}, alone {y.get(bad)}'[:500]
    if prefix:
        return None
    if set(fg[twin]) != set(fw[name]):
        return f'{twin} has outputs {sorted(fg[twin])}, alone {sorted(fw[name])}'
    for k in fg[twin]:
        bad = fresh.equal(fg[twin][k], fw[name][k], RTOL)
        if bad:
            return (f'final {twin}.{k}: {bad} is {fg[twin][k].get(bad)}, alone '
                    f'{fw[name][k].get(bad)}')[:500]
    return None


def check(got, want, names, st):
    for n in names:
        st.step(len(want[1].get(n, [])) + 1)
        m = same(got, want, n)
        if m:
            return m
    return None


# ------------------------------------------------------------------ duplicates
def run_dup(case, st):
    name, dup = case['sim'], case['dup']
    want = fresh.baseline(name, prec())
    p = library.params(name)
    extra = {k + '_b': copy.deepcopy(p[k]) for k in dup}
    p = {'main': p.pop('main'), **extra, **p} if case['first'] else {**p, **extra}
    got = fresh.observe(p)
    st.state(case)
    m = check(got, want, library.procs(name), st)
    for k in dup:
        m = m or same(got, want, k, k + '_b')
    return m


def gen_dup(tier):
    for name in library.SIMS:
        ps = library.procs(name)
        for k in ps:
            for first in (False, True):
                yield {'sim': name, 'dup': [k], 'first': first}
        yield {'sim': name, 'dup': ps, 'first': False}
        yield {'sim': name, 'dup': ps, 'first': True}
        if tier != 'quick':
            for d in itertools.combinations(ps, 2):
                yield {'sim': name, 'dup': list(d), 'first': True}


# ------------------------------------------------------------------ subsets and orders
def run_alone(case, st):
    name, k = case['sim'], case['k']
    want = fresh.baseline(name, prec())
    p = library.params(name)
    need = ancestors(name, k)
    got = fresh.observe({n: d for n, d in p.items() if n in need or n == 'main'})
    st.state(case)
    st.outcome(len(need))
    return check(got, want, [n for n in need if n in library.procs(name)], st)


def gen_alone(tier):
    for name in library.SIMS:
        for k in library.procs(name):
            yield {'sim': name, 'k': k}


def run_order(case, st):
    name = case['sim']
    want = fresh.baseline(name, prec())
    p = library.params(name)
    keys = list(p)
    if case['k'] is None:
        keys.reverse()
    else:
        keys.remove(case['k'])
        keys.insert(0 if case['to'] == 'first' else len(keys), case['k'])
    got = fresh.observe({n: p[n] for n in keys})
    st.state(case)
    return check(got, want, library.procs(name), st)


def gen_order(tier):
    for name in library.SIMS:
        yield {'sim': name, 'k': None}
        for k in library.SIMS[name]:
            for to in ('first', 'last'):
                yield {'sim': name, 'k': k, 'to': to}


# ------------------------------------------------------------------ durations and histories
FUTURE = ('vib',)       # its time history is drawn for the whole duration at once


def run_steps(case, st):
    name = case['sim']
    want = fresh.baseline(name, prec())
    p = library.params(name, case['steps'])
    for f in FUTURE:
        p.pop(f, None)
    got = fresh.observe(p)
    st.state(case)
    for n in library.procs(name):
        if n in FUTURE:
            continue
        st.step(case['steps'])
        m = same(got, want, n, prefix=True)
        if m:
            return m


def run_again(case, st):
    for name in case['seq']:
        want = fresh.baseline(name, prec())
        got = fresh.observe(library.params(name))
        st.step()
        m = check(got, want, library.procs(name), st)
        if m:
            return f'in the sequence {case["seq"]}: {m}'
    st.state(case)


def gen_again(tier):
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for seq in itertools.product(library.SIMS, repeat=n):
            if n == 3 and tier == 'quick' and seq[0] != seq[2]:
                continue
            yield {'seq': seq}


# ------------------------------------------------------------------ who writes what
def run_pure(case, st):
    """No call on an object changes the outputs of others or the shared data objects."""
    from specula.base_processing_obj import BaseProcessingObj
    from specula.loop_control import LoopControl
    name, what = case['sim'], case['call']
    library.prepare()
    p = library.params(name)
    if case['dup']:
        for k in library.procs(name):
            p[k + '_b'] = copy.deepcopy(p[k])
    objs_, found = {}, []

    def snap(me):
        out = {}
        for n, o in objs_.items():
            if n == me:
                continue
            if isinstance(o, BaseProcessingObj):
                for k, x in fresh.outputs(o):
                    out[f'{n}.{k}'] = fresh.observables(x)
            else:
                out[n] = fresh.observables(o)
        return out

    def wrap(o, meth):
        real = getattr(o, meth)

        def call(*a, **k):
            before = snap(o.name)
            r = real(*a, **k)
            after = snap(o.name)
            st.step()
            for q in before:
                bad = fresh.equal(before[q], after[q]) if q in after else 'removed'
                if bad and not found:
                    found.append(f'{o.name} ({type(o).__name__}).{meth} changed {bad} of {q}')
            return r
        setattr(o, meth, call)

    add = LoopControl.add

    def spy_add(self, obj, *a, **k):
        objs_[obj.name] = obj
        wrap(obj, what)
        return add(self, obj, *a, **k)
    build = None
    from specula.simul import Simul
    build = Simul.build_objects

    def spy_build(self, *a, **k):
        r = build(self, *a, **k)
        objs_.update({n: o for n, o in self.objs.items() if n != 'main'})
        return r
    LoopControl.add, Simul.build_objects = spy_add, spy_build
    try:
        run_simul(p)
    finally:
        LoopControl.add, Simul.build_objects = add, build
    st.state(case)
    st.outcome(len(objs_))
    if len(objs_) < len(p) - 1:
        return f'only {len(objs_)} objects were observed'
    return found[0] if found else None


def gen_pure(tier):
    for name in library.SIMS:
        for call in ('setup', 'check_ready', 'trigger', 'post_trigger', 'finalize'):
            for dup in (False, True):
                yield {'sim': name, 'call': call, 'dup': dup}


FAMILIES = [
    Family('pure', gen_pure, run_pure, weight=3, timeout=300,
           what='every call of setup/check_ready/trigger/post_trigger/finalize of every object of '
                'every simulation, also with all objects duplicated'),
    Family('dup', gen_dup, run_dup, weight=4, timeout=120,
           what='every object (thorough: every pair) duplicated, before or after the others, and '
                'all objects duplicated'),
    Family('alone', gen_alone, run_alone, weight=2, timeout=120,
           what='every object alone with what it depends on'),
    Family('order', gen_order, run_order, weight=4, timeout=120,
           what='every object moved to the beginning and to the end of the file; reversed file'),
    Family('steps', lambda tier: [{'sim': n, 'steps': k} for n in library.SIMS
                                  for k in ((1, 2, 3, 6) if tier == 'quick' else range(1, 13))],
           run_steps, timeout=120, what='durations shorter and longer: same past'),
    Family('again', gen_again, run_again, weight=2, timeout=300,
           what='sequences of simulations in one process: all pairs, A-B-A (thorough: all triples '
                'and quadruples)'),
]
