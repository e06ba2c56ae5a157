"""P02: what every object observes at every iteration."""
import itertools

from mc import graphs
from mc.core import Family
from mc.harness import main_params, run_simul
from mc.objs import fold

RULE = ('every graph x refresh-pattern combination up to the stated bounds is run by the real '
        'Simul; the values and time stamps seen by each object at each trigger, and the final '
        'outputs, are compared with a reference interpreter; distinct states = distinct complete '
        'observation logs')
ASSUMPTIONS = ['at most 4 objects, 4 iterations, periodic refresh patterns of length <= 3',
               'delays 0 and -1', 'CPU, single process']
DT = 1000000


def reference(g, style, emit, extra, iters, rev=0):
    """Boring interpreter: per-node list of events and final outputs."""
    order = graphs.orderable(g)
    n = g['n']
    out = {i: (0, 0, -1) for i in range(n)}
    acc = {i: i + 1 for i in range(n)}
    ntrig = {i: 0 for i in range(n)}
    log = {i: [] for i in range(n)}
    for it in range(iters):
        t = it * DT
        prev = dict(out)
        for u in order:
            ins = [(a, k) for a, b, k in g['edges'] if b == u]
            vals = [(prev if k == 'D' else out)[a] for a, k in ins]
            n_opt = extra.get(u, 0)
            if ins:
                fire = any(v[2] >= t for v in vals)
            else:
                fire = True      # no inputs, or only unset optional ones
            if not fire:
                continue
            seen = [(f'o{j}', None) for j in range(n_opt)]
            lst = []
            for i, v in enumerate(vals):
                if style == 'list' or (style == 'mixed' and i % 2):
                    lst.append(v)
                else:
                    seen.append((f'i{i}', v))
            if rev & 2:
                lst.reverse()
            if lst:
                seen.append(('l', lst))
            for _, v in seen:
                for x in (v if isinstance(v, list) else [v]):
                    acc[u] = fold(acc[u], *(x if x is not None else (None,)))
            acc[u] = fold(acc[u], t)
            log[u].append((t, seen))
            if emit[u][ntrig[u] % len(emit[u])] == '1':
                out[u] = (fold(acc[u], 0), ntrig[u], t)
            ntrig[u] += 1
    return log, out


def run(case, st):
    g, style, emit = case['g'], case['style'], case['emit']
    iters = case.get('iters', 3)
    n_opt = case.get('opt', 0)
    rev = case.get('rev', 0)
    extra = {u: n_opt for u in range(g['n'])}
    params = {'main': main_params(total_time=iters / 1000)}
    nodes = graphs.node_params(
        g, style, {u: {'optional': [f'o{j}' for j in range(n_opt)]} for u in range(g['n'])}, emit,
        optconn=case.get('optconn', False),
        listrev=rev & 2, order=range(g['n'])[::-1] if rev & 1 else None)
    if case.get('main') == 'last':
        params = {**nodes, **params}
    else:
        params.update(nodes)
    want, want_out = reference(g, style, emit, extra, iters, rev)
    _, log = run_simul(params)
    st.state(log)
    got = {u: [] for u in range(g['n'])}
    prep = {u: [] for u in range(g['n'])}
    for ev in log:
        if ev[0] == 'trigger':
            got[ev[1]].append((ev[2], ev[3]))
        elif ev[0] == 'prepare':
            prep[ev[1]].append(ev[2])
        elif ev[0] == 'finalize':
            if ev[3] != [want_out[ev[1]]]:
                return f'final output of {ev[1]} is {ev[3]}, expected {want_out[ev[1]]}'
    for u in got:
        st.step(len(got[u]))
        if got[u] != want[u]:
            return f'object {u} observed {got[u]}, expected {want[u]}'
        if prep[u] != [x[0] for x in want[u]]:
            return f'object {u} was prepared at {prep[u]}, expected {[x[0] for x in want[u]]}'
    st.outcome([len(want[u]) for u in want])
    return None


PAT = ['1', '10', '01', '100']


def gen3(tier):
    for g in graphs.all_graphs(3):
        if len(graphs.orderable(g)) < 3:
            continue
        for style in ('single', 'list'):
            for emit in itertools.product(PAT[:2] if tier == 'quick' else PAT[:3], repeat=3):
                yield {'g': g, 'style': style, 'emit': emit, 'iters': 4,
                       'main': 'last' if emit[0] == '1' else 'first'}
        if len(g['edges']) < 4:
            for emit in ('1', '1', '1'), ('10', '1', '01'):
                for rev in (1, 2):
                    yield {'g': g, 'style': 'list', 'emit': emit, 'iters': 4, 'rev': rev}


def gen4(tier):
    for g in graphs.all_graphs(4, max_edges=3 if tier == 'quick' else 5, min_edges=3):
        if len(graphs.orderable(g)) < 4:
            continue
        for emit in ((PAT[0], PAT[1], PAT[2], PAT[0]), (PAT[3], PAT[0], PAT[0], PAT[1])):
            yield {'g': g, 'style': 'mixed', 'emit': emit, 'iters': 4}


def genopt(tier):
    for g in graphs.all_graphs(2):
        if len(graphs.orderable(g)) < 2:
            continue
        for style in ('single', 'list'):
            for opt in (0, 1, 2):
                for emit in itertools.product(PAT, repeat=2):
                    yield {'g': g, 'style': style, 'emit': emit, 'iters': 4, 'opt': opt}


def gendouble(tier):
    """Same producer wired several times into the same consumer."""
    for ks in itertools.product('dD', repeat=3):
        if len(set(ks)) > 1:
            continue
        for style in ('single', 'list', 'mixed'):
            for emit in itertools.product(PAT, repeat=2):
                yield {'g': {'n': 2, 'edges': [[0, 1, k] for k in ks]}, 'style': style,
                       'emit': emit, 'iters': 4}


def genoptconn(tier):
    for n, styles in ((2, ('single', 'list', 'mixed')), (3, ('mixed',))):
        for g in graphs.all_graphs(n, min_edges=1, max_edges=3):
            if len(graphs.orderable(g)) < n:
                continue
            for style in styles:
                for opt in (0, 1):
                    for emit in ([PAT[1]] * 3, [PAT[2], PAT[1], PAT[0]], [PAT[3], PAT[0], PAT[1]]):
                        yield {'g': g, 'style': style, 'emit': emit[:n], 'iters': 4, 'opt': opt,
                               'optconn': True}


# ---------------------------------------------------------------- several outputs and lists
def run_lists(case, st):
    """One producer with outputs out, out1 and a list; one reader of any selection of them."""
    n, emit = case['n'], case['emit']
    params = {'main': main_params(total_time=0.004),
              'n0': {'class': 'McNode', 'uid': 0, 'n_out': 2, 'list_out': n, 'emit': emit,
                     'none_first': case['none'], 'outputs': ['out', 'out1', 'lst']},
              'n1': {'class': 'McNode', 'uid': 1, 'lists': ['l'], 'outputs': ['out'],
                     'inputs': {'l': [f'n0.{k}' + case['d'] for k in case['sel']]}}}
    _, log = run_simul(params)
    # reference: every member k of the producer outputs holds fold(acc, k)
    acc, cur = 1, [((None, None) if case['none'] else (0, 0)) + (-1,)] * (2 + n)
    want, prev, i = [], None, {'out': [0], 'out1': [1], 'lst': list(range(2, 2 + n))}
    for it in range(4):
        t = it * DT
        acc = fold(acc, t)
        prev = cur
        if emit[it % len(emit)] == '1':
            cur = [(fold(acc, k), it, t) for k in range(2 + n)]
        src = prev if case['d'] else cur
        seen = [src[k] for s in case['sel'] for k in i[s]]
        if any(x[2] >= t for x in seen):
            want.append((t, [('l', seen)]))
    got = [(x[2], x[3]) for x in log if x[0] == 'trigger' and x[1] == 1]
    st.state(log)
    st.step(4)
    if got != want:
        return f'the reader observed {got}, expected {want}'


def gen_lists(tier):
    for n in (1, 2, 3, 4):
        for emit in PAT:
            for none in (False, True):
                for d in ('', ':-1'):
                    for m in (1, 2, 3):
                        for sel in itertools.permutations(('out', 'out1', 'lst'), m):
                            yield {'n': n, 'emit': emit, 'none': none, 'd': d, 'sel': sel}


FAMILIES = [
    Family('optconn', genoptconn, run, weight=2,
           what='all graphs of 2-3 objects with <= 3 edges whose inputs are all declared optional '
                'although connected'),
    Family('lists', gen_lists, run_lists, weight=2,
           what='a producer with two outputs and a list of 1-4, holding values from the start or '
                'not; every ordered selection of them as input list, direct or delayed'),
    Family('graphs3', gen3, run, weight=6,
           what='all orderable graphs of 3 objects x single/list wiring x refresh patterns, 4 '
                'iterations; those with < 4 edges also with objects and list elements in '
                'the opposite order'),
    Family('graphs4', gen4, run, weight=6,
           what='all orderable graphs of 4 objects with 3 (quick) or 3-5 (thorough) edges'),
    Family('optional', genopt, run, weight=2,
           what='all graphs of 2 objects with 0-2 unset optional inputs x 16 refresh patterns'),
    Family('multi', gendouble, run, weight=1,
           what='one producer wired three times into one consumer'),
]
