"""P01: the trigger order respects every connection of the graph."""
from mc import graphs
from mc.core import Family
from mc.harness import main_params, run_simul

RULE = ('every labelled connection graph up to the stated size is written as a YAML file, run by '
        'the real Simul for 2 iterations with recording nodes, and the recorded event order is '
        'checked edge by edge; distinct states = distinct event orders')
ASSUMPTIONS = ['graphs of at most 4 objects besides a clock object that refreshes every iteration',
               'delays 0, -1 and -2', 'CPU, single process']

CLK = 99
DT = 1000000


def run(case, st):
    g = case['g']
    n = g['n']
    extra = {i: {'single': {'clk': 'clk.out'}} for i in range(n)}
    nodes = graphs.node_params(g, case['style'], extra, delay=case.get('delay', 1),
                              names=case.get('names'), listrev=case.get('rev', 0) & 2,
                              order=range(n)[::-1] if case.get('rev', 0) & 1 else None)
    clk = {'clk': {'class': 'McNode', 'uid': CLK, 'outputs': ['out']}}
    main = {'main': main_params(total_time=0.002)}
    if case['clk'] == 'first':
        params = {**main, **clk, **nodes}
    else:
        params = {**nodes, **clk, **main}
    ok = set(graphs.orderable(g))
    full = len(ok) == n
    from mc import objs
    try:
        s, log = run_simul(params)
    except ValueError as e:
        if full:
            return f'an orderable graph was rejected: {e}'
        if any(x[0] == 'trigger' for x in objs.LOG):
            return f'graph rejected ({e}) after objects had already been triggered'
        st.step()
        st.state('rejected')
        return None
    st.state([x[:2] for x in log])
    st.step(sum(1 for x in log if x[0] == 'trigger'))
    cons = graphs.constraints(g)
    for it in (0, 1):
        t = it * DT
        pos = {}
        for i, ev in enumerate(log):
            if ev[0] in ('prepare', 'trigger', 'post') and ev[2] == t:
                if (ev[0], ev[1]) in pos:
                    return f'object {ev[1]}: {ev[0]} twice in iteration {it}'
                pos[ev[0], ev[1]] = i
        trig = {u for k, u in pos if k == 'trigger'} - {CLK}
        if trig != ok:
            return (f'iteration {it}: objects {sorted(trig)} were triggered, expected '
                    f'{sorted(ok)}')
        for u in trig | {CLK}:
            if not (pos['prepare', u] < pos['trigger', u] < pos['post', u]):
                return f'object {u}: phases out of order in iteration {it}'
        for u in trig:
            if not pos['post', CLK] < pos['prepare', u]:
                return f'object {u} ran before the clock that feeds it'
        for a, b, k in g['edges']:
            if a not in ok or b not in ok:
                continue
            if k == 'd' and not pos['post', a] < pos['prepare', b]:
                return f'iteration {it}: {b} ran before {a}, which feeds it directly'
            if k == 'D' and not pos['trigger', b] < pos['trigger', a]:
                return f'iteration {it}: {a} ran before {b}, which reads its previous output'
    return None


def gen3(tier):
    for g in graphs.all_graphs(3, kinds=('', 'd', 'D', 'dD')):
        for clk in ('first', 'last'):
            for style in ('single', 'list'):
                yield {'g': g, 'clk': clk, 'style': style}
        if any(e[2] == 'D' for e in g['edges']) and len(g['edges']) < 4:
            yield {'g': g, 'clk': 'first', 'style': 'mixed', 'delay': 2}
        if len(g['edges']) < 5:
            for rev in (1, 2) if len(g['edges']) < 4 else (1,):
                yield {'g': g, 'clk': 'first', 'style': 'list', 'rev': rev}
        if len(g['edges']) < 4:
            # every name is the beginning (the end) of another one
            for names in (['a', 'ab', 'abb'], ['abb', 'ab', 'a'], ['ba', 'a', 'bba']):
                for style in ('single', 'list'):
                    yield {'g': g, 'clk': 'first', 'style': style, 'names': names}


def gen4(tier):
    for g in graphs.all_graphs(4, max_edges=4 if tier == 'quick' else 6, min_edges=1):
        for style in (('mixed',) if tier == 'quick' else ('single', 'list')):
            yield {'g': g, 'clk': 'first' if len(g['edges']) % 2 else 'last', 'style': style}


FAMILIES = [
    Family('graphs3', gen3, run, weight=6,
           what='all graphs of 3 objects, edge kinds none/direct/delayed/both, 2 file orders, '
                'single and list inputs, objects and list elements in either order; graphs with fewer than 4 edges also with delays of '
                '2 steps and with names contained in each other'),
    Family('graphs4', gen4, run, weight=6,
           what='all graphs of 4 objects with up to 4 (quick) or 6 (thorough) direct or delayed '
                'edges'),
]
