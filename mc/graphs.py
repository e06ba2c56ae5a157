"""Connection graphs used by the engine checks.

A graph is {'n': N, 'edges': [[src, dst, kind], ...]} with kind
'd' (direct), 'D' (delayed, :-1).
A pair may carry both kinds.
"""
import itertools


def pairs(n):
    return [(a, b) for a in range(n) for b in range(n) if a != b]


def all_graphs(n, kinds=('', 'd', 'D'), max_edges=None, min_edges=0):
    ps = pairs(n)
    if max_edges is None:
        max_edges = len(ps)
    nz = [k for k in kinds if k]
    for m in range(min_edges, max_edges + 1):
        for sel in itertools.combinations(ps, m):
            for ks in itertools.product(nz, repeat=m):
                edges = []
                for (a, b), k in zip(sel, ks):
                    for c in k:
                        edges.append([a, b, c])
                yield {'n': n, 'edges': edges}


def constraints(g):
    """(x, y): x must be triggered before y in the same iteration."""
    out = set()
    for a, b, k in g['edges']:
        out.add((a, b) if k == 'd' else (b, a))
    return out


def orderable(g):
    """Nodes that a correct scheduler can place (least fixpoint), in a valid order."""
    cons = constraints(g)
    done = []
    while True:
        new = [n for n in range(g['n']) if n not in done
               and all(x in done for x, y in cons if y == n)]
        if not new:
            return done
        done.append(new[0])


def node_params(g, style, extra=None, emit=None, order=None, delay=1, optconn=False,
                names=None, listrev=False):
    """YAML parameters of a graph: nodes n0..; style 'single', 'list' or 'mixed'.

    optconn: the connected inputs are declared optional
    listrev: the elements of the lists in the opposite order
    names: names of the objects (default n0, n1...)
    """
    p = {}
    names = names or [f'n{i}' for i in range(g['n'])]
    for n in (order or range(g['n'])):
        ins = [(a, k) for a, b, k in g['edges'] if b == n]
        e = (extra or {}).get(n, {})
        single, lists, optional, inputs = [], [], [], {}
        for s, src in e.get('single', {}).items():
            single.append(s)
            if src is not None:
                inputs[s] = src
        for s in e.get('optional', []):
            single.append(s)
            optional.append(s)
        lst = []
        for i, (a, k) in enumerate(ins):
            src = f'{names[a]}.out' + (f':-{delay}' if k == 'D' else '')
            if style == 'list' or (style == 'mixed' and i % 2):
                lst.append(src)
            else:
                single.append(f'i{i}')
                inputs[f'i{i}'] = src
        if listrev:
            lst.reverse()
        if lst:
            lists.append('l')
            inputs['l'] = lst
        if optconn:
            optional += list(inputs)
        d = {'class': 'McNode', 'uid': n, 'outputs': ['out']}
        if single:
            d['single'] = single
        if lists:
            d['lists'] = lists
        if optional:
            d['optional'] = optional
        if e.get('none'):
            d['none_first'] = True
        if emit:
            d['emit'] = emit[n]
        if inputs:
            d['inputs'] = inputs
        p[names[n]] = d
    return p
