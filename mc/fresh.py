"""Observation of library simulations: what every object finds on its inputs at every trigger,
and the final outputs.  `python -m mc.fresh NAME PRECISION OUT` runs one in a fresh process."""
import copy
import os
import pickle
import subprocess
import sys

from mc import library
from mc.harness import run_simul, scratch

SKIP = ('gpu_bytes_used', 'xp', 'target_device_idx', 'name', 'tag', 'precision',
        '_time_resolution', 'gpu_bytes_used_before', 'gpu_bytes_used_after')


def observables(o):
    """Everything a reader of data object o can see: numbers, arrays, time."""
    import numpy as np
    out = {}
    for k, v in sorted(vars(o).items()):
        if k in SKIP:
            continue
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, (list, tuple)) and all(isinstance(x, (int, float, np.ndarray))
                                                  for x in v):
            out[k] = [np.array(x) for x in v]
        elif isinstance(v, (int, float, np.integer, np.floating, str, bool, type(None),
                            np.generic)):
            out[k] = v
    return out


def equal(a, b, rtol=0.0):
    """None, or the name of the first field that differs (by more than rtol of its largest value;
    the last bits of FFTs and products depend on memory alignment)."""
    import numpy as np

    def near(x, y):
        if np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'):
            return True
        if not rtol or x.dtype.kind not in 'fc' or x.shape != y.shape or (
                np.isnan(x) != np.isnan(y)).any():
            return False
        x, y = np.nan_to_num(x), np.nan_to_num(y)
        return bool(np.abs(x - y).max() <= rtol * np.abs(y).max())
    if set(a) != set(b):
        return str(sorted(set(a) ^ set(b)))
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.shape != y.shape or x.dtype != y.dtype:
                return k
            if not near(x, y):
                return k
        elif isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y) or not all(near(p, q) for p, q in zip(x, y)):
                return k
        elif not (x == y or (x != x and y != y)) and not (
                rtol and isinstance(x, float) and isinstance(y, float) and
                abs(x - y) <= rtol * abs(y)):
            return k
    return None


def outputs(o):
    """(name, data object) of every output of a processing object, lists expanded."""
    for k, v in (getattr(o, 'outputs', None) or {}).items():
        if isinstance(v, list):
            for i, x in enumerate(v):
                yield f'{k}[{i}]', x
        elif v is not None:
            yield k, v


def finals(sim):
    return {n: {k: observables(x) for k, x in outputs(o)} for n, o in sim.objs.items()}


SEEN = {}
_spied = []


def spy():
    """Record, at every trigger, what an object finds on its inputs."""
    from specula.base_processing_obj import BaseProcessingObj as B
    if _spied:
        return
    real = B.check_ready

    def check_ready(self, t):
        r = real(self, t)
        if r:
            rec = []
            for k, v in self.local_inputs.items():
                for x in (v if isinstance(v, list) else [v]):
                    if x is not None:
                        rec.append((k, observables(x)))
            SEEN.setdefault(self.name, []).append((t, rec))
        return r
    B.check_ready = check_ready
    _spied.append(1)


def observe(params):
    """(final outputs by object, inputs seen by object) of one simulation."""
    library.prepare()
    spy()
    SEEN.clear()
    s, _ = run_simul(copy.deepcopy(params))
    return finals(s), copy.deepcopy(SEEN)


_base = {}


def baseline(name, precision):
    """The simulation of that name, run alone in a process of its own."""
    key = name, precision
    if key not in _base:
        out = os.path.join(scratch(), f'base_{name}_{precision}.pkl')
        r = subprocess.run([sys.executable, '-m', 'mc.fresh', name, str(precision), out],
                           capture_output=True, text=True, timeout=600)
        if r.returncode:
            raise RuntimeError(f'simulation {name} fails alone: {r.stderr[-2000:]}')
        with open(out, 'rb') as f:
            _base[key] = pickle.load(f)
    return _base[key]


if __name__ == '__main__':
    import specula
    specula.init(-1, precision=int(sys.argv[2]))
    res = observe(library.params(sys.argv[1]))
    with open(sys.argv[3], 'wb') as f:
        pickle.dump(res, f)
