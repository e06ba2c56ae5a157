"""Helpers to drive the real simulator from a check."""
import os
import tempfile

import yaml

from mc import objs


def scratch():
    return os.environ.get('MC_SCRATCH') or tempfile.gettempdir()


_yaml_n = [0]


def write_yaml(params, name=None):
    if name is None:
        _yaml_n[0] = (_yaml_n[0] + 1) % 8
        name = f'params{_yaml_n[0]}.yml'
    path = os.path.join(scratch(), name)
    with open(path, 'w') as f:
        yaml.dump(params, f, sort_keys=False, Dumper=getattr(yaml, 'CSafeDumper', yaml.SafeDumper))
    return path


def main_params(total_time=0.003, time_step=0.001, **kw):
    d = {'class': 'SimulParams', 'root_dir': scratch(), 'total_time': total_time,
         'time_step': time_step, 'pixel_pupil': 4, 'pixel_pitch': 0.1,
         'add_modules': ['mc.objs']}
    d.update(kw)
    return d


def run_simul(params, *more, **kw):
    """Run the real Simul on a parameter dictionary. Returns (simul, log)."""
    from specula.simul import Simul
    del objs.LOG[:]
    files = [write_yaml(p) for p in (params,) + more]
    s = Simul(*files, speed_report=False, **kw)
    s.run()
    return s, list(objs.LOG)


def step(obj, t):
    """One iteration of the loop on one object: True if it was triggered."""
    obj.check_ready(t)
    if obj.inputs_changed:
        obj.trigger()
        obj.post_trigger()
        return True
    return False


def feed(value, arr, t):
    """Refresh a data object at time t."""
    value.set_value(arr)
    value.generation_time = t


def close(a, b, rtol):
    """Equal up to a relative error on the scale of the reference."""
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not b.size:
        return True
    scale = max(float(np.max(np.abs(b))), 1e-30)
    return bool(np.all(np.abs(a - b) <= rtol * scale))


def simul_params(**kw):
    from specula.data_objects.simul_params import SimulParams
    d = dict(pixel_pupil=8, pixel_pitch=0.5, time_step=0.001, total_time=0.01, root_dir=scratch())
    d.update(kw)
    return SimulParams(**d)
