"""P18: the display server shows what the simulation computes, and does not change it.

The real DisplayServer object, the real server threads and the real socket handlers run under a
controlled scheduler; queues, sockets, the clock and the process boundary are stand-ins."""
import copy
import itertools
import pickle
import types

import numpy as np

from mc import fresh, library, sched
from mc.core import Family
from mc.harness import close, run_simul

RULE = ('all interleavings, up to a bound on preemptions, of the simulation, the threads of the '
        'server and the clients; all requests on library simulations; all short sequences of '
        'values drawn under one name')
ASSUMPTIONS = ['the web transport (Flask, Socket.IO, multiprocessing) is replaced by stand-ins: '
               'queues are reliable and ordered, events reach the room they are sent to',
               'threads switch at queue operations, sleeps, locks and socket events']


# ------------------------------------------------------------------ the world around the server
class Client:
    def __init__(self, world, sid, script):
        self.w, self.sid, self.script = world, sid, script
        self.got = []           # events received
        self.asked = []         # (names, triggers finished before, triggers started before)
        self.gone = None        # number of events received when it disconnected

    def done(self):
        return sum(1 for e, _ in self.got if e == 'done')

    def call(self, event, *args):
        self.w.sid.sid = self.sid
        self.w.handlers[event](*args)

    def run(self):
        s = self.w.s
        s.point(lambda: self.w.serving)
        self.call('connect', {})
        for op in self.script:
            s.point()
            if op == 'bye':
                self.gone = len(self.got)
                self.call('disconnect')
                return
            if op == 'wait':
                n = len(self.asked)
                s.point(lambda: self.done() >= n)
                continue
            rec = [list(op), self.w.finished, None]
            self.asked.append(rec)
            self.call('newdata', list(op))
            rec[2] = self.w.started


class World:
    """One execution: a simulation with a display server, and its clients."""
    NAMES = ('a.out_x', 'b.out_l', 'c.in_y', 'nothing.here')

    def __init__(self, s, case):
        import queue
        import threading
        import time
        from specula.lib import display_server_api as api
        from specula.processing_objects import display_server as ds
        self.s, self.case = s, case
        self.api, self.ds = api, ds
        self.emitted, self.status = [], []
        self.sent_status = []
        self.handlers = {}
        self.sid = types.SimpleNamespace(sid=None)
        self.serving = False
        self.started = self.finished = 0
        self.clock = 0.0
        self.exited = 0
        self.server_tasks = []
        self.front = list(case.get('front', []))
        self.terminated = False
        self.clients = [Client(self, f'sid{i}', sc) for i, sc in enumerate(case['clients'])]
        w = self

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None,
                         daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.name, self.task = name, None

            def start(self):
                nm = getattr(self.target, '__name__', 'thread')
                self.task = s.spawn(nm, lambda: self.target(*self.args, **self.kwargs))
                w.server_tasks.append(self.task)

            def is_alive(self):
                return self.task is not None and not self.task.done

            def join(self, timeout=None):
                s.point(lambda: self.task.done)

        class Process:
            def __init__(self, target=None, args=(), kwargs=None, **kw):
                self.target, self.args, self.kwargs = target, args, kwargs or {}

            def start(self):
                self.task = s.spawn('server', lambda: self.target(*self.args, **self.kwargs))
                w.server_tasks.append(self.task)

            def is_alive(self):
                return not w.exited and not w.terminated

            def terminate(self):
                w.terminated = True
                s.kill(w.server_tasks)

            kill = terminate

            def join(self, timeout=None):
                pass

        def sleep(t=0):
            s.point(yielding=True)

        def now():
            w.clock += 1e-3
            return w.clock

        def q(*a, **k):
            return sched.Queue(s, queue.Empty)

        def lock(*a, **k):
            return sched.Lock(s)

        def _exit(code=0):
            w.exited += 1
            s.kill(w.server_tasks)
            raise sched.Kill()

        def mpq(*a, **k):
            return sched.Queue(s, queue.Empty, pickled=case['pickled'])

        def on(event, *a, **k):
            def deco(f):
                w.handlers[event] = f
                return f
            return deco

        def emit(event, data=None, *a, **k):
            w.emitted.append((event, k.get('room', k.get('to'))))
            room = k.get('room', k.get('to'))
            for c in w.clients:
                if c.sid == room:
                    c.got.append((event, copy.deepcopy(data)))

        def run(*a, **k):
            w.serving = True
            s.point(lambda: False)

        class Cli:
            def __init__(self, *a, **k):
                self.on = False

            def connect(self, *a, **k):
                if w.front and w.front[0] == 'down':
                    raise api_exc.ConnectionError('refused')
                self.on = True

            def emit(self, event, data=None, *a, **k):
                up = w.front.pop(0) if w.front else 'up'
                if up == 'down' or not self.on:
                    self.on = False
                    raise api_exc.BadNamespaceError('not connected')
                w.status.append((event, dict(data)))

        class Plotter:
            @staticmethod
            def plot_best_effort(name, obj):
                s.point()
                if isinstance(obj, list):
                    return [np.array(o.value) for o in obj]
                return np.array(obj.value)

        real = api.__dict__.get('_mc_real') or {k: api.__dict__[k] for k in
                                                ('socketio', 'sio')}
        api._mc_real = real
        api_exc = real['socketio'].exceptions
        names = {
            'threading': sched.Module(threading, Thread=Thread, Lock=lock, RLock=lock),
            'queue': sched.Module(queue, Queue=q, SimpleQueue=q),
            'time': sched.Module(time, sleep=sleep, time=now, monotonic=now, perf_counter=now),
            'os': sched.Module(__import__('os'), _exit=_exit),
            'socketio': sched.Module(real['socketio'], Client=Cli),
            'sio': types.SimpleNamespace(on=on, emit=emit, run=run, handlers={},
                                         namespace_handlers={}),
            'request': self.sid, 'join_room': lambda *a, **k: None,
            'DataPlotter': Plotter, 'encode': lambda f: f, 'server': None,
            'Thread': Thread, 'Queue': q, 'sleep': sleep, 'Lock': lock,
        }
        for k, v in names.items():
            if k in api.__dict__:
                api.__dict__[k] = v
        names = {
            'mp': sched.Module(__import__('multiprocessing'), Queue=mpq, Process=Process),
            'time': sched.Module(time, time=now, sleep=sleep, monotonic=now),
        }
        for k, v in names.items():
            if k in ds.__dict__:
                ds.__dict__[k] = v
        s.spawn('simulation', self.simulate)
        for c in self.clients:
            s.spawn(c.sid, c.run)

    # -- the simulation
    def value(self, name, k):
        v = {'a.out_x': 10.0, 'b.out_l': 20.0, 'c.in_y': 30.0}[name] + 100.0 * k
        if name == 'b.out_l':
            return [np.array([v, v + 1]), np.array([v + 2, v + 3])]
        return np.array([v, v + 0.5, v + 0.25]) if name == 'a.out_x' else np.array(v)

    def simulate(self):
        from specula.base_value import BaseValue
        n = self.case['steps']
        x, y = BaseValue(value=self.value('a.out_x', -1)), BaseValue(value=self.value('c.in_y', -1))
        lst = [BaseValue(value=v) for v in self.value('b.out_l', -1)]

        def inp(name):
            if name == 'c.in_y':
                return y
            raise ValueError(name)

        def out(name):
            if name == 'a.out_x':
                return x
            if name == 'b.out_l':
                return lst
            raise ValueError(name)

        self.k = 0

        def info():
            self.sent_status.append((f'file{self.k}', f't{self.k}'))
            return f'file{self.k}', f't{self.k}'

        params = {'a': {'class': 'A', 'outputs': ['x']}, 'st': {'class': 'DataStore',
                  'inputs': {}}, 'c': {'class': 'C', 'inputs': {'in_y': 'a.x'}},
                  'g': {'class': 'Source', 'magnitude': 3}, 'main': {'total_time': 1.0}}
        self.keep = copy.deepcopy(params)
        self.params = params
        disp = self.ds.DisplayServer(params, inp, out, info, mode=self.case['mode'])
        disp.name = 'display'
        disp.setup()
        for k in range(n):
            self.k = k
            x.set_value(self.value('a.out_x', k))
            y.value = self.value('c.in_y', k)
            for o, v in zip(lst, self.value('b.out_l', k)):
                o.set_value(v)
            self.clock += 2.0 if k in self.case['status'] else 0.0
            self.started = k + 1
            disp.check_ready(k + 1)
            disp.trigger()
            disp.post_trigger()
            self.finished = k + 1
            for o in [x, y] + lst:
                if not hasattr(o, 'xp'):
                    self.bad = 'a displayed object lost its xp'
        self.s.me().idle = True
        self.s.point()
        self.s.me().idle = False
        self.quiet = True
        disp.finalize()
        if not self.terminated:
            self.bad = 'the server was left running'
        if self.params != self.keep:
            self.bad = 'the parameters were changed'

    bad = None
    quiet = False

    # -- the oracle
    def expected(self, name, k):
        """Events for one name at trigger k."""
        img = self.case['mode'] == 'image'
        if name == 'nothing.here':
            if img:
                return None
            return 'data_update', 'unknown', None
        v = self.value(name, k)
        if img:
            return 'plot', None, v
        if isinstance(v, list):
            return 'data_update', '2d_array', np.stack(v, axis=-1)
        return 'data_update', {0: 'scalar', 1: '1d_array'}[v.ndim], v

    def matches(self, ev, want, name):
        kind, typ, val = want
        if ev[0] != kind or ev[1].get('name') != name:
            return False
        if kind == 'plot':
            got = ev[1]['imgdata']
            if isinstance(val, list):
                return isinstance(got, list) and len(got) == len(val) and all(
                    np.array_equal(a, b) for a, b in zip(got, val))
            return not isinstance(got, list) and np.array_equal(got, val)
        d = ev[1]['data']
        if d.get('type') != typ or d.get('name') != name:
            return False
        if val is None:
            return d['data'] is None
        return list(d['shape']) == list(val.shape) and np.array_equal(np.array(d['data']), val)

    def check(self):
        if self.bad:
            return self.bad
        if self.exited:
            return 'the server shut down during the simulation'
        if not self.quiet:
            return 'the simulation did not reach its end'
        n = self.case['steps']
        for c in self.clients:
            m = self.check_client(c, n)
            if m:
                return f'client {c.sid}: {m}; it got {c.got}'
        for ev, room in self.emitted:
            if room not in [c.sid for c in self.clients]:
                return f'event {ev} sent to {room}'
        # status reports
        lost = sum(1 for f in self.case.get('front', []) if f == 'down')
        want = self.sent_status[lost:]
        got = [(d.get('name'), d.get('status', '').split(' - ')[0]) for e, d in self.status
               if e == 'simul_update']
        if got != want or len(self.sent_status) != len(self.case['status']):
            return f'status reports {got}, produced {self.sent_status}, expected {want}'
        return None

    def check_client(self, c, n):
        got = list(c.got)
        if c.gone is None or got:
            if not got or got[0][0] != 'params':
                return 'no parameters after connecting'
            if sorted(got[0][1]) != ['a', 'c', 'main']:
                return f'parameters {sorted(got[0][1])}'
        got = got[1:]
        for names, fin, start in c.asked:
            ks = range(fin, min(start + 1, n))      # triggers that may serve it
            if start < n:
                pass                                # the next one must
            ok = None
            for k in ks:
                want = [(x, self.expected(x, k)) for x in names]
                want = [(x, e) for x, e in want if e is not None]
                if len(got) >= len(want) + 2 and all(
                        self.matches(ev, e, x) for ev, (x, e) in zip(got, want)) and \
                        [e[0] for e in got[len(want):len(want) + 2]] == ['speed_report', 'done']:
                    ok = len(want) + 2
                    break
                if c.gone is not None and len(got) < len(want) + 2 and all(
                        self.matches(ev, e, x) for ev, (x, e) in zip(got, want)):
                    ok = len(got)
                    break
            if ok is None:
                if not got and start >= n:
                    continue                        # asked too late
                return f'request {names} (made after trigger {fin}, {start} started) not served'
            got = got[ok:]
        if got:
            return f'{len(got)} events that it did not ask for'
        return None


def gen_threads(tier):
    A, B, C, X = World.NAMES
    deep = tier == 'thorough'
    scripts = [
        [[[A]]], [[[A, B]]], [[[C, X, A]]], [[[B], 'wait', [A]]], [[[A, A], [C]]],
        [[[A, C], 'bye']], [[[A]], [[B]]], [[[A, B]], [[A], 'bye']],
        [[[A], 'wait', [C]], [[B, X]]],
    ]
    for mode, status, pickled in itertools.product(('data', 'image'), ([], [0], [0, 1], [1]),
                                                   ('now', 'late')):
        for i, sc in enumerate(scripts):
            if not deep and pickled == 'late' and i not in (1, 3):
                continue
            two = len(sc) > 1
            for steps in ((2, 3) if deep else (2,)):
                yield {'mode': mode, 'status': status, 'pickled': pickled, 'clients': sc,
                       'steps': steps, 'bound': (2 if not two else 1) + deep}
    for front in (['down'], ['up', 'down'][:1] + ['up'], ['down', 'down']):
        for mode in ('data', 'image'):
            yield {'mode': mode, 'status': [0, 1, 2], 'pickled': 'now', 'clients': [[[A, C]]],
                   'steps': 3, 'bound': 1 + deep, 'front': front}


def run_threads(case, st):
    def build(s):
        w = World(s, case)

        def check():
            st.outcome(case, [[e for e, _ in c.got] for c in w.clients], w.emitted,
                       len(w.status))
            return w.check()
        return check
    n, steps, msg = sched.explore(build, case['bound'])
    st.step(steps)
    st.runs += n - 1
    st.state(case, n, steps)
    return msg


# ------------------------------------------------------------------ real simulations
class Wire:
    """Stand-in of a multiprocessing queue: what is put is pickled at once."""

    def __init__(self):
        self.items = []

    def put(self, item, *a, **k):
        self.items.append(pickle.dumps(item))

    def get(self, *a, **k):
        import queue
        if not self.items:
            raise queue.Empty()
        return pickle.loads(self.items.pop(0))

    get_nowait = get


class Proc:
    def __init__(self, *a, **k):
        self.alive = False

    def start(self):
        self.alive = True

    def is_alive(self):
        return self.alive

    def terminate(self):
        self.alive = False

    def join(self, *a):
        pass


def shown(o):
    """The array displayed for a data object, or None if it has no display."""
    from specula.base_value import BaseValue
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes
    if isinstance(o, ElectricField):
        lit = o.field[0] > 0
        fr = np.where(lit, o.field[1], 0.0)
        return np.where(lit, fr - o.field[1][lit].mean(), 0.0)
    if isinstance(o, Slopes):
        if o.single_mask is None or o.display_map is None:
            return None
        idx = np.asarray(o.display_map)
        whole = len(idx) == o.slopes.size
        maps = []
        for v in [o.slopes] if whole else [o.slopes[o.indx()], o.slopes[o.indy()]]:
            m = np.zeros(o.single_mask.shape)
            m.ravel()[idx] = v
            maps.append(m)
        if whole:
            return maps[0]
        return np.hstack(maps)
    if isinstance(o, Intensity):
        return o.i
    if isinstance(o, Pixels):
        return o.pixels
    if isinstance(o, BaseValue):
        return o.value
    return None


def names_of(sim, which):
    out = []
    for n, o in sim.objs.items():
        if n == 'display_server' or (which != '*' and n != which):
            continue
        for k in getattr(o, 'outputs', None) or {}:
            out.append(f'{n}.{k}')
        for k in getattr(o, 'local_inputs', None) or {}:
            if k not in (getattr(o, 'outputs', None) or {}):
                out.append(f'{n}.{k}')
    return out


def target(sim, name):
    n, k = name.split('.')
    o = sim.objs[n]
    return o.outputs[k] if k in o.outputs and '.in_' not in name else o.local_inputs[k]


def gen_display(tier):
    for name in library.SIMS:
        for mode in ('data', 'image'):
            yield {'sim': name, 'mode': mode, 'which': '*'}
        objs = [n for n, d in library.SIMS[name].items()
                if d.get('inputs') or d['class'] == 'WaveGenerator']
        for n in objs if tier == 'thorough' else []:
            for mode in ('data', 'image'):
                yield {'sim': name, 'mode': mode, 'which': n}


def run_display(case, st):
    import queue
    from specula.processing_objects import display_server as ds
    from specula.simul import Simul
    from mc.harness import write_yaml
    wires, snaps, bad = [], [], []
    w = types.SimpleNamespace(sim=None)
    real = ds.DisplayServer

    def mpq(*a, **k):
        wires.append(Wire())
        return wires[-1]

    class Shown(real):
        def __init__(self, *a, **k):
            k['mode'] = case['mode']
            super().__init__(*a, **k)

        def trigger(self):
            names = names_of(w.sim, case['which'])
            self.qin.put(('me', names))
            self.qin.put(('you', names[::-1][:3] + ['no.thing']))
            want = []
            for x in names + names[::-1][:3]:
                o = target(w.sim, x)
                obs = [fresh.observables(y) for y in (o if isinstance(o, list) else [o])
                       if y is not None]
                sh = [shown(y) for y in (o if isinstance(o, list) else [o])]
                sh = [None if v is None else np.array(v) for v in sh]
                want.append((x, isinstance(o, list), obs, sh))
            super().trigger()
            for x in names:
                o = target(w.sim, x)
                for y in o if isinstance(o, list) else [o]:
                    if y is not None and getattr(y, 'xp', None) is not np:
                        bad.append(f'{x} lost its xp')
            got = []
            while True:
                try:
                    got.append(self.qout.get())
                except queue.Empty:
                    break
            snaps.append((names, want, [g for g in got if len(g) == 4]))

    mp, ds.mp = ds.mp, types.SimpleNamespace(Queue=mpq, Process=Proc)
    ds.DisplayServer = Shown
    try:
        library.prepare()
        fresh.spy()
        fresh.SEEN.clear()
        params = library.params(case['sim'])
        params['main']['display_server'] = True
        s = w.sim = Simul(write_yaml(params), speed_report=False)
        s.run()
        got = fresh.finals(s), copy.deepcopy(fresh.SEEN)
    finally:
        ds.mp, ds.DisplayServer = mp, real
    if bad:
        return bad[0]
    if len(snaps) != library.STEPS:
        return f'{len(snaps)} displays in {library.STEPS} steps'
    want = fresh.baseline(case['sim'], prec())
    for n in want[0]:
        for k in want[0][n]:
            d = fresh.equal(got[0].get(n, {}).get(k, {}), want[0][n][k], 1e-6)
            if d:
                return f'final {n}.{k} changes when it is displayed: {d}'
    for n in want[1]:
        a, b = got[1].get(n, []), want[1][n]
        if [x[0] for x in a] != [x[0] for x in b]:
            return f'{n} triggers at {[x[0] for x in a]} instead of {[x[0] for x in b]}'
        for (t, p), (_, q) in zip(a, b):
            for (i, x), (_, y) in zip(p, q):
                d = fresh.equal(x, y, 1e-6)
                if d:
                    return f'{n}.{i} at {t} changes when it is displayed: {d}'
    for names, want, msgs in snaps:
        st.step(len(msgs))
        m = compare(case['mode'], names, want, msgs, st)
        if m:
            return m
    return None


def prec():
    import specula
    return int(specula.global_precision)


def compare(mode, names, want, msgs, st):
    img = mode == 'image'
    term = 'image_terminator' if img else 'terminator'
    exp = []
    for i, (x, lst, obs, sh) in enumerate(want):
        if i == len(names):
            exp.append((term, 'me', None, None))
        who = 'me' if i < len(names) else 'you'
        if img and not obs and not lst:
            continue
        exp.append(('image_data' if img else 'data_response', who, x, (lst, obs, sh)))
    if not img:
        exp.append(('data_response', 'you', 'no.thing', (False, [], [None])))
    exp.append((term, 'you', None, None))
    have = [g[:3] for g in msgs]
    if have != [e[:3] for e in exp]:
        k = next((i for i, (a, b) in enumerate(zip(have, exp)) if a != b[:3]),
                 min(len(have), len(exp)))
        return f'answer {k} is {have[k:k + 1]}, expected {[e[:3] for e in exp[k:k + 1]]}'
    for g, e in zip(msgs, exp):
        if e[3] is None:
            continue
        lst, obs, sh = e[3]
        if img:
            o = pickle.loads(g[3])
            if isinstance(o, list) != lst:
                return f'{e[2]} shown as {type(o).__name__}'
            o = o if lst else [o]
            if len(o) != len(obs):
                return f'{e[2]}: {len(o)} items shown, {len(obs)} exist'
            for a, b in zip(o, obs):
                d = fresh.equal(fresh.observables(a), b)
                if d:
                    return f'{e[2]}: {d} shown is not the current one'
            st.outcome('img', lst, len(o))
            continue
        m = same_data(e[2], g[3], lst, sh, st)
        if m:
            return m
    return None


def same_data(name, d, lst, sh, st):
    if d.get('name') != name:
        return f'{name}: answer for {d.get("name")}'
    sh = [np.asarray(v) for v in sh if v is not None]
    st.outcome(d['type'], lst, len(sh))
    if not sh:
        return None if d['type'] == 'unknown' and d['data'] is None else \
            f'{name} without data shown as {d["type"]}'
    if not lst:
        ref, typ = sh[0], {0: 'scalar', 1: '1d_array', 2: '2d_array'}.get(sh[0].ndim, 'nd_array')
    elif all(v.ndim == 1 and v.shape == sh[0].shape for v in sh):
        ref = sh[0] if len(sh) == 1 else np.stack(sh, axis=-1)
        typ = '1d_array' if len(sh) == 1 else '2d_array'
    else:
        if d['type'] != 'multi_data' or len(d['data']) != len(sh):
            return f'{name}: {d["type"]} shown for {len(sh)} arrays'
        for a, b in zip(d['data'], sh):
            if not close(np.array(a), b, 1e-5):
                return f'{name}: other values shown'
        return None
    if d['type'] != typ or tuple(d['shape']) != ref.shape:
        return f'{name}: {d["type"]} {d["shape"]} shown, is {typ} {ref.shape}'
    if not close(np.nan_to_num(np.array(d['data'], dtype=complex)),
                 np.nan_to_num(np.array(ref, dtype=complex)), 1e-5):
        return f'{name}: other values shown'
    return None


# ------------------------------------------------------------------ plots
VALUES = {
    's0': 1.5, 's1': [2.5], 'snan': [float('nan')], 'v2': [0.0, 0.0], 'v2b': [100.0, -3.0],
    'v3': [1.0, 2.0, 30.0], 'vnan': [float('nan'), 1.0], 'i2': [[0.0, 1.0], [2.0, 3.0]],
    'i2b': [[50.0, 1.0], [2.0, 3.0]], 'i3': [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], 'none': None,
    'l1': [[[1.0, 2.0], [3.0, 4.0]]], 'l2': [[[5.0, 2.0], [3.0, 4.0]], [[1.0, 2.0], [3.0, 9.0]]],
    'lv': [[1.0, 2.0], [3.0, 4.0]], 'odd': 'odd',
}


def gen_plots(tier):
    ks = list(VALUES)
    for n in (1, 2, 3) if tier == 'thorough' else (1, 2):
        for c in itertools.product(ks, repeat=n):
            yield {'seq': list(c)}
    if tier != 'thorough':
        few = ['s1', 'v2', 'v2b', 'i2', 'i3', 'none', 'l2']
        for c in itertools.product(few, repeat=3):
            yield {'seq': list(c)}
    yield {'seq': ['s1'] * 3 + ['s0'] * 203}


def run_plots(case, st):
    import io
    from specula.base_value import BaseValue
    from specula.display import data_plotter as dp
    dp.dataplotter_cache.clear()
    hist = []
    for i, k in enumerate(case['seq']):
        v = VALUES[k]
        if k == 'odd':
            o = types.SimpleNamespace()
        elif k in ('l1', 'l2', 'lv'):
            o = [BaseValue(value=np.array(x)) for x in v]
        else:
            o = BaseValue(value=None if v is None else np.array(v) + (
                i if k in ('s0', 's1') else 0))
        if k in ('s0', 's1', 'snan'):
            hist = (hist + [float(np.ravel(o.value)[0])])[-200:]
        other = BaseValue(value=np.array([7.0, 8.0]))
        dp.DataPlotter.plot_best_effort('other', other)
        fig = dp.DataPlotter.plot_best_effort('name', o)
        st.step()
        if len(case['seq']) < 3 or i == len(case['seq']) - 1:
            fig.savefig(io.BytesIO(), format='png', dpi=20)
        m = drawn(fig, k, o, hist)
        if m:
            return f'{case["seq"][:i + 1][-4:]}: {m}'
        st.state(case['seq'][:i + 1][-3:])
    return None


def drawn(fig, k, o, hist):
    """Message if the visible contents of the figure are not those of object o."""
    lines = [ln for ax in fig.axes for ln in ax.lines]
    images = [im for ax in fig.axes for im in ax.images]
    texts = [t for ax in fig.axes for t in ax.texts]
    if k in ('none', 'odd', 'lv'):
        if len(texts) != 1 or lines or images:
            return f'{len(texts)} texts, {len(lines)} lines, {len(images)} images for no plot'
        return None
    if texts:
        return f'the text "{texts[0].get_text()}" is left on the plot'
    if k in ('i2', 'i2b', 'i3', 'l1', 'l2'):
        ref = [np.array(x.value) for x in (o if isinstance(o, list) else [o])]
        if lines or len(images) != len(ref):
            return f'{len(images)} images and {len(lines)} lines, expected {len(ref)} images'
        for im, r in zip(images, ref):
            if not np.array_equal(np.asarray(im.get_array()), r):
                return f'image {np.asarray(im.get_array()).tolist()}, value {r.tolist()}'
            if not np.allclose(im.get_clim(), (r.min(), r.max())):
                return f'colour scale {im.get_clim()} for values of {r.min()} to {r.max()}'
            x0, x1, y0, y1 = im.get_extent()
            if (abs(x1 - x0), abs(y1 - y0)) != r.shape[::-1]:
                return f'image of {r.shape} drawn on {im.get_extent()}'
        return None
    ref = np.array(hist) if k in ('s0', 's1', 'snan') else np.array(o.value)
    if images or len(lines) != 1:
        return f'{len(images)} images and {len(lines)} lines for a plot'
    y = np.asarray(lines[0].get_ydata(), dtype=float)
    x = np.asarray(lines[0].get_xdata(), dtype=float)
    if not np.array_equal(y, ref, equal_nan=True) or not np.array_equal(x, np.arange(len(ref))):
        return f'line {y.tolist()[-5:]}, values {ref.tolist()[-5:]}'
    lo, hi = lines[0].axes.get_ylim()
    fin = ref[np.isfinite(ref)]
    if len(fin) and len(ref) > 1 and not (lo <= fin.min() + 1e-9 and fin.max() - 1e-9 <= hi):
        return f'values {fin.min()} to {fin.max()} drawn on an axis from {lo} to {hi}'
    lo, hi = lines[0].axes.get_xlim()
    ok = np.flatnonzero(np.isfinite(ref))
    if len(ok) > 1 and not (lo <= ok[0] and ok[-1] <= hi):
        return f'{len(ref)} values drawn on an axis from {lo} to {hi}'
    return None


FAMILIES = [
    Family('threads', gen_threads, run_threads, what='interleavings of simulation, server threads '
           'and clients, by script of the clients', weight=8, timeout=600),
    Family('display', gen_display, run_display, precisions=(0, 1), what='every output and input '
           'of the library simulations requested by two clients at every step, both modes',
           weight=3, timeout=300),
    Family('plots', gen_plots, run_plots, what='all sequences of values of 15 kinds plotted under '
           'one name, up to three', weight=4, timeout=60),
]
