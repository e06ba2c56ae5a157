"""A controlled message-passing world: N ranks of the real simulator run as threads
under a cooperative scheduler (one runs at a time), with MPI semantics for the
operations a communicator offers.

Every communication operation is a scheduling point.  The scheduler follows a list of
choices (index among the enabled ranks, current rank first); beyond it, it keeps
running the current rank (no preemption).
"""
import pickle
import sys
import threading

import numpy as np

_tls = threading.local()


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class RankProxy:
    """Stands for specula.process_rank in every module: the rank of the running thread."""

    def _r(self):
        return getattr(_tls, 'rank', None)

    def __eq__(self, o):
        return self._r() == (o._r() if isinstance(o, RankProxy) else o)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self._r() < o

    def __gt__(self, o):
        return self._r() > o

    def __le__(self, o):
        return self._r() <= o

    def __ge__(self, o):
        return self._r() >= o

    def __hash__(self):
        return hash(self._r())

    def __bool__(self):
        return bool(self._r())

    def __int__(self):
        return int(self._r())

    __index__ = __int__

    def __add__(self, o):
        return self._r() + o

    __radd__ = __add__

    def __repr__(self):
        return repr(self._r())

    __str__ = __repr__


class Req:
    def wait(self, *a):
        return None

    Wait = wait

    def test(self, *a):
        return True, None

    Test = test


class World:
    def __init__(self, n, choices=(), preempt_bound=0):
        self.n = n
        self.cv = threading.Condition()
        self.q = {}                     # (src, dst, tag) -> [message]
        self.turn = None
        self.blocked = {}               # rank -> predicate
        self.done = set()
        self.errors = {}
        self.abort = False
        self.barrier_n = 0
        self.barrier_gen = 0
        self.choices = list(choices)
        self.points = []                # (n enabled, running still enabled)
        self.sent = 0
        self.deadlock = None

    # ---- scheduler -------------------------------------------------------
    def _enabled(self):
        out = [r for r in range(self.n) if r not in self.done
               and (r not in self.blocked or self.blocked[r]())]
        if self.turn in out:
            out.remove(self.turn)
            return [self.turn] + out
        return out

    def _pick(self):
        """Called with the lock held, by the running rank, at a scheduling point."""
        en = self._enabled()
        if not en:
            if len(self.done) < self.n:
                self.deadlock = (f'ranks {sorted(set(range(self.n)) - self.done)} wait for '
                                 'messages that nobody will send')
                self.abort = True
            self.cv.notify_all()
            return
        k = len(self.points)
        c = self.choices[k] if k < len(self.choices) else 0
        if c >= len(en):
            raise RuntimeError('schedule does not replay')
        self.points.append((len(en), en[0] == self.turn))
        self.turn = en[c]
        if self.turn in self.blocked:
            del self.blocked[self.turn]
        self.cv.notify_all()

    def _wait_turn(self, r):
        while self.turn != r and not self.abort:
            self.cv.wait()
        if self.abort:
            raise Abort()

    def point(self, pred=None):
        r = _tls.rank
        with self.cv:
            if self.abort:
                raise Abort()
            if pred is not None and not pred():
                self.blocked[r] = pred
            self._pick()
            self._wait_turn(r)

    # ---- ranks -----------------------------------------------------------
    def _body(self, r, fn):
        _tls.rank = r
        _tls.world = self
        try:
            with self.cv:
                self._wait_turn(r)
            fn(r)
        except Abort:
            pass
        except BaseException as e:
            self.errors[r] = e
        with self.cv:
            self.done.add(r)
            self.blocked.pop(r, None)
            if not self.abort:
                if r in self.errors:
                    self.abort = True
                    self.cv.notify_all()
                else:
                    self._pick()

    def run(self, fn):
        """Run fn(rank) on every rank; returns when all have ended."""
        ths = [threading.Thread(target=self._body, args=(r, fn), daemon=True)
               for r in range(self.n)]
        for t in ths:
            t.start()
        try:
            with self.cv:
                self.turn = 0
                self.cv.notify_all()
            for t in ths:
                t.join()
        finally:
            with self.cv:
                self.abort = True
                self.cv.notify_all()
        return {k: len(v) for k, v in self.q.items() if v}


class Comm:
    """The communicator seen by the code."""

    def _w(self):
        return _tls.world

    def _put(self, dest, tag, msg):
        w = self._w()
        w.q.setdefault((_tls.rank, int(dest), int(tag)), []).append(msg)
        w.sent += 1
        w.point()

    def _get(self, source, tag):
        w = self._w()
        k = (int(source), int(_tls.rank), int(tag))
        w.point(lambda: bool(w.q.get(k)))
        return w.q[k].pop(0)

    @staticmethod
    def _pick(obj):
        return ('obj', pickle.dumps(obj))

    # buffered sends: the content is captured at the call
    def bsend(self, obj, dest, tag=0):
        self._put(dest, tag, self._pick(obj))

    def ibsend(self, obj, dest, tag=0):
        self.bsend(obj, dest, tag)
        return Req()

    def isend(self, obj, dest, tag=0):      # pickled at the call too
        self.bsend(obj, dest, tag)
        return Req()

    def Bsend(self, buf, dest, tag=0):
        self._put(dest, tag, ('buf', np.array(buf, copy=True)))

    def Ibsend(self, buf, dest, tag=0):
        self.Bsend(buf, dest, tag)
        return Req()

    # non-buffered immediate send: whatever the buffer holds when it is received
    def Isend(self, buf, dest, tag=0):
        self._put(dest, tag, ('buf', np.asarray(buf)))
        return Req()

    # synchronous sends: complete only once received
    def ssend(self, obj, dest, tag=0):
        w = self._w()
        k = (_tls.rank, int(dest), int(tag))
        self.bsend(obj, dest, tag)
        w.point(lambda: not w.q.get(k))

    send = ssend

    def Ssend(self, buf, dest, tag=0):
        w = self._w()
        k = (_tls.rank, int(dest), int(tag))
        self.Bsend(buf, dest, tag)
        w.point(lambda: not w.q.get(k))

    Send = Ssend

    def recv(self, buf=None, source=0, tag=0, status=None):
        kind, m = self._get(source, tag)
        if kind != 'obj':
            raise RuntimeError('a buffer message was received as an object')
        return pickle.loads(m)

    def Recv(self, buf, source=0, tag=0, status=None):
        kind, m = self._get(source, tag)
        if kind != 'buf':
            raise RuntimeError('an object message was received as a buffer')
        if m.nbytes > buf.nbytes:
            raise RuntimeError(f'message truncated: {m.nbytes} bytes into {buf.nbytes}')
        raw = np.frombuffer(np.ascontiguousarray(m).tobytes(), np.uint8)
        if m.nbytes == buf.nbytes:
            buf[...] = raw.view(buf.dtype).reshape(buf.shape)
        else:
            tmp = np.frombuffer(buf.tobytes(), np.uint8).copy()
            tmp[:m.nbytes] = raw
            buf[...] = tmp.view(buf.dtype).reshape(buf.shape)

    def barrier(self):
        w = self._w()
        gen = w.barrier_gen
        w.barrier_n += 1
        if w.barrier_n == w.n:
            w.barrier_n = 0
            w.barrier_gen += 1
        w.point(lambda: w.barrier_gen != gen)

    Barrier = barrier

    def Get_rank(self):
        return _tls.rank

    def Get_size(self):
        return self._w().n

    rank = property(Get_rank)
    size = property(Get_size)


_RANK, _COMM = RankProxy(), Comm()


def install():
    """Make every loaded simulator module see the controlled world."""
    for name, mod in list(sys.modules.items()):
        if name == 'specula' or name.startswith('specula.'):
            if 'process_rank' in mod.__dict__:
                mod.process_rank = _RANK
            if 'process_comm' in mod.__dict__:
                mod.process_comm = _COMM


def uninstall():
    for name, mod in list(sys.modules.items()):
        if name == 'specula' or name.startswith('specula.'):
            for a in ('process_rank', 'process_comm'):
                if a in mod.__dict__:
                    setattr(mod, a, None)


def explore(n, fn, bound, check, limit=100000):
    """Run fn on n ranks under every schedule with at most `bound` preemptions.
    check(world, leftover) -> None | message.  Returns (message, executions)."""
    runs = 0

    def one(prefix):
        nonlocal runs
        w = World(n, prefix)
        left = w.run(fn)
        runs += 1
        return w, check(w, left)

    stack = [[]]
    while stack:
        prefix = stack.pop()
        w, msg = one(prefix)
        if msg is not None:
            return f'schedule {prefix}: {msg}', runs
        cost = 0
        costs = []
        for i, (k, cont) in enumerate(w.points):
            costs.append(cost)
            c = prefix[i] if i < len(prefix) else 0
            if c and cont:
                cost += 1
        for i in range(len(prefix), len(w.points)):
            k, cont = w.points[i]
            if costs[i] + (1 if cont else 0) > bound:
                continue
            for alt in range(1, k):
                stack.append(list(prefix) + [0] * (i - len(prefix)) + [alt])
        if runs >= limit:
            return None, runs
    return None, runs
