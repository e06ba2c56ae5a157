"""A controlled scheduler: real threads of the real code, one running at a time, every choice
between them enumerated up to a bound on preemptions (stateless depth-first exploration).

A thread gives up control only at `point()`; `explore` runs `build(sched)` again and again, each
time following another sequence of choices, until all sequences within the bound were executed.
"""
import os
import threading
import time as _time


class Kill(BaseException):
    """Raised in the threads of an execution that is over."""


class Stuck(Exception):
    pass


class Task:
    def __init__(self, sched, name, fn, idle=False):
        self.sched, self.name, self.fn, self.idle = sched, name, fn, idle
        self.sem = threading.Semaphore(0)
        self.pred = None            # None: ready
        self.wake = 0               # enabled only after that many steps of the others
        self.done = False
        self.killed = 0
        self.dead = False
        self.error = None
        self.thread = threading.Thread(target=self.body, daemon=True)

    def body(self):
        self.sem.acquire()
        try:
            if not self.dead:
                self.fn()
        except Kill:
            pass
        except BaseException as e:      # noqa: BLE001  (reported by the scheduler)
            self.error = e
        self.done = True
        self.sched.leave(self)


class Sched:
    def __init__(self, prefix=(), limit=3000):
        self.prefix = list(prefix)
        self.limit = limit
        self.tasks = []
        self.sem = threading.Semaphore(0)
        self.current = None
        self.trace = []             # (enabled ids, chosen id, id of the interrupted task or None)
        self.steps = 0
        self.last = None
        self.failure = None
        self.closing = False

    def spawn(self, name, fn, idle=False):
        t = Task(self, name, fn, idle)
        self.tasks.append(t)
        t.thread.start()
        return t

    def me(self):
        return self.current

    def point(self, pred=None, yielding=False):
        """Let the scheduler choose who goes on; returns when this task is chosen."""
        t = self.current
        if t.dead:
            t.killed += 1
            if t.killed > 20:           # code that swallows everything: park the thread
                threading.Semaphore(0).acquire()
            raise Kill()
        t.pred = pred
        t.wake = self.steps + 1 if yielding else 0
        n = self.choose()
        if n is not t:
            if n is None:
                self.sem.release()
            else:
                n.sem.release()
            t.sem.acquire()
        t.pred = None
        if t.dead:
            t.killed += 1
            raise Kill()

    def leave(self, t):
        """Task t is over: hand on the baton."""
        if self.closing or t.error is not None:
            self.sem.release()
            return
        n = self.choose()
        (self if n is None else n).sem.release()

    def kill(self, tasks):
        for t in tasks:
            t.dead = True

    def enabled(self):
        live = [t for t in self.tasks if not t.done and not t.dead]
        on = [i for i, t in enumerate(self.tasks) if t in live and not t.idle and
              self.steps >= t.wake and (t.pred is None or t.pred())]
        if not on:      # sleepers first, then those who wait for everything to be quiet
            on = [i for i, t in enumerate(self.tasks) if t in live and not t.idle and
                  t.wake > self.steps and (t.pred is None or t.pred())]
        if not on:
            on = [i for i, t in enumerate(self.tasks) if t in live and t.idle and
                  (t.pred is None or t.pred())]
        return on

    def choose(self):
        """The next task to run, or None when the execution is over."""
        if self.failure:
            return None
        on = self.enabled()
        if not on:
            return None
        keep = self.last if self.last in on else None
        if len(on) > 1:
            k = len(self.trace)
            if k < len(self.prefix):
                c = self.prefix[k]
                if c not in on:
                    self.failure = 'the execution is not reproducible'
                    return None
            else:
                c = keep if keep is not None else on[0]
            self.trace.append((on, c, keep))
        else:
            c = on[0]
        self.steps += 1
        if self.steps > self.limit:
            self.failure = f'not finished after {self.limit} steps'
            return None
        self.last = c
        self.current = self.tasks[c]
        return self.current

    def run(self):
        try:
            n = self.choose()
            if n is not None:
                n.sem.release()
                if not self.sem.acquire(timeout=60):
                    raise Stuck(f'{self.current.name} blocks for good')
            for t in self.tasks:
                if t.error is not None:
                    raise t.error
            if self.failure:
                raise Stuck(self.failure)
        finally:
            self.close()

    def close(self):
        self.closing = True
        for t in self.tasks:
            t.dead = True
        for t in self.tasks:
            if not t.done:
                self.current = t
                t.sem.release()
                self.sem.acquire(timeout=0.2)


def explore(build, bound, limit=3000, stop=None):
    """Run build(sched) -> check() for every schedule with at most `bound` preemptions.

    Returns (executions, steps, message or None)."""
    cpus = os.sched_getaffinity(0)
    os.sched_setaffinity(0, {sorted(cpus)[os.getpid() % len(cpus)]})   # cheap hand-overs
    try:
        return _explore(build, bound, limit, stop)
    finally:
        os.sched_setaffinity(0, cpus)


def _explore(build, bound, limit, stop):
    stack = [()]
    n = steps = 0
    while stack:
        prefix = stack.pop()
        s = Sched(prefix, limit)
        check = build(s)
        try:
            s.run()
            msg = check()
        except Stuck as e:
            msg = str(e)
        n += 1
        steps += s.steps
        if msg:
            who = [s.tasks[c].name for _, c, _ in s.trace]
            return n, steps, f'{msg}; schedule {who}'
        cost = 0
        path = []
        for i, (on, c, keep) in enumerate(s.trace):
            if i >= len(prefix):
                for a in on:
                    if a != c and cost + (keep is not None and a != keep) <= bound:
                        stack.append(tuple(path) + (a,))
            cost += keep is not None and c != keep
            path.append(c)
        if stop and _time.time() > stop:
            return n, steps, None
    return n, steps, None


class Queue:
    """queue.Queue / multiprocessing.Queue under the scheduler.

    pickled: None (same process), 'now' (items are copied when put) or 'late' (when read)."""

    def __init__(self, sched, empty, pickled=None, log=None):
        self.s, self.Empty, self.pickled, self.log = sched, empty, pickled, log
        self.items = []

    def __len__(self):
        return len(self.items)

    def put(self, item, block=True, timeout=None):
        import pickle
        self.s.point()
        if self.pickled == 'now':
            try:
                item = pickle.dumps(item)
            except Exception:       # the feeder thread of a real queue drops it
                return
        self.items.append(item)

    def put_nowait(self, item):
        self.put(item)

    def get(self, block=True, timeout=None):
        import pickle
        if block:
            self.s.point(lambda: len(self.items) > 0)
        else:
            self.s.point()
        if not self.items:
            raise self.Empty()
        item = self.items.pop(0)
        if self.pickled == 'now':
            item = pickle.loads(item)
        elif self.pickled == 'late':
            item = pickle.loads(pickle.dumps(item))
        return item

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def task_done(self):
        pass

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class Lock:
    def __init__(self, sched):
        self.s, self.held = sched, False

    def acquire(self, *a, **k):
        self.s.point(lambda: not self.held)
        self.held = True
        return True

    def release(self):
        self.held = False

    def locked(self):
        return self.held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Module:
    """A module with some names replaced."""

    def __init__(self, real, **names):
        self.__dict__['_real'] = real
        self.__dict__.update(names)

    def __getattr__(self, k):
        return getattr(self.__dict__['_real'], k)
