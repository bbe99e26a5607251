"""A model of multiprocessing in which the interleaving of the processes is a choice of the solver.

Every operation on an event, a queue or a process is a possible switching point. Worker processes run as threads that are parked before each operation; only
one thread runs at a time. Before an operation of the main program on an object, any number of operations of workers that conflict with it (same object, at
least one of the two changes it) may happen first, each alternative is a path. Operations that do not conflict commute, so nothing else is lost, up to
the stated number of delays: `delays` counts how often a worker that could have gone on is held back, afterwards workers go on at once.
Items in queues are copied, and a worker process works on a copy of the process object.
"""
import copy
import os
import queue as _queue
import threading
import types

import numpy as real_np

from . import core, npshim

CURRENT = None
SPIN = 400


class Killed(BaseException):
    pass


class Deadlock(Exception):
    pass


def _copied(x):
    t = type(x)
    if t is list or t is tuple:
        return t(_copied(v) for v in x)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return t(*(_copied(v) for v in x))
    if t is dict:
        return {k: _copied(v) for k, v in x.items()}
    if t is real_np.ndarray or isinstance(x, npshim.SArr):
        return x.copy()
    return x


class Sim:
    def __init__(self):
        self.c = None
        self.delays, self.extra = 0, 0
        self.workers, self.objects = [], []
        self.dead = False
        self.n = 0
        self.spins = self.writes = 0
        self.main = threading.current_thread()
        self.back = threading.Semaphore(0)
        sim = self
        ns = types.SimpleNamespace()
        for cls in (Event, Queue, Process, Lock):
            setattr(ns, cls.__name__, type(cls.__name__, (cls,), {"sim": sim}))
        ns.SimpleQueue = ns.JoinableQueue = ns.Queue
        ns.RLock = ns.Lock
        ns.cpu_count = os.cpu_count
        ns.active_children = lambda: [w.process for w in sim.workers if not w.done]
        ns.freeze_support = lambda: None
        ns.get_context = lambda *a: sim.ns
        ns.queues = types.SimpleNamespace(Empty=_queue.Empty, Full=_queue.Full)
        self.ns = ns

    def __getattr__(self, n):
        if n.startswith("__") or "ns" not in self.__dict__:
            raise AttributeError(n)
        try:
            return getattr(self.ns, n)
        except AttributeError:
            raise core.Unsupported(f"multiprocessing.{n}") from None

    # -------------------------------------------------------------- choices
    def choose(self, k):
        if k == 1:
            return 0
        self.n += 1
        return self.c.choice(f"schedule{self.n}", list(range(k)))

    def prune(self, why):
        if self.c.symbolic:
            raise core.Infeasible()
        from .ctx import Skip
        raise Skip(why)

    def sleep(self, *a):
        """Waiting changes nothing: a program that only waits does not end."""
        if not self.dead and self.me() is None:
            self.spins += 1
            if self.spins > SPIN:
                raise Deadlock("the main program waits for something that never happens")

    # -------------------------------------------------------------- threads
    def spawn(self, process):
        w = Worker(self, process)
        self.workers.append(w)
        w.resume()

    def me(self):
        t = threading.current_thread()
        for w in self.workers:
            if w.thread is t:
                return w
        return None

    def op(self, obj, kind, enabled, action, timeout=None, fail=None):
        """One operation of the current thread; kind: 'r' or 'w'."""
        if self.dead:
            w = self.me()
            if w is not None:
                raise Killed()
            return action() if enabled() else None
        w = self.me()
        if w is not None:
            w.pending = (obj, kind, enabled, timeout is not None)
            w.park()
            if not enabled():
                return fail()
            if kind == "w":
                self.writes += 1
            return action()
        self.before(obj, kind, enabled, timeout)
        if not enabled():
            return fail()
        r = action()
        if kind == "w":
            self.spins = 0
            self.writes += 1
        else:
            self.spins += 1
            if self.spins > SPIN:
                raise Deadlock("the main program waits for something that never happens")
        return r

    def before(self, obj, kind, enabled, timeout):
        extra = False
        while True:
            on = enabled()
            cand = [w for w in self.workers if obj in w.objects and w.can()]
            if not on:
                cand = cand or [w for w in self.workers if w.can()]
                if not cand:
                    if self.timeouts():
                        continue
                    if timeout is not None:
                        return
                    raise Deadlock("the main program and all workers are blocked")
                if timeout is not None and self.delays > 0:
                    if self.choose(2):
                        self.delays -= 1
                        return
                self.advance(cand[self.choose(len(cand))], obj, kind, False)
                continue
            if not cand:
                return
            if extra and self.extra <= 0:
                return
            if self.delays > 0 or extra:
                k = self.choose(len(cand) + 1)     # 0: the first candidate goes on, last: nobody
                if k == len(cand):
                    if not extra and kind == "r":
                        self.delays -= 1
                    return
                if extra:
                    self.extra -= 1
                moved = self.advance(cand[k], obj, kind, True)
                if not moved and self.delays + self.extra > 0:
                    self.prune("equivalent to another schedule")
            else:
                before = [w.steps for w in self.workers]
                for w in cand:
                    if self.advance(w, obj, kind, True):
                        break
                if before == [w.steps for w in self.workers]:
                    return
            extra = True

    def advance(self, w, obj, kind, whole):
        """Let a worker go on until it has executed an operation that conflicts with (obj, kind); False if it gets blocked or ends before."""
        self.spins = 0
        while w.can():
            o, k = w.pending[:2]
            w.resume()
            if o is obj and "w" in (k, kind):
                return True
        return w.done and obj is w.process

    def timeouts(self):
        """Nobody can go on: waits with a time limit of workers end."""
        late = [w for w in self.workers if not w.done and w.pending is not None and w.pending[3] and w.late < 3]
        for w in late:
            w.late += 1
            w.resume()
        return bool(late)

    def settle(self):
        """Let all workers go on until they are blocked or finished; returns the number of unfinished ones."""
        again = True
        while again:
            again = False
            for w in self.workers:
                while w.can():
                    w.resume()
                    again = True
            again = again or self.timeouts()
        return sum(not w.done for w in self.workers)

    def kill(self):
        self.dead = True
        for w in self.workers:
            if not w.done:
                w.go.release()
                w.thread.join(5)


class Worker:
    def __init__(self, sim, process):
        self.sim, self.process = sim, process
        self.objects = set()
        self._collect([dict(vars(process)), process._args, process._kwargs, process._target], 0)
        self.pending, self.done, self.error = None, False, None
        self.steps = self.looks = self.late = 0
        self.seen = -1
        self.go = threading.Semaphore(0)
        self.copy = copy.copy(process)
        self.thread = threading.Thread(target=self._body, daemon=True)
        self.thread.start()

    def _collect(self, x, depth):
        if isinstance(x, Obj):
            self.objects.add(x)
        elif depth < 4:
            if isinstance(x, dict):
                x = list(x.values())
            if isinstance(x, (list, tuple, set)):
                for v in x:
                    self._collect(v, depth + 1)
            elif hasattr(x, "__self__"):
                self._collect(dict(getattr(x.__self__, "__dict__", {})), depth + 1)

    def _body(self):
        self.go.acquire()
        try:
            if not self.sim.dead:
                self.copy.run()
        except Killed:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.pending = None
        self.sim.back.release()

    def can(self):
        """Can go on; a worker that only looks at unchanged objects is taken as blocked."""
        if self.done or self.pending is None or not self.pending[2]():
            return False
        return self.pending[1] == "w" or self.seen != self.sim.writes or self.looks < 12

    def park(self):
        self.sim.back.release()
        self.go.acquire()
        if self.sim.dead:
            raise Killed()

    def resume(self):
        """Run until the next operation or the end."""
        self.steps += 1
        if self.pending is not None:
            if self.seen != self.sim.writes:
                self.seen, self.looks, self.late = self.sim.writes, 0, 0
            self.looks += 1
        self.go.release()
        self.sim.back.acquire()
        if self.done and isinstance(self.error, (core.Unsupported, core.Infeasible, core.StopPath)):
            e, self.error = self.error, None
            raise e


class Obj:
    sim = None

    def __deepcopy__(self, memo):
        return self


class Event(Obj):
    def __init__(self, *a, **k):
        self._flag = False

    def is_set(self):
        return self.sim.op(self, "r", lambda: True, lambda: self._flag)

    def set(self):
        def f():
            self._flag = True
        self.sim.op(self, "w", lambda: True, f)

    def clear(self):
        def f():
            self._flag = False
        self.sim.op(self, "w", lambda: True, f)

    def wait(self, timeout=None):
        return self.sim.op(self, "r", lambda: self._flag, lambda: True, timeout, lambda: False)


class Lock(Obj):
    def __init__(self, *a, **k):
        self._held = False

    def acquire(self, block=True, timeout=None):
        def f():
            self._held = True
            return True
        return self.sim.op(self, "w", lambda: not self._held, f, 0 if not block else timeout, lambda: False)

    def release(self):
        def f():
            self._held = False
        self.sim.op(self, "w", lambda: True, f)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Queue(Obj):
    def __init__(self, *a, **k):
        self._items = []

    def put(self, x, block=True, timeout=None):
        self.sim.op(self, "w", lambda: True, lambda: self._items.append(_copied(x)))

    def put_nowait(self, x):
        self.put(x)

    def _empty(self):
        raise _queue.Empty

    def get(self, block=True, timeout=None):
        if not block:
            return self.get_nowait()
        return self.sim.op(self, "w", lambda: bool(self._items), lambda: self._items.pop(0), timeout, self._empty)

    def get_nowait(self):
        def f():
            if not self._items:
                raise _queue.Empty
            return self._items.pop(0)
        return self.sim.op(self, "w", lambda: True, f)

    def empty(self):
        return self.sim.op(self, "r", lambda: True, lambda: not self._items)

    def qsize(self):
        return self.sim.op(self, "r", lambda: True, lambda: len(self._items))

    def full(self):
        return False

    def close(self):
        pass
    join_thread = cancel_join_thread = task_done = join = close


class Process(Obj):
    _target, _args, _kwargs = None, (), {}
    daemon = False
    exitcode = None
    pid = ident = 1

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self.name = name or "Process"
        self._worker = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        sim = self.sim
        n = len(sim.workers)
        sim.spawn(self)
        self._worker = sim.workers[n]
        self._worker.objects.add(self)

    def is_alive(self):
        return self.sim.op(self, "r", lambda: True, lambda: self._worker is not None and not self._worker.done)

    def join(self, timeout=None):
        w = self._worker
        return self.sim.op(self, "r", lambda: w is None or w.done, lambda: None, timeout, lambda: None)

    def terminate(self):
        raise core.Unsupported("Process.terminate")
    kill = terminate

    def close(self):
        pass


def factory(eng):
    global CURRENT
    if CURRENT is not None:
        CURRENT.kill()
    os.cpu_count = lambda: 8
    CURRENT = Sim()
    return CURRENT
