"""Deterministic scheduler of real threads: exactly one runs, and at every switch point (an executed line or instruction of
the library, a call of a simulated stream, a lock operation) the schedule decides who runs next."""
import _thread
import random
import threading

from . import instrument

_real_lock = _thread.allocate_lock


class Deadlock(BaseException):
    pass


class Scheduler(object):
    current = None  # the active scheduler of the process

    def __init__(self, n, switches=None, rng=None, p=0.02, hot=None):
        """switches: explicit list of [point, thread] or None to draw them from rng with probability p per point.
        hot: [seed, share, probability, rest]: that share of the places in the code, drawn from the seed, has its own
        probability, and a thread that stops there is not chosen again for up to `rest` points"""
        self.n = n
        self.batons = [_real_lock() for _ in range(n)]
        for b in self.batons:
            b.acquire()
        self.done = [False] * n
        self.blocked = [None] * n
        self.points = 0
        self.rng, self.p = rng, p
        self.explicit = None if switches is None else {int(a): b for a, b in switches}
        self.taken = []  # the schedule as executed: [point, thread]
        self.ids = {}
        self.me = 0
        self.finished = _real_lock()
        self.finished.acquire()
        self.where = []
        self.inside_lib_switches = 0
        self.hot, self.heat, self.shared, self.rest = hot, {}, (), {}

    def _heat(self, code, where):
        k = (code, where)
        if k not in self.heat:
            seed, share, p = self.hot[:3]
            r = random.Random("hot/%s/%s/%d" % (seed, code.co_qualname, where - code.co_firstlineno if where >= 0 else where))
            # state that outlives a call is used there: every other place
            self.heat[k] = p if r.random() < (0.5 if code in self.shared else 0.0 if self.shared else share) else self.p
        return self.heat[k]

    def _other(self, me, k, to):
        if self.rest.get(to, 0) > k:
            awake = [i for i in range(self.n) if i != me and not self.done[i] and self.rest.get(i, 0) <= k]
            to = self.rng.choice(awake) if awake else me
        if to != me and to in self._runnable():
            self.rest[me] = k + int(self.hot[3] * self.rng.random() ** 2)
        return to

    # -- decisions
    def _runnable(self):
        return [i for i in range(self.n) if not self.done[i] and (self.blocked[i] is None or self.blocked[i]._free())]

    def point(self, code=None, where=0):
        me = self.ids.get(_thread.get_ident())
        if me is None:
            return
        k = self.points
        self.points = k + 1
        to = None
        if self.explicit is not None:
            to = self.explicit.get(k)
        elif self.rng.random() < (self.p if self.hot is None or code is None else self._heat(code, where)):
            to = self.rng.randrange(self.n)
            if self.hot is not None and len(self.hot) > 3 and code is not None:
                to = self._other(me, k, to)
        if to is None or to == me:
            return
        run = self._runnable()
        if to not in run:
            return
        self.taken.append([k, to])
        if code is not None:
            self.inside_lib_switches += 1
        self._go(me, to)

    def _go(self, me, to):
        self.me = to
        self.batons[to].release()
        if me is not None and not self.done[me]:
            self.batons[me].acquire()

    def block(self, lock):
        """The calling thread can't go on until `lock` is free"""
        me = self.ids.get(_thread.get_ident())
        self.blocked[me] = lock
        run = [i for i in self._runnable() if i != me]
        if not run:
            self.blocked[me] = None
            raise Deadlock("all threads are blocked")
        self._go(me, run[0])
        self.blocked[me] = None

    def _body(self, i, fn, out):
        self.ids[_thread.get_ident()] = i
        self.batons[i].acquire()
        try:
            out[i] = ("ok", fn())
        except BaseException as e:  # harness bodies catch what the library raises; anything else is reported
            out[i] = ("harness", e)
        finally:
            self.done[i] = True
            self.ids.pop(_thread.get_ident(), None)
            run = self._runnable()
            if run:
                self.me = run[0]
                self.batons[run[0]].release()
            elif all(self.done):
                self.finished.release()
            else:
                # everyone left waits for a lock nobody will release: wake one, which then reports the deadlock
                w = [j for j in range(self.n) if not self.done[j]][0]
                self.me = w
                self.batons[w].release()

    def run(self, bodies, timeout=240):
        out = [None] * self.n
        ts = [threading.Thread(target=self._body, args=(i, b, out), daemon=True) for i, b in enumerate(bodies)]
        Scheduler.current = self
        for t in ts:
            t.start()
        with instrument.active(self.point):
            self.batons[0].release()
            ok = self.finished.acquire(True, timeout)
        Scheduler.current = None
        if not ok:
            raise RuntimeError("simulated threads did not finish (harness)")
        for t in ts:
            t.join(10)
        return out


class SimLock(object):
    """Stands in for threading.Lock in the code under test: waiting for it is a scheduling decision"""
    reentrant = False

    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        s = Scheduler.current
        ident = _thread.get_ident()
        if s is None or ident not in s.ids:
            if self.reentrant and self._owner == ident:
                self._count += 1
                return True
            if not self._l.acquire(blocking, timeout):
                return False
            self._owner, self._count = ident, 1
            return True
        s.point()
        if self.reentrant and self._owner == ident:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            s.block(self)
        self._l.acquire()
        self._owner, self._count = ident, 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            self._l.release()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()
        self._owner = None


class SimRLock(SimLock):
    reentrant = True
