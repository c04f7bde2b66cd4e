"""Deterministic scheduler: real threads, exactly one running, hand-over only at points.

A decision is taken at every scheduling point from the plan ("walk" or "few":
seeded; "explicit": a written-out list of [step, actor] hand-overs).  The
hand-overs really taken are recorded, so any run can be replayed and shrunk.
"""
import _thread
import random
import threading

_local = threading.local()
MAX_SWITCHES = 4000


class Deadlock(BaseException):
    pass


def current_actor():
    return getattr(_local, "actor", None)


class Actor:
    def __init__(self, idx, name, fn):
        self.idx, self.name, self.fn = idx, name, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.waiting = None      # predicate while blocked on a simulated lock
        self.stuck = False
        self.outcome = None      # ("ok", value) | ("exc", exception)
        self.steps = 0
        self.muted = 0           # >0: no scheduling points (harness code, imports)


class Sched:
    def __init__(self, plan, log, stuck_s=6.0):
        self.plan = plan
        self.mode = plan["mode"]
        self.rng = random.Random(plan.get("seed", 0))
        self.p = plan.get("p", 0.2)
        est = plan.get("est")
        self.fair_from = 2 * est + 50000 if est else None       # from here on nobody keeps the others from running
        self.max_steps = 5 * est + 300000 if est else None
        self.explicit = {int(s): a for s, a in plan.get("switches", [])}
        if self.mode == "few":
            est = max(1, plan.get("est", 100))
            self.points = {self.rng.randrange(est) for _ in range(plan.get("k", 2))}
        self.log = log
        self.actors = []
        self.step = 0
        self.cur = None
        self.taken = []
        self.alive = 0
        self.done_lock = _thread.allocate_lock()
        self.done_lock.acquire()
        self.relaxed = False
        self.deadlock = False
        self.stuck_s = stuck_s
        self.mutex = _thread.allocate_lock()

    def add(self, name, fn):
        a = Actor(len(self.actors), name, fn)
        self.actors.append(a)
        return a

    # -- decisions
    def _runnable(self):
        out = []
        for a in self.actors:
            if a.done or a.stuck:
                continue
            if a.waiting is not None and not a.waiting():
                continue
            out.append(a)
        return out

    def _forced(self, others):
        """A caller that spins waiting for another one lets it run after a while."""
        if others and self.fair_from and self.step > self.fair_from and self.step % 997 == 0:
            return others[(self.step // 997) % len(others)]
        return None

    def _choose(self, cur_ok):
        """Next actor at this step. cur_ok: the current actor may continue."""
        self.step += 1
        run = self._runnable()
        if not run:
            return None
        cur = self.cur
        others = [a for a in run if a is not cur]
        nxt = None
        forced = self._forced(others)
        if forced is not None:
            nxt = forced
        elif cur_ok and len(self.taken) > MAX_SWITCHES:
            return cur
        if nxt is not None:
            pass
        elif self.mode == "explicit":
            want = self.explicit.get(self.step)
            if want is not None:
                nxt = next((a for a in run if a.idx == want), None)
        elif others:
            if self.mode == "walk":
                if not cur_ok or self.rng.random() < self.p:
                    nxt = self.rng.choice(others)
            elif self.mode == "few":
                if not cur_ok or self.step in self.points:
                    nxt = self.rng.choice(others)
        if nxt is None:
            nxt = cur if (cur_ok and cur in run) else run[0]
        if nxt is not cur:
            self.taken.append([self.step, nxt.idx])
            self.log.add("switch", self.step, nxt.idx)
        return nxt

    def _handoff(self, nxt):
        self.cur = nxt
        nxt.sem.release()

    # -- called by actors
    def point(self):
        a = _local.actor
        if a.muted:
            return
        a.steps += 1
        if self.max_steps and self.step > self.max_steps:
            self.deadlock = True
            raise Deadlock("the callers make no progress: %d steps so far" % self.step)
        if self.cur is not a or a.stuck:   # was declared stuck and came back
            with self.mutex:
                a.stuck = False
                if self.cur is a or self.cur.done:
                    self.cur = a
                    return
            a.sem.acquire()
            return
        with self.mutex:
            nxt = self._choose(True)
            if nxt is a or nxt is None:
                return
            self._handoff(nxt)
        a.sem.acquire()

    def block_until(self, pred):
        """Wait (in simulated time) until pred() holds."""
        a = _local.actor
        while not pred():
            with self.mutex:
                a.waiting = pred
                nxt = self._choose(False)
                if nxt is None:
                    self.deadlock = True
                    a.waiting = None
                    raise Deadlock("every caller waits for a lock that is never released")
                if nxt is a:
                    a.waiting = None
                    continue
                self._handoff(nxt)
            a.sem.acquire()
            a.waiting = None

    def _body(self, a):
        _local.actor = a
        _local.sched = self
        a.sem.acquire()
        try:
            a.outcome = ("ok", a.fn())
        except BaseException as e:      # noqa: the outcome of simulated code
            a.outcome = ("exc", e)
        with self.mutex:
            a.done = True
            a.stuck = False
            self.alive -= 1
            if self.alive == 0:
                self.done_lock.release()
                return
            if self.cur is not a:
                return
            nxt = self._choose(False)
            if nxt is None:
                # only blocked or stuck actors are left
                if any(not b.done and b.waiting is not None for b in self.actors) and \
                        not any(b.stuck for b in self.actors):
                    self.deadlock = True
                    self.done_lock.release()
                return
            self._handoff(nxt)

    def run(self, hang_s=60.0):
        """Run all actors to completion. False if they never finish."""
        self.alive = len(self.actors)
        threads = []
        old = threading.stack_size(16 << 20)
        for a in self.actors:
            t = threading.Thread(target=self._body, args=(a,), daemon=True)
            t.start()
            threads.append(t)
        threading.stack_size(old)
        with self.mutex:
            first = self._choose(False)
            self._handoff(first)
        last = -1
        idle = waited = 0.0
        while not self.done_lock.acquire(timeout=1.0):
            idle, waited = (0.0, 0.0) if self.step != last else (idle + 1.0, waited + 1.0)
            last = self.step
            if waited > hang_s:     # real waiting: nothing at all has happened for this long
                return False
            if idle >= self.stuck_s:
                # the running actor waits on something real: let the others go on
                with self.mutex:
                    cur = self.cur
                    if cur is not None and not cur.done and not cur.stuck:
                        cur.stuck = True
                        self.relaxed = True
                        run = [b for b in self._runnable() if b is not cur]
                        if run:
                            self._handoff(run[0])
                idle = 0.0
        return not self.deadlock


class SimLock:
    """Stand-in for threading.Lock/RLock objects created by the library."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def _me(self):
        a = current_actor()
        return ("actor", a.idx) if a is not None else ("thread", threading.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner is None or (self._re and self._owner == me):
            self._owner = me
            self._n += 1
            return True
        if not blocking:
            return False
        a = current_actor()
        sched = getattr(_local, "sched", None)
        if a is None or sched is None:
            if timeout is not None and timeout >= 0:
                return False
            raise Deadlock("lock is held and nobody is left to release it")
        if timeout is not None and timeout >= 0:
            sched.point()
            if self._owner is None:
                self._owner = me
                self._n = 1
                return True
            return False
        sched.block_until(lambda: self._owner is None)
        self._owner = me
        self._n = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._re and self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n <= 0:
            self._owner = None
            self._n = 0

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # Condition support
    def _is_owned(self):
        return self._owner == self._me()


def bind(sched):
    _local.sched = sched
