"""Execution seam: every executed line (or bytecode instruction) of qetpy code
is an event owned by the simulator.

At an event the simulator may
  * hand the (single) execution token to another simulated thread,
  * deliver an asynchronous interrupt (KeyboardInterrupt) to the running op,
  * evaluate an invariant probe.
Real OS threads are used, but exactly one is ever runnable: the others are parked
on their semaphore, and who runs next is decided by the seeded plan only.
"""
import sys
import threading
import zlib

from . import boot, simalloc

TOOL = 4
E = sys.monitoring.events


class StepBudget(BaseException):
    """Raised inside an op that exceeded its simulated step budget."""


class Monitor:
    def __init__(self):
        self.on = False
        self.gran = "line"
        self.ops = {}          # ident -> per-op counters
        self.sched = None
        self.probe = None
        self.probe_every = 1
        self.events = 0
        self._in_probe = False
        self.rec = None        # location -> [first event, last event, first alloc, last alloc]

    # -- lifecycle -------------------------------------------------------
    def start(self, gran="line"):
        self.gran = gran
        m = sys.monitoring
        m.use_tool_id(TOOL, "dst")
        m.register_callback(TOOL, E.LINE, self._line)
        m.register_callback(TOOL, E.INSTRUCTION, self._instr)
        ev = E.LINE
        if gran == "instr":
            ev |= E.INSTRUCTION
        m.set_events(TOOL, ev)
        m.restart_events()
        self.on = True

    def stop(self):
        if self.on:
            m = sys.monitoring
            m.set_events(TOOL, 0)
            m.free_tool_id(TOOL)
            self.on = False

    # -- per-op bookkeeping ----------------------------------------------
    def op_begin(self, interrupt_at=0, budget=0):
        self.ops[threading.get_ident()] = [0, interrupt_at, budget, 0]

    def op_end(self):
        """-> (line events seen, interrupts delivered)"""
        st = self.ops.pop(threading.get_ident(), None)
        return (0, 0) if st is None else (st[0], st[3])

    # -- callbacks ---------------------------------------------------------
    def _line(self, code, line):
        if not code.co_filename.startswith(boot.PREFIX):
            return sys.monitoring.DISABLE
        st = self.ops.get(threading.get_ident())
        if st is None:
            return None
        if self.gran == "line":
            self._event(code, line)
        st[0] += 1
        if self.rec is not None:
            a = simalloc.count()
            e = self.rec.get((code, line))
            if e is None:
                self.rec[(code, line)] = [st[0], st[0], a, a]
            else:
                e[1], e[3] = st[0], a
        if st[1] and st[0] == st[1]:
            st[3] += 1
            raise KeyboardInterrupt("simulated interrupt")
        if st[2] and st[0] > st[2]:
            st[2] = 0
            st[3] += 1
            raise StepBudget(f"no completion within the step budget")
        return None

    def _instr(self, code, offset):
        if not code.co_filename.startswith(boot.PREFIX):
            return sys.monitoring.DISABLE
        if threading.get_ident() not in self.ops:
            return None
        self._event(code, offset)
        return None

    def _event(self, code, at):
        self.events += 1
        if self.probe is not None and not self._in_probe \
                and self.events % self.probe_every == 0:
            self._in_probe = True
            try:
                self.probe()
            finally:
                self._in_probe = False
        if self.sched is not None:
            self.sched.event(code, at)


class Sched:
    """Token-passing scheduler over real threads."""

    def __init__(self, nthreads, plan):
        self.n = nthreads
        self.plan = plan
        self.sems = [threading.Semaphore(0) for _ in range(nthreads)]
        self.main = threading.Semaphore(0)
        self.tid = {}
        self.alive = []
        self.blocked = {}
        self.cur = None
        self.step = 0
        self.error = None
        self.switches = []      # realised preemptions: [step, to]

    def event(self, code=None, at=0):
        t = self.tid.get(threading.get_ident())
        if t is None:
            return
        self.step += 1
        ready = [x for x in self.alive if x not in self.blocked]
        nxt = self.plan.choose(self.step, t, ready, (code, at))
        if nxt != t and nxt in ready:
            self.switches.append([self.step, nxt])
            self._handoff(t, nxt)

    def _handoff(self, t, nxt):
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[t].acquire()

    def run(self, bodies):
        """bodies: list of callables, one per simulated thread."""
        self.alive = list(range(self.n))
        self._left = self.n
        ths = []

        def wrap(i):
            self.sems[i].acquire()
            self.tid[threading.get_ident()] = i
            try:
                bodies[i]()
            except BaseException as e:      # the calls' own errors are caught inside
                self.error = self.error or e
            finally:
                self.tid.pop(threading.get_ident(), None)
                self.alive.remove(i)
                ready = [x for x in self.alive if x not in self.blocked]
                if ready:
                    nxt = self.plan.on_exit(self.step, ready)
                    self.cur = nxt
                    self.sems[nxt].release()
                else:
                    self.main.release()

        for i in range(self.n):
            th = threading.Thread(target=wrap, args=(i,), daemon=True)
            th.start()
            ths.append(th)
        first = self.plan.on_exit(0, self.alive)
        self.cur = first
        self.sems[first].release()
        self.main.acquire()
        for th in ths:
            th.join(5)
        if self.alive:
            raise RuntimeError("simulated deadlock: threads %s blocked" % self.alive)
        if self.error is not None:
            raise RuntimeError(f"harness error in a simulated thread: {self.error!r}")

    # -- simulated locks (only used if the code under test creates locks) ----
    def block(self, lock):
        t = self.tid.get(threading.get_ident())
        self.blocked[t] = lock
        ready = [x for x in self.alive if x not in self.blocked]
        if not ready:
            self.main.release()
            self.sems[t].acquire()      # never resumed: reported as deadlock
        nxt = self.plan.on_exit(self.step, ready)
        self._handoff(t, nxt)

    def unblock(self, lock):
        for t, l in list(self.blocked.items()):
            if l is lock:
                del self.blocked[t]


class SimLock:
    """Drop-in Lock/RLock whose contention is resolved by the simulator."""
    _reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self._reentrant and self.owner == me):
            s = MON.sched
            if not blocking or s is None or s.tid.get(me) is None:
                return False
            s.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.depth = 0
            self.owner = None
            if MON.sched is not None:
                MON.sched.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock object")


class SimRLock(SimLock):
    _reentrant = True


# -- schedule plans ------------------------------------------------------------
class RandomPlan:
    """Uniform preemption with probability p at every event."""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def choose(self, step, cur, ready, site=None):
        if len(ready) > 1 and self.rng.random() < self.p:
            return ready[self.rng.randrange(len(ready))]
        return cur

    def on_exit(self, step, ready):
        return ready[self.rng.randrange(len(ready))]


class PctPlan:
    """Random priorities with a few priority-change points (PCT)."""

    def __init__(self, rng, n, horizon, d):
        self.prio = list(range(n))
        rng.shuffle(self.prio)
        self.points = {rng.randrange(1, max(2, horizon)) for _ in range(d)}
        self.low = -1

    def _best(self, ready):
        return max(ready, key=lambda t: self.prio[t])

    def choose(self, step, cur, ready, site=None):
        if step in self.points:
            self.prio[cur] = self.low
            self.low -= 1
        return self._best(ready)

    def on_exit(self, step, ready):
        return self._best(ready)


class RoundRobinPlan:
    def __init__(self, quantum):
        self.q = max(1, quantum)

    def choose(self, step, cur, ready, site=None):
        if step % self.q == 0:
            later = [x for x in ready if x > cur]
            return later[0] if later else ready[0]
        return cur

    def on_exit(self, step, ready):
        return ready[0]


class SitePlan:
    """Preemption at a few places of the code, every time one is reached: threads in
    the same function stop at the same place, one inside the other's critical section."""

    def __init__(self, rng, seed, p):
        self.rng, self.seed, self.p = rng, seed, p
        self.sites = {}

    def choose(self, step, cur, ready, site=None):
        hit = self.sites.get(site)
        if hit is None:
            code, at = site
            key = f"{self.seed}:{code.co_qualname}:{at - code.co_firstlineno}" if code else f"{self.seed}:between"
            hit = self.sites[site] = zlib.crc32(key.encode()) < self.p * 2 ** 32
        if hit and len(ready) > 1:
            return self.rng.choice([x for x in ready if x != cur])
        return cur

    def on_exit(self, step, ready):
        return ready[self.rng.randrange(len(ready))]


class ListPlan:
    """Replay: explicit preemption list."""

    def __init__(self, switches, order=()):
        self.sw = {int(s): int(t) for s, t in switches}

    def choose(self, step, cur, ready, site=None):
        t = self.sw.get(step)
        return t if t in ready else cur

    def on_exit(self, step, ready):
        t = self.sw.get(-step - 1)
        return t if t in ready else ready[0]


class Recorder:
    """Wraps a plan and records also the exit decisions, so ListPlan can replay."""

    def __init__(self, plan):
        self.plan = plan
        self.log = []

    def choose(self, step, cur, ready, site=None):
        t = self.plan.choose(step, cur, ready, site)
        if t != cur and t in ready:
            self.log.append([step, t])
        return t

    def on_exit(self, step, ready):
        t = self.plan.on_exit(step, ready)
        self.log.append([-step - 1, t])
        return t


def make_plan(sched, n):
    import random
    pol = sched["policy"]
    if pol == "list":
        return ListPlan(sched["switches"])
    rng = random.Random(sched["seed"])
    if pol == "rand":
        return RandomPlan(rng, sched["p"])
    if pol == "pct":
        return PctPlan(rng, n, sched["horizon"], sched["d"])
    if pol == "site":
        return SitePlan(rng, sched["seed"], sched["p"])
    if pol == "rr":
        return RoundRobinPlan(sched["q"])
    raise ValueError(pol)


MON = Monitor()
