"""Deterministic simulation kernel for Python programs: one fiber (thread) runs at a time, virtual time, seeded or
replayed scheduling decisions at every line of the code under test and at every simulated call."""
import _thread, hashlib, heapq, random, sys

MS = 1000000
S = 1000000000


class Killed(BaseException):
    """Ends the fibers that are left when a run is over."""


class Fiber(object):
    def __init__(self, sim, name, fn):
        self.sim, self.name, self.fn = sim, name, fn
        self.idx = len(sim.fibers)
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.cond = None
        self.deadline = None
        self.blocked = False
        self.done = False
        self.exc = None
        sim.fibers.append(self)
        _thread.start_new_thread(self._run, ())

    def _run(self):
        self.lock.acquire()
        sim = self.sim
        if not sim.killing:
            sys.settrace(sim.tracer)
            try:
                self.fn()
            except Killed:
                pass
            except BaseException as e:
                self.exc = e
            sys.settrace(None)
        self.done = True
        sim.fiber_done(self)


class Sim(object):
    def __init__(self, plan, decisions, replay, prop, trace, targets):
        sched = plan.first("sched") or {}
        self.rng = random.Random(int(sched.get("seed", 1)))
        self.p = float(sched.get("p", 0.05))
        self.pblock = float(sched.get("pb", 0.3))
        self.replay = replay
        self.want = dict(decisions)
        self.decisions = []
        self.prop = prop
        self.plan = plan
        self.tracing = trace
        self.log = []
        self.targets = targets
        self.now = 0
        self.heap = []
        self.seq = 0
        self.fibers = []
        self.cur = None
        self.main = None
        self.killing = False
        self.over = False
        self.points = 0
        self.npoint = 0
        self.switches = 0
        self.preemptions = 0
        self.counters = {}
        self.violation = None
        self.other = None
        self.h = hashlib.blake2b(digest_size=8)
        self.order = hashlib.blake2b(digest_size=8)
        self.home = _thread.allocate_lock()
        self.home.acquire()
        self.sig_pending = 0
        self.sig_handler = None
        self.sig_points = sorted(int(l["pt"]) for l in plan.all("sig") if "pt" in l)
        self.horizon = 1000 * S
        self.max_points = 20000   # without any progress of time
        self.last_now, self.still = 0, 0
        self.masked = 0
        self.on_point = None
        self.hang_msg = lambda: "the program hangs"

    # ---- results
    def ev(self, label, order=True):
        self.h.update(("%d %s\n" % (self.now, label)).encode())
        if order:
            self.order.update((label.split(" @")[0] + "\n").encode())
        if self.tracing:
            self.log.append("%10.3f ms %-10s %s" % (self.now / 1e6, self.cur.name if self.cur else "-", label))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def fail(self, prop, msg):
        if prop in (self.prop, "*"):
            if self.violation is None:
                self.violation = msg
                self.ev("VIOLATION " + msg)
        elif self.other is None:
            self.other = "%s %s" % (prop, msg)

    def abort(self):
        """Ends the run from any fiber."""
        self.over = True
        if self.cur is not None:
            self._finish()

    # ---- events
    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.heap, (max(t, self.now), self.seq, fn))

    # ---- scheduling
    def runnable(self, f):
        if f.done:
            return False
        if not f.blocked:
            return True
        if f is self.main and self.sig_pending and self.sig_handler:
            return True
        if f.deadline is not None and f.deadline <= self.now:
            return True
        return f.cond is not None and f.cond()

    def choose(self, cands, cur, p):
        """Index of the fiber to run; the default is to continue with the current one, else the first."""
        k = self.points
        self.points += 1
        default = cands.index(cur) if cur in cands else 0
        if len(cands) == 1:
            return cands[0]
        if self.replay:
            j = self.want.get(k, default)
        else:
            j = default
            if self.rng.random() < p:
                j = self.rng.randrange(len(cands))
        j %= len(cands)
        if j != default:
            self.decisions.append((k, j))
            if cur in cands:
                self.preemptions += 1
        return cands[j]

    def step_events(self):
        while self.heap and self.heap[0][0] <= self.now and not self.over:
            _, _, fn = heapq.heappop(self.heap)
            fn()

    def next(self, cur, p):
        while True:
            self.step_events()
            if self.over:
                return None
            r = [f for f in self.fibers if self.runnable(f)]
            if r:
                return self.choose(r, cur, p)
            ts = [f.deadline for f in self.fibers if not f.done and f.blocked and f.deadline is not None]
            if self.heap:
                ts.append(self.heap[0][0])
            if not ts or min(ts) > self.horizon:
                self.fail("*", self.hang_msg())
                self.over = True
                return None
            self.now = max(self.now, min(ts))

    def _finish(self):
        """Gives control back to the harness; the calling fiber waits to be killed."""
        f = self.cur
        self.home.release()
        if f is not None and not f.done:
            f.lock.acquire()
            raise Killed()

    def resched(self, p):
        cur = self.cur
        n = self.next(cur, p)
        if n is None:
            self._finish()
            return
        if n is not cur:
            self.switches += 1
            self.cur = n
            n.lock.release()
            cur.lock.acquire()
            if self.killing:
                raise Killed()

    def fiber_done(self, f):
        if self.killing:
            self.home.release()
            return
        if f is self.main:
            self.over = True
        n = None if self.over else self.next(f, 0)
        if n is None:
            self.home.release()
            return
        self.switches += 1
        self.cur = n
        n.lock.release()

    def point(self):
        """A scheduling point of a running fiber."""
        if self.killing:
            raise Killed()
        if self.over:
            self._finish()
        self.npoint += 1
        if self.sig_points and self.npoint >= self.sig_points[0]:
            self.sig_points.pop(0)
            self.signal()
        if self.now != self.last_now:
            self.last_now, self.still = self.now, 0
        self.still += 1
        if self.still > self.max_points:
            self.fail("*", "livelock: " + self.hang_msg())
            self.over = True
            self._finish()
        if self.cur is self.main and self.sig_pending and self.sig_handler and not self.masked:
            self.deliver()
        if len(self.fibers) > 1 or self.heap and self.heap[0][0] <= self.now:
            self.resched(self.p)
            if self.cur is self.main and self.sig_pending and self.sig_handler and not self.masked:
                self.deliver()

    def signal(self):
        self.count("fault_signal")
        self.ev("signal @%d" % self.npoint)
        self.sig_pending += 1
        if not self.sig_handler:
            # the default action of a process that has not installed its handlers yet
            self.sig_pending = 0
            self.ev("killed by the signal before the node started")
            self.over = True

    def deliver(self):
        while self.sig_pending:
            self.sig_pending -= 1
            self.sig_handler()

    def wait(self, cond=None, deadline=None):
        """Blocks the current fiber until the condition holds (True) or the deadline has passed (False)."""
        if self.killing:
            raise Killed()
        f = self.cur
        while True:
            if f is self.main and self.sig_pending and self.sig_handler:
                self.deliver()
            if cond is not None and cond():
                return True
            if deadline is not None and self.now >= deadline:
                return False
            f.cond, f.deadline, f.blocked = cond, deadline, True
            try:
                self.resched(self.pblock)
            finally:
                f.cond, f.deadline, f.blocked = None, None, False

    def sleep(self, ns):
        if ns > 0:
            self.wait(None, self.now + int(ns))
        else:
            self.point()

    # ---- tracing of the code under test
    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename in self.targets:
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line" and not self.masked:
            self.point()
        return self.local

    def spawn(self, name, fn):
        f = Fiber(self, name, fn)
        self.ev("thread " + name)
        return f

    def run(self, fn):
        self.main = Fiber(self, "main", fn)
        self.cur = self.main
        self.main.lock.release()
        self.home.acquire()
        self.killing = True
        for f in self.fibers:
            if not f.done:
                self.cur = f
                f.lock.release()
                self.home.acquire()
        self.cur = None
