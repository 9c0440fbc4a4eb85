"""The simulator: threads, time, locks, memory layout and in-code faults.

Import this module before anything else: it replaces the nondeterministic parts
of the standard library (locks, clocks) by versions the simulator decides, and
captures the real primitives it needs itself.

A *task* is a real thread, but only one task runs at any time.  Every executed
source line of the code under test (sys.monitoring LINE events) is a point where
the simulator may stop the running task, let another one go on, or make the line
fail.  What happens where comes from the run's specification (a JSON value drawn
from the seed), so a specification is one exactly repeatable execution.
"""
import _thread
import ast
import copyreg
import glob
import sys
import time as _time
import datetime as _datetime
import threading

raw_lock = _thread.allocate_lock
raw_start = _thread.start_new_thread
raw_ident = _thread.get_ident
real_time = _time.time
real_monotonic = _time.monotonic
RealDateTime = _datetime.datetime

REPO = "/repo"
PREFIXES = (REPO + "/lib/acltk/", REPO + "/examples/")


class SimAbort(BaseException):
    """the run is over for this task"""


class Stuck(BaseException):
    """the task waits for something that will never happen"""


class Overrun(BaseException):
    """step budget used up"""


class Clock:
    def __init__(self):
        self.now = 1700000000.0
        self.mono = 1000.0
        self.tz = 0
        self.reads = 0
        self.seen = []
        self.jumps = []     # [read number, seconds]: the wall clock is set while the program runs

    def wall(self):
        self.reads += 1
        for n, d in self.jumps:
            if n == self.reads:
                self.now += d
        self.seen.append(self.now)
        return self.now

    def advance(self, d):
        self.now += d
        self.mono += d


clock = Clock()


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, RealDateTime)

    def __subclasscheck__(cls, c):
        return issubclass(c, RealDateTime)


class SimDateTime(RealDateTime, metaclass=_Meta):
    """datetime.datetime with a simulated now()"""

    @classmethod
    def now(cls, tz=None):
        return RealDateTime.fromtimestamp(clock.wall(), tz)

    @classmethod
    def utcnow(cls):
        return RealDateTime.fromtimestamp(clock.wall(), _datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return RealDateTime.fromtimestamp(clock.wall())

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return RealDateTime.fromtimestamp(t, tz)

    def __new__(cls, *a, **kw):
        return RealDateTime(*a, **kw)


SimDateTime.__name__ = SimDateTime.__qualname__ = "datetime"
SimDateTime.__module__ = "datetime"


class SimDate(_datetime.date):
    pass


def _sleep(s):
    if current() is not None:
        sim.block_until(clock.mono + s, "sleep")
    else:
        clock.advance(s)


class SimLock:
    """threading.Lock seen by the scheduler"""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = current() or "main"
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if me == "main" or sim is None:
                raise Stuck("lock held outside of the simulation")
            until = None if timeout is None or timeout < 0 else clock.mono + timeout
            while self.owner is not None:
                if not sim.block_on(self, until):
                    return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0

    # for threading.Condition
    def _is_owned(self):
        return self.owner is (current() or "main")

    def _release_save(self):
        c = self.count
        self.owner, self.count = None, 0
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c


class SimRLock(SimLock):
    reentrant = True


def patch_stdlib():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    _time.time = lambda: clock.wall()
    _time.time_ns = lambda: int(clock.wall() * 1e9)
    _time.monotonic = lambda: clock.mono
    _time.monotonic_ns = lambda: int(clock.mono * 1e9)
    _time.perf_counter = lambda: clock.mono
    _time.sleep = _sleep
    _datetime.datetime = SimDateTime
    copyreg.pickle(RealDateTime, lambda d: (SimDateTime,) + d.__reduce_ex__(4)[1:])
    # localtime()/gmtime() without argument read the real clock
    for n in ("localtime", "gmtime"):
        f = getattr(_time, n)
        setattr(_time, n, (lambda f: lambda s=None: f(clock.wall() if s is None else s))(f))


# ------------------------------------------------------------------ hashes

class Hashes:
    """object.__hash__ and id() as a function of the run, not of memory layout"""

    def __init__(self):
        self.salt = 0
        self.seq = {}
        self.n = 0

    def of(self, o):
        e = self.seq.get(id(o))
        if e is None:
            self.n += 1
            e = self.seq[id(o)] = (self.n, o)
        x = (e[0] * 0x9E3779B97F4A7C15 + self.salt * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 31
        x = (x * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        return (x ^ x >> 29) & 0x0FFFFFFFFFFFFFF0


hashes = Hashes()


def _hash(self):
    return hashes.of(self)


def patch_hashes(modules):
    for m in modules:
        for c in list(vars(m).values()):
            if isinstance(c, type) and c.__module__ == m.__name__ and c.__hash__ is object.__hash__ and not issubclass(c, BaseException):
                try:
                    c.__hash__ = _hash
                except TypeError:
                    pass
        m.id = hashes.of


# ------------------------------------------------------------------ tasks

class Task:
    def __init__(self, n, fn):
        self.n = n
        self.fn = fn
        self.sem = raw_lock()
        self.sem.acquire()
        self.state = "new"      # new ready blocked done
        self.wake = None
        self.on = None
        self.why = None
        self.exc = None
        self.steps = 0
        self.base = 0
        self.fault = None       # [at step, exception]
        self.timed_out = False


sim = None


def current():
    s = sim
    if s is None or s.cur is None:
        return None
    return s.cur if s.ident == raw_ident() else None


class Crash(BaseException):
    """the process dies here: nothing it does from now on becomes durable"""


crashed = []        # called at the moment of a crash


FAULTS = {"Crash": Crash, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "MemoryError": MemoryError,
          "RecursionError": RecursionError, "GeneratorExit": GeneratorExit}


class Sim:
    """one run"""

    def __init__(self, switches=(), budget=3_000_000, rng=None, gap=0, limit=400, rare=0):
        """switches: explicit schedule; or rng and gap: preempt about every `gap` lines, at most `limit` times;
        or rng and rare: preempt with about this probability where code runs for the first few times"""
        self.rng, self.gap, self.limit, self.rare = rng, gap, limit, rare
        self.runs = {}              # (code, line) -> how often it ran, or may still be of interest
        self.meet = None            # [task, code, line]: the task goes on when another one gets there as well
        self.tasks = []
        self.cur = None
        self.ident = None
        self.ev = 0
        self.nxt = -1
        self.switches = [tuple(s) for s in switches]
        self.sw = 0
        self.budget = budget
        self.main = raw_lock()
        self.main.acquire()
        self.stop = None            # reason why the run was aborted
        self.sched = []             # what was decided where
        self.nswitch = 0
        self.blocks = 0
        self.fired = {}
        self.faultlog = []
        self.active = False
        self.draw()

    def draw(self):
        if self.rng is not None and self.gap and self.sw == len(self.switches) and self.sw < self.limit:
            self.switches.append((self.ev + 1 + int(self.rng.expovariate(1.0 / self.gap)), self.rng.randrange(60)))

    # -- the monitored code stops here
    def on_line(self, code, line):
        self.ev += 1
        if self.ev == self.nxt and self.active:
            self.trigger(code, line)

    def trigger(self, code, line):
        t = self.cur
        if raw_ident() != self.ident:
            return
        if self.stop:
            raise SimAbort()
        if self.ev >= self.budget:
            self.stop = self.stop or "step budget used up"
            raise Overrun(f"{self.ev} steps")
        steps = t.steps + self.ev - t.base
        exc = None
        if t.fault and steps >= t.fault[0]:
            exc = t.fault[1]
            t.fault = None
            self.fired[exc] = self.fired.get(exc, 0) + 1
            self.faultlog.append([t.n, exc, code.co_filename.rsplit("/", 1)[-1], line])
        target = None
        while self.sw < len(self.switches) and self.switches[self.sw][0] <= self.ev:
            target = self.switches[self.sw][1]
            self.sw += 1
            self.draw()
        if target is not None:
            self.switch(target, "%s:%d" % (code.co_filename.rsplit("/", 1)[-1], line))
        self.plan()
        if exc:
            if exc == "Crash":
                for f in crashed:
                    f()
            raise FAULTS[exc]("injected")

    def plan(self):
        n = self.budget
        if self.sw < len(self.switches):
            n = min(n, self.switches[self.sw][0])
        t = self.cur
        if t is not None and t.fault:
            n = min(n, self.ev + max(1, t.fault[0] - (t.steps + self.ev - t.base)))
        self.nxt = max(n, self.ev + 1)

    def arm(self, at, exc):
        """the current task's code fails `at` steps from now"""
        t = self.cur
        t.fault = [t.steps + self.ev - t.base + max(1, at), exc]
        self.plan()

    def disarm(self):
        t = self.cur
        f = t.fault
        t.fault = None
        self.plan()
        return f is None

    def steps(self):
        t = self.cur
        return t.steps + self.ev - t.base

    # -- scheduling
    def ready(self):
        return [t for t in self.tasks if t.state == "ready" and t is not self.cur]

    def handover(self, t):
        me = self.cur
        me.steps += self.ev - me.base
        self.cur = t
        t.base = self.ev
        t.sem.release()

    def switch(self, choice, where):
        r = self.ready()
        if not r:
            return
        t = r[choice % len(r)]
        self.nswitch += 1
        self.sched.append([self.cur.n, t.n, where])
        me = self.cur
        me.state = "ready"
        self.handover(t)
        self.wait(me)

    def wait(self, me):
        me.sem.acquire()
        me.state = "run"
        self.ident = raw_ident()
        self.plan()
        if self.stop:
            raise SimAbort()

    def pick(self):
        """somebody to run when the current task cannot; advances time when all sleep"""
        while True:
            r = self.ready()
            if r:
                c = 0
                if self.sw < len(self.switches):
                    c = self.switches[self.sw][1]
                return r[c % len(r)]
            for t in self.tasks:
                if t.state == "blocked" and t.on is not None and t.on.owner is None:
                    t.state = "ready"
            if self.ready():
                continue
            # the current task may itself have become ready
            if self.cur is not None and self.cur.state == "ready":
                return self.cur
            s = [t for t in self.tasks if t.state == "blocked" and t.wake is not None]
            if not s:
                return None
            w = min(t.wake for t in s)
            if w > clock.mono:
                clock.advance(w - clock.mono)
            for t in s:
                if t.wake <= clock.mono:
                    t.state = "ready"
                    t.timed_out = True
            if self.cur is not None and self.cur.state == "ready":
                return self.cur

    def block(self, why):
        me = self.cur
        me.state = "blocked"
        me.why = why
        me.timed_out = False
        self.blocks += 1
        t = self.pick()
        if t is None:
            self.stop = self.stop or "stuck: " + "; ".join(f"task {x.n} waits for {x.why}" for x in self.tasks if x.state == "blocked")
            me.state = "run"
            raise Stuck(self.stop)
        if t is not me:
            self.sched.append([me.n, t.n, why])
            self.handover(t)
            self.wait(me)
        me.state = "run"

    def block_until(self, wake, why):
        if wake <= clock.mono:
            return
        me = self.cur
        me.wake, me.on = wake, None
        while clock.mono < wake:
            me.wake = wake
            self.block(why)

    def block_on(self, lock, until):
        """-> False when timed out"""
        me = self.cur
        me.on, me.wake = lock, until
        self.block("lock")
        me.on = me.wake = None
        return lock.owner is None or not me.timed_out

    def body(self, t):
        t.sem.acquire()
        t.state = "run"
        self.ident = raw_ident()
        self.plan()
        try:
            if not self.stop:
                t.fn()
        except SimAbort:
            pass
        except BaseException as e:
            t.exc = e
        t.state = "done"
        t.steps += self.ev - t.base
        try:
            n = self.pick() if not self.stop else next((x for x in self.tasks if x.state != "done"), None)
        except BaseException as e:
            self.stop = self.stop or repr(e)
            n = None
        if n is None:
            left = [x for x in self.tasks if x.state != "done"]
            if left:
                self.stop = self.stop or "stuck: " + "; ".join(f"task {x.n} waits for {x.why}" for x in left)
                n = left[0]
        if n is None:
            self.cur = None
            self.ident = None
            self.active = False
            self.main.release()
        else:
            self.sched.append([t.n, n.n, "end"])
            self.cur = n
            n.base = self.ev
            n.sem.release()

    def run(self, fns):
        """run the functions as tasks; -> tasks"""
        global sim
        sim = self
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        _thread.stack_size(64 << 20)
        for t in self.tasks:
            t.state = "ready"
            raw_start(self.body, (t,))
        first = self.tasks[0]
        self.cur = first
        first.base = self.ev
        self.active = True
        if self.rare:
            sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _rare)
        first.sem.release()
        self.main.acquire()
        self.active = False
        if self.rare:
            sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _line)
        sim = None
        return self.tasks


# ------------------------------------------------------------------ monitoring

TOOL = 4
_known = {}


def _interesting(code):
    r = _known.get(code)
    if r is None:
        fn = code.co_filename
        # functions; the bodies of modules and classes run once, alone
        r = _known[code] = fn.startswith(PREFIXES) and bool(code.co_flags & 1)
    return r


def _line(code, line):
    if not _interesting(code):
        return sys.monitoring.DISABLE
    s = sim
    if s is not None and s.active:
        s.ev += 1
        if s.ev == s.nxt:
            s.trigger(code, line)


NEAR = [1, 2, 3, 5, 8, 13, 21, 34, 55, 144]


def _rare(code, line):
    """like _line, drawing a switch now and then"""
    if not _interesting(code):
        return sys.monitoring.DISABLE
    s = sim
    if s is not None and s.active:
        s.ev += 1
        if s.meet is not None:
            t, c, l = s.meet
            if t is s.cur:
                s.meet = None
            elif c is code and l == line and s.sw == len(s.switches):
                # two at the same place: the first goes on for a bit, then the second
                s.meet = None
                r = s.ready()
                if t in r:
                    x, y = s.rng.choice(NEAR), s.rng.choice(NEAR)
                    s.switches += [(s.ev, r.index(t)), (s.ev + x, s.rng.randrange(60)), (s.ev + x + y, s.rng.randrange(60))]
                    s.nxt = s.ev
        k = s.runs.get((code, line), 0)
        if k < 4 and s.meet is None:
            s.runs[code, line] = k + 1
            if s.sw == len(s.switches) < s.limit and s.rng.random() < (s.rare if code.co_filename not in generated else s.rare / 16):
                s.switches.append((s.ev, s.rng.randrange(60)))
                s.nxt = s.ev
                if s.rng.random() < 0.4:
                    s.meet = [s.cur, code, line]
        if s.ev == s.nxt:
            s.trigger(code, line)


def sources():
    """the files of the code under test"""
    return [n for d in PREFIXES for n in sorted(glob.glob(d + "**/*.py", recursive=True))]


def _generated():
    """the files of the parsers, which have no state of their own"""
    out = set()
    for n in sources():
        with open(n) as f:
            if "the file is generated" in f.read(4000):
                out.add(n)
    return out


generated = _generated()
seen = None             # while traced: (file, line) -> the steps at which it ran


def _traced(code, line):
    if not _interesting(code):
        return sys.monitoring.DISABLE
    s = sim
    if s is not None and s.active:
        s.ev += 1
        seen.setdefault((code.co_filename.rsplit("/", 1)[-1], line, code.co_filename), []).append(s.ev)
        if s.ev == s.nxt:
            s.trigger(code, line)


def trace(on):
    """from now on, note which lines run"""
    global seen
    r, seen = seen, ({} if on else None)
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _traced if on else _line)
    return r


def _guards():
    """file -> the lines of it that lie within a try with handlers, where an error may be lost"""
    out = {}
    for n in sources():
        with open(n) as f:
            text = f.read()
        if "except" not in text:
            continue
        try:
            tree = ast.parse(text)
        except (SyntaxError, ValueError):
            continue
        r = out[n] = set()
        for t in ast.walk(tree):
            if isinstance(t, ast.Try) and t.handlers:
                r.update(range(t.body[0].lineno, t.body[-1].end_lineno + 1))
    return out


guarded = _guards()


def place(seen, n, how, x, y):
    """-> a step: of all (by number), of one of the lines that ran, or of one of those within a try; x, y: fractions"""
    k = sorted(seen)
    if how == "try":
        k = [i for i in k if i[1] in guarded.get(i[2], ())] or k
    if how == "step" or not k:
        return max(1, int(n * x))
    o = seen[k[int(x * len(k)) % len(k)]]
    return o[int(y * len(o)) % len(o)]


def monitor():
    m = sys.monitoring
    m.use_tool_id(TOOL, "acltk-sim")
    m.register_callback(TOOL, m.events.LINE, _line)
    m.set_events(TOOL, m.events.LINE)
