"""Deterministic thread scheduler: real threads, one running at a time, handed over by baton.

Preemption points are sys.monitoring LINE (or INSTRUCTION) events of selected code objects, lock
operations and sleeps.  Locks and clocks created by the code under test are simulated: a blocked
thread is never scheduled, a deadlock is a verdict, and time only moves when every thread waits.

A schedule is recorded as [uid, n, to]: when operation `uid` reaches its n-th event, run thread
`to`; it can be replayed explicitly without the strategy that found it."""
import _thread
import gc
import sys
import threading
import time as _time

_real_lock = _thread.allocate_lock
_start = _thread.start_new_thread
_ident = _thread.get_ident
TOOL = 3
CUR = None  # the active Sched


class Deadlock(BaseException):
    pass


class Hang(BaseException):
    pass


class _T:
    __slots__ = ("id", "fn", "wake", "state", "uid", "n", "ident", "on", "due", "prio", "result", "loc")

    def __init__(self, i, fn):
        self.id, self.fn = i, fn
        self.wake = _real_lock()
        self.wake.acquire()
        self.state = "ready"
        self.uid, self.n, self.ident = f"t{i}", 0, None
        self.on = self.due = None
        self.prio = 0
        self.result = None
        self.loc = ("-", 0)  # where it stands, in monitored code


class Sched:
    """strategy: {"mode":"random","mean":m} | {"mode":"pct","points":[...],"prios":[...]}
    | {"mode":"explicit","switches":[...]} | {"mode":"none"}"""

    def __init__(self, strategy, rng):
        self.st = strategy
        self.mode = strategy["mode"]
        self.rng = rng
        self.ts = []
        self.cur = None
        self.total = 0
        self.left = 0
        self.now = 0.0
        self.switches = []
        self.explicit = {}
        self.dead = None
        self.nswitch = 0
        self.contention = 0
        self.pairs = set()  # (where the preempted thread stands, where the next one resumes)
        self.main = _real_lock()
        self.main.acquire()
        if self.mode == "explicit":
            for uid, n, to in strategy["switches"]:
                self.explicit[(uid, n)] = to
        if self.mode == "pct":
            self.points = set(strategy["points"])

    def add(self, fn):
        t = _T(len(self.ts), fn)
        if self.mode == "pct":
            pr = self.st["prios"]
            t.prio = 1000 + pr[t.id % len(pr)]
        self.ts.append(t)
        return t

    # ---- decisions -------------------------------------------------------------------
    def refill(self):
        if self.mode == "random":
            # hand-overs get rarer in very long runs, so that the run ends and stays replayable
            self.left = 1 + int(self.rng.expovariate(1.0 / self.st["mean"]) * (1 + self.nswitch // 1500) ** 2)
        elif self.mode == "pct":
            nxt = [p for p in self.points if p > self.total]
            self.left = (min(nxt) - self.total) if nxt else -1
        else:
            self.left = -1

    def event(self):
        """One event of the running thread."""
        t = self.cur
        t.n += 1
        self.total += 1
        if self.mode == "explicit":
            to = self.explicit.get((t.uid, t.n))
            if to is not None and to < len(self.ts) and self.ts[to].state == "ready" and to != t.id:
                self.hand(t, self.ts[to])
            return
        self.left -= 1
        if self.left == 0:
            self.preempt(t)

    def preempt(self, t):
        if self.mode == "pct":
            t.prio = -self.total  # a change point: lowest priority from now on
            to = self.best()
        else:
            rs = [x for x in self.ts if x.state == "ready" and x is not t]
            to = self.rng.choice(rs) if rs else t
        self.refill()
        if to is not t:
            self.hand(t, to)

    def best(self):
        rs = [x for x in self.ts if x.state == "ready"]
        return max(rs, key=lambda x: x.prio) if rs else None

    def hand(self, t, to):
        self.switches.append([t.uid, t.n, to.id])
        self.nswitch += 1
        self.pairs.add((t.loc, to.loc))
        self.cur = to
        to.wake.release()
        t.wake.acquire()
        if self.dead is not None:
            raise self.dead

    def pick_next(self, t):
        """The running thread cannot continue: who runs now?"""
        while True:
            rs = [x for x in self.ts if x.state == "ready"]
            if rs:
                if self.mode == "explicit":
                    to = self.explicit.get((t.uid, "x%d" % t.n))
                    for x in rs:
                        if x.id == to:
                            return x
                    return rs[0]
                if self.mode == "pct":
                    return self.best()
                return self.rng.choice(rs)
            due = [x for x in self.ts if x.state == "blocked" and x.due is not None]
            if not due:
                return None
            x = min(due, key=lambda x: (x.due, x.id))
            self.now = max(self.now, x.due)
            x.state = "ready"
            x.due = None
            if x.on is not None:
                x.on = "timeout"

    def leave(self, t):
        """Give the baton away; t is blocked or done."""
        to = self.pick_next(t)
        if to is None:
            if any(x.state == "blocked" for x in self.ts):
                self.dead = Deadlock("; ".join(f"thread {x.id} waits in {x.uid}" for x in self.ts if x.state == "blocked"))
                # wake the waiters one by one so that they unwind
                return None
            self.cur = None
            self.main.release()
            return None
        if to is not t:
            self.switches.append([t.uid, "x%d" % t.n, to.id])
            self.cur = to
            to.wake.release()
        return to

    def block(self, on, timeout):
        """-> False on timeout.  Called by the running thread."""
        t = self.cur
        t.state = "blocked"
        t.on = on
        t.due = None if timeout is None else self.now + timeout
        self.contention += 1
        to = self.leave(t)
        if to is None and self.dead is not None:
            raise self.dead
        if to is not t:
            t.wake.acquire()
            if self.dead is not None:
                raise self.dead
        r = t.on != "timeout"
        t.on = None
        t.state = "ready"
        return r

    def unblock(self, on):
        for x in self.ts:
            if x.state == "blocked" and x.on is on:
                x.state = "ready"
                x.due = None

    # ---- running ---------------------------------------------------------------------
    def body(self, t):
        t.wake.acquire()
        t.ident = _ident()
        if self.dead is None:
            try:
                t.fn(t)
            except BaseException as e:  # fn handles its own; this is ours
                t.result = e
                if isinstance(e, Deadlock) and self.dead is None:
                    self.dead = e
        t.state = "done"
        if self.dead is not None:
            rest = [x for x in self.ts if x.state != "done"]
            if rest:
                self.cur = rest[0]
                rest[0].wake.release()
            else:
                self.cur = None
                self.main.release()
            return
        if self.leave(t) is None and self.dead is not None:
            rest = [x for x in self.ts if x.state != "done"]
            self.cur = rest[0]
            rest[0].wake.release()

    def run(self, wall=300):
        global CUR
        CUR = self
        for t in self.ts:
            _start(self.body, (t,))
        self.refill()
        if self.mode == "explicit":
            first = self.ts[self.st.get("first", 0) % len(self.ts)]
        elif self.mode == "pct":
            first = self.best()
        else:
            first = self.rng.choice(self.ts)
        self.first = first.id
        self.cur = first
        first.wake.release()
        ok = self.main.acquire(True, wall)
        CUR = None
        if not ok:
            raise Hang(f"no progress (events {self.total})")
        for t in self.ts:
            if t.result is not None and not isinstance(t.result, Deadlock):
                raise t.result
        return self

    def explicit_form(self):
        return {"mode": "explicit", "first": self.first, "switches": self.switches, "gran": self.st.get("gran"), "wide": self.st.get("wide")}


def in_sim():
    s = CUR
    return s is not None and s.cur is not None and s.cur.ident == _ident()


class SimLock:
    def __init__(self):
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        if not in_sim():
            if self._n:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("deadlock outside the simulation")
            self._n = 1
            return True
        s = CUR
        s.event()
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._n:
            if not blocking:
                return False
            if not s.block(self, None if end is None else max(0.0, end - s.now)):
                return False
        self._n = 1
        return True

    def release(self):
        if not self._n:
            raise RuntimeError("release unlocked lock")
        self._n = 0
        if in_sim():
            CUR.unblock(self)
            CUR.event()

    def locked(self):
        return bool(self._n)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._n = 0


class SimRLock:
    def __init__(self):
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        if self._owner == me:
            self._n += 1
            return True
        if not in_sim():
            if self._owner is not None:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("deadlock outside the simulation")
            self._owner, self._n = me, 1
            return True
        s = CUR
        s.event()
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            if not s.block(self, None if end is None else max(0.0, end - s.now)):
                return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._owner != _ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            if in_sim():
                CUR.unblock(self)
                CUR.event()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _ident()

    def _release_save(self):
        st = (self._owner, self._n)
        self._owner, self._n = None, 0
        if in_sim():
            CUR.unblock(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._n = st

    def _recursion_count(self):
        return self._n if self._owner == _ident() else 0

    def _at_fork_reinit(self):
        self._owner, self._n = None, 0


def sim_sleep(d):
    if in_sim():
        if d <= 0:
            CUR.event()
        else:
            CUR.block(None, d)


_real_time = {k: getattr(_time, k) for k in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns", "sleep")}
EPOCH = 1_700_000_000.0


def _clk(name, base, ns):
    real = _real_time[name]

    def f():
        s = CUR
        if s is None:
            return real()
        v = base + s.now
        return int(v * 1e9) if ns else v

    f.__name__ = name
    return f


def install():
    """Before the code under test is imported: its locks and clocks become simulated ones."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    for n in ("time", "monotonic", "perf_counter"):
        setattr(_time, n, _clk(n, EPOCH if n == "time" else 1000.0, False))
        setattr(_time, n + "_ns", _clk(n + "_ns", EPOCH if n == "time" else 1000.0, True))

    def sleep(d):
        if CUR is None:
            return _real_time["sleep"](d)
        return sim_sleep(d)

    _time.sleep = sleep


# ---- preemption points ---------------------------------------------------------------------


def code_objects(prefixes):
    """Code of every live Python function whose file is under one of the prefixes."""
    out, todo = set(), []
    for o in gc.get_objects():
        c = getattr(o, "__code__", None) if type(o).__name__ == "function" else None
        if c is not None:
            todo.append(c)
    while todo:
        c = todo.pop()
        if c in out:
            continue
        if any(c.co_filename.startswith(p) for p in prefixes):
            out.add(c)
            todo.extend(k for k in c.co_consts if hasattr(k, "co_code"))
    return sorted(out, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))


def _line(code, line):
    s = CUR
    if s is not None:
        t = s.cur
        if t is not None and t.ident == _ident():
            t.loc = (code.co_name, line)
            s.event()


def monitor(codes, gran):
    m = sys.monitoring
    E = m.events
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "sim")
    m.register_callback(TOOL, E.LINE, _line)
    m.register_callback(TOOL, E.INSTRUCTION, _line)
    ev = E.INSTRUCTION if gran == "instr" else E.LINE
    for c in codes:
        m.set_local_events(TOOL, c, ev)


def unmonitor(codes):
    for c in codes:
        sys.monitoring.set_local_events(TOOL, c, 0)
