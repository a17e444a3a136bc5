"""The simulator core: ranks, scheduler, clock, faults.

Ranks are real threads, but exactly one of them runs at any time; which one is decided only here.  A rank
gives up control only inside a call of the simulated MPI library (sim/mpi.py).  Ranks share no memory (each
has its own copy of the pylops_mpi modules, see sim/loader.py), so switching at MPI calls only loses no
interleaving.
"""
import sys
import threading
import time as _time
import traceback
import random
import zlib
from collections import deque

import numpy as np

_real_time = _time.time
_real_monotonic = _time.monotonic
_real_empty = np.empty
_real_empty_like = np.empty_like

MASK64 = (1 << 64) - 1


class SimAbort(BaseException):
    """Unwinds a rank when the simulated job is torn down."""


class RankCrash(BaseException):
    """Fail-stop of one rank."""


class HarnessError(BaseException):
    """The simulator cannot represent what the code asked for (never a VIOLATION)."""


class CheckFailed(BaseException):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg
        super().__init__(f"{cls}: {msg}")


# --------------------------------------------------------------------------------------------------
# nondeterminism


class Chooser:
    """Every decision goes through pick()/strategy and is logged; a log can be replayed.

    The log is a list of chosen indices (one per decision that had more than one option).  0 is always
    the "plain" option (keep running the same rank, eager send, left-to-right reduction, ...), so a trace
    is minimised by turning entries into 0."""

    def __init__(self, sched, nranks, forced=None):
        self.sched = sched
        self.rng = random.Random(sched.get("seed", 0))
        self.forced = forced  # dict index -> choice, or None
        self.trace = []       # (index -> choice), only non-zero entries are kept
        self.n = 0
        self.strategy = sched.get("strategy", "plain")
        self.p_rdv = sched.get("rdv", 0.0)
        self.p_early = sched.get("early", 0.0)
        self.p_late = sched.get("late", 0.0)
        self.red = sched.get("red", "fixed")
        r = self.rng
        self.prio = list(range(nranks))
        r.shuffle(self.prio)
        self.dprio = r.randrange(nranks + 1)
        self.victim = r.randrange(nranks)
        self.rr = 0
        self.stick = sched.get("stick", 0.9)
        self.chg = set(r.randrange(1, 400) for _ in range(4))

    def _log(self, c):
        i = self.n
        self.n += 1
        if self.forced is not None:
            return i
        if c:
            self.trace.append((i, c))
        return i

    def _decide(self, n, fn):
        """one logged decision among n options"""
        i = self.n
        self.n += 1
        if self.forced is not None:
            c = self.forced.get(i, 0)
            if c >= n:
                c = c % n
        else:
            c = fn()
        if c:
            self.trace.append((i, c))
        return c

    def schedule(self, opts, cur, nrank_opts):
        """opts: list of ('r', rank) then ('d', channel); opts[0] is the plain choice."""
        n = len(opts)
        if n == 1:
            return 0
        return self._decide(n, lambda: self._strategy(opts, cur, nrank_opts))

    def _strategy(self, opts, cur, k):
        s = self.strategy
        n = len(opts)
        r = self.rng
        if s == "plain":
            return 0
        if s == "uniform":
            return r.randrange(n)
        if s == "sticky":
            return 0 if r.random() < self.stick else r.randrange(n)
        if s == "reverse":
            return n - 1
        if s == "netfirst":     # deliver everything at once, then random rank
            return k if n > k else r.randrange(n)
        if s == "netlast":      # deliver only when nobody can run
            return r.randrange(k) if k else r.randrange(n)
        if s == "rr":
            self.rr += 1
            return self.rr % n
        if s == "starve":       # one rank (and its mail) waits as long as possible
            v = self.victim
            good = [i for i, (t, o) in enumerate(opts)
                    if not ((t == "r" and o == v) or (t == "d" and o[2] == v))]
            return good[r.randrange(len(good))] if good else r.randrange(n)
        if s == "starvesrc":    # messages from one rank are slow
            v = self.victim
            good = [i for i, (t, o) in enumerate(opts) if not (t == "d" and o[1] == v)]
            return good[r.randrange(len(good))] if good else r.randrange(n)
        if s == "pct":          # random priorities with a few change points
            if self.n in self.chg:
                r.shuffle(self.prio)
                self.dprio = r.randrange(len(self.prio) + 1)
            best, bi = None, 0
            for i, (t, o) in enumerate(opts):
                p = (self.prio[o] + 0.5) if t == "r" else (self.dprio + 0.01 * self.prio[o[2] % len(self.prio)])
                if best is None or p < best:
                    best, bi = p, i
            return bi
        raise HarnessError(f"unknown strategy {s}")

    def flag(self, kind):
        p = {"rdv": self.p_rdv, "early": self.p_early, "late": self.p_late}[kind]
        if p <= 0 and self.forced is None:
            self.n += 1
            return 0
        return self._decide(2, lambda: 1 if self.rng.random() < p else 0)

    def reduction(self):
        if self.red == "fixed":
            return 0
        return self._decide(1 << 20, lambda: self.rng.randrange(1 << 20))

    def choose(self, n):
        if n <= 1:
            return 0
        return self._decide(n, lambda: self.rng.randrange(n))


# --------------------------------------------------------------------------------------------------
# worker threads


class _Worker:
    pool = []

    def __init__(self):
        self.go = threading.Lock()
        self.go.acquire()
        self.fn = None
        t = threading.Thread(target=self._loop, daemon=True)
        t.start()

    def _loop(self):
        while True:
            self.go.acquire()
            fn, self.fn = self.fn, None
            fn()

    @classmethod
    def get(cls):
        return cls.pool.pop() if cls.pool else cls()

    def start(self, fn):
        self.fn = fn
        self.go.release()


class RankState:
    __slots__ = ("id", "world", "lock", "status", "pred", "desc", "deps", "outcome", "mods", "out", "err",
                 "ncalls", "inject", "polling", "worker", "ctx", "live_comms", "live_reqs", "nsent", "where",
                 "stall_until", "comm_sites", "phase", "errs", "handles")

    def __init__(self, world, i):
        self.id = i
        self.world = world
        self.lock = threading.Lock()
        self.lock.acquire()
        self.status = "new"      # new/run/blocked/done
        self.pred = None
        self.desc = "start"
        self.deps = None
        self.outcome = None
        self.mods = None
        self.out = []
        self.err = []
        self.ncalls = 0
        self.inject = None
        self.polling = False
        self.live_comms = 0
        self.live_reqs = 0
        self.nsent = 0
        self.where = None
        self.stall_until = 0
        self.comm_sites = {}
        self.phase = None
        self.errs = []
        self.handles = set()


class _RankStream:
    """stdout/stderr of the simulated processes"""

    def __init__(self, world, attr, orig):
        self.world, self.attr, self.orig = world, attr, orig
        self.encoding = "utf-8"

    def write(self, s):
        cur = self.world.current
        if cur is None:
            return self.orig.write(s)
        getattr(cur, self.attr).append(s)
        return len(s)

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class Stuck(Exception):
    pass


class World:
    def __init__(self, nranks, sched=None, faults=None, forced=None, step_cap=60000, keep_log=False,
                 wall_cap=60.0):
        self.n = nranks
        self.gpu = False            # the ranks use the (stand-in) GPU engine
        self.sched = dict(sched or {})
        self.faults = list(faults or [])
        self.ch = Chooser(self.sched, nranks, forced)
        self.ranks = [RankState(self, i) for i in range(nranks)]
        self.step_cap = step_cap
        self.wall_cap = wall_cap
        self.steps = 0
        self.now = 0.0
        self.abort = False
        self.current = None
        self.violations = []      # (cls, msg)
        self.harness_error = None
        self.log = [] if keep_log else None
        self.h = 1469598103934665603
        self.done = threading.Lock()
        self.done.acquire()
        self.fired = {}           # fault kind -> times it really happened
        self.probes = {}          # rare-condition probes
        self.comms = []           # CommShared
        self.channels = {}        # (comm id, src, dst) -> deque of in-flight messages
        self.inflight = 0
        self.inbox = {}           # (comm id, dst comm rank) -> list of arrived, unmatched messages
        self.posted = {}          # (comm id, dst) -> list of posted receives
        self.time_calls = 0
        self.clock_off = 0.0
        self.clock_amount = 0.0     # how far the clock jumped altogether, in any direction
        self.shared = {}          # memo for oracles (never visible to the code under test)
        self.crashed = set()
        self.aborted_job = False
        self.crash_mode = None
        self.crash_first = 0
        self.crash_at = {}
        self.coll_faults = {}
        self.stalls = []
        self.time_jumps = {}
        for f in self.faults:
            k = f["kind"]
            if k == "crash":
                self.crash_at[f["rank"]] = f["at"]
                self.crash_mode = f.get("mode", "notify")
                self.crash_first = f.get("first", 0)    # the rank that is told first when nobody can go on
            elif k == "coll_err":
                self.coll_faults[f["at"]] = f
            elif k == "stall":
                self.stalls.append([f["rank"], f["from"], f["from"] + f["len"]])
            elif k == "clock":
                self.time_jumps[f["at"]] = f["by"]
            else:
                raise HarnessError(f"unknown fault {k}")
        self.coll_count = 0
        self.poison = self.sched.get("poison", "none")
        self.max_live_comms = 0

    # ---- bookkeeping
    def ev(self, rank, what):
        self.h = ((self.h ^ zlib.crc32(what.encode()) ^ (rank << 40)) * 1099511628211) & MASK64
        if self.log is not None:
            self.log.append(f"{self.steps} r{rank} {what}")

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def fail(self, cls, msg):
        """a property violation observed by the simulator itself or an in-run check"""
        self.violations.append((cls, msg))
        self.abort = True

    def unsupported(self, msg):
        self.harness_error = self.harness_error or msg
        self.abort = True
        raise HarnessError(msg)

    # ---- scheduling
    def _runnable(self, rs):
        if rs.status == "done":
            return False
        if rs.inject is not None:
            return True
        p = rs.pred
        return True if p is None else p()

    def _pick(self, me):
        """decide who runs next; performs message deliveries on the way"""
        n = self.n
        while True:
            if self.abort:
                for rs in self._order(me):
                    if rs.status != "done":
                        return rs
                return None
            self.steps += 1
            self.now += 1e-6
            if self.steps > self.step_cap:
                self.fail("livelock", f"no completion within {self.step_cap} scheduling steps: {self.describe()}")
                continue
            opts = []
            poll = []
            stalled = []
            for rs in self._order(me):
                if rs.status == "done":
                    continue
                if self._runnable(rs):
                    if self.stalls and self._is_stalled(rs.id):
                        stalled.append(rs)
                    elif rs.polling:
                        poll.append(rs)
                    else:
                        opts.append(("r", rs.id))
            k = len(opts)
            if self.inflight:
                for key, q in self.channels.items():
                    if q and not (self.stalls and self._is_stalled(self.comm_world_rank(key))):
                        opts.append(("d", key))
            if not opts:
                if poll:
                    rs = poll[self.ch.choose(len(poll))]
                    rs.polling = False
                    return rs
                if stalled:
                    # nothing else can happen: the stall ends (the clock jumps)
                    self.fire("stall_forced_end")
                    self.stalls = []
                    self.now += 1.0
                    continue
                if self.inflight and self.stalls:
                    self.stalls = []
                    continue
                if all(rs.status == "done" for rs in self.ranks):
                    return None
                if self._notify_after_crash():
                    continue
                self._deadlock()
                continue
            i = self.ch.schedule(opts, me.id if me else -1, k)
            t, o = opts[i]
            if t == "r":
                return self.ranks[o]
            self.deliver(o)
            for rs in self.ranks:
                rs.polling = False

    def _order(self, me):
        i = me.id if me is not None else 0
        return self.ranks[i:] + self.ranks[:i]

    def _is_stalled(self, rank):
        for s in self.stalls:
            if s[0] == rank and s[1] <= self.steps < s[2]:
                if len(s) == 3:
                    s.append(True)
                    self.fire("stall")
                return True
        return False

    def comm_world_rank(self, key):
        return self.comms[key[0]].members[key[2]]

    def _notify_after_crash(self):
        if not self.crashed:
            return False
        from . import mpi
        if self.crash_mode == "abort":
            self.aborted_job = True
            self.abort = True
            return True
        first = self.crash_first % len(self.ranks)
        for rs in self.ranks[first:] + self.ranks[:first]:
            if rs.status != "done":
                rs.inject = mpi.proc_failed()
                self.fire("crash_notified")
                return True
        return False

    def _deadlock(self):
        self.fail("deadlock", "no rank can make progress: " + self.describe())

    def describe(self):
        out = []
        for rs in self.ranks:
            if rs.status == "done":
                o = rs.outcome
                d = f"finished ({o[0]}{': ' + repr(o[1])[:160] if o[0] == 'exc' else ''})"
            else:
                d = f"in {rs.desc} {self._site(rs)}"
            out.append(f"rank {rs.id} {d}")
        return "; ".join(out)

    def _site(self, rs):
        try:
            f = sys._current_frames().get(rs.where)
            best = None
            while f is not None:
                fn = f.f_code.co_filename
                if "pylops_mpi" in fn and "/sim/" not in fn:
                    best = f"at {fn.split('pylops_mpi/', 1)[-1]}:{f.f_lineno} {f.f_code.co_name}"
                    break
                f = f.f_back
            return best or ""
        except Exception:
            return ""

    def switch(self, me, pred=None, desc=None, deps=None):
        """rank `me` gives up control; returns when it is scheduled and pred() holds"""
        if self.abort:
            raise SimAbort()
        me.pred = pred
        me.desc = desc
        me.deps = deps
        nxt = self._pick(me)
        if nxt is not me:
            nxt_lock = nxt.lock
            self._deactivate()
            nxt_lock.release()
            me.lock.acquire()
            self._activate(me)
        me.pred = None
        if self.abort:
            raise SimAbort()
        if me.inject is not None:
            e, me.inject = me.inject, None
            raise e

    def _deactivate(self):
        self.loader.deactivate()
        self.current = None

    def _activate(self, rs):
        self.current = rs
        self.loader.activate(rs)

    def maybe_crash(self, rs):
        at = self.crash_at.get(rs.id)
        if at is not None and rs.ncalls >= at and rs.id not in self.crashed:
            self.crashed.add(rs.id)
            self.fire("crash")
            self.ev(rs.id, "CRASH")
            raise RankCrash()

    def enter(self, rs, what):
        """entry of every MPI call that communicates: a scheduling point and a possible crash point"""
        if self.abort:
            raise SimAbort()
        rs.ncalls += 1
        if self.crash_at:
            self.maybe_crash(rs)
        self.ev(rs.id, what)
        self.switch(rs, None, what)

    # ---- delivery (implemented in mpi.py, bound here)
    def deliver(self, key):
        from . import mpi
        mpi.deliver(self, key)

    # ---- running
    def _thread_main(self, rs, main):
        rs.where = threading.get_ident()
        rs.lock.acquire()
        self._activate(rs)
        try:
            if self.abort:
                raise SimAbort()
            rs.status = "run"
            v = main(rs.ctx)
            rs.outcome = ("ok", v)
        except SimAbort:
            rs.outcome = ("abort", None)
        except RankCrash:
            rs.outcome = ("crash", None)
        except HarnessError as e:
            rs.outcome = ("harness", str(e))
            self.harness_error = self.harness_error or "".join(traceback.format_exception(e))[-3000:]
            self.abort = True
        except CheckFailed as e:
            rs.outcome = ("check", (e.cls, e.msg))
            self.fail(e.cls, f"rank {rs.id}: {e.msg}")
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            site = ""
            for fr in reversed(tb):
                if "pylops_mpi" in fr.filename:
                    site = f"{fr.filename.split('pylops_mpi/', 1)[-1]}:{fr.lineno}"
                    break
            inner = tb[-1].filename if tb else ""
            rs.outcome = ("exc", e, site, inner)
            e.__traceback__ = None
        rs.status = "done"
        self.ev(rs.id, "END " + rs.outcome[0])
        if not self.abort:
            nxt = self._pick(rs)
        else:
            nxt = next((r for r in self.ranks if r.status != "done"), None)
        self._deactivate()
        if nxt is None:
            self.done.release()
        else:
            nxt.lock.release()

    def sim_time(self):
        self.time_calls += 1
        j = self.time_jumps.pop(self.time_calls, None)
        if j is not None:
            self.clock_off += j
            self.clock_amount += abs(j)
            self.fire("clock_jump")
        self.now += 1e-4
        return 1.7e9 + self.now + self.clock_off

    def sim_mono(self):
        self.now += 1e-4
        return 1e4 + self.now

    def sim_sleep(self, dt):
        rs = self.current
        self.now += max(0.0, float(dt))
        if rs is not None:
            self.switch(rs, None, "sleep")

    def _fill(self, a):
        m = self.poison
        k = a.dtype.kind
        if m == "zero":
            a.fill(0)
        elif k in "fc":
            a.fill(np.nan if m == "nan" else (1e30 if m == "huge" else -7.25))
        elif k in "iu":
            a.fill(77 if a.dtype.itemsize == 1 else 7777)
        elif k == "b":
            a.fill(True)
        return a

    def sim_empty(self, *a, **kw):
        r = _real_empty(*a, **kw)
        if self.poison != "none" and r.size:
            self._fill(r)
            self.fire("poisoned_alloc")
        return r

    def sim_empty_like(self, *a, **kw):
        r = _real_empty_like(*a, **kw)
        if self.poison != "none" and r.size:
            self._fill(r)
            self.fire("poisoned_alloc")
        return r

    def run(self, main, ctxs, loader):
        """main(ctx) is executed by every rank"""
        self.loader = loader
        out, err = sys.stdout, sys.stderr
        saved = (_time.time, _time.perf_counter, _time.monotonic, _time.sleep)
        sys.stdout, sys.stderr = _RankStream(self, "out", out), _RankStream(self, "err", err)
        _time.time, _time.perf_counter, _time.monotonic = self.sim_time, self.sim_mono, self.sim_mono
        _time.sleep = self.sim_sleep
        np.empty, np.empty_like = self.sim_empty, self.sim_empty_like
        workers = []
        ok = False
        try:
            for rs, ctx in zip(self.ranks, ctxs):
                rs.ctx = ctx
                w = _Worker.get()
                workers.append(w)
                w.start(lambda rs=rs: self._thread_main(rs, main))
            # the starting rank is a scheduling decision too
            first = self._pick(None)
            first.lock.release()
            # stuck: a rank computes without making any communication call for wall_cap seconds
            ok, seen = False, -1
            while not ok and seen != self.steps:
                seen = self.steps
                ok = self.done.acquire(timeout=self.wall_cap)
        finally:
            sys.stdout, sys.stderr = out, err
            _time.time, _time.perf_counter, _time.monotonic, _time.sleep = saved
            np.empty, np.empty_like = _real_empty, _real_empty_like
            self.current = None
        if not ok:
            raise Stuck(f"simulated job did not give up control within {self.wall_cap} s: {self.describe()}")
        _Worker.pool.extend(workers)
        return self

    def leftovers(self):
        """unmatched communication at the end of the job"""
        out = []
        for key, q in self.channels.items():
            if q:
                out.append(f"{len(q)} undelivered message(s) {self._chan(key)} tag {q[0].tag}")
        for (cid, dst), box in self.inbox.items():
            if box:
                out.append(f"{len(box)} unreceived message(s) for rank {self.comms[cid].members[dst]} "
                           f"(tag {box[0].tag})")
        for (cid, dst), ps in self.posted.items():
            if ps:
                out.append(f"{len(ps)} receive(s) never matched on rank {self.comms[cid].members[dst]}")
        for c in self.comms:
            for i, s in c.slots.items():
                if len(s.joined) != len(c.members):
                    miss = [c.members[m] for m in range(len(c.members)) if m not in s.joined]
                    out.append(f"collective {s.kind} #{i} never called by rank(s) {miss}")
        return out

    def _chan(self, key):
        m = self.comms[key[0]].members
        return f"rank {m[key[1]]} -> rank {m[key[2]]}"
