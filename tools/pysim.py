"""Deterministic simulation of the Python programs of upwind/python.

Runs under the interpreter that has numpy and mpinum.  The real program files and the real mpinum run unmodified; mpi4py is replaced by a
simulated MPI, file output by a simulated kernel under Python's real buffering layers.  Every rank is a thread, only one of which ever runs;
who runs next, when a one-sided transfer moves, which fault strikes: everything is drawn from one seed and recorded, so a run can be repeated.

  pysim.py run PROP SEED RUNS MAXTIME MINTIME OUT.json REPLAYDIR WORKER NWORKERS
  pysim.py replay FILE
"""
import _thread, builtins, errno, functools, hashlib, io, json, os, pickle, random, sys, threading, time, types

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PYDIR = REPO + "/upwind/python"
real_open, real_stdout, real_stderr = io.open, sys.stdout, sys.stderr
_real_import = builtins.__import__


class SimKill(BaseException):
    """the rank is dead"""


class Unsupported(BaseException):
    """the program uses something the simulator does not model: the run says nothing"""


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls = cls


class MPIError(RuntimeError):
    """mpi4py.MPI.Exception"""
    def Get_error_code(self):
        return 16
    def Get_error_string(self):
        return "MPI_ERR_OTHER: known error not in list"


tls = threading.local()


def cur():
    r = getattr(tls, "rank", None)
    if r is None:
        raise Unsupported("MPI used outside the simulated ranks")
    return r


# ---------------------------------------------------------------------------------------------------------------- scheduler
class Draws:
    """All decisions of one run: default 0; a replay supplies the recorded non-default ones."""
    def __init__(self, seed, given=None):
        self.rng = random.Random(seed)
        self.given = given
        self.n = 0
        self.made = {}
        self.hash = hashlib.blake2b(digest_size=8)

    def pick(self, n, p):
        """0 with probability 1-p, otherwise one of 0..n-1"""
        i = self.n
        self.n += 1
        if self.given is not None:
            v = self.given.get(i, 0) % n
        elif p >= 1 or self.rng.random() < p:
            v = self.rng.randrange(n)
        else:
            v = 0
        if v:
            self.made[i] = v
        return v


class Rank:
    def __init__(self, job, rk):
        self.job, self.rk = job, rk
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.cond = None          # None: runnable
        self.done = False
        self.status = None
        self.killed = False
        self.out = []
        self.err = []
        self.calls = 0
        self.kinds = {}
        self.log = []             # the calls made so far and when they were made, on the clock of this rank
        self.seq = {}             # communicator -> number of collectives entered
        self.wins = 0
        self.modules = {}
        self.stalled = 0
        self.clock = 0.0
        self.exc = None


class Job:
    def __init__(self, cfg, draws):
        self.cfg, self.draws = cfg, draws
        self.np = cfg["np"]
        self.ranks = [Rank(self, i) for i in range(self.np)]
        self.transfers = []
        self.colls = {}
        self.windows = {}
        self.over = threading.Event()
        self.steps = 0
        self.viol = None
        self.unsupported = None
        self.files = {}
        self.opened = []          # (rank, name) opened for writing
        self.counters = {}
        self.killing = False
        self.fault = {k: v for k, v in cfg["fault"].items() if k not in ("fired", "failed")} if cfg.get("fault") else None
        self.hard_fault = False
        self.now = 0.0
        self.p_switch = cfg["p_switch"]
        self.p_line = cfg["p_line"]

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def violate(self, cls, msg):
        # what a program does after a failed call, other than reporting success or a wrong result, is not judged
        if self.viol is None and not (self.hard_fault and cls in ("misuse", "deadlock", "noprogress")):
            self.viol = (cls, msg)

    def kill_all(self):
        self.killing = True
        for r in self.ranks:
            if not r.done:
                r.killed = True
                r.cond = None

    # the running thread gives up the processor at a decision point
    def point(self, me):
        if me.killed:
            raise SimKill()
        self.steps += 1
        self.now += 1e-6
        if self.steps > 20000 and not self.killing and (self.hard_fault or any(r.done and r.status for r in self.ranks)):
            self.failed_at = getattr(self, "failed_at", self.steps)
            if self.steps > self.failed_at + 20000:      # the survivors poll: the launcher ends the job some time after a rank failed
                self.count("jobs_ended_by_the_launcher")
                self.kill_all()
                raise SimKill()
        if self.steps > 400000 and not self.killing:
            self.violate("noprogress", "no end after %d steps" % self.steps)
            self.kill_all()
            raise SimKill()
        self.schedule(me)
        if me.killed:
            raise SimKill()

    def schedule(self, me):
        """choose what happens next; returns when `me` runs again (or at once if `me` is done)"""
        while True:
            cand = []
            if not me.done and (me.cond is None or me.cond()):
                cand.append(me)
            for r in self.ranks:
                if r is not me and not r.done and (r.cond is None or r.cond()):
                    cand.append(r)
            live = [r for r in cand if r.stalled <= 0]
            if live:
                for r in cand:
                    if r.stalled > 0:
                        r.stalled -= 1
                cand = live
            tr = [t for t in self.transfers if t.eligible()] if not self.killing else []
            allc = cand + tr
            if not allc:
                if all(r.done for r in self.ranks):
                    self.over.set()
                    return
                if not self.hard_fault and not any(r.done and r.status for r in self.ranks):
                    self.violate("deadlock", "the ranks wait for each other: " + "; ".join(
                        "rank %d %s" % (r.rk, "finished" if r.done else "in %s" % getattr(r, "where", "?")) for r in self.ranks))
                else:
                    self.count("jobs_ended_by_the_launcher")
                self.kill_all()
                continue
            if self.killing:
                k = 0
            elif len(allc) > 1:
                k = self.draws.pick(len(allc), self.p_switch)
            else:
                k = 0
            x = allc[k]
            if len(allc) > 1:
                self.draws.hash.update(b"%d," % (x.rk if isinstance(x, Rank) else -1 - x.rk))
            if not isinstance(x, Rank):
                x.step(self)
                continue
            if x.cond is not None:
                x.cond = None
            if x is me:
                return
            if self.draws.made:
                self.count("preemptions") if not me.done and me.cond is None else None
            x.sem.release()
            if me.done:
                return
            me.sem.acquire()
            return

    def wait(self, me, cond, where):
        me.where = where
        if me.killed:
            raise SimKill()
        if not cond():
            me.cond = cond
            self.steps += 1
            self.schedule(me)
            if me.killed:
                raise SimKill()

    def clock_of(self, me):
        return me.clock + self.now + 1000.0 * me.rk * self.cfg["skew"]

    # every MPI call starts here
    def call(self, name):
        me = cur()
        if me.killed or me.job is not self:
            raise SimKill()
        me.calls += 1
        me.clock += 1e-5
        self.count("mpi_calls")
        if self.cfg.get("times") and len(me.log) < 5000:
            me.log.append((name, self.clock_of(me)))
        f = self.fault
        if f and (f["rank"] == me.rk or f.get("wide")):
            # the call number "at" of the rank, or - so that calls made once are struck as often as those made in every step - the
            # "at"-th call of the "name"-th kind of call the rank makes
            if f.get("name"):
                me.kinds.setdefault(name, 0)
                me.kinds[name] += 1
                mine = list(me.kinds).index(name) == f["name"] - 1
                here = me.kinds[name] if mine else 0
            else:
                here = me.calls
            done = f.setdefault("failed", {}).get(me.rk, 0)
            last = f["at"] + (f.get("n", 1) if f["kind"] == "mpierr" else 1) - 1   # several in a row: a second attempt may be no better
            strike = f["at"] <= here <= last and done <= last - f["at"]
            if strike:
                f["failed"][me.rk] = done + 1
        else:
            strike = False
        if strike:
            if f["kind"] == "crash":
                f["fired"] = True
                self.hard_fault = True
                self.count("rank_crash")
                me.killed = True
                me.status = 137
                me.crashed = True
                raise SimKill()
            if f["kind"] == "mpierr" and name not in ("Get_rank", "Get_size", "Wtime"):
                f["fired"] = True
                self.hard_fault = True
                self.count("mpi_error")
                raise MPIError("MPI_ERR_OTHER: injected in %s" % name)
            if f["kind"] == "stall":
                f["fired"] = True
                self.count("rank_stalls")
                me.stalled = f.get("len", 50)
        self.point(me)
        return me


JOB = None


def tracer_for(job, me):
    files = job.trace_files

    def local(frame, event, arg):
        if event == "line" and not me.killed and job.draws.pick(2, job.p_line):
            job.point(me)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename in files:
            return local
        return None
    return glob


# ---------------------------------------------------------------------------------------------------------------- simulated mpi4py
def _bytes(buf):
    import numpy
    if isinstance(buf, numpy.ndarray):
        if not buf.flags["C_CONTIGUOUS"]:
            raise ValueError("ndarray is not C-contiguous")
        return buf.reshape(-1).view(numpy.ndarray).view(numpy.uint8)
    return numpy.frombuffer(buf, dtype=numpy.uint8)


class Datatype:
    def __init__(self, name, np):
        self.name, self.np = name, np
    def Get_size(self):
        import numpy
        return numpy.dtype(self.np).itemsize
    size = property(Get_size)


class Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
    def __call__(self, a, b):
        return self.fn(a, b)


def _spec(spec, what):
    """message specification -> (array, datatype or None)"""
    import numpy
    dt = None
    if isinstance(spec, (list, tuple)):
        buf = spec[0]
        for x in spec[1:]:
            if isinstance(x, Datatype):
                dt = x
            elif isinstance(x, int) or x is None:
                pass
            elif isinstance(x, str):
                pass
            else:
                raise Unsupported("message specification " + repr(spec)[:80])
        cnt = [x for x in spec[1:] if isinstance(x, int)]
    else:
        buf, cnt = spec, []
    buf = numpy.asarray(buf) if not isinstance(buf, numpy.ndarray) else buf
    if dt is not None and numpy.dtype(dt.np).itemsize > buf.dtype.itemsize and dt.np != numpy.uint8:
        cur().job.violate("misuse", "%s: datatype %s for an array of %s" % (what, dt.name, buf.dtype))
    b = _bytes(buf)
    if cnt and dt is not None:
        b = b[:cnt[0] * dt.size]
    return b, dt


class Transfer:
    """one one-sided operation: data are read at one time and written at a later one, possibly in two parts"""
    def __init__(self, win, origin, target, kind, obuf, off, n, epoch, split):
        self.win, self.rk, self.target, self.kind = win, origin, target, kind
        self.obuf, self.off, self.n, self.epoch = obuf, off, n, epoch
        cut = n // 16 * 8 if split and n >= 16 else n
        self.parts = [(0, cut)] + ([(cut, n)] if cut < n else [])
        self.stage = 0
        self.data = None

    def eligible(self):
        return self.epoch is None or self.win.fences[self.target] >= self.epoch

    def step(self, job):
        a, b = self.parts[self.stage // 2]
        w = self.win.bufs[self.target]
        if self.kind == "get":
            if self.stage % 2 == 0:
                self.data = w[self.off + a:self.off + b].copy()
            else:
                self.obuf[a:b] = self.data
        else:
            if self.stage % 2 == 0:
                self.data = self.obuf[a:b].copy()
            else:
                w[self.off + a:self.off + b] = self.data
        self.stage += 1
        if self.stage == 2 * len(self.parts):
            job.transfers.remove(self)
            job.count("rma_transfers")

    def finish(self, job):
        while self in job.transfers:
            self.step(job)


class WinState:
    def __init__(self, np):
        self.bufs = [None] * np
        self.fences = [0] * np
        self.flags = {}
        self.open = [False] * np
        self.freed = [0] * np
        self.locks = {}


NOCHECK, NOSTORE, NOPUT, NOPRECEDE, NOSUCCEED = 1024, 2048, 4096, 8192, 16384


class Win:
    def __init__(self, st=None, comm=None):
        self._st, self._comm, self._locked = st, comm, set()

    @classmethod
    def Create(cls, memory, disp_unit=1, info=None, comm=None):
        me = JOB_of().call("Win_create")
        job = me.job
        comm = comm or COMM_WORLD
        k = me.wins
        me.wins += 1
        st = job.windows.setdefault((comm._id, k), WinState(job.np))
        st.bufs[me.rk] = _bytes(memory) if memory is not None else _bytes(bytearray(0))
        job.collective(me, comm, "Win_create", None, sync=True)
        job.count("windows")
        w = cls(st, comm)
        w._du = disp_unit
        return w

    @classmethod
    def Allocate(cls, size, disp_unit=1, info=None, comm=None):
        import numpy
        mem = numpy.zeros(size, numpy.uint8)
        w = cls.Create(mem, disp_unit, info, comm)
        w._mem = mem
        return w

    def tomemory(self):
        return memoryview(self._mem)

    def _pending(self, job, me):
        return [t for t in job.transfers if t.win is self._st and t.rk == me.rk]

    def Fence(self, assertion=0):
        me = JOB_of().call("Win_fence")
        job, st = me.job, self._st
        if self._locked:
            job.violate("misuse", "rank %d: fence inside a passive epoch" % me.rk)
        pend = self._pending(job, me)
        if assertion & NOPRECEDE and (pend or getattr(st, "issued%d" % me.rk, False)):
            job.violate("misuse", "rank %d: fence with MODE_NOPRECEDE although transfers precede it" % me.rk)
        st.fences[me.rk] += 1
        k = st.fences[me.rk]
        fl = st.flags.setdefault(k, assertion & (NOPRECEDE | NOSUCCEED))
        if fl != assertion & (NOPRECEDE | NOSUCCEED):
            job.violate("misuse", "rank %d: fence %d with assertion %d, another rank gave %d" % (me.rk, k, assertion & (NOPRECEDE | NOSUCCEED), fl))
        if assertion & NOPRECEDE and not job.cfg["sync_open"]:
            job.count("fence_without_sync")
        else:
            job.wait(me, lambda: all(f >= k for f in st.fences), "fence")
            for t in list(job.transfers):
                if t.win is st and t.epoch is not None and t.epoch < k and (t.rk == me.rk or t.target == me.rk):
                    t.finish(job)
        setattr(st, "issued%d" % me.rk, False)
        st.open[me.rk] = not assertion & NOSUCCEED
        job.point(me)

    def _rma(self, kind, origin, rank, target):
        me = JOB_of().call("Get" if kind == "get" else "Put")
        job, st = me.job, self._st
        b, dt = _spec(origin, kind)
        off, n = 0, len(b)
        if target is not None:
            if isinstance(target, int):
                off = target * self._du
            else:
                off = target[0] * self._du
        if rank < 0 or rank >= job.np:
            raise MPIError("MPI_ERR_RANK: invalid rank")
        if off + n > len(st.bufs[rank]):
            raise MPIError("MPI_ERR_RMA_RANGE: access beyond the window")
        passive = rank in self._locked or -1 in self._locked
        if not st.open[me.rk] and not passive:
            job.violate("misuse", "rank %d: one-sided access outside any epoch" % me.rk)
        if kind == "get":
            b[:] = 0xff      # undefined until the epoch ends
        t = Transfer(st, me.rk, rank, kind, b, off, n, None if passive else st.fences[me.rk], job.cfg["split"])
        setattr(st, "issued%d" % me.rk, True)
        job.transfers.append(t)
        job.point(me)

    def Get(self, origin, target_rank, target=None):
        self._rma("get", origin, target_rank, target)

    def Put(self, origin, target_rank, target=None):
        self._rma("put", origin, target_rank, target)

    def Lock(self, rank, lock_type=235, assertion=0):
        me = JOB_of().call("Win_lock")
        st = self._st
        def free():
            h = st.locks.get(rank, [])
            return not h or (lock_type != 234 and all(t != 234 for _, t in h))
        me.job.wait(me, free, "lock")
        st.locks.setdefault(rank, []).append((me.rk, lock_type))
        self._locked.add(rank)

    def _complete(self, me, rank):
        for t in self._pending(me.job, me):
            if rank is None or t.target == rank:
                t.finish(me.job)
        setattr(self._st, "issued%d" % me.rk, False)

    def Unlock(self, rank):
        me = JOB_of().call("Win_unlock")
        self._complete(me, rank)
        self._st.locks[rank] = [x for x in self._st.locks.get(rank, []) if x[0] != me.rk]
        self._locked.discard(rank)
        me.job.point(me)

    def Lock_all(self, assertion=0):
        JOB_of().call("Win_lock_all")
        self._locked.add(-1)

    def Unlock_all(self):
        me = JOB_of().call("Win_unlock_all")
        self._complete(me, None)
        self._locked.discard(-1)

    def Flush(self, rank):
        self._complete(JOB_of().call("Win_flush"), rank)

    Flush_local = Flush

    def Flush_all(self):
        self._complete(JOB_of().call("Win_flush_all"), None)

    def Sync(self):
        JOB_of().call("Win_sync")

    def Free(self):
        me = JOB_of().call("Win_free")
        if self._pending(me.job, me):
            me.job.violate("misuse", "rank %d: window freed while a transfer is under way" % me.rk)
        st = self._st
        st.freed[me.rk] += 1
        me.job.wait(me, lambda: all(st.freed), "Win_free")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("MPI.Win." + k)


class Status:
    def __init__(self):
        self.source, self.tag, self.error, self._n = -1, -1, 0, 0
    def Get_source(self):
        return self.source
    def Get_tag(self):
        return self.tag
    def Get_error(self):
        return 0
    def Get_count(self, datatype=None):
        return self._n // (datatype.size if datatype is not None else 1)
    Get_elements = Get_count

    def _set(self, m):
        if m is not None:
            self.source, self.tag, self._n = m.src, m.tag, m.size()


class Request:
    def __init__(self, job, test, fin, again=None):
        self._job, self._test, self._fin, self._again = job, test, fin, again
        self._done = False
        self._val = None
        self._m = lambda: None
    def _finish(self, status=None):
        if not self._done:
            self._val = self._fin()
            self._done = True
        if status is not None:
            status._set(self._m())
        return self._val
    def wait(self, status=None):
        me = self._job.call("Wait")
        if not self._done:
            self._job.wait(me, self._test, "wait")
        return self._finish(status)
    def Wait(self, status=None):
        self.wait(status)
        return True
    def test(self, status=None):
        me = self._job.call("Test")
        if self._done or self._test():
            return True, self._finish(status)
        me.stalled = 3       # whoever polls lets the others go on
        return False, None
    def Test(self, status=None):
        return self.test(status)[0]
    @staticmethod
    def waitall(rs, statuses=None):
        return [r.wait(statuses[i] if statuses else None) for i, r in enumerate(rs)]
    @staticmethod
    def Waitall(rs, statuses=None):
        Request.waitall(rs, statuses)
        return True
    @staticmethod
    def _some(rs):
        me = JOB_of().call("Waitany")
        live = [i for i, r in enumerate(rs) if r is not None and not getattr(r, "_gone", False)]
        if live:
            me.job.wait(me, lambda: any(rs[i]._done or rs[i]._test() for i in live), "waitany")
        ok = [i for i in live if rs[i]._done or rs[i]._test()]
        return me, ok
    @staticmethod
    def waitany(rs, status=None):
        me, ok = Request._some(rs)
        if not ok:
            return -32766, None
        i = ok[me.job.draws.pick(len(ok), 1)]
        rs[i]._gone = True
        return i, rs[i]._finish(status)
    @staticmethod
    def Waitany(rs, status=None):
        return Request.waitany(rs, status)[0]
    @staticmethod
    def waitsome(rs, statuses=None):
        me, ok = Request._some(rs)
        for i in ok:
            rs[i]._gone = True
        return ok, [rs[i]._finish() for i in ok]
    @staticmethod
    def Waitsome(rs, statuses=None):
        return Request.waitsome(rs, statuses)[0]
    @staticmethod
    def testall(rs, statuses=None):
        me = JOB_of().call("Testall")
        if all(r._done or r._test() for r in rs):
            return True, [r._finish() for r in rs]
        me.stalled = 3
        return False, None
    @staticmethod
    def Testall(rs, statuses=None):
        return Request.testall(rs, statuses)[0]
    def Start(self):
        JOB_of().call("Start")
        self._again(self)
    @staticmethod
    def Startall(rs):
        for r in rs:
            r.Start()
    def Free(self):
        JOB_of().call("Request_free")
    def Cancel(self):
        raise Unsupported("MPI.Request.Cancel")
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("MPI.Request." + k)


class Msg:
    """a message: its data are taken from the sender's buffer when the message is sent or, as drawn, any time until the send is complete"""
    def __init__(self, src, tag, data, kind, late=None):
        self.src, self.tag, self.data, self.kind, self.late, self.taken, self.posted = src, tag, data, kind, late, False, None
    def read(self):
        if self.late is not None:
            self.data, self.late = self.late(), None
        return self.data
    def size(self):
        d = self.read()
        return len(d) if isinstance(d, bytes) else d.nbytes


class Posted:
    """a posted receive"""
    def __init__(self, source, tag, kind):
        self.source, self.tag, self.kind, self.msg = source, tag, kind, None
    def fits(self, m):
        return m.kind == self.kind and self.source in (ANY, m.src) and self.tag in (ANY, m.tag)


ANY, PROC_NULL = -1, -2


class Coll:
    def __init__(self, np):
        self.kind, self.root = None, None
        self.entered = [False] * np
        self.data = [None] * np


def coll_enter(self, me, comm, kind, root, data=None):
    k = me.seq.get(comm._id, 0)
    me.seq[comm._id] = k + 1
    c = self.colls.setdefault((comm._id, k), Coll(self.np))
    if c.kind is None:
        c.kind, c.root = kind, root
    elif (c.kind, c.root) != (kind, root):
        self.violate("misuse", "collective %d: rank %d calls %s(root %s), another rank called %s(root %s)" % (k, me.rk, kind, root, c.kind, c.root))
        self.kill_all()
        raise SimKill()
    c.entered[me.rk] = True
    c.data[me.rk] = data
    return c


def collective(self, me, comm, kind, root, data=None, sync=False, needroot=False, needall=False):
    """needroot: wait for the root's data; needall: wait for everybody"""
    c = coll_enter(self, me, comm, kind, root, data)
    if sync or needall or self.cfg["sync_coll"]:
        self.wait(me, lambda: all(c.entered), kind)
    elif needroot:
        self.wait(me, lambda: c.entered[root], kind)
    self.point(me)
    return c


Job.collective = collective


def JOB_of():
    return cur().job


class _IN_PLACE:
    pass


IN_PLACE = _IN_PLACE()


class Comm:
    def __init__(self, i):
        self._id = i
        self._dups = {}

    def Get_rank(self):
        return JOB_of().call("Get_rank").rk

    def Get_size(self):
        return JOB_of().call("Get_size").job.np

    rank = property(lambda self: cur().rk)
    size = property(lambda self: cur().job.np)

    def Dup(self, info=None):
        me = JOB_of().call("Comm_dup")
        k = me.seq.get(self._id, 0)
        me.job.collective(me, self, "Comm_dup", None, sync=True)
        return Comm((self._id, k))

    def Split(self, color=0, key=0):
        # only communicators of all ranks in the same order are simulated
        me = JOB_of().call("Comm_split")
        k = me.seq.get(self._id, 0)
        c = me.job.collective(me, self, "Comm_split", None, (color, key), sync=True)
        who = sorted(range(me.job.np), key=lambda r: (c.data[r][1], r))
        if len(set(x[0] for x in c.data)) > 1 or who != list(range(me.job.np)):
            raise Unsupported("MPI.Comm.Split into other groups")
        return Comm((self._id, k))

    def Create_cart(self, dims, periods=None, reorder=False):
        me = JOB_of().call("Cart_create")
        dims = [int(d) for d in dims]
        k = me.seq.get(self._id, 0)
        me.job.collective(me, self, "Cart_create", None, None, sync=True)
        n = 1
        for d in dims:
            n *= d
        if n != me.job.np:
            raise Unsupported("MPI.Comm.Create_cart of some of the ranks")
        c = Cart((self._id, k))
        c.dims, c.periods = dims, [bool(p) for p in (periods if periods is not None else [False] * len(dims))]
        return c

    def Free(self):
        JOB_of().call("Comm_free")

    def Set_errhandler(self, h):
        JOB_of().call("Set_errhandler")

    def Abort(self, errorcode=1):
        me = JOB_of().call("Abort")
        me.status = errorcode or 1
        me.job.count("aborts")
        me.aborted = True
        me.job.kill_all()
        raise SimKill()

    def Barrier(self):
        me = JOB_of().call("Barrier")
        me.job.collective(me, self, "Barrier", None, sync=True)
    barrier = Barrier

    # objects
    def gather(self, obj, root=0):
        me = JOB_of().call("gather")
        c = me.job.collective(me, self, "gather", root, pickle.dumps(obj), needall=me.rk == root)
        return [pickle.loads(x) for x in c.data] if me.rk == root else None

    def allgather(self, obj):
        me = JOB_of().call("allgather")
        c = me.job.collective(me, self, "allgather", None, pickle.dumps(obj), sync=True)
        return [pickle.loads(x) for x in c.data]

    def bcast(self, obj=None, root=0):
        me = JOB_of().call("bcast")
        c = me.job.collective(me, self, "bcast", root, pickle.dumps(obj) if me.rk == root else None, needroot=True)
        return obj if me.rk == root else pickle.loads(c.data[root])

    def scatter(self, objs=None, root=0):
        me = JOB_of().call("scatter")
        c = me.job.collective(me, self, "scatter", root, [pickle.dumps(o) for o in objs] if me.rk == root else None, needroot=True)
        return pickle.loads(c.data[root][me.rk])

    def _combine(self, vals, op):
        op = op or SUM
        return functools.reduce(op.fn if isinstance(op, Op) else op, vals)

    def reduce(self, obj, op=None, root=0):
        me = JOB_of().call("reduce")
        c = me.job.collective(me, self, "reduce", root, pickle.dumps(obj), needall=me.rk == root)
        return self._combine([pickle.loads(x) for x in c.data], op) if me.rk == root else None

    def allreduce(self, obj, op=None):
        me = JOB_of().call("allreduce")
        c = me.job.collective(me, self, "allreduce", None, pickle.dumps(obj), sync=True)
        return self._combine([pickle.loads(x) for x in c.data], op)

    # arrays
    def _arr(self, x):
        import numpy
        return numpy.array(x[0] if isinstance(x, (list, tuple)) else x)

    def _store(self, x, val):
        b, _ = _spec(x, "receive buffer")
        v = _bytes(val)
        if len(v) > len(b):
            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
        b[:len(v)] = v

    def _parts(self, spec, job):
        """[buffer, counts, displacements, datatype] -> byte array, [(first byte, number of bytes)]"""
        if not isinstance(spec, (list, tuple)):
            spec = [spec]
        b, dt = _spec(spec[0], "receive buffer")
        rest = [x for x in spec[1:] if x is not None and not isinstance(x, (Datatype, str))]
        if len(rest) == 1 and isinstance(rest[0], tuple) and len(rest[0]) == 2 and not isinstance(rest[0][0], int):
            rest = list(rest[0])
        import numpy
        unit = next((x.size for x in spec[1:] if isinstance(x, Datatype)), numpy.asarray(spec[0]).dtype.itemsize)
        if not rest:
            n = len(b) // unit
            cnt = [n // job.np + (1 if k < n % job.np else 0) for k in range(job.np)]
        else:
            cnt = [int(x) for x in rest[0]]
        dis = [int(x) for x in rest[1]] if len(rest) > 1 and rest[1] is not None else [sum(cnt[:k]) for k in range(job.np)]
        return b, [(dis[k] * unit, cnt[k] * unit) for k in range(job.np)]

    def _storev(self, spec, datas, job):
        b, parts = self._parts(spec, job)
        for (o, n), d in zip(parts, datas):
            v = _bytes(d)
            if len(v) > n:
                raise MPIError("MPI_ERR_TRUNCATE: message truncated")
            if o < 0 or o + len(v) > len(b):
                job.violate("misuse", "gathered data lie outside the receive buffer")
                continue
            b[o:o + len(v)] = v

    def _own(self, sendbuf, recvbuf, me, v=False):
        """the data of this rank, also when they lie in the receive buffer already"""
        import numpy
        if sendbuf is not IN_PLACE:
            return self._arr(sendbuf)
        if v:
            b, parts = self._parts(recvbuf, me.job)
            o, n = parts[me.rk]
            return b[o:o + n].copy()
        b, _ = _spec(recvbuf, "receive buffer")
        n = len(b) // me.job.np
        return b[me.rk * n:(me.rk + 1) * n].copy()

    def _gather(self, name, sendbuf, recvbuf, root, all_, v):
        import numpy
        me = JOB_of().call(name)
        mine = self._own(sendbuf, recvbuf, me, v) if all_ or me.rk == root or sendbuf is not IN_PLACE else None
        if all_:
            c = me.job.collective(me, self, name, None, mine, sync=True)
        else:
            c = me.job.collective(me, self, name, root, mine, needall=me.rk == root)
        if all_ or me.rk == root:
            if v:
                self._storev(recvbuf, c.data, me.job)
            else:
                self._store(recvbuf, numpy.concatenate([_bytes(d) for d in c.data]))

    def Gather(self, sendbuf, recvbuf, root=0):
        self._gather("Gather", sendbuf, recvbuf, root, False, False)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._gather("Gatherv", sendbuf, recvbuf, root, False, True)

    def Allgather(self, sendbuf, recvbuf):
        self._gather("Allgather", sendbuf, recvbuf, None, True, False)

    def Allgatherv(self, sendbuf, recvbuf):
        self._gather("Allgatherv", sendbuf, recvbuf, None, True, True)

    # collectives that go on in the background: the send buffer is read late, the result arrives when all have entered and waited for
    def _icoll(self, name, root, mine, done, need):
        me = JOB_of().call(name)
        job, rk = me.job, me.rk
        late = job.draws.pick(2, 0.5)
        m = Msg(rk, 0, None, "coll", mine)
        if not late:
            m.read()
        c = coll_enter(job, me, self, name, root, m)
        job.point(me)
        def fin():
            m.read()
            return done(c)
        ready = (lambda: all(c.entered)) if need(rk) else (lambda: True)
        if need(rk) == "root":
            ready = lambda: c.entered[root]
        return Request(job, ready, fin)

    def Ibarrier(self):
        return self._icoll("Ibarrier", None, lambda: None, lambda c: None, lambda rk: True)

    def Ireduce(self, sendbuf, recvbuf, op=None, root=0):
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        rk = cur().rk
        return self._icoll("Ireduce", root, lambda: self._arr(src), lambda c: self._store(recvbuf, self._combine([m.read() for m in c.data], op)) if rk == root else None, lambda r: r == root)

    def Iallreduce(self, sendbuf, recvbuf, op=None):
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        return self._icoll("Iallreduce", None, lambda: self._arr(src), lambda c: self._store(recvbuf, self._combine([m.read() for m in c.data], op)), lambda r: True)

    def Igather(self, sendbuf, recvbuf, root=0):
        import numpy
        rk = cur().rk
        if sendbuf is IN_PLACE:
            raise Unsupported("Igather in place")
        return self._icoll("Igather", root, lambda: self._arr(sendbuf), lambda c: self._store(recvbuf, numpy.concatenate([_bytes(m.read()) for m in c.data])) if rk == root else None, lambda r: r == root)

    def Igatherv(self, sendbuf, recvbuf, root=0):
        rk = cur().rk
        if sendbuf is IN_PLACE:
            raise Unsupported("Igatherv in place")
        job = cur().job
        return self._icoll("Igatherv", root, lambda: self._arr(sendbuf), lambda c: self._storev(recvbuf, [m.read() for m in c.data], job) if rk == root else None, lambda r: r == root)

    def Ibcast(self, buf, root=0):
        rk = cur().rk
        return self._icoll("Ibcast", root, lambda: self._arr(buf) if rk == root else None, lambda c: None if rk == root else self._store(buf, c.data[root].read()), lambda r: "root")

    def Bcast(self, buf, root=0):
        me = JOB_of().call("Bcast")
        c = me.job.collective(me, self, "Bcast", root, self._arr(buf) if me.rk == root else None, needroot=True)
        if me.rk != root:
            self._store(buf, c.data[root])

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        me = JOB_of().call("Reduce")
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        c = me.job.collective(me, self, "Reduce", root, self._arr(src), needall=me.rk == root)
        if me.rk == root:
            self._store(recvbuf, self._combine(c.data, op))

    def Allreduce(self, sendbuf, recvbuf, op=None):
        me = JOB_of().call("Allreduce")
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        c = me.job.collective(me, self, "Allreduce", None, self._arr(src), sync=True)
        self._store(recvbuf, self._combine(c.data, op))

    # point to point: eager or, as drawn, waiting for the receiver
    def _post(self, me, m, dest):
        job = me.job
        if dest == PROC_NULL:
            m.taken = True
            return m
        if not 0 <= dest < job.np:
            raise MPIError("MPI_ERR_RANK: invalid rank")
        job.count("messages")
        for p in job.boxes.setdefault((self._id, dest, "posted"), []):
            if p.fits(m):
                p.msg = m
                m.taken = True
                job.boxes[(self._id, dest, "posted")].remove(p)
                return m
        job.boxes.setdefault((self._id, dest), []).append(m)
        return m

    def _receive(self, me, source, tag, kind):
        p = Posted(source, tag, kind)
        job = me.job
        if source == PROC_NULL:
            return p
        if source is None:
            p.source = ANY
        if p.source != ANY and not 0 <= p.source < job.np:
            raise MPIError("MPI_ERR_RANK: invalid rank")
        box = job.boxes.setdefault((self._id, me.rk), [])
        first = {}
        for m in box:
            if p.fits(m):
                first.setdefault(m.src, m)
        if first:
            ms = list(first.values())
            m = ms[job.draws.pick(len(ms), 0.7)] if len(ms) > 1 else ms[0]
            box.remove(m)
            m.taken = True
            p.msg = m
        else:
            job.boxes.setdefault((self._id, me.rk, "posted"), []).append(p)
        return p

    def _sent(self, me, m, sync, wait):
        """the sender goes on when its message is buffered or received"""
        eager = me.job.cfg["eager"] and not sync
        if wait:
            if not eager:
                me.job.wait(me, lambda: m.taken, "send")
            m.read()
            me.job.point(me)
            return None
        return Request(me.job, lambda: m.taken or eager, lambda: (m.read(), None)[1])

    def _sendobj(self, name, obj, dest, tag, sync=False, wait=True):
        me = JOB_of().call(name)
        return self._sent(me, self._post(me, Msg(me.rk, tag, pickle.dumps(obj), "obj"), dest), sync, wait)

    def send(self, obj, dest, tag=0):
        self._sendobj("send", obj, dest, tag)

    def ssend(self, obj, dest, tag=0):
        self._sendobj("ssend", obj, dest, tag, sync=True)

    def isend(self, obj, dest, tag=0):
        return self._sendobj("isend", obj, dest, tag, wait=False)

    def issend(self, obj, dest, tag=0):
        return self._sendobj("issend", obj, dest, tag, sync=True, wait=False)

    def _recvobj(self, p):
        return pickle.loads(p.msg.read()) if p.msg is not None else None

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        me = JOB_of().call("recv")
        p = self._receive(me, source, tag, "obj")
        if source != PROC_NULL:
            me.job.wait(me, lambda: p.msg is not None, "recv")
        if status is not None:
            status._set(p.msg)
        return self._recvobj(p)

    def irecv(self, buf=None, source=-1, tag=-1):
        me = JOB_of().call("irecv")
        p = self._receive(me, source, tag, "obj")
        r = Request(me.job, lambda: source == PROC_NULL or p.msg is not None, lambda: self._recvobj(p))
        r._m = lambda: p.msg
        return r

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        r = self.isend(sendobj, dest, sendtag)
        v = self.recv(None, source, recvtag, status)
        r.wait()
        return v

    def _sendbuf(self, name, buf, dest, tag, sync=False, wait=True):
        me = JOB_of().call(name)
        late = (lambda: self._sliced(buf))
        m = Msg(me.rk, tag, None, "buf", late)
        if wait or not me.job.draws.pick(2, 0.5):
            m.read()
        else:
            me.job.count("late_buffer_reads")
        return self._sent(me, self._post(me, m, dest), sync, wait)

    def _sliced(self, spec):
        b, _ = _spec(spec, "send buffer")
        return b.copy()

    def Send(self, buf, dest, tag=0):
        self._sendbuf("Send", buf, dest, tag)
    Rsend = Bsend = Send

    def Ssend(self, buf, dest, tag=0):
        self._sendbuf("Ssend", buf, dest, tag, sync=True)

    def Isend(self, buf, dest, tag=0):
        return self._sendbuf("Isend", buf, dest, tag, wait=False)

    def Issend(self, buf, dest, tag=0):
        return self._sendbuf("Issend", buf, dest, tag, sync=True, wait=False)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        me = JOB_of().call("Recv")
        p = self._receive(me, source, tag, "buf")
        if source == PROC_NULL:
            return
        me.job.wait(me, lambda: p.msg is not None, "Recv")
        if status is not None:
            status._set(p.msg)
        self._store(buf, p.msg.read())

    def Irecv(self, buf, source=-1, tag=-1):
        me = JOB_of().call("Irecv")
        if source != PROC_NULL:
            b, _ = _spec(buf, "Irecv")
            b[:] = 0xff
        p = self._receive(me, source, tag, "buf")
        r = Request(me.job, lambda: source == PROC_NULL or p.msg is not None, lambda: None if p.msg is None else self._store(buf, p.msg.read()))
        r._m = lambda: p.msg
        return r

    def _persistent(self, start):
        def again(r):
            n = start()
            r._done, r._val, r._test, r._fin, r._m = False, None, n._test, n._fin, n._m
        r = Request(JOB_of(), lambda: True, lambda: None, again)
        r._done = True
        return r

    def Send_init(self, buf, dest, tag=0):
        return self._persistent(lambda: self.Isend(buf, dest, tag))

    def Recv_init(self, buf, source=-1, tag=-1):
        return self._persistent(lambda: self.Irecv(buf, source, tag))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        b = self._sliced(sendbuf)
        r = self.Isend(b, dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)
        r.wait()

    def _probe(self, source, tag):
        me = cur()
        p = Posted(source, tag, None)
        def seen():
            for m in me.job.boxes.get((self._id, me.rk), []):
                p.kind = m.kind
                if p.fits(m):
                    return m
            return None
        return me, seen

    def probe(self, source=-1, tag=-1, status=None):
        JOB_of().call("probe")
        me, seen = self._probe(source, tag)
        me.job.wait(me, lambda: seen() is not None, "probe")
        if status is not None:
            status._set(seen())
        return True
    Probe = probe

    def iprobe(self, source=-1, tag=-1, status=None):
        JOB_of().call("iprobe")
        me, seen = self._probe(source, tag)
        m = seen()
        if m is None:
            me.stalled = 3
            return False
        if status is not None:
            status._set(m)
        return True
    Iprobe = iprobe

    def __eq__(self, o):
        return isinstance(o, Comm) and o._id == self._id

    def __hash__(self):
        return hash(self._id)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("MPI.Comm." + k)


class Cart(Comm):
    ndim = dim = property(lambda self: len(self.dims))
    coords = property(lambda self: self.Get_coords(cur().rk))
    topo = property(lambda self: self.Get_topo())

    def Get_dim(self):
        return len(self.dims)

    def Get_coords(self, rank):
        r = []
        for d in reversed(self.dims):
            r.insert(0, rank % d)
            rank //= d
        return r

    def Get_topo(self):
        return list(self.dims), [int(p) for p in self.periods], self.Get_coords(cur().rk)

    def Get_cart_rank(self, coords):
        r = 0
        for x, d, p in zip(coords, self.dims, self.periods):
            if not 0 <= x < d and not p:
                raise Exception("MPI_ERR_ARG: invalid coordinates")
            r = r * d + x % d
        return r

    def Shift(self, direction, disp):
        def at(k):
            c = self.Get_coords(cur().rk)
            c[direction] += k
            if not self.periods[direction] and not 0 <= c[direction] < self.dims[direction]:
                return PROC_NULL
            return self.Get_cart_rank(c)
        return at(-disp), at(disp)


def Compute_dims(n, dims):
    dims = [0] * dims if isinstance(dims, int) else [int(d) for d in dims]
    rest = n
    for d in dims:
        if d:
            rest //= d
    free = [i for i, d in enumerate(dims) if not d]
    v = [1] * len(free)
    f, fs = 2, []
    while rest > 1:
        if rest % f:
            f += 1
        else:
            fs.append(f)
            rest //= f
    for f in reversed(fs):
        v[v.index(min(v))] *= f
    for i, x in zip(free, sorted(v, reverse=True)):
        dims[i] = x
    return dims


COMM_WORLD = Comm(0)
SUM = Op("SUM", lambda a, b: a + b)


def make_mpi():
    import numpy
    MPI = types.ModuleType("mpi4py.MPI")
    d = MPI.__dict__
    d.update(COMM_WORLD=COMM_WORLD, Win=Win, Comm=Comm, Intracomm=Comm, Cartcomm=Cart, Compute_dims=Compute_dims, Request=Request, Prequest=Request, Status=Status, REQUEST_NULL=None, Exception=MPIError, SUM=SUM, IN_PLACE=IN_PLACE, ANY_SOURCE=ANY, ANY_TAG=ANY,
             PROC_NULL=PROC_NULL, INFO_NULL=None, Op=Op, Datatype=Datatype, LOCK_EXCLUSIVE=234, LOCK_SHARED=235, ERRORS_ARE_FATAL=1, ERRORS_RETURN=2,
             MODE_NOCHECK=NOCHECK, MODE_NOSTORE=NOSTORE, MODE_NOPUT=NOPUT, MODE_NOPRECEDE=NOPRECEDE, MODE_NOSUCCEED=NOSUCCEED,
             MIN=Op("MIN", lambda a, b: numpy.minimum(a, b)), MAX=Op("MAX", lambda a, b: numpy.maximum(a, b)), PROD=Op("PROD", lambda a, b: a * b),
             DOUBLE=Datatype("DOUBLE", numpy.float64), FLOAT=Datatype("FLOAT", numpy.float32), INT=Datatype("INT", numpy.int32),
             LONG=Datatype("LONG", numpy.int64), INT64_T=Datatype("INT64_T", numpy.int64), INT32_T=Datatype("INT32_T", numpy.int32),
             INT16_T=Datatype("INT16_T", numpy.int16), INT8_T=Datatype("INT8_T", numpy.int8), BYTE=Datatype("BYTE", numpy.uint8))

    def Wtime():
        me = JOB_of().call("Wtime")
        return me.job.clock_of(me)
    d["Wtime"] = Wtime
    d["Get_processor_name"] = lambda: "node%d" % (cur().rk // 2)
    d["Is_initialized"] = lambda: True
    d["Is_finalized"] = lambda: False
    d["Init"] = lambda: None
    d["Finalize"] = lambda: JOB_of().call("Finalize") and None

    def miss(k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("MPI." + k)
    d["__getattr__"] = miss
    pk = types.ModuleType("mpi4py")
    pk.MPI = MPI
    pk.__path__ = []
    pk.rc = types.SimpleNamespace()
    return pk, MPI


# ---------------------------------------------------------------------------------------------------------------- simulated files
FAKE_FD = 1000000


class SimRaw(io.RawIOBase):
    """the kernel's view of one open file; Python's own buffering layers lie above it"""
    def __init__(self, job, me, name, mode):
        io.RawIOBase.__init__(self)
        self.job, self.me, self.name = job, me, name
        self.plan = job.cfg.get("io") or {}
        p = self.plan
        job.opened.append((me.rk, name))
        job.count("files_opened")
        self.synced, self.lost = True, False
        if p.get("kind") == "open" and not (p.get("fired") and not p.get("persist")):
            p["fired"] = True
            job.hard_fault = True
            job.count("open_failure")
            e = [errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS][p["err"] % 4]
            raise OSError(e, os.strerror(e), name)
        if "a" in mode:
            self.data = job.files.setdefault(name, bytearray())
        elif "x" in mode and name in job.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), name)
        else:
            self.data = job.files[name] = bytearray()
        self.pos = len(self.data)
        self.nw = 0
        self.total = 0
        self.mode = mode
        self.fd = FAKE_FD + len(job.fds)
        job.fds.append(self)

    def fileno(self):
        return self.fd

    def writable(self):
        return True

    def seekable(self):
        return True

    def readable(self):
        return False

    def isatty(self):
        return False

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def truncate(self, size=None):
        del self.data[self.pos if size is None else size:]
        return len(self.data)

    def write(self, b):
        b = bytes(b)
        me, job, p = self.me, self.job, self.plan
        if me.killed or me.done:
            return len(b)
        job.point(me)
        self.nw += 1
        job.count("writes")
        n = len(b)
        if p.get("eintr") and job.draws.pick(2, p["eintr"]):
            job.count("write_eintr")
            raise InterruptedError(errno.EINTR, os.strerror(errno.EINTR))
        if p.get("kind") == "full" and (self.total + n > p["byte"]):
            if self.total < p["byte"]:
                n = p["byte"] - self.total
            else:
                job.hard_fault = True
                job.count("disk_full")
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if p.get("kind") == "eio" and (self.nw == p["nth"] or (p.get("persist") and self.nw > p["nth"])):
            job.hard_fault = True
            job.count("write_eio")
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        if p.get("short") and n > 1 and job.draws.pick(2, p["short"]):
            n = 1 + job.draws.pick(n - 1, 1)
            job.count("short_write")
        self.synced = False
        self.data[self.pos:self.pos + n] = b[:n]
        self.pos += n
        self.total += n
        return n

    def close(self):
        if self.closed:
            return
        me, job, p = self.me, self.job, self.plan
        io.RawIOBase.close(self)
        if p.get("kind") == "close" and not (p.get("fired") and not p.get("persist")) and not self.lost and not me.killed and not me.done:
            if not self.synced:
                self.lose_tail()
            p["fired"] = True
            job.hard_fault = True
            job.count("close_failure")
            raise OSError(errno.EIO, os.strerror(errno.EIO))

    def lose_tail(self):
        """data the kernel had taken but could not store in the end"""
        if self.data:
            del self.data[-max(1, min(4096, len(self.data) // 2)):]

    def sync(self):
        me, job, p = self.me, self.job, self.plan
        if p.get("kind") == "close" and not (p.get("fired") and not p.get("persist")) and not self.lost and not self.synced:
            self.lose_tail()
            self.lost = p["fired"] = True
            job.hard_fault = True
            job.count("close_failure")
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        self.synced = True


RealFileIO = io.FileIO


class SimFileIO(RealFileIO):
    """io.FileIO, opened by a program"""
    def __new__(cls, file, mode="r", closefd=True, opener=None):
        me = getattr(tls, "rank", None)
        if me is not None and isinstance(file, (str, os.PathLike)) and any(c in mode for c in "wax+"):
            if me.killed:
                raise SimKill()
            me.job.point(me)
            return SimRaw(me.job, me, os.path.basename(os.fspath(file)), mode)
        if me is not None and isinstance(file, int) and file >= FAKE_FD:
            return me.job.fds[file - FAKE_FD]
        return RealFileIO(file, mode, closefd, opener)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    me = getattr(tls, "rank", None)
    if me is not None and opener is not None:
        raise Unsupported("open with an opener")
    if me is not None and isinstance(file, int) and file >= FAKE_FD:
        raw = me.job.fds[file - FAKE_FD]
        buf = raw if buffering == 0 else io.BufferedWriter(raw, 8192 if buffering in (-1, 1) else buffering)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors, newline=newline)
    if me is None or not isinstance(file, (str, os.PathLike)) or not any(c in mode for c in "wax+"):
        if me is not None and isinstance(file, (str, os.PathLike)) and os.path.basename(os.fspath(file)) in me.job.files:
            data = bytes(me.job.files[os.path.basename(os.fspath(file))])
            return io.BytesIO(data) if "b" in mode else io.TextIOWrapper(io.BytesIO(data), encoding=encoding, errors=errors, newline=newline)
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if me.killed:
        raise SimKill()
    me.job.point(me)
    raw = SimRaw(me.job, me, os.path.basename(os.fspath(file)), mode)
    if buffering == 0:
        return raw
    buf = io.BufferedWriter(raw, 8192 if buffering in (-1, 1) else buffering)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors, newline=newline, line_buffering=buffering == 1)


def in_sim_fs(name):
    me = getattr(tls, "rank", None)
    return me is not None and isinstance(name, (str, os.PathLike)) and os.path.basename(os.fspath(name)) in me.job.files


def wrap_os():
    real = {k: getattr(os, k) for k in ("rename", "replace", "remove", "unlink", "fsync", "fdatasync", "open", "write", "close", "fdopen")}

    def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
        me = getattr(tls, "rank", None)
        if me is None or not flags & (os.O_WRONLY | os.O_RDWR):
            return real["open"](path, flags, mode) if dir_fd is None else real["open"](path, flags, mode, dir_fd=dir_fd)
        if me.killed:
            raise SimKill()
        me.job.point(me)
        name = os.path.basename(os.fspath(path))
        if flags & os.O_EXCL and name in me.job.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), name)
        return SimRaw(me.job, me, name, "w" if flags & (os.O_TRUNC | os.O_EXCL) else "a").fd

    def fake(fd):
        me = getattr(tls, "rank", None)
        return me.job.fds[fd - FAKE_FD] if me is not None and isinstance(fd, int) and fd >= FAKE_FD else None

    def on_fake(k, f):
        def g(fd, *a, **kw):
            x = fake(fd)
            return real[k](fd, *a, **kw) if x is None else f(x, *a)
        setattr(os, k, g)
    os.open = sim_os_open
    on_fake("fsync", lambda x: x.sync())
    on_fake("fdatasync", lambda x: x.sync())
    on_fake("write", lambda x, b: x.write(b))
    on_fake("close", lambda x: x.close())
    os.fdopen = lambda fd, mode="r", *a, **kw: sim_open(fd, mode, *a, **kw) if fake(fd) is not None else real["fdopen"](fd, mode, *a, **kw)

    def move(src, dst, **kw):
        if in_sim_fs(src):
            job = cur().job
            f, p = job.files, job.cfg.get("io") or {}
            if p.get("kind") == "close" and not p.get("fired"):
                p["fired"] = True
                job.hard_fault = True
                job.count("rename_failure")
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            f[os.path.basename(os.fspath(dst))] = f.pop(os.path.basename(os.fspath(src)))
        else:
            real["rename"](src, dst, **kw)

    def rm(p, **kw):
        if in_sim_fs(p):
            cur().job.files.pop(os.path.basename(os.fspath(p)))
        else:
            real["remove"](p, **kw)
    os.rename = os.replace = move
    os.remove = os.unlink = rm
    ex = os.path.exists
    os.path.exists = lambda p: True if in_sim_fs(p) else ex(p)
    ge = os.path.getsize
    os.path.getsize = lambda p: len(cur().job.files[os.path.basename(os.fspath(p))]) if in_sim_fs(p) else ge(p)


class Std(io.TextIOBase):
    def __init__(self, which, real):
        self.which, self.real = which, real
    encoding = "utf-8"
    def writable(self):
        return True
    def write(self, s):
        me = getattr(tls, "rank", None)
        if me is None:
            return self.real.write(s)
        if not me.killed:
            getattr(me, self.which).append(s)
            if self.which == "out":
                me.job.stdout.append((me.rk, s))
                if s.strip():
                    me.job.point(me)
        return len(s)
    def flush(self):
        if getattr(tls, "rank", None) is None:
            self.real.flush()


# ---------------------------------------------------------------------------------------------------------------- running a job
_code = {}


def code_of(path):
    if path not in _code:
        with real_open(path, encoding="utf-8") as f:
            _code[path] = compile(f.read(), path, "exec")
    return _code[path]


def rank_import(name, globals=None, locals=None, fromlist=(), level=0):
    me = getattr(tls, "rank", None)
    if me is not None and level == 0:
        top = name.split(".")[0]
        p = PYDIR + "/" + top + ".py"
        if top not in me.modules and os.path.isfile(p):
            m = types.ModuleType(top)
            m.__file__ = p
            m.__dict__["__builtins__"] = rank_builtins
            me.modules[top] = m
            exec(code_of(p), m.__dict__)
        if top in me.modules:
            return me.modules[top]
    return _real_import(name, globals, locals, fromlist, level)


rank_builtins = dict(builtins.__dict__)
rank_builtins["__import__"] = rank_import
rank_builtins["open"] = sim_open


def drive_class(job, me, g):
    """the solver class directly: grids and velocities that differ between the axes, the field looked at during the run"""
    import numpy
    c = job.cfg["cls"]
    cls = g.get("Upwind")
    if not all(callable(getattr(cls, k, None)) for k in ("advect", "checksum", "gatherRoot")):
        raise Unsupported("class Upwind with advect, checksum and gatherRoot")
    import inspect
    try:
        inspect.signature(cls).bind(1, 2, 3)
        inspect.signature(cls.advect).bind(1, 2)
        inspect.signature(cls.checksum).bind(1)
        inspect.signature(cls.gatherRoot).bind(1)
    except TypeError:
        raise Unsupported("class Upwind with its original interface")
    up = cls(numpy.array(c["v"], numpy.float64), numpy.array(c["l"], numpy.float64), list(c["n"]))
    me.seen = []
    for i in range(job.cfg["steps"]):
        up.advect(c["dt"])
        if c["look"][i % len(c["look"])]:
            s, f = up.checksum(), up.gatherRoot()
            me.seen.append((i + 1, s, f))
    s, f = up.checksum(), up.gatherRoot()
    me.seen.append((job.cfg["steps"], s, f))


def rank_main(job, me, prog):
    tls.rank = me
    me.sem.acquire()
    if job.p_line > 0:
        sys.settrace(tracer_for(job, me))
    g = {"__name__": "__main__", "__file__": prog, "__builtins__": rank_builtins, "__doc__": None}
    st = 0
    try:
        if me.killed:
            raise SimKill()
        if job.cfg.get("cls"):
            g["__name__"] = "upwindMPI"
            exec(code_of(prog), g)
            drive_class(job, me, g)
        else:
            exec(code_of(prog), g)
        g.clear()
    except SystemExit as e:
        c = e.code
        st = 0 if c is None else c & 255 if isinstance(c, int) else 1
        if c is not None and not isinstance(c, int):
            me.err.append(str(c))
    except SimKill:
        st = None
    except Unsupported as e:
        job.unsupported = str(e)
        st = 1
        job.kill_all()
    except BaseException as e:
        import traceback
        st = 1
        me.exc = "".join(traceback.format_exception(e))[-600:]
        e.__traceback__ = None
    sys.settrace(None)
    me.killed = me.killed or st != 0      # a process that exits does not take part any more, its destructors talk to nobody
    g.clear()
    me.modules.clear()
    if me.status is None:
        me.status = 143 if st is None else st
    me.done = True
    me.where = "finished"
    job.schedule(me)


def run_job(cfg, draws):
    global JOB
    job = JOB = Job(cfg, draws)
    job.boxes = {}
    job.fds = []
    job.stdout = []
    prog = PYDIR + "/" + cfg["prog"]
    job.trace_files = {f for f in [PYDIR + "/" + x for x in os.listdir(PYDIR)]}
    import mpinum.pnDistArray
    job.trace_files.add(mpinum.pnDistArray.__file__)
    sys.argv = [prog] + cfg["args"]
    for n, b in (cfg.get("stale") or {}).items():
        job.files[n] = bytearray(b"stale " * b)
    old = (sys.stdout, sys.stderr, io.open)
    io.FileIO = SimFileIO
    sys.stdout, sys.stderr = Std("out", old[0]), Std("err", old[1])
    io.open = sim_open
    try:
        ths = [threading.Thread(target=rank_main, args=(job, r, prog), daemon=True) for r in job.ranks]
        for t in ths:
            t.start()
        job.ranks[0].sem.release()
        if not job.over.wait(60):
            job.violate("noprogress", "the program did not give control back for 60 s of real time")
            job.stuck = True
        else:
            for t in ths:
                t.join(10)
    finally:
        sys.stdout, sys.stderr, io.open = old
        io.FileIO = RealFileIO
    return job


# ---------------------------------------------------------------------------------------------------------------- reference and checks
def reference(n, steps):
    import numpy
    f = numpy.zeros((n, n, n))
    f[0, 0, 0] = 1.0
    for _ in range(steps):
        o = f.copy()
        for ax in range(3):
            f -= 0.1 * (o - numpy.roll(o, 1, ax))
    return f


def check_vtk(name, data, n, ref, cells_tol=1e-9):
    import numpy
    t = data.decode("utf-8", "replace")
    tok = t.split()
    lines = t.split("\n")
    if not lines or not lines[0].startswith("# vtk DataFile Version") or len(lines) < 4 or lines[2].strip() != "ASCII":
        raise Violation("vtk", "%s: not a VTK header: %r" % (name, t[:60]))
    if "RECTILINEAR_GRID" not in lines[3]:
        raise Violation("vtk", "%s: %r instead of a rectilinear grid" % (name, lines[3]))
    try:
        i = tok.index("DIMENSIONS")
        dims = [int(x) for x in tok[i + 1:i + 4]]
        if dims != [n + 1] * 3:
            raise Violation("vtk", "%s: DIMENSIONS %s for %d cells along each axis" % (name, dims, n))
        i += 4
        for ax in "XYZ":
            if tok[i] != ax + "_COORDINATES" or int(tok[i + 1]) != n + 1:
                raise Violation("vtk", "%s: %s" % (name, " ".join(tok[i:i + 3])))
            x = [float(v) for v in tok[i + 3:i + 4 + n]]
            if any(not abs(v - k / n) < 1e-6 for k, v in enumerate(x)):
                raise Violation("vtk", "%s: %s coordinates %s" % (name, ax, x))
            i += 4 + n
        if tok[i] != "CELL_DATA" or int(tok[i + 1]) != n ** 3 or tok[i + 2] != "SCALARS" or "LOOKUP_TABLE" not in tok[i + 3:i + 8]:
            raise Violation("vtk", "%s: %s" % (name, " ".join(tok[i:i + 6])))
        i = tok.index("LOOKUP_TABLE", i) + 2
        v = numpy.array([float(x) for x in tok[i:]])
    except (ValueError, IndexError) as e:
        raise Violation("vtk", "%s: malformed or cut: %s" % (name, e))
    if len(v) != n ** 3:
        raise Violation("vtk", "%s: %d cell values instead of %d" % (name, len(v), n ** 3))
    d = numpy.abs(v - ref.reshape(-1))
    k = int(numpy.argmax(numpy.where(numpy.isnan(d), numpy.inf, d)))
    if not d[k] < cells_tol:
        raise Violation("vtk", "%s: cell %s holds %r instead of %r" % (name, tuple(int(q) for q in numpy.unravel_index(k, ref.shape)), float(v[k]), float(ref.reshape(-1)[k])))


def judge(cfg, job):
    """None or (class, message)"""
    try:
        _judge(cfg, job)
    except Violation as v:
        return v.cls, str(v)
    return None


def _judge(cfg, job):
    mpi = cfg["prog"] == "upwindMPI.py"
    n, steps = cfg["n"], cfg["steps"]
    fname = "upMPI.vtk" if mpi else "up.vtk"
    if job.viol:
        raise Violation(*job.viol)
    st = [r.status for r in job.ranks]
    status = next((s for s in st if s), 0)
    text = "".join(s for _, s in job.stdout)
    sums = [l for l in text.split("\n") if "check sum" in l.lower()]
    why = "; ".join("rank %d: %s" % (r.rk, r.exc.strip().split("\n")[-1]) for r in job.ranks if r.exc)
    if not cfg["valid"]:
        if sums:
            raise Violation("invalid", "no decomposition of %d^3 cells over %d processes exists, yet: %s" % (n, job.np, sums[0]))
        if any(s in (0, 143) for s in st):
            raise Violation("invalid", "no decomposition of %d^3 cells over %d processes exists, but the ranks end with %s %s" % (n, job.np, st, why))
        if job.opened:
            raise Violation("invalid", "a file was written although no decomposition exists")
        return
    if cfg.get("times"):
        return judge_times(cfg, job, text, status, why)
    if cfg.get("cls"):
        return judge_class(cfg, job, st, status, why)
    ref = reference(n, steps)
    tot = float(ref.sum())
    for l in sums:
        try:
            v = float(l.replace(":", " ").split()[-1])
        except ValueError:
            v = float("nan")
        if not abs(v - tot) < 1e-9 * max(1, abs(tot)) * 100:
            raise Violation("checksum", "printed %r, the serial scheme gives %r" % (l, tot))
    if len(sums) > 1:
        raise Violation("stdout", "the check sum is printed %d times" % len(sums))
    for r in job.ranks[1:]:
        if any("check sum" in s.lower() for s in r.out):
            raise Violation("stdout", "rank %d printed the check sum" % r.rk)
    if not job.hard_fault and status:
        raise Violation("status", "the ranks end with %s without any fault; %s" % (st, why))
    if status == 0:
        if job.fault and job.fault.get("fired") and job.fault["kind"] == "crash":
            raise Violation("status", "a rank died and the job reports success")
        if len(sums) != 1:
            raise Violation("stdout", "no check sum although the job succeeded")
        if not cfg["vtk"]:
            if job.opened:
                raise Violation("stdout", "file %s was written without being asked for" % job.opened[0][1])
            return
        if fname not in job.files:
            raise Violation("lost" if job.hard_fault else "vtk", "success, but %s was not written" % fname)
        try:
            check_vtk(fname, job.files[fname], n, ref)
        except Violation as v:
            raise Violation("lost" if job.hard_fault else "vtk", "the job succeeded, but " + str(v))
        if not job.hard_fault and any(r != 0 for r, _ in job.opened):
            raise Violation("vtk", "files opened for writing: %s" % job.opened)


LOOP_CALLS = ("Win_fence", "Get", "Put", "Accumulate", "Win_lock", "Win_unlock", "Win_lock_all", "Win_unlock_all", "Flush", "Sendrecv", "Send", "Recv", "Isend", "Irecv",
              "send", "recv", "isend", "irecv", "Wait", "Waitany", "Testall", "Test", "Ssend", "Issend", "Start", "sendrecv")
NEUTRAL = ("Wtime", "Get_rank", "Get_size", "Get_processor_name")


def judge_times(cfg, job, text, status, why):
    """the printed time is that of the time loop of rank 0"""
    if status:
        raise Violation("status", "the job ends with %s without any fault; %s" % (status, why))
    ls = [l for l in text.split("\n") if "wall clock" in l.lower()]
    if len(ls) != 1:
        raise Violation("times", "the wall clock time is printed %d times" % len(ls))
    try:
        t = float(ls[0].split(":")[-1].replace("[sec]", " ").split()[0])
    except (ValueError, IndexError):
        raise Violation("times", "no time in %r" % ls[0])
    log = job.ranks[0].log
    idx = [i for i, (n, _) in enumerate(log) if n in LOOP_CALLS]
    ends = [i for i, (n, _) in enumerate(log) if n in ("reduce", "Reduce", "allreduce", "Allreduce", "gather", "Gather")]
    last = ends[0] if ends else len(log)
    if cfg["steps"] > 0:
        loop = [i for i in idx if i < last]
        if not loop:
            return
        # set-up calls may look like those of the loop: count from the end, every step makes the same calls
        if len(loop) % cfg["steps"]:
            loop = loop[len(loop) % cfg["steps"]:]
        a, b = loop[0], loop[-1]
        # barriers in every step belong to the loop; a single one could also follow a single step
        bars = [k for k in range(a, last) if log[k][0] == "Barrier"]
        free = NEUTRAL
        if bars and len(bars) % cfg["steps"] == 0:
            if cfg["steps"] > 1:
                b = max(b, bars[-1])
            else:
                free = NEUTRAL + ("Barrier",)
        i = a - 1
        while i >= 0 and log[i][0] in NEUTRAL:
            i -= 1
        j = b + 1
        while j < len(log) and log[j][0] in free:
            j += 1
        lo = log[b][1] - log[a][1]
    else:
        j = last
        i = last - 1
        while i >= 0 and log[i][0] in NEUTRAL:
            i -= 1
        lo = 0.0
    hi = (log[j][1] if j < len(log) else log[-1][1] + 1e-3) - (log[i][1] if i >= 0 else log[0][1])
    if not lo - 1e-9 <= t <= hi + 1e-9:
        raise Violation("times", "rank 0 spent between %.6g and %.6g s in its time loop, printed is %r" % (lo, hi, ls[0]))


def judge_class(cfg, job, st, status, why):
    import numpy
    c = cfg["cls"]
    if status and not job.hard_fault:
        raise Violation("status", "the ranks end with %s without any fault; %s" % (st, why))
    f = numpy.zeros(c["n"])
    f[0, 0, 0] = 1.0
    refs = [f]
    for _ in range(cfg["steps"]):
        o, f = f, f.copy()
        for ax in range(3):
            f -= c["dt"] * c["v"][ax] * c["n"][ax] / c["l"][ax] * (o - numpy.roll(o, 1, ax))
        refs.append(f)
    for k, s, got in getattr(job.ranks[0], "seen", []):
        r = refs[k]
        if s is None or not abs(s - r.sum()) < 1e-9:
            raise Violation("checksum", "after step %d the check sum is %r, the serial scheme gives %r" % (k, s, float(r.sum())))
        if got is None or got.shape != r.shape or not numpy.max(numpy.abs(got - r)) < 1e-9:
            d = numpy.inf if got is None or got.shape != r.shape else numpy.abs(got - r)
            raise Violation("field", "after step %d the gathered field of %s cells over %d ranks differs from the serial scheme, by up to %r" % (k, c["n"], job.np, float(numpy.max(d))))
    if any(s is not None or f is not None for r in job.ranks[1:] for _, s, f in getattr(r, "seen", [])):
        raise Violation("field", "check sum or field returned on a rank other than 0")


# ---------------------------------------------------------------------------------------------------------------- scenarios
def divisible(n, p):
    d = [k for k in range(1, n + 1) if n % k == 0]
    return any(a * b * c == p for a in d for b in d for c in d)


def draw_cfg(prop, rng):
    c = dict(p_switch=rng.choice([0, 0.05, 0.2, 0.5, 1, 1]), p_line=rng.choice([0, 0, 0.02, 0.1, 0.4]), sync_open=rng.random() < 0.3, sync_coll=rng.random() < 0.3,
             split=rng.random() < 0.5, eager=rng.random() < 0.5, skew=int(rng.random() < 0.5), valid=True)
    io_only = prop == "C06"
    c["prog"] = "upwind.py" if io_only and rng.random() < 0.5 else "upwindMPI.py"
    kind = rng.random()
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 6])
    c["steps"] = rng.choice([0, 1, 1, 2, 3, 4, 6])
    if c["prog"] == "upwind.py":
        p = 1
    elif not io_only and kind < 0.12:
        ps = [q for q in range(2, 14) if not divisible(n, q)]
        p = rng.choice(ps)
        c["valid"] = False
    else:
        ps = [q for q in range(1, 28) if divisible(n, q)]
        ps = [q for q in ps if q <= 12] if rng.random() < 0.85 else ps
        big = rng.random()
        if big < 0.012 and not io_only:          # now and then many cells or many ranks
            n = rng.choice([8, 9, 10, 12, 16, 24])
            c["steps"] = rng.choice([1, 2, 3])
            ps = [q for q in range(1, 13) if divisible(n, q)]
        elif big < 0.02 and not io_only:
            n = rng.choice([4, 6, 8])
            c["steps"] = rng.choice([1, 2, 3])
            ps = [q for q in range(28, 73) if divisible(n, q)]
        elif big < 0.03:
            c["steps"] = rng.choice([10, 20, 40])
        p = rng.choice(ps)
    c["vtk"] = io_only or rng.random() < 0.5
    c["scenario"] = c["prog"] + (" (no decomposition)" if not c["valid"] else "")
    if not io_only and c["valid"] and 0.12 <= kind < 0.45:
        calls = 20 + c["steps"] * 12
        c["fault"] = dict(kind=rng.choice(["crash", "crash", "mpierr", "mpierr", "stall"]), rank=rng.randrange(p), at=1 + rng.randrange(calls), len=rng.choice([5, 50, 500]), n=rng.choice([1, 1, 2, 3]), wide=rng.random() < 0.25)
        if c["fault"]["kind"] == "crash":
            c["fault"].update(n=1, wide=False)
        if rng.random() < 0.4:
            c["fault"].update(name=1 + rng.randrange(12), at=rng.choice([1, 1, 1, 2, 3, 1 + rng.randrange(3 + 3 * c["steps"])]))
        c["scenario"] += " (faults)"
    if io_only:
        size = 400 + 22 * n ** 3
        plan = dict(kind=rng.choice(["open", "full", "full", "eio", "close", "none", "none"]), err=rng.randrange(4), byte=rng.randrange(size), nth=1 + rng.randrange(1 + size // 4000))
        plan["persist"] = rng.random() < 0.5
        plan["eintr"] = rng.choice([0, 0, 0.3])
        plan["short"] = rng.choice([0, 0, 0.3, 1])
        if rng.random() < 0.3:
            n = rng.choice([8, 9, 10]) if c["prog"] == "upwind.py" else 8
            c["steps"] = rng.choice([0, 1, 20])
            plan["byte"] = rng.randrange(400 + 22 * n ** 3)
            plan["nth"] = 1 + rng.randrange(4)
            p = rng.choice([1, 2, 4]) if c["prog"] != "upwind.py" else 1
        c["io"] = plan
        c["scenario"] += " (disk faults)"
    if c["vtk"] and rng.random() < 0.3:
        c["stale"] = {"upMPI.vtk" if c["prog"] == "upwindMPI.py" else "up.vtk": 5000}
    c["n"], c["np"] = n, p
    if prop == "C08":
        p = rng.choice([q for q in range(1, 13) if divisible(n, q)])
        c.update(np=p, valid=True, vtk=rng.random() < 0.3, times=True, scenario="upwindMPI.py (times)")
        c.pop("fault", None)
        c.pop("stale", None)
        if rng.random() < 0.5:
            c["fault"] = dict(kind="stall", rank=rng.randrange(p), at=1 + rng.randrange(20 + 12 * c["steps"]), len=rng.choice([5, 50, 500]))
        return c
    if not io_only and c["valid"] and "fault" not in c and rng.random() < 0.45:
        ns = [rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(3)]
        ps = [q for q in range(1, 28) if any(a * b * d == q for a in range(1, ns[0] + 1) if ns[0] % a == 0 for b in range(1, ns[1] + 1) if ns[1] % b == 0
                                             for d in range(1, ns[2] + 1) if ns[2] % d == 0)]
        c["np"] = rng.choice([q for q in ps if q <= 12])
        v, l = [rng.choice([0.25, 0.5, 1.0, 3.0]) for _ in range(3)], [rng.choice([0.5, 1.0, 2.0]) for _ in range(3)]
        c["cls"] = dict(n=ns, v=v, l=l, dt=0.1 * min(l[i] / ns[i] / v[i] for i in range(3)), look=[int(rng.random() < 0.4) for _ in range(3)])
        c["vtk"] = False
        c.pop("stale", None)
        c["scenario"] = "upwindMPI.py (class)"
    elif not io_only and c["valid"] and "fault" not in c and rng.random() < 0.03:
        c["n"] = rng.choice([1, 2, 3])
        c["np"] = rng.choice([q for q in range(1, 5) if divisible(c["n"], q)])
        c["steps"], c["vtk"], c["p_line"], c["defaults"] = 100, False, 0, True
        c.pop("stale", None)
        c["scenario"] = "upwindMPI.py (default steps)"
    return c


def finish_cfg(c):
    c["args"] = [str(c["n"])] + ([] if c.get("defaults") and c["steps"] == 100 and not c["vtk"] else [str(c["steps"])]) + (["vtk"] if c["vtk"] else [])
    return c


def setup():
    pk, MPI = make_mpi()
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pk, MPI
    sys.path[:] = [p for p in sys.path if p not in ("", os.path.dirname(os.path.abspath(__file__)))]
    import numpy, mpinum, copy, operator   # noqa
    sys.unraisablehook = lambda u: None
    threading.excepthook = lambda a: None
    wrap_os()
    wrap_time()
    sys.setswitchinterval(10)


def wrap_time():
    """The clocks of the operating system, as a simulated rank sees them."""
    def clock(name, read):
        real = getattr(time, name)

        def f():
            me = getattr(tls, "rank", None)
            if me is None:
                return real()
            me.job.call("Wtime")
            return read(me)
        setattr(time, name, f)
    for k in ("time", "perf_counter", "monotonic"):
        clock(k, lambda me: me.job.clock_of(me))
        clock(k + "_ns", lambda me: int(me.job.clock_of(me) * 1e9))
    for k in ("process_time", "thread_time"):      # waiting does not count
        clock(k, lambda me: me.calls * 1e-5)
        clock(k + "_ns", lambda me: me.calls * 10000)
    real_sleep = time.sleep

    def sleep(s):
        me = getattr(tls, "rank", None)
        if me is None:
            return real_sleep(s)
        me.job.call("Wtime")
        me.clock += s
        me.job.point(me)
    time.sleep = sleep


def once(cfg, seed, given=None):
    cfg = json.loads(json.dumps(cfg))
    finish_cfg(cfg)
    d = Draws(seed, given)
    job = run_job(cfg, d)
    v = None
    if job.unsupported:
        v = ("unsupported", job.unsupported)
    else:
        v = judge(cfg, job)
    sig = hashlib.blake2b(digest_size=8)
    sig.update(d.hash.digest())
    sig.update(json.dumps([cfg["prog"], cfg["n"], cfg["np"], cfg["steps"], cfg["vtk"], sorted(job.counters.items()), [r.status for r in job.ranks]]).encode())
    sig.update("".join("%d%s" % x for x in job.stdout).encode())
    for k in sorted(job.files):
        sig.update(bytes(job.files[k]))
    return v, d, job, sig.hexdigest()


def minimise(cfg, v, made, budget):
    t0 = time.time()
    runs = 0

    def bad(c, m):
        nonlocal runs
        if time.time() - t0 > budget:
            return False
        runs += 1
        r = once(c, 0, m)[0]
        return r is not None and r[0] == v[0]
    best_c, best_m = cfg, dict(made)
    for change in (dict(stale=None), dict(steps=1), dict(steps=2), dict(vtk=False), dict(p_line=0), dict(fault=None), dict(split=False), dict(eager=True), dict(sync_coll=False), dict(skew=0)):
        c = dict(best_c)
        if all(c.get(k) == x for k, x in change.items()) or ("steps" in change and c["steps"] <= change["steps"]):
            continue
        c.update(change)
        for m in ({}, best_m):
            if bad(c, m):
                best_c, best_m = c, dict(m)
                break
    if best_m and bad(best_c, {}):
        best_m = {}
    step = max(1, len(best_m) // 2)
    while best_m and time.time() - t0 < budget:
        keys = sorted(best_m)
        hit = False
        for i in range(0, len(keys), step):
            m = {k: x for k, x in best_m.items() if k not in keys[i:i + step]}
            if bad(best_c, m):
                best_m = m
                hit = True
                break
        if not hit:
            if step == 1:
                break
            step //= 2
    return best_c, best_m, runs


def write_replay(path, prop, cfg, made, v, job, seed):
    with real_open(path, "w") as f:
        f.write("pysim-replay 1\nproperty %s\nseed %d\nclass %s\ncfg %s\nchoices %s\n" % (prop, seed, v[0], json.dumps(cfg), json.dumps(made)))
        f.write("# %s\n" % v[1].replace("\n", " "))
        for r in job.ranks:
            f.write("# rank %d: status %s, %d MPI calls\n" % (r.rk, r.status, r.calls))


def read_replay(path):
    d = {}
    for l in real_open(path):
        if l.startswith("#"):
            continue
        k, _, x = l.rstrip("\n").partition(" ")
        d[k] = x
    return d["property"], json.loads(d["cfg"]), {int(k): x for k, x in json.loads(d["choices"]).items()}, d["class"]


def worker(prop, seed, runs, maxtime, mintime, out, replays, w, nw):
    t0 = time.time()
    res = dict(runs=0, held=0, hashes=[], exes=[], counters={}, scenario_runs={}, samples=[], repeat_checked=0, simulated_seconds=0.0, unsupported={}, violations=0)
    hs, ex = set(), set()
    i = w
    while i < runs:
        if time.time() - t0 > maxtime:
            res["stopped_by_time"] = True
            break
        s = int.from_bytes(hashlib.blake2b(b"%d/%d/%s" % (seed, i, prop.encode()), digest_size=7).digest(), "big")
        cfg = draw_cfg(prop, random.Random(s))
        v, d, job, sig = once(cfg, s)
        res["runs"] += 1
        res["scenario_runs"][cfg["scenario"]] = res["scenario_runs"].get(cfg["scenario"], 0) + 1
        for k, x in job.counters.items():
            res["counters"][k] = res["counters"].get(k, 0) + x
        res["simulated_seconds"] += job.now
        if d.made:
            hs.add(d.hash.hexdigest())
        ex.add(sig)
        if len(res["samples"]) < 1 and w < 3:
            res["samples"].append("%s %s on %d ranks: status %s, %d decisions, schedule %s" % (cfg["prog"], " ".join(job.cfg["args"]), cfg["np"], [r.status for r in job.ranks][:4], d.n, d.hash.hexdigest()))
        if getattr(job, "stuck", False):
            res["violations"] += 1
        if v and v[0] == "unsupported":
            res["unsupported"][v[1]] = res["unsupported"].get(v[1], 0) + 1
        elif v:
            c, m, n = (cfg, d.made, 0) if getattr(job, "stuck", False) else minimise(cfg, v, d.made, 20)
            v2, d2, job2, _ = (v, d, job, None) if getattr(job, "stuck", False) else once(c, 0, m)
            if v2 is None or v2[0] != v[0]:
                c, m, v2, job2 = cfg, d.made, v, job
            p = "%s/%s-py-%d.replay" % (replays, prop, s)
            write_replay(p, prop, c, m, v2, job2, s)
            res.update(replay=p, message="%s: %s" % v2, cls=v2[0], violations=1, mini="%d non-default choices (before minimising %d, %d runs tried)" % (len(m), len(d.made), n),
                       cfgtext=" ".join("%s=%s" % (k, c[k]) for k in sorted(c)))
            break
        else:
            res["held"] += 1
            if i % 10 == 0:
                sig2 = once(cfg, s, d.made)[3]
                if sig2 != sig:
                    res["harness"] = "run %d (seed %d) is not repeatable: %s" % (i, s, cfg)
                    break
                res["repeat_checked"] += 1
        i += nw
    res["hashes"], res["exes"] = sorted(hs), sorted(ex)
    res["search_wall_s"] = time.time() - t0
    with real_open(out, "w") as f:
        json.dump(res, f)


def main(a):
    setup()
    if a[0] == "run":
        try:
            cpus = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, {cpus[int(a[8]) % len(cpus)]})     # only one thread ever runs: hand over on one core
        except OSError:
            pass
        worker(a[1], int(a[2]), int(a[3]), float(a[4]), float(a[5]), a[6], a[7], int(a[8]), int(a[9]))
        sys.stdout.flush()
        os._exit(0)
    if a[0] == "replay":
        prop, cfg, m, cls = read_replay(a[1])
        v, d, job, sig = once(cfg, 0, m)
        print("replay: %s" % ("%s: %s" % v if v else "held"))
        sys.stdout.flush()
        os._exit(1 if v and v[0] == cls else 0)
    if a[0] == "one":      # debugging: one PROP SEED
        cfg = draw_cfg(a[1], random.Random(int(a[2])))
        v, d, job, sig = once(cfg, int(a[2]))
        print(cfg, v, sig, job.counters)
        for r in job.ranks:
            print(r.rk, r.status, "".join(r.out), "".join(r.err), r.exc)
        os._exit(0)


if __name__ == "__main__":
    main(sys.argv[1:])
