"""Explores the paths of goals by forking the process at every decision: nothing is executed
twice, and the machine's cores share the work.

Every running process holds a slot (a byte of a pipe).  At a decision the process forks; the copy
takes the other side.  With a free slot both go on at once, otherwise the original hands its slot
to the copy and waits.  Each process reports its own path and those of its copies."""
import gc
import mmap
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback
import z3
from .core import Ctx, Shared, Infeasible, Unsupported, Budget
from .prove import Report, one_path

CHEAP = 0.1        # paths that reach a decision faster are run again instead of forking

LIMIT = 6          # failures that end a goal

class Handover(Infeasible):
    """this process goes on with other paths"""

class Forker(object):
    def __init__(self, slots, flags, index, report, out):
        self.slots, self.flags, self.index = slots, flags, index
        self.report, self.out = report, out
        self.children = []
        self.depth = 0
        self.pending = [[]]         # prefixes of paths to explore from the start
        self.reached = 0.0          # cost of getting where this process began
        self.since = 0.0

    # -- slots
    def acquire(self, block=True):
        while True:
            try:
                if os.read(self.slots[0], 1):
                    return True
            except BlockingIOError:
                pass
            if not block:
                return False
            select.select([self.slots[0]], [], [], 1.0)

    def release(self):
        os.write(self.slots[1], b'.')

    # -- decisions
    def split(self, ctx, first, others):
        """-> the decision this process takes"""
        if self.stopped():
            raise Budget()
        if self.pending and self.acquire(False):
            # idle processor: give away the prefixes nearest to the root
            n = (len(self.pending) + 1) // 2
            given, self.pending[:n] = self.pending[:n], []
            if self.copy(ctx, True):
                self.pending = given
                raise Handover()
        if self.reached + time.process_time() - self.since < CHEAP:
            for d in reversed(others):
                self.pending.append(ctx.decisions + [d])
            return first
        for d in others:
            if self.copy(ctx, self.depth < 200 and self.acquire(False)):
                return d
        return first

    def copy(self, ctx, spare):
        """forks; true in the copy"""
        r, w = os.pipe()
        cost = self.reached + time.process_time() - self.since
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for _, fd in self.children:
                os.close(fd)
            os.close(self.out)
            self.out, self.children, self.pending = w, [], []
            self.report.__init__(self.report.name)
            self.told = 0
            self.depth += 1
            self.reached, self.since = cost, time.process_time()
            ctx.shared.queries, ctx.shared.solver_time = 0, 0.0
            ctx.world.assumptions = set()
            return True
        os.close(w)
        if spare:
            self.children.append((pid, r))
        else:
            self.collect(pid, r)
            self.acquire()
        return False

    def collect(self, pid, fd):
        data = b''
        while True:
            part = os.read(fd, 1 << 16)
            if not part:
                break
            data += part
        os.close(fd)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        try:
            merge(self.report, pickle.loads(data))
        except Exception:
            self.report.unsupported = self.report.unsupported or 'process lost'

    told = 0

    def note_failures(self):
        """enough failures in all, or an unsupported construct, end the goal"""
        rep = self.report
        n = len(rep.failed)
        new, self.told = n - self.told, n
        if rep.unsupported:
            new = 200
        self.flags[self.index] = min(200, self.flags[self.index] + max(0, new))

    def stopped(self):
        return self.flags[self.index] >= LIMIT

    def finish(self):
        rep = self.report
        self.note_failures()
        self.release()
        for pid, fd in self.children:
            self.collect(pid, fd)
        data = pickle.dumps(rep)
        i = 0
        while i < len(data):
            i += os.write(self.out, data[i:])
        os._exit(0)

def merge(a, b):
    a.obligations += b.obligations
    a.discharged += b.discharged
    a.failed.extend(b.failed)
    a.paths += b.paths
    a.covered |= b.covered
    for k, (x, y) in b.labels.items():
        c = a.labels.setdefault(k, [0, 0])
        c[0] += x
        c[1] += y
    if b.unsupported and (not a.unsupported or a.unsupported in ('time budget', 'stopped after failures')):
        a.unsupported = b.unsupported
    a.time += b.time
    a.solver_time += b.solver_time
    a.queries += b.queries
    a.assumptions |= b.assumptions
    a.functions |= b.functions

def resident():
    """megabytes of memory in use"""
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * resource.getpagesize() >> 20

def root(name, slots, flags, index, out, end, timeout):
    from . import goals
    rep = Report(name)
    fk = Forker(slots, flags, index, rep, out)
    try:
        world = goals.World(goals.scheme)
        world.assumptions = set()
        shared = Shared('proof', deadline=end, timeout=timeout)
        done = 0
        while fk.pending:
            ctx = Ctx(shared, fk.pending.pop())
            ctx.forker = fk
            ctx.world = world
            fk.reached, fk.since = 0.0, time.process_time()
            try:
                one_path(ctx, world, goals.GOALS[name], goals.OBSERVERS.get(name, goals.PObs), rep)
                rep.paths += 1
            except Infeasible:
                pass
            except Unsupported as e:
                rep.unsupported = str(e) or 'unsupported'
            except Budget:
                rep.unsupported = 'stopped after failures' if fk.stopped() else 'time budget'
            except z3.Z3Exception as e:
                rep.unsupported = 'z3: %s' % str(e)[:200]
            except RecursionError:
                rep.unsupported = 'recursion'
            except Exception as e:
                tb = traceback.format_exc().strip().split('\n')
                rep.unsupported = 'engine: %r at %s' % (e, tb[-3].strip() if len(tb) > 2 else '')
            fk.note_failures()
            if fk.stopped():
                break
            done += 1
            if done % 64 == 0 and resident() > 600:
                ctx = None
                gc.collect()
            else:
                gc.collect(0)
        rep.time += time.process_time()
        rep.solver_time += shared.solver_time
        rep.queries += shared.queries
        rep.assumptions |= world.assumptions
        fk.finish()
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(1)

def prove_all(names, jobs=None, deadline=120.0, timeout=4000, progress=None):
    """-> {goal: Report}"""
    jobs = jobs or len(os.sched_getaffinity(0))
    end = time.time() + deadline
    sys.setrecursionlimit(20000)
    gc.collect()
    gc.freeze()
    gc.disable()
    reps = {}
    slots = os.pipe()
    os.set_blocking(slots[0], False)
    os.write(slots[1], b'.' * jobs)
    flags = mmap.mmap(-1, max(1, len(names)))
    me = Forker(slots, flags, 0, None, None)
    open_ = {}
    todo = list(enumerate(names))
    pgid = None
    datas = {}
    try:
        while (todo or open_) and time.time() < end + 10:
            while todo and me.acquire(False):
                index, name = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        for fd in open_:
                            os.close(fd)
                        os.close(r)
                        root(name, slots, flags, index, w, end, timeout)
                    finally:
                        os._exit(1)
                try:
                    os.setpgid(pid, pid)
                except OSError:
                    pass
                os.close(w)
                open_[r] = (name, pid)
                datas[r] = b''
            wait = list(open_) + ([slots[0]] if todo else [])
            ready, _, _ = select.select(wait, [], [], 0.5)
            for fd in ready:
                if fd == slots[0]:
                    continue
                part = os.read(fd, 1 << 16)
                if part:
                    datas[fd] += part
                    continue
                name, pid = open_.pop(fd)
                os.close(fd)
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
                try:
                    reps[name] = pickle.loads(datas[fd])
                except Exception:
                    reps[name] = Report(name)
                    reps[name].unsupported = 'process lost'
                if progress:
                    progress(name, reps[name])
    finally:
        for fd, (name, pid) in open_.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            os.close(fd)
        os.close(slots[0])
        os.close(slots[1])
        gc.enable()
    for n in names:
        if n not in reps:
            reps[n] = Report(n)
            reps[n].unsupported = 'time budget'
    return reps
