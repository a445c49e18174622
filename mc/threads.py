"""A controlled scheduler for two threads.

Only the thread whose turn it is executes code of the library; scheduling
points are the lines (in some files: the byte codes) of the library.  A plan
says at which of its points a thread hands over to the other one.  A thread
which does not get on (it waits for a lock which the other one holds) gives
the turn back.  Whatever really happens is one of the legal interleavings.
Locks which the modules of the library hold are replaced by ones which hand
over at once.
"""
import os
import sys
import threading

from . import env

LIB = os.path.join(env.REPO, "paramz") + os.sep
WAIT = 0.1


CURRENT = [None]


class Lock(object):
    """hands over to the other thread as long as that holds the lock"""

    def __init__(self, real):
        self.real = real

    def acquire(self, blocking=True, timeout=-1):
        pair = CURRENT[0]
        me = pair.me() if pair is not None else None
        if me is None or not blocking or timeout != -1:
            return self.real.acquire(blocking, timeout)
        while not self.real.acquire(False):
            if pair.done[1 - me]:
                raise Deadlock("waits for a lock which nobody gives back")
            pair.turn = 1 - me
            pair.switches += 1
            pair._wait(me)
        return True

    def release(self):
        self.real.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self.real, name)


class Deadlock(Exception):
    pass


KINDS = (type(threading.Lock()), type(threading.RLock()))


def take_locks():
    """locks in modules and classes of the library"""
    for mod in [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "paramz" and m is not None]:
        for ns in [mod] + [c for c in vars(mod).values() if isinstance(c, type) and c.__module__.startswith("paramz")]:
            for name, value in list(vars(ns).items()):
                if isinstance(value, KINDS):
                    setattr(ns, name, Lock(value))


class Pair(object):
    """two programs and the points at which they hand over to each other"""

    def __init__(self, progs, plan=(), first=0, fine=(), record=False):
        self.progs = progs
        self.plan = set(plan)
        self.turn = first
        self.done = [False, False]
        self.count = [0, 0]
        self.result = [None, None]
        self.error = [None, None]
        self.cond = threading.Condition()
        self.fine = fine
        self.record = [] if record else None
        self.switches = 0
        self.ident = [None, None]

    def me(self):
        ident = threading.get_ident()
        return self.ident.index(ident) if ident in self.ident else None

    def _trace(self, me):
        fine = self.fine
        count, plan, record = self.count, self.plan, self.record

        def local(frame, event, arg):
            if event in ("line", "opcode") and (event == "opcode") == frame.f_trace_opcodes:
                n = count[me] = count[me] + 1
                if record is not None:
                    record.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_lasti if event == "opcode" else -1))
                if (me, n) in plan:
                    self.turn = 1 - me
                    self.switches += 1
                if self.turn != me:
                    self._wait(me)
            return local

        def glob(frame, event, arg):
            name = frame.f_code.co_filename
            if not name.startswith(LIB):
                return None
            if os.path.basename(name) in fine:
                frame.f_trace_opcodes = True
            if self.turn != me:
                self._wait(me)
            return local
        return glob

    def _wait(self, me):
        other = 1 - me
        with self.cond:
            self.cond.notify_all()
            while self.turn != me and not self.done[other]:
                was = self.count[other]
                if not self.cond.wait(WAIT) and self.count[other] == was and self.turn != me and not self.done[other]:
                    self.turn = me          # the other one is blocked
            self.turn = me

    def _run(self, me):
        self.ident[me] = threading.get_ident()
        try:
            if self.turn != me:
                self._wait(me)
            sys.settrace(self._trace(me))
            try:
                self.result[me] = self.progs[me]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.error[me] = e
        finally:
            with self.cond:
                self.done[me] = True
                self.turn = 1 - me
                self.cond.notify_all()

    def run(self):
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in (0, 1)]
        take_locks()
        CURRENT[0] = self
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            CURRENT[0] = None
        return self


def _opcodes():
    """the interpreter reports byte codes only from the first settrace on after a frame asked for them"""
    def trace(frame, event, arg):
        frame.f_trace_opcodes = True
        return trace
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        (lambda: None)()
    finally:
        sys.settrace(old)


_opcodes()


def points(prog, fine=(), keep=None):
    """how many scheduling points a program has, and those at the first and last visit of each place"""
    p = Pair([prog, lambda: None], (), 0, fine, True).run()
    if p.error[0] is not None:
        raise p.error[0]
    first, last = {}, {}
    for n, place in enumerate(p.record, 1):
        first.setdefault(place, n)
        last[place] = n
    return len(p.record), sorted(set(first.values()) | set(last.values())), [pl[0] for pl in p.record]
