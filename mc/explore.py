"""Bounded exhaustive exploration of operation histories on the real objects.

`explore` does a level-synchronised breadth-first search.  A state is the
history reaching it; every transition rebuilds fresh real objects, replays the
history and applies one more operation, so no state leaks between executions.
States are merged on the canonical form of their heap (mc.canon).

`enumerate_cases` runs a check over every element of a finite, deterministic
list of cases.
"""
import collections
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

from . import env
from .report import Violation

STEP_LIMIT = float(os.environ.get("VERIF_STEP_LIMIT", "15"))


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def guarded(fn, what, *a):
    """run fn; any exception other than Violation becomes one; also hangs"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, STEP_LIMIT)
    try:
        return fn(*a)
    except Violation:
        raise
    except Hang:
        raise Violation("%s did not terminate within %g s" % (what, STEP_LIMIT), "hang")
    except RecursionError:
        raise Violation("%s: unbounded recursion" % what, "recursion")
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-4:])
        raise Violation("%s: unexpected %s: %s  (at %s)" % (what, type(e).__name__, e, where),
                        "exc:%s" % type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class System(object):
    """What the explorer drives. Subclass per check."""
    name = "system"

    def build(self):
        raise NotImplementedError

    def ops(self, e):
        raise NotImplementedError

    def apply(self, e, op):
        """perform op on the real objects and on the reference; raise
        Violation when the immediate results disagree"""
        raise NotImplementedError

    def key(self, e):
        raise NotImplementedError

    def check(self, e):
        """compare everything observable; may destroy e"""

    def outcome(self, e):
        """a short hashable describing the observable outcome (evidence only)"""
        return None

    def fmt(self, op):
        return repr(op)


def run_history(system, hist, check=True):
    """replay one history with all checks; raises Violation"""
    e = guarded(system.build, "build")
    for op in hist:
        guarded(system.apply, system.fmt(op), e, op)
    if check:
        guarded(system.check, "after " + "; ".join(system.fmt(o) for o in hist), e)
    return e


_SYSTEM = None


def _expand(item):
    """all successors of one state (or every K-th of them)"""
    hist, part, parts = item
    hangs = 0
    system = _SYSTEM
    res = []
    try:
        e = run_history(system, hist, check=False)
        ops = list(guarded(system.ops, "ops", e))[part::parts]
    except Violation as v:
        return [(None, None, ("%s" % v.msg, v.sig), None)]
    first = True
    for op in ops:
        try:
            if not first:
                e = run_history(system, hist, check=False)
            first = False
            what = "; ".join(system.fmt(o) for o in list(hist) + [op])
            guarded(system.apply, what, e, op)
            key = guarded(system.key, "key after " + what, e)
            out = system.outcome(e)
            guarded(system.check, "after " + what, e)
            res.append((op, key, None, out))
        except Violation as v:
            res.append((op, None, ("[%s] %s" % (what, v.msg), v.sig), None))
            if v.sig == "hang":
                hangs += 1
                if hangs >= 2:
                    break
    return res


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(fn, items, conn):
    """a worker: positions in, results out, over its own pipe (no shared locks)"""
    _init_worker()
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            conn.send((msg, [fn(items[i]) for i in range(*msg)]))
    except (EOFError, OSError):
        pass
    finally:
        os._exit(0)


def _map(fn, items, chunk):
    """ordered parallel map over workers forked for this call"""
    items = list(items)
    if env.WORKERS <= 1 or len(items) < 4:
        for it in items:
            yield fn(it)
        return
    ctx = multiprocessing.get_context("fork")
    chunks = [(i, min(i + chunk, len(items))) for i in range(0, len(items), chunk)]
    todo = collections.deque(chunks)
    done = {}
    retries = 0
    workers = {}

    def start():
        mine, its = ctx.Pipe()
        p = ctx.Process(target=_work, args=(fn, items, its), daemon=False)
        p.start()
        its.close()
        workers[mine] = [p, []]

    def feed(c):
        # two chunks each, so that nobody waits for us
        while todo and len(workers[c][1]) < 2:
            m = todo.popleft()
            c.send(m)
            workers[c][1].append(m)

    try:
        for _ in range(min(env.WORKERS, len(chunks))):
            start()
        for c in list(workers):
            feed(c)
        for m in chunks:
            while m not in done:
                for c in multiprocessing.connection.wait(list(workers)):
                    try:
                        got, res = c.recv()
                    except (EOFError, OSError):
                        # died: others do its work again
                        p, mine = workers.pop(c)
                        p.join()
                        retries += 1
                        if retries > 3:
                            raise RuntimeError("workers die (exit code %s)" % p.exitcode)
                        todo.extendleft(reversed(mine))
                        start()
                        c = list(workers)[-1]
                    else:
                        done[got] = res
                        workers[c][1].remove(got)
                    feed(c)
            for r in done.pop(m):
                yield r
    finally:
        for c, (p, _) in workers.items():
            p.kill()
        for c, (p, _) in workers.items():
            p.join()
            c.close()


def explore(system, depth, report, budget_s=None, max_violations=5, max_states=None):
    """BFS to `depth`; adds the coverage to the report. Returns new violations."""
    global _SYSTEM
    _SYSTEM = system
    t0 = time.time()
    budget_s = min(budget_s or 1e9, report.remaining())
    payload = lambda hist: {"system": system.name, "history": [list(o) if isinstance(o, tuple) else o for o in hist]}
    new = 0
    try:
        e = run_history(system, [], check=False)
        k0 = guarded(system.key, "key", e)
        e2 = run_history(system, [], check=False)
        deterministic = guarded(system.key, "key", e2) == k0
        guarded(system.check, "initial state", e)
    except Violation as v:
        report.violation(v, payload([]))
        report.cov["transitions"] = report.cov.get("transitions", 0)
        return 1
    seen = {k0}
    frontier = [()]
    transitions = 0
    validated = 1
    outcomes = set()
    levels = [1]
    done_depth = 0
    capped = None
    for d in range(depth):
        nxt = []
        parts = max(1, (env.WORKERS * 4) // max(1, len(frontier)))
        items = [(h, k, parts) for h in frontier for k in range(parts)]
        n = len(items)
        chunk = max(1, min(64, n // (env.WORKERS * 8)))
        stop = False
        it = _map(_expand, items, chunk)
        for (hist, _, _), succ in zip(items, it):
            for op, key, viol, out in succ:
                transitions += 1
                if viol is not None:
                    h = list(hist) + ([op] if op is not None else [])
                    if report.violation(Violation(viol[0], viol[1]), payload(h)):
                        new += 1
                    if new >= max_violations:
                        stop = True
                    continue
                validated += 1
                if out is not None:
                    outcomes.add(out)
                if key not in seen:
                    seen.add(key)
                    nxt.append(hist + (op,))
            if stop:
                break
            if time.time() - t0 > budget_s:
                capped = "time budget %g s hit at depth %d" % (budget_s, d + 1)
                break
        it.close()
        if stop or capped:
            break
        levels.append(len(nxt))
        done_depth = d + 1
        frontier = nxt
        if not frontier:
            break
        if max_states and len(seen) > max_states:
            capped = "state limit hit after depth %d" % (d + 1)
            break
    closed = not frontier
    # replay determinism: the same history twice gives the same canonical state
    replays = 0
    for hist in (frontier or [()])[:3]:
        try:
            a = run_history(system, hist, check=False)
            b = run_history(system, hist, check=False)
            if system.key(a) != system.key(b):
                deterministic = False
            replays += 1
        except Violation:
            pass
    report.add_part(system=system.name, depth_completed=done_depth, depth_bound=depth,
                    states=len(seen), transitions=transitions, states_per_level=levels,
                    closed=closed, distinct_outcomes=len(outcomes), deterministic_replay=deterministic,
                    capped=capped, wall_s=round(time.time() - t0, 2))
    report.cov["states"] = report.cov.get("states", 0) + len(seen)
    report.cov["transitions"] = report.cov.get("transitions", 0) + transitions
    # traces: complete histories executed on the implementation whose end was compared with the reference
    report.cov["traces_validated_against_impl"] = report.cov.get("traces_validated_against_impl", 0) + validated + replays
    if capped or new:
        report.exhaustive = False
    for hist in (frontier[:1] + frontier[-1:]):
        report.sample({"system": system.name, "history": [system.fmt(o) for o in hist]})
    return new


_CASES = None


def _run_case(i):
    name, fn, cases = _CASES
    c = cases[i]
    try:
        out = guarded(fn, "case %r" % (c,), c)
        return (None, out)
    except Violation as v:
        return (("[%r] %s" % (c, v.msg), v.sig), None)


def enumerate_cases(name, fn, cases, report, max_violations=5, chunk=None, budget_s=None, executions=None):
    """run fn(case) for every case; fn raises Violation; its return value is a
    hashable outcome (None: trivial). executions(outcome): how many executions
    of the code under test the case stood for"""
    global _CASES
    cases = list(cases)
    _CASES = (name, fn, cases)
    t0 = time.time()
    budget_s = min(budget_s or 1e9, report.remaining())
    new = 0
    n = 0
    outs = set()
    nontrivial = execs = 0
    capped = None
    chunk = chunk or max(1, min(200, len(cases) // (env.WORKERS * 6) or 1))
    it = _map(_run_case, range(len(cases)), chunk)
    for i, (viol, out) in enumerate(it):
        n += 1
        if viol is not None:
            if report.violation(Violation(viol[0], viol[1]), {"system": name, "case": cases[i]}):
                new += 1
            if new >= max_violations:
                break
        else:
            if out is not None:
                nontrivial += 1
                execs += 1 if executions is None else executions(out)
                try:
                    outs.add(out)
                except TypeError:
                    outs.add(repr(out))
        if time.time() - t0 > budget_s:
            capped = "time budget %g s hit after %d of %d cases" % (budget_s, n, len(cases))
            break
    it.close()
    report.add_part(system=name, executions=max(n, execs), cases=n, of=len(cases), nontrivial=nontrivial,
                    distinct_outcomes=len(outs), capped=capped, wall_s=round(time.time() - t0, 2))
    report.cov["states"] = report.cov.get("states", 0) + len(outs)
    report.cov["transitions"] = report.cov.get("transitions", 0) + max(n, execs)
    report.cov["traces_validated_against_impl"] = report.cov.get("traces_validated_against_impl", 0) + execs
    if capped or new:
        report.exhaustive = False
    if cases:
        report.sample({"system": name, "case": repr(cases[len(cases) // 2])})
    return new
