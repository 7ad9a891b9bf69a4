"""Controlled execution of the real code, line by line.

A *point* is the start of a line of the package under test, at one of its
first VISITS executions in a call.  ``Trace`` counts the points of a call and
acts at a chosen one: it raises an exception there (a fault), or hands over to
the other thread (a preemption).  The lines are those that the interpreter
reports (sys.monitoring), so nothing in the code needs to be changed.
"""

import ast
import sys
import threading

import qmix

ROOT = qmix.__file__.rsplit('/', 1)[0] + '/'
TOOL = 3
mon = sys.monitoring


class Fault(KeyboardInterrupt):
    """The user pressed Ctrl-C."""


class FaultE(MemoryError):
    """An allocation failed."""


_CLEANUP = {}


def cleanup_lines(filename):
    """Lines that restore something: a fault right there cannot be helped by
    any code (headers of with and try, bodies of finally and except)."""
    if filename not in _CLEANUP:
        lines = set()
        with open(filename) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.Try)):
                lines.update(range(n.lineno, n.body[0].lineno))
            if isinstance(n, ast.Try):
                for part in n.finalbody + [h for h in n.handlers]:
                    lines.update(range(part.lineno, part.end_lineno + 1))
        _CLEANUP[filename] = lines
    return _CLEANUP[filename]


def in_cleanup(frame):
    while frame is not None:
        name = frame.f_code.co_filename
        if name.startswith(ROOT) and frame.f_lineno in cleanup_lines(name):
            return True
        frame = frame.f_back
    return False


class Points(object):
    """Calls ``act(thread, n, place)`` at the n-th point of each thread."""

    def __init__(self, visits, act, threads=1, faults=False):
        self.visits, self.act, self.nthreads, self.faults = visits, act, threads, faults
        self.count, self.seen, self.on = {}, {}, {}

    def __enter__(self):
        mon.use_tool_id(TOOL, 'mc')
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.set_events(TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *exc):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)

    def start(self, who):
        if who < self.nthreads:
            t = threading.get_ident()
            self.count[t], self.seen[t], self.on[t] = 0, {}, who

    def stop(self):
        self.on.pop(threading.get_ident(), None)

    def _line(self, code, line):
        if not code.co_filename.startswith(ROOT):
            return mon.DISABLE
        t = threading.get_ident()
        who = self.on.get(t)
        if who is None:
            return None
        key = (code, line)
        n = self.seen[t].get(key, 0) + 1
        self.seen[t][key] = n
        if n > self.visits:
            # no thread needs this line any more
            if len(self.seen) == self.nthreads and all(s.get(key, 0) > self.visits for s in self.seen.values()):
                return mon.DISABLE
            return None
        if self.faults and in_cleanup(sys._getframe(1)):
            return None
        k = self.count[t]
        self.count[t] = k + 1
        self.act(who, k, (code.co_filename[len(ROOT):], code.co_name, line, n))
        return None


def count(fn, visits, faults=False):
    """(result, places): the points of one undisturbed call."""
    places = []
    with Points(visits, lambda who, k, place: places.append(place), faults=faults) as p:
        p.start(0)
        try:
            out = fn()
        finally:
            p.stop()
    return out, places


def fault(fn, visits, at, exc):
    """Run fn and raise exc at point number ``at``.  Returns the exception that
    came out, 'ended' with the result, or None if there is no such point."""
    fired = []

    def act(who, k, place):
        if k == at:
            fired.append(place)
            p.stop()
            raise exc(str(place))

    with Points(visits, act, faults=True) as p:
        p.start(0)
        try:
            out = 'ended', fn()
        except BaseException as e:
            if isinstance(e, exc) and fired:
                e.__traceback__ = None
                out = 'fault', e
            elif isinstance(e, Exception):
                e.__traceback__ = None
                out = 'raised', e
            else:
                raise
        finally:
            p.stop()
    return out if fired else None


STUCK = [20.]  # s without progress: the thread waits for the other one


def schedule(fns, plan, visits, probe=None):
    """Run two functions in threads.  ``plan`` says which points to hand over
    at: first the one of thread 0, then the one of thread 1, and so on in turn;
    then each runs to its end.  Returns the outcomes and where the handovers
    took place.  ``probe`` is called at each handover."""
    go = [threading.Semaphore(0), threading.Semaphore(0)]
    idle = [threading.Event(), threading.Event()]   # the thread waits for its turn or has ended
    done = [threading.Event(), threading.Event()]
    out = [None, None]
    todo = [list(plan[0::2]), list(plan[1::2])]
    taken = []

    def act(who, k, place):
        if todo[who] and k >= todo[who][0]:
            todo[who].pop(0)
            taken.append(place)
            idle[who].set()
            go[who].acquire()

    def body(who):
        go[who].acquire()
        p.start(who)
        try:
            out[who] = 'ended', fns[who]()
        except Exception as e:
            out[who] = 'raised', '{}: {}'.format(type(e).__name__, e)
        finally:
            p.stop()
            done[who].set()
            idle[who].set()

    with Points(visits, act, min(2, len(plan))) as p:
        ts = [threading.Thread(target=body, args=(w,), daemon=True) for w in (0, 1)]
        for t in ts:
            t.start()
        turn = 0
        while not (done[0].is_set() and done[1].is_set()):
            if done[turn].is_set():
                turn = 1 - turn
            idle[turn].clear()
            go[turn].release()
            if not idle[turn].wait(STUCK[0]) and not done[turn].is_set():
                # it waits for something that the other one holds: both run
                # (and so it is likely to be with other schedules)
                STUCK[0] = max(1., STUCK[0] / 4)
                todo[0].clear(), todo[1].clear()
                go[1 - turn].release()
                for d in done:
                    d.wait()
                break
            if probe is not None and not done[turn].is_set():
                probe(taken)
            turn = 1 - turn
        for t in ts:
            t.join()
    return out, taken


def places(fn, visits, faults=False):
    """(places that the first call visits, places that the second one visits):
    they differ if something is kept between calls."""
    from mc import twins
    out = twins.forked(lambda: [count(fn, visits, faults)[1] for _ in range(2)])
    if not isinstance(out, list):
        raise RuntimeError(out)
    return out
