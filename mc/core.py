"""Explorer core.

A check module enumerates *cases* (roots of a bounded state graph) and explores
each one completely on the real code in /repo.  While it does so it reports to
the ``Ctx``:

    ctx.state(key)   a canonical state (configuration, operation history, ...)
    ctx.edge(n)      a transition: a real call whose result was compared with
                     the reference model, or with another state of the graph
    ctx.trace(n)     a complete path through the graph on which implementation
                     and model agreed
    ctx.obs(value)   an observed outcome (to notice vacuous explorations)

Nothing is sampled: the set of cases is a fixed function of the tier.
"""

import hashlib
import json
import math
import signal
import time
import traceback

import numpy as np


class Violation(Exception):
    """The real code broke the property."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


class CaseTimeout(BaseException):
    pass


def digest(obj):
    return hashlib.md5(repr(obj).encode()).digest()[:8]


class Ctx(object):

    def __init__(self, tier, known, scratch):
        self.tier = tier
        self.known_keys = known
        self.scratch = scratch
        self.states = set()
        self.edges = 0
        self.comparisons = 0
        self.traces = 0
        self.outcomes = set()
        self.known_hits = {}
        self.max_err = 0.

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def state(self, *key):
        d = digest(key)
        new = d not in self.states
        self.states.add(d)
        return new

    def edge(self, n=1):
        self.edges += n

    def trace(self, n=1):
        self.traces += n

    def obs(self, value):
        if isinstance(value, (np.ndarray, float, complex, np.number)):
            value = np.array2string(np.atleast_1d(np.round(value, 6)).ravel()[:8], precision=6)
        self.outcomes.add(digest(value))

    # -- comparisons ---------------------------------------------------------

    def fail(self, msg, key=None):
        """Report a violation (or a known finding, if the key is listed)."""
        if key is not None and key in self.known_keys:
            self.known_hits[key] = msg
            return
        raise Violation(msg, key)

    def true(self, cond, msg, *args, **kw):
        self.comparisons += 1
        if not cond:
            self.fail(msg.format(*args), kw.get('key'))

    def close(self, actual, expected, atol=1e-9, rtol=1e-9, what='value', shape=True):
        """Element-wise |actual - expected| <= atol + rtol*|expected|."""
        self.comparisons += 1
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.dtype == object:
            raise Violation('{}: not numeric: {!r}'.format(what, actual))
        if shape and a.shape != e.shape:
            raise Violation('{}: shape {} instead of {}'.format(what, a.shape, e.shape))
        with np.errstate(all='ignore'):
            same = (a == e) | (np.isnan(a) & np.isnan(e))
            err = np.abs(a - e)
            ok = same | (np.isfinite(e) & (err <= atol + rtol * np.abs(e)))
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0]
            aa = np.broadcast_to(np.atleast_1d(a), np.atleast_1d(ok).shape)[tuple(bad)]
            ee = np.broadcast_to(np.atleast_1d(e), np.atleast_1d(ok).shape)[tuple(bad)]
            raise Violation('{}: got {!r}, expected {!r} at {} ({} of {} differ)'.format(
                what, aa, ee, tuple(int(b) for b in bad), int(np.sum(~ok)), ok.size))

    def same(self, actual, expected, what='value'):
        """Bit-for-bit identical (used for data that must not be touched)."""
        self.comparisons += 1
        a, e = np.asarray(actual), np.asarray(expected)
        if a.shape != e.shape or a.dtype != e.dtype or a.tobytes() != e.tobytes():
            raise Violation('{}: changed from {} to {}'.format(what, short(e), short(a)))

    def raises(self, exc, fn, what):
        self.comparisons += 1
        try:
            fn()
        except exc:
            return
        except CaseTimeout:
            raise
        except Exception as e:
            raise Violation('{}: raised {!r} instead of {}'.format(what, e, exc))
        raise Violation('{}: was accepted, but must raise {}'.format(what, exc))


def short(x):
    s = np.array2string(np.asarray(x).ravel()[:6], precision=6) if np.size(x) else '[]'
    return s + ('...' if np.size(x) > 6 else '')


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and not math.isfinite(x):
        return str(x)
    return x


def die_with_parent():
    """A forked process does not outlive the one that waits for it."""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


# -- running one case --------------------------------------------------------

_G = {}


def setup_worker(module, tier, known, scratch, case_timeout, fork):
    _G.update(module=module, tier=tier, known=known, scratch=scratch, timeout=case_timeout, fork=fork)


def _alarm(signum, frame):
    raise CaseTimeout()


def describe(e):
    import os
    tb = traceback.extract_tb(e.__traceback__)
    where = ' <- '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4])
    return '{}: {} ({})'.format(type(e).__name__, e, where)


def run_case(args):
    """Explore one case completely.  Returns a plain dict."""
    idx, case = args
    import contextlib
    import os
    ctx = Ctx(_G['tier'], _G['known'], _G['scratch'])
    out = {'idx': idx, 'violation': None}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(_G['timeout']))
    try:
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), \
                np.errstate(all='ignore'):
            _G['module'].check(case, ctx)
    except Violation as e:
        out['violation'] = (e.msg, e.key)
    except CaseTimeout:
        out['violation'] = ('did not finish within {} s'.format(_G['timeout']), None)
    except (MemoryError, HarnessError):
        raise
    except Exception as e:
        # On the unchanged tree no case raises.  An exception here means that
        # the code under test failed on a valid input or returned something
        # that is not of the documented form.
        out['violation'] = ('unexpected ' + describe(e), None)
    finally:
        signal.alarm(0)
    out.update(states=ctx.states, edges=ctx.edges, comparisons=ctx.comparisons, traces=ctx.traces,
               outcomes=ctx.outcomes, known=ctx.known_hits, wall=time.time() - t0)
    return out
