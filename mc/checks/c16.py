"""C16: numerical derivatives.

slope and slope_span_n are linear in y.  On every grid within the bounds the
whole matrix of each map is extracted from the real code (every basis vector)
and decided: slope against the centred-difference matrix, slope_span_n by the
conditions every local secant derivative meets (exact for straight lines,
blind to constants, only uses points within the span).
"""

import itertools

import numpy as np

MODEL = 'matrix of centred differences; algebraic conditions on the rows of the matrix of slope_span_n'
BOUNDS = {'quick': 'every basis vector on 4 kinds of grids of 3-24 points, spans 1-13, data over many orders of magnitude; 101-1001 points in units over 20 orders of magnitude', 'thorough': 'grids of 3-45 points, spans 1-21'}


def grids(n):
    rng = np.arange(n)
    yield 'even', .1 * rng - 1
    yield 'uneven', np.cumsum(.05 + .1 * np.abs(np.sin(rng * 1.3)))
    yield 'falling', 3. - .25 * rng
    yield 'geometric', 1.07 ** rng


def cases(tier):
    for n in range(2, 25 if tier == 'quick' else 46):
        yield {'n': n}
    for n in (101, 150, 640, 1001) if tier == 'quick' else (101, 150, 640, 1001, 6001):
        yield {'kind': 'long', 'n': n}


def check(case, ctx):
    from qmix.mathfn.misc import slope, slope_span_n
    n = case['n']
    if case.get('kind') == 'long':
        return check_long(n, ctx)
    for name, x in grids(n):
        mat = np.empty((n, n))
        for k in range(n):
            y = np.zeros(n)
            y[k] = 1.
            kx, ky = x.copy(), y.copy()
            mat[:, k] = slope(x, y)
            ctx.same(x, kx, 'x data of the caller')
            ctx.same(y, ky, 'y data of the caller')
            ctx.state(name, n, k)
            ctx.edge()
        exp = np.zeros((n, n))
        for j in range(n):
            a, b = max(j - 1, 0), min(j + 1, n - 1)
            exp[j, b] += 1 / (x[b] - x[a])
            exp[j, a] -= 1 / (x[b] - x[a])
        ctx.close(mat, exp, atol=1e-9, rtol=1e-9, what='slope on {} grid of {} points'.format(name, n))
        ctx.close(slope(x, 4 - 3 * x), np.full(n, -3.), atol=1e-9, what='slope of a line')
        ctx.close(slope(x, np.full(n, 2.)), np.zeros(n), atol=1e-12, what='slope of a constant')
        for k in (1e-20, 1e-11, 1e8, -1e-9):
            y = np.sin(x)
            ctx.close(slope(x, k * y) / k, exp @ y, atol=1e-9, rtol=1e-9, what='slope of data scaled by {}'.format(k))
            ctx.close(slope(k * x, y) * k, exp @ y, atol=1e-9, rtol=1e-9, what='slope over x scaled by {}'.format(k))
        ctx.obs(mat)
        ctx.trace()
        for span in range(1, 14 if not ctx.thorough else 22):
            if span % 2 == 0:
                ctx.raises(AssertionError, lambda: slope_span_n(x, x, span), 'even span {}'.format(span))
                continue
            if n < 3 * ((span - 1) // 2) + 4:
                continue    # too short for the span
            mat = np.empty((n, n))
            for k in range(n):
                y = np.zeros(n)
                y[k] = 1.
                kx, ky = x.copy(), y.copy()
                mat[:, k] = slope_span_n(x, y, n=span, nozeros=False)
                ctx.same(x, kx, 'x data of the caller')
                ctx.same(y, ky, 'y data of the caller')
                with_floor = slope_span_n(x, y, span, True)
                ctx.close(with_floor, np.where(mat[:, k] == 0, 1e-10, mat[:, k]), atol=1e-15, rtol=1e-12, what='zeros replaced')
                ctx.close(slope_span_n(x, y, span), with_floor, atol=0, what='default of nozeros')
                if span == 11:
                    ctx.close(slope_span_n(x, y), with_floor, atol=0, what='default span')
                ctx.state(name, n, span, k)
                ctx.edge()
            what = 'slope_span_n(n={}) on {} grid of {} points'.format(span, name, n)
            ctx.true(np.all(np.isfinite(mat)), what + ': not finite')
            ctx.close(mat @ np.ones(n), np.zeros(n), atol=1e-8, what=what + ': constants')
            ctx.close(mat @ x, np.ones(n), atol=1e-8, what=what + ': straight line')
            far = np.abs(np.arange(n)[:, None] - np.arange(n)[None, :]) > span + 1
            ctx.close(mat[far], np.zeros(far.sum()), atol=0, what=what + ': uses points outside the span')
            # monotone data have a slope of that sign, between the smallest and largest local slope
            for y in (x ** 3, np.tanh(x), np.sin(x)):
                loc = np.diff(y) / np.diff(x)
                d = slope_span_n(x, y, span, False)
                lo = np.array([loc[max(0, j - span - 1):j + span + 1].min() for j in range(n)])
                hi = np.array([loc[max(0, j - span - 1):j + span + 1].max() for j in range(n)])
                ctx.true(np.all((d >= lo - 1e-9) & (d <= hi + 1e-9)), '{}: not between the local slopes', what)
            # data over many orders of magnitude, and small changes of large values
            for y in (np.exp(-40 * np.arange(n) / n), np.where(np.arange(n) < n // 2, 1e-9 * x, 1.), 1e4 + 1e-6 * x, np.r_[1e3, 1e-9 * x[1:]]):
                d = slope_span_n(x, y, span, False)
                # each row on its own values
                own = np.array([np.abs(mat[j] * y).max() for j in range(n)])
                ctx.true(np.all(np.abs(d - mat @ y) <= 1e-12 * own * n), '{}: wrong slope of data that vary over many orders of magnitude', what)
                e = slope(x, y)
                own = np.array([np.abs(exp[j] * y).max() for j in range(n)])
                ctx.true(np.all(np.abs(e - exp @ y) <= 1e-12 * own * n), 'slope: wrong slope of data that vary over many orders of magnitude')
                ctx.edge(2)
            # small and large data: the derivative scales, and only zeros are replaced
            for y, k in itertools.product((np.sin(x), x ** 2, np.where(np.arange(n) < n // 2, 0., x - x[n // 2])), (1e-20, 1e-13, 1e-9, 1e-5, 1e4, 1e12, -1e-12)):
                d1 = mat @ y
                for nz in (False, True):
                    d = slope_span_n(x, k * y, span, nz)
                    tiny = np.abs(d1) < 1e-12 * np.abs(mat).max()
                    ctx.close(d[~tiny] / k, d1[~tiny], atol=1e-12 * np.abs(mat).max(), rtol=1e-9, what=what + ' of data scaled by {}'.format(k))
                    ctx.true(not nz or np.all(d != 0), '{}: zero slope of data scaled by {}', what, k)
                    ctx.edge()
            # interior points: a full span centred on the point
            h = (span + 1) // 2
            for j in range(h, n - h):
                used = np.flatnonzero(mat[j])
                ctx.true(len(used) == 2 and abs(used[0] - j) <= h and abs(used[1] - j) <= h and used[1] - used[0] == 2 * h - 1,
                         '{}: point {} uses {}', what, j, used)
            ctx.obs(mat)
            ctx.trace()


def check_long(n, ctx):
    """Long data in any units: scaling either axis scales the derivative, straight lines stay exact, the stencil is local."""
    from qmix.mathfn.misc import slope, slope_span_n
    j = np.arange(n)
    for name, x in grids(n):
        if name == 'geometric':
            x = 1.003 ** j
        fns = [('slope', slope, 1)] + [('slope_span_n(n={})'.format(m), lambda x, y, m=m: slope_span_n(x, y, m, False), m) for m in (1, 5, 11, 51)]
        for label, fn, span in fns:
            y = np.sin(x * 3) + .2 * x
            base = fn(x, y)
            what = '{} on {} grid of {} points'.format(label, name, n)
            if fn is slope:
                a, b = np.maximum(j - 1, 0), np.minimum(j + 1, n - 1)
                ctx.close(base, (y[b] - y[a]) / (x[b] - x[a]), atol=1e-9, rtol=1e-9, what=what)
            ctx.close(fn(x, 3 - 2.5 * x), np.full(n, -2.5), atol=1e-7, what=what + ': straight line')
            for k in (1e-18, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e9, -1e-7):
                ctx.close(fn(k * x, y) * k, base, atol=1e-7, rtol=1e-7, what='{}, x scaled by {}'.format(what, k))
                ctx.close(fn(x, k * y) / k, base, atol=1e-7, rtol=1e-7, what='{}, y scaled by {}'.format(what, k))
                ctx.edge(2)
            for c in (1e3, -5e2):
                ctx.close(fn(x, y + c), base, atol=1e-7, rtol=1e-7, what='{}, {} added'.format(what, c))
            # one sample changes the derivative only within the span
            for k in list(range(0, n, max(1, n // 40))) + [n - 1]:
                z = y.copy()
                z[k] += 1.
                d = fn(x, z)
                far = np.abs(j - k) > span + 1
                ctx.true(np.array_equal(d[far], base[far]), '{}: sample {} is used outside of the span', what, k)
                ctx.state(n, name, span, k)
                ctx.edge()
        ctx.trace()
        ctx.obs(base)
