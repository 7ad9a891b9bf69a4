"""C15: Gaussian smoothing.

gauss_conv is a linear map; its whole matrix is extracted (every basis vector)
for every length, width and extent within the bounds and compared with an
independently written matrix (normalized Gaussian, mirrored ends).
"""

import itertools

import numpy as np

MODEL = 'matrix of a Gaussian moving average with mirrored ends, written out entry by entry'
BOUNDS = {'quick': 'every basis vector for 25 widths x 5 extents x all lengths from the shortest valid one to +6, and 40 points',
          'thorough': 'lengths up to +20, and 120 points'}

SIGMA = [.34, .5, .7, 1, 1.1, 1.3, 1.5, 1.7, 1.9, 2, 2.2, 2.5, 2.6, 3, 10 / 3., 3.4, 3.7, 4, 4.3, 5, 5.5, 6, 7.1, .01 / .005, .05 / .005]


def cases(tier):
    for s, e in itertools.product(SIGMA, (1, 2, 3, 4, 2.5)):
        if s * e >= 1:
            yield {'sigma': s, 'ext': e, 'more': 20 if tier == 'thorough' else 6, 'long': 120 if tier == 'thorough' else 40}
    yield {'sigma': 10, 'ext': 3, 'default': True, 'more': 2, 'long': 80}
    yield {'kind': 'reject'}
    yield {'kind': 'data'}


def matrix(n, sigma, ext):
    h = int(ext * sigma + 1e-5)
    k = np.array([np.exp(-.5 * (d / sigma) ** 2) for d in range(-h, h + 1)])
    k /= k.sum()
    m = np.zeros((n, n))
    for j, d in itertools.product(range(n), range(-h, h + 1)):
        s = j + d
        if s < 0:
            s = -s
        if s > n - 1:
            s = 2 * (n - 1) - s
        m[j, s] += k[d + h]
    return m, 2 * h + 1


def check(case, ctx):
    from qmix.mathfn.filters import gauss_conv
    if case.get('kind') == 'reject':
        for s, e, n in itertools.product((.1, .5, 1, 2, 3), (1, 2, 3), range(1, 30)):
            w = 2 * int(e * s + 1e-5) + 1
            ctx.state(s, e, n)
            ctx.edge()
            if s * e < 1 or w > n:
                ctx.raises(AssertionError, lambda: gauss_conv(np.ones(n), s, e), 'window of {} for {} points (sigma {} ext {})'.format(w, n, s, e))
            else:
                ctx.close(gauss_conv(np.ones(n), s, e), np.ones(n), atol=1e-12, what='constant data')
            ctx.trace()
        return
    if case.get('kind') == 'data':
        return check_data(ctx, gauss_conv)
    s, e = case['sigma'], case['ext']
    _, w = matrix(100, s, e)
    for n in list(range(w, w + case['more'])) + [max(case['long'], w + 9)]:
        exp, _ = matrix(n, s, e)
        got = np.empty((n, n))
        for k in range(n):
            x = np.zeros(n)
            x[k] = 1.
            keep = x.copy()
            got[:, k] = gauss_conv(x) if case.get('default') else gauss_conv(x, sigma=s, ext_x=e)
            ctx.same(x, keep, 'data of the caller')
            ctx.edge()
            ctx.state(s, e, n, k)
        ctx.close(got, exp, atol=1e-12, rtol=0, what='smoothing {} points with sigma={}, ext_x={}'.format(n, s, e))
        ctx.close(got.sum(axis=1), np.ones(n), atol=1e-12, what='constant data must stay constant')
        ctx.obs(got[n // 2])
        ctx.trace()


def check_data(ctx, gauss_conv):
    """Superposition, symmetric treatment of both ends, straight lines, argument types."""
    t = np.arange(60.)
    for s, e in itertools.product((1., 2.3, 4.), (2, 3)):
        m, w = matrix(60, s, e)
        for name, x in (('line', 2 * t - 7), ('step', np.where(t > 31, 1., 0)), ('mixed', np.sin(t ** 1.5) * 1e6), ('int', np.arange(60) ** 2)):
            y = gauss_conv(x, s, e)
            ctx.state(s, e, name)
            ctx.edge()
            ctx.close(y, m @ x, atol=1e-9, rtol=1e-10, what='smoothed ' + name)
            ctx.close(gauss_conv(x[::-1], s, e), y[::-1], atol=1e-9, rtol=1e-10, what='reversed ' + name)
            ctx.close(gauss_conv(x * 3., s, e), y * 3, atol=1e-9, rtol=1e-10, what='scaled ' + name)
            if name == 'line':
                h = (w - 1) // 2
                ctx.close(y[h:60 - h], x[h:60 - h], atol=1e-10, what='straight line')
            ctx.true(y.min() >= x.min() - 1e-6 and y.max() <= x.max() + 1e-6, 'smoothed data leave the range of the data')
            ctx.trace()
