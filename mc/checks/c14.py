"""C14: Kramers-Kronig transforms.

The transforms are linear maps of (i - v).  On every small grid the whole
matrix of the map is extracted from the real code (every basis vector) and
compared with an independent matrix; on fine grids the transforms are compared
with the analytic solution and the exact principal value.
"""

import itertools

import numpy as np

from mc.models.kk import kk_exact

MODEL = 'matrix of the discrete Hilbert transform / trapezoidal principal value, written out entry by entry'
BOUNDS = {'quick': 'every basis vector on all grids of 2-17 points and 41 points, 5 paddings, 3 spacings, offsets; 6 analytic curves; '
                   'every single displaced sample of a grid; grids of 1000, 4099, 9001 and 14001 points', 'thorough': 'all grids of 2-33 points and 101 points'}


def cases(tier):
    for n in list(range(2, 18 if tier == 'quick' else 34)) + ([41] if tier == 'quick' else [41, 101]):
        yield {'kind': 'matrix', 'n': n}
        if n > 2:
            yield {'kind': 'trapz', 'n': n}
    for c in ('perfect', 'poly', 'exp', 'soft', 'parity', 'decoupled'):
        yield {'kind': 'curve', 'curve': c}
    for n in (1000, 4099, 9001, 14001) if tier == 'quick' else (1000, 4099, 9001, 14001, 20001, 30011):
        yield {'kind': 'large', 'n': n}
    for n in (5, 8, 21):
        yield {'kind': 'uneven', 'n': n}


def hilbert_matrix(n, total):
    """Im of the analytic signal (zero padded to `total`), first n rows and columns."""
    j = np.arange(n)
    d = j[:, None] - j[None, :]
    with np.errstate(all='ignore'):
        if total % 2 == 0:
            h = np.where(d % 2 == 1, 2. / total / np.tan(np.pi * d / total), 0.)
        else:
            h = (1 / np.tan(np.pi * d / total) - np.cos(np.pi * d) / np.sin(np.pi * d / total)) / total
    h[d == 0] = 0
    return h


def check(case, ctx):
    from qmix.mathfn.kktrans import kk_trans, kk_trans_trapz
    if case['kind'] == 'matrix':
        n = case['n']
        for pad, (v0, step) in itertools.product((1, 2, 3, 10, 50, None), ((-1., .1), (0., .005), (-7., 3.))):
            v = v0 + step * np.arange(n)
            args = () if pad is None else (pad,)
            total = n * (50 if pad is None else pad)
            base = kk_trans(v, v, *args)
            ctx.close(base, np.zeros(n), atol=1e-9, what='transform of i=v')
            mat = np.empty((n, n))
            for k in range(n):
                e = np.zeros(n)
                e[k] = 1.
                i = v + e
                kv, ki = v.copy(), i.copy()
                mat[:, k] = kk_trans(v, i, *args)
                ctx.same(v, kv, 'voltages of the caller')
                ctx.same(i, ki, 'currents of the caller')
                ctx.state(n, pad, v0, k)
                ctx.edge()
            ctx.close(mat, -hilbert_matrix(n, total), atol=1e-9, rtol=0, what='transform of {} points, padding {}'.format(n, pad))
            # superposition
            w = np.cos(np.arange(n) * 1.7)
            ctx.close(kk_trans(v, v + 3 * w, *args), mat @ (3 * w), atol=1e-9, what='superposition')
            ctx.obs(mat)
            ctx.trace()
    elif case['kind'] == 'trapz':
        n = case['n']
        for v0, step in ((-1., .1), (0., .005), (-7., 3.)):
            v = v0 + step * np.arange(n)
            mat = np.empty((n, n))
            ctx.close(kk_trans_trapz(v, v), np.zeros(n), atol=1e-9, what='trapezoidal transform of i=v')
            for k in range(n):
                e = np.zeros(n)
                e[k] = 1.
                i = v + e
                kv, ki = v.copy(), i.copy()
                mat[:, k] = kk_trans_trapz(v, i)
                ctx.same(v, kv, 'voltages of the caller')
                ctx.same(i, ki, 'currents of the caller')
                ctx.edge()
                ctx.state('trapz', n, v0, k)
            exp = np.zeros((n, n))
            for a in range(n):
                idx = [k for k in range(n) if k != a]
                for s, t in zip(idx[:-1], idx[1:]):
                    h = (v[t] - v[s]) / 2 / np.pi
                    exp[a, s] += h / (v[s] - v[a])
                    exp[a, t] += h / (v[t] - v[a])
            ctx.close(mat, exp, atol=1e-9, rtol=1e-9, what='trapezoidal transform of {} points'.format(n))
            ctx.obs(mat)
            ctx.trace()
    elif case['kind'] == 'large':
        from scipy.signal import fftconvolve
        n = case['n']
        v = np.linspace(-35, 35, n)
        f = np.exp(-v ** 2 / 30) * (1 + .3 * np.sin(2 * v)) + .2 * np.cos(np.arange(n) * 2.3)
        d = np.arange(-n + 1, n)
        for pad in (1, 2, 7, 20, 50, None) if not ctx.thorough else (1, 2, 3, 7, 10, 20, 33, 50, 100, None):
            total = n * (50 if pad is None else pad)
            with np.errstate(all='ignore'):
                if total % 2 == 0:
                    h = np.where(d % 2 == 1, 2. / total / np.tan(np.pi * d / total), 0.)
                else:
                    h = (1 / np.tan(np.pi * d / total) - np.where(d % 2, -1., 1.) / np.sin(np.pi * d / total)) / total
            h[n - 1] = 0
            want = -fftconvolve(f, h)[n - 1:2 * n - 1]
            got = kk_trans(v, v + f, *(() if pad is None else (pad,)))
            ctx.close(got, want, atol=1e-9, rtol=0, what='transform of {} points, padding {}'.format(n, pad))
            ctx.state('large', n, pad)
            ctx.edge()
            ctx.obs(got)
            ctx.trace()
    elif case['kind'] == 'uneven':
        n = case['n']
        v = np.linspace(-1, 1, n)
        i = v ** 3
        for f, name in ((kk_trans, 'kk_trans'), (kk_trans_trapz, 'kk_trans_trapz')):
            f(v, i)
            for k, d in itertools.product(range(n), (1e-3, -1e-3, .02, -.02)):
                bad = v.copy()
                bad[k] += d
                ctx.state(name, n, k, d)
                ctx.edge()
                ctx.raises(AssertionError, lambda: f(bad, i), '{}: sample {} displaced by {}'.format(name, k, d))
            for k in range(1, n - 1):
                if k != 0:
                    ctx.raises(AssertionError, lambda: f(np.delete(v, k), np.delete(i, k)), '{}: sample {} missing'.format(name, k))
            # rounding errors are tolerated
            f(v + 1e-8 * np.cos(np.arange(n)), i)
            ctx.raises(AssertionError, lambda: f(np.geomspace(.1, 5, n), i), name + ': geometric spacing')
            ctx.trace()
    else:
        c = case['curve']
        v = np.linspace(-35, 35, 14001)
        av = np.abs(v)
        with np.errstate(all='ignore'):
            curves = {'perfect': np.where(av > 1 + 1e-9, v, np.where(av < 1 - 1e-9, 0, .5 * v)),
                      'poly': np.where(v == 0, 0, v / (1 + av ** -80.)), 'exp': v / (1 + np.exp(-60 * (av - 1))),
                      'soft': v * (1 - np.exp(-v ** 2)), 'parity': v + np.exp(-v ** 2 * 9), 'decoupled': v + v * np.exp(-v ** 2)}
        i = curves[c]
        kk = kk_trans(v, i)
        x = np.r_[np.arange(-12, 12, .31), np.arange(-1.4, 1.4, .043)] + .0025
        for t in x:
            if c == 'perfect' and abs(abs(t) - 1) < .02:
                continue
            ctx.state(c, float(t))
            ctx.edge()
            ctx.close(np.interp(t, v, kk), kk_exact(v, i, t), atol=2e-3, rtol=0, what='{}: transform at {}'.format(c, t))
        if c == 'perfect':
            from qmix.mathfn.ivcurve_models import perfect_kk
            ok = (np.abs(av - 1) > .05) & (av < 20)
            ctx.close(kk[ok], perfect_kk(v[ok]), atol=1.5e-3, rtol=0, what='analytic transform of the perfect curve')
        if c == 'parity':
            ctx.close(kk, -kk[::-1], atol=1e-4, rtol=0, what='even curve has an odd transform')
        else:
            ctx.close(kk, kk[::-1], atol=1e-4, rtol=0, what='odd curve has an even transform')
        # the two transforms agree
        s = slice(5000, 9001, 20)
        vs = v[s]
        slow, fast = kk_trans_trapz(vs, i[s]), kk_trans(vs, i[s])
        mid = (np.abs(np.abs(vs) - 1) > .5) & (np.abs(vs) < 6)
        ctx.close(slow[mid], fast[mid], atol=4e-2, rtol=0, what=c + ': trapezoidal against Hilbert transform')
        ctx.obs(kk[::200])
        ctx.trace()
