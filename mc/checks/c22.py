"""C22: IF response (noise temperature versus IF frequency).

Every hot/cold spectrum over a small alphabet of powers (normal, equal, below,
very close, huge ratio), in both array layouts and with every combination of
the keyword arguments, against a reference calculation.
"""

import itertools

import numpy as np

MODEL = 'Y-factor in dB; values that are negative or above the limit are set to the limit'
BOUNDS = {'quick': 'all spectra of 1-4 channels over 7 hot-cold differences x 3 levels, 2 layouts, 6 parameter sets',
          'thorough': 'the same to 5 channels, 12 parameter sets'}

DIFF = [1., 0., -2., 4.2, .001, 60., -1e-9]
LEVEL = [-80., 0., 13.5]
PARAMS_ = [{}, {'t_hot': 300.}, {'t_cold': 4.2}, {'ifresp_maxtn': 500.}, {'t_hot': 350., 't_cold': 20., 'ifresp_maxtn': 1e4}, {'ifresp_maxtn': 1e9},
           {'t_hot': 295.5, 't_cold': 77.}, {'ifresp_maxtn': 30.}, {'t_cold': 0.}, {'t_hot': 80.}, {'t_hot': 1000., 'ifresp_maxtn': 200.}, {'comment': 'x', 'freq': 230.}]


def cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for first in range(len(DIFF)):
            yield {'n': n, 'first': first}
    yield {'n': 0}
    yield {'n': -1}


# noise temperatures (K) of good and bad receivers
TN = [1e-3, .5, 3., 20., 38.9, 60., 150., 1200., 4e4, 9e5]


def weight(case):
    return case['n']


def check(case, ctx):
    from qmix.exp.if_response import if_response
    n = case['n']
    if n == -1:
        # receivers with a known noise temperature
        for tns in itertools.permutations(TN, 3 if ctx.thorough else 2):
            for th, tc, db, gain in itertools.product((293., 300.), (0., 4.2, 77., 80.), (-120., -60., 0., 33.), (1., 1e-6)):
                tn = np.array(tns)
                hot, cold = (10 * np.log10(gain * (t + tn)) + db for t in (th, tc))
                out = if_response(np.vstack((np.arange(1., len(tn) + 1), hot, cold)).T.copy(), t_hot=th, t_cold=tc)
                ctx.close(out[1], tn, atol=1e-6, rtol=1e-6 + 1e-10 * tn.max(), what='noise temperatures {} from {}/{} K loads, {} dB'.format(tns, th, tc, db))
                ctx.state(tns, th, tc, db, gain)
                ctx.edge()
                ctx.obs(out[1])
        ctx.trace()
        return
    if n == 0:
        for bad in ([[1., 2., 3.]], None, 'spectrum.txt', ((1., 2., 3.),)):
            ctx.raises(ValueError, lambda: if_response(bad), 'input {!r}'.format(bad))
            ctx.edge()
            ctx.state(str(bad))
        for shape in ((5,), (2, 2), (2, 4), (4, 4), (1, 3, 3), (5, 2), (2, 5)):
            ctx.raises(AssertionError, lambda: if_response(np.ones(shape)), 'shape {}'.format(shape))
            ctx.edge()
            ctx.state(shape)
        ctx.trace()
        return
    params = PARAMS_ if ctx.thorough else PARAMS_[:6]
    for rest in itertools.product(range(len(DIFF)), repeat=n - 1):
        idx = (case['first'],) + rest
        diff = np.array([DIFF[i] for i in idx])
        for level, kw in itertools.product(LEVEL, params):
            if n >= 4 and not ctx.thorough and (sum(idx) + len(kw)) % 3:
                # quick tier: every spectrum, a third of the parameter sets each
                continue
            f = 1. + np.arange(n)[::-1] * .5
            cold = level + .3 * np.arange(n)
            hot = cold + diff
            th, tc, lim = kw.get('t_hot', 293.), kw.get('t_cold', 78.), kw.get('ifresp_maxtn', 1e6)
            # actual difference of the stored numbers
            y = 10 ** ((hot - cold) / 10)
            exp = np.empty(n)
            for k in range(n):
                if y[k] <= 1:
                    exp[k] = min((th - tc) / 1e-6, lim)     # no sensitivity: as bad as possible
                else:
                    t = (th - tc * y[k]) / (y[k] - 1)
                    exp[k] = lim if t < 0 or t > lim else t
            for layout in ('columns', 'rows', 'frozen'):
                arr = np.vstack((f, hot, cold)).T
                if layout == 'rows':
                    if n == 3:
                        continue    # 3 x 3 is read as columns
                    arr = arr.T
                arr = arr.copy()
                keep = arr.copy()
                if layout == 'frozen':
                    arr.setflags(write=False)
                user = dict(kw)
                out = if_response(arr, **kw)
                tag = 'diff {} level {} {} {}'.format(diff.tolist(), level, kw, layout)
                ctx.true(np.shape(out) == (4, n), '{}: shape {}', tag, np.shape(out))
                ctx.close(out[0], f, atol=0, rtol=0, what=tag + ' frequency')
                ctx.close(out[2], hot, atol=0, rtol=0, what=tag + ' hot power')
                ctx.close(out[3], cold, atol=0, rtol=0, what=tag + ' cold power')
                for k in range(n):
                    if diff[k] in (.001, -1e-9, 0.) or y[k] <= 1 + 1e-6:
                        # ill-conditioned: only that it is as bad as it must be
                        ctx.true(out[1][k] >= min(.9 * exp[k], lim) and out[1][k] <= lim, '{}: noise temperature {} instead of {}', tag, out[1][k], exp[k])
                    else:
                        ctx.close(out[1][k], exp[k], atol=1e-7, rtol=1e-9, what=tag + ' noise temperature')
                ctx.true(np.all((out[1] >= 0) & (out[1] <= lim)), '{}: out of range: {}', tag, out[1])
                ctx.same(arr, keep, 'data of the caller')
                ctx.true(kw == user, 'keywords changed')
                ctx.state(idx, level, tuple(sorted(kw.items())), layout)
                ctx.edge()
                ctx.obs(out[1])
    ctx.trace()
