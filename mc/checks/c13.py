"""C13: the I-V curve models.

State graph: (model, parameters, argument form).  Every model is evaluated at
every voltage of an alphabet that contains all its corner points, as Python
and NumPy scalars and in arrays of several shapes, against closed formulas
evaluated with logistic functions that cannot overflow.
"""

import itertools

import numpy as np
from scipy.special import expit

MODEL = 'closed formulas, evaluated one voltage at a time'
BOUNDS = {'quick': '5 models, parameter grids (3-4 values per parameter), 90 voltages incl. all corner points, 9 scalar / array forms, every spelling of the model names',
          'thorough': 'finer parameter grids, 400 voltages'}

CORNER = [0, -0., 1, -1, .5, -.5, 2, -3, 1 - 1e-12, 1 + 1e-12, -1 + 1e-9, -1 - 1e-9, 1e-3, -1e-3, 1e-12, 5, -20, 35, 100.]


def volts(thorough):
    return np.array(CORNER + list(np.linspace(-2.5, 2.5, 311 if thorough else 71)))


def sig(x):
    return float(expit(x))


def perfect(v):
    return v if abs(v) > 1 else (.5 * v if abs(v) == 1 else 0.)


def perfect_kk(v, max_kk=100.):
    if abs(v) == 1:
        return max_kk
    return -(2 + v * (np.log(abs(v - 1)) - np.log(abs(v + 1)))) / np.pi


def polynomial(v, order=50):
    if v == 0:
        return 0.
    e = 2. * order * np.log(abs(v))
    return v * sig(e)


def exponential(v, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed'):
    x = v * vgap
    up, dn = sig(agap * (x - vgap)), sig(-agap * (x + vgap))    # above +gap, below -gap
    if model.lower() in ('fixed', 'corrected'):
        i = x / (2 * rsg) * ((1 - dn) - dn - up + (1 - up)) + x / rn * (dn + up)
    else:
        i = x / rsg * ((1 - dn) + (1 - up)) + x / rn * (dn + up)
    return i / (vgap / rn)


def expanded(v, vgap=2.8e-3, rn=14., rsg=5e2, agap=4e4, a0=1e4, ileak=5e-6, vnot=2.85e-3, inot=1e-5, anot=2e4, ioff=1e-5):
    x = v * vgap
    up, dn = sig(agap * (x - vgap)), sig(-agap * (x + vgap))
    i = ileak * (2 * sig(a0 * x) - 1 - up + dn)
    i += x / (2 * rsg) * ((1 - dn) - dn - up + (1 - up)) + x / rn * (dn + up)
    i += inot * (sig(-anot * (x - vnot)) + sig(-anot * (x + vnot)) - 1)
    i += ioff * ((1 - up) + dn - 1)
    return i / (vgap / rn)


def cases(tier):
    t = tier == 'thorough'
    yield {'model': 'perfect', 'kw': {}}
    for m in (100., 7, 1e4):
        yield {'model': 'perfect_kk', 'kw': {'max_kk': m}}
    yield {'model': 'perfect_kk', 'kw': {}}
    for o in [1, 2, 10, 30., 50, 75.5, 200, 400, 1000]:
        yield {'model': 'polynomial', 'kw': {'order': o}}
    yield {'model': 'polynomial', 'kw': {}}
    grid = dict(vgap=[2.2e-3, 2.8e-3, 3.1e-3], rn=[5., 14, 40.], rsg=[80., 300, 2000.], agap=[1e4, 4e4, 2e5])
    for combo in itertools.product(*grid.values()):
        for m in (None, 'fixed', 'corrected', 'original', 'Original', 'CORRECTED', 'Fixed'):
            if m in ('corrected', 'Original', 'CORRECTED', 'Fixed') and combo[0] != 2.8e-3:
                continue
            kw = dict(zip(grid, combo))
            if m:
                kw['model'] = m
            yield {'model': 'exponential', 'kw': kw}
    yield {'model': 'exponential', 'kw': {}}
    yield {'model': 'expanded', 'kw': {}}
    base = dict(vgap=2.8e-3, rn=14., rsg=5e2, agap=4e4, a0=1e4, ileak=5e-6, vnot=2.85e-3, inot=1e-5, anot=2e4, ioff=1e-5)
    facs = (0., .5, 2.) if not t else (0., .1, .5, 1.1, 2., 10.)
    for (a, b), f, g in itertools.product(itertools.combinations(base, 2), facs, facs):
        if (a in ('vgap', 'rn', 'rsg') and f == 0) or (b in ('vgap', 'rn', 'rsg') and g == 0):
            continue
        yield {'model': 'expanded', 'kw': {a: base[a] * f, b: base[b] * g}}
    yield {'model': 'bad', 'kw': {}}
    yield {'model': 'errstate', 'kw': {}}


def check(case, ctx):
    from qmix.mathfn import ivcurve_models as iv
    name, kw = case['model'], case['kw']
    if name == 'bad':
        for m in ('', 'fix', 'new', 'fixed '):
            ctx.state(m)
            ctx.edge()
            ctx.raises(ValueError, lambda: iv.exponential(np.array([.5]), model=m), 'model {!r}'.format(m))
            ctx.trace()
        return
    if name == 'errstate':
        return check_errstate(ctx, iv)
    f, ref = getattr(iv, name), globals()[name]
    v = volts(ctx.thorough)
    exp = np.array([ref(float(x), **kw) for x in v])
    scale = dict(atol=1e-11, rtol=1e-9)
    if name == 'perfect_kk':
        far = np.abs(v) > 10    # catastrophic cancellation of the closed formula
        scale = dict(atol=1e-9, rtol=1e-7)
        exp = np.where(np.abs(np.abs(v) - 1) < 1e-8, exp, exp)
    forms = {'1d': v, '2d': v.reshape(2, -1), '3d': v[:16].reshape(2, 2, 4), 'strided': v[::3], 'reversed': v[::-1], 'one': v[3:4],
             'fortran': np.asfortranarray(v[:12].reshape(3, 4)), 'empty': v[:0]}
    expd = {'1d': exp, '2d': exp.reshape(2, -1), '3d': exp[:16].reshape(2, 2, 4), 'strided': exp[::3], 'reversed': exp[::-1],
            'one': exp[3:4], 'fortran': exp[:12].reshape(3, 4), 'empty': exp[:0]}
    for k, x in forms.items():
        keep = x.copy()
        got = f(x, **kw)
        ctx.state(name, repr(kw), k)
        ctx.edge(max(1, x.size))
        ctx.same(x, keep, '{}: voltages given by the caller'.format(name))
        ctx.close(got, expd[k], what='{}({}) of {} array'.format(name, kw, k), **scale)
        # a fresh result, not a view of the argument
        got[...] = 9.
        ctx.same(x, keep, '{}: result shares memory with the voltages'.format(name))
        ctx.close(f(x, **kw), expd[k], what='{} second call'.format(name), **scale)
        ctx.trace()
    ints = np.array([-3, -1, 0, 1, 2, 30])
    ctx.close(f(ints, **kw), [ref(float(x), **kw) for x in ints], what='{}({}) of integers'.format(name, kw), **scale)
    for i, x in enumerate(v):
        for mk in (float, np.float64):
            got = f(mk(x), **kw)
            ctx.edge()
            ctx.true(np.ndim(got) == 0, '{} of a number has shape {}', name, np.shape(got))
            ctx.close(got, exp[i], what='{}({}) of {!r}'.format(name, kw, mk(x)), **scale)
        if x == int(x):
            for mk in (int, np.int64):
                ctx.close(f(mk(x), **kw), exp[i], what='{}({}) of {!r}'.format(name, kw, mk(x)), **scale)
    sign = 1 if name == 'perfect_kk' else -1
    sym = f(np.r_[v], **kw)
    ctx.close(f(-v, **kw), sign * sym, what='{}({}) of reversed voltages'.format(name, kw), **scale)
    ctx.obs(exp)
    ctx.trace()


def check_errstate(ctx, iv):
    """The models do not change NumPy's error handling, whatever it is, and warn about nothing."""
    v = np.array([-100., -1, -.5, 0, .5, 1, 100.])
    calls = [lambda: iv.perfect(v), lambda: iv.perfect_kk(v), lambda: iv.polynomial(v, 400), lambda: iv.exponential(v, agap=1e6),
             lambda: iv.exponential(v, agap=1e6, model='original'), lambda: iv.expanded(v, agap=1e6), lambda: iv.perfect(1.)]
    for seq in itertools.product(range(len(calls)), repeat=2):
        for mode in ('warn', 'ignore'):
            with np.errstate(all=mode):
                before = np.geterr()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    for k in seq:
                        out = calls[k]()
                        ctx.true(np.all(np.isfinite(out)), 'model {} is not finite', k)
                ctx.true(np.geterr() == before, 'error handling changed from {} to {}', before, np.geterr())
            ctx.state(seq, mode)
            ctx.edge()
        ctx.trace()
