"""C12: response functions represent the curve they were built from.

State graph: constructor calls (data set x sampling x keyword alphabets) and
construction histories (sequences of constructions with the caller's data
changed in between).
"""

import itertools

import numpy as np

from mc import lib

MODEL = 'piecewise linear reading of the given data, slope 1 above vlimit, discrete Gaussian smearing on the 5e-3 grid'
BOUNDS = {'quick': '4 data sets x 4 samplings x 4 limits x 3 keyword sets; 5 smearing widths x 8 curves and spacings; all construction histories '
                   'of length <= 3 over 9 constructors', 'thorough': 'histories of length 4'}

STEP = .005


def data(name, v):
    av = np.abs(v)
    with np.errstate(all='ignore'):
        if name == 'poly':
            i = av / (1 + av ** (-80.))
        elif name == 'leaky':
            i = av / (1 + av ** (-60.)) + .05 * av
        elif name == 'smooth':
            i = np.sqrt(av ** 2 + 1) - 1
        elif name == 'low':
            i = .97 * av / (1 + av ** (-100.)) + .01 * av - .02 * np.where(av > 1.1, 1, 0) * (1 - np.exp(-(av - 1.1) * 4))
    return np.where(av == 0, 0, i) * np.sign(v)


SAMPLING = {'fine': np.arange(0, 801) * .0025, 'same grid': np.arange(0, 501) * .005, 'both sides': np.arange(-600, 601) * .0037,
            'long': np.arange(0, 1501) * .004, 'offset grid': np.r_[0, np.arange(1, 400) * .0061 - .0023]}
LIMITS = [None, 1.3, 1.8, 2.5]


def cases(tier):
    for d, s in itertools.product(('poly', 'leaky', 'smooth', 'low'), SAMPLING):
        yield {'kind': 'iv', 'data': d, 'sampling': s}
    for w in (.01, .02, .05, .1, .2):
        for m in ('poly', 'exp', 'perfect', 'raw', 'raw 3501 35', 'raw 14001 35', 'raw 4001 10', 'iv'):
            yield {'kind': 'smear', 'width': w, 'model': m}
    yield {'kind': 'reject'}
    for a in sorted(MAKERS):
        yield {'kind': 'history', 'first': a, 'depth': 4 if tier == 'thorough' else 3}
    yield {'kind': 'keywords'}


def prepare(tier):
    pass


def check(case, ctx):
    globals()['check_' + case['kind']](case, ctx)


def reading(v, i, limit, x):
    """What the response function must return at x >= 0."""
    keep = (v >= 0) & (v < limit)
    vv, ii = v[keep], i[keep]
    out = np.interp(x, vv, ii)
    hi = x > vv[-1]
    out[hi] = ii[-1] + (x[hi] - vv[-1])
    return out


def check_iv(case, ctx):
    from qmix.respfn import RespFnFromIVData
    v = SAMPLING[case['sampling']]
    i = data(case['data'], v)
    keep_v, keep_i = v.copy(), i.copy()
    x = np.arange(0, 6000) * STEP       # the nodes of the response function's own table
    for limit, kw in itertools.product(LIMITS, (dict(), dict(spline_order=1), dict(max_npts_dc=151, max_npts_kk=201))):
        k = dict(kw, verbose=False)
        if limit is not None:
            k['vlimit'] = limit
        r = RespFnFromIVData(v, i, **k)
        ctx.state(case['data'], case['sampling'], limit, repr(kw))
        ctx.edge()
        ctx.same(v, keep_v, 'voltage data of the caller')
        ctx.same(i, keep_i, 'current data of the caller')
        exp = reading(v, i, 1.8 if limit is None else limit, x)
        ctx.close(np.interp(x, r.voltage, r.current), exp, atol=2e-9, rtol=0, what='{} vlimit={}: tabulated current'.format(case, limit))
        # interpolation of the table: rings a little where the data have a kink
        tol = 2.5e-3 if case['data'] in ('poly', 'smooth') else 8e-3
        if 'spline_order' in kw:
            tol = 1.5e-2
        ctx.close(r.idc(x), exp, atol=tol, rtol=0, what='{} vlimit={}: idc'.format(case, limit))
        ctx.close(r.idc(-x), -exp, atol=tol, rtol=0, what='{} vlimit={}: idc'.format(case, limit))
        ctx.close(r.voltage, np.arange(-7000, 7001) * STEP, atol=1e-9, what='voltage table')
        ctx.obs(r.idc(x[::100]))
        ctx.trace()


def gauss(y, width, step):
    """Discrete Gaussian average (kernel up to 3 standard deviations), reflecting the ends."""
    n = int(3 * width / step + 1e-5)
    k = np.exp(-.5 * (np.arange(-n, n + 1) * step / width) ** 2)
    k /= k.sum()
    pad = np.r_[y[n:0:-1], y, y[-2:-n - 2:-1]]
    return np.array([np.dot(k, pad[j:j + 2 * n + 1]) for j in range(len(y))])


def check_smear(case, ctx):
    from qmix import respfn as rf
    w, m = case['width'], case['model']
    v = np.linspace(0, 35, 7001)
    if ' ' in m:                        # data with their own spacing
        m, n, top = m.split()
        v = np.linspace(0, int(top), int(n))
    step = v[1]
    kw = dict(v_smear=w, verbose=False)
    if m == 'poly':
        a, b = rf.RespFnPolynomial(40, verbose=False), rf.RespFnPolynomial(40, **kw)
    elif m == 'exp':
        a, b = rf.RespFnExponential(verbose=False), rf.RespFnExponential(**kw)
    elif m == 'perfect':
        a, b = rf.RespFnPerfect(verbose=False), rf.RespFnPerfect(**kw)
    elif m == 'raw':
        a, b = rf.RespFn(v, data('leaky', v), verbose=False), rf.RespFn(v, data('leaky', v), **kw)
    else:
        s = SAMPLING['fine']
        a, b = rf.RespFnFromIVData(s, data('poly', s), verbose=False), rf.RespFnFromIVData(s, data('poly', s), **kw)
    y = a.current - a.voltage
    exp = gauss(y, w, step) + a.voltage
    ctx.state(w, m)
    ctx.edge()
    mid = np.abs(a.voltage) < .8 * v[-1]
    ctx.close(a.voltage, np.r_[-v[:0:-1], v], atol=1e-9, what='voltage table')
    ctx.close(b.voltage, a.voltage, atol=1e-12, what='voltages')
    ctx.close(b.current[mid], exp[mid], atol=1e-7, rtol=0, what='{} smeared by {}'.format(m, w))
    x = np.arange(-5000, 5001) * STEP
    x = x[np.abs(x) < .8 * v[-1]]
    ctx.close(b.idc(x), np.interp(x, a.voltage, exp), atol=1e-3 if step <= STEP else 6e-3, rtol=0, what='{} smeared by {}: idc'.format(case['model'], w))
    # smearing keeps the total current and is reversible in sign
    ctx.close(b.current, -b.current[::-1], atol=1e-9, what='{} smeared by {}: symmetry'.format(m, w))
    ctx.true(np.max(np.abs(b.current[mid] - a.current[mid])) > 1e-3, '{}: smearing by {} did nothing', m, w)
    # no smearing is the same as leaving the keyword out
    none = {'poly': lambda: rf.RespFnPolynomial(40, v_smear=None, verbose=False),
            'exp': lambda: rf.RespFnExponential(v_smear=None, verbose=False),
            'perfect': lambda: rf.RespFnPerfect(v_smear=None, verbose=False),
            'raw': lambda: rf.RespFn(v, data('leaky', v), v_smear=None, verbose=False),
            'iv': lambda: rf.RespFnFromIVData(SAMPLING['fine'], data('poly', SAMPLING['fine']), v_smear=None, verbose=False)}[m]()
    ctx.close(none.resp(x + .001), a.resp(x + .001), atol=1e-12, what='v_smear=None')
    ctx.obs(b.idc(x[::100]))
    ctx.trace()


def check_reject(case, ctx):
    from qmix.respfn import RespFn
    v = np.linspace(0, 35, 7001)
    for name, vv in (('not from zero', v + 1e-3), ('negative start', v - 35), ('too short', v[v <= 5]),
                     ('uneven', np.r_[v[:2000], v[2001:]])):
        ctx.state(name)
        ctx.edge()
        ctx.raises(AssertionError, lambda: RespFn(vv, data('poly', vv), verbose=False), 'voltage ' + name)
        ctx.trace()
    for n, top in ((2001, 10), (1401, 7), (7001, 35)):
        vv = np.linspace(0, top, n)
        r = RespFn(vv, data('poly', vv), verbose=False)
        ctx.state(n, top)
        ctx.edge()
        ctx.close(r.idc(np.linspace(-4, 4, 301)), data('poly', np.linspace(-4, 4, 301)), atol=2e-3, rtol=0, what='range up to {}'.format(top))
        ctx.trace()


def _mk_iv(store):
    from qmix.respfn import RespFnFromIVData
    v = np.arange(0, 801) * .0025
    i = data('leaky', v)
    store.extend([v, i])
    return RespFnFromIVData(v, i, verbose=False)


def _mk_raw(store):
    from qmix.respfn import RespFn
    v = np.linspace(0, 35, 7001)
    i = data('smooth', v)
    store.extend([v, i])
    return RespFn(v, i, verbose=False)


def _kw(cls, *args, **kw):
    def mk(store):
        from qmix import respfn as rf
        return getattr(rf, cls)(*args, **dict(kw, verbose=False))
    return mk


MAKERS = {'iv': _mk_iv, 'raw': _mk_raw, 'poly30': _kw('RespFnPolynomial', 30), 'poly50': _kw('RespFnPolynomial', 50),
          'poly smear': _kw('RespFnPolynomial', 50, v_smear=.04), 'exp': _kw('RespFnExponential'),
          'exp2': _kw('RespFnExponential', 3e-3, 10., 200., 2e4, spline_order=2), 'perfect': _kw('RespFnPerfect'),
          'poly order': _kw('RespFnPolynomial', 50, spline_order=1, max_npts_dc=41, max_npts_kk=61, kk_n=20)}


def check_history(case, ctx):
    """What was built, and changed, before does not matter; nor what happens afterwards."""
    x = np.linspace(-3, 3, 241) + .00171
    if 'alone' not in _ALONE:
        for name in MAKERS:
            _ALONE[name] = MAKERS[name]([]).resp(x).copy()
        _ALONE['alone'] = True
    for tail in itertools.product(sorted(MAKERS), repeat=case['depth'] - 1):
        if len(set(tail)) < len(tail):
            pass
        built = []
        for name in (case['first'],) + tail:
            store = []
            r = MAKERS[name](store)
            for a in store:             # the caller reuses its arrays
                a[...] = 7.
            out = r.resp(x)
            out[...] = np.nan
            built.append((name, r))
            ctx.edge()
        for name, r in built:
            ctx.close(r.resp(x), _ALONE[name], atol=1e-12, what='{} in the history {}'.format(name, [n for n, _ in built]))
            # the tables belong to this object
            r.voltage[...] = 0
            r.current[...] = 0
        for name, r in built:
            ctx.close(r.resp(x), _ALONE[name], atol=1e-12, what='{} after overwriting tables'.format(name))
        ctx.state([n for n, _ in built])
        ctx.trace()
        ctx.obs(case['first'])


_ALONE = {}


def check_keywords(case, ctx):
    """Keyword arguments are honoured, and do not leak between calls."""
    from qmix import respfn as rf
    x = np.linspace(-3, 3, 1201) + .00171
    for cls, args in (('RespFnPolynomial', (50,)), ('RespFnExponential', ()), ('RespFnPolynomial', (20,))):
        f = getattr(rf, cls)
        base = f(*args, verbose=False)
        # verbosity
        ctx.close(f(*args, verbose=True).resp(x), base.resp(x), atol=0, rtol=0, what='verbose')
        ctx.close(f(*args).resp(x), base.resp(x), atol=0, rtol=0, what='default verbosity')
        # piecewise linear interpolation has no curvature away from the nodes
        lin = f(*args, verbose=False, spline_order=1)
        second = np.abs(lin.idc(x + 1e-4) - 2 * lin.idc(x) + lin.idc(x - 1e-4))
        ctx.true(np.mean(second > 1e-9) < .25, '{}: spline_order=1 is not piecewise linear', cls)
        # more points reduce the error
        err = []
        for n in (21, 81, 401):
            r = f(*args, verbose=False, max_npts_dc=n, max_npts_kk=n)
            err.append(np.abs(r.ikk(r.voltage) - r.current_kk)[np.abs(r.voltage) < 30].max())
            ctx.edge()
            ctx.state(cls, args, n)
        ctx.true(err[0] > err[1] > err[2], '{}: errors {} with 21, 81 and 401 points', cls, err)
        # padding of the transform
        k1, k2 = f(*args, verbose=False, kk_n=2), f(*args, verbose=False, kk_n=100)
        ctx.true(np.max(np.abs(k1.ikk(x) - k2.ikk(x))) > 1e-5, '{}: kk_n has no effect', cls)
        ctx.close(k1.idc(x), k2.idc(x), atol=0, rtol=0, what='kk_n changes the dc current')
        ctx.close(f(*args, verbose=False).resp(x), base.resp(x), atol=0, rtol=0, what='keywords leaked into the next call')
        ctx.obs(err)
        ctx.trace()
    # model parameters reach the curve
    for p in (10, 30, 60):
        r = rf.RespFnPolynomial(p, verbose=False)
        ctx.close(r.idc(x), x / (1 + np.abs(x) ** (-2. * p)), atol=1e-3, rtol=0, what='order {}'.format(p))
    for vgap, rn, rsg, a in itertools.product((2.5e-3, 3e-3), (10., 25.), (200., 900.), (2e4, 5e4)):
        r = rf.RespFnExponential(vgap, rn, rsg, a, verbose=False)
        ctx.state('exp', vgap, rn, rsg, a)
        ctx.edge()
        ctx.close(r.idc(np.array([.3, .6])), np.array([.3, .6]) * rn / rsg, atol=3e-3, rtol=1e-2, what='subgap resistance')
        ctx.close(r.idc(np.array([1.6, 3.])), np.array([1.6, 3.]), atol=2e-3, rtol=1e-3, what='normal resistance')
        ctx.close(rf.RespFnExponential(vgap=vgap, rn=rn, rsg=rsg, agap=a, verbose=False).resp(x), r.resp(x), atol=0, what='keywords')
        # width of the transition
        lo, hi = np.interp([.25 + .5 * rn / rsg, .75], r.idc(x[x > .5]), x[x > .5])
        ctx.true(.3 < (hi - lo) * a * vgap / 2.2 < 3., 'transition width {} for agap {}', hi - lo, a)
        ctx.trace()
