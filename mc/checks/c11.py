"""C11: a response function is one consistent complex function.

State graph: (response function object, evaluation method, argument form).
Every method is evaluated on every argument form over a voltage grid that
covers the whole range; the methods must agree with each other, with the
tabulated curve and with an independent Kramers-Kronig transform.
"""

import itertools

import numpy as np

from mc import lib
from mc.models.kk import kk_exact

MODEL = 'tabulated curve + exact principal-value KK transform of it; algebraic relations between the methods'
BOUNDS = {'quick': '16 response functions, all 7 methods, 8 argument forms, 2400 voltages in [-30, 30]; the error check '
                   'at 6 limits', 'thorough': '24 response functions, 4 times as many voltages'}

SPECS = ['poly 10', 'poly 20', 'poly 30', 'poly 50', 'poly 80', 'poly 50 order1', 'poly 50 order2', 'poly 50 order4', 'exp 4e4',
         'exp 1e4', 'exp rsg', 'smear .05', 'perfect', 'perfect smear', 'raw', 'iv']
MORE = ['poly 15', 'poly 100', 'poly 150', 'poly 50 order5', 'exp 1e5', 'smear .02', 'smear .1', 'raw coarse']


def make(spec, **kw):
    from qmix import respfn as rf
    from qmix.mathfn import ivcurve_models as iv
    kw = dict(dict(verbose=False), **kw)
    k = spec.split()
    if k[0] == 'poly':
        if len(k) > 2:
            kw['spline_order'] = int(k[2][5:])
        return rf.RespFnPolynomial(int(k[1]), **kw)
    if spec == 'exp rsg':
        return rf.RespFnExponential(vgap=2.6e-3, rn=20., rsg=300., agap=3e4, **kw)
    if k[0] == 'exp':
        return rf.RespFnExponential(agap=float(k[1]), **kw)
    if k[0] == 'smear':
        return rf.RespFnPolynomial(50, v_smear=float(k[1]), **kw)
    if spec == 'perfect':
        return rf.RespFnPerfect(**kw)
    if spec == 'perfect smear':
        return rf.RespFnPerfect(v_smear=.03, **kw)
    if k[0] == 'raw':
        v = np.linspace(0, 35, 7001 if spec == 'raw' else 3501)
        return rf.RespFn(v, .9 * iv.polynomial(v, 40) + .1 * v * (1 - np.exp(-v)), **kw)
    if spec == 'iv':
        v = np.linspace(0, 2, 801)
        return rf.RespFnFromIVData(v, iv.polynomial(v, 45), **kw)
    raise KeyError(spec)


def model(spec):
    """The published curve, where there is one (unsmeared)."""
    k = spec.split()
    if k[0] == 'poly':
        n = int(k[1])
        return lambda v: v * np.where(np.abs(v) < 1, np.abs(v) ** (2. * n) / (1 + np.minimum(np.abs(v), 1) ** (2. * n)),
                                      1 / (1 + np.maximum(np.abs(v), 1) ** (-2. * n)))
    if spec == 'perfect':
        return lambda v: np.where(np.abs(v) > 1, v, np.where(np.abs(v) == 1, .5 * v, 0))
    return None


def cases(tier):
    for s in SPECS + (MORE if tier == 'thorough' else []):
        for kind in ('algebra', 'table', 'errors'):
            if s == 'perfect' and kind == 'errors':
                continue
            yield {'kind': kind, 'spec': s}


def grid(ctx):
    n = 4 if ctx.thorough else 1
    off = .000737
    return np.concatenate([np.linspace(-30, 30, 601 * n) + off, np.linspace(-2, 2, 801 * n) + off,
                           np.linspace(.8, 1.2, 501 * n) + off, np.linspace(-1.2, -.8, 501 * n) + off])


METHODS = ('idc', 'ikk', 'resp', '__call__', 'resp_conj', 'resp_swap', 'didc', 'dikk')


def evaluate(ctx, r, spec, name, v):
    try:
        return getattr(r, name)(v)
    except TypeError as e:
        if spec == 'perfect' and name in ('didc', 'dikk'):
            ctx.fail('RespFnPerfect().{} raises {!r}'.format(name, e), key='perfect-' + name)
            return None
        raise


def check(case, ctx):
    spec = case['spec']
    r = make(spec)
    v = grid(ctx)
    if case['kind'] == 'algebra':
        idc, ikk = r.idc(v), r.ikk(v)
        expect = {'idc': idc, 'ikk': ikk, 'resp': ikk + 1j * idc, '__call__': ikk + 1j * idc,
                  'resp_conj': ikk - 1j * idc, 'resp_swap': idc + 1j * ikk}
        ctx.true(np.all(np.isfinite(idc)) and np.all(np.isfinite(ikk)), '{}: not finite', spec)
        ctx.true(not np.iscomplexobj(idc) and not np.iscomplexobj(ikk), '{}: complex current', spec)
        # derivatives
        h = 1e-6
        for name, f in (('didc', r.idc), ('dikk', r.ikk)):
            d = evaluate(ctx, r, spec, name, v)
            ctx.edge()
            if d is None:
                continue
            expect[name] = d
            slope = (f(v + h) - f(v - h)) / (2 * h)
            curve = np.abs(f(v + 3e-3) - 2 * f(v) + f(v - 3e-3)) / 9e-6
            atol = 2e-4 + 2e-6 * curve
            ok = np.abs(d - slope) <= atol + 1e-4 * np.abs(slope)
            if 'order1' in spec:    # kinks of the piecewise linear curve
                ok |= curve > 1e-3
            ctx.true(np.all(ok), '{}: {} is not the derivative at v={}: {} instead of {}', spec, name, v[~ok][:3], d[~ok][:3],
                     slope[~ok][:3])
            ctx.trace()
        # all argument forms
        part = v[::37]
        forms = {'1d': part, '2d': part[:60].reshape(6, 10), '3d': part[:24].reshape(2, 3, 4), 'reversed': part[::-1],
                 'unsorted': np.r_[part[5:], part[:5]], 'one': part[7:8], 'strided': v[3:200:7], 'fortran': np.asfortranarray(
                     part[:12].reshape(3, 4)), 'empty': v[:0]}
        for (fname, x), m in itertools.product(forms.items(), METHODS):
            if m not in expect:
                continue
            keep = x.copy()
            got = evaluate(ctx, r, spec, m, x)
            ctx.state(spec, fname, m)
            ctx.edge()
            ctx.same(x, keep, '{}.{}: voltages given by the caller'.format(spec, m))
            lookup = np.array([np.flatnonzero(v == t)[0] for t in x.ravel()], dtype=int)
            ctx.close(got, expect[m][lookup].reshape(x.shape), atol=1e-12, rtol=1e-12, what='{}.{} of {} array'.format(
                spec, m, fname))
            ctx.trace()
        # scalars
        for i, m, mk in itertools.product(range(0, len(v), 97), METHODS, (float, np.float64)):
            if m not in expect:
                continue
            got = evaluate(ctx, r, spec, m, mk(v[i]))
            ctx.edge()
            ctx.true(np.ndim(got) == 0, '{}.{} of a number has shape {}', spec, m, np.shape(got))
            ctx.close(got, expect[m][i], atol=1e-12, rtol=1e-12, what='{}.{}({})'.format(spec, m, v[i]))
        # symmetry and limits
        big = np.linspace(25, 34, 91)
        tol = 5e-3 if 'order1' in spec else 1e-3
        ctx.close(r.idc(-v), -idc, atol=tol, rtol=0, what=spec + ': idc(-v) = -idc(v)')
        ctx.close(r.ikk(-v), ikk, atol=tol, rtol=0, what=spec + ': ikk(-v) = ikk(v)')
        # slope one far above the gap
        ctx.close(r.idc(big) - big, np.full(91, r.idc(25.) - 25.), atol=1e-3, rtol=0, what=spec + ': slope above the gap')
        # ... and beyond the tabulated range
        far = np.r_[np.linspace(34.5, 36, 31), np.arange(37., 46., 1)]
        ctx.close(r.idc(far) - far, np.full(far.size, r.idc(25.) - 25.), atol=2e-3, rtol=0, what=spec + ': slope above the table')
        ctx.close(r.idc(-far) + far, np.full(far.size, 25. - r.idc(25.)), atol=2e-3, rtol=0, what=spec + ': slope below the table')
        ctx.true(abs(r.idc(0.)) < 1e-3, '{}: current {} at zero bias', spec, r.idc(0.))
        ctx.obs(idc[::50])
    elif case['kind'] == 'table':
        tol = 5e-3 if 'order1' in spec else 1e-3
        n = len(r.voltage)
        ctx.true(len(r.current) == n and len(r.voltage_kk) == len(r.current_kk), '{}: table sizes', spec)
        ctx.close(r.voltage, -r.voltage[::-1], atol=1e-12, what=spec + ': tabulated voltages')
        ctx.close(r.voltage_kk, r.voltage, atol=1e-12, what=spec + ': tabulated KK voltages')
        ctx.close(r.current, -r.current[::-1], atol=1e-9, what=spec + ': tabulated currents')
        ctx.close(r.current_kk, r.current_kk[::-1], atol=1e-6, what=spec + ': tabulated KK currents')
        inside = np.abs(r.voltage) < 34
        ctx.close(r.idc(r.voltage[inside]), r.current[inside], atol=tol, rtol=0, what=spec + ': idc against its table')
        ctx.close(r.ikk(r.voltage[inside]), r.current_kk[inside], atol=tol, rtol=0, what=spec + ': ikk against its table')
        f = model(spec)
        if f is not None:
            ctx.close(r.idc(v), f(v), atol=tol, rtol=0, what=spec + ': idc against the I-V curve model')
        # KK transform against the exact principal value (between the nodes)
        if spec != 'perfect':
            tv, ti = r.voltage, r.current
        else:
            tv = np.array([-35, -1 - 1e-9, -1 + 1e-9, 1 - 1e-9, 1 + 1e-9, 35])
            ti = np.array([-35, -1, 0, 0, 1, 35])
        for x in np.r_[np.arange(-3, 3, .05), np.arange(-1.05, 1.05, .01), np.arange(-20, 20, 1.)] + .0023:
            if 'perfect' == spec and abs(abs(x) - 1) < .01:
                continue
            want = kk_exact(tv, ti, x)
            ctx.state(spec, float(x))
            ctx.edge()
            ctx.close(r.ikk(x), want, atol=4e-3 if 'order1' not in spec else 8e-3, rtol=2e-2 if abs(abs(x) - 1) < .02 else 0, what='{}: KK transform at {}'.format(spec, x))
            ctx.trace()
        ctx.obs(r.current_kk[::100])
    else:
        # the interpolation error check reports exactly the errors that exceed the limit
        coarse = dict(max_npts_dc=31, max_npts_kk=41)
        for kw in (dict(), coarse, dict(max_npts_kk=31), dict(max_npts_dc=31), dict(spline_order=1)):
            if 'order' in spec and 'spline_order' in kw:
                continue
            r = make(spec, **kw)
            inside = np.abs(r.voltage) < 34 - 1e-9
            e = max(np.abs(r.current - r.idc(r.voltage))[inside].max(), np.abs(r.current_kk - r.ikk(r.voltage))[inside].max())
            for fac in (.3, .9, .999, 1.001, 1.1, 3.):
                ctx.state(spec, repr(kw), fac)
                ctx.edge()
                if fac < 1:
                    ctx.raises(AssertionError, lambda: make(spec, check_error=True, max_interp_error=e * fac, **kw),
                               '{} {}: error {} with limit {}'.format(spec, kw, e, e * fac))
                else:
                    r2 = make(spec, check_error=True, max_interp_error=e * fac, **kw)
                    ctx.close(r2.resp(v), r.resp(v), atol=1e-12, what=spec + ': with the error check')
                # not checked unless asked
                make(spec, max_interp_error=e * fac, **kw)
                ctx.trace()
            # default limit
            if e > 1.01e-3:
                ctx.raises(AssertionError, lambda: make(spec, check_error=True, **kw), spec + ': default limit')
            elif e < .99e-3:
                make(spec, check_error=True, **kw)
            ctx.obs(e)
