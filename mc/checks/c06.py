"""C06: harmonic balance returns the voltages that it says it returns.

State graph: (circuit, solver state) where the solver state is the junction
voltage; transitions are Newton iterations, reached through every split of the
iteration budget, every damping value, output mode and starting point in the
bounds.  Every returned voltage is put into the circuit equation with currents
from the independent torus model.
"""

import itertools

import numpy as np

from mc import lib
from mc.models import mtsda

MODEL = 'circuit equation vt - zt*i(vj) - vj with i from the torus model; memoryless iteration (budget a+b = a then b)'
BOUNDS = {'quick': '18 circuits (1-4 tones, 1-3 harmonics, zero, tiny, large, reactive and complex impedances, zero sources), all splits of <= 4 '
                   'iterations, 4 error targets, 3 modes, 3 dampings, 4 starting points, every single-signal error; one unfinished point at every place among 150-2001; weak signals down to 1e-9; voltages that are no numbers',
          'thorough': 'all splits of <= 6 iterations, more bias points and drive levels'}

# freq, num_p, vt[f][p], zt[f][p], num_b
CIRC = {
    '1': ([.3], 1, [[.5]], [[.3 - .1j]], 10),
    '1big': ([.3], 1, [[1.1]], [[.8 + .4j]], 12),
    '1r': ([.45], 1, [[.3]], [[1.2]], 9),
    '1x': ([.3], 1, [[.45]], [[.35j]], 10),
    '1xm': ([.42], 1, [[.45j]], [[-.3j]], 10),
    '1t': ([.3], 1, [[.45]], [[1e-3 - 5e-4j]], 10),
    '1l': ([.3], 1, [[8.]], [[20. + 5j]], 10),
    '2x': ([.3, .34], 1, [[.4], [.05j]], [[.3j], [-.4j]], (9, 5)),
    '1h': ([.3], 2, [[.45, .05]], [[.3 - .1j, .2 + .3j]], 10),
    '1h0': ([.3], 2, [[.45, 0]], [[.3 - .1j, .2 + .3j]], 10),
    '1z': ([.3], 2, [[.45, .08j]], [[.4, 0]], 10),
    '1hhh': ([.24], 3, [[.35, .02, 0]], [[.3, .1 - .2j, .4]], 10),
    '2': ([.3, .34], 1, [[.5], [.05]], [[.3 - .1j], [.25 + .1j]], (10, 5)),
    '2z': ([.3, .34], 1, [[.4], [.05]], [[0], [.3]], (9, 5)),
    '2n': ([.3, .04], 1, [[.45], [0]], [[.3], [.5 + .2j]], (10, 9)),
    '2h': ([.3, .35], 2, [[.35, .02], [.05, 0]], [[.3, .2j], [.3, .1]], (8, 5)),
    '3': ([.35, .31, .04], 1, [[.4], [.02], [0]], [[.3 - .1j], [.3 - .1j], [1.]], (7, 4, 6)),
    '4': ([.35, .31, .27, .04], 1, [[.3], [.02], [.01], [.002]], [[.3], [.2], [.3j + .1], [1.]], (5, 3, 3, 3)),
}
VB = [.45137, .82291, 1.17293]
TOL = {'4': 3e-5, '3': 3e-5, '2n': 1e-6, '2h': 1e-6}


def cases(tier):
    for name in CIRC:
        kinds = ['solve', 'path', 'start', 'hberr']
        if name == '4':
            kinds = ['solve']
        for k in kinds:
            yield {'kind': k, 'circuit': name}
    for name, n in (('1', 150), ('1h', 150), ('2', 150), ('1', 401), ('2n', 400), ('1', 1501), ('2', 2001)):
        yield {'kind': 'many', 'circuit': name, 'npts': n}
    for name in ('2', '2h', '3'):
        yield {'kind': 'weak', 'circuit': name}
    for name in ('1', '1h', '2'):
        yield {'kind': 'nan', 'circuit': name}
    for nf, num_p in itertools.product((1, 2, 3, 4), (1, 2)):
        yield {'kind': 'zero', 'nf': nf, 'num_p': num_p}


def weight(case):
    n = len(CIRC[case['circuit']][0]) if 'circuit' in case else 1
    return 8 ** n * {'path': 3, 'solve': 2}.get(case['kind'], 1)


def prepare(tier):
    lib.resp('poly:50'), lib.resp('exp')


def build(name, vb=VB, scale=1.):
    freqs, num_p, vt, zt, num_b = CIRC[name]
    cct = lib.circuit(freqs, num_p, vb)
    for f, p in itertools.product(range(len(freqs)), range(num_p)):
        cct.vt[f + 1, p + 1] = vt[f][p] * scale
        cct.zt[f + 1, p + 1] = zt[f][p]
    return cct, num_b


def ref_residual(cct, rs, vj):
    """|vt - zt i - vj| for every signal (torus model)."""
    freqs = [float(f) for f in cct.freq[1:]]
    npts = [64 if len(freqs) < 3 else 32] * len(freqs)
    if len(freqs) == 4:
        npts = [20, 12, 12, 12]
    err = np.zeros((cct.num_f, cct.num_p, cct.vb_npts))
    f_out = [f * p for f in freqs for p in range(1, cct.num_p + 1)]
    volts = [[vj[f, p, :] for p in range(1, cct.num_p + 1)] for f in range(1, cct.num_f + 1)]
    cur = mtsda.current(freqs, volts, cct.vb, rs, cct.num_p, f_out, npts)
    cur = cur.reshape((cct.num_f, cct.num_p, -1))
    return np.abs(cct.vt[1:, 1:, None] - cct.zt[1:, 1:, None] * cur - vj[1:, 1:])


def check_claim(ctx, cct, rs, vj, stop, conv, mask, tol, what):
    """converged flag and mask against the residual of the returned voltages."""
    res = ref_residual(cct, rs, vj)
    mag = np.abs(vj[1:, 1:])
    slack = 2e-10 + tol
    sure_good = np.all(res <= stop * mag * (1 - 1e-3) - slack)
    sure_bad = np.any(res > stop * mag * (1 + 1e-3) + slack)
    if conv is not None:
        ctx.true(not (conv and sure_bad), '{}: reported as converged, but the residual is {:.3g} times the target',
                 what, float(np.max(res / (stop * mag + slack))))
        ctx.true(not (not conv and sure_good), '{}: reported as not converged, but it is', what)
        ctx.true(conv in (True, False), '{}: converged flag is {!r}', what, conv)
    if mask is not None:
        ctx.true(mask.shape == (cct.vb_npts,) and mask.dtype == bool, '{}: mask of shape {}', what, mask.shape)
        bad = np.any(res > stop * mag * (1 + 1e-3) + slack, axis=(0, 1))
        good = np.all(res < stop * mag * (1 - 1e-3) - slack, axis=(0, 1))
        ctx.true(not np.any(bad & mask), '{}: mask {} marks unfinished points as finished', what, mask)
        ctx.true(not np.any(good & ~mask), '{}: mask {} marks finished points as unfinished', what, mask)
    edge = np.zeros_like(vj)
    edge[1:, 1:] = vj[1:, 1:]
    ctx.true(np.array_equal(edge, vj), '{}: entries of tone 0 or harmonic 0 are not zero', what)
    return res


def check(case, ctx):
    from qmix.harmonic_balance import check_hb_error, harmonic_balance
    if case['kind'] == 'zero':
        return check_zero(case, ctx)
    if case['kind'] == 'many':
        return check_many(case, ctx)
    if case['kind'] == 'weak':
        return check_weak(case, ctx)
    if case['kind'] == 'nan':
        return check_nan(case, ctx)
    name = case['circuit']
    rs = lib.resp('poly:50')
    tol = TOL.get(name, 1e-7)
    nf = len(CIRC[name][0])

    if case['kind'] == 'solve':
        vbs = [VB] if nf > 2 else [VB, VB[::-1], [.82291], list(np.linspace(.31, 1.53, 5))]
        stops = [.1, 1e-2, 1e-3, 1e-5] if nf < 4 else [1e-2]
        if name in ('3', '4'):
            stops = stops[:3]
        scales = [1., .3] if nf < 3 else [1.]
        if ctx.thorough:
            scales = [1., .6, .3, .05]
        for vb, stop, scale, rn in itertools.product(vbs, stops, scales, ['poly:50', 'exp'] if nf < 2 else ['poly:50']):
            rs = lib.resp(rn)
            cct, num_b = build(name, vb, scale)
            what = '{} vb={} stop={} scale={} {}'.format(name, np.round(vb, 3), stop, scale, rn)
            kw = dict(num_b=num_b, stop_rerror=stop, verbose=False, max_it=12)
            vj, it, conv = harmonic_balance(cct, rs, mode='x', **kw)
            ctx.state(name, tuple(vb), stop, scale, rn)
            ctx.edge()
            ctx.true(vj.shape == (cct.num_f + 1, cct.num_p + 1, len(vb)), 'vj has shape {}', vj.shape)
            ctx.true(bool(conv), '{}: did not converge in 12 iterations', what)
            ctx.true(0 <= it <= 12, '{}: {} iterations', what, it)
            check_claim(ctx, cct, rs, vj, stop, conv, None, tol, what)
            ctx.close(harmonic_balance(cct, rs, mode='o', **kw), vj, atol=1e-12, rtol=0, what=what + " mode 'o'")
            ctx.close(harmonic_balance(cct, rs, **kw), vj, atol=1e-12, rtol=0, what=what + ' default mode')
            vm, mask = harmonic_balance(cct, rs, mode='m', **kw)
            ctx.close(vm, vj, atol=1e-12, rtol=0, what=what + " mode 'm'")
            check_claim(ctx, cct, rs, vm, stop, None, mask, tol, what)
            # start from the solution: nothing left to do
            vw, itw, convw = harmonic_balance(cct, rs, mode='x', vj_initial=vj, **kw)
            ctx.true(itw == 0 and convw, '{}: warm start took {} iterations, converged: {}', what, itw, convw)
            ctx.close(vw, vj, atol=0, rtol=0, what=what + ' warm start')
            check_hb_error(vj, cct, rs, num_b=num_b, stop_rerror=stop * 1.0001)
            ctx.obs(vj)
            ctx.trace()

    elif case['kind'] == 'path':
        depth = (6 if ctx.thorough else 4) if nf < 3 else 2
        cct, num_b = build(name)
        kw = dict(num_b=num_b, stop_rerror=1e-14, verbose=False)
        for damp in (1., .5, .8):
            # state k: voltages after k iterations
            chain = []
            for k in range(depth + 1):
                vj, it, conv = harmonic_balance(cct, rs, max_it=k, damp_coeff=damp, mode='x', **kw)
                what = '{} after {} iteration(s) (damping {})'.format(name, k, damp)
                ctx.state(name, damp, k)
                ctx.edge()
                ctx.true(it <= k and (conv or it == k), '{}: {} iterations reported', what, it)
                check_claim(ctx, cct, rs, vj, 1e-14, conv, None, tol, what)
                chain.append(vj)
                ctx.obs(vj)
                # the same voltages whatever the target; flags per target
                for stop in (.3, .03, 1e-3, 1e-5):
                    v2, it2, c2 = harmonic_balance(cct, rs, max_it=k, damp_coeff=damp, mode='x',
                                                   **dict(kw, stop_rerror=stop))
                    ctx.edge()
                    ctx.true(it2 <= k and (bool(c2) or it2 == k), '{} target {}: {} iterations, converged {}', what,
                             stop, it2, c2)
                    ctx.close(v2, chain[it2], atol=1e-12, rtol=0, what=what + ', target {}'.format(stop))
                    check_claim(ctx, cct, rs, v2, stop, c2, None, tol, what)
                    v3, mask = harmonic_balance(cct, rs, max_it=k, damp_coeff=damp, mode='m',
                                                **dict(kw, stop_rerror=stop))
                    ctx.close(v3, v2, atol=1e-12, rtol=0, what=what + ', mode m')
                    check_claim(ctx, cct, rs, v3, stop, None, mask, tol, what)
                    ctx.true(bool(c2) == bool(np.all(mask)), '{} target {}: converged {} but mask {}', what, stop, c2,
                             mask)
            for a in range(depth + 1):
                for b in range(1, depth + 1 - a):
                    vj = harmonic_balance(cct, rs, max_it=b, damp_coeff=damp, vj_initial=chain[a], **kw)
                    ctx.edge()
                    ctx.close(vj, chain[a + b], atol=1e-10, rtol=1e-10,
                              what='{}: {} iterations, then {} more'.format(name, a, b))
                    ctx.trace()
            # every bias point follows its own path
            for sel in ([0], [1], [2], [2, 0], [1, 1]):
                sub, _ = build(name, [VB[i] for i in sel])
                vj = harmonic_balance(sub, rs, max_it=2, damp_coeff=damp, **kw)
                ctx.edge()
                ctx.close(vj, chain[2][:, :, sel], atol=1e-10, rtol=1e-10, what='{}: bias points {} on their own'.format(
                    name, sel))
        # damping scales the correction
        v0 = harmonic_balance(cct, rs, max_it=0, **kw)
        v1 = harmonic_balance(cct, rs, max_it=1, **kw)
        for damp in (.1, .25, .5, .75, .9):
            vd = harmonic_balance(cct, rs, max_it=1, damp_coeff=damp, **kw)
            ctx.edge()
            ctx.close(vd, v0 + damp * (v1 - v0), atol=1e-11, rtol=1e-9, what='{}: correction damped by {}'.format(
                name, damp))
            ctx.trace()

    elif case['kind'] == 'start':
        cct, num_b = build(name)
        kw = dict(num_b=num_b, stop_rerror=1e-7, verbose=False, max_it=25, mode='x')
        if nf == 3:
            kw.update(stop_rerror=1e-4)
        base, _, conv = harmonic_balance(cct, rs, **kw)
        ctx.true(bool(conv), '{}: did not converge', name)
        ctx.obs(base)
        check_claim(ctx, cct, rs, base, kw['stop_rerror'], conv, None, tol, name)
        starts = {'close': base * 1.02, 'shifted': base + .01j, 'small': base * .7, 'one point': np.where(
            np.arange(len(VB)) == 1, base * .9, base)}
        for (k, st), form in itertools.product(starts.items(), ('array', 'fortran', 'readonly')):
            st = np.array(st)
            st[0] = 0
            st[:, 0] = 0
            given = {'array': st, 'fortran': np.asfortranarray(st), 'readonly': st.copy()}[form]
            if form == 'readonly':
                given.flags.writeable = False
            keep = given.copy()
            vj, it, conv = harmonic_balance(cct, rs, vj_initial=given, **kw)
            ctx.state(name, k, form)
            ctx.edge()
            ctx.true(bool(conv), '{}: did not converge from the start "{}"', name, k)
            ctx.close(vj, base, atol=kw['stop_rerror'] * 30, rtol=0, what='{}: solution from the start "{}"'.format(name, k))
            ctx.true(np.array_equal(given, keep), '{}: initial guess was changed', name)
            v0, it0, _ = harmonic_balance(cct, rs, vj_initial=given, **dict(kw, max_it=0))
            ctx.close(v0, keep, atol=0, rtol=0, what='{}: no iteration'.format(name))
            ctx.true(it0 == 0, '{}: {} iterations for max_it=0', name, it0)
            ctx.trace()
        for zj in (.2, .67, 2.):
            vj, it, conv = harmonic_balance(cct, rs, zj_guess=zj, **kw)
            if conv:
                ctx.close(vj, base, atol=kw['stop_rerror'] * 30, rtol=0, what='{}: solution for zj_guess={}'.format(
                    name, zj))
            ctx.edge()
            ctx.trace()

    elif case['kind'] == 'hberr':
        cct, num_b = build(name)
        vj, _, conv = harmonic_balance(cct, rs, num_b=num_b, stop_rerror=1e-6 if nf < 3 else 1e-4, verbose=False, max_it=25,
                                       mode='x')
        ctx.true(bool(conv), '{}: did not converge', name)
        check_hb_error(vj, cct, rs, num_b=num_b)
        check_hb_error(vj, cct, rs, num_b, .01)
        # every single wrong entry must be noticed, and none that is small enough
        for f, p, i in itertools.product(range(1, cct.num_f + 1), range(1, cct.num_p + 1), range(len(VB))):
            for fac in (1.03, .9, 1 + .05j):
                bad = vj.copy()
                bad[f, p, i] *= fac
                res = ref_residual(cct, rs, bad)
                mag = np.abs(bad[1:, 1:])
                for stop in (1e-3, 1e-2, .5):
                    ctx.state(name, f, p, i, fac, stop)
                    ctx.edge()
                    what = '{}: tone {} harmonic {} bias point {} off by {} (target {})'.format(name, f, p, i, fac, stop)
                    if np.any(res > stop * mag * 1.001 + 2e-10 + tol):
                        ctx.raises(AssertionError, lambda: check_hb_error(bad, cct, rs, num_b=num_b, stop_rerror=stop),
                                   what)
                    elif np.all(res < stop * mag * .999 - 2e-10 - tol):
                        check_hb_error(bad, cct, rs, num_b=num_b, stop_rerror=stop)
                    ctx.trace()


def check_many(case, ctx):
    """One unfinished point among many is noticed, wherever it is."""
    from qmix.harmonic_balance import check_hb_error, harmonic_balance
    rs = lib.resp('poly:50')
    n = case['npts']
    cct, num_b = build(case['circuit'], np.linspace(.05, 1.6, n))
    kw = dict(num_b=num_b, stop_rerror=1e-4, verbose=False)
    vj, it, conv = harmonic_balance(cct, rs, mode='x', max_it=30, **kw)
    ctx.true(bool(conv), '{} points: not converged', n)
    check_hb_error(vj, cct, rs, num_b=num_b, stop_rerror=1.001e-4)
    step = 1 if n < 200 else n // 23 if not ctx.thorough else 5
    where = sorted(set(range(0, n, step)) | {1, n // 2, n - 2, n - 1})
    for k in where:
        f, p = 1 + k % cct.num_f, 1 + k % cct.num_p
        bad = vj.copy()
        bad[f, p, k] *= [1.02, .99, 1 - .01j][k % 3]
        if ref_one(cct, rs, bad, k) < 2e-4:
            continue
        what = '{}: point {} of {} off (tone {}, harmonic {})'.format(case['circuit'], k, n, f, p)
        out, it, conv = harmonic_balance(cct, rs, mode='x', max_it=0, vj_initial=bad, **kw)
        ctx.true(not conv, '{}: reported as converged', what)
        out, mask = harmonic_balance(cct, rs, mode='m', max_it=0, vj_initial=bad, **kw)
        ctx.true(not mask[k] and mask.sum() == n - 1, '{}: mask marks {} points as unfinished', what, int(np.sum(~mask)))
        ctx.raises(AssertionError, lambda: check_hb_error(bad, cct, rs, num_b=num_b, stop_rerror=1e-4), what)
        out, it, conv = harmonic_balance(cct, rs, mode='x', max_it=20, vj_initial=bad, **kw)
        ctx.true(bool(conv) and it >= 1, '{}: {} iterations, converged: {}', what, it, conv)
        ctx.close(out, vj, atol=1e-3, rtol=0, what=what + ': repaired')
        ctx.state(case['circuit'], n, k)
        ctx.edge(4)
        ctx.trace()
    ctx.obs((n, len(where)))


def check_weak(case, ctx):
    """A weak signal next to a strong one: its voltage is proportional to its source, down to the smallest."""
    from qmix.harmonic_balance import check_hb_error, harmonic_balance
    rs = lib.resp('poly:50')
    ratio = None
    for level in (1e-3, 8e-5, 3e-6, 2e-8, 1e-9) if not ctx.thorough else np.geomspace(1e-3, 5e-10, 25):
        if level < 1e-8 and case['circuit'] == '3':
            continue  # comparable to the replacement of a source of zero
        for phase in (1, -1j):
            cct, num_b = build(case['circuit'])
            strong = harmonic_balance(cct, rs, num_b=num_b, verbose=False)
            cct.vt[2:] = 0
            cct.vt[2, 1] = level * phase
            what = '{}: signal of {}'.format(case['circuit'], level * phase)
            vj, it, conv = harmonic_balance(cct, rs, num_b=num_b, stop_rerror=1e-5, verbose=False, max_it=12, mode='x')
            ctx.true(bool(conv), '{}: not converged', what)
            ctx.true(np.abs(vj[1, 1] - strong[1, 1]).max() < .05, '{}: the strong signal is {}', what, vj[1, 1])
            res = ref_residual(cct, rs, vj)[1, 0]
            mag = np.abs(vj[2, 1])
            ctx.true(np.all(res <= (1e-5 + 3e-4) * mag), '{}: the circuit equation is not met (relative error {:.3g})', what, float(np.max(res / mag)))
            got = vj[2, 1] / cct.vt[2, 1]
            if level < 1e-3:
                if ratio is None:
                    ratio = got
                ctx.close(got, ratio, atol=2e-3, rtol=0, what=what + ': relative to its source')
            check_hb_error(vj, cct, rs, num_b=num_b, stop_rerror=1.001e-5)
            ctx.state(case['circuit'], level, phase)
            ctx.edge()
            ctx.trace()
    ctx.obs(ratio)


def check_nan(case, ctx):
    """Voltages that are no numbers do not satisfy the circuit equation."""
    from qmix.harmonic_balance import check_hb_error, harmonic_balance
    rs = lib.resp('poly:50')
    cct, num_b = build(case['circuit'])
    kw = dict(num_b=num_b, stop_rerror=1e-4, verbose=False)
    vj = harmonic_balance(cct, rs, **kw)
    for f, p, i in itertools.product(range(1, cct.num_f + 1), range(1, cct.num_p + 1), range(len(VB))):
        for value in (np.nan, complex(0, np.nan)):
            bad = vj.copy()
            bad[f, p, i] = value
            what = '{}: tone {} harmonic {} bias point {} is {}'.format(case['circuit'], f, p, i, value)
            for max_it in (0, 2):
                out, it, conv = harmonic_balance(cct, rs, mode='x', max_it=max_it, vj_initial=bad, **kw)
                ctx.true(not conv or np.all(np.isfinite(out)), '{}: reported as converged ({} iterations)', what, max_it)
                out, mask = harmonic_balance(cct, rs, mode='m', max_it=max_it, vj_initial=bad, **kw)
                ctx.true(not mask[i] or np.all(np.isfinite(out)), '{}: reported as finished ({} iterations)', what, max_it)
                others = np.arange(len(VB)) != i
                ctx.true(mask[others].all(), '{}: other bias points are affected: {}', what, mask)
                ctx.close(out[:, :, others], vj[:, :, others], atol=1e-4, rtol=1e-3, what=what + ': other bias points')
            ctx.raises(AssertionError, lambda: check_hb_error(bad, cct, rs, num_b=num_b, stop_rerror=1e-4), what)
            ctx.state(case['circuit'], f, p, i, str(value))
            ctx.edge(4)
            ctx.trace()
    ctx.obs(case['circuit'])


def ref_one(cct, rs, vj, k):
    """Largest relative error of one bias point."""
    one = lib.circuit([float(f) for f in cct.freq[1:]], cct.num_p, cct.vb[k:k + 1])
    one.vt[:], one.zt[:] = cct.vt, cct.zt
    res = ref_residual(one, rs, vj[:, :, k:k + 1])[:, :, 0]
    return np.max(res / (np.abs(vj[1:, 1:, k]) + 1e-6))


def check_zero(case, ctx):
    """No impedance anywhere: the sources are the junction voltages."""
    from qmix.harmonic_balance import harmonic_balance
    nf, num_p = case['nf'], case['num_p']
    rs = lib.resp('poly:50')
    for npts in (1, 4):
        cct = lib.circuit([.3, .34, .27, .05][:nf], num_p, np.linspace(.2, 1.3, npts))
        for f, p in itertools.product(range(1, nf + 1), range(1, num_p + 1)):
            cct.vt[f, p] = .1 * f + .03j * p if (f + p) % 3 else 0
        want = np.zeros((nf + 1, num_p + 1, npts), dtype=complex)
        want[1:, 1:] = cct.vt[1:, 1:, None]
        for mode, max_it, verbose in itertools.product('oxm', (0, 5), (True, False)):
            out = harmonic_balance(cct, rs, num_b=3, mode=mode, max_it=max_it, verbose=verbose)
            ctx.state(nf, num_p, npts, mode, max_it)
            ctx.edge()
            vj = out if mode == 'o' else out[0]
            ctx.close(vj, want, atol=1e-9, rtol=0, what='no impedances: vj')
            if mode == 'x':
                ctx.true(len(out) == 3 and out[1] == 0 and bool(out[2]), 'no impedances: mode x gives {}', out[1:])
            if mode == 'm':
                ctx.true(len(out) == 2 and np.shape(out[1]) == (npts,) and np.all(out[1]), 'no impedances: mask {}', out[1])
            ctx.obs(vj)
            ctx.trace()
