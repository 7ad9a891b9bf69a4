"""C18: importing I-V data does not depend on how the data were written down.

One measurement is presented in every way within the bounds (sweep history,
units, NaN rows, repeated rows, read-out gain, memory layout) and imported with
the real code.  All presentations are states of one equivalence class and must
give the same I-V curve; small sweep histories with hysteresis are compared
with the branch that the sweep rule selects.
"""

import itertools

import numpy as np

from mc.models.junction import Junction

MODEL = 'sweep selection (outward branch of the first pass) and linear interpolation; one canonical import per measurement'
BOUNDS = {'quick': 'small sweeps: start {-1,0,1} of 7 levels, both directions, 5 endings, dwell 1-3, NaN row at every position; '
                   'DC and pumped curves: 6 orders x 9 units x NaN/repeat patterns x gains x layouts',
          'thorough': 'the same with 9 and 11 levels, two NaN rows, and every combination for DC and pumped curves'}

VU = {'uV': 1e6, 'mV': 1e3, 'V': 1.}
IU = {'uA': 1e6, 'mA': 1e3, 'A': 1.}
ORDERS = ('sorted', 'reversed', 'up-down', 'up-down-up', 'down-up', 'down-up-down')
NANS = ('none', 'first', 'middle', 'last', 'several')


def cases(tier):
    levels = (3,) if tier == 'quick' else (3, 4, 5)
    for L in levels:
        for start in (-1, 0, 1):
            for up in (1, -1):
                for end in ('extreme', 'partial', 'start', 'twice'):
                    for dwell in (1, 2, 3):
                        yield {'kind': 'sweep', 'L': L, 'start': start, 'up': up, 'end': end, 'dwell': dwell}
        for up in (1, -1):
            for dwell in (1, 2, 3):
                yield {'kind': 'sweep', 'L': L, 'start': 0, 'up': up, 'end': 'one side', 'dwell': dwell}
    for order in ORDERS:
        for vf in VU:
            for i_f in IU:
                yield {'kind': 'dc', 'order': order, 'v_fmt': vf, 'i_fmt': i_f}
                yield {'kind': 'pumped', 'order': order, 'v_fmt': vf, 'i_fmt': i_f}
    yield {'kind': 'reject'}
    yield {'kind': 'ints'}


def metadata(vgap=2.8e-3, rn=14., offset=(0., 0.)):
    from qmix.exp.iv_data import DCIVData
    return DCIVData(vraw=None, iraw=None, vnorm=None, inorm=None, vgap=vgap, igap=vgap / rn, fgap=vgap / 4.13566769e-15,
                    rn=rn, rsg=300., offset=offset, vint=0., rseries=None)


def sweep(L, start, up, end, dwell):
    """The order of the levels, and on which leg (0, 1, 2) each was taken."""
    top, bot = up * L, -up * L

    def leg(a, b):
        s = 1 if b > a else -1
        return list(range(a, b + s, s))

    path = [(x, 0) for x in leg(start, top)]
    path += [(top, 0)] * (dwell - 1)
    if end == 'one side':
        return path + [(x, 2) for x in leg(top, start)[1:]]
    path += [(x, 1) for x in leg(top, bot)[1:]]
    if end != 'extreme':
        path += [(bot, 1)] * (dwell - 1)
        stop = {'start': start, 'partial': bot + (1 if start > bot else -1), 'twice': top}[end]
        path += [(x, 2) for x in leg(bot, stop)[1:]]
        if end == 'twice':
            path += [(x, 3) for x in leg(top, bot)[1:]]
            path += [(x, 4) for x in leg(bot, start)[1:]]
    return path


def branch(x, leg, start, up):
    """Current of the hysteretic model junction (uA)."""
    away = (leg == 0) or (leg == 1 and (x - start) * up < 0)
    base = 10. * x + x ** 3
    if away or x == start:
        return base
    return base + (3. if leg in (1, 2) else 5.)


def check_sweep(case, ctx):
    from qmix.exp.iv_data import iv_curve
    L, start, up = case['L'], case['start'], case['up']
    path = sweep(L, start, up, case['end'], case['dwell'])
    rows = [(float(x), branch(x, leg, start, up)) for x, leg in path]
    dc = metadata()
    lev = np.arange(-L, L + 1)
    if case['end'] == 'one side':
        lev = lev[lev * up >= 0]
    exp_i = 10. * lev + lev ** 3.
    vmax, npts = (L - .1) * 1e-3, 2 * (10 * L - 1) + 1
    grid = np.linspace(-vmax, vmax, npts)
    exp = np.interp(grid * 1e3, lev, exp_i, left=0, right=0) * 1e-6 / dc.igap
    n = len(rows)
    nan_sets = [()] + [(p,) for p in range(n + 1)]
    if ctx.thorough:
        nan_sets += list(itertools.combinations(range(n + 1), 2))
    for nans in nan_sets:
        for which in ((0,) if not nans else (0, 1, 2)):
            data = list(rows)
            for p in sorted(nans, reverse=True):
                data.insert(p, {0: (np.nan, 1.), 1: (50., np.nan), 2: (np.nan, np.nan)}[which])
            arr = np.array(data)
            keep = arr.copy()
            v, i = iv_curve(arr, dc, v_fmt='mV', i_fmt='uA', filter_data=False, vmax=vmax, npts=npts, voffset=0., ioffset=0.)
            tag = 'sweep {} NaN rows {}'.format([r[0] for r in data], nans)
            ctx.close(v, grid / dc.vgap, atol=1e-12, what=tag + ' voltage')
            ctx.close(i, exp, atol=1e-9, what=tag + ' current')
            ctx.same(arr, keep, 'data of the caller')
            ctx.state(L, start, up, case['end'], case['dwell'], nans, which)
            ctx.edge()
            ctx.obs(tuple(r[0] for r in data if r[0] == r[0]))
    ctx.trace()


def curve(pumped):
    """Samples of a DC and a pumped I-V curve on one grid (SI)."""
    j = Junction()
    v = j.grid(step=2.5e-6 if not pumped else 1e-5)
    if not pumped:
        return j, v, j.i(v)
    vph = .4 * j.vgap
    cur = .8 * j.i(v) + .1 * j.i(v + vph) + .1 * j.i(v - vph)
    return j, v, cur


def arrange(v, i, order, repeat, nans, layout, vf, i_f, vm, im):
    n = len(v)
    z = int(np.argmin(np.abs(v)))
    up, down = list(range(n)), list(range(n))[::-1]
    idx = {'sorted': up, 'reversed': down,
           'up-down': list(range(z, n)) + down[1:],
           'up-down-up': list(range(z, n)) + down[1:] + list(range(1, z + 1)),
           'down-up': list(range(z, -1, -1)) + up[1:],
           'down-up-down': list(range(z, -1, -1)) + up[1:] + list(range(n - 2, z - 1, -1))}[order]
    if repeat:
        idx = [k for k in idx for _ in range(2 if k % repeat == 0 else 1)]
    vv, ii = v[idx] * VU[vf] / vm, i[idx] * IU[i_f] / im
    arr = np.vstack((vv, ii)).T.copy()
    bad = np.array([[np.nan, 5.], [3., np.nan], [np.nan, np.nan]])
    if nans == 'first':
        arr = np.vstack((bad, arr))
    elif nans == 'middle':
        m = len(arr) // 2
        arr = np.vstack((arr[:m], bad, arr[m:]))
    elif nans == 'last':
        arr = np.vstack((arr, bad))
    elif nans == 'several':
        out = []
        for k, r in enumerate(arr):
            out.append(r)
            if k % 97 == 13:
                out.append(bad[k % 3])
        arr = np.array(out)
    if layout == 'F':
        arr = np.asfortranarray(arr)
    elif layout == 'view':
        big = np.full((2 * len(arr), 4), 99.)
        big[::2, 1:3] = arr
        arr = big[::2, 1:3]
    elif layout == 'frozen':
        arr.setflags(write=False)
    return arr


def presentations(thorough):
    base = dict(repeat=0, nans='none', layout='C', vm=1., im=1.)
    dims = dict(repeat=(0, 1, 7), nans=NANS, layout=('C', 'F', 'view', 'frozen'), vm=(1., 2.5, .8), im=(1., .5, 3.))
    if thorough:
        for combo in itertools.product(*dims.values()):
            yield dict(zip(dims, combo))
        return
    # every value of every dimension, and every pair of deviations
    seen = set()
    for a, b in itertools.combinations(dims, 2):
        for x in dims[a]:
            for y in dims[b]:
                p = dict(base)
                p[a], p[b] = x, y
                k = tuple(sorted(p.items()))
                if k not in seen:
                    seen.add(k)
                    yield p


_CANON = {}


def canonical(kind, filt):
    from qmix.exp.iv_data import dciv_curve, iv_curve
    if ('dc', filt) not in _CANON:
        j, v, i = curve(False)
        _CANON['dc', filt] = dciv_curve(np.vstack((v, i)).T, v_fmt='V', i_fmt='A', filter_data=filt, voffset=0., ioffset=0., npts=2001)
        j, v, i = curve(True)
        _CANON['pumped', filt] = iv_curve(np.vstack((v, i)).T, _CANON['dc', filt][2], v_fmt='V', i_fmt='A', filter_data=filt,
                                          voffset=0., ioffset=0., npts=2001)
    return _CANON[kind, filt]


def compare_dc(got, exp, tag, ctx, tol):
    ctx.close(got[0], exp[0], atol=tol, rtol=tol, what=tag + ' voltage')
    # the steep transition magnifies an error of the voltage
    ctx.close(got[1], exp[1], atol=100 * tol, rtol=tol, what=tag + ' current')
    for f in ('vgap', 'igap', 'fgap', 'rn', 'rsg', 'vint'):
        ctx.close(getattr(got[2], f), getattr(exp[2], f), atol=0, rtol=tol * 10, what=tag + ' ' + f)
    ctx.close(np.interp(exp[2].vraw, got[2].vraw, got[2].iraw), exp[2].iraw, atol=100 * tol * exp[2].igap, what=tag + ' vraw/iraw')


def check(case, ctx):
    from qmix.exp.iv_data import dciv_curve, iv_curve
    if case['kind'] == 'sweep':
        return check_sweep(case, ctx)
    if case['kind'] in ('dc', 'pumped'):
        pumped = case['kind'] == 'pumped'
        j, v, i = curve(pumped)
        for p in presentations(ctx.thorough):
            # one import without and (for every third presentation, or in the thorough tier) one with the filter
            ctx_key = (case['kind'], case['order'], case['v_fmt'], case['i_fmt'], tuple(sorted(p.items())))
            filts = (False, True) if ctx.thorough or p['vm'] == p['im'] == 1. else (False,)
            for filt in filts:
                arr = arrange(v, i, case['order'], p['repeat'], p['nans'], p['layout'], case['v_fmt'], case['i_fmt'], p['vm'], p['im'])
                keep = arr.copy()
                kw = dict(v_fmt=case['v_fmt'], i_fmt=case['i_fmt'], v_multiplier=p['vm'], i_multiplier=p['im'],
                          filter_data=filt, voffset=0., ioffset=0., npts=2001)
                tag = '{} {} filter={}'.format(case['kind'], ctx_key, filt)
                if pumped:
                    exp = canonical('pumped', filt)
                    got = iv_curve(arr, canonical('dc', filt)[2], **kw)
                    ctx.close(got[0], exp[0], atol=1e-9, what=tag + ' voltage')
                    ctx.close(got[1], exp[1], atol=1e-6, what=tag + ' current')
                else:
                    exp = canonical('dc', filt)
                    compare_dc(dciv_curve(arr, **kw), exp, tag, ctx, 1e-8)
                ctx.same(arr, keep, 'data of the caller')
                ctx.state(ctx_key, filt)
                ctx.edge()
            ctx.obs(arr[:4])
        ctx.trace()
    elif case['kind'] == 'reject':
        from qmix.exp import DCData, PumpedData
        j, v, i = curve(False)
        good = np.vstack((v, i)).T * 1e3
        dc = canonical('dc', False)[2]
        three = np.vstack((v, i, i)).T
        for name, bad in (('list', good.tolist()), ('1-d', v), ('3 columns', three), ('3-d', good[None]), ('transposed', good.T), ('name', 'file.csv')):
            ctx.raises(AssertionError, lambda: dciv_curve(bad), 'dciv_curve with ' + name)
            ctx.raises(AssertionError, lambda: iv_curve(bad, dc), 'iv_curve with ' + name)
            ctx.state('bad', name)
            ctx.edge(2)
        for name, bad in (('list', good.tolist()), ('name', 'file.csv'), ('None', None)):
            ctx.raises(ValueError, lambda: DCData(bad, verbose=False), 'DCData with ' + name)
            ctx.raises(ValueError, lambda: PumpedData(bad, None, freq=230.), 'PumpedData with ' + name)
            ctx.edge(2)
        for unit in ('kV', 'mv', '', None):
            ctx.raises(Exception, lambda: dciv_curve(good, v_fmt=unit), 'voltage unit {!r}'.format(unit))
            ctx.raises(Exception, lambda: dciv_curve(good, i_fmt=unit), 'current unit {!r}'.format(unit))
            ctx.state('unit', unit)
            ctx.edge(2)
        dcd = DCData(good, filter_data=False, verbose=False, voffset=0., ioffset=0.)
        ctx.raises(ValueError, lambda: PumpedData(good, dcd, verbose=False), 'PumpedData without a frequency')
        ctx.edge()
        # outside of the measured range there is no pumped current
        vv, ii = iv_curve(good, dc, filter_data=False, vmax=9e-3, npts=1801, voffset=0., ioffset=0.)
        ctx.true(np.all(ii[np.abs(vv * dc.vgap) > 7.01e-3] == 0), 'current outside of the data')
        ctx.true(np.all(ii[(np.abs(vv * dc.vgap) < 6.99e-3) & (np.abs(vv) > 1e-6)] != 0), 'current inside of the data is zero')
        ctx.trace()
    else:
        # integer read-outs (uV and nA-like steps)
        dc = metadata()
        for perm in itertools.permutations((-4, -1, 2, 3, 6)):
            lo, hi = perm.index(-4), perm.index(6)
            srt = list(perm) == sorted(perm) or list(perm) == sorted(perm, reverse=True)
            if not srt:
                continue
            x = np.array(perm) * 1000
            arr = np.vstack((x, x // 500)).T
            for u, ui in itertools.product(VU, IU):
                v, i = iv_curve(arr, dc, v_fmt=u, i_fmt=ui, filter_data=False, vmax=2000 / VU[u], npts=41, voffset=0., ioffset=0.)
                ctx.close(i, v * dc.vgap * VU[u] / 500 / IU[ui] / dc.igap, atol=1e-9, rtol=1e-9, what='integer data {} {}'.format(u, ui))
                ctx.state(perm, u, ui)
                ctx.edge()
        ctx.trace()
