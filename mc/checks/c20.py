"""C20: the junction parameters found from a DC I-V curve are right.

Junctions with exactly known gap voltage, normal resistance, intercept and
sub-gap resistance are enumerated; each one is loaded through dciv_curve and
DCData under every combination of the analysis parameters within the bounds
and all reported values are compared with the closed-form ones.
"""

import itertools

import numpy as np

from mc.models.junction import Junction, E_H

MODEL = 'piecewise linear junction with closed-form parameters'
BOUNDS = {'quick': '3 gaps x 2 widths x 3 rn x 2 rsg x 3 intercepts; analysis parameters: vrn, vrsg, vleak, area, vgap, vmax, npts one and two at a time; '
                   '15 sampling steps x 8 samplings x 9 junctions, with and without series resistance',
          'thorough': '5 gaps x 4 widths x 6 rn x 4 rsg x 4 intercepts; all combinations of the analysis parameters'}

DOM = {'quick': dict(c=(2.5e-3, 2.8e-3, 3.1e-3), w=(7e-5, 1e-4), rn=(3., 14., 45.), rsg=(8., 40.), vint=(-1e-4, 0., 3e-4)),
       'thorough': dict(c=(2.4e-3, 2.6e-3, 2.8e-3, 3e-3, 3.2e-3), w=(7e-5, 8e-5, 1e-4, 1.4e-4), rn=(.9, 3., 8., 14., 45., 60.),
                        rsg=(8., 15., 40., 200.), vint=(-1e-4, 0., 1e-4, 3e-4))}

PAR = dict(vrn=[None, (3.5e-3, 4.5e-3), (3.2e-3, 4.2e-3), (4e-3, 6e-3)], vrsg=[None, 1.5e-4, 4e-4, 1e-3, 1.7e-3, 2.2e-3], vleak=[None, 1.5e-3, .5e-3],
           area=[None, .8, 4.], vgap=[None, 2.9e-3], vmax=[None, 5e-3], npts=[None, 2000, 4001])


def cases(tier):
    d = DOM[tier]
    for combo in itertools.product(*d.values()):
        yield dict(zip(d, combo), kind='model')
    for neg, step in itertools.product((0., .5, .8, 1., 1.3), (0., 2e-6, 1e-5)):
        yield {'kind': 'branches', 'neg': neg, 'step': step}
    for step in STEPS:
        yield {'kind': 'sampling', 'step': step}
    for a, b in itertools.combinations(PAR, 2):
        yield {'kind': 'par', 'a': a, 'b': b}


STEPS = (1e-6, 2.5e-6, 4e-6, 5e-6, 7e-6, 8e-6, 9.5e-6, 1e-5, 1.1e-5, 1.25e-5, 1.6e-5, 2e-5, 2.5e-5, 4e-5, 5e-5)


def samplings(step, j):
    """Voltages at which somebody may have recorded the curve."""
    base = j.grid(step=step)
    k = np.arange(len(base))
    yield 'even', base
    yield 'corners off the grid', np.arange(-7e-3, 7e-3, step) + step / 3
    yield 'jitter', base + np.where((np.abs(np.abs(base) - j.va) < 1e-9) | (np.abs(np.abs(base) - j.vb) < 1e-9), 0., .3 * step * np.sin(k ** 2 * 1.))
    yield 'first point close', np.r_[base[0] - 1e-9, base]
    yield 'first point far', np.r_[base[0] - 1e-3, base]
    yield 'fine at the gap', np.unique(np.r_[base, np.linspace(2.2e-3, 3.4e-3, 241)])
    yield 'fine at the origin', np.unique(np.r_[base, np.linspace(-2e-3, 2e-3, 2001)])
    yield 'coarse above', np.r_[-np.arange(3.5e-3, 7e-3, 2e-4)[::-1], base[np.abs(base) < 3.5e-3], np.arange(3.5e-3, 7e-3, 2e-4)]


def weight(case):
    return case['kind'] == 'par'


def junction(case):
    # rsg is given in units of rn
    return Junction(va=case['c'] - case['w'] / 2, vb=case['c'] + case['w'] / 2, rn=case['rn'], rsg=case['rsg'] * case['rn'], vint=case['vint'])


def verify(ctx, tag, j, volt, curr, dc, kw, tol):
    """Compare everything dciv_curve returns with the model."""
    vgap = kw.get('vgap', j.vgap)
    ctx.close(dc.vgap, vgap, atol=tol['v'], rtol=0, what=tag + ' gap voltage')
    ctx.close(dc.rn, j.rn, atol=0, rtol=tol['r'], what=tag + ' normal resistance')
    ctx.close(dc.rsg, j.rsg, atol=0, rtol=10 * tol['r'], what=tag + ' sub-gap resistance')
    ctx.close(dc.vint, j.vint, atol=tol['v'], rtol=0, what=tag + ' intercept')
    ctx.close(dc.fgap, dc.vgap * E_H, atol=0, rtol=1e-6, what=tag + ' gap frequency')
    ctx.close(dc.igap, dc.vgap / dc.rn, atol=0, rtol=1e-9, what=tag + ' gap current')
    vmax, npts = kw.get('vmax', 6e-3), kw.get('npts', 6001)
    grid = np.linspace(-vmax, vmax, npts)
    ctx.close(volt * dc.vgap, grid, atol=1e-12, what=tag + ' voltages')
    mask = np.ones(npts, dtype=bool)
    for corner in (j.va, j.vb):
        mask &= np.abs(np.abs(grid) - corner) > tol['corner']
    if tol['corner'] > 1e-5:
        mask &= np.abs(grid) < vmax - 5e-4
    ctx.close(curr[mask] * dc.igap, j.i(grid)[mask], atol=tol['i'], rtol=tol['i_rel'], what=tag + ' current')
    ctx.true(np.array_equal(dc.vnorm, volt) and np.array_equal(dc.inorm, curr), '{}: metadata differ from the curve', tag)


EXACT = dict(v=1e-9, r=1e-7, corner=0., i=1e-9, i_rel=1e-6)
FILTERED = dict(v=1e-5, r=5e-3, corner=6e-5, i=1e-6, i_rel=1e-2)


def attributes(ctx, tag, d, j, kw):
    """DCData reports the same values, and the derived ones."""
    for a in ('vgap', 'igap', 'fgap', 'rn', 'rsg', 'offset', 'vint'):
        ctx.true(getattr(d, a) == getattr(d.dc, a), '{}: {} is {}, not {}', tag, a, getattr(d, a), getattr(d.dc, a))
    area = kw.get('area', 1.5) * 1e-12
    ctx.close(d.q, d.rsg / d.rn, atol=0, what=tag + ' quality factor')
    ctx.close(d.rna, d.rn * area, atol=0, what=tag + ' rn*area')
    ctx.close(d.jc, d.vgap / (d.rn * area), atol=0, what=tag + ' critical current density')
    vleak = kw.get('vleak', 2e-3)
    ctx.close(d.ileak, vleak / j.rsg, atol=1e-9, rtol=1e-5, what=tag + ' leakage current')
    ctx.true(d.if_data is None and d.if_noise is None and d.dcif is None, '{}: IF results without IF data', tag)
    txt = str(d)
    for val in (d.vgap * 1e3, d.fgap / 1e9, d.rn, d.rsg, d.ileak * 1e6):
        ctx.true('{:.2f}'.format(val) in txt, '{}: {:.2f} is not in the summary', tag, val)
    ctx.true('{:.2f}'.format(d.vgap * 1e3) in repr(d) and '{:.2f}'.format(d.rn) in repr(d), '{}: repr', tag)


def check(case, ctx):
    from qmix.exp.iv_data import dciv_curve
    from qmix.exp import DCData
    from qmix.respfn import RespFnFromIVData
    if case['kind'] == 'model':
        j = junction(case)
        v = j.grid(step=2.5e-6)
        arr = np.vstack((v * 1e3, j.i(v) * 1e3)).T
        keep = arr.copy()
        tag = 'junction {}'.format(case)
        volt, curr, dc = dciv_curve(arr, filter_data=False, voffset=0., ioffset=0.)
        verify(ctx, tag, j, volt, curr, dc, {}, EXACT)
        ctx.edge()
        volt2, curr2, dc2 = dciv_curve(arr)     # default filter, automatic offset
        verify(ctx, tag + ' filtered', j, volt2, curr2, dc2, {}, FILTERED)
        ctx.close(dc2.offset, (0., 0.), atol=1e-6, what='offset')
        ctx.edge()
        # scaling all currents scales the conductances and nothing else
        volt3, curr3, dc3 = dciv_curve(arr, filter_data=False, voffset=0., ioffset=0., i_multiplier=3.)
        ctx.close(dc3.vgap, dc.vgap, atol=1e-9, rtol=0, what=tag + ' scaled vgap')
        ctx.close((dc3.rn, dc3.rsg), (dc.rn / 3, dc.rsg / 3), atol=0, rtol=1e-7, what=tag + ' scaled resistances')
        ctx.close(curr3, curr, atol=1e-7, what=tag + ' scaled, normalised current')
        ctx.edge()
        # scaling all voltages by a few percent
        kw = dict(vrn=(4e-3, 7.5e-3))
        volt4, curr4, dc4 = dciv_curve(arr, filter_data=False, voffset=0., ioffset=0., v_multiplier=1.04, **kw)
        ctx.close(dc4.vgap, 1.04 * dc.vgap, atol=1e-9, rtol=0, what=tag + ' stretched vgap')
        ctx.close((dc4.rn, dc4.rsg), (1.04 * dc.rn, 1.04 * dc.rsg), atol=0, rtol=1e-6, what=tag + ' stretched resistances')
        ctx.edge()
        ctx.same(arr, keep, 'data of the caller')
        ctx.state(tuple(sorted(case.items())))
        ctx.obs(np.array([dc.vgap * 1e3, dc.rn, dc.rsg, dc.vint * 1e3]))
        ctx.trace()
    elif case['kind'] == 'sampling':
        step = case['step']
        for c, rn in itertools.product((2.5e-3, 2.8e-3, 3.1e-3), (3., 14., 45.)):
            w = max(4e-5, 3 * step)
            j = Junction(va=c - w, vb=c + w, rn=rn, rsg=20 * rn, vint=1e-4)
            for name, v in samplings(step, j):
                v = np.sort(v)
                for rs in (None, .05 * rn):
                    arr = np.vstack(((v + (rs or 0) * j.i(v)) * 1e3, j.i(v) * 1e3)).T
                    tag = 'step {} V {} {} rseries {}'.format(step, name, (c, rn), rs)
                    volt, curr, dc = dciv_curve(arr, filter_data=False, voffset=0., ioffset=0., rseries=rs, vrsg=1.9e-3 - step)
                    ctx.close(dc.vgap, j.vgap, atol=1e-9, rtol=0, what=tag + ' gap voltage')
                    ctx.close((dc.rn, dc.rsg), (j.rn, j.rsg), atol=0, rtol=1e-6, what=tag + ' resistances')
                    ctx.close(dc.vint, j.vint, atol=1e-9, what=tag + ' intercept')
                    grid = np.linspace(-6e-3, 6e-3, 6001)
                    ctx.close(curr * dc.igap, np.interp(grid, v, j.i(v)), atol=1e-9, rtol=1e-6, what=tag + ' current')
                    ctx.state(step, name, c, rn, rs)
                    ctx.edge()
        ctx.trace()
    elif case['kind'] == 'branches':
        # the parameters are those of the positive branch, whatever the other one looks like
        for c, rn, rsg in itertools.product((2.5e-3, 2.8e-3, 3.1e-3), (3., 14.), (8., 40.)):
            j = Junction(va=c - 4e-5, vb=c + 4e-5, rn=rn, rsg=rsg * rn, vint=1e-4)
            v = j.grid(step=2.5e-6)
            i = j.i(v)
            if case['step']:
                # extra sub-gap current, with a step at the origin that ends at the transition
                i = i + np.where(np.abs(v) < j.va, case['step'] * np.clip(v / 5e-5, -1, 1), 0.)
            i = np.where(v < 0, case['neg'] * i, i)
            arr = np.vstack((v * 1e3, i * 1e3)).T
            tag = 'branches {} {}'.format(case, (c, rn, rsg))
            for kw in ({}, {'vrsg': 1.6e-3}, {'vrsg': 1e-3}, {'vrn': (4e-3, 6e-3)}, {'vrn': (3.2e-3, 3.9e-3)}):
                volt, curr, dc = dciv_curve(arr, filter_data=False, voffset=0., ioffset=0., **kw)
                ctx.close((dc.rn, dc.rsg), (j.rn, j.rsg), atol=0, rtol=1e-6, what=tag + ' resistances')
                ctx.close(dc.vint, j.vint, atol=1e-9, what=tag + ' intercept')
                ctx.true(j.va - 3e-6 <= dc.vgap <= j.vb, '{}: gap voltage {} is not in the transition', tag, dc.vgap)
                if case['step'] == 0:
                    ctx.close(dc.vgap, j.vgap, atol=1e-9, what=tag + ' gap voltage')
                grid = np.linspace(-6e-3, 6e-3, 6001)
                ctx.close(curr * dc.igap, np.interp(grid, v, i), atol=1e-9, rtol=1e-6, what=tag + ' current')
                ctx.state(case['neg'], case['step'], c, rn, rsg, str(kw))
                ctx.edge()
                ctx.obs(np.array([dc.vgap * 1e3, dc.rn, dc.rsg]))
        ctx.trace()
    else:
        j = Junction()
        v = j.grid(step=2.5e-6)
        arr = np.vstack((v * 1e3, j.i(v) * 1e3)).T
        names = list(PAR) if ctx.thorough and (case['a'], case['b']) == ('vrn', 'vrsg') else [case['a'], case['b']]
        for combo in itertools.product(*(PAR[n] for n in names)):
            kw = {n: x for n, x in zip(names, combo) if x is not None}
            tag = 'parameters {}'.format(kw)
            user = dict(kw)
            d = DCData(arr, filter_data=False, voffset=0., ioffset=0., verbose=False, comment='abc', **kw)
            ctx.true(kw == user, '{}: keywords changed to {}', tag, kw)
            verify(ctx, tag, j, d.voltage, d.current, d.dc, kw, EXACT)
            attributes(ctx, tag, d, j, kw)
            ctx.true(d.comment == 'abc', '{}: comment {!r}', tag, d.comment)
            # the response functions are those of this curve
            probe = np.linspace(-2., 2., 41) + 1e-3
            ref = RespFnFromIVData(d.voltage, d.current, check_error=False, verbose=False, v_smear=None)
            ctx.close(d.resp(probe), ref(probe), atol=1e-12, what=tag + ' response function')
            ctx.state(tuple(sorted((k, str(x)) for k, x in kw.items())))
            ctx.edge()
            ctx.obs(np.array([d.vgap, d.ileak * 1e6, d.rna * 1e12]))
        for sm in (None, .01, .05):
            kw = {} if sm is None else {'v_smear': sm}
            d = DCData(arr, filter_data=False, voffset=0., ioffset=0., verbose=False, **kw)
            ref = RespFnFromIVData(d.voltage, d.current, check_error=False, verbose=False, v_smear=sm or .02)
            ctx.close(d.resp_smear(probe), ref(probe), atol=1e-12, what='smeared response function')
            plain = d.resp.idc(probe)
            ctx.true(np.abs(plain - ref.idc(probe)).max() > 1e-4, 'smearing has no effect')
            ctx.edge()
        ctx.trace()
