"""C21: noise temperature and gain from hot/cold IF measurements.

(a) Every hot/cold data set on a small bias grid over an alphabet of power
    pairs (normal, equal, inverted, no data) with every rule for the best bias
    point, against a reference calculation.
(b) Receivers with exactly known gain, noise temperature, IF noise and power
    calibration, presented in every way within the bounds (units, order, NaN
    rows, repeats, offsets, series resistance, power scale, shot-noise windows,
    with and without a separate DC IF measurement).
"""

import itertools
import math

import numpy as np

from mc.models.junction import Junction

H, K = 6.62607015e-34, 1.380649e-23
NAN = float('nan')

MODEL = 'Y-factor method with Callen-Welton load temperatures; power calibration by the 5.8 K/mV shot-noise slope'
BOUNDS = {'quick': 'all 6^4 hot/cold pairs on 4 bias points x 6 best-point rules x 3 frequencies; 96 receivers x presentations one and two at a time, also at frequencies that are not round and with overlapping ranges',
          'thorough': 'all 7^5 pairs; 288 receivers x all presentations'}

PAIRS = [(2., 1.), (3., 1.), (3., 2.), (1., 1.), (1., 2.), (0., 0.), (4., 3.)]
SHOTS = [(4.2e-3, 5.8e-3), ((4.2e-3, 5.8e-3),), [[4.1e-3, 4.6e-3], [5.2e-3, 5.9e-3]], ((5e-3, 5.5e-3), (4.2e-3, 5.2e-3))]


def cases(tier):
    n = 4 if tier == 'quick' else 5
    a = 6 if tier == 'quick' else 7
    for head in itertools.product(range(a), repeat=2):
        yield {'kind': 'small', 'n': n, 'alpha': a, 'head': list(head)}
    for freq, t_if, kcal, vint in itertools.product((232.7, 650.), (5., 20., 60., -3.) if tier == 'thorough' else (5., 60.), (1., 2e-3, 300.), (0., 2e-4)):
        for which in ('if', 'dcif'):
            yield {'kind': 'physics', 'freq': freq, 't_if': t_if, 'k': kcal, 'vint': vint, 'which': which}
    for order in range(6):
        yield {'kind': 'present', 'order': order}
    for rs in (0., 2., 10.):
        yield {'kind': 'rseries', 'rs': rs}
    yield {'kind': 'classes'}
    yield {'kind': 'ranges'}
    yield {'kind': 'reject'}


def weight(case):
    return {'classes': 9, 'present': 5, 'small': 3}.get(case['kind'], 1)


def cw(freq, t):
    """Callen-Welton temperature of a load (freq in GHz)."""
    x = H * freq * 1e9 / 2 / K
    return x / math.tanh(x / t)


def metadata(vgap=2.8e-3, rn=14., vint=2e-4, offset=(0., 0.), vraw=None, iraw=None):
    from qmix.exp.iv_data import DCIVData
    return DCIVData(vraw=vraw, iraw=iraw, vnorm=None, inorm=None, vgap=vgap, igap=vgap / rn, fgap=vgap / 4.13566769e-15,
                    rn=rn, rsg=300., offset=offset, vint=vint, rseries=None)


# -- (a) ----------------------------------------------------------------------

def small(case, ctx):
    from qmix.exp.if_data import DCIFData, if_data
    n = case['n']
    dc = metadata()
    vmax = 3e-3
    v = np.linspace(0, vmax, n)
    shot = np.zeros((n, 2))
    for tail in itertools.product(range(case['alpha']), repeat=n - 2):
        idx = tuple(case['head']) + tail
        hot = np.array([PAIRS[i][0] for i in idx])
        cold = np.array([PAIRS[i][1] for i in idx])
        if not np.any(cold > 0):
            continue
        for freq, th, tc in ((232.7, 293., 78.), (657.3, 300., 4.2)) if ctx.thorough else ((657.3, 293., 78.), ):
            Th, Tc = cw(freq, th), cw(freq, tc)
            for corr in (1., 20.):
                if corr != 1. and sum(idx) % 5:
                    continue
                dcif = DCIFData(if_noise=11., corr=corr, if_fit=True, shot_slope=shot, vmax=vmax)
                gain = corr * (hot - cold) / (Th - Tc)
                for mode in ('Max Gain', 'Min Tn', 'MAX GAIN', 'min tn', 0., 1.3e-3, 2.9e-3, 1.):
                    if isinstance(mode, str):
                        kw = {'best_pt': mode}
                        if mode == 'Max Gain':
                            kw = {}
                    else:
                        # a given bias voltage wins
                        kw = {'vbest': mode, 'best_pt': 'Min Tn'}
                    if th == 293. and tc == 78. and mode != 'Min Tn':
                        pass    # the default load temperatures
                    else:
                        kw.update(t_hot=th, t_cold=tc)
                    res, best, out = if_data(np.vstack((v, hot)).T * [1e3, 1.], np.vstack((v, cold)).T * [1e3, 1.], dc, dcif=dcif, freq=freq,
                                             vmax=vmax, ifdata_npts=n, ifdata_sigma=None, verbose=False, **kw)
                    tag = 'hot {} cold {} {} f={} corr={}'.format(hot, cold, kw, freq, corr)
                    ctx.close(res[:, 0] * dc.vgap, v, atol=1e-12, what=tag + ' voltage')
                    ctx.close(res[:, 1], hot * corr, atol=1e-9, what=tag + ' hot power')
                    ctx.close(res[:, 2], cold * corr, atol=1e-9, what=tag + ' cold power')
                    ctx.close(res[:, 4], gain, atol=1e-12, rtol=1e-6, what=tag + ' gain')
                    tn = res[:, 3]
                    for k in range(n):
                        if hot[k] == cold[k] == 0:
                            ctx.true(not np.isfinite(tn[k]) or abs(tn[k]) > 1e6, '{}: noise temperature {} without any power', tag, tn[k])
                        elif hot[k] <= cold[k]:
                            ctx.true(tn[k] > 1e6, '{}: noise temperature {} where hot <= cold', tag, tn[k])
                        else:
                            y = hot[k] / cold[k]
                            ctx.close(tn[k], (Th - Tc * y) / (y - 1), atol=1e-6, rtol=1e-6, what=tag + ' noise temperature')
                    # the best bias point
                    if isinstance(mode, float):
                        d = np.abs(v - mode)
                        ctx.true(d[best] <= d.min() + 1e-12, '{}: best point {} is not the nearest to {}', tag, best, mode)
                    elif mode.lower() == 'max gain':
                        ctx.true(gain[best] >= gain.max() - 1e-12, '{}: best point {}', tag, best)
                    else:
                        ctx.true(tn[best] <= np.nanmin(tn) + 1e-9, '{}: best point {}', tag, best)
                    ctx.true((out.if_noise, out.corr, out.if_fit) == (11., corr, True), '{}: calibration {}', tag, out[:3])
                    ctx.close(out.vmax, vmax, atol=1e-12, what='vmax')
                    ctx.state(idx, freq, corr, mode)
                    ctx.edge()
                    ctx.obs((best, mode))
    ctx.trace()


# -- (b) ----------------------------------------------------------------------

class Receiver(object):
    """IF power (in K) of a mixer: shot noise line above 4 mV, hot/cold
    response below 3.6 mV."""

    def __init__(self, freq, t_if, vint, vgap=2.8e-3, th=293., tc=78.):
        self.freq, self.t_if, self.vint, self.vgap = freq, t_if, vint, vgap
        self.th, self.tc = cw(freq, th), cw(freq, tc)

    def gain(self, v):
        mv = v * 1e3
        return np.where((mv > .5) & (mv < 3.5), .3 * (np.clip((mv - .5) * (3.5 - mv), 0, None) / 2.25) ** 2, 0.)

    def noise(self, v):
        return 60. + 15. * np.cos(v * 2000.)

    def line(self, v):
        return 5.8 * (v - self.vint) * 1e3 + self.t_if

    def power(self, v, load):
        g = self.gain(v)
        t = {'hot': self.th, 'cold': self.tc, 'dc': 0.}[load]
        base = np.where(v > 3.5e-3, self.line(v), 0.)
        if load == 'dc':
            return self.line(v)
        # below the gap there is only mixing; g smoothly vanishes at both ends
        return base + np.where(v > 3.5e-3, 0., g * (t + self.noise(v)) + 1e-12)


def compare(ctx, tag, rec, res, out, kcal, atol_g=1e-9, tn_rtol=1e-6, corr_rtol=1e-6):
    v = res[:, 0] * rec.vgap
    ctx.close(out.corr, 1 / kcal, atol=0, rtol=corr_rtol, what=tag + ' power calibration')
    ctx.close(out.if_noise, rec.t_if, atol=1e-5 + 300 * corr_rtol, rtol=corr_rtol, what=tag + ' IF noise')
    ctx.true(bool(out.if_fit) == (0 < rec.t_if < 50), '{}: if_fit {} with {} K', tag, out.if_fit, rec.t_if)
    ctx.close(res[:, 1], rec.power(v, 'hot'), atol=1e-6, rtol=max(corr_rtol, 1e-6), what=tag + ' hot power')
    ctx.close(res[:, 2], rec.power(v, 'cold'), atol=1e-6, rtol=max(corr_rtol, 1e-6), what=tag + ' cold power')
    ctx.close(res[:, 4], rec.gain(v), atol=1e-8, rtol=max(corr_rtol, 1e-6), what=tag + ' gain')
    m = rec.gain(v) > 1e-3
    ctx.close(res[m, 3], rec.noise(v)[m], atol=1e-4, rtol=tn_rtol, what=tag + ' noise temperature')
    ctx.close(out.shot_slope[:, 1], rec.line(out.shot_slope[:, 0] * rec.vgap), atol=1e-4 + 1000 * corr_rtol, rtol=corr_rtol, what=tag + ' shot noise line')


def samples(n=601, vmax=6e-3):
    return np.linspace(0, vmax, n)


def physics(case, ctx):
    from qmix.exp.if_data import dcif_data, if_data
    rec = Receiver(case['freq'], case['t_if'], case['vint'])
    dc = metadata(vint=case['vint'])
    k = case['k']
    v = samples()
    base = dict(freq=case['freq'], ifdata_npts=601, ifdata_sigma=None, verbose=False, v_fmt='V')
    for shot in SHOTS + [None]:
        for npts in (601, 301):
            kw = dict(base, ifdata_npts=npts)
            if shot is not None:
                kw['vshot'] = shot
            tag = '{} vshot={} npts={}'.format(case, shot, npts)
            if case['which'] == 'dcif':
                ifd, dcif = dcif_data(np.vstack((v, rec.power(v, 'dc') * k)).T, dc, **kw)
                ctx.close(ifd[:, 1], rec.line(ifd[:, 0] * rec.vgap), atol=1e-4, rtol=1e-6, what=tag + ' DC IF power')
                ctx.close(dcif.corr, 1 / k, atol=0, rtol=1e-6, what=tag + ' calibration')
                ctx.close(dcif.if_noise, rec.t_if, atol=1e-4, what=tag + ' IF noise')
                ctx.true(bool(dcif.if_fit) == (0 < rec.t_if < 50), '{}: if_fit', tag)
                ctx.close(dcif.vmax, 6e-3, atol=1e-9, what='vmax')
                ctx.close(dcif.shot_slope, np.vstack((ifd[:, 0], rec.line(ifd[:, 0] * rec.vgap))).T, atol=1e-4, rtol=1e-6, what=tag + ' shot noise line')
                # the calibration of the unpumped data is used for the pumped data
                hot, cold = (np.vstack((v, rec.power(v, s) * k)).T for s in ('hot', 'cold'))
                res, best, out = if_data(hot, cold, dc, dcif=dcif, **kw)
                compare(ctx, tag, rec, res, out, k)
                # even if the pumped data have no useful shot noise
                for s in (hot, cold):
                    s[s[:, 0] > 3.5e-3, 1] *= 1.7
                res2, best2, out2 = if_data(hot, cold, dc, dcif=dcif, **kw)
                m = res[:, 0] * rec.vgap < 3.49e-3
                ctx.close(res2[m, 3:], res[m, 3:], atol=1e-9, what=tag + ' own calibration')
                ctx.edge(3)
            else:
                if shot is None:
                    # window found automatically: the mixer must not look like shot noise
                    hot, cold = (np.vstack((v, np.where(v > 3.5e-3, rec.line(v), rec.power(v, s)) * k)).T for s in ('hot', 'cold'))
                    res, best, out = if_data(hot, cold, dc, **kw)
                    compare(ctx, tag, rec, res, out, k, corr_rtol=2e-2, tn_rtol=1e-4)
                    ctx.edge()
                    continue
                for scale in (1., 7., 1e-6):
                    hot, cold = (np.vstack((v, rec.power(v, s) * k * scale)).T for s in ('hot', 'cold'))
                    res, best, out = if_data(hot, cold, dc, **kw)
                    compare(ctx, tag + ' scale {}'.format(scale), rec, res, out, k * scale)
                    ctx.true(res[best, 4] == res[:, 4].max(), '{}: bias point {} does not have the highest gain', tag, best)
                    res, best, _ = if_data(hot, cold, dc, best_pt='Min Tn', **kw)
                    ctx.true(res[best, 3] == np.nanmin(res[:, 3]), '{}: bias point {} does not have the lowest noise temperature', tag, best)
                    for vbest in (1.23e-3, 2.718e-3, 3.1415e-3):
                        _, best, _ = if_data(hot, cold, dc, vbest=vbest, **kw)
                        d = np.abs(res[:, 0] * dc.vgap - vbest)
                        ctx.true(d[best] <= d.min() + 1e-15, '{}: bias point {} is not the nearest to {}', tag, best, vbest)
                    ctx.edge(5)
            ctx.state(tuple(sorted(case.items())), str(shot), npts)
            ctx.obs(res[best])
    ctx.trace()


ORDERS = [lambda n: np.arange(n), lambda n: np.arange(n)[::-1], lambda n: np.r_[np.arange(n // 2, n), np.arange(n // 2)],
          lambda n: np.r_[np.arange(0, n, 2), np.arange(1, n, 2)[::-1]], lambda n: (np.arange(n) * 7) % n,
          lambda n: np.repeat(np.arange(n), 2)[::-1]]


def present(case, ctx):
    from qmix.exp.if_data import dcif_data, if_data
    rec = Receiver(230., 12., 2e-4)
    n = 601
    order = ORDERS[case['order']](n)
    v = samples(n)
    kw0 = dict(freq=230., ifdata_npts=n, ifdata_sigma=None, verbose=False, vshot=SHOTS[0])
    for vf, scale in (('uV', 1e6), ('mV', 1e3), ('V', 1.)):
        for vm, v0, nan, layout in itertools.product((1., 2., .5, -1.), (0., 1.5e-4, -2e-4), ('none', 'first', 'many'), ('C', 'F', 'frozen')):
            if not ctx.thorough and sum((vm != 1, v0 != 0, nan != 'none', layout != 'C')) > 2:
                continue
            dc = metadata(offset=(v0, 3e-6))
            arrs = []
            for s in ('hot', 'cold', 'dc'):
                arr = np.vstack(((v + v0) / vm * scale, rec.power(v, s) * .01)).T[order]
                bad = np.array([[NAN, 3.], [2., NAN], [NAN, NAN]])
                if nan == 'first':
                    arr = np.vstack((bad, arr))
                elif nan == 'many':
                    arr = np.vstack([np.vstack((arr[k:k + 50], bad)) for k in range(0, len(arr), 50)])
                if layout == 'F':
                    arr = np.asfortranarray(arr)
                elif layout == 'frozen':
                    arr.setflags(write=False)
                arrs.append(arr)
            keep = [a.copy() for a in arrs]
            kw = dict(kw0, v_fmt=vf, v_multiplier=vm)
            tag = 'order {} {} gain {} offset {} NaN {} {}'.format(case['order'], vf, vm, v0, nan, layout)
            res, best, out = if_data(arrs[0], arrs[1], dc, **kw)
            # the end points may fall outside of the data by rounding
            compare(ctx, tag, rec, res[1:-1], out, .01)
            ifd, dcif = dcif_data(arrs[2], dc, **kw)
            ctx.close(ifd[1:-1, 1], rec.line(ifd[1:-1, 0] * rec.vgap), atol=1e-4, rtol=1e-6, what=tag + ' DC IF power')
            for a, b in zip(arrs, keep):
                ctx.same(a, b, 'IF data of the caller')
            ctx.state(case['order'], vf, vm, v0, nan, layout)
            ctx.edge(2)
            ctx.obs(out.corr)
    # smoothing keeps smooth data (default and explicit)
    dc = metadata()
    hot, cold = (np.vstack((v * 1e3, rec.power(v, s)))[:, order].T for s in ('hot', 'cold'))
    for sigma in ('default', 1e-5, 2e-5, 2.):
        kw = dict(kw0)
        kw.pop('ifdata_sigma')
        if sigma != 'default':
            kw['ifdata_sigma'] = sigma
        res, best, out = if_data(hot, cold, dc, **kw)
        vv = res[:, 0] * rec.vgap
        m = (vv > .8e-3) & (vv < 3.2e-3)
        ctx.close(res[m, 4], rec.gain(vv)[m], atol=2e-3, what='smoothed gain')
        ctx.close(res[m, 3], rec.noise(vv)[m], atol=1., what='smoothed noise temperature')
        ctx.true(np.abs(res[m, 4] - rec.gain(vv)[m]).max() > 1e-7, 'smoothing {} has no effect', sigma)
        ctx.close(out.corr, 1., atol=1e-3, what='smoothed calibration')
        ctx.edge()
    # outside of the data there is no power
    short = v < 4.5e-3
    cut = np.isin(order, np.flatnonzero(short))
    res, best, out = if_data(hot[cut], cold[cut], dc, **dict(kw0, vshot=(3.6e-3, 4.4e-3)))
    far = res[:, 0] * rec.vgap > 4.52e-3
    ctx.true(far.sum() > 100 and np.all(res[far, 1:3] == 0), 'power outside of the data')
    ctx.trace()


def rseries(case, ctx):
    from qmix.exp.if_data import if_data
    j = Junction(vint=2e-4)
    rs = case['rs']
    rec = Receiver(230., 12., 2e-4)
    vj = j.grid(vlim=7e-3, step=1e-5)
    vraw, iraw = vj + rs * j.i(vj), j.i(vj)
    # the dc current is zero at the origin, below a quarter of the gap, or nowhere
    for v0, zero in itertools.product((0., 1e-4), ('origin', 'plateau', 'nowhere')):
        idc = j.i(vj)
        if zero == 'plateau':
            idc = np.where(np.abs(vj) < 7e-4, 0., idc)
        vraw, iraw = vj + rs * idc, idc
        here = np.abs(vj) > 1e-9 if zero == 'nowhere' else slice(None)
        vraw, iraw = vraw[here], iraw[here]
        dc = metadata(offset=(v0, 0.), vraw=vraw.copy(), iraw=iraw.copy())
        vraw_all = vj + rs * idc
        sel = vj > (1e-9 if zero == 'nowhere' else -2e-5)
        arr = [np.vstack((vraw_all[sel] + v0, rec.power(vj[sel], s))).T for s in ('hot', 'cold')]
        kw = dict(freq=230., ifdata_npts=601, ifdata_sigma=None, verbose=False, vshot=SHOTS[0], v_fmt='V')
        res, best, out = if_data(arr[0], arr[1], dc, rseries=rs, **kw)
        v = res[:, 0] * rec.vgap
        ok = v > 1.5e-5
        exp = np.array([np.interp(v, vj, rec.power(vj, s)) for s in ('hot', 'cold')])
        tag = 'rseries {} offset {} zero current at {}'.format(rs, v0, zero)
        ctx.close(out.corr, 1., atol=1e-6, what=tag + ' calibration')
        ctx.close(res[ok, 1], exp[0][ok], atol=1e-4, rtol=1e-6, what=tag + ' hot')
        ctx.close(res[ok, 2], exp[1][ok], atol=1e-4, rtol=1e-6, what=tag + ' cold')
        if rs == 0.:
            res2, _, _ = if_data(arr[0], arr[1], dc, **kw)
            ctx.close(res2[ok], res[ok], atol=1e-6, rtol=1e-6, what='no series resistance')
        ctx.same(dc.vraw, vraw, 'metadata of the caller')
        ctx.same(dc.iraw, iraw, 'metadata of the caller')
        ctx.state('rs', rs, v0, zero)
        ctx.edge()
        ctx.obs(res[100])
    ctx.trace()


def classes(case, ctx):
    """DCData and PumpedData report the same results."""
    from qmix.exp import DCData, PumpedData
    from qmix.exp.if_data import dcif_data, if_data
    j = Junction(vint=2e-4)
    v = j.grid(step=5e-6)
    dcarr = np.vstack((v * 1e3, j.i(v) * 1e3)).T
    vph = .35 * j.vgap
    ip = .8 * j.i(v) + .1 * j.i(v + vph) + .1 * j.i(v - vph)
    ivarr = np.vstack((v * 1e3, ip * 1e3)).T
    rec = Receiver(230., 12., 2e-4, vgap=j.vgap)
    vi = samples()
    hot, cold, dcif = (np.vstack((vi * 1e3, rec.power(vi, s) * .1)).T for s in ('hot', 'cold', 'dc'))
    common = dict(filter_data=False, voffset=0., ioffset=0., verbose=False, ifdata_npts=601, ifdata_sigma=None, vshot=SHOTS[0])
    for with_dcif, best in itertools.product((False, True), ({}, {'best_pt': 'Min Tn'}, {'vbest': 1.7e-3})):
        d = DCData(dcarr, dcif if with_dcif else None, **common)
        if with_dcif:
            ifd, meta = dcif_data(dcif, d.dc, **common)
            for a in ('if_noise', 'corr', 'if_fit'):
                ctx.true(getattr(d, a) == getattr(meta, a), 'DCData.{}', a)
            ctx.close(d.if_data, ifd, atol=1e-9, what='DCData.if_data')
            ctx.close(d.shot_slope, meta.shot_slope, atol=1e-9, what='DCData.shot_slope')
            ctx.true('{:.2f}'.format(d.if_noise) in str(d), 'IF noise is not in the summary')
        before = {a: np.array(x, copy=True) for a, x in vars(d).items() if isinstance(x, (np.ndarray, float))}
        p = PumpedData(ivarr, d, hot, cold, freq=vph / 4.13566769e-6, analyze_iv=False, **dict(common, **best))
        for a, x in before.items():
            ctx.same(getattr(d, a), x, 'DCData.' + a)
        kw = dict(common, freq=p.freq, **best)
        res, idx, out = if_data(hot, cold, d.dc, dcif=d.dcif, **kw)
        tag = 'with_dcif={} {}'.format(with_dcif, best)
        ctx.close(p.if_hot, res[:, :2], atol=1e-9, what=tag + ' if_hot')
        ctx.close(p.if_cold, res[:, [0, 2]], atol=1e-9, what=tag + ' if_cold')
        ctx.close(p.tn, res[:, 3], atol=1e-9, what=tag + ' tn')
        ctx.close(p.gain, res[:, 4], atol=1e-9, what=tag + ' gain')
        ctx.true(p.idx_best == idx, '{}: idx_best {} instead of {}', tag, p.idx_best, idx)
        ctx.close(p.tn_best, res[idx, 3], atol=1e-9, what=tag + ' tn_best')
        ctx.close(p.gain_best, res[idx, 4], atol=1e-9, what=tag + ' gain_best')
        ctx.close(p.g_db, 10 * math.log10(res[idx, 4]), atol=1e-9, what=tag + ' g_db')
        ctx.close(p.v_best, res[idx, 0], atol=1e-9, what=tag + ' v_best')
        ctx.true((p.if_noise, p.corr, bool(p.good_if_noise_fit)) == (out.if_noise, out.corr, bool(out.if_fit)), '{}: IF noise', tag)
        ctx.close(p.if_noise, 12., atol=1e-3, what=tag + ' IF noise')
        ctx.close(p.shot_slope, out.shot_slope, atol=1e-9, what=tag + ' shot_slope')
        # dynamic resistance (ohm) just above the best bias point
        vb = p.v_best * p.vgap
        k = np.abs(p.voltage - p.v_best).argmin()
        sl = slice(k, k + 10)
        cond = np.polyfit(p.voltage[sl] * p.vgap, p.current[sl] * p.igap, 1)[0]
        ctx.close(p.zj_if, 1 / cond, atol=0, rtol=1e-6, what=tag + ' dynamic resistance')
        ctx.close(p.vph, vph / j.vgap, atol=0, rtol=1e-6, what=tag + ' photon voltage')
        ctx.state(with_dcif, str(best))
        ctx.edge(2)
        ctx.obs(idx)
    q = PumpedData(ivarr, d, hot, cold, freq=230., analyze_iv=False, analyze_if=False, **common)
    ctx.true(q.tn is None and q.gain is None and q.if_hot is None and q.tn_best is None, 'IF results with analyze_if=False')
    q = PumpedData(ivarr, d, freq=230., analyze_iv=False, **common)
    ctx.true(q.tn is None and q.gain is None and q.if_hot is None and q.tn_best is None, 'IF results without IF data')
    q = PumpedData(ivarr, d, hot, None, freq=230., analyze_iv=False, **common)
    ctx.true(q.tn is None, 'IF results without cold data')
    ctx.edge(3)
    ctx.trace()


def ranges(case, ctx):
    """The calibration uses the data within the chosen voltage ranges: all of them, and nothing else."""
    from qmix.exp.if_data import dcif_data
    vgap, n = 2.8e-3, 601
    dc = metadata(vint=2e-4, vgap=vgap)
    v = samples(n)
    pool = [(3.605e-3, 4.005e-3), (4.205e-3, 4.305e-3), (4.405e-3, 5.005e-3), (5.105e-3, 5.905e-3)]
    bends = {'line': lambda x: 0., 'wave': lambda x: .8 * np.sin(1900. * x), 'bend': lambda x: 9e5 * (x - 4.5e-3) ** 2, 'step': lambda x: 2. * (x > 4.7e-3)}
    subsets = [c for r in (1, 2, 3, 4) for c in itertools.permutations(pool, r)]
    # ranges that overlap, contain each other or are given twice
    a, b, c = (4.105e-3, 4.805e-3), (4.505e-3, 5.605e-3), (4.605e-3, 4.705e-3)
    subsets += [x for r in (2, 3) for x in itertools.permutations((a, b, c), r)] + [(a, a), (b, a, b), (a, (4.805e-3, 5.005e-3)), (a, pool[0], c, a)]
    for (name, bend), chosen in itertools.product(bends.items(), subsets):
        p = 5.8e3 * (v - 2e-4) + 12. + bend(v)
        m = np.zeros(n, dtype=bool)
        for lo, hi in chosen:
            m |= (lo < v) & (v < hi)
        slope, icept = np.polyfit(v[m], p[m], 1)
        # spikes (Josephson effect) where they must not matter
        q = np.where(m, p, p + 40. * (np.arange(n) % 7 == 0))
        for form in ((chosen, [list(c) for c in chosen], tuple(list(c) for c in chosen)) + ((chosen[0], list(chosen[0])) if len(chosen) == 1 else ())):
            for k in (1., .01):
                keep = str(form)
                ifd, meta = dcif_data(np.vstack((v, q * k)).T, dc, freq=230., ifdata_npts=n, ifdata_sigma=None, verbose=False, v_fmt='V', vshot=form)
                tag = '{} data, ranges {}, scale {}'.format(name, form, k)
                ctx.close(meta.corr, 5.8e3 / slope / k, atol=0, rtol=1e-6, what=tag + ' calibration')
                scale = 5.8e3 / slope
                ctx.close(meta.if_noise, (icept + slope * 2e-4) * scale, atol=1e-4, what=tag + ' IF noise')
                ctx.close(meta.shot_slope[:, 1], (icept + slope * v) * scale, atol=1e-4, what=tag + ' shot noise line')
                ctx.close(ifd[1:-1, 1], q[1:-1] * scale, atol=1e-4, what=tag + ' power')
                ctx.true(str(form) == keep, 'ranges of the caller changed')
                ctx.state(name, chosen, str(form), k)
                ctx.edge()
                ctx.obs(meta.corr)
    ctx.trace()


def reject(case, ctx):
    from qmix.exp.if_data import dcif_data, if_data
    rec = Receiver(230., 12., 2e-4)
    v = samples()
    dc = metadata()
    good = np.vstack((v * 1e3, rec.power(v, 'hot'))).T
    kw = dict(freq=230., verbose=False, vshot=SHOTS[0])
    for name, bad in (('list', good.tolist()), ('1-d', v), ('3 columns', np.vstack((v, v, v)).T), ('3-d', good[None])):
        ctx.raises(AssertionError, lambda: if_data(bad, good, dc, **kw), 'hot data: ' + name)
        ctx.raises(AssertionError, lambda: if_data(good, bad, dc, **kw), 'cold data: ' + name)
        ctx.raises(AssertionError, lambda: dcif_data(bad, dc, **kw), 'DC IF data: ' + name)
        ctx.state('bad', name)
        ctx.edge(3)
    cold = np.vstack((v * 1e3, rec.power(v, 'cold'))).T
    for bp in ('Min Gain', '', 'tn'):
        ctx.raises(ValueError, lambda: if_data(good, cold, dc, best_pt=bp, **kw), 'best_pt={!r}'.format(bp))
        ctx.state('best', bp)
        ctx.edge()
    # integers
    hot = np.array([[0, 10], [1, 30], [2, 60], [3, 60], [4, 58], [5, 116], [6, 174]])
    cold = np.array([[0, 10], [1, 20], [2, 30], [3, 30], [4, 58], [5, 116], [6, 174]])
    for vf, s in (('V', 1.), ('mV', 1e3), ('uV', 1e6)):
        kk = dict(freq=230., verbose=False, vshot=(3.9 / s, 6.1 / s), ifdata_sigma=None, v_fmt=vf, vmax=6. / s, ifdata_npts=61)
        res = [if_data(h, c, dc, **kk)[0] for h, c in ((hot, cold), (hot.astype(float), cold.astype(float)))]
        ctx.close(res[0], res[1], atol=1e-9, what='integer data in ' + vf)
        ctx.edge()
    ctx.trace()


def check(case, ctx):
    {'small': small, 'physics': physics, 'present': present, 'rseries': rseries, 'classes': classes, 'reject': reject, 'ranges': ranges}[case['kind']](case, ctx)
