"""C25: result files and figures show the data they were made from.

States are histories of plotting calls on shared objects, together with what
those calls left behind: the files in a scratch directory and the open figures.
Every method is explored in every mode (save to a file, draw on given axes, make
a new figure) in every sequence up to the bound; after each call the new curves
are read back from the figure and compared with the data, and nothing else may
have changed.  The text files of the overall results are explored for every
ordered selection of measurements.
"""

import collections
import io
import itertools
import os
import re
import shutil
import tempfile
from contextlib import redirect_stdout

import numpy as np

from mc.checks import c21, c23

MODEL = 'curves, markers and numbers computed from the attributes (SI units); files and figures as a set'
BOUNDS = {'quick': '2 DC and 4 pumped data sets and 7 response functions, all methods x all sequences of 2 consecutive calls over 5 modes (as parts of one path); all 2^10 subsets of existing folders x 3 spellings of the path; all ordered selections of up to 2 (of 4) measurements, 3 of them with every option',
          'thorough': 'all sequences of 3 consecutive calls; all 2^10 subsets x 6 spellings; all ordered selections of up to 4 measurements'}
CASE_TIMEOUT = 600

FOLDERS = ['dciv', 'iv-curves', 'iv-if', 'impedance', 'impedance-sim', 'if-noise', 'noise-temp', 'if-spectrum', 'overall-results', 'csv']
DC_METHODS = ['plot_dciv', 'plot_offset', 'plot_if_noise']
IV_METHODS = ['plot_iv', 'plot_error_surface', 'plot_simulated']
IF_METHODS = ['plot_if', 'plot_ivif', 'plot_noise_temp', 'plot_yfac_noise_temp', 'plot_gain_noise_temp', 'plot_gain']
TWO = {'plot_if_noise', 'plot_ivif', 'plot_noise_temp', 'plot_yfac_noise_temp', 'plot_gain_noise_temp'}
DC_SETS = ['dc', 'dcif']
IV_SETS = ['full', 'recovered', 'if only', 'bare']
RESP_SETS = ['resp poly', 'resp exp', 'resp smear', 'resp perfect', 'resp perfect smear', 'resp data', 'resp few points']
MODES = ['png', 'pdf', 'axes', 'shared', 'new']
PATHS = ['plain', 'slash', 'relative', 'nested', 'nested slash', 'dot']


def methods(name):
    if name in RESP_SETS:
        return ['plot', 'plot_interpolation', 'show_current']
    if name in DC_SETS:
        return DC_METHODS if name == 'dcif' else DC_METHODS[:2] + ['plot_if_noise']
    out = ['plot_iv']
    if name in ('full', 'recovered'):
        out += IV_METHODS[1:]
    if name in ('full', 'if only'):
        out += IF_METHODS
    return out


def cases(tier):
    for form in PATHS[:3] if tier == 'quick' else PATHS:
        yield {'kind': 'folders', 'path': form}
    for name in RESP_SETS:
        yield {'kind': 'mixed', 'data': name}
        for m in methods(name):
            yield {'kind': 'plot', 'data': name, 'method': m}
    for name in DC_SETS + IV_SETS:
        for m in methods(name):
            yield {'kind': 'plot', 'data': name, 'method': m}
        yield {'kind': 'mixed', 'data': name}
        yield {'kind': 'all', 'data': name}
    n = (1, 2) if tier == 'quick' else (1, 2, 3, 4)
    for k in n:
        for sel in itertools.permutations(range(4), k):
            yield {'kind': 'overall', 'select': list(sel)}
    yield {'kind': 'overall', 'select': [2, 0, 1], 'options': True}
    if tier == 'thorough':
        yield {'kind': 'overall', 'select': [3, 1, 0, 2], 'options': True}
    yield {'kind': 'spectrum'}
    yield {'kind': 'text'}


def weight(case):
    return {'folders': 5, 'all': 4, 'overall': 3, 'plot': 4 if case.get('method') == 'plot_error_surface' else 2}.get(case['kind'], 1)


# -- data ----------------------------------------------------------------------

_D = {}
KW = dict(c23.KW, ifdata_npts=601, ifdata_sigma=None, vshot=(4.2e-3, 5.8e-3))
MEAS = [(300., .3 + .1j, 25., 'Max Gain'), (230., .5 - .4j, 8., 'Min Tn'), (345., .7 + .2j, 70., 'Max Gain'), (265., None, 12., 'Min Tn')]


def dcset(name):
    from qmix.exp import DCData
    if name not in _D:
        j = c23.Junction(va=2.7e-3, vb=2.9e-3, vint=1e-4)
        v = j.grid(step=5e-6)
        # leakage that is not a straight line; rounded gap
        i = v / 200. + 4e-6 * np.tanh(v / 4e-4) + (v - np.sign(v) * 1e-4) * (1 / 14. - 1 / 200.) / (1 + np.exp(-(np.abs(v) - 2.8e-3) / 4e-5))
        arr = np.vstack((v * 1e3, i * 1e3)).T
        kw = dict(KW)
        if name == 'dcif':
            kw.update(vrsg=1.5e-3, vleak=1.2e-3)
        rec = c21.Receiver(230., 11., 2e-4)
        vi = c21.samples()
        _D[name] = DCData(arr, np.vstack((vi * 1e3, rec.power(vi, 'dc') * .1)).T if name == 'dcif' else None, **kw)
    return _D[name]


def measurement(k, **kw):
    """Pumped data with a known embedding circuit (or one that no circuit produces)."""
    from qmix.exp import PumpedData
    key = (k, repr(sorted(kw.items())))
    if key not in _D:
        dc = kw.pop('dc', 'dc')
        with_if = kw.pop('with_if', True)
        d = dcset(dc)
        freq, zt, t_if, best = MEAS[k]
        best = kw.pop('best', best)
        if zt is None:
            vph = freq * 1e9 / d.fgap
            a = .7 + .3 * np.sin((c23.GRID - 1 + vph / 2) / vph * 12)
            _, cur = c23.tucker(d.resp, c23.GRID, vph, a)
        else:
            vt, vph, a, ac, cur = c23.measure(d, zt, .6 + .1 * k, freq)
        rec = c21.Receiver(freq, t_if, 2e-4, vgap=d.vgap)
        vi = c21.samples()
        hot, cold = (np.vstack((vi * 1e3, rec.power(vi, s) * .1)).T for s in ('hot', 'cold'))
        _D[key] = PumpedData(c23.array(d, cur), d, *((hot, cold) if with_if else ()), freq=freq, best_pt=best, **dict(KW, **kw))
    return _D[key]


def respset(name):
    from qmix import respfn as rf
    if name not in _D:
        v = np.linspace(0, 7, 1401)
        _D[name] = {'resp poly': lambda: rf.RespFnPolynomial(50, verbose=False), 'resp exp': lambda: rf.RespFnExponential(verbose=False),
                    'resp smear': lambda: rf.RespFnPolynomial(40, v_smear=.04, verbose=False), 'resp perfect': lambda: rf.RespFnPerfect(verbose=False),
                    'resp perfect smear': lambda: rf.RespFnPerfect(v_smear=.03, verbose=False),
                    'resp data': lambda: rf.RespFnFromIVData(v, v * (1 - np.exp(-(v / 1.2) ** 24)) + .02 * np.tanh(v), verbose=False),
                    'resp few points': lambda: rf.RespFnPolynomial(50, max_npts_dc=9, max_npts_kk=15, spline_order=2, verbose=False)}[name]()
    return _D[name]


def dataset(name):
    if name in RESP_SETS:
        return respset(name)
    if name in DC_SETS:
        return dcset(name)
    return {'full': lambda: measurement(0, dc='dcif', fit_range=(.3, .7)), 'recovered': lambda: measurement(1, with_if=False, remb_range=(0, .8), xemb_range=(-.8, .2)),
            'if only': lambda: measurement(2, analyze_iv=False), 'bare': lambda: measurement(1, analyze_iv=False, with_if=False)}[name]()


def content(obj, depth=0):
    """Hashable snapshot of an object."""
    if isinstance(obj, np.ndarray):
        return (obj.dtype.str, obj.shape, obj.tobytes())
    if isinstance(obj, dict):
        return tuple((k, content(obj[k], depth)) for k in sorted(obj, key=str))
    if isinstance(obj, (list, tuple)):
        return tuple(content(x, depth) for x in obj)
    if hasattr(obj, '__dict__') and depth < 2:
        return tuple((k, content(x, depth + 1)) for k, x in sorted(vars(obj).items()))
    return obj if isinstance(obj, (int, float, complex, str, bool, type(None), np.generic)) else type(obj).__name__


# -- reading figures -----------------------------------------------------------

class Saved(object):
    """Records the figures that are saved, at a low resolution."""

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        from matplotlib.figure import Figure
        self.figs = {}
        self.orig = Figure.savefig
        rec = self

        def savefig(fig, fname, *args, **kw):
            kw['dpi'] = 20
            rec.figs.setdefault(os.path.abspath(fname), []).append((fig, limits(fig)))
            return rec.orig(fig, fname, *args, **kw)
        self.cls = Figure
        Figure.savefig = savefig
        return self

    def __exit__(self, *args):
        import matplotlib.pyplot as plt
        self.cls.savefig = self.orig
        plt.close('all')


def limits(fig):
    return [(a.get_xlim(), a.get_ylim()) for a in fig.axes]


def lines(axes):
    return [(a, np.atleast_1d(np.asarray(l.get_xdata(), dtype=float)), np.atleast_1d(np.asarray(l.get_ydata(), dtype=float)))
            for a in axes for l in a.get_lines()]


def texts(axes):
    out = []
    for a in axes:
        leg = a.get_legend()
        if leg is not None:
            out += [t.get_text() for t in leg.get_texts()] + [leg.get_title().get_text()]
        out += [t.get_text() for t in a.texts]
    return out


def has_curve(axes, x, y, tol=1e-6, where=None):
    """A line through the data (samples without data may be left out)."""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    must = (y != 0) & np.isfinite(y)
    if where is not None:
        must = must & where
    scale = np.abs(y[must]).max() if must.any() else 1.
    dx = np.abs(np.diff(np.sort(x))).min() if x.size > 1 else 1.
    order = np.argsort(x)
    for a, lx, ly in lines(axes):
        if lx.size != ly.size or lx.size < must.sum():
            continue
        k = order[np.clip(np.searchsorted(x[order], lx - dx / 4), 0, x.size - 1)]
        if np.any(np.abs(x[k] - lx) > dx / 4 + 1e-12):
            continue
        m = must[k]
        if np.unique(k[m]).size != must.sum():
            continue
        if np.all(np.abs(y[k][m] - ly[m]) <= tol * scale + 1e-12):
            return True
    return False


def has_points(axes, x, y, tol=1e-6):
    """Single points drawn as one or several lines."""
    x, y = np.atleast_1d(x), np.atleast_1d(y)
    for px, py in zip(x, y):
        if not any(lx.size == ly.size and lx.size <= max(2, x.size) and np.any((np.abs(lx - px) <= tol * abs(px) + 1e-9) & (np.abs(ly - py) <= tol * abs(py) + 1e-9))
                   for a, lx, ly in lines(axes)):
            return False
    return True


def has_vline(axes, x):
    return any(lx.size > 0 and np.all(np.abs(lx - x) < 1e-6) for a, lx, ly in lines(axes))


def has_slope(axes, slope, icpt=None, tol=1e-6):
    for a, lx, ly in lines(axes):
        if lx.size < 2 or lx.max() == lx.min():
            continue
        p = np.polyfit(lx, ly, 1)
        if np.abs(np.polyval(p, lx) - ly).max() < 1e-6 * max(np.abs(ly).max(), 1e-9) and abs(p[0] - slope) <= tol * abs(slope) \
                and (icpt is None or abs(p[1] - icpt) <= 1e-6 * max(abs(icpt), 1.)):
            return True
    return False


def has_number(axes, value, digits):
    """A legend entry or annotation with that number."""
    for t in texts(axes):
        for s in re.findall(r'[-+]?\d+\.\d+', t):
            if abs(float(s) - value) <= .5001 * 10 ** -digits:
                return True
    return False


# -- what each figure must show ------------------------------------------------

def expected(obj, method, vmax):
    """[(axis, what, predicate(axes))] - axis 0/1 for figures with two axes."""
    out = []

    def add(axis, what, fn):
        out.append((axis, what, fn))

    if hasattr(obj, 'voltage_kk'):
        add(0, 'dc I-V curve', lambda a: has_curve(a, obj.voltage, obj.current))
        add(0, 'KK transform', lambda a: has_curve(a, obj.voltage_kk, obj.current_kk))
        if method != 'plot':
            add(0, 'interpolated dc I-V curve', lambda a: has_curve(a, obj.voltage, obj.idc(obj.voltage)))
            add(0, 'interpolated KK transform', lambda a: has_curve(a, obj.voltage_kk, obj.ikk(obj.voltage_kk)))
        return out

    mv = obj.vgap * 1e3
    ua = obj.vgap / obj.rn * 1e6
    if method == 'plot_dciv':
        v, i = obj.voltage * mv, obj.current * ua
        add(0, 'I-V curve', lambda a: has_curve(a, v, i))
        add(0, 'gap', lambda a: has_points(a, mv, np.interp(mv, v, i)))
        add(0, 'leakage current', lambda a: has_points(a, obj.vleak * 1e3, obj.ileak * 1e6, 1e-3))
        add(0, 'normal resistance', lambda a: has_slope(a, 1e3 / obj.rn, -obj.vint / obj.rn * 1e6))
        add(0, 'sub-gap resistance', lambda a: has_slope(a, 1e3 / obj.rsg, None, 2e-2))
        for what, x, n in (('Rn', obj.rn, 2), ('Vgap', mv, 2), ('Ileak', obj.ileak * 1e6, 2), ('Rsg', obj.rsg, 1)):
            add(0, what, lambda a, x=x, n=n: has_number(a, x, n))
        add(0, 'voltage range', lambda a: abs(a[0].get_xlim()[1] - vmax) < .05)
    elif method == 'plot_offset':
        v, i = obj.voltage * mv, obj.current * ua
        m = np.abs(v) < .2
        add(0, 'I-V curve', lambda a: has_curve(a, v[m], i[m]))
    elif method == 'plot_if_noise':
        v, i = obj.voltage * mv, obj.current * ua
        add(0, 'I-V curve', lambda a: has_curve(a, v, i))
        add(0, 'normal resistance', lambda a: has_slope(a, 1e3 / obj.rn, -obj.vint / obj.rn * 1e6))
        add(0, 'intercept', lambda a: has_vline(a, obj.vint * 1e3))
        add(1, 'IF power', lambda a: has_curve(a, obj.if_data[:, 0] * mv, obj.if_data[:, 1]))
        add(1, 'shot noise', lambda a: has_curve(a, obj.shot_slope[:, 0] * mv, obj.shot_slope[:, 1]))
        add(1, 'IF noise', lambda a: has_points(a, obj.vint * 1e3, obj.if_noise))
        add(1, 'IF noise', lambda a: has_number(a, obj.if_noise, 2))
    else:
        d = obj.dciv
        vdc, idc = d.voltage * mv, d.current * ua
        v, i = obj.voltage * mv, obj.current * ua
        vif = None if obj.if_hot is None else obj.if_hot[:, 0] * mv
        if method in ('plot_iv', 'plot_ivif', 'plot_simulated'):
            add(0, 'unpumped curve', lambda a: has_curve(a, vdc, idc))
            add(0, 'pumped curve', lambda a: has_curve(a, v, i))
            add(0, 'gap', lambda a: has_vline(a, mv))
            add(0, 'photon step', lambda a: has_vline(a, mv - obj.vph * mv))
        if method in ('plot_if', 'plot_ivif'):
            add(1, 'hot', lambda a: has_curve(a, vif, obj.if_hot[:, 1]))
            add(1, 'cold', lambda a: has_curve(a, vif, obj.if_cold[:, 1]))
        if method == 'plot_if' and d.if_data is not None:
            add(0, 'IF power without LO', lambda a: has_curve(a, d.if_data[:, 0] * mv, d.if_data[:, 1]))
        if method in ('plot_iv', 'plot_if', 'plot_simulated'):
            add(0, 'frequency', lambda a: has_number(a, obj.freq, 1))
        if method in ('plot_noise_temp', 'plot_yfac_noise_temp'):
            smooth = (vif > .7) & (vif < 3.3)
        if method == 'plot_noise_temp':
            add(0, 'hot', lambda a: has_curve(a, vif, obj.if_hot[:, 1], 2e-2, smooth))
            add(0, 'cold', lambda a: has_curve(a, vif, obj.if_cold[:, 1], 2e-2, smooth))
        if method == 'plot_yfac_noise_temp':
            add(0, 'Y-factor', lambda a: has_curve(a, vif, obj.if_hot[:, 1] / obj.if_cold[:, 1], 2e-2, smooth))
        if method in ('plot_noise_temp', 'plot_yfac_noise_temp', 'plot_gain_noise_temp'):
            finite = np.isfinite(obj.tn) & (np.abs(obj.tn) < 1e6)
            add(1, 'noise temperature', lambda a: has_curve(a, vif, obj.tn, 1e-6, finite))
            add(1, 'best noise temperature', lambda a: has_points(a, vif[obj.idx_best], obj.tn_best))
            add(1, 'best noise temperature', lambda a: has_number(a, obj.tn_best, 1))
        if method == 'plot_gain_noise_temp':
            add(0, 'gain', lambda a: has_curve(a, vif, obj.gain))
            add(0, 'best gain', lambda a: has_points(a, vif[obj.idx_best], obj.gain[obj.idx_best]))
            add(0, 'best gain', lambda a: has_number(a, obj.gain[obj.idx_best], 2))
        if method == 'plot_gain':
            add(0, 'gain (%)', lambda a: has_curve(a, vif, obj.gain * 100))
        if method == 'plot_simulated':
            fit = obj.kwargs.get('fit_range') or (.25, .8)
            lo, hi = 1 - obj.vph + obj.vph * fit[0], 1 - obj.vph * (1 - fit[1])
            vb = np.linspace(0, 2, 201)
            sim = np.interp(vb, c23.GRID, c23.pump(d.resp_smear, c23.GRID, obj.vph, obj.zt, obj.vt)[2])

            def simulated(axes):
                return any(lx.size > 50 and np.ptp(lx) > 1.9 * mv - 1e-6 and np.abs(np.interp(vb * mv, lx, ly) - sim * ua).max() < 1e-2 * ua
                           and not (lx.size == v.size and np.allclose(lx, v)) and not (lx.size == vdc.size and np.allclose(lx, vdc)) for a, lx, ly in lines(axes))
            add(0, 'simulated curve', simulated)
            pts = np.interp([lo, hi], vb, sim) * ua
            add(0, 'fit interval', lambda a: has_points(a, np.array([lo, hi]) * mv, pts, 5e-2) and has_x(a, [lo * mv, hi * mv]))
            for what, x in (('photon voltage', obj.vph * mv), ('source voltage', obj.vt * mv), ('resistance', obj.zt.real * obj.rn), ('reactance', obj.zt.imag * obj.rn)):
                add(0, what, lambda a, x=x: has_number(a, x, 2))
        if method == 'plot_error_surface':
            add(0, 'error surface', lambda a: surface(a, obj))
            add(0, 'resistance', lambda a: has_number(a, obj.zt.real * obj.rn, 2))
            add(0, 'reactance', lambda a: has_number(a, obj.zt.imag * obj.rn, 2))
            add(0, 'minimum', lambda a: any(hasattr(t, 'xy') and abs(t.xy[0] - obj.zt.real * obj.rn) < 1e-6 and abs(t.xy[1] - obj.zt.imag * obj.rn) < 1e-6 for x in a for t in x.texts))
        elif method != 'plot_offset':
            add(0, 'voltage range', lambda a: any(abs(x.get_xlim()[1] - vmax) < 1e-9 for x in a))
    return out


def has_x(axes, xs):
    return any(lx.size == len(xs) and np.allclose(np.sort(lx), np.sort(xs), rtol=1e-9, atol=0) for a, lx, ly in lines(axes))


def surface(axes, obj):
    """The drawn mesh has the error at every impedance."""
    rr, xr = obj.kwargs['remb_range'], obj.kwargs['xemb_range']
    surf = np.asarray(obj.err_surf)
    re_, im_ = np.linspace(rr[0], rr[1], surf.shape[0]) * obj.rn, np.linspace(xr[0], xr[1], surf.shape[1]) * obj.rn
    for a in axes:
        for c in a.collections + a.images:
            z = c.get_array()
            if z is None or z.size != surf.size:
                continue
            if hasattr(c, 'get_paths') and not hasattr(c, 'get_coordinates'):
                paths = c.get_paths()
                mid = np.array([(p.vertices[:4].mean(axis=0)) for p in paths])
            elif hasattr(c, 'get_coordinates'):
                co = c.get_coordinates()
                mid = ((co[1:, 1:] + co[:-1, :-1]) / 2).reshape(-1, 2)
            else:
                continue
            i = np.abs(mid[:, :1] - re_).argmin(axis=1)
            k = np.abs(mid[:, 1:] - im_).argmin(axis=1)
            if np.unique(i * 1000 + k).size != surf.size:
                continue
            if np.abs(mid[:, 0] - re_[i]).max() > 1e-6 * np.abs(re_).max() or np.abs(mid[:, 1] - im_[k]).max() > 1e-6 * np.abs(im_).max():
                continue
            z = np.asarray(z).ravel()
            if np.allclose(z, np.log10(surf[i, k]), rtol=1e-9, atol=1e-9) or np.allclose(z, surf[i, k], rtol=1e-9, atol=0):
                return True
    return False


# -- one call ------------------------------------------------------------------

class World(object):
    """The scratch directory and all figures, before and after each call."""

    def __init__(self, ctx, rec):
        import matplotlib.pyplot as plt
        self.ctx, self.rec, self.plt = ctx, rec, plt
        self.dir = tempfile.mkdtemp(dir=ctx.scratch)
        self.cwd = os.getcwd()
        self.n = 0
        # somebody else's figure, which stays the current one unless a new one is made
        plt.close('all')
        self.other, ax = plt.subplots()
        ax.plot([0, 1], [2, 3])

    def files(self):
        return {os.path.relpath(os.path.join(r, f), self.dir): open(os.path.join(r, f), 'rb').read() for r, d, fs in os.walk(self.dir) for f in fs}

    def mine(self):
        f = self.other
        return (limits(f), [(l[1].tolist(), l[2].tolist()) for l in lines(f.axes)], {k: getattr(f.subplotpars, k) for k in ('left', 'right', 'hspace', 'wspace')})

    def call(self, obj, method, mode, vmax, history):
        ctx, plt = self.ctx, self.plt
        tag = ' '.join('{}:{}'.format(*h) for h in history)
        self.n += 1
        before, figs, state, other = self.files(), set(plt.get_fignums()), content(vars(obj)), self.mine()
        import matplotlib
        rc = dict(matplotlib.rcParams)
        kw = {} if vmax == 4. or hasattr(obj, 'voltage_kk') or method in ('plot_offset', 'plot_if_noise', 'plot_error_surface') else {'vmax_plot': vmax}
        fn = getattr(obj, method)
        none = method == 'plot_if_noise' and obj.if_data is None
        two = method in TWO
        axes = fig = name = None
        if mode in ('png', 'pdf'):
            name = os.path.join(self.dir, 'fig {}.{}'.format(self.n, mode))
            self.rec.figs.clear()
            ret = fn(name, **kw) if self.n % 2 else fn(fig_name=name, **kw)
            now = set(plt.get_fignums())
            ctx.true(ret is None, '{}: returned {}', tag, ret)
            ctx.true(now == figs, '{}: left {} figures open', tag, len(now - figs))
            after = self.files()
            new = set(after) - set(before)
            if none:
                ctx.true(not new, '{}: saved {}', tag, new)
            else:
                ctx.true(new == {os.path.basename(name)}, '{}: saved {}', tag, sorted(new))
                ctx.true(after[os.path.basename(name)][:4] == {'png': b'\x89PNG', 'pdf': b'%PDF'}[mode], '{}: not a {} file', tag, mode)
                fig = self.rec.figs[os.path.abspath(name)][-1][0]
                given = None
        else:
            if mode == 'new':
                ret = fn(**kw)
                given = None
                if not none:
                    fresh = set(plt.get_fignums()) - figs
                    ctx.true(len(fresh) == 1, '{}: made {} figures', tag, len(fresh))
                    fig = plt.figure(list(fresh)[0])
                    got = list(ret) if two else [ret]
                    ctx.true(all(any(g is a for a in fig.axes) for g in got) and len(got) == 1 + two, '{}: returned {}', tag, ret)
            else:
                if mode == 'axes':
                    # axes of a figure that pyplot does not know
                    from matplotlib.figure import Figure
                    fig = Figure()
                    if two and method != 'plot_if_noise':
                        a1 = fig.add_subplot()
                        given = [a1, a1.twinx()]
                    else:
                        given = list(np.ravel(fig.subplots(1 + two, sharex=True)))
                else:
                    # axes that have something on them, and are not the current ones
                    fig, given = self.plt.subplots(1 + two)
                    given = list(np.ravel(given))
                    for a in given:
                        a.plot([0., 1.], [5., 6.], label='mine')
                    figs = set(plt.get_fignums())
                    plt.figure(self.other.number)
                ret = fn(ax=tuple(given) if two else given[0], **kw)
                if not none:
                    ctx.true(len(ret) == 2 and ret[0] is given[0] and ret[1] is given[1] if two else ret is given[0], '{}: returned {}', tag, ret)
                if mode == 'shared':
                    ctx.true(all(any(lx.tolist() == [0., 1.] and ly.tolist() == [5., 6.] for _, lx, ly in lines([a])) for a in given), '{}: removed what was on the axes', tag)
                ctx.true(set(plt.get_fignums()) == figs, '{}: opened or closed another figure', tag)
            ctx.true(set(self.files()) == set(before), '{}: wrote files', tag)
        ctx.true(content(vars(obj)) == state, '{}: the data changed', tag)
        ctx.true(self.mine() == other, '{}: changed another figure', tag)
        after = self.files()
        ctx.true(all(after.get(k) == before[k] for k in before), '{}: changed another file', tag)
        ctx.true(dict(matplotlib.rcParams) == rc, '{}: changed the settings of matplotlib', tag)
        if not none:
            for axis, what, fn in expected(obj, method, vmax):
                axes = fig.axes if given is None else [given[min(axis, len(given) - 1)]]
                if what == 'voltage range' and given is not None:
                    axes = given
                ctx.true(fn(axes), '{}: no {} in the figure', tag, what)
        if mode == 'new' and fig is not None:
            plt.close(fig)
        elif mode == 'shared':
            plt.close(fig)
        ctx.edge()
        ctx.obs((method, mode))

    def close(self):
        self.plt.close('all')
        shutil.rmtree(self.dir)


def walk(n):
    """Shortest path over the modes that has every sequence of n modes (de Bruijn)."""
    if n == 1:
        return list(MODES)
    out, left = [], {}
    for seq in itertools.product(MODES, repeat=n - 1):
        left[seq] = list(MODES)
    stack = [(MODES[0], ) * (n - 1)]
    while stack:
        if left[stack[-1]]:
            stack.append(stack[-1][1:] + (left[stack[-1]].pop(), ))
        else:
            out.append(stack.pop()[-1])
    path = [MODES[0]] * (n - 2) + out[::-1]
    assert {tuple(path[k:k + n]) for k in range(len(path) - n + 1)} == set(itertools.product(MODES, repeat=n))
    return path


def plot(case, ctx):
    obj = dataset(case['data'])
    m = case['method']
    slow = m in ('plot_error_surface', 'plot_simulated')
    with Saved() as rec:
        world = World(ctx, rec)
        depth = 1 + (not slow) + ctx.thorough
        vs = (4., 2.5)
        # a path that has every sequence of that length as a part
        path, hist, seen = walk(depth), [], collections.Counter()
        for k, mode in enumerate(path):
            vmax = vs[seen[mode] % 2]
            seen[mode] += 1
            hist = (hist + [(m, mode)])[-depth:]
            world.call(obj, m, mode, vmax, hist)
            if k >= depth - 1:
                ctx.state(case['data'], m, tuple(path[k - depth + 1:k + 1]))
                ctx.trace()
        if depth == 1:
            for mode in MODES:
                world.call(obj, m, mode, vs[1], [(m, mode)])
                ctx.state(case['data'], m, (mode, ), vs[1])
                ctx.trace()
        world.close()


def mixed(case, ctx):
    """Different methods one after the other, in every order of two."""
    obj = dataset(case['data'])
    ms = [m for m in methods(case['data']) if m != 'plot_error_surface' or ctx.thorough]
    with Saved() as rec:
        world = World(ctx, rec)
        for (a, b), (ma, mb) in itertools.product(itertools.permutations(ms, 2), (('new', 'png'), ('png', 'new')) if ctx.thorough else (('new', 'png'), )):
            hist = [(a, ma)]
            world.call(obj, a, ma, 4., hist)
            hist.append((b, mb))
            world.call(obj, b, mb, 3.5, hist)
            ctx.state(case['data'], a, b, ma)
            ctx.trace()
        world.close()


# -- folders -------------------------------------------------------------------

def spelled(form, root):
    """(path to give, folder meant)"""
    return {'plain': (os.path.join(root, 'out'), 'out'), 'slash': (os.path.join(root, 'out') + '/', 'out'), 'relative': ('out', 'out'),
            'nested': (os.path.join(root, 'a', 'b c'), 'a/b c'), 'nested slash': (os.path.join(root, 'a', 'b') + '/', 'a/b'), 'dot': ('./out/../out/.', 'out')}[form]


def tree(root):
    out = {}
    for r, ds, fs in os.walk(root):
        for d in ds:
            out[os.path.relpath(os.path.join(r, d), root)] = None
        for f in fs:
            with open(os.path.join(r, f), 'rb') as h:
                out[os.path.relpath(os.path.join(r, f), root)] = h.read()
    return out


def folders(case, ctx):
    from qmix.exp.exp_data import initialize_dir
    root = tempfile.mkdtemp(dir=ctx.scratch)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        for sub in itertools.product((0, 1), repeat=len(FOLDERS)):
            for name in os.listdir(root):
                shutil.rmtree(os.path.join(root, name))
            given, meant = spelled(case['path'], root)
            if case['path'] == 'dot' or any(sub):
                os.makedirs(os.path.join(root, meant), exist_ok=True)
            for k, f in zip(sub, FOLDERS):
                if k:
                    os.makedirs(os.path.join(root, meant, f))
                    with open(os.path.join(root, meant, f, 'mine.txt'), 'w') as h:
                        h.write(f)
            before = tree(root)
            for again in range(2):
                initialize_dir(given)
                want = dict(before)
                parts = meant.split('/')
                for n in range(1, len(parts) + 1):
                    want['/'.join(parts[:n])] = None
                for f in FOLDERS:
                    want[os.path.join(meant, f)] = None
                got = tree(root)
                ctx.true(got == want, 'existing {}, path {!r}: {} instead of {}', [f for k, f in zip(sub, FOLDERS) if k], given, sorted(set(got) ^ set(want)), 'the folders' if again == 0 else 'no change')
                ctx.edge()
            ctx.state(case['path'], sub)
        ctx.obs(len(got))
        ctx.trace()
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)


STRUC = {'Pumped IV curve': 'one', 'IV + IF': 'two/', 'Impedance recovery': 'three/four', 'Impedance recovery (sim)': 'one', 'Noise temperature': ''}


def plot_all(case, ctx):
    obj = dataset(case['data'])
    dc = case['data'] in DC_SETS
    with Saved() as rec:
        for arg, there, vmax in itertools.product((None, '', 'sub', 'a/b/') if dc else (None, '', STRUC), (False, True), (4., 2.8)):
            root = tempfile.mkdtemp(dir=ctx.scratch)
            out = os.path.join(root, 'figs' if there else 'x/figs')
            if there:
                os.makedirs(os.path.join(out, 'dciv' if dc else 'iv-curves'))
                with open(os.path.join(out, 'mine.txt'), 'w') as h:
                    h.write('mine')
            state = content(vars(obj))
            rec.figs.clear()
            import matplotlib.pyplot as plt
            n = len(plt.get_fignums())
            kw = {} if vmax == 4. else {'vmax_plot': vmax}
            for again in range(2):
                if dc:
                    obj.plot_all(out, **dict(kw, **({} if arg is None else {'sub_folder': arg})))
                else:
                    obj.plot_all(out, **dict(kw, **({} if arg is None else {'file_struc': arg})))
            tag = '{} plot_all {} existing {}'.format(case['data'], arg, there)
            ctx.true(len(plt.get_fignums()) == n, '{}: left figures open', tag)
            ctx.true(content(vars(obj)) == state, '{}: the data changed', tag)
            # which figures, where
            if dc:
                sub = 'dciv' if arg is None else arg
                want = {os.path.join(sub, 'dciv.png'): 'plot_dciv'}
                if obj.if_data is not None:
                    want[os.path.join(sub, 'dcif.png')] = 'plot_if_noise'
            else:
                f = str(obj.freq)
                st = {'Pumped IV curve': 'iv-curves', 'IV + IF': 'iv-if', 'Impedance recovery': 'impedance', 'Impedance recovery (sim)': 'impedance-sim', 'Noise temperature': 'noise-temp'}
                if arg == '':
                    st = {k: '' for k in st}
                elif arg is not None:
                    st = arg
                want = {os.path.join(st['Pumped IV curve'], f + '-iv.png'): 'plot_iv'}
                if obj.if_hot is not None:
                    want[os.path.join(st['IV + IF'], f + '-iv-if.png')] = 'plot_ivif'
                    want[os.path.join(st['Noise temperature'], f + '-tn.png')] = 'plot_noise_temp'
                if obj.zt is not None:
                    want[os.path.join(st['Impedance recovery'], f + '-err-surf.png')] = 'plot_error_surface'
                    want[os.path.join(st['Impedance recovery (sim)'], f + '-sim.png')] = 'plot_simulated'
            got = {os.path.relpath(k, out): v for k, v in rec.figs.items()}
            want = {os.path.normpath(k): v for k, v in want.items()}
            ctx.true(set(got) == set(want), '{}: saved {} instead of {}', tag, sorted(got), sorted(want))
            files = {k for k, v in tree(out).items() if v is not None}
            ctx.true(files == set(want) | ({'mine.txt'} if there else set()), '{}: files {}', tag, sorted(files))
            for name, m in want.items():
                for axis, what, fn in expected(obj, m, vmax):
                    ctx.true(fn(got[name][-1][0].axes), '{}: no {} in {}', tag, what, name)
            ctx.state(case['data'], str(arg), there, vmax)
            ctx.edge(2)
            ctx.obs(sorted(want))
            shutil.rmtree(root)
    ctx.trace()


# -- overall results -----------------------------------------------------------

def overall(case, ctx):
    from qmix.exp import plot_overall_results
    d = dcset('dc')
    data = [measurement(k, dc='dc') for k in case['select']]
    ctx.true([bool(measurement(k, dc='dc').fit_good) for k in range(4)] == [True, True, True, False], 'quality of the impedance recovery')
    ctx.true([bool(measurement(k, dc='dc').good_if_noise_fit) for k in range(4)] == [True, True, False, True], 'quality of the IF noise')
    opts = [{}]
    if case.get('options'):
        opts += [dict(vmax_plot=3.), dict(figsize=(4, 3)), dict(tn_max=250.), dict(f_range=(200., 400.)), dict(vmax_plot=5., figsize=(8, 2), tn_max=90., f_range=(250, 320))]
    import matplotlib.pyplot as plt
    for opt in opts:
        root = tempfile.mkdtemp(dir=ctx.scratch)
        with Saved() as rec:
            n = len(plt.get_fignums())
            state = [content(vars(x)) for x in [d] + data]
            keep = list(data)
            # results of other measurements are replaced
            if len(data) > 1:
                plot_overall_results(d, data[::-1][:1], root)
            rec.figs.clear()
            plot_overall_results(d, data, root, **opt)
            tag = 'measurements {} {}'.format(case['select'], opt)
            ctx.true(len(plt.get_fignums()) == n, '{}: left figures open', tag)
            ctx.true([content(vars(x)) for x in [d] + data] == state and all(a is b for a, b in zip(keep, data)) and len(keep) == len(data), '{}: the data changed', tag)
            files = tree(root)
            text(ctx, tag, d, data, {k: v.decode() for k, v in files.items() if k.startswith('csv' + os.sep) and v is not None})
            figures(ctx, tag, d, data, rec, root, opt)
            ctx.true(all(f in files and files[f] is None for f in FOLDERS), '{}: folders', tag)
        shutil.rmtree(root)
        ctx.state(case['select'], str(opt))
        ctx.edge()
    ctx.obs(tag)
    ctx.trace()


def number(s):
    return float(re.search(r'[-+]?\d+(\.\d+)?(e[-+]?\d+)?', s).group(0))


def text(ctx, tag, d, data, files):
    files = {os.path.basename(k): v for k, v in files.items()}
    ctx.true({'dciv-data.txt', 'recovered-emb.txt', 'dciv-info.txt', 'results.txt'} <= set(files), '{}: text files {}', tag, sorted(files))
    iv = np.array([[float(x) for x in l.split()] for l in files['dciv-data.txt'].splitlines()])
    ctx.close(iv, np.vstack((d.voltage, d.current)).T, atol=1e-12, rtol=1e-12, what=tag + ' dciv-data.txt')
    info = {l.split('\t')[0].strip(): number(l.split('\t')[1]) for l in files['dciv-info.txt'].splitlines()}
    for k, v in (('Gap voltage', d.vgap * 1e3), ('Normal resistance', d.rn), ('Gap frequency', d.fgap / 1e9)):
        ctx.close(info[k], v, atol=.00501, what='{} {}'.format(tag, k))
    rows = [l.split('\t') for l in files['recovered-emb.txt'].splitlines()]
    ctx.true(len(rows) == len(data), '{}: {} rows in recovered-emb.txt', tag, len(rows))
    for r, m in zip(rows, data):
        ctx.close(float(r[0]), m.freq, atol=0, what=tag + ' frequency')
        ctx.close(float(r[1]), m.vt * m.vgap * 1e3, atol=.00501, what=tag + ' source voltage')
        re_, im_ = (float(x) for x in re.match(r'\s*([-+.\d]+)\s*\+\s*1j\s*\*\s*\(\s*([-+.\d]+)\)', r[2]).groups())
        ctx.close(re_ + 1j * im_, m.zt * m.rn, atol=.00801, what=tag + ' impedance')
        ctx.true(r[3].strip() == str(bool(m.fit_good)), '{}: recovered {} instead of {}', tag, r[3], m.fit_good)
    lines_ = files['results.txt'].splitlines()
    head = lines_[0].split(', ')
    ctx.true(len(lines_) == len(data) + 1, '{}: {} rows in results.txt', tag, len(lines_) - 1)
    for l, m in zip(lines_[1:], data):
        row = dict(zip(head, l.split(', ')))
        ctx.true(len(l.split(', ')) == len(head), '{}: {} columns', tag, len(l.split(', ')))
        for k, v, tol in (('Frequency (GHz)', m.freq, 1e-9), ('Noise Temperature (K)', m.tn_best, .00501), ('Gain (dB)', m.g_db, .00501), ('Drive Level', m.alpha, .00501),
                          ('Embedding Voltage (mV)', m.vt * m.vgap * 1e3, 5.01e-5), ('IF Noise (K)', m.if_noise, 1e-6)):
            ctx.close(float(row[k]), v, atol=tol, what='{} {}'.format(tag, k))
        ctx.close(complex(row['Embedding Impedance (ohms)']), m.zt * m.rn, atol=8e-5, what=tag + ' embedding impedance')
        ctx.true(row['Embedding Circuit Recovered'] == str(bool(m.fit_good)), '{}: recovered {}', tag, row['Embedding Circuit Recovered'])
        ctx.true(row['IF Noise Recovered'] == str(bool(m.good_if_noise_fit)), '{}: IF noise recovered {}', tag, row['IF Noise Recovered'])


def figures(ctx, tag, d, data, rec, root, opt):
    figs = {}
    for k, v in rec.figs.items():
        ctx.true(os.path.dirname(os.path.relpath(k, root)) == 'overall-results', '{}: figure {}', tag, os.path.relpath(k, root))
        figs[os.path.basename(k)] = v[-1][0]
    f = np.array([m.freq for m in data])
    mv, ua = d.vgap * 1e3, d.vgap / d.rn * 1e6
    good = [m for m in data if m.fit_good]
    gif = [m for m in data if m.good_if_noise_fit]
    sets = {'rdyn.png': [(data, [m.zj_if for m in data])],
            'noise_temperature.png': [(data, [m.tn_best for m in data])], 'noise_temperature_logy.png': [(data, [m.tn_best for m in data])],
            'noise_temperature_spline_fit.png': [(data, [m.tn_best for m in data])],
            'noise_temperature_and_gain.png': [(data, [m.tn_best for m in data]), (data, [m.g_db for m in data])],
            'if_noise.png': [(gif, [m.if_noise for m in gif])],
            'embedding_impedance.png': [(good, [(m.zt * m.rn).real for m in good]), (good, [(m.zt * m.rn).imag for m in good])],
            'embedding_impedance_all.png': [(data, [(m.zt * m.rn).real for m in data]), (data, [(m.zt * m.rn).imag for m in data])],
            'embedding_voltage.png': [(good, [m.vt * mv for m in good])],
            'drive_level.png': [(data, [m.alpha for m in data])],
            'junction_impedance.png': [(data, [(m.zw * m.rn).real for m in data]), (data, [(m.zw * m.rn).imag for m in data])]}
    ctx.true(set(figs) >= set(sets) | {'iv_curves.png'}, '{}: no figure {}', tag, sorted(set(sets) - set(figs)))
    for name, want in sets.items():
        for ms, y in want:
            x = [m.freq for m in ms]
            ok = any(lx.size == len(x) and np.allclose(np.array(sorted(zip(lx, ly))).ravel(), np.array(sorted(zip(x, y))).ravel(), rtol=1e-9, atol=1e-12) for a, lx, ly in lines(figs[name].axes))
            ctx.true(ok, '{}: {} does not show {} at {}', tag, name, y, x)
        if 'f_range' in opt:
            ctx.true(any(np.allclose(a.get_xlim(), opt['f_range']) for a in figs[name].axes), '{}: frequency range of {}', tag, name)
        if 'figsize' in opt:
            ctx.true(np.allclose(figs[name].get_size_inches(), opt['figsize']), '{}: size of {}', tag, name)
    if 'tn_max' in opt:
        ctx.true(abs(figs['noise_temperature.png'].axes[0].get_ylim()[1] - opt['tn_max']) < 1e-9, '{}: noise temperature range', tag)
    ax = figs['iv_curves.png'].axes
    ctx.true(has_curve(ax, d.voltage * mv, d.current * ua), '{}: no unpumped curve', tag)
    for m in data:
        ctx.true(has_curve(ax, m.voltage * mv, m.current * ua), '{}: no pumped curve {}', tag, m.freq)
        ctx.true(any(str(m.freq) in t for t in texts(ax)), '{}: no label {}', tag, m.freq)
    ctx.true(abs(ax[0].get_xlim()[1] - opt.get('vmax_plot', 4.)) < 1e-9, '{}: voltage range', tag)


# -- IF spectra ----------------------------------------------------------------

def spectrum(case, ctx):
    from qmix.exp import plot_if_spectrum
    import matplotlib.pyplot as plt
    f = np.linspace(1, 19, 301)
    names = ['f230.2_comb', 'f345_comb_2', 'f650_fine-comb']
    for n, out, order in itertools.product((0, 1, 2, 3), ('other', 'same', None), ('columns', 'rows')):
        root = tempfile.mkdtemp(dir=ctx.scratch)
        src = os.path.join(root, 'data')
        os.makedirs(src)
        dst = {'other': os.path.join(root, 'figs'), 'same': src, None: None}[out]
        if out == 'other':
            os.makedirs(dst)
        tn = {}
        for k, name in enumerate(names[:n]):
            t = 100. + 40 * k + 30 * np.sin(f / 2)
            y = (293. + t) / (77. + t) if False else None
            # hot and cold powers in dBm
            th, tc = load_temperatures()
            hot, cold = 10 * np.log10((th + t) * 1e-9), 10 * np.log10((tc + t) * 1e-9)
            arr = np.vstack((f, hot, cold))
            np.savetxt(os.path.join(src, name + '.dat'), arr.T if order == 'columns' else arr)
            tn[name] = t
        with open(os.path.join(src, 'f100_other.dat'), 'w') as h:
            h.write('no spectrum')
        before = tree(root)
        with Saved() as rec:
            nf = len(plt.get_fignums())
            if n:
                plot_if_spectrum(src, dst)
            else:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    plot_if_spectrum(src, dst)
            after = tree(root)
            tag = '{} spectra, figures to {} ({})'.format(n, out, order)
            ctx.true(all(after.get(k) == v for k, v in before.items()), '{}: files changed', tag)
            if out is None:
                ctx.true(set(after) == set(before) and not rec.figs, '{}: wrote files', tag)
                figs = [plt.figure(k) for k in plt.get_fignums()]
            else:
                ctx.true(len(plt.get_fignums()) == nf, '{}: left figures open', tag)
                new = set(after) - set(before)
                ctx.true(all(os.path.join(root, k).startswith(dst + os.sep) for k in new), '{}: wrote {}', tag, sorted(new))
                for name in list(tn) + ['if_spectra', 'if_spectra_smooth']:
                    ctx.true(os.path.relpath(os.path.join(dst, name + '.png'), root) in new, '{}: no figure {} in {}', tag, name, sorted(new))
                figs = [v[-1][0] for v in rec.figs.values()]
                for name, t in tn.items():
                    fig = rec.figs[os.path.join(dst, name + '.png')][-1][0]
                    ctx.true(has_curve(fig.axes, f, t, 1e-5), '{}: noise temperature {}', tag, name)
                fig = rec.figs[os.path.join(dst, 'if_spectra.png')][-1][0]
                ctx.true(all(has_curve(fig.axes, f, t, 1e-5) for t in tn.values()), '{}: overall figure', tag)
                fig = rec.figs[os.path.join(dst, 'if_spectra_smooth.png')][-1][0]
                ctx.true(all(has_curve(fig.axes, f, t, 1e-2) for t in tn.values()), '{}: overall smoothed figure', tag)
                lab = texts(fig.axes)
                ctx.true(all(any(name[1:].split('_')[0] in x for x in lab) for name in tn), '{}: labels {}', tag, lab)
            for name, t in tn.items():
                ctx.true(any(has_curve(fig.axes, f, t, 1e-5) for fig in figs), '{}: noise temperature {}', tag, name)
        shutil.rmtree(root)
        ctx.state(n, out, order)
        ctx.edge()
    ctx.obs(n)
    ctx.trace()


def load_temperatures():
    from qmix.exp.parameters import params
    return params['t_hot'], params['t_cold']


# -- printed summaries ---------------------------------------------------------

def plain(s):
    return re.sub(r'\x1b\[[0-9;]*m', '', s)


def printed(s):
    """label -> first number"""
    out = {}
    for l in plain(s).splitlines():
        m = re.match(r'\s*-?\s*([A-Za-z. ]+?)\s*:\s*([-+]?\d+\.?\d*)', l)
        if m:
            out.setdefault(m.group(1).strip().lower(), []).append(float(m.group(2)))
    return out


def summary(case, ctx):
    from qmix.exp import DCData, PumpedData
    for name in DC_SETS:
        d = dcset(name)
        state = content(vars(d))
        buf = io.StringIO()
        with redirect_stdout(buf):
            print(d)
            d.print_info()
            DCData(np.vstack((d.dc.vraw * 1e3, d.dc.iraw * 1e3)).T, **dict(KW, verbose=True))
        p = printed(buf.getvalue())
        for k, v in (('vgap', d.vgap * 1e3), ('fgap', d.fgap / 1e9), ('rn', d.rn), ('jc', d.vgap / d.rn / d.kwargs['area'] * 1e12 / 1e7), ('vint', d.vint * 1e3)):
            ctx.true(len(p.get(k, [])) == 3 and all(abs(x - v) <= .00501 for x in p[k]), '{}: printed {} {} instead of {}', name, k, p.get(k), v)
        for k, v in (('rsg', d.rsg), ('q', d.rsg / d.rn), ('ileak', d.ileak * 1e6)):
            ctx.true(len(p.get(k, [])) == 3 and all(abs(x - v) <= .00501 for x in p[k][:2]), '{}: printed {} {} instead of {}', name, k, p.get(k), v)
        if name == 'dcif':
            ctx.true(p.get('if noise') is not None and abs(p['if noise'][0] - d.if_noise) <= .00501, '{}: printed IF noise {}', name, p.get('if noise'))
        nums = [float(x) for x in re.findall(r'\d+\.\d+', repr(d))]
        ctx.true(any(abs(x - d.vgap * 1e3) < .00501 for x in nums) and any(abs(x - d.rn) < .00501 for x in nums), '{}: repr {!r}', name, repr(d))
        ctx.true(content(vars(d)) == state, '{}: printing changed the data', name)
        ctx.state(name)
        ctx.edge(3)
    # impedance recovery
    d = dcset('dc')
    for k in range(3):
        freq, zt, t_if, best = MEAS[k]
        vt, vph, a, ac, cur = c23.measure(d, zt, .6 + .1 * k, freq)
        buf = io.StringIO()
        with redirect_stdout(buf):
            m = PumpedData(c23.array(d, cur), d, freq=freq, **dict(KW, verbose=True))
        p = printed(buf.getvalue())
        tag = 'impedance recovery {}'.format(k)
        r = m.zt.real * m.rn
        ctx.true(abs(p['voltage'][0] - m.vt) <= .00501, '{}: printed voltage {} instead of {}', tag, p.get('voltage'), m.vt)
        ctx.true(abs(p['avail. power'][0] - (m.vt * m.vgap) ** 2 / 8 / r * 1e9) <= .00501, '{}: printed available power {} instead of {}', tag, p['avail. power'], (m.vt * m.vgap) ** 2 / 8 / r * 1e9)
        ctx.true(abs(p['drive level'][0] - m.alpha) <= .00501, '{}: printed drive level {} instead of {}', tag, p['drive level'], m.alpha)
        deliv = abs(m.alpha * m.vph * m.vgap / (m.zw * m.rn)) ** 2 * m.zw.real * m.rn / 2 * 1e9
        ctx.true(abs(p['deliv. power'][0] - deliv) <= .02 * deliv, '{}: printed delivered power {} instead of {}', tag, p['deliv. power'], deliv)
        ctx.true(len(p['impedance']) == 2 and abs(p['impedance'][0] - m.zt.real) <= .00501 and abs(p['impedance'][1] - m.zw.real) <= .00501, '{}: printed impedances {}', tag, p['impedance'])
        ctx.state(k)
        ctx.edge()
    # noise temperature
    for k, best in itertools.product(range(3), ('Max Gain', 'Min Tn')):
        buf = io.StringIO()
        with redirect_stdout(buf):
            m = measurement(k, best=best, verbose=True)
        p = printed(buf.getvalue())
        tag = 'noise temperature {} {}'.format(k, best)
        ctx.true(len(p.get('noise temp', [])) == 1 and abs(p['noise temp'][0] - m.tn_best) <= .0501, '{}: printed {} K instead of {}', tag, p.get('noise temp'), m.tn_best)
        ctx.true(len(p.get('gain', [])) == 1 and abs(p['gain'][0] - m.g_db) <= .00501, '{}: printed {} dB instead of {}', tag, p.get('gain'), m.g_db)
        ctx.state(k, best)
        ctx.edge()
    ctx.obs(sorted(p))
    ctx.trace()


KINDS = {'folders': folders, 'plot': plot, 'mixed': mixed, 'all': plot_all, 'overall': overall, 'spectrum': spectrum, 'text': summary}


def check(case, ctx):
    KINDS[case['kind']](case, ctx)
