"""Calls of the public functions of qmix, small enough to be interrupted or
preempted at every line.

``OPS[name]`` is a family.  ``make(variant)`` gives a world (a dict with the
arguments of the call), ``run(world)`` makes the call and returns what the user
gets.  The variants differ in every argument, also in the array sizes.
"""

import itertools
import os

import numpy as np

from mc import lib
from mc.checks.c24 import digest_obj
from mc.models.junction import Junction

OPS = {}


class Op(object):

    def __init__(self, name, group, make, run, file=False):
        self.name, self.group, self.make, self.run, self.file = name, group, make, run, file


def op(name, group, make, file=False):
    def deco(run):
        OPS[name] = Op(name, group, make, run, file)
        return run
    return deco


def digest(o):
    """As seen through the public attributes, bit for bit."""
    if isinstance(o, dict):
        return tuple(sorted((str(k), digest(v)) for k, v in o.items() if not str(k).startswith('_')))
    if isinstance(o, (list, tuple)):
        return tuple(digest(x) for x in o)
    if type(o).__name__ == 'EmbeddingCircuit':
        flags = tuple(bool(getattr(o, a).flags.writeable) for a in ('freq', 'vt', 'zt', 'vb'))
        return digest_obj(lib.circuit_state(o)), flags, digest_obj(o.vph)
    if type(o).__module__.startswith('qmix.respfn'):
        x = np.linspace(-1.7, 1.7, 37)
        return digest_obj([o(x), o.didc(x), o.dikk(x), o.voltage, o.current, o.voltage_kk, o.current_kk])
    if hasattr(o, '__dict__') and type(o).__module__.startswith('qmix.'):
        return digest({k: v for k, v in vars(o).items() if not k.startswith('_')})
    return digest_obj(o)


# -- simulations --------------------------------------------------------------

FREQ = [[.3, .34, .26, .41], [.35, .29, .4, .22]]
VB = [[.46137, .83291, 1.09173], [.35319, .97291]]
NB = {1: [5, 4], 2: [(4, 3), (3, 2)], 3: [(2, 2, 1), (1, 2, 2)], 4: [(1, 1, 1, 1), (2, 1, 1, 1)]}


def sim(num_f, num_p):
    def make(i):
        cct = lib.circuit(FREQ[i][:num_f], num_p, VB[i], vgap=[2.7e-3, 2.9e-3][i], rn=[13., 11.][i])
        cct.vt[1:, 1] = [.2, .15][i]
        cct.zt[1:, 1:] = [.3 + .1j, .2 - .1j][i]
        vj = cct.initialize_vj()
        for f, p in itertools.product(range(1, num_f + 1), range(1, num_p + 1)):
            vj[f, p] = [.15, .1j][i] / (f * p)
        fs = [0.] + [x for x in FREQ[i][:num_f]] + [abs(FREQ[i][0] - FREQ[i][num_f - 1])]
        return dict(cct=cct, vj=vj, resp=lib.resp(['poly:50', 'exp'][i]), fs=fs if i == 0 else fs[:2], num_b=NB[num_f][i])
    return make


for _n, _p in ((1, 2), (2, 1), (3, 1), (4, 1)):
    @op('current{}'.format(_n), 'sim', sim(_n, _p))
    def _(w):
        from qmix.qtcurrent import qtcurrent
        return qtcurrent(w['vj'], w['cct'], w['resp'], w['fs'], num_b=w['num_b'], verbose=False)

    @op('matrix{}'.format(_n), 'sim', sim(_n, _p))
    def _(w):
        from qmix.qtcurrent import interpolate_respfn
        return interpolate_respfn(w['cct'], w['resp'], w['num_b'])

for _n, _p in ((1, 1), (1, 2), (2, 1)):
    @op('balance{}{}'.format(_n, _p), 'sim', sim(_n, _p))
    def _(w):
        from qmix.harmonic_balance import harmonic_balance
        return harmonic_balance(w['cct'], w['resp'], num_b=w['num_b'], max_it=3, mode='x', verbose=False)


@op('check', 'sim', sim(2, 1))
def _(w):
    from qmix.harmonic_balance import check_hb_error
    try:
        check_hb_error(w['vj'], w['cct'], w['resp'], w['num_b'], 1e-3)
        return 'fine'
    except (AssertionError, ValueError) as e:
        return type(e).__name__


@op('currentm', 'sim', lambda i: dict(sim(1, 2)(i), matrix=OPS['matrix1'].run(sim(1, 2)(i))))
def _(w):
    from qmix.qtcurrent import qtcurrent
    return [qtcurrent(w['vj'], w['cct'], w['resp'], f, num_b=w['num_b'], verbose=False, resp_matrix=w['matrix']) for f in w['fs']]


@op('lock', 'circuit', sim(1, 2))
def _(w):
    """A simulation of a copy that is locked meanwhile."""
    import copy
    cct = copy.deepcopy(w['cct'])
    cct.lock()
    out = []
    for a in (cct.freq, cct.vt, cct.zt):
        try:
            a[...] = 7
            out.append('written')
        except ValueError:
            out.append('refused')
    cct.unlock()
    cct.vt[1, 1] = .1
    return [out, cct]


@op('build', 'circuit', lambda i: dict(n=[2, 3][i], p=[2, 1][i], val=[.3, .2][i]))
def _(w):
    from qmix.circuit import EmbeddingCircuit
    x = w['val']
    cct = EmbeddingCircuit(w['n'], w['p'], vb_min=x / 10, vb_max=1 + x, vb_npts=5, vgap=2.5e-3 + x / 1000, rn=10 + x, name='c{}'.format(x))
    for f in range(1, w['n'] + 1):
        cct.set_freq((1 + f * x) * 1e11, f)
        cct.set_name('tone {} {}'.format(f, x), f, 1)
        cct.zt[f, 1] = x + .1j * f
        cct.set_available_power(-60 - f - x, f, 1, 'dBm')
    cct.set_freq(x * 1.1, 1, 'mV')
    cct.set_alpha(.7 + x, 1, 1, zj=.6)
    return [cct, cct.available_power(2, 1, 'pW'), cct.vph, cct.initialize_vj(), str(cct)]


def _file(i):
    w = sim(2, 2)(i)
    return dict(cct=w['cct'], _path=os.path.join(os.environ['VERIF_SCRATCH'], 'ops-{}-{}.txt'.format(os.getpid(), i)))


@op('file', 'circuit', _file, file=True)
def _(w):
    from qmix.circuit import read_circuit
    w['cct'].save_info(w['_path'])
    return [read_circuit(w['_path']), open(w['_path']).read()]


# -- response functions and mathematics ------------------------------------------

def _iv(i):
    v = np.linspace(0, 2.5, [301, 401][i])
    return dict(v=v, i=np.where(v < 1, v ** [30, 20][i], v), kw=dict(max_npts_dc=[21, 31][i], max_npts_kk=[31, 25][i]))


@op('resp-iv', 'resp', _iv)
def _(w):
    from qmix.respfn import RespFnFromIVData
    return RespFnFromIVData(w['v'], w['i'], verbose=False, v_smear=[None, .02][len(w['v']) > 301], **w['kw'])


@op('resp-poly', 'resp', lambda i: dict(n=[30, 60][i]))
def _(w):
    from qmix.respfn import RespFnPolynomial
    return RespFnPolynomial(w['n'], verbose=False, max_npts_dc=20 + w['n'] // 10, max_npts_kk=30)


@op('resp-exp', 'resp', lambda i: dict(kw=dict(vgap=[2.7e-3, 2.9e-3][i], rn=[13., 15.][i], max_npts_dc=[21, 31][i], max_npts_kk=31)))
def _(w):
    from qmix.respfn import RespFnExponential
    return RespFnExponential(verbose=False, **w['kw'])


@op('resp-perfect', 'resp', lambda i: dict(kw=dict(v_smear=[None, .03][i])))
def _(w):
    from qmix.respfn import RespFnPerfect
    r = RespFnPerfect(verbose=False, **w['kw'])
    v = np.linspace(-1.5, 1.5, 13)
    return [r(v), r.idc(.7), r.ikk([.1, 1.2])]


@op('resp-call', 'resp', lambda i: dict(resp=lib.resp(['poly:50', 'exp'][i]), v=np.linspace(-1.4, 1.4, [21, 28][i]).reshape(7, -1)))
def _(w):
    r = w['resp']
    return [f(w['v']) for f in (r, r.idc, r.ikk, r.didc, r.dikk, r.resp_conj, r.resp_swap)]


@op('math', 'math', _iv)
def _(w):
    from qmix.mathfn import filters, ivcurve_models, kktrans, misc
    v, i = w['v'], w['i']
    return [filters.gauss_conv(i, len(v) / 40.), kktrans.kk_trans(v, i, n=10), kktrans.kk_trans_trapz(v[::6], i[::6]), misc.slope(v, i),
            misc.slope_span_n(v, i, 7), ivcurve_models.perfect(v), ivcurve_models.perfect_kk(v), ivcurve_models.polynomial(v, len(v) // 10),
            ivcurve_models.exponential(v * 3e-3), ivcurve_models.expanded(v * 3e-3)]


# -- experimental data ------------------------------------------------------------

def _dcdata(i, step=2e-5):
    j = [Junction(va=2.7e-3, vb=2.86e-3, vint=1e-4), Junction(va=2.5e-3, vb=2.6e-3, rn=11., rsg=200., vint=1e-4)][i]
    v = j.grid(step=step * [1, 1.3][i])
    cur = j.i(v)
    if i == 0:
        dc = np.vstack(((v + 3e-5) * 1e3, (cur + 1e-6) * 1e3)).T
        kw = dict(npts=601, verbose=False, vrn=(4e-3, 6e-3))
    else:
        dc = np.vstack((v * 1.1e6, cur * .7e6)).T[::-1].copy()
        kw = dict(v_fmt='uV', i_fmt='uA', vmax=5e-3, npts=501, v_multiplier=.95, i_multiplier=1.2, rseries=.5, voffset=0., ioffset=0.,
                  filter_data=False, vrn=(4e-3, 5e-3), vrsg=1.5e-3, vleak=1e-3, area=2., verbose=False)
    return dict(j=j, dc=dc, kw=kw)


_EXP = {}


def _dcd(i):
    if i not in _EXP:
        from qmix.exp import DCData
        w = _dcdata(i)
        _EXP[i] = DCData(w['dc'], **w['kw'])
    return _EXP[i]


def _arrays(i):
    w = _dcdata(i)
    j = w['j']
    v = j.grid(step=[2e-5, 2.5e-5][i])
    vph = [.4, .5][i] * j.vgap
    ip = .8 * j.i(v) + .1 * j.i(v + vph) + .1 * j.i(v - vph)
    fmt = [1e3, 1e6][i]
    iv = np.vstack((v * fmt, ip * fmt)).T
    vi = np.linspace(0, [6.2e-3, 5.8e-3][i], [200, 230][i])
    mix = np.clip(np.sin(vi * 800.), 0, None) * (vi < 3.5e-3)
    line = [5.8e3, 4.4e3][i] * vi + 8.
    hot = np.vstack((vi * fmt, line + 90 * mix)).T
    cold = np.vstack((vi * fmt, line + 40 * mix)).T
    kw = [dict(freq=271., npts=601, verbose=False), dict(freq=305., npts=501, v_fmt='uV', i_fmt='uA', filter_data=False, verbose=False)][i]
    kwif = [dict(freq=271., ifdata_npts=300, verbose=False),
            dict(freq=305., v_fmt='uV', ifdata_npts=250, t_hot=300., t_cold=20., best_pt='Min Tn', vshot=[4e-3, 5e-3], verbose=False)][i]
    return dict(base=_dcd(i), iv=iv, hot=hot, cold=cold, kw=kw, kwif=kwif, fit=dict(num_b=[6, 5][i], fit_range=[(.3, .5), (.35, .5)][i]))


@op('dciv', 'exp', _dcdata)
def _(w):
    from qmix.exp.iv_data import dciv_curve
    return dciv_curve(w['dc'], **w['kw'])


@op('DCData', 'exp', _dcdata)
def _(w):
    from qmix.exp import DCData
    d = DCData(w['dc'], **w['kw'])
    return [d, str(d)]


@op('iv', 'exp', _arrays)
def _(w):
    from qmix.exp.iv_data import iv_curve
    return iv_curve(w['iv'], w['base'].dc, **w['kw'])


@op('if', 'exp', _arrays)
def _(w):
    from qmix.exp.if_data import dcif_data, if_data
    return [dcif_data(w['hot'], w['base'].dc, **w['kwif']), if_data(w['hot'], w['cold'], w['base'].dc, **w['kwif'])]


@op('PumpedData', 'exp', _arrays)
def _(w):
    from qmix.exp import PumpedData
    return PumpedData(w['iv'], w['base'], w['hot'], w['cold'], **dict(w['kwif'], **dict(w['kw'], analyze_iv=False)))


@op('impedance', 'exp', _arrays)
def _(w):
    from qmix.exp import PumpedData
    return PumpedData(w['iv'], w['base'], **dict(w['kw'], remb_range=(.2, .3), xemb_range=(0, .1), **w['fit']))


@op('ifresp', 'exp', lambda i: dict(a=np.vstack((np.linspace(2, 10, [30, 20][i]), -20 + .1 * np.arange([30, 20][i]),
                                                 [-23, -22][i] + .09 * np.arange([30, 20][i]))).T, kw=[{}, dict(t_hot=300., ifresp_maxtn=99.)][i]))
def _(w):
    from qmix.exp.if_response import if_response
    return if_response(w['a'], **w['kw'])


@op('clean', 'exp', lambda i: dict(a=np.array([[3, 1, np.nan, 2, 2, 5.][::[1, -1][i]], np.arange(6.) + i]).T))
def _(w):
    from qmix.exp import clean_data
    a = w['a']
    x, y = a.T
    return [clean_data.clean_matrix(a), clean_data.clean_xy(x, y), clean_data.xy_to_matrix(x, y), clean_data.matrix_to_xy(a)]


# -- what a call must not change -----------------------------------------------

def process_state():
    """Settings of the whole process."""
    import decimal
    import logging
    import random
    import signal
    import sys
    import threading
    import warnings

    import matplotlib
    import matplotlib.pyplot as plt
    from qmix.exp.parameters import params
    old = os.umask(0o22)
    os.umask(old)
    fds = sorted(os.listdir('/proc/self/fd'))
    return {
        'numpy errors': repr(sorted(np.geterr().items())), 'numpy error call': repr(np.geterrcall()),
        'numpy printing': repr(sorted(np.get_printoptions().items(), key=str)), 'numpy random': digest_obj(np.random.get_state(legacy=False)['state']),
        'random': hash(random.getstate()), 'warnings': repr([f[:1] + f[2:] for f in warnings.filters]), 'show': repr(warnings.showwarning),
        'plot settings': hash(repr(list(dict.items(matplotlib.rcParams)))), 'figures': repr(plt.get_fignums()),
        'directory': os.getcwd(), 'environment': hash(repr(sorted(os.environ.items()))), 'umask': old, 'open files': len(fds),
        'stdout': id(sys.stdout), 'stderr': id(sys.stderr), 'path': repr(sys.path), 'recursion limit': sys.getrecursionlimit(),
        'decimal': repr(decimal.getcontext().prec), 'logging': logging.root.level, 'log handlers': len(logging.root.handlers),
        'signals': repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)]), 'threads': threading.active_count(),
        'parameters': digest_obj(params),
    }
