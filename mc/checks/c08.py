"""C08: units, powers and junction properties of the embedding circuit.

State graph: operation sequences on one circuit (set frequency, impedance,
voltage, power, drive level in every unit spelling; failing calls; reads).
After every step the whole public state is compared with a plain reference
model in SI units, so each operation may only change what it says it changes.
"""

import itertools

import numpy as np
import scipy.constants as sc

from mc import lib

MODEL = 'dictionary of numbers with the defining formulas P=|V|^2/8R, Vgap=h*fgap/e, normalization by Vgap, fgap, Rn'
BOUNDS = {'quick': 'all constructor argument combinations; every unit in every spelling; all operation sequences of '
                   'length <= 3 over 16 operations for 4 kinds of circuit; powers and resistances over 30 orders of magnitude',
          'thorough': 'all sequences of length <= 4'}

POWER = {'W': 1., 'mW': 1e-3, 'uW': 1e-6, 'nW': 1e-9, 'pW': 1e-12, 'fW': 1e-15, 'dBm': None, 'dBW': None}
FREQ = {'Hz': 1., 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12, 'V': None, 'mV': None, 'norm': None}
KINDS = {'plain': {}, 'full': dict(vgap=2.7e-3, rn=13.5), 'fgap': dict(fgap=6.6e11, rn=20), 'both': dict(
    fgap=7e11, vgap=2.5e-3, rn=8.), 'norn': dict(vgap=2.9e-3)}


class Model(object):

    def __init__(self, num_f, num_p, fgap=None, vgap=None, rn=None):
        self.num_f, self.num_p = num_f, num_p
        self.freq = np.zeros(num_f + 1)
        self.vt = np.zeros((num_f + 1, num_p + 1), dtype=complex)
        self.zt = np.zeros((num_f + 1, num_p + 1), dtype=complex)
        self.fgap, self.vgap, self.rn = fgap, vgap, rn
        if vgap is None and fgap is not None:
            self.vgap = fgap * sc.h / sc.e
        if fgap is None and vgap is not None:
            self.fgap = vgap * sc.e / sc.h
        self.igap = self.vgap / rn if self.vgap is not None and rn is not None else None
        self.names = {}

    def power(self, f, p):
        r = self.zt[f, p].real * self.rn
        return abs(self.vt[f, p] * self.vgap) ** 2 / (8 * r) if r != 0 else 0.


def cases(tier):
    yield {'kind': 'init'}
    yield {'kind': 'units'}
    yield {'kind': 'reject'}
    for kind in KINDS:
        for a in OPS:
            yield {'kind': 'seq', 'circuit': kind, 'first': a, 'depth': 4 if tier == 'thorough' else 3}


def to_w(x, unit):
    if unit == 'dBm':
        return 10 ** (x / 10.) * 1e-3
    if unit == 'dBW':
        return 10 ** (x / 10.)
    return x * POWER[unit]


def from_w(w, unit):
    if unit in ('dBm', 'dBW'):
        with np.errstate(divide='ignore'):
            return 10 * np.log10(w * (1e3 if unit == 'dBm' else 1.))
    return w / POWER[unit]


def spellings(u):
    return sorted({u, u.lower(), u.upper(), u.swapcase()})


# -- operations: (real call, model effect); an effect of None means 'must fail'

def op_freq(f, value, unit):
    def model(m):
        if unit == 'norm':
            m.freq[f] = value
        elif m.fgap is None:
            return False
        elif unit in ('V', 'mV'):
            m.freq[f] = value * (1e-3 if unit == 'mV' else 1.) / m.vgap
        else:
            m.freq[f] = value * FREQ[unit] / m.fgap
    return (lambda c: c.set_freq(value, f, unit)), model


def op_power(f, p, value, unit):
    def model(m):
        if m.vgap is None or m.rn is None or m.zt[f, p] == 0:
            return False
        m.vt[f, p] = np.sqrt(8 * to_w(value, unit) * m.zt[f, p].real * m.rn) / m.vgap
    return (lambda c: c.set_available_power(value, f, p, unit)), model


def op_alpha(f, p, value, zj=None):
    def model(m):
        if m.zt[f, p] == 0 or m.freq[f] == 0:
            return False
        m.vt[f, p] = value * m.freq[f] * (1 + m.zt[f, p] / (.66 if zj is None else zj))
    if zj is None:
        return (lambda c: c.set_alpha(value, f, p)), model
    return (lambda c: c.set_alpha(value, f, p, zj)), model


def op_write(attr, idx, value):
    def real(c):
        getattr(c, attr)[idx] = value

    def model(m):
        getattr(m, attr)[idx] = value
    return real, model


def op_fail(call):
    return call, lambda m: False


def op_name():
    def model(m):
        m.names[2, 1] = 'RF'
    return (lambda c: c.set_name('RF', 2, 1)), model


def op_vph():
    def real(c):
        c.vph[2] = .41

    def model(m):
        m.freq[2] = .41
    return real, model


OPS = {
    'freq1 GHz': op_freq(1, 230, 'GHz'),
    'freq2 mV': op_freq(2, 1.1, 'mV'),
    'freq1 norm': op_freq(1, .37, 'norm'),
    'freq2 thz': op_freq(2, .31, 'THz'),
    'write freq': op_write('freq', 1, .29),
    'zt11': op_write('zt', (1, 1), .31 - .12j),
    'zt22 reactive': op_write('zt', (2, 2), .4j),
    'zt22': op_write('zt', (2, 2), .7),
    'vt22': op_write('vt', (2, 2), .2 - .3j),
    'power11 nW': op_power(1, 1, 12, 'nW'),
    'power22 dBm': op_power(2, 2, -57.3, 'dBm'),
    'alpha11': op_alpha(1, 1, .8),
    'alpha11 zj': op_alpha(1, 1, 1.1, .5),
    'bad unit': op_fail(lambda c: c.set_freq(3., 1, 'eV')),
    'bad power': op_fail(lambda c: c.set_available_power(3., 1, 1, 'kW')),
    'name': op_name(),
}


def compare(ctx, c, m, what):
    ctx.close(c.freq, m.freq, atol=0, rtol=1e-12, what=what + ': freq')
    ctx.close(c.vph, m.freq, atol=0, rtol=1e-12, what=what + ': vph')
    ctx.close(c.vt, m.vt, atol=0, rtol=1e-12, what=what + ': vt')
    ctx.close(c.zt, m.zt, atol=0, rtol=0, what=what + ': zt')
    for k in ('fgap', 'vgap', 'igap', 'rn'):
        got, exp = getattr(c, k), getattr(m, k)
        if exp is None:
            ctx.true(got is None, '{}: {} is {!r}, but it is not defined', what, k, got)
        else:
            ctx.close(got, exp, atol=0, rtol=1e-12, what='{}: {}'.format(what, k))
    ctx.true((c.num_f, c.num_p, c.num_n) == (m.num_f, m.num_p, m.num_f * m.num_p), '{}: size {}', what,
             (c.num_f, c.num_p, c.num_n))
    for f, p in itertools.product(range(m.num_f + 1), range(m.num_p + 1)):
        ctx.true(c.comment[f][p] == m.names.get((f, p), ''), '{}: name of {} is {!r}', what, (f, p), c.comment[f][p])
    for f, p in itertools.product(range(1, m.num_f + 1), range(1, m.num_p + 1)):
        for u in POWER:
            if m.vgap is None or m.rn is None:
                ctx.raises((AssertionError, ValueError, TypeError), lambda: c.available_power(f, p, u), what + ': power without gap')
            else:
                ctx.close(c.available_power(f, p, u), from_w(m.power(f, p), u), atol=1e-11 if u[0] == 'd' else 1e-30, rtol=1e-11,
                          what='{}: power of {} in {}'.format(what, (f, p), u))


def check(case, ctx):
    from qmix.circuit import EmbeddingCircuit
    if case['kind'] == 'init':
        for num_f, num_p in itertools.product((1, 2, 3, 4), (1, 2, 5)):
            for fgap, vgap, rn in itertools.product((None, 6.8e11, 700000000000), (None, 2.8e-3), (None, 14, 21.5)):
                m = Model(num_f, num_p, fgap, vgap, rn)
                c = EmbeddingCircuit(num_f, num_p, fgap=fgap, vgap=vgap, rn=rn)
                ctx.state(num_f, num_p, fgap, vgap, rn)
                ctx.edge()
                compare(ctx, c, m, 'new circuit')
                ctx.close(c.vb, np.linspace(0, 2, 201), atol=1e-15, what='default bias sweep')
                ctx.true(c.name == '' and c.vb_npts == 201, 'default name or number of points')
                ctx.obs((c.vgap, c.fgap, c.igap))
                ctx.trace()
        c = EmbeddingCircuit()
        compare(ctx, c, Model(1, 1), 'default circuit')
        for lo, hi, n in itertools.product((0, -.5, .2), (.2, 1, 2.), (1, 2, 7, 201)):
            c = EmbeddingCircuit(1, 1, lo, hi, n, name='x')
            ctx.state('vb', lo, hi, n)
            ctx.edge()
            ctx.close(c.vb, np.linspace(lo, hi, n), atol=1e-15, what='bias sweep')
            ctx.true(c.vb_npts == n and c.name == 'x', 'number of points {}', c.vb_npts)
            vj = c.initialize_vj()
            ctx.true(vj.shape == (2, 2, n) and vj.dtype == complex and not vj.any(), 'initialize_vj: {} {}', vj.shape, vj.dtype)
            ctx.trace()
        for a, b in itertools.product((1, 2, 3, 4), (1, 2, 3)):
            vj = EmbeddingCircuit(a, b, vb_npts=3).initialize_vj()
            ctx.true(vj.shape == (a + 1, b + 1, 3), 'initialize_vj: {}', vj.shape)
    elif case['kind'] == 'reject':
        good = dict(num_f=1, num_p=1, vb_min=0, vb_max=1, vb_npts=11)
        for k, vals in (('num_f', (0, 5, -1, 1.5)), ('num_p', (0, -1, 1.5, 2.)), ('vb_npts', (0, -3, 2.5, 11.)),
                        ('vb_max', (-1e-9, -2))):
            for v in vals:
                ctx.state(k, v)
                ctx.edge()
                ctx.raises((AssertionError, ValueError, TypeError), lambda: EmbeddingCircuit(**dict(good, **{k: v})),
                           'circuit with {}={}'.format(k, v))
                ctx.trace()
    elif case['kind'] == 'units':
        # every unit in every spelling, for every signal, write then read back in every other unit
        for name, kw in KINDS.items():
            m = Model(2, 2, **kw)
            c = EmbeddingCircuit(2, 2, **kw)
            for f, p in itertools.product((1, 2), (1, 2)):
                c.zt[f, p] = m.zt[f, p] = .2 * f + .1 * p - .1j
            for u, f in itertools.product(FREQ, (1, 2)):
                for s in spellings(u):
                    value = {'Hz': 2.3e11, 'MHz': 2.3e5, 'GHz': 230, 'THz': .23, 'V': 1.1e-3, 'mV': 1.1, 'norm': .4}[u] * f
                    ctx.state(name, u, s, f)
                    ctx.edge()
                    real, model = op_freq(f, value, u)
                    if model(m) is False:
                        ctx.raises((AssertionError, ValueError, TypeError), lambda: c.set_freq(value, f=f, units=s),
                                   'frequency in {} without a gap'.format(s))
                    else:
                        c.set_freq(value, f=f, units=s)
                    compare(ctx, c, m, '{}: set_freq({}, {}, {!r})'.format(name, value, f, s))
                    ctx.obs(c.freq)
                    ctx.trace()
            if m.rn is None or m.vgap is None:
                continue
            for u, f, p in itertools.product(POWER, (1, 2), (1, 2)):
                for s, w in itertools.product(spellings(u), (1e-9, 3e-5)):
                    value = from_w(w, u)
                    ctx.state(name, u, s, f, p, w)
                    ctx.edge()
                    c.set_available_power(value, f=f, p=p, units=s)
                    op_power(f, p, value, u)[1](m)
                    ctx.close(c.available_power(f, p, s), value, atol=0, rtol=1e-11, what='{} power read back'.format(s))
                    compare(ctx, c, m, '{}: set_available_power({}, {}, {}, {!r})'.format(name, value, f, p, s))
                    ctx.obs(c.vt)
                    ctx.trace()
            # sources with very small and very large resistances
            for r, x, w in itertools.product((1e-15, 1e-9, 1e-7, 3e-4, 1., 77., 1e6), (0., .3, -2.), (1e-18, 2e-9, 1e-3)):
                c.zt[2, 2] = m.zt[2, 2] = r + 1j * x
                c.set_available_power(w, 2, 2)
                op_power(2, 2, w, 'W')[1](m)
                compare(ctx, c, m, '{}: power {} W from {}'.format(name, w, r + 1j * x))
                ctx.close(c.available_power(2, 2), w, atol=0, rtol=1e-11, what='power read back')
                ctx.state(name, r, x, w)
                ctx.edge()
            # every kind of number, which stays what it is
            for u in POWER:
                value = round(from_w(4e-6, u))
                if u == 'W':
                    value = 1
                for make in (int, float, np.float64, np.int64, lambda x: np.array(float(x)), lambda x: np.array(int(x))):
                    arg = make(value)
                    c.set_available_power(arg, f=2, p=1, units=u)
                    op_power(2, 1, value, u)[1](m)
                    ctx.true(type(arg) is type(make(value)) and arg == make(value), '{}: the power given in {} changed to {!r}', name, u, arg)
                    compare(ctx, c, m, '{}: set_available_power({!r}, units={!r})'.format(name, arg, u))
                    ctx.state(name, u, repr(arg))
                    ctx.edge()
            # defaults
            c.set_available_power(2e-9)
            op_power(1, 1, 2e-9, 'W')[1](m)
            compare(ctx, c, m, 'default signal and unit of set_available_power')
            ctx.close(c.available_power(), 2e-9, atol=0, rtol=1e-11, what='default signal and unit of available_power')
            c.set_freq(2e11)
            op_freq(1, 2e11, 'Hz')[1](m)
            c.set_alpha(.7)
            op_alpha(1, 1, .7)[1](m)
            compare(ctx, c, m, 'default signal of set_freq and set_alpha')
            ctx.raises((AssertionError, ValueError, KeyError), lambda: c.available_power(1, 1, 'kW'), 'unknown unit')
    else:
        kw = KINDS[case['circuit']]
        for tail in itertools.product(OPS, repeat=case['depth'] - 1):
            seq = (case['first'],) + tail
            c, m = EmbeddingCircuit(2, 2, **kw), Model(2, 2, **kw)
            other = EmbeddingCircuit(2, 2, **kw)
            for n, name in enumerate(seq):
                real, model = OPS[name]
                what = '{}: {}'.format(case['circuit'], ' -> '.join(seq[:n + 1]))
                if model(m) is False:
                    ctx.raises((AssertionError, ValueError, TypeError, KeyError), lambda: real(c), what)
                else:
                    real(c)
                ctx.edge()
                ctx.state(case['circuit'], seq[:n + 1])
                if n == len(seq) - 1:
                    compare(ctx, c, m, what)
                    ctx.obs(np.concatenate([c.freq, c.vt.ravel()]))
            ctx.trace()
            ctx.true(not other.freq.any() and not other.vt.any() and not other.zt.any() and other.comment[2][1] == '',
                     '{}: another circuit was changed', what)
