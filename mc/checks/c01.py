"""C01: tunneling currents equal the multi-tone spectral-domain current.

State graph: configurations (tones x harmonics x frequency set x excitation
pattern x drive level x response function x form of the summation limits).
Transitions: one real qtcurrent call per configuration and summation-limit
form, each compared at every requested mixing product and every bias point
with the torus model (mc/models/mtsda.py).  The model itself is validated in
the run against a brute-force single-time-axis simulation.
"""

import itertools

import numpy as np

from mc import lib
from mc.core import HarnessError
from mc.models import mtsda

MODEL = 'torus FFT of the phase factor and the junction current (no Bessel functions, no convolution)'
BOUNDS = {'quick': '1-4 tones, 1-4 harmonics (1-2 for 3-4 tones), all listed excitation patterns, drive levels, '
                   'response functions and summation-limit forms; every mixing product within the order limit; products at the edges of the summation limits',
          'thorough': 'as quick with more frequency sets, drive levels, response functions and bias points'}

FREQS = {1: [[.3], [.137], [1.1], [.31234567]],
         2: [[.30, .32], [.32, .05], [.2, .4], [.33, .33], [.30234567, .32187654]],
         3: [[.35, .32, .03], [.31, .33, .24], [.35004373, .32018618, .02992731]],
         4: [[.35, .32, .38, .03], [.30, .27, .11, .04], [.35004373, .32018618, .38002491, .02992731]]}
# (no bias point a whole number of photons away from the singularity of the perfect I-V curve)
VB = {'quick': [-.31127, .43139, .79273, 1.02291, 1.37161], 'thorough': [-1.10313, -.31127, .05321, .43139, .66173, .79273, .97237, 1.02291, 1.37161, 2.20389]}
PHASE = [.4, -1.9, 2.6, .9]


# larger numbers of harmonics, strong drives, very different summation limits, unusual numbers of bias points
EDGES = ([{'freqs': [f], 'num_p': n, 'pattern': pat, 'level': lev, 'resp': 'poly:50', 'npts': 5}
          for f, n, pat, lev in itertools.product((.3, .137), (5, 6, 8, 11), ('all', 'last', 'harmonics'), (.4, 1.3))] +
         [{'freqs': fs, 'num_p': n, 'pattern': pat, 'level': lev, 'resp': rs, 'npts': 4}
          for fs, n, pat, lev, rs in (([.3, .32], 4, 'all', .3, 'exp'), ([.32, .05], 5, 'last', 1., 'poly:50'), ([.2, .4], 4, 'harmonics', .6, 'perfect'),
                                      ([.35, .32, .03], 3, 'all', .2, 'poly:50'), ([.31, .33, .24], 3, 'last', .6, 'exp'),
                                      ([.31, .33, .24], 4, 'last', .6, 'poly:50'),
                                      ([.35, .32, .38, .03], 3, 'lo', .15, 'poly:50'), ([.30, .27, .11, .04], 3, 'last', .5, 'exp'))] +
         [{'freqs': [f], 'num_p': n, 'pattern': 'all', 'level': lev, 'resp': rs, 'npts': 5}
          for f, lev, n, rs in itertools.product((.3, .05), (4.7, 9.1), (1, 2, 3), ('poly:50', 'perfect'))] +
         [{'freqs': [f], 'num_p': n, 'pattern': 'all', 'level': lev, 'resp': 'exp', 'npts': 5}
          for f, lev, n in ((.013, 14., 1), (.013, 33., 2), (2.3, 1.1, 3), (5.1, .7, 1), (11.7, .3, 2))] +
         [{'freqs': [.35, .013], 'num_p': n, 'pattern': 'all', 'level': [.4, 12.], 'resp': 'poly:50', 'npts': 4} for n in (1, 2)] +
         [{'freqs': [.011, .34], 'num_p': n, 'pattern': 'all', 'level': [15., .3], 'resp': 'perfect', 'npts': 4} for n in (1, 2)] +
         [{'freqs': fs, 'num_p': n, 'pattern': 'all', 'level': .3, 'resp': 'poly:50', 'npts': npts}
          for fs, n, npts in itertools.product(([.3], [.30, .32], [.35, .32, .03], [.35, .32, .38, .03]), (1, 2), (1, 2, 3, 40, 257))
          if len(fs) < 3 or n == 1 and (len(fs) == 3 or npts < 40)])


def excite(freqs, num_p, pattern, level):
    """Complex drive voltages [f][p]; level is the drive alpha of the strongest signal."""
    out = []
    for f, fr in enumerate(freqs):
        vs = []
        for p in range(1, num_p + 1):
            amp = (level[f] if isinstance(level, list) else level / (1 + .6 * f)) * fr / p ** 1.5
            on = {'all': True,
                  'fundamental': p == 1,
                  'first': f == 0 and p == 1,
                  'last': f == len(freqs) - 1 and p == num_p,
                  'harmonics': p > 1 or num_p == 1,
                  'lo': True}[pattern]
            if pattern == 'lo' and f > 0:
                amp *= .1
            vs.append(amp * np.exp(1j * (PHASE[f] + 1.3 * p * (f + 1))) if on else 0j)
        out.append(vs)
    return out


def cases(tier):
    thorough = tier == 'thorough'
    yield {'kind': 'model'}
    for nf, num_p, rs in itertools.product((1, 2, 3), (1, 2), ('poly:20', 'exp')):
        for weak in itertools.product((0, 1), repeat=nf * num_p):
            if any(weak) and (nf < 3 or num_p == 1 or thorough or sum(weak) in (1, 6)):
                yield {'kind': 'weak', 'freqs': FREQS[nf][0], 'num_p': num_p, 'resp': rs, 'weak': list(weak)}
    for spec in EDGES:
        yield dict(spec, kind='edge')
    shapes = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (4, 2)]
    if thorough:
        shapes += [(1, 6), (2, 4), (3, 3)]
    for nf, np_ in shapes:
        fs = FREQS[nf]
        pats = ['all', 'fundamental', 'first', 'last', 'lo']
        if np_ > 1:
            pats.append('harmonics')
        levels = {1: [.2, 1., 2.2], 2: [.25, 1.2], 3: [.2, .7], 4: [.15]}[nf]
        resps = {1: ['poly:50', 'exp', 'perfect'], 2: ['poly:50', 'perfect', 'exp'], 3: ['poly:50', 'perfect'],
                 4: ['poly:50']}[nf]
        if thorough:
            levels = levels + [{1: 3.5, 2: .05, 3: .4, 4: .3}[nf]]
            resps = resps + ['poly:20']
        if (nf, np_) in ((3, 2), (4, 2), (3, 3)) and not thorough:
            pats = ['all', 'lo']
            levels, resps = levels[:1], resps[:1]
        if (nf, np_) == (3, 3):
            levels, resps, pats = levels[:1], resps[:1], ['all', 'lo']
        for freqs, pat, lev, rs in itertools.product(fs, pats, levels, resps):
            if not thorough and nf == 3 and rs == 'perfect' and pat not in ('all', 'lo'):
                continue
            yield {'kind': 'cfg', 'freqs': freqs, 'num_p': np_, 'pattern': pat, 'level': lev, 'resp': rs}


def weight(case):
    if case['kind'] == 'model':
        return 1e9
    if case['kind'] == 'weak':
        return 7 ** len(case['freqs'])
    return (2 * case['num_p'] + 1) ** len(case['freqs']) * 10 ** len(case['freqs'])


def prepare(tier):
    for r in ('poly:50', 'exp', 'perfect', 'poly:20'):
        lib.resp(r)


def check(case, ctx):
    if case['kind'] == 'model':
        return validate_model(ctx)
    if case['kind'] == 'weak':
        return check_weak(case, ctx)
    from qmix.qtcurrent import qtcurrent
    freqs, num_p = case['freqs'], case['num_p']
    nf = len(freqs)
    rs = lib.resp(case['resp'])
    vb = VB[ctx.tier]
    if case['kind'] == 'edge':
        n = case['npts']
        vb = np.array([.73017]) if n == 1 else np.sort(np.r_[np.linspace(-.31127, 1.83161, n)])
    elif nf == 4 or (nf == 3 and num_p > 1):
        vb = vb[1:4]
    volts = excite(freqs, num_p, case['pattern'], case['level'])
    # let the drive vary along the bias sweep
    ramp = np.linspace(.6, 1., len(vb)) * np.exp(1j * np.linspace(0, .8, len(vb)))
    volts = [[v * ramp if abs(v) > 0 else 0j for v in vs] for vs in volts]

    cct = lib.circuit(freqs, num_p, vb)
    vj = lib.volt_array(cct, volts)
    f_out = lib.mixing_freqs(freqs, num_p)
    if nf >= 3 and num_p > 1:
        f_out = sorted(set([0.] + [round(f * p, 6) for f in freqs for p in range(1, num_p + 1)] +
                           [round(abs(a - b), 6) for a in freqs for b in freqs] +
                           [round(num_p * freqs[0] - num_p * freqs[1], 6), round(num_p * sum(freqs), 6)] * (case['kind'] == 'edge') +
                           [round(2 * freqs[0] - freqs[1], 6), round(freqs[0] + freqs[1], 6),
                            round(freqs[0] + freqs[1] - 2 * freqs[2], 6)]))
    f_out = f_out + [-freqs[0], -round(freqs[0] + freqs[-1], 6), .01234]

    npts = mtsda.samples_needed(freqs, volts, num_p)
    expect = mtsda.current(freqs, volts, vb, rs, num_p, f_out, npts)
    need = [max(mtsda.orders_needed(f, vs) + 2, num_p + 1) for f, vs in zip(freqs, volts)]

    # different forms of the same summation limits
    forms = {'tuple': tuple(need)}
    if nf <= 3:
        forms['longer tuple'] = tuple(need) + (3, max(need) + 4)
    if nf <= 2 or (nf == 3 and num_p == 1 and max(need) < 9):
        forms['int'] = max(need)
    if nf <= 2 and max(need) <= 15:
        forms['default'] = None
    for name, num_b in forms.items():
        kw = {} if num_b is None else {'num_b': num_b}
        got = qtcurrent(vj, cct, rs, f_out, verbose=False, **kw)
        ctx.state(repr(case), name)
        ctx.edge(len(f_out))
        ctx.close(got, expect, atol=2e-9, rtol=0, what='{} tones, {} harmonics, num_b={}: current at {}'.format(
            nf, num_p, num_b, f_out))
        ctx.obs(got[0])
        ctx.trace()


EPS = (1e-4, 1e-5, 1e-6, 1e-7, 1e-9, 1e-12, 1e-15)


def check_weak(case, ctx):
    """Weak signals: the currents that they cause scale with them, however weak they are."""
    from qmix.qtcurrent import qtcurrent
    freqs, num_p = case['freqs'], case['num_p']
    nf = len(freqs)
    rs = lib.resp(case['resp'])
    vb = [.43139, .79273, 1.02291]
    full = excite(freqs, num_p, 'all', .7 if nf < 3 else .4)
    weak = [[bool(case['weak'][f * num_p + p]) for p in range(num_p)] for f in range(nf)]

    def scaled(eps):
        return [[v * eps if weak[f][p] else v for p, v in enumerate(vs)] for f, vs in enumerate(full)]

    def degree(a):
        """Smallest number of weak photons that make up this product."""
        deg = 0
        for f, k in enumerate(a):
            strong = [p for p in range(1, num_p + 1) if not weak[f][p - 1]]
            wk = [p for p in range(1, num_p + 1) if weak[f][p - 1]]
            if 1 in strong:
                continue
            best = 99
            for n in itertools.product(range(-6, 7), repeat=len(wk)):
                rest = k - sum(x * p for x, p in zip(n, wk))
                if rest == 0 or (strong and rest % strong[0] == 0):
                    best = min(best, sum(abs(x) for x in n))
            deg += best
        return deg

    f_out, degs = [], []
    for f in lib.mixing_freqs(freqs, num_p, 14):
        ds = {degree(a) for a in mtsda.products(freqs, num_p, f)}
        if len(ds) == 1 and ds <= {0, 1, 2}:
            f_out.append(f)
            degs.append(ds.pop())
    degs = np.array(degs)
    npts = mtsda.samples_needed(freqs, full, num_p)
    need = [max(mtsda.orders_needed(f, vs, 1e-13) + 2, num_p + 1) for f, vs in zip(freqs, full)]
    eps0 = 1e-5
    ref = mtsda.current(freqs, scaled(eps0), vb, rs, num_p, f_out, npts) / eps0 ** degs[:, None]
    size = np.abs(ref).max(axis=1)
    cct = lib.circuit(freqs, num_p, vb)
    for eps in EPS:
        got = qtcurrent(lib.volt_array(cct, scaled(eps)), cct, rs, f_out, num_b=tuple(need), verbose=False)
        for k, f in enumerate(f_out):
            ctx.close(got[k] / eps ** int(degs[k]), ref[k], atol=(2e-3 + 200 * eps) * size[k] + 1e-12, rtol=0,
                      what='{} tones, {} harmonics, signals {} weak by {}: scaled current at {} (order {})'.format(nf, num_p, case['weak'], eps, f, degs[k]))
        ctx.state(repr(case), eps)
        ctx.edge(len(f_out))
        ctx.obs(got)
    ctx.trace()


def validate_model(ctx):
    """The torus model against a single physical time axis (no mixing-product bookkeeping at all)."""
    rs = lib.resp('poly:50')
    for mult, amps, num_p in (((30,), (.5,), 2), ((32, 5), (.3, .02), 4), ((35, 32, 3), (.2, .1, .01), 3)):
        f0 = .01
        freqs = [m * f0 for m in mult]
        volts = [[a * f / .3 * np.exp(1j * (.3 + k)) for _ in (1,)] + [0j] * (num_p - 1)
                 for k, (a, f) in enumerate(zip(amps, freqs))]
        vb = [.55, .83]
        want = sorted(set([0] + [m for m in mult] + [abs(a - b) for a in mult for b in mult] + [2 * mult[0]]))
        exp = mtsda.current(freqs, volts, vb, rs, num_p, [w * f0 for w in want],
                            mtsda.samples_needed(freqs, volts, num_p))
        for i, v in enumerate(vb):
            ref = mtsda.time_domain([(m, vs[0]) for m, vs in zip(mult, volts)], v, f0, rs)
            if np.max(np.abs(ref[want] - exp[:, i])) > 1e-7:
                raise HarnessError('reference models disagree: harness error')
            ctx.state('model', mult, i)
            ctx.edge(len(want))
            ctx.trace()
