"""C23: impedance recovery finds the circuit that pumped the junction.

Every embedding circuit on a lattice (impedance x drive level x frequency x
junction) pumps a junction in a reference model of Tucker's theory; the pumped
I-V curve is given to PumpedData, which must recover that circuit.  Some curves
are generated by harmonic_balance and qtcurrent instead, so that both ends of
the package are checked against each other.
"""

import itertools

import numpy as np
from scipy import special

from mc.models.junction import Junction

MODEL = "Tucker's large-signal theory: source voltage |V + Zt*I(V)| solved by bisection at every bias voltage"
BOUNDS = {'quick': '2 junctions x 2 frequencies x 8 impedances x 2 drive levels; 15 fit ranges/search ranges/forced impedances; 2 circuits from harmonic_balance',
          'thorough': '2 junctions x 4 frequencies x 24 impedances x 3 drive levels; 27 settings; 8 circuits from harmonic_balance'}
CASE_TIMEOUT = 600

ZT = {'quick': (.3 + .1j, .5 - .4j, .8 + .5j, .1 - .2j, 1 + 0j, .05 + .8j, .6 - .9j, .25 + 0j),
      'thorough': tuple(r + 1j * x for r in (.05, .3, .5, .8) for x in (-.9, -.35, -.1, 0., .2, .75))}
FREQ = {'quick': (230., 450.), 'thorough': (200., 300., 450., 600.)}
ALPHA = {'quick': (.5, .9), 'thorough': (.4, .8, 1.1)}
SETTINGS = [dict(fit_range=(.3, .7)), dict(fit_range=(.2, .6)), dict(fit_range=(.4, .85)), dict(num_b=12), dict(alpha_max=1.1),
            dict(remb_range=(0, .5), xemb_range=(-.5, .5)), dict(remb_range=(.2, .6), xemb_range=(0, .4)),
            dict(remb_range=(.5, 1), xemb_range=(-1, -.4)), dict(zemb=.3 + .1j), dict(zemb=.5 - .2j), dict(vmax=5e-3, npts=4001),
            dict(v_fmt='V', i_fmt='A'), dict(zemb=0.), dict(zemb=-.3j), dict(remb_range=(.4, .4), xemb_range=(.2, .2))]
MORE = [dict(fit_range=(.25, .5)), dict(fit_range=(.5, .8)), dict(fit_range=(.1, .9)), dict(num_b=30), dict(alpha_max=2.), dict(alpha_max=.8),
        dict(remb_range=(0, 2), xemb_range=(-2, 2)), dict(zemb=1 + 1j), dict(zemb=.2), dict(npts=3001), dict(v_fmt='uV', i_fmt='uA'), dict(i_multiplier=1.)]


def cases(tier):
    for jn, f in itertools.product(('line', 'smooth'), FREQ[tier]):
        for zt in ZT[tier]:
            yield {'kind': 'recover', 'junction': jn, 'freq': f, 'zt': [zt.real, zt.imag]}
    n = len(SETTINGS) + (len(MORE) if tier == 'thorough' else 0)
    for k in range(n):
        yield {'kind': 'setting', 'k': k}
    for zt in ((.4, -.2), (.7, .3)) if tier == 'quick' else ((.4, -.2), (.7, .3), (.1, .1), (.9, -.6), (.3, .5), (.5, 0.), (.2, -.4), (.6, .6)):
        yield {'kind': 'harmonic balance', 'zt': list(zt)}
    for jn, f in itertools.product(('line', 'smooth'), FREQ[tier]):
        yield {'kind': 'low', 'junction': jn, 'freq': f}
    yield {'kind': 'bad'}
    yield {'kind': 'fit interval'}
    for fit in ((.05, .97), (.25, .8), (.5, .55), (0., 1.), (.3, .99), None):
        yield {'kind': 'window', 'fit': fit}


def weight(case):
    return case['kind'] == 'harmonic balance'


KW = dict(voffset=0., ioffset=0., filter_data=False, verbose=False)
_D = {}


def dcdata(name):
    from qmix.exp import DCData
    if name not in _D:
        j = Junction(va=2.7e-3, vb=2.9e-3, vint=1e-4)
        v = j.grid(step=5e-6)
        if name == 'line':
            i = j.i(v)
        else:
            # rounded transition
            i = v / 200. + (v - np.sign(v) * 1e-4) * (1 / 14. - 1 / 200.) / (1 + np.exp(-(np.abs(v) - 2.8e-3) / 4e-5))
        _D[name] = DCData(np.vstack((v * 1e3, i * 1e3)).T, **KW)
    return _D[name]


def tucker(resp, vb, vph, a, n_max=20):
    """AC and DC current (normalised)."""
    ac = np.zeros_like(vb, dtype=complex)
    dc = np.zeros_like(vb)
    for n in range(-n_max, n_max + 1):
        jn, jm, jp = special.jv(n, a), special.jv(n - 1, a), special.jv(n + 1, a)
        r = resp(vb + n * vph)
        ac += jn * (jm + jp) * r.imag + 1j * jn * (jm - jp) * r.real
        dc += jn ** 2 * r.imag
    return ac, dc


def pump(resp, vb, vph, zt, vt):
    lo, hi = np.zeros_like(vb), np.full_like(vb, 3.5)
    for _ in range(34):
        m = (lo + hi) / 2
        f = np.abs(m * vph + zt * tucker(resp, vb, vph, m)[0]) - vt
        hi, lo = np.where(f > 0, m, hi), np.where(f > 0, lo, m)
    a = (lo + hi) / 2
    return (a,) + tucker(resp, vb, vph, a)


GRID = np.linspace(-2.2, 2.2, 1601)


def measure(d, zt, alpha0, freq):
    vph = freq * 1e9 / d.fgap
    mid = np.array([1 - vph / 2])
    vt = abs(alpha0 * vph + zt * tucker(d.resp, mid, vph, np.array([alpha0]))[0][0])
    a, ac, dc = pump(d.resp, GRID, vph, zt, vt)
    return vt, vph, a, ac, dc


def array(d, dc, v_fmt='mV', i_fmt='mA'):
    s = {'V': 1., 'A': 1., 'mV': 1e3, 'mA': 1e3, 'uV': 1e6, 'uA': 1e6}
    return np.vstack((GRID * d.vgap * s[v_fmt], dc * d.igap * s[i_fmt])).T


def verify(ctx, tag, p, d, zt, vt, vph, zstep=(.01, .01)):
    ctx.true(abs(p.zt.real - zt.real) <= 1.01 * zstep[0] and abs(p.zt.imag - zt.imag) <= 1.01 * zstep[1],
             '{}: impedance {} instead of {}', tag, p.zt, zt)
    ctx.close(p.vt, vt, atol=2e-3, rtol=2e-2 if zstep[0] + zstep[1] else 2e-3, what=tag + ' source voltage')
    ctx.true(bool(p.fit_good) is True, '{}: not a good fit', tag)
    ctx.close(p.vph, vph, atol=0, rtol=1e-7, what=tag + ' photon voltage')
    # drive level and junction impedance in the middle of the photon step
    a, ac, _ = pump(d.resp, np.array([1 - vph / 2]), vph, zt, vt)
    ctx.close(p.alpha, a[0], atol=3e-3, what=tag + ' drive level')
    ctx.close(p.zw, a[0] * vph / ac[0], atol=2e-2, what=tag + ' junction impedance')


def check(case, ctx):
    from qmix.exp import PumpedData
    if case['kind'] == 'recover':
        d = dcdata(case['junction'])
        zt = complex(*case['zt'])
        for a0 in ALPHA[ctx.tier]:
            vt, vph, a, ac, dc = measure(d, zt, a0, case['freq'])
            arr = array(d, dc)
            keep = arr.copy()
            p = PumpedData(arr, d, freq=case['freq'], **KW)
            tag = '{} drive {}'.format(case, a0)
            verify(ctx, tag, p, d, zt, vt, vph)
            ctx.same(arr, keep, 'data of the caller')
            ctx.close(p.current, np.interp(p.voltage, GRID, dc, left=0, right=0), atol=1e-9, what=tag + ' pumped current')
            # the error surface has its minimum at the result
            surf = np.asarray(p.err_surf)
            k = np.unravel_index(surf.argmin(), surf.shape)
            ctx.true(surf.shape == (101, 201), '{}: error surface {}', tag, surf.shape)
            ctx.close(p.zt, np.linspace(0, 1, 101)[k[0]] + 1j * np.linspace(-1, 1, 201)[k[1]], atol=1e-9, what=tag + ' minimum of the error surface')
            # dynamic resistance of the pumped curve
            m = np.abs(p.voltage - (1 - vph / 2)) < .05 * vph
            slope = np.gradient(p.current, p.voltage)
            ctx.close(np.median(1 / p.rdyn[m]), np.median(slope[m]), atol=5e-3, rtol=2e-2, what=tag + ' dynamic conductance')
            ctx.state(case['junction'], case['freq'], zt, a0)
            ctx.edge()
            ctx.obs(np.array([p.zt, p.vt]))
        ctx.trace()
    elif case['kind'] == 'setting':
        kw = dict((SETTINGS + MORE)[case['k']])
        d = dcdata('smooth')
        for zt, freq in ((.4 + .2j, 300.), (.3 - .3j, 230.)):
            vt, vph, a, ac, dc = measure(d, zt, .7, freq)
            arr = array(d, dc, kw.get('v_fmt', 'mV'), kw.get('i_fmt', 'mA'))
            user = dict(kw)
            p = PumpedData(arr, d, freq=freq, **dict(KW, **kw))
            tag = '{} zt={}'.format(kw, zt)
            ctx.true(kw == user, '{}: keywords changed', tag)
            r, x = kw.get('remb_range', (0, 1)), kw.get('xemb_range', (-1, 1))
            inside = r[0] <= zt.real <= r[1] and x[0] <= zt.imag <= x[1]
            if 'zemb' in kw:
                ctx.close(p.zt, kw['zemb'], atol=0, what=tag + ' forced impedance')
                # the source voltage that matches best with that impedance: least squares over the fitted bias points
                lo, hi = 1 - vph + .25 * vph, 1 - .2 * vph
                m = (lo <= GRID) & (GRID <= hi)
                v, z = a[m] * vph, a[m] * vph / ac[m]
                w = np.abs(z / (kw['zemb'] + z))
                ctx.close(p.vt, np.sum(np.abs(v) * w) / np.sum(w ** 2), atol=2e-3, rtol=2e-3, what=tag + ' source voltage')
            elif inside:
                step = ((r[1] - r[0]) / 100, (x[1] - x[0]) / 200)
                verify(ctx, tag, p, d, zt, vt, vph, step)
            else:
                ctx.true(r[0] <= p.zt.real <= r[1] and x[0] <= p.zt.imag <= x[1], '{}: impedance {} is out of range', tag, p.zt)
            ctx.state(case['k'], zt)
            ctx.edge()
            ctx.obs(np.array([p.zt, p.vt]))
        ctx.trace()
    elif case['kind'] == 'low':
        # very weak pumping: the drive level is still found
        d = dcdata(case['junction'])
        for zt, a0 in itertools.product((.3 + .1j, .5 - .4j), (.01, .03, .1) if ctx.thorough else (.02, .1)):
            vt, vph, a, ac, dc = measure(d, zt, a0, case['freq'])
            p = PumpedData(array(d, dc), d, freq=case['freq'], **KW)
            tag = '{} drive {} zt {}'.format(case, a0, zt)
            mid = pump(d.resp, np.array([1 - vph / 2]), vph, zt, vt)
            ctx.close(p.alpha, mid[0][0], atol=2e-4, rtol=1e-2, what=tag + ' drive level')
            ctx.close(p.zw, mid[0][0] * vph / mid[1][0], atol=2e-2, what=tag + ' junction impedance')
            if case['junction'] == 'line' and case['freq'] == 450.:
                verify(ctx, tag, p, d, zt, vt, vph)
                ctx.close(p.vt, vt, atol=1e-4, rtol=2e-2, what=tag + ' source voltage')
            ctx.state(case['junction'], case['freq'], zt, a0)
            ctx.edge()
            ctx.obs(np.array([p.alpha]))
        ctx.trace()
    elif case['kind'] == 'fit interval':
        # the ways of writing the fit interval (the curve depends on it, as no circuit explains it exactly)
        d = dcdata('smooth')
        for freq, k in itertools.product((230., 300.), (.05, .2)):
            vph = freq * 1e9 / d.fgap
            a = .7 + k * np.sin((GRID - 1 + vph / 2) / vph * 7)
            arr = array(d, tucker(d.resp, GRID, vph, a)[1])
            ways = {(.25, .8): [{}, dict(fit_range=None), dict(fit_range=[.25, .8]), dict(fit_range=None, cut_low=.25), dict(fit_range=(.25, .8), cut_low=.4, cut_high=.4)]}
            for lo, hi in ((.2, .7), (.4, .9)):
                ways[lo, hi] = [dict(fit_range=(lo, hi)), dict(fit_range=None, cut_low=lo, cut_high=1 - hi), dict(fit_range=np.array([lo, hi]))]
            seen = {}
            for (lo, hi), kws in ways.items():
                first = None
                for kw in kws:
                    p = PumpedData(arr, d, freq=freq, **dict(KW, **kw))
                    got = (complex(p.zt), float(p.vt), np.asarray(p.err_surf))
                    if first is None:
                        first = got
                    ctx.true(got[0] == first[0], '{}: impedance {} instead of {}', kw, got[0], first[0])
                    ctx.close(got[1], first[1], atol=1e-9, what='{}: source voltage'.format(kw))
                    ctx.close(got[2], first[2], atol=1e-12, rtol=1e-6, what='{}: error surface'.format(kw))
                    ctx.state('fit', freq, k, str(kw))
                    ctx.edge()
                seen[lo, hi] = first
            ctx.true(np.abs(seen[.2, .7][2] - seen[.4, .9][2]).max() > 1e-9, 'the fit interval has no effect')
            ctx.obs(np.array([x[0] for x in seen.values()]))
        ctx.trace()
    elif case['kind'] == 'window':
        # only the data within the fit interval matter, and all of them do
        d = dcdata('smooth')
        zt = .4 + .2j
        for freq in (230., 300.):
            vt, vph, a, ac, dc = measure(d, zt, .7, freq)
            kw = dict(KW, freq=freq)
            lo, hi = .25, .8
            if case['fit']:
                lo, hi = kw['fit_range'] = tuple(case['fit'])
            lo, hi = 1 - vph + lo * vph, 1 - (1 - hi) * vph
            base = PumpedData(array(d, dc), d, **kw)
            step = GRID[1] - GRID[0]
            for name, m, matters in (('below', GRID < lo - 2 * step, False), ('above', GRID > hi + 2 * step, False),
                                     ('low end', (GRID > lo - step) & (GRID < lo + 3 * step), True), ('high end', (GRID > hi - 3 * step) & (GRID < hi + step), True),
                                     ('middle', np.abs(GRID - (lo + hi) / 2) < 1.2 * step, True)):
                for fac in (1.04, .97):
                    p = PumpedData(array(d, np.where(m, dc * fac, dc)), d, **kw)
                    tag = '{} {} GHz, current {} the interval multiplied by {}'.format(case['fit'], freq, name, fac)
                    diff = np.abs(np.asarray(p.err_surf) - np.asarray(base.err_surf)).max()
                    if matters:
                        ctx.true(diff > 1e-12, '{}: no effect', tag)
                    else:
                        ctx.close(p.err_surf, base.err_surf, atol=1e-12, rtol=1e-9, what=tag + ': error surface')
                        ctx.true(p.zt == base.zt, '{}: impedance {} instead of {}', tag, p.zt, base.zt)
                        ctx.close(p.vt, base.vt, atol=1e-12, rtol=1e-9, what=tag + ': source voltage')
                    ctx.state('window', freq, name, fac, str(case['fit']))
                    ctx.edge()
            ctx.obs(base.zt)
        ctx.trace()
    elif case['kind'] == 'harmonic balance':
        import qmix
        from qmix.harmonic_balance import harmonic_balance
        from qmix.qtcurrent import qtcurrent
        d = dcdata('smooth')
        zt = complex(*case['zt'])
        freq = 300.
        vph = freq * 1e9 / d.fgap
        vt, _, a, ac, dc = measure(d, zt, .8, freq)
        cct = qmix.circuit.EmbeddingCircuit(1, 1, vb_min=1 - vph - .1, vb_max=1.1, vb_npts=321, fgap=d.fgap, vgap=d.vgap, rn=d.rn)
        cct.vph[1] = vph
        cct.vt[1, 1], cct.zt[1, 1] = vt, zt
        vj = harmonic_balance(cct, d.resp, num_b=20, verbose=False)
        cur = qtcurrent(vj, cct, d.resp, [0., vph], num_b=20, verbose=False)
        vb = cct.vb
        # the two solutions of the same problem
        ctx.close(np.abs(vj[1, 1]), np.interp(vb, GRID, a) * vph, atol=3e-3, what='junction voltage, zt={}'.format(zt))
        ctx.close(cur[0].real, np.interp(vb, GRID, dc), atol=5e-3, what='pumped current, zt={}'.format(zt))
        arr = np.vstack((vb * d.vgap * 1e3, cur[0].real * d.igap * 1e3)).T
        p = PumpedData(arr, d, freq=freq, **KW)
        verify(ctx, 'harmonic balance, zt={}'.format(zt), p, d, zt, vt, vph)
        ctx.state('hb', zt)
        ctx.edge(2)
        ctx.obs(p.zt)
        ctx.trace()
    else:
        # curves that no circuit produces
        d = dcdata('smooth')
        for freq, k in itertools.product((230., 450.), (.1, .3)):
            vph = freq * 1e9 / d.fgap
            a = .7 + k * np.sin((GRID - 1 + vph / 2) / vph * 12)
            _, dc = tucker(d.resp, GRID, vph, a)
            p = PumpedData(array(d, dc), d, freq=freq, **KW)
            ctx.true(not p.fit_good, 'a curve with a drive level of .7 +- {} at {} GHz is called a good fit', k, freq)
            ctx.state('bad', freq, k)
            ctx.edge()
            ctx.obs(p.zt)
        p = PumpedData(array(d, dc), d, freq=230., analyze_iv=False, **KW)
        ctx.true(p.zt is None and p.vt is None and p.alpha is None and p.zw is None and p.fit_good is None, 'results with analyze_iv=False')
        ctx.edge()
        ctx.trace()
