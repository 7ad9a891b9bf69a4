"""C27: harmonic balance converges to the solution as Newton's method does.

States are (circuit, junction voltages); a transition is one iteration of
harmonic_balance.  Around the solution of every circuit on the lattice every
direction of the voltage space (each signal, real and imaginary, both signs,
and all signals together) is displaced, and one iteration has to bring the
voltages back by the damped fraction of their distance.  From the automatic
start, the solution has to be reached within the default number of iterations.
"""

import itertools

import numpy as np

from mc import lib
from mc.checks import c06

MODEL = 'one iteration maps solution + d to solution + (1 - damping) d + O(|d|^2)'
BOUNDS = {'quick': '1-4 tones, 1-3 harmonics; 12 impedances x 4 drive levels x 3 frequencies x 2 response functions for one tone, 38 circuits of more '
                   'signals; every displaced direction x 2 sizes x 3 dampings',
          'thorough': '20 impedances x 6 drive levels x 5 frequencies x 3 response functions for one tone; 7 dampings'}

ZT = [.05, .3, .3 - .3j, .3 + .3j, .67, .5j + .1, .1 - .6j, 1., 1. - .5j, .8 + .8j, .5 - .1j, .02 + .3j]
MORE = [2., 1.5j + .2, .2 - 1.2j, 1.5 + .5j, .4 - .7j, .01, .1, .67 - .67j]
VB = [.31, .51137, .66291, .79, .91293, 1.08, 1.22173, 1.47]


# signals with very different impedances
MIXED = {
    'a': ([.3, .35], 1, [[.3], [.1]], [[2.5], [.1]], 9),
    'b': ([.3, .35], 1, [[.3], [.02]], [[.02], [.67 - .3j]], 9),
    'c': ([.3], 2, [[.3, .05]], [[.6, .01]], 9),
    'd': ([.24], 2, [[.3, .02]], [[.05, 1.5j + .1]], 9),
    'e': ([.24], 3, [[.3, .02, .01]], [[.01, .5, 1.5]], 9),
    'f': ([.35, .31, .04], 1, [[.4], [.02], [0]], [[.05], [.4], [.8]], (7, 4, 6)),
    'g': ([.3, .04], 1, [[.45], [0]], [[.3], [6.]], (10, 9)),
}


def cases(tier):
    for name in MIXED:
        for scale in (1., .3):
            yield {'kind': 'mixed', 'circuit': name, 'scale': scale}
    thorough = tier == 'thorough'
    for f, rn in itertools.product((.15, .3, .52) + ((.22, .41) if thorough else ()), ('poly:20', 'exp') + (('poly:50',) if thorough else ())):
        for z in ZT + (MORE if thorough else []):
            yield {'kind': 'one', 'f': f, 'resp': rn, 'zt': [complex(z).real, complex(z).imag]}
    for name in c06.CIRC:
        if len(c06.CIRC[name][0]) > 1 or c06.CIRC[name][1] > 1:
            for scale in (1., .3):
                yield {'kind': 'more', 'circuit': name, 'scale': scale}


def weight(case):
    return 0 if case['kind'] == 'one' else 3 if case['kind'] == 'mixed' else 8 ** len(c06.CIRC[case['circuit']][0])


def prepare(tier):
    for r in ('poly:20', 'poly:50', 'exp'):
        lib.resp(r)


def check(case, ctx):
    if case['kind'] == 'one':
        rs = lib.resp(case['resp'])
        z = complex(*case['zt'])
        for level in (.05, .4, .8, 1.2) + ((.2, 1.6) if ctx.thorough else ()):
            cct = lib.circuit([case['f']], 1, VB)
            # the level is that of a junction matched to the source
            cct.vt[1, 1] = level * case['f'] * (1 + abs(z)) * np.exp(.4j)
            cct.zt[1, 1] = z
            explore(ctx, cct, rs, 12, '{} level {}'.format(case, level), level <= .8 and abs(z) <= .67)
    elif case['kind'] == 'mixed':
        freqs, num_p, vt, zt, num_b = MIXED[case['circuit']]
        cct = lib.circuit(freqs, num_p, VB)
        cct.vt[1:, 1:] = np.array(vt) * case['scale']
        cct.zt[1:, 1:] = zt
        explore(ctx, cct, lib.resp('poly:50'), num_b, 'unequal impedances {} x {}'.format(case['circuit'], case['scale']), True)
    else:
        rs = lib.resp('poly:50')
        vb = c06.VB if len(c06.CIRC[case['circuit']][0]) > 2 else VB
        cct, num_b = c06.build(case['circuit'], vb, case['scale'])
        explore(ctx, cct, rs, num_b, 'circuit {} x {}'.format(case['circuit'], case['scale']), True)


def explore(ctx, cct, rs, num_b, what, must):
    from qmix.harmonic_balance import harmonic_balance
    kw = dict(num_b=num_b, verbose=False)
    v, it, ok = harmonic_balance(cct, rs, mode='x', **kw)
    ctx.true(bool(ok) or not must, '{}: did not converge within the default number of iterations', what)
    ctx.state(what, 'start')
    ctx.edge()
    ctx.obs(it)
    if not ok:
        return
    four = cct.num_f == 4
    vs, it, ok = harmonic_balance(cct, rs, max_it=6, stop_rerror=1e-8, mode='x', vj_initial=v, **kw)
    ctx.true(bool(ok), '{}: the converged solution could not be improved', what)
    ctx.close(vs, v, atol=2e-2 * np.abs(vs).max(), what='{}: improved solution'.format(what))
    ctx.edge()
    sig = list(itertools.product(range(1, cct.num_f + 1), range(1, cct.num_p + 1)))
    dirs = [({s: ph}, ph) for s in sig for ph in ((1, 1j) if four else (1, 1j, -1, -1j))]
    dirs += [({s: ph * np.exp(1.1j * k) for k, s in enumerate(sig)}, ph) for ph in (1, 1j)]
    # (the voltage of a signal is only free if there is an impedance)
    sizes = (1e-3, 3e-5) if not four else (3e-4,)
    damps = (1., .5, .8) if not four else (1.,)
    if ctx.thorough and not four:
        damps = (1., .9, .8, .65, .5, .25, .1)
    for (d, _), size, damp in itertools.product(dirs, sizes, damps):
        start = vs.copy()
        for s, ph in d.items():
            start[s] += size * ph
        n = harmonic_balance(cct, rs, max_it=1, stop_rerror=1e-30, damp_coeff=damp, vj_initial=start, **kw)
        far = np.abs(n - vs - (1 - damp) * (start - vs)).max() / size
        ctx.true(far <= .05, '{}: displaced by {} x {}, one iteration with damping {} leaves {:.3g} of the distance', what, size, d, damp, float(far))
        ctx.state(what, str(d), size, damp)
        ctx.edge()
    ctx.obs(vs)
    ctx.trace()
