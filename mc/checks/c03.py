"""C03: symmetries of the tunneling current.

State graph: configurations; moves: shift the time origin of each tone (all
combinations of a phase alphabet), reverse bias and drive, combine response
functions linearly, switch the drive off.  Every move's result is predicted
from the configuration it was applied to.
"""

import itertools

import numpy as np

from mc import lib
from mc.models.mtsda import products

MODEL = 'exact symmetry relations between two configurations of the real code'
BOUNDS = {'quick': '1-4 tones, 1-3 harmonics, all products with |order| <= num_p, phase alphabet of 4 per tone',
          'thorough': 'as quick with more drives, frequencies and phases'}
VB = np.array([-1.20317, -.37129, .43139, .82273, 1.07291, 1.60161])
PH = [.5, -1.7, 3.0, 1.1]


def cases(tier):
    cfgs = [([.3], 1), ([.3], 3), ([.13], 2), ([.30, .33], 1), ([.30, .33], 2), ([.33, .04], 1), ([.2, .4], 2),
            ([.35, .32, .03], 1), ([.31, .34, .27, .05], 1)]
    if tier == 'thorough':
        cfgs += [([.3, .33], 3), ([.35, .32, .03], 2), ([.5], 4), ([.21, .34], 2)]
    for (freqs, num_p), lev in itertools.product(cfgs, [.3, 1.1] if tier == 'quick' else [.1, .3, 1.1, 1.8]):
        if len(freqs) > 2 and lev > .5:
            continue
        for move in ('shift', 'reverse', 'linear', 'off', 'scale'):
            yield {'freqs': freqs, 'num_p': num_p, 'level': lev, 'move': move}


def weight(case):
    return (10 ** len(case['freqs'])) * case['num_p'] * (10 if case['move'] == 'shift' else 1)


def prepare(tier):
    lib.resp('poly:50'), lib.resp('exp'), lib.resp('perfect')


def drive(freqs, num_p, level):
    return [[level * f / (1 + .5 * i) / p * np.exp(1j * (PH[i] + p)) for p in range(1, num_p + 1)]
            for i, f in enumerate(freqs)]


def combo(parts):
    """A response function that is a linear combination of others."""
    from qmix.respfn import RespFn

    class Combo(RespFn):
        def __init__(self):
            pass

        def idc(self, v):
            return sum(c * r.idc(v) for c, r in parts)

        def ikk(self, v):
            return sum(c * r.ikk(v) for c, r in parts)

        def resp(self, v):
            return self.ikk(v) + 1j * self.idc(v)

        def __call__(self, v):
            return self.resp(v)
    return Combo()


def check(case, ctx):
    from qmix.qtcurrent import qtcurrent
    freqs, num_p, lev, move = case['freqs'], case['num_p'], case['level'], case['move']
    nf = len(freqs)
    vb = VB if nf < 3 else VB[2:5]
    num_b = {1: 14, 2: 12, 3: 6, 4: 4}[nf]
    volts = drive(freqs, num_p, lev)
    f_out = lib.mixing_freqs(freqs, num_p, 12)

    def run(volts, vb=vb, rs=lib.resp('poly:50'), f_out=f_out):
        cct = lib.circuit(freqs, num_p, vb)
        ctx.edge()
        return qtcurrent(lib.volt_array(cct, volts), cct, rs, f_out, num_b=num_b, verbose=False)

    if move == 'shift':
        base = run(volts)
        alphabet = [0., .9, -2.2, 3.1] if nf < 3 else [0., .9, -2.2]
        # phase of each requested frequency: only those with a single phase
        for shift in itertools.product(alphabet, repeat=nf):
            moved = [[v * np.exp(1j * p * shift[i]) for p, v in enumerate(vs, start=1)] for i, vs in enumerate(volts)]
            idx, phase = [], []
            for j, f in enumerate(f_out):
                tot = {round(float(np.angle(np.exp(1j * sum(a * s for a, s in zip(prod, shift))))), 9)
                       for prod in products(freqs, num_p, f)}
                if len(tot) == 1:
                    idx.append(j)
                    phase.append(tot.pop())
            got = run(moved)
            ctx.state(repr(case), shift)
            ctx.close(got[idx], base[idx] * np.exp(1j * np.array(phase))[:, None], atol=1e-9, rtol=0,
                      what='time origin of the tones shifted by {}'.format(shift))
            ctx.obs(got[0])
            ctx.trace()
    elif move == 'reverse':
        # i(-v) = -i(v): reverse the bias and the drive
        for rname, tol in (('perfect', 1e-9), ('poly:50', 4e-3)):
            rs = lib.resp(rname)
            base = run(volts, vb, rs)
            got = run([[-v for v in vs] for vs in volts], -vb, rs)
            ctx.state(repr(case), rname)
            ctx.close(got, -base, atol=tol, rtol=0, what='bias and drive reversed ({})'.format(rname))
            # the other half of the symmetry: reversing only the drive is a shift by half a period for odd
            # products of a single harmonic, i.e. the dc current cannot change if there are no even harmonics
            if num_p == 1:
                got = run([[-v for v in vs] for vs in volts], vb, rs, [0.])
                if all(sum(a) % 2 == 0 for a in products(freqs, num_p, 0.)):
                    ctx.close(got, base[:1], atol=1e-9, rtol=0, what='drive reversed')
            ctx.obs(got[0])
            ctx.trace()
    elif move == 'linear':
        rs = [lib.resp('poly:50'), lib.resp('exp'), lib.resp('perfect')]
        parts = [run(volts, vb, r) for r in rs]
        for coef in itertools.product([0., 1., -.5, 3.], repeat=3):
            if not any(coef):
                continue
            if nf > 2 and coef.count(0.) == 0:
                continue
            got = run(volts, vb, combo(list(zip(coef, rs))))
            ctx.state(repr(case), coef)
            ctx.close(got, sum(c * p for c, p in zip(coef, parts)), atol=1e-8, rtol=0,
                      what='response function {} * (poly, exp, perfect)'.format(coef))
            ctx.obs(got[0])
        ctx.trace()
    elif move == 'off':
        for rname in ('poly:50', 'exp', 'perfect'):
            rs = lib.resp(rname)
            got = run([[0j] * num_p] * nf, vb, rs)
            ctx.state(repr(case), rname)
            ctx.close(got[0], rs.idc(vb) + 0j, atol=1e-12, rtol=0, what='no drive: dc current')
            ctx.close(got[1:], np.zeros_like(got[1:]), atol=1e-12, rtol=0, what='no drive: ac currents')
            ctx.obs(got[0])
            ctx.trace()
    elif move == 'scale':
        # Small-signal: ac current proportional to a weak drive, dc change quadratic
        eps = 1e-3
        only = [[(v if p == 1 else 0j) for p, v in enumerate(vs, start=1)] for vs in volts]
        w1 = run([[v * eps for v in vs] for vs in only], vb)
        w2 = run([[2 * v * eps for v in vs] for vs in only], vb)
        dc0 = lib.resp('poly:50').idc(vb)
        for j, f in enumerate(f_out):
            prods = products(freqs, num_p, f)
            orders = {sum(abs(a) for a in p) for p in prods}
            order = min(orders)
            if f != 0 and len(orders) > 1:
                continue        # products of different orders: no single power law
            if f == 0:
                ctx.close(w2[j] - dc0, 4 * (w1[j] - dc0), atol=1e-9, rtol=5e-3, what='dc change of a weak drive')
            elif order == 1:
                ctx.close(w2[j], 2 * w1[j], atol=1e-9, rtol=5e-3, what='ac current of a weak drive at {}'.format(f))
            else:
                ctx.close(w2[j], 2 ** order * w1[j], atol=1e-9, rtol=2e-2,
                          what='mixing product of order {} of a weak drive'.format(order))
        ctx.state(repr(case))
        ctx.obs(w1)
        ctx.trace()
