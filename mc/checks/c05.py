"""C05: bias points are independent; a precomputed response matrix is equivalent.

State graph: ordered selections (with repetition) of bias points out of a
pool, each with its own junction voltage; every selection up to the depth is
run on its own and must reproduce the pool's columns.
"""

import itertools

import numpy as np

from mc import lib

MODEL = 'currents of the whole pool of bias points (column by column), direct evaluation of resp(vb + k.f)'
BOUNDS = {'quick': 'all ordered selections of <= 3 of 5 bias points, all subsets and the reversed pool; every index '
                   'of the response matrix for 1-4 tones; resp_matrix reuse over all pairs of drives; sweeps of 30-2050 points on 6 kinds of grids',
          'thorough': 'all ordered selections of <= 4 of 5 bias points'}

CFG = [([.3], 1), ([.3], 2), ([.3, .33], 1), ([.31, .06], 2), ([.35, .32, .03], 1), ([.35, .31, .28, .05], 1)]
POOL = [-.3, .47, .81, 1.06, 1.7]


def cases(tier):
    for i in range(len(CFG)):
        for kind in ('select', 'layout', 'reuse'):
            yield {'kind': kind, 'cfg': i}
        for n in {1: (30, 66, 150, 600, 2050), 2: (30, 66, 150, 600, 1100), 3: (30, 66, 260), 4: (30, 66, 130)}[len(CFG[i][0])]:
            yield {'kind': 'long', 'cfg': i, 'n': n}


def weight(case):
    return (10 if case['kind'] == 'select' else 1) * 4 ** len(CFG[case['cfg']][0])


def prepare(tier):
    lib.resp('poly:50'), lib.resp('exp')


def nb_for(nf):
    return {1: 8, 2: (7, 5), 3: (4, 3, 2), 4: (3, 2, 2, 2)}[nf]


def volts_for(freqs, num_p, npts, variant=0):
    ramp = (.3 + .2 * np.arange(npts)) * np.exp(1j * (.5 * np.arange(npts) + variant))
    return [[ramp * (1. if i == 0 else .3) * f / p for p in range(1, num_p + 1)] for i, f in enumerate(freqs)]


def check(case, ctx):
    from qmix.qtcurrent import interpolate_respfn, qtcurrent
    freqs, num_p = CFG[case['cfg']]
    nf = len(freqs)
    num_b = nb_for(nf)
    rs = lib.resp('poly:50')
    n = len(POOL)
    f_out = lib.mixing_freqs(freqs, num_p, 6)
    if case['kind'] == 'select':
        volts = volts_for(freqs, num_p, n)
        cct = lib.circuit(freqs, num_p, POOL)
        base = qtcurrent(lib.volt_array(cct, volts), cct, rs, f_out, num_b=num_b, verbose=False)
        ctx.obs(base)
        # the current may not depend on the number of points either
        depth = 4 if ctx.thorough else 3
        if nf == 4:
            depth -= 1
        sel = [s for d in range(1, depth + 1) for s in itertools.product(range(n), repeat=d)]
        sel += [s for d in (4, 5) for s in itertools.combinations(range(n), d)]
        sel += [tuple(range(n))[::-1], tuple(range(n)) * 3, (2,) * 9]
        for s in sel:
            sub = lib.circuit(freqs, num_p, [POOL[k] for k in s])
            vj = lib.volt_array(sub, [[v[list(s)] for v in vs] for vs in volts])
            got = qtcurrent(vj, sub, rs, f_out, num_b=num_b, verbose=False)
            ctx.state(repr(CFG[case['cfg']]), s)
            ctx.edge()
            ctx.close(got, base[:, list(s)], atol=1e-12, rtol=0, what='bias points {} on their own'.format(
                [POOL[k] for k in s]))
            ctx.trace()
    elif case['kind'] == 'layout':
        limits = [nb_for(nf)]
        if nf == 1:
            limits += [1, 4, (3,), (3, 2, 1)]
        elif nf == 2:
            limits += [1, (1, 4), (4, 1), (2, 3, 7)]
        elif nf == 3:
            limits += [1, (1, 2, 3), (3, 2, 1), (2, 1, 2, 9)]
        else:
            limits += [1, (1, 2, 3, 1), (3, 1, 1, 2)]
        for limit, rname in itertools.product(limits, ('poly:50', 'exp')):
            rs = lib.resp(rname)
            cct = lib.circuit(freqs, num_p, POOL)
            mat = interpolate_respfn(cct, rs, limit)
            nb = limit[:nf] if isinstance(limit, tuple) else (limit,) * nf
            ctx.true(mat.shape == tuple(2 * b + 1 for b in nb) + (n,), 'response matrix of shape {} for num_b={}',
                     mat.shape, limit)
            for idx in itertools.product(*[range(-b, b + 1) for b in nb]):
                v = cct.vb + sum(k * f for k, f in zip(idx, freqs))
                ctx.state(nf, limit, rname, idx)
                ctx.edge()
                ctx.close(mat[idx], rs(v), atol=1e-9, rtol=1e-9, what='response matrix at {}'.format(idx))
            ctx.trace()
            ctx.obs(mat)
    elif case['kind'] == 'long':
        # long sweeps on uneven grids, with and without a matrix, against short ones
        n = case['n']
        num_b = {1: 6, 2: (5, 3), 3: (3, 2, 2), 4: (2, 2, 1, 1)}[nf]
        req = f_out if nf < 3 else [0., freqs[0], freqs[-1], freqs[0] - freqs[-1]]
        up = np.linspace(-.2, 1.9, n) + np.where((np.arange(n) > 2) & (np.arange(n) < n - 3), .3 * np.sin(np.arange(n)) / n, 0)
        grids = {'uneven': up, 'falling': up[::-1], 'steps': np.round(up, 1), 'two sweeps': np.hstack((up[::2], up[::-2]))[:n],
                 'outlier': np.where(np.arange(n) == n * 2 // 3, 4.2, up), 'even': np.linspace(0, 1.5, n)}
        for name, vb in grids.items():
            volts = volts_for(freqs, num_p, len(vb))
            volts = [[v / np.abs(v).max() * (.6 if k == 0 else .2) * freqs[i] * (1 + np.arange(len(vb)) % 7) / 5. for k, v in enumerate(vs)] for i, vs in enumerate(volts)]
            cct = lib.circuit(freqs, num_p, vb)
            vj = lib.volt_array(cct, volts)
            mat = interpolate_respfn(cct, rs, num_b)
            got = qtcurrent(vj, cct, rs, req, num_b=num_b, verbose=False)
            with_mat = qtcurrent(vj, cct, rs, req, num_b=num_b, verbose=False, resp_matrix=mat)
            what = '{} bias points ({})'.format(len(vb), name)
            ctx.close(with_mat, got, atol=1e-12, rtol=0, what=what + ': precomputed response matrix')
            nb = num_b if isinstance(num_b, tuple) else (num_b, )
            for idx in itertools.product(*[sorted({-b, -1, 0, b}) for b in nb]):
                ctx.close(mat[idx], rs(cct.vb + sum(k * f for k, f in zip(idx, freqs))), atol=1e-9, rtol=1e-9, what='{}: response matrix at {}'.format(what, idx))
            m = 7
            for a in range(0, len(vb), m):
                if nf > 2 and a > 40 and a < len(vb) - 40 and a % 3:
                    continue
                sub = lib.circuit(freqs, num_p, vb[a:a + m])
                part = qtcurrent(vj[:, :, a:a + m], sub, rs, req, num_b=num_b, verbose=False)
                ctx.close(got[:, a:a + m], part, atol=1e-11, rtol=0, what='{}: points {} to {}'.format(what, a, a + m - 1))
                ctx.state(repr(CFG[case['cfg']]), n, name, a)
                ctx.edge()
                ctx.trace()
            ctx.obs(got)
    else:
        # one matrix serves any drive, any request, any number of calls
        cct = lib.circuit(freqs, num_p, POOL)
        drives = [volts_for(freqs, num_p, n, k) for k in range(3)]
        reqs = [f_out, f_out[::-1], f_out[1:2], 0, f_out[-1]]
        mat = interpolate_respfn(cct, rs, num_b)
        keep = mat.copy()
        plain = {}
        for d, r in itertools.product(range(3), range(len(reqs))):
            plain[d, r] = qtcurrent(lib.volt_array(cct, drives[d]), cct, rs, reqs[r], num_b=num_b, verbose=False)
        for seq in itertools.product(sorted(plain), repeat=2):
            for d, r in seq:
                got = qtcurrent(lib.volt_array(cct, drives[d]), cct, rs, reqs[r], num_b=num_b, verbose=False,
                                resp_matrix=mat)
                ctx.edge()
                ctx.close(got, plain[d, r], atol=1e-12, rtol=0, what='precomputed response matrix')
            ctx.state(nf, seq)
            ctx.same(mat, keep, 'response matrix given by the caller')
            ctx.trace()
        ctx.obs(got)
        # positional and keyword use, and it replaces the response function
        got = qtcurrent(lib.volt_array(cct, drives[0]), cct, None, reqs[0], num_b, False, mat)
        ctx.close(got, plain[0, 0], atol=1e-12, rtol=0, what='precomputed response matrix (no response function)')
