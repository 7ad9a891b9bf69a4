"""C02: equivalent descriptions of the same drive give the same currents.

State graph: descriptions of one physical drive.  Moves that do not change the
physics: permute the tones, add an unexcited tone, allow an unexcited higher
harmonic, write a harmonic as a tone of its own.  All move sequences up to the
depth bound are explored (states are merged on the resulting description) and
every state's currents are compared with the initial state's.
"""

import collections
import itertools

import numpy as np
from scipy import special

from mc import lib

MODEL = 'the currents computed from the simplest description of the same drive'
BOUNDS = {'quick': 'all sequences of <= 2 description changes from each initial drive (<= 4 tones, <= 3 harmonics)',
          'thorough': 'all sequences of <= 3 description changes'}

# A description: (num_p, ((freq, (v1, v2, ..)), ...)) with complex drive *levels* alpha
STARTS = [
    (1, ((.30, (.8 + .1j,)),)),
    (2, ((.30, (.7, .12j)),)),
    (3, ((.27, (.5, 0, .1 - .05j)),)),
    (1, ((.31, (.7,)), (.34, (.2j,)))),
    (2, ((.31, (.4, 0)), (.07, (.3j, .1)))),
    (1, ((.31, (.5,)), (.34, (.1j,)), (.05, (.2,)))),
    (1, ((.31, (.3,)), (.35, (.1j,)), (.27, (.1,)), (.22, (.15 + .1j,)))),
]
EXTRA = [.083, .41]  # unexcited tones (no low-order product meets the others)


def moves(d, small):
    num_p, tones = d
    n = len(tones)
    for perm in itertools.permutations(range(n)):
        if perm != tuple(range(n)):
            yield 'permute', (num_p, tuple(tones[i] for i in perm))
    if n < small:
        for f in EXTRA:
            if all(f != t[0] for t in tones):
                for pos in range(n + 1):
                    yield 'add tone', (num_p, tones[:pos] + ((f, (0,) * num_p),) + tones[pos:])
    if num_p < 3 and n * (num_p + 1) <= 6:
        yield 'add harmonic', (num_p + 1, tuple((f, vs + (0,)) for f, vs in tones))


def cases(tier):
    for i in range(len(STARTS)):
        yield {'kind': 'graph', 'start': i, 'depth': 3 if tier == 'thorough' else 2}
    for f, p, amp in itertools.product([.2, .15], [2, 3], [.12, .05]):
        yield {'kind': 'split', 'f': f, 'p': p, 'amp': amp}


    # only the p-th harmonic of one tone == one tone at p times the frequency
    for p, k in itertools.product(range(1, 7 if tier == 'quick' else 9), (2, 3, 5, 8, 12)):
        if p * k <= (60 if tier == 'quick' else 96):
            yield {'kind': 'only', 'p': p, 'k': k}


def prepare(tier):
    lib.resp('poly:50')
    lib.resp('perfect')


def weight(case):
    return case.get('start', 100)


def run(d, vb, rs, f_out, num_b):
    from qmix.qtcurrent import qtcurrent
    num_p, tones = d
    cct = lib.circuit([t[0] for t in tones], num_p, vb)
    volts = [[v * f * p for p, v in enumerate(vs, start=1)] for f, vs in tones]
    vj = lib.volt_array(cct, volts)
    nb = tuple(num_b[f] for f, _ in tones)
    return qtcurrent(vj, cct, rs, f_out, num_b=nb, verbose=False)


def check(case, ctx):
    if case['kind'] == 'split':
        return check_split(case, ctx)
    if case['kind'] == 'only':
        return check_only(case, ctx)
    start = STARTS[case['start']]
    vb = [.46137, .81291, 1.04173, 1.30319]
    num_p0, tones0 = start
    freqs0 = [t[0] for t in tones0]
    f_out = sorted(set(lib.mixing_freqs(freqs0, num_p0)[:7] + [freqs0[0], freqs0[-1] * num_p0]))
    # Only unique products: adding tones or harmonics adds (unexcited) products
    # at other frequencies, and more orders of the excited tones
    num_b = {f: (10 if max(abs(v) for v in vs) > .35 else 7) for f, vs in tones0}
    if len(tones0) == 4:
        num_b = {f: 5 for f in num_b}
    num_b.update({f: 2 for f in EXTRA if f not in num_b})
    for rname in ('poly:50', 'perfect'):
        if rname == 'perfect' and case['start'] > 3:
            continue
        rs = lib.resp(rname)
        base = run(start, vb, rs, f_out, num_b)
        ctx.obs(base)
        seen = {start: ()}
        queue = collections.deque([(start, 0)])
        small = 2 if case['start'] in (2,) else (3 if len(tones0) < 3 else 4)
        while queue:
            d, depth = queue.popleft()
            ctx.state(rname, d)
            if depth == case['depth']:
                continue
            for name, nxt in moves(d, small):
                if nxt in seen:
                    continue
                # new orders of excited tones must not land on the requested frequencies
                if not same_products(start, nxt, f_out):
                    continue
                seen[nxt] = seen[d] + (name,)
                if len(nxt[1]) * nxt[0] > 6 or (len(nxt[1]) == 4 and nxt[0] > 1):
                    continue
                got = run(nxt, vb, rs, f_out, num_b)
                ctx.edge()
                ctx.close(got, base, atol=1e-9, rtol=0, what='after {} the same drive {}'.format(
                    '+'.join(seen[nxt]), nxt))
                ctx.trace()
                queue.append((nxt, depth + 1))


def same_products(a, b, f_out):
    from mc.models.mtsda import products

    def excited(d):
        num_p, tones = d
        fs = [t[0] for t in tones]
        out = []
        for f in f_out:
            ps = set()
            for prod in products(fs, num_p, f):
                # an unexcited tone contributes nothing unless its index is 0
                if all(k == 0 or any(tones[i][1]) for i, k in enumerate(prod)):
                    ps.add(tuple(sorted((fs[i], k) for i, k in enumerate(prod) if k)))
            out.append(ps)
        return out
    return excited(a) == excited(b)


def check_split(case, ctx):
    """Fundamental + p-th harmonic of one tone == two tones."""
    f, p, amp = case['f'], case['p'], case['amp']
    vb = [.46137, .81291, 1.04173, 1.30319]
    rs = lib.resp('poly:50')
    v1, v2 = amp * f * np.exp(.4j), .5 * amp * f * p * np.exp(-1.1j)
    from qmix.qtcurrent import qtcurrent
    one = lib.circuit([f], p, vb)
    vj1 = lib.volt_array(one, [[v1] + [0] * (p - 2) + [v2]])
    f_out = [0.] + [f * k for k in range(1, p + 1)]
    a = qtcurrent(vj1, one, rs, f_out, num_b=10, verbose=False)
    order = 5
    for swap in (False, True):
        fs, vs = [f, p * f], [v1, v2]
        if swap:
            fs, vs = fs[::-1], vs[::-1]
        two = lib.circuit(fs, order, vb)
        vj2 = lib.volt_array(two, [[vs[0]] + [0] * (order - 1), [vs[1]] + [0] * (order - 1)])
        b = qtcurrent(vj2, two, rs, f_out, num_b=10, verbose=False)
        ctx.state(repr(case), swap)
        ctx.edge()
        ctx.obs(b)
        ctx.close(b, a, atol=2e-7, rtol=0, what='harmonic {} of {} written as a tone of its own'.format(p, f))
        ctx.trace()


def check_only(case, ctx):
    """The p-th harmonic of f/p is the tone f, also when all the sums are cut off."""
    from qmix.qtcurrent import qtcurrent
    p, k = case['p'], case['k']
    vb = [.46137, .81291, 1.04173, 1.30319]
    for rname, f, level, second in itertools.product(('poly:50', 'exp'), (.36, .21), (.3, 1.1, 2.5, 6.), (False, True)):
        rs = lib.resp(rname)
        v = level * f * np.exp(.7j) * np.array([1., .8, .9 * np.exp(.5j), .7])
        other = [.05 * np.exp(-.4j)] if second else None
        freqs, low = [f], [f / p]
        vs, nb = [[v]], [k]
        if second:
            freqs, low = freqs + [.0517], low + [.0517]
            vs, nb = vs + [other], nb + [3]
        one = lib.circuit(freqs, 1, vb)
        many = lib.circuit(low, p, vb)
        f_out = [0., f]
        a = qtcurrent(lib.volt_array(one, vs), one, rs, f_out, num_b=tuple(nb), verbose=False)
        lowv = [[0] * (p - 1) + [x[0]] if n == 0 else [x[0]] + [0] * (p - 1) for n, x in enumerate(vs)]
        b = qtcurrent(lib.volt_array(many, lowv), many, rs, f_out, num_b=(p * k,) + tuple(nb[1:]), verbose=False)
        ctx.state(repr(case), rname, f, level, second)
        ctx.edge()
        ctx.obs(b)
        # (neither sum has to contain more than the requested orders)
        tail = 2 * np.abs(special.jv(np.arange(k, k + 30), level)).sum()
        ctx.close(b, a, atol=1e-9 + 10 * tail, rtol=0, what='harmonic {} of {:.4f} with {} orders, second tone: {}'.format(p, f / p, p * k, second))
    ctx.trace()
