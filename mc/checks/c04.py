"""C04: the requested output frequencies select the right currents.

State graph: request sequences over an alphabet of frequencies (products, dc,
values within / outside the 4-decimal matching distance, non-products), in all
container and number types.  Every sequence up to the depth bound is executed;
the model maps each request to its current on its own.
"""

import itertools

import numpy as np

from mc import lib
from mc.models import mtsda

MODEL = 'request -> current table from the torus model, one entry per frequency rounded to 4 decimals'
BOUNDS = {'quick': 'all request lists of length <= 3 over 8-9 frequencies (<= 2 for the largest circuits), 11 circuits, 9 container/number types, negative frequencies',
          'thorough': 'all request lists of length <= 4'}

CFG = [
    dict(freqs=[.3], num_p=2, tune=[.3, .6, 0]),
    dict(freqs=[.5], num_p=3, tune=[.5, 1.0, 1.5, 0]),
    dict(freqs=[.20005], num_p=3, tune=[.20005, 2 * .20005, 3 * .20005, 0]),
    dict(freqs=[.30, .32], num_p=1, tune=[.30, .32, .02, .62, 0]),
    dict(freqs=[.30, .32], num_p=2, tune=[.30, .28, .04, .64, 0]),
    dict(freqs=[.35, .32, .03], num_p=1, tune=[.35, .03, .67, .38, 0]),
    # dependent tones: several products at one frequency
    dict(freqs=[.3, .6], num_p=3, tune=[.3, .6, .9, 2.4, 0]),
    dict(freqs=[.2, .3], num_p=3, tune=[.2, .3, .6, .1, 0]),
    dict(freqs=[.6, .3], num_p=2, tune=[.3, .6, 1.2, 0]),
    dict(freqs=[.2, .3, .1], num_p=2, tune=[.2, .3, .1, .4, 0]),
    dict(freqs=[.35, .32, .03, .67], num_p=1, tune=[.35, .03, .67, .38, 0]),
]


def cases(tier):
    for i in range(len(CFG)):
        yield {'kind': 'lists', 'cfg': i, 'depth': (4 if tier == 'thorough' else 3) - (len(CFG[i]['freqs']) > 3) - (len(CFG[i]['freqs']) > 2 and CFG[i]['num_p'] > 1)}
        yield {'kind': 'types', 'cfg': i}
        yield {'kind': 'near', 'cfg': i}
    for tie in itertools.product([.20005, .30015, .12345, .1 + .2, 1 / 3., 2 / 7., .17895, .00025],
                                 [1, 3]):
        yield {'kind': 'tie', 'freq': tie[0], 'num_p': tie[1]}


def weight(case):
    return 100 if case['kind'] == 'lists' else 1


def prepare(tier):
    lib.resp('poly:50')


def setup(c):
    freqs, num_p = c['freqs'], c['num_p']
    vb = np.array([.43, .81, 1.1])
    rs = lib.resp('poly:50')
    cct = lib.circuit(freqs, num_p, vb)
    volts = [[(.6 if i == 0 else .2) * f / p * np.exp(1j * (.3 + i + p)) for p in range(1, num_p + 1)]
             for i, f in enumerate(freqs)]
    num_b = {1: 16, 2: 10, 3: 6, 4: 4}[len(freqs)]
    vj = lib.volt_array(cct, volts)
    return cct, rs, vj, volts, num_b, vb


def table(c, volts, vb, rs, fs):
    npts = mtsda.samples_needed(c['freqs'], volts, c['num_p'])
    ref = mtsda.current(c['freqs'], volts, vb, rs, c['num_p'], list(fs), npts)
    return {f: ref[i] for i, f in enumerate(fs)}


def check(case, ctx):
    from qmix.qtcurrent import qtcurrent
    if case['kind'] == 'tie':
        return check_tie(case, ctx)
    c = CFG[case['cfg']]
    cct, rs, vj, volts, num_b, vb = setup(c)
    tol = {1: 1e-8, 2: 1e-8, 3: 1e-6, 4: 2e-5}[len(c['freqs'])]

    def call(req):
        return qtcurrent(vj, cct, rs, req, num_b=num_b, verbose=False)

    if case['kind'] == 'lists':
        alphabet = [float(t) for t in c['tune']] + [.0777, 7.7] + [c['tune'][0] + 3e-5, c['tune'][0] + 1e-4]
        ref = table(c, volts, vb, rs, alphabet)
        if .20005 in c['tune']:
            alphabet = [float(t) for t in c['tune']] + [.0777]
        for depth in range(1, case['depth'] + 1):
            if depth == 4:
                alphabet = alphabet[:6]
            for req in itertools.product(alphabet, repeat=depth):
                lst = list(req)
                got = call(lst)
                ctx.state(repr(c), req)
                ctx.edge(depth)
                ctx.true(got.shape == (depth, len(vb)) and np.iscomplexobj(got),
                         'request {}: result has shape {} and type {}', req, got.shape, got.dtype)
                ctx.close(got, np.array([ref[f] for f in req]), atol=tol, rtol=0, what='request {}'.format(req))
                ctx.true(lst == list(req), 'the list of requested frequencies {} was changed to {}', req, lst)
                ctx.trace()
            ctx.obs(got)
    elif case['kind'] == 'types':
        ref = table(c, volts, vb, rs, c['tune'] + [.0777])
        for f, mk in itertools.product(c['tune'] + [.0777], (
                float, np.float64, lambda x: np.array(x), lambda x: (x,), lambda x: [np.float64(x)],
                lambda x: np.array([x]), lambda x: np.array([x, x])[:1], lambda x: iter([x]),
                lambda x: [int(x)] if x == int(x) else [x], lambda x: int(x) if x == int(x) else x,
                lambda x: np.array([int(x)]) if x == int(x) else (x,))):
            req = mk(f)
            single = not hasattr(req, '__iter__') or getattr(req, 'ndim', 1) == 0
            got = call(req)
            ctx.state(repr(c), f, type(req).__name__, repr(req)[:30] if not hasattr(req, '__next__') else 'iter')
            ctx.edge()
            if single:
                if f == 0:
                    ctx.true(not np.iscomplexobj(got), 'dc current of a single request is not real ({})', got.dtype)
                    ctx.close(got, ref[f].real, atol=tol, rtol=0, what='single request {!r}'.format(req))
                else:
                    ctx.true(np.iscomplexobj(got), 'ac current of a single request is not complex ({})', got.dtype)
                    ctx.close(got, ref[f], atol=tol, rtol=0, what='single request {!r}'.format(req))
            else:
                ctx.true(np.iscomplexobj(got), 'current is not complex ({})', got.dtype)
                ctx.close(got, ref[f][None, :], atol=tol, rtol=0, what='request {!r} of {}'.format(req, f))
            ctx.obs(got)
            ctx.trace()
        # an array of several requests is not touched
        arr = np.array(c['tune'] + [.0777])
        keep = arr.copy()
        got = call(arr)
        ctx.same(arr, keep, 'array of requested frequencies')
        ctx.close(got, np.array([ref[f] for f in c['tune'] + [.0777]]), atol=tol, rtol=0, what='array request')
        # the phasor at minus a frequency is the conjugate
        neg = [-float(f) for f in c['tune'] + [.0777]]
        got = call(neg)
        ctx.edge()
        ctx.close(got, np.array([ref[-f] for f in neg]).conj(), atol=tol, rtol=0, what='request {}'.format(neg))
        mixed = [neg[0], -neg[0], 0., neg[1], neg[0]]
        ctx.close(call(mixed), np.array([ref[-f].conj() if f < 0 else ref[f] for f in mixed]), atol=tol, rtol=0, what='request {}'.format(mixed))
        got = call([])
        ctx.true(np.shape(got) == (0, len(vb)), 'empty request gives shape {}', np.shape(got))
    elif case['kind'] == 'near':
        # frequencies match if they are equal to 4 decimal places
        base = [f for f in lib.mixing_freqs(c['freqs'], c['num_p']) if abs(f * 1e4 - round(f * 1e4)) < 1e-6]
        base = base[:8]
        ref = table(c, volts, vb, rs, base)
        for f, d in itertools.product(base, [-4.9e-5, -3e-5, -1e-6, -1e-12, 1e-12, 2e-5, 4.9e-5]):
            got = call([f + d])
            ctx.state(repr(c), f, d)
            ctx.edge()
            ctx.close(got[0], ref[f], atol=tol, rtol=0, what='request {} next to {}'.format(f + d, f))
            ctx.obs(got)
            if f + d >= 0 or f == 0:
                one = call(f + d)
                ctx.close(one, ref[f].real if f == 0 else ref[f], atol=tol, rtol=0, what='single request {}'.format(f + d))
            ctx.trace()
        for f, d in itertools.product(base, [-1e-3, -1e-4, -6e-5, 5.1e-5, 1e-4, 1e-3]):
            got = call([f + d])
            ctx.state(repr(c), f, d)
            ctx.edge()
            if all(abs(f + d - g) > 5e-5 and abs(f + d + g) > 5e-5 for g in
                   lib.mixing_freqs(c['freqs'], c['num_p'])):
                ctx.close(got[0], np.zeros(len(vb)), atol=0, rtol=0, what='request {} is not a product'.format(f + d))
            ctx.trace()


def check_tie(case, ctx):
    """A tone is always found at its own frequency, however its value rounds."""
    from qmix.qtcurrent import qtcurrent
    c = dict(freqs=[case['freq']], num_p=case['num_p'])
    cct, rs, vj, volts, num_b, vb = setup(c)
    for p in range(1, case['num_p'] + 1):
        f = cct.freq[1] * p
        npts = mtsda.samples_needed(c['freqs'], volts, c['num_p'])
        full = np.array([2 * mtsda.spectrum(c['freqs'], [[v for v in volts[0]]], b, rs, npts)[p] for b in vb])
        for req in (f, float(f), case['freq'] * p, [float(f)], (np.float64(f),), np.array([f]), np.array(f)):
            got = np.ravel(qtcurrent(vj, cct, rs, req, num_b=num_b, verbose=False))
            ctx.state(case['freq'], p, type(req).__name__)
            ctx.edge()
            ctx.close(got, full, atol=1e-7, rtol=0, what='current at harmonic {} of {} requested as {!r}'.format(
                p, case['freq'], req))
            ctx.obs(got)
        ctx.trace()
