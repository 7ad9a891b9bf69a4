"""C07: simulations are pure functions of their arguments.

State graph: histories of calls and parameter changes on shared objects (one
circuit, response functions, junction voltages, a response matrix).  Every
history up to the depth bound is executed.  After each step: every argument is
bit-for-bit unchanged and the result equals the result table, which has one
entry per *parameter state* (so it cannot depend on the history).  All returned
arrays are overwritten by the caller straight away.
"""

import copy
import itertools
import os

import numpy as np

from mc import lib, twins
from mc.core import HarnessError
from mc.models import mtsda

MODEL = 'result table indexed by the current parameter values only (validated by the torus model)'
BOUNDS = {'quick': 'all histories of <= 3 out of 19 calls / parameter changes, 1 and 2 tones; 1000 histories with almost equal arguments (1-4 tones)',
          'thorough': 'all histories of <= 4 (1 tone) / 3 (2 tones)'}

SHAPES = {1: dict(num_p=2, num_b=5), 2: dict(num_p=1, num_b=(5, 3))}
VARS = dict(freq=[[.30, .341], [.36, .307]], vb=[[.46137, .83291, 1.09173], [.35319, .61173, .97291]],
            vt=[.2, .12], zt=[.3 + .1j, .1 - .05j], vj=[.15, .07j], resp=['poly:50', 'exp'])
# how each parameter state is reached from the initial one
CHANGE = ['freq', 'vb', 'vt', 'zt', 'vj', 'resp']
CALLS = ['current', 'current dc', 'current ac', 'current verbose', 'matrix', 'current matrix', 'balance', 'balance x', 'balance warm',
         'balance m verbose', 'check error', 'info', 'lock']


def cases(tier):
    for nf in (1, 2):
        ops = CHANGE + CALLS
        for a, b in itertools.product(ops, repeat=2):
            if nf == 2 and tier == 'quick' and a in ('info', 'current verbose'):
                continue
            yield {'nf': nf, 'first': [a, b], 'depth': 4 if tier == 'thorough' and nf == 1 else 3}
    for c in twins.cases(TWINS, 2):
        yield c


FORK = True
TWINS = ['current1', 'current2', 'current3', 'current4', 'currentm', 'matrix2', 'matrix3', 'balance12', 'balance21', 'check solved', 'resp __call__', 'resp-iv']


def weight(case):
    if 'op' in case:
        return 3
    return case['nf'] + ('balance' in case['first'][0]) + ('balance' in case['first'][1])


class World(object):

    def __init__(self, nf):
        self.nf = nf
        self.par = dict.fromkeys(VARS, 0)
        s = SHAPES[nf]
        self.num_b = s['num_b']
        self.cct = lib.circuit([.1] * nf, s['num_p'], VARS['vb'][0], vgap=2.7e-3, rn=13.)
        self.vj = self.cct.initialize_vj()
        self.locked = False
        for name in VARS:
            self.put(name)
        self.reqs = None

    def put(self, name):
        i, cct = self.par[name], self.cct
        if self.locked:
            cct.unlock()
        if name == 'freq':
            cct.freq[1:] = VARS['freq'][i][:self.nf]
        elif name == 'vb':
            cct.vb[:] = VARS['vb'][i]
        elif name == 'vt':
            cct.vt[1:, 1:] = VARS['vt'][i]
            cct.vt[1:, 2:] = 0
            cct.vt[2:, :] *= .2
        elif name == 'zt':
            cct.zt[1:, 1:] = VARS['zt'][i]
        elif name == 'vj':
            self.vj[1:, 1:] = VARS['vj'][i]
            self.vj[2:] *= .3
        elif name == 'resp':
            self.resp = lib.resp(VARS['resp'][i])
        if self.locked:
            cct.lock()

    def key(self, *names):
        return tuple(self.par[n] for n in names)

    def freqs(self):
        f = [float(x) for x in VARS['freq'][self.par['freq']][:self.nf]]
        return [0.] + [x * p for x in f for p in range(1, self.cct.num_p + 1)] + [abs(f[0] - f[-1])]


class Table(dict):
    """Expected results, one entry per parameter state, from untouched objects."""

    def want(self, world, op):
        names = ['freq', 'vb', 'resp']
        if op.startswith('current'):
            names = names + ['vj']
        elif op.startswith('balance'):
            names = names + ['vt', 'zt']
        kind = 'matrix' if op == 'matrix' else op.split()[0]
        key = (world.nf, kind) + world.key(*names)
        if key not in self:
            raise HarnessError('no table entry for {}'.format(key))
        return self[key]


TABLE = Table()


def prepare(tier):
    from qmix.harmonic_balance import harmonic_balance
    from qmix.qtcurrent import interpolate_respfn, qtcurrent
    lib.resp('poly:50'), lib.resp('exp')
    twins.prepare()
    for nf in (1, 2):
        for bits in itertools.product((0, 1), repeat=len(VARS)):
            par = dict(zip(VARS, bits))
            w = World(nf)
            w.par = par
            for n in VARS:
                w.put(n)
            k = (nf, 'matrix') + w.key('freq', 'vb', 'resp')
            if k not in TABLE:
                TABLE[k] = copy.deepcopy(interpolate_respfn(w.cct, w.resp, w.num_b))
            k = (nf, 'current') + w.key('freq', 'vb', 'resp', 'vj')
            if k not in TABLE:
                TABLE[k] = copy.deepcopy(qtcurrent(w.vj, w.cct, w.resp, w.freqs(), num_b=w.num_b, verbose=False))
            k = (nf, 'balance') + w.key('freq', 'vb', 'resp', 'vt', 'zt')
            if k not in TABLE:
                TABLE[k] = copy.deepcopy(harmonic_balance(w.cct, w.resp, num_b=w.num_b, stop_rerror=1e-6, max_it=12,
                                                          mode='x', verbose=False))


def validate(ctx, nf):
    """The result table itself against the independent model."""
    for bits in itertools.product((0, 1), repeat=len(VARS)):
        w = World(nf)
        w.par = dict(zip(VARS, bits))
        for n in VARS:
            w.put(n)
        fs = [float(f) for f in w.cct.freq[1:]]
        volts = [[w.vj[f, p] for p in range(1, w.cct.num_p + 1)] for f in range(1, nf + 1)]
        ref = mtsda.current(fs, volts, w.cct.vb, w.resp, w.cct.num_p, w.freqs(), [32] * nf)
        ctx.close(TABLE.want(w, 'current'), ref, atol=1e-4, rtol=0, what='current of parameter state {}'.format(w.par))
        vj, it, conv = TABLE.want(w, 'balance')
        ctx.true(bool(conv), 'harmonic balance of parameter state {} did not converge', w.par)
        ctx.edge(2)


def check(case, ctx):
    if 'op' in case:
        return twins.check(case, ctx)
    ops = CHANGE + CALLS
    if case['first'] == [ops[0], ops[0]]:
        validate(ctx, case['nf'])
    for tail in itertools.product(ops, repeat=case['depth'] - 2):
        run(case['nf'], tuple(case['first']) + tail, ctx)


def run(nf, seq, ctx):
    from qmix.harmonic_balance import check_hb_error, harmonic_balance
    from qmix.qtcurrent import interpolate_respfn, qtcurrent
    w = World(nf)
    hist = []
    mats = {}
    for op in seq:
        hist.append(op)
        what = 'after {}'.format(' -> '.join(hist))
        if op in CHANGE:
            w.par[op] ^= 1
            w.put(op)
            ctx.state(nf, hist)
            continue
        cct_before, vj_before = lib.circuit_state(w.cct), w.vj.copy()
        flags = [a.flags.writeable for a in (w.cct.freq, w.cct.vt, w.cct.zt, w.cct.vb)]
        given = []
        if op.startswith('current'):
            exp = TABLE.want(w, op)
            fs = w.freqs()
            kw = dict(num_b=w.num_b, verbose=(op == 'current verbose'))
            if op == 'current dc':
                fs, exp = 0., exp[0].real
            elif op == 'current ac':
                fs, exp = fs[-2], exp[-2]
            elif op == 'current matrix':
                key = w.key('freq', 'vb', 'resp')
                kw['resp_matrix'] = mats.get(key, TABLE.want(w, 'matrix')).copy()
                given.append((kw['resp_matrix'], kw['resp_matrix'].copy()))
            given.append((fs, list(fs) if isinstance(fs, list) else fs))
            out = qtcurrent(w.vj, w.cct, w.resp, fs, **kw)
            ctx.close(out, exp, atol=1e-12, rtol=0, what=what)
            out[...] = np.nan
        elif op == 'matrix':
            out = interpolate_respfn(w.cct, w.resp, w.num_b)
            ctx.close(out, TABLE.want(w, op), atol=1e-12, rtol=0, what=what)
            mats[w.key('freq', 'vb', 'resp')] = out.copy()
            out[...] = np.nan
        elif op.startswith('balance'):
            vj, it, conv = TABLE.want(w, op)
            kw = dict(num_b=w.num_b, stop_rerror=1e-6, max_it=12, verbose='verbose' in op)
            if op == 'balance warm':
                start = vj * 1.01
                given.append((start, start.copy()))
                out = harmonic_balance(w.cct, w.resp, vj_initial=start, **kw)
                ctx.close(out, vj, atol=2e-5, rtol=0, what=what)
            elif op == 'balance':
                out = harmonic_balance(w.cct, w.resp, **kw)
                ctx.close(out, vj, atol=1e-11, rtol=0, what=what)
            elif op == 'balance x':
                out, it2, conv2 = harmonic_balance(w.cct, w.resp, mode='x', **kw)
                ctx.close(out, vj, atol=1e-11, rtol=0, what=what)
                ctx.true((it2, bool(conv2)) == (it, bool(conv)), '{}: {} iterations (converged: {}) instead of {}', what,
                         it2, conv2, it)
            else:
                out, mask = harmonic_balance(w.cct, w.resp, mode='m', **kw)
                ctx.close(out, vj, atol=1e-11, rtol=0, what=what)
            out[...] = np.nan
        elif op == 'check error':
            vj = TABLE.want(w, 'balance')[0].copy()
            given.append((vj, vj.copy()))
            check_hb_error(vj, w.cct, w.resp, num_b=w.num_b)
            bad = vj * 1.1
            ctx.raises(AssertionError, lambda: check_hb_error(bad, w.cct, w.resp, num_b=w.num_b), what + ' (wrong voltage)')
        elif op == 'info':
            w.cct.print_info()
            str(w.cct)
            w.cct.save_info(os.path.join(ctx.scratch, 'c07-{}.txt'.format(os.getpid())))
            w.cct.available_power(1, 1, 'dBm')
            w.cct.initialize_vj()[...] = 1
        elif op == 'lock':
            if w.locked:
                w.cct.unlock()
            else:
                w.cct.lock()
            w.locked = not w.locked
            flags = [not w.locked] * 4
        lib.same_circuit(ctx, w.cct, cct_before, what)
        ctx.same(w.vj, vj_before, what + ': the junction voltages given by the caller')
        for now, before in given:
            ctx.true(np.array_equal(now, before) and type(now) is type(before), '{}: an argument was changed', what)
        ctx.true(flags == [a.flags.writeable for a in (w.cct.freq, w.cct.vt, w.cct.zt, w.cct.vb)],
                 '{}: write protection of the circuit changed', what)
        ctx.edge()
        ctx.state(nf, hist)
        ctx.obs((nf, op, tuple(sorted(w.par.items()))))
    ctx.trace()
