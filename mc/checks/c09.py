"""C09: locking an embedding circuit.

State graph: (locked?, contents) of two circuits; transitions: lock, unlock,
every kind of write, reads and simulations.  All sequences up to the depth.
"""

import itertools
import os

import numpy as np

from mc import lib

MODEL = 'one boolean per circuit plus a dictionary of its contents'
BOUNDS = {'quick': 'all sequences of length <= 4 over 14 operations', 'thorough': 'all sequences of length <= 5'}


def w(attr, idx, vals):
    def op(c, m, i):
        getattr(c, attr)[idx] = vals[i % 2]
        m[attr][idx] = vals[i % 2]
    return op


def set_freq(c, m, i):
    c.set_freq([.31, .35][i % 2], 2, 'norm')
    m['freq'][2] = [.31, .35][i % 2]


def set_power(c, m, i):
    c.set_available_power([3., 5.][i % 2], 1, 1, 'nW')
    m['vt'][1, 1] = np.sqrt(8 * [3e-9, 5e-9][i % 2] * m['zt'][1, 1].real * 13.) / 2.7e-3


def set_alpha(c, m, i):
    c.set_alpha([.4, .6][i % 2], 1, 1)
    m['vt'][1, 1] = [.4, .6][i % 2] * m['freq'][1] * (m['zt'][1, 1] / .66 + 1)


def iadd(c, m, i):
    v = c.vt
    v += .01
    m['vt'] += .01


WRITES = {'freq': w('freq', 1, [.3, .33]), 'vt': w('vt', (2, 1), [.1, .2j]), 'zt': w('zt', (1, 1), [.3, .2 + .1j]),
          'vb': w('vb', slice(None), [np.array([.31171, .92173]), np.array([.51171, 1.12173])]),
          'set_freq': set_freq, 'set_power': set_power, 'set_alpha': set_alpha, 'in place': iadd}
OTHER = ['lock', 'unlock', 'name', 'read', 'simulate', 'save']


def cases(tier):
    ops = list(WRITES) + OTHER
    for a in ops:
        for b in ops:
            yield {'first': [a, b], 'depth': 5 if tier == 'thorough' else 4}


def prepare(tier):
    lib.resp('poly:50')


def check(case, ctx):
    ops = list(WRITES) + OTHER
    for tail in itertools.product(ops, repeat=case['depth'] - 2):
        run(tuple(case['first']) + tail, ctx)


def make():
    c = lib.circuit([.3, .33], 1, [.31171, .92173], vgap=2.7e-3, rn=13.)
    c.zt[1:, 1:] = .3
    c.vt[1:, 1:] = .1
    return c


def run(seq, ctx):
    from qmix.harmonic_balance import harmonic_balance
    from qmix.qtcurrent import qtcurrent
    c, other = make(), make()
    m = {k: getattr(c, k).copy() for k in ('freq', 'vt', 'zt', 'vb')}
    locked = False
    for n, op in enumerate(seq):
        what = ' -> '.join(seq[:n + 1])
        if op in WRITES:
            if locked:
                scrap = {k: v.copy() for k, v in m.items()}
                ctx.raises((ValueError, RuntimeError), lambda: WRITES[op](c, scrap, n), what + ' (locked)')
            else:
                WRITES[op](c, m, n)
        elif op in ('lock', 'unlock'):
            getattr(c, op)()
            locked = op == 'lock'
        elif op == 'name':
            c.set_name('LO', 1, 1)
            ctx.true(c.comment[1][1] == 'LO', '{}: name not set', what)
        elif op == 'read':
            c.print_info()
            str(c)
            c.available_power(1, 1)
            c.initialize_vj()[1, 1] = .3
        elif op == 'save':
            c.save_info(os.path.join(ctx.scratch, 'c09-{}.txt'.format(os.getpid())))
        elif op == 'simulate' and n == len(seq) - 1:
            # same results locked or not
            twin = make()
            for k in m:
                getattr(twin, k)[...] = m[k]
            rs = lib.resp('poly:50')
            vj = c.initialize_vj()
            vj[1:, 1:] = .1 + .05j
            ctx.close(qtcurrent(vj, c, rs, [0., m['freq'][1]], num_b=3, verbose=False),
                      qtcurrent(vj, twin, rs, [0., m['freq'][1]], num_b=3, verbose=False), atol=0, what=what + ' current')
            ctx.close(harmonic_balance(c, rs, num_b=3, max_it=1, verbose=False),
                      harmonic_balance(twin, rs, num_b=3, max_it=1, verbose=False), atol=0, what=what + ' balance')
        ctx.edge()
        ctx.state(seq[:n + 1])
    for k in m:
        ctx.close(getattr(c, k), m[k], atol=1e-15, rtol=1e-12, what='{}: {}'.format(what, k))
        ctx.true(getattr(c, k).flags.writeable == (not locked), '{}: {} is {}locked', what, k, 'not ' if locked else '')
        ctx.true(getattr(other, k).flags.writeable, '{}: locked another circuit', what)
    ctx.obs((locked, tuple(np.round(m['vt'].ravel(), 4)), tuple(m['freq'])))
    ctx.trace()
