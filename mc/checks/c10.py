"""C10: saving and reading embedding circuits.

State graph: (circuit contents, file contents); transitions: write values,
save, read.  All save / change / read sequences within the bounds, and all
values of an alphabet in every position of the file.
"""

import itertools
import os

import numpy as np

from mc import lib

MODEL = 'a file holds exactly the frequencies, voltages and impedances of the circuit at the time it was saved'
BOUNDS = {'quick': '4 tones x 1-12 harmonics, every value of a 30-value alphabet for freq / vt / zt in every position; '
                   'all save-change-read sequences of length <= 4', 'thorough': 'sequences of length <= 5'}

REAL = [0., 1., .3, 1 / 3., .2 * 3, 2 / 7 * .1, 1e-10, 123456.789, 2e11, 5e-324, .1 + .2]
CPLX = [0, 1, -1, .5, -.25, 1j, -1j, .3 - .1j, .3 + .1j, -.3 - .1j, 1 / 3. + 2j / 7, 1e-10, 1e-10j, -1e-12 + 1e3j, 1e20,
        1.5e-7 - 2.5e-9j, 123.456789012345, 100, .05 + 100j, 1e-5, 12345678901.5 - 1e-3j, -0.00001j, 1e16 + 1j, 1e22 - 1e-7j,
        complex(0, np.inf), complex(np.inf, 0), complex(-np.inf, 1), complex(-0., 1), complex(2, -0.), 1e300 - 1e-300j]


def cases(tier):
    for nf in (1, 2, 3, 4):
        for num_p in (1, 2, 3, 5, 12):
            yield {'kind': 'values', 'nf': nf, 'num_p': num_p}
    for first in OPS:
        yield {'kind': 'seq', 'first': first, 'depth': 5 if tier == 'thorough' else 4}
    yield {'kind': 'names'}


OPS = ['save a', 'save b', 'read a', 'read b', 'change', 'change other', 'resave', 'lock']


def contents(c):
    return dict(num_f=c.num_f, num_p=c.num_p, freq=c.freq[1:].copy(), vt=c.vt[1:, 1:].copy(), zt=c.zt[1:, 1:].copy())


def compare(ctx, got, exp, what):
    ctx.true((got['num_f'], got['num_p']) == (exp['num_f'], exp['num_p']), '{}: {} tones and {} harmonics instead of {}, {}',
             what, got['num_f'], got['num_p'], exp['num_f'], exp['num_p'])
    for k in ('freq', 'vt', 'zt'):
        ctx.close(got[k], exp[k], atol=0, rtol=0, what='{}: {}'.format(what, k))
    for k in ('vt', 'zt'):
        ctx.close(got[k].real, exp[k].real, atol=0, rtol=0, what='{}: Re {}'.format(what, k))
        ctx.close(got[k].imag, exp[k].imag, atol=0, rtol=0, what='{}: Im {}'.format(what, k))


def check(case, ctx):
    from qmix.circuit import EmbeddingCircuit, read_circuit
    path = os.path.join(ctx.scratch, 'c10-{}-{}.txt'.format(os.getpid(), id(ctx)))
    if case['kind'] == 'values':
        nf, num_p = case['nf'], case['num_p']
        n = nf * num_p
        # rotate the alphabets through all positions
        rounds = max(len(CPLX), len(REAL))
        for k in range(rounds):
            kw = [dict(), dict(vgap=2.8e-3, rn=14.), dict(name='my circuit')][k % 3]
            c = EmbeddingCircuit(nf, num_p, vb_npts=5, **kw)
            for f in range(1, nf + 1):
                c.freq[f] = REAL[(k + f) % len(REAL)]
                for p in range(1, num_p + 1):
                    c.vt[f, p] = CPLX[(k + 3 * f + p) % len(CPLX)]
                    c.zt[f, p] = CPLX[(2 * k + f + 5 * p + 1) % len(CPLX)]
                    c.set_name(['LO', 'RF signal (USB)', '', 'f=3, p=2', 'freq = 7'][(k + f + p) % 5], f, p)
            before = lib.circuit_state(c)
            c.save_info(path)
            lib.same_circuit(ctx, c, before, 'saving')
            d = read_circuit(path)
            ctx.state(nf, num_p, k)
            ctx.edge()
            compare(ctx, contents(d), contents(c), '{} tones, {} harmonics'.format(nf, num_p))
            ctx.true(not d.vt[0].any() and not d.vt[:, 0].any() and not d.zt[0].any() and not d.zt[:, 0].any()
                     and d.freq[0] == 0, 'values at index 0')
            # a second trip changes nothing
            d.save_info(path)
            compare(ctx, contents(read_circuit(path)), contents(c), 'second trip')
            ctx.obs(d.vt)
            ctx.trace()
    elif case['kind'] == 'names':
        old = os.getcwd()
        folder = os.path.join(ctx.scratch, 'c10 names {}'.format(os.getpid()))
        os.makedirs(folder, exist_ok=True)
        os.chdir(folder)
        try:
            c = EmbeddingCircuit(2, 1)
            c.freq[1:] = .3, .4
            c.vt[1:, 1] = .5, .6j
            c.zt[1:, 1] = .5 - .3j, .1
            c.save_info()
            ctx.true(os.listdir(folder) == ['embedding-circuit.txt'], 'default file name {}', os.listdir(folder))
            compare(ctx, contents(read_circuit('embedding-circuit.txt')), contents(c), 'default file')
            for name in ('a b.txt', 'plain', 'x.dat', os.path.join(folder, 'abs.txt')):
                c.save_info(name)
                ctx.state(name)
                ctx.edge()
                compare(ctx, contents(read_circuit(name)), contents(c), name)
                ctx.trace()
        finally:
            os.chdir(old)
    else:
        for tail in itertools.product(OPS, repeat=case['depth'] - 1):
            seq = (case['first'],) + tail
            base = path + '-{}'.format(abs(hash(seq)))
            files, model = {}, {}
            cs = [EmbeddingCircuit(1, 2, vb_npts=3), EmbeddingCircuit(2, 1, vb_npts=3)]
            cur = 0
            last = None
            for n, op in enumerate(seq):
                what = ' -> '.join(seq[:n + 1])
                c = cs[cur]
                if op.startswith('save'):
                    name = base + op[-1]
                    c.save_info(name)
                    model[name] = contents(c)
                elif op == 'resave' and last is not None:
                    last.save_info(base + 'a')
                    model[base + 'a'] = contents(last)
                elif op.startswith('read'):
                    name = base + op[-1]
                    if name in model:
                        last = read_circuit(name)
                        compare(ctx, contents(last), model[name], what)
                    else:
                        ctx.raises((OSError, IOError), lambda: read_circuit(name), what + ' (no such file)')
                elif op == 'change':
                    if c.freq.flags.writeable:
                        c.freq[1:] += 1 / 3.
                        c.vt[1:, 1:] += .1 * (1 + n) - .07j
                        c.zt[1:, 1:] += 3e-7j + n
                elif op == 'change other':
                    cur = 1 - cur
                elif op == 'lock':
                    c.lock()
                ctx.edge()
                ctx.state(seq[:n + 1])
            for name in sorted(model):
                compare(ctx, contents(read_circuit(name)), model[name], what + ': file ' + name[-1])
                os.remove(name)
            ctx.obs(len(model))
            ctx.trace()
