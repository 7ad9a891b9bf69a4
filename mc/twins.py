"""Histories of calls with almost equal arguments.

For every call of ``ops.OPS`` and ``CALLS`` (below) and every value among its
arguments the *twins* of the arguments are generated: one element, one number,
the order of two elements, a phase, ... differs.  Each history

    call, overwrite what it returned, call of the twin, call again,
    change the very same argument objects into the twin, call

is executed in a process that has not made any other call, and each of its
results has to be, bit for bit, what that call returns in a process of its own.
"""

import hashlib
import os
import pickle

import numpy as np

from mc import core, lib, ops

CALLS = {}


def call(name, make):
    def deco(run):
        CALLS[name] = ops.Op(name, 'math', make, run)
        return run
    return deco


def _curve(i):
    v = np.linspace(0, 2.5, [121, 161][i])
    return dict(v=v, i=np.where(v < 1, v ** [30, 20][i], v) + .01 * np.cos(9 * v))


def _both(i):
    w = _curve(i)
    return dict(v=np.hstack((-w['v'][:0:-1], w['v'])), i=np.hstack((-w['i'][:0:-1], w['i'])))


def _m():
    from qmix.mathfn import filters, ivcurve_models, kktrans, misc
    return filters, ivcurve_models, kktrans, misc


@call('gauss', lambda i: dict(x=_curve(i)['i'], sigma=[5.3, 2.2][i]))
def _(w):
    return _m()[0].gauss_conv(w['x'], w['sigma'])


@call('gauss ext', lambda i: dict(x=_curve(i)['i'], sigma=[5.3, 2.2][i], ext=4))
def _(w):
    return _m()[0].gauss_conv(w['x'], w['sigma'], ext_x=w['ext'])


@call('kk', lambda i: dict(_both(i), n=[10, 7][i]))
def _(w):
    return _m()[2].kk_trans(w['v'], w['i'], n=w['n'])


@call('kk trapz', lambda i: dict(v=_both(i)['v'][::5], i=_both(i)['i'][::5]))
def _(w):
    return _m()[2].kk_trans_trapz(w['v'], w['i'])


@call('slope', _curve)
def _(w):
    return _m()[3].slope(w['v'], w['i'])


@call('slope span', lambda i: dict(_curve(i), n=[7, 5][i]))
def _(w):
    return _m()[3].slope_span_n(w['v'], w['i'], w['n'])


for _name in ('perfect', 'perfect_kk'):
    @call(_name, lambda i: dict(v=np.array([0., .3, .9, .99, 1.01, 1.3, 2.]) - [0, .8][i]))
    def _(w, _name=_name):
        return getattr(_m()[1], _name)(w['v'])


@call('polynomial', lambda i: dict(v=_both(i)['v'], n=[30, 50][i]))
def _(w):
    return _m()[1].polynomial(w['v'], w['n'])


@call('exponential', lambda i: dict(v=_both(i)['v'] * 3e-3, vgap=[2.8e-3, 2.7e-3][i], rn=14., rsg=300., agap=4e4))
def _(w):
    return _m()[1].exponential(w['v'], w['vgap'], w['rn'], w['rsg'], w['agap'])


@call('expanded', lambda i: dict(v=_both(i)['v'] * 3e-3, vgap=[2.8e-3, 2.7e-3][i], rn=14., rsg=300.))
def _(w):
    return _m()[1].expanded(w['v'], vgap=w['vgap'], rn=w['rn'], rsg=w['rsg'])


for _name in ('__call__', 'idc', 'ikk', 'didc', 'dikk', 'resp_conj', 'resp_swap'):
    @call('resp ' + _name, lambda i: dict(resp=lib.resp(['poly:50', 'exp'][i]), v=np.linspace(-1.4, 1.4, [21, 28][i]).reshape(7, -1)))
    def _(w, _name=_name):
        return getattr(w['resp'], _name)(w['v'])


@call('resp number', lambda i: dict(resp=lib.resp(['poly:50', 'exp'][i]), v=[.73, 1.2][i]))
def _(w):
    r = w['resp']
    return [f(w['v']) for f in (r, r.idc, r.ikk, r.didc, r.dikk)]


@call('power', lambda i: dict(cct=ops.sim(2, 1)(i)['cct'], p=[1.3e-9, 2e-10][i]))
def _(w):
    c = w['cct']
    return [c.available_power(f, 1, u) for f in (1, 2) for u in ('W', 'dBm')] + [c.vph, c.initialize_vj(), str(c)]


@call('set power', lambda i: dict(freq=[3e11, 2.2e11][i], z=[.3 + .1j, .2][i], p=[1.3e-9, 2e-10][i], vgap=[2.7e-3, 2.9e-3][i], rn=[13., 9.][i]))
def _(w):
    from qmix.circuit import EmbeddingCircuit
    c = EmbeddingCircuit(1, 2, vgap=w['vgap'], rn=w['rn'], vb_npts=5)
    c.set_freq(w['freq'], 1)
    c.zt[1, 1] = w['z']
    c.set_available_power(w['p'], 1, 1)
    return [c.freq, c.vt, c.available_power(1, 1), c.available_power(1, 1, 'dBm')]


def _solved(i):
    from qmix.harmonic_balance import harmonic_balance
    w = ops.sim(2, 1)(i)
    w['cct'].vt[2:] *= .2
    w['vj'] = harmonic_balance(w['cct'], w['resp'], num_b=w['num_b'], verbose=False)
    return w


@call('check solved', _solved)
def _(w):
    return ops.OPS['check'].run(w)


# the same file with other contents (and the same time stamp)

@call('circuit file', lambda i: dict(_path=os.path.join(os.environ['VERIF_SCRATCH'], 'twins-{}.txt'.format(os.getpid())), cct=ops.sim(2, 2)(i)['cct']))
def _(w):
    from qmix.circuit import read_circuit
    w['cct'].save_info(w['_path'])
    os.utime(w['_path'], (1e9, 1e9))
    return read_circuit(w['_path'])


# -- the twins of a value ---------------------------------------------------------

def leaves(o, path=()):
    """(path, how) of every change of one value below ``o``."""
    if isinstance(o, dict):
        for k, v in o.items():
            if not str(k).startswith('_') and k not in ('j', 'matrix'):
                for x in leaves(v, path + (k,)):
                    yield x
    elif isinstance(o, (list, tuple)):
        for k, v in enumerate(o):
            for x in leaves(v, path + (k,)):
                yield x
    elif type(o).__name__ == 'EmbeddingCircuit':
        for k in ('freq', 'vt', 'zt', 'vb'):
            for x in leaves(getattr(o, k), path + (k,)):
                yield x
    elif isinstance(o, np.ndarray):
        for how in ('1e-3', '1e-9', 'swap', 'reverse', 'all', 'last') + (('phase', 'conj', 'phases') if np.iscomplexobj(o) else ('negative',)):
            for col in columns(o, path):
                yield path, (how,) + col
    elif type(o).__module__ == 'qmix.respfn':
        yield path, ('other', 0)
        yield path, ('other', 1)
    elif type(o).__name__ == 'DCData':
        for how in ('1e-3', '1e-9', 'rseries'):
            yield path, (how,)
    elif isinstance(o, bool) or o is None or isinstance(o, str):
        pass
    elif isinstance(o, (int, np.integer)):
        yield path, ('+1',)
    elif isinstance(o, (float, complex)):
        for how in ('1e-2', '1e-3', '1e-6', '1e-9') + (('conj',) if isinstance(o, complex) else ()):
            yield path, (how,)


def columns(o, path):
    """The one-dimensional parts of an array that are changed."""
    if o.ndim == 1:
        return [()]
    name = path[-1]
    if name in ('vt', 'zt'):
        return [('row', o.shape[0] - 1), ('col', 1)]
    if name == 'vj':
        return [('vj', f, p) for f in range(1, o.shape[0]) for p in range(1, o.shape[1])]
    if o.shape[0] > 50 or o.shape[1] == 2:
        return [('col', c) for c in range(o.shape[1])]
    return [('flat',)]


def pick(o, col):
    if not col:
        return o
    if col[0] == 'row':
        return o[col[1]]
    if col[0] == 'col':
        return o[:, col[1]]
    if col[0] == 'vj':
        return o[col[1], col[2]]
    return o.reshape(-1)


def change(o, path, how):
    """The changed value; arrays and containers are changed in place."""
    if path:
        k = path[0]
        if isinstance(o, dict) or isinstance(o, list):
            o[k] = change(o[k], path[1:], how)
        elif isinstance(o, tuple):
            o = o[:k] + (change(o[k], path[1:], how),) + o[k + 1:]
        else:
            change(getattr(o, k), path[1:], how)
        return o
    if isinstance(o, np.ndarray):
        x = pick(o, how[1:])
        n = len(x)
        m = n // 2
        how = how[0]
        if how in ('1e-3', '1e-9'):
            x[m] = x[m] * (1 + float(how)) if x[m] else float(how)
        elif how == 'swap' and n > 1:
            x[m - 1], x[m] = x[m], x[m - 1]
        elif how == 'reverse':
            x[1:-1] = x[1:-1][::-1].copy()
        elif how == 'all':
            x *= 1.001
        elif how == 'last':
            x[-1] *= 1.001
        elif how == 'phase':
            x[m] *= np.exp(.4j)
        elif how == 'phases':
            x *= np.exp(.4j)
        elif how == 'conj':
            x[:] = x.conj()
        elif how == 'negative':
            x[m] *= -1
        return o
    if type(o).__module__ == 'qmix.respfn':
        return twin_resp(how[1])
    if type(o).__name__ == 'DCData':
        from qmix.exp import DCData
        w = ops._dcdata(0)
        m = len(w['dc']) // 2 + 40
        if how[0] == 'rseries':
            w['kw']['rseries'] = 1e-3
        else:
            w['dc'][m, 1] *= 1 + float(how[0])
        return DCData(w['dc'], **w['kw'])
    if how == ('+1',):
        return o + 1
    if how == ('conj',):
        return o.conjugate()
    return o * (1 + float(how[0]))


def twin_resp(n):
    from qmix.respfn import RespFnFromIVData
    v = np.linspace(0, 2.5, 301)
    i = np.where(v < 1, v ** 30, v)
    i[90] *= 1 + [1e-3, 0][n]
    return RespFnFromIVData(v, i, verbose=False, max_npts_dc=31, max_npts_kk=31)


# -- one history --------------------------------------------------------------------

def arrays(o, seen):
    """All the arrays that can be reached from an object."""
    if id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, np.ndarray):
        yield o
        if o.base is not None:
            for x in arrays(o.base, seen):
                yield x
    elif isinstance(o, dict):
        for v in list(o.values()):
            for x in arrays(v, seen):
                yield x
    elif isinstance(o, (list, tuple)):
        for v in o:
            for x in arrays(v, seen):
                yield x
    elif hasattr(o, '__dict__') and type(o).__module__.split('.')[0] in ('qmix', 'scipy'):
        for x in arrays(vars(o), seen):
            yield x


def results(o):
    """The arrays among the results themselves (not inside other objects)."""
    if isinstance(o, np.ndarray):
        yield o
    elif isinstance(o, (list, tuple)):
        for v in o:
            for x in results(v):
                yield x


def spoil(result, w):
    mine = list(arrays(w, {}))
    for a in results(result):
        if a.flags.writeable and a.dtype.kind in 'fc' and not any(np.may_share_memory(a, b) for b in mine):
            a[...] = np.nan


def attempt(o, w):
    try:
        return o.run(w)
    except Exception as e:
        return 'raises ' + type(e).__name__


def short(r):
    return hashlib.md5(pickle.dumps(ops.digest(r), 4)).hexdigest()


def forked(fn):
    """The result of fn() in a child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            core.die_with_parent()
            with np.errstate(all='ignore'):
                out = fn()
        except BaseException as e:
            out = 'failed: {!r}'.format(e)
        try:
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else 'the process died'


def get(name):
    return ops.OPS[name] if name in ops.OPS else CALLS[name]


def alone(o, i, leaf=None):
    def fn():
        w = o.make(i)
        if leaf:
            w = change(w, *leaf)
        return short(attempt(o, w))
    return forked(fn)


def history(o, i, leaf):
    def fn():
        w = o.make(i)
        out = []
        r = attempt(o, w)
        out.append(short(r))
        spoil(r, w)
        out.append(short(attempt(o, change(o.make(i), *leaf))))
        out.append(short(attempt(o, w)))
        w = change(w, *leaf)
        out.append(short(attempt(o, w)))
        return out
    return forked(fn)


def history2(o, i, leaf, leaf2):
    def fn():
        out = []
        for x in (leaf, leaf2, leaf):
            out.append(short(attempt(o, change(o.make(i), *x))))
        return out
    return forked(fn)


STEPS = ('the call itself', 'after the same call with other arguments', 'after another call (and after its first result was overwritten)',
         'with the same objects, changed by the caller since the last call')


def prepare():
    """Imports only: every history starts from a process without any call."""
    import qmix.exp
    import qmix.harmonic_balance
    import qmix.qtcurrent


def cases(names, parts=1, pairs=False):
    for n in names:
        for i in (0, 1):
            for part in range(parts):
                yield {'kind': 'twin', 'op': n, 'i': i, 'part': part, 'of': parts, 'pairs': pairs}


def check(case, ctx):
    o, i = get(case['op']), case['i']
    if o.group == 'exp' and o.name not in ('dciv', 'DCData', 'ifresp', 'clean'):
        ops._dcd(i)     # the DC data that the calls have in common
    every = forked(lambda: list(leaves(o.make(i))))
    ctx.true(isinstance(every, list), '{} ({}): {}', o.name, i, every)
    first = alone(o, i)
    problem = forked(lambda: o.run(o.make(i)) is None and 'no result')
    ctx.true(problem is False, '{} ({}): {}', o.name, i, problem)
    for k, leaf in enumerate(every):
        if k % case['of'] != case['part']:
            continue
        want = alone(o, i, leaf)
        got = history(o, i, leaf)
        what = '{} ({}), argument {} ({})'.format(o.name, i, '.'.join(map(str, leaf[0])), ' '.join(map(str, leaf[1])))
        ctx.true(isinstance(got, list), '{}: {}', what, got)
        for g, w, s in zip(got, (first, want, first, want), STEPS):
            ctx.true(g == w, '{}: {} it returns something else than alone', what, s)
        ctx.state(o.name, i, leaf)
        ctx.edge(len(got))
        ctx.trace()
        ctx.obs((o.name, want))
        if case['pairs'] and o.name not in ('DCData', 'impedance'):
            for leaf2 in every:
                if leaf2 == leaf:
                    continue
                got = history2(o, i, leaf, leaf2)
                what2 = '{} and {} ({})'.format(what, '.'.join(map(str, leaf2[0])), ' '.join(map(str, leaf2[1])))
                ctx.true(isinstance(got, list), '{}: {}', what2, got)
                ctx.true(got[0] == got[2] == want, '{}: changed by a call in between', what2)
                ctx.state(o.name, i, leaf, leaf2)
                ctx.edge(3)
                ctx.trace()
