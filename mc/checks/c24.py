"""C24: loading experimental data has no memory.

Explores every sequence of operations up to the depth bound over an alphabet of
imports (with very different parameters), failing imports, and users who modify
what they got.  Every operation must give what it gives in a fresh process
state, and leave the defaults, the arguments and all earlier results alone.
Also: giving a default value explicitly is the same as not giving it.
"""

import copy
import itertools

import numpy as np

from mc.models.junction import Junction

MODEL = 'each operation is a pure function of its arguments: one digest per operation'
BOUNDS = {'quick': 'all sequences of 10 operations to depth 3; every single default parameter given explicitly in 4 entry points; '
                   '9 units x 2 gains x 3 offsets x 2 series resistances x filter on/off x 11 orders and memory layouts of the arguments',
          'thorough': 'all sequences of 10 operations to depth 4; every pair of default parameters'}

FORK = True
TWINS = ['dciv', 'iv', 'if', 'PumpedData', 'ifresp', 'clean']
OPS = ('dc', 'dc2', 'dcif', 'pumped', 'pumped-if', 'iv', 'if', 'ifresp', 'fail', 'vandal')


def cases(tier):
    for first in itertools.product(OPS, repeat=2 if tier == 'quick' else 3):
        yield {'kind': 'history', 'first': list(first)}
    for entry in ('DCData', 'PumpedData', 'dciv_curve', 'if_data'):
        yield {'kind': 'defaults', 'entry': entry}
    yield {'kind': 'impedance'}
    from mc import twins
    for c in twins.cases(TWINS, 4):
        yield c
    for order in ('up', 'down', 'gaps'):
        for layout in ('C', 'F', 'view', 'int'):
            if (order, layout) != ('gaps', 'int'):
                yield {'kind': 'arguments', 'order': order, 'layout': layout}


def weight(case):
    return 1 if case['kind'] == 'history' else 5


def digest_obj(o):
    """Everything observable about a result, bit for bit."""
    if isinstance(o, np.ndarray):
        return (o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, dict):
        return tuple(sorted((str(k), digest_obj(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return tuple(digest_obj(x) for x in o)
    if isinstance(o, (float, np.floating, complex, np.complexfloating)):
        return repr(complex(o))
    if isinstance(o, (bool, np.bool_, int, np.integer, str)) or o is None:
        return repr(o) if isinstance(o, str) or o is None else repr(int(o))
    if type(o).__module__.startswith('qmix.respfn'):
        x = np.linspace(-1.7, 1.7, 37)
        return digest_obj(o(x))
    if hasattr(o, '__dict__') and type(o).__module__.startswith('qmix.'):
        return digest_obj(vars(o))
    return type(o).__name__


class World(object):
    """Measurements of one junction, and the operations on them."""

    def __init__(self):
        j = self.j = Junction(va=2.7e-3, vb=2.86e-3, vint=1e-4)
        v = j.grid(step=5e-6)
        i = j.i(v) + 5e-6 * np.tanh(v / 2e-4)
        self.dc_arr = np.vstack(((v + 3e-5) * 1e3, (i + 1e-6) * 1e3)).T
        self.dc2_arr = np.vstack((v * 1.1e6, i * .7e6)).T[::-1].copy()
        vph = .4 * j.vgap
        ip = .8 * i + .1 * j.i(v + vph) + .1 * j.i(v - vph)
        self.iv_arr = np.vstack(((v + 3e-5) * 1e3, (ip + 1e-6) * 1e3)).T
        vi = np.linspace(0, 6.2e-3, 500)
        mix = np.clip(np.sin(vi * 800.), 0, None) * (vi < 3.5e-3)
        line = 5.8e3 * vi + 8.
        self.hot_arr = np.vstack((vi * 1e3, line + 90 * mix)).T
        self.cold_arr = np.vstack((vi * 1e3, line + 40 * mix)).T
        self.dcif_arr = np.vstack((vi * 1e3, line * .9)).T
        f = np.linspace(2, 10, 30)
        self.spec_arr = np.vstack((f, -20 + .1 * f, -23 + .1 * f)).T
        self.kw = {
            'dc': dict(npts=3001, verbose=False),
            'dc2': dict(v_fmt='uV', i_fmt='uA', vmax=5e-3, npts=4001, v_multiplier=.95, i_multiplier=1.2, rseries=1.5, voffset=0., ioffset=0.,
                        filter_data=False, vrn=(4e-3, 6e-3), vrsg=1.5e-3, vleak=1e-3, v_smear=.03, area=2., comment='second', verbose=False),
            'dcif': dict(npts=4001, vshot=((4e-3, 5.5e-3),), ifdata_npts=700, ifdata_sigma=2e-5, filter_nwind=31, filter_npoly=2, verbose=False),
            'pumped': dict(freq=271., analyze_iv=False, npts=3001, filter_theta=.6, verbose=False),
            'pumped-if': dict(freq=272., analyze_iv=False, best_pt='Min Tn', t_hot=300., t_cold=20., vshot=[4e-3, 5.5e-3], ifdata_npts=500, verbose=True),
            'iv': dict(filter_data=False, vmax=4e-3, npts=700),
            'if': dict(freq=500., vbest=1.5e-3, vshot=[[4e-3, 5e-3]], t_cold=4., verbose=False),
            'ifresp': dict(t_hot=400., ifresp_maxtn=100.),
            'fail': dict(v_fmt='furlong', verbose=False),
        }

    def digest(self):
        return digest_obj(vars(self)) if False else digest_obj({k: v for k, v in vars(self).items() if k != 'j'})

    def run(self, op, dcd):
        from qmix.exp import DCData, PumpedData
        from qmix.exp.if_data import if_data
        from qmix.exp.if_response import if_response
        from qmix.exp.iv_data import iv_curve
        kw = self.kw.get(op)
        if op == 'dc':
            return DCData(self.dc_arr, **kw)
        if op == 'dc2':
            return DCData(self.dc2_arr, **kw)
        if op == 'dcif':
            return DCData(self.dc_arr, self.dcif_arr, **kw)
        if op == 'pumped':
            return PumpedData(self.iv_arr, dcd, **kw)
        if op == 'pumped-if':
            return PumpedData(self.iv_arr, dcd, self.hot_arr, self.cold_arr, **kw)
        if op == 'iv':
            return iv_curve(self.iv_arr, dcd.dc, **kw)
        if op == 'if':
            return if_data(self.hot_arr, self.cold_arr, dcd.dc, **kw)
        if op == 'ifresp':
            return if_response(self.spec_arr, **kw)
        if op == 'fail':
            out = []
            for f in (lambda: DCData(self.dc_arr, **kw), lambda: PumpedData(self.iv_arr, dcd, freq=200., **kw),
                      lambda: PumpedData(self.iv_arr, dcd, verbose=False),
                      lambda: if_data(self.hot_arr, self.cold_arr, dcd.dc, freq=200., best_pt='?', verbose=False)):
                try:
                    f()
                    out.append('accepted')
                except Exception as e:
                    out.append(type(e).__name__)
            return out
        # the user changes the settings stored in what they got
        d = DCData(self.dc_arr, npts=3001, verbose=False)
        out = digest_obj(d)
        for k in list(d.kwargs):
            d.kwargs[k] = 'broken'
        d.voltage[:] = 7.
        d.current *= -1
        return out


def check(case, ctx):
    from qmix.exp import DCData
    from qmix.exp.parameters import params
    import matplotlib.pyplot as plt
    if case['kind'] == 'twin':
        from mc import twins
        return twins.check(case, ctx)
    if case['kind'] == 'history':
        world = World()
        wd = world.digest()
        pd = digest_obj(params)
        err = np.geterr()
        nfig = len(plt.get_fignums())
        base = DCData(world.dc_arr, npts=3001, verbose=False)
        based = digest_obj(base)
        ref = case.setdefault('_ref', {}) if False else _REF
        depth = 3 if not ctx.thorough else 4
        for rest in itertools.product(OPS, repeat=depth - len(case['first'])):
            ops = tuple(case['first']) + rest
            results = []
            for n, op in enumerate(ops):
                r = world.run(op, base)
                d = digest_obj(r)
                tag = 'after {}'.format(ops[:n + 1])
                ctx.true(d == ref[op], '{}: the result of {!r} is not the one of a fresh start', tag, op)
                ctx.true(world.digest() == wd, '{}: arguments were modified', tag)
                ctx.true(digest_obj(params) == pd, '{}: the default parameters were modified', tag)
                ctx.true(digest_obj(base) == based, '{}: the DC data were modified', tag)
                ctx.true(np.geterr() == err, '{}: numpy error state {}', tag, np.geterr())
                ctx.true(len(plt.get_fignums()) == nfig, '{}: figures left open', tag)
                if op != 'vandal':
                    results.append((r, d, op))
                ctx.state(ops[:n + 1])
                ctx.edge()
            for r, d, op in results:
                ctx.true(digest_obj(r) == d, 'after {}: an earlier result of {!r} changed', ops, op)
            ctx.obs(ops[-1])
            ctx.trace()
    elif case['kind'] == 'defaults':
        defaults(case['entry'], ctx)
    elif case['kind'] == 'arguments':
        arguments(case['order'], case['layout'], ctx)
    else:
        # impedance recovery, with everything around it
        from qmix.exp import PumpedData
        world = World()
        base = DCData(world.dc_arr, npts=3001, verbose=False)
        based = digest_obj(base)
        kw = dict(freq=270., npts=3001, verbose=False)
        one = digest_obj(PumpedData(world.iv_arr, base, **kw))
        world.run('pumped-if', base)
        other = PumpedData(world.iv_arr, base, freq=300., fit_range=(.3, .6), remb_range=(0, .4), zemb=.2 + .1j, alpha_max=1., num_b=9, verbose=False)
        od = digest_obj(other)
        two = digest_obj(PumpedData(world.iv_arr, base, **kw))
        ctx.true(one == two, 'impedance recovery depends on what was done before')
        ctx.true(digest_obj(other) == od and digest_obj(base) == based, 'earlier results changed')
        ctx.state('impedance')
        ctx.edge(3)
        ctx.trace()


_REF = {}


def prepare(tier):
    """What each operation gives as the very first one (in a child process)."""
    import multiprocessing as mp
    q = mp.get_context('fork').Queue
    for op in OPS:
        ctxmp = mp.get_context('fork')
        queue = ctxmp.Queue()
        p = ctxmp.Process(target=_fresh, args=(op, queue))
        p.start()
        try:
            _REF[op] = queue.get(timeout=300)
        finally:
            p.join(10)
            if p.is_alive():
                p.kill()


def _fresh(op, queue):
    import contextlib
    import os
    from qmix.exp import DCData
    try:
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), np.errstate(all='ignore'):
            world = World()
            base = DCData(world.dc_arr, npts=3001, verbose=False)
            queue.put(digest_obj(world.run(op, base)))
    except Exception as e:
        queue.put('failed: {!r}'.format(e))


def defaults(entry, ctx):
    """Every default given explicitly, one at a time, all at once (and in pairs)."""
    from qmix.exp import DCData, PumpedData
    from qmix.exp.if_data import if_data
    from qmix.exp.iv_data import dciv_curve
    from qmix.exp.parameters import params
    world = World()
    base = DCData(world.dc_arr, verbose=False)
    need = {'freq': 270.}
    if entry == 'DCData':
        fn = lambda **kw: DCData(world.dc_arr, world.dcif_arr, **kw)
        need = {}
    elif entry == 'PumpedData':
        fn = lambda **kw: PumpedData(world.iv_arr, base, world.hot_arr, world.cold_arr, **dict(need, analyze_iv=False, **kw))
    elif entry == 'dciv_curve':
        fn = lambda **kw: dciv_curve(world.dc_arr, **kw)
        need = {}
    else:
        fn = lambda **kw: if_data(world.hot_arr, world.cold_arr, base.dc, **dict(need, **kw))
    skip = {'freq', 'analyze_iv'} if need else set()

    def clean(o):
        # the stored settings contain what was given, which is allowed to vary in form
        o = dict(vars(o)) if hasattr(o, '__dict__') and type(o).__module__.startswith('qmix.') else o
        if isinstance(o, dict):
            o.pop('kwargs', None)
        return digest_obj(o)

    ref = clean(fn())
    keys = [k for k in params if k not in skip]
    sets = [(k,) for k in keys] + [tuple(keys)]
    if ctx.thorough:
        sets += list(itertools.combinations(keys, 2))
    for ks in sets:
        got = clean(fn(**{k: copy.deepcopy(params[k]) for k in ks}))
        ctx.true(got == ref, '{}: giving the default of {} explicitly makes a difference', entry, ks if len(ks) < 4 else 'everything')
        ctx.state(entry, ks)
        ctx.edge()
    ctx.obs(ref)
    ctx.trace()


def layouts(a, order, layout):
    """The same measurement in another order and memory layout."""
    if order == 'down':
        a = a[::-1]
    elif order == 'gaps':
        a = a.copy()
        a[len(a) // 3, 0] = np.nan
        a[len(a) // 2, 1] = np.nan
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'view':
        big = np.full((2 * len(a), a.shape[1] + 2), np.nan)
        big[::2, 1:-1] = a
        return big[::2, 1:-1]
    if layout == 'int' and order != 'gaps':
        return np.round(a * 1e6).astype(np.int64)
    return np.ascontiguousarray(a)


def arguments(order, layout, ctx):
    """Every entry point with every combination of units and corrections: the
    arrays it is given stay as they are, and a second call gives the same."""
    from qmix.exp.if_data import dcif_data, if_data
    from qmix.exp.if_response import if_response
    from qmix.exp.iv_data import dciv_curve, iv_curve
    j = Junction(va=2.7e-3, vb=2.86e-3, vint=1e-4)
    v = j.grid(step=1e-5)
    i = j.i(v) + 5e-6 * np.tanh(v / 2e-4)
    ip = .8 * i + .1 * j.i(v + .4 * j.vgap) + .1 * j.i(v - .4 * j.vgap)
    vi = np.linspace(0, 6.2e-3, 301)
    line = 5.8e3 * vi + 8.
    mix = np.clip(np.sin(vi * 800.), 0, None) * (vi < 3.5e-3)
    vs, cs = {'V': 1., 'mV': 1e3, 'uV': 1e6}, {'A': 1., 'mA': 1e3, 'uA': 1e6}
    for vf, cf in itertools.product(vs, cs):
        if layout == 'int' and (vf, cf) != ('uV', 'uA'):
            continue
        # integers count microvolts and microamperes
        fv, fc = (1., 1.) if layout == 'int' else (vs[vf], cs[cf])
        arrays = {'dc': layouts(np.vstack((v * fv, i * fc)).T, order, layout), 'iv': layouts(np.vstack((v * fv, ip * fc)).T, order, layout),
                  'hot': layouts(np.vstack((vi * fv, line + 90 * mix)).T, order, 'C' if layout == 'int' else layout),
                  'cold': layouts(np.vstack((vi * fv, line + 40 * mix)).T, order, 'C' if layout == 'int' else layout)}
        if layout == 'int':
            for k in ('hot', 'cold'):
                arrays[k][:, 0] *= 1e6
        for gain, off, rs, filt in itertools.product((None, (1.1, .9)), (None, (1e-4, 1e-6), (0., 0.)), (None, 2.), (False, True)):
            kw = dict(v_fmt=vf, i_fmt=cf, filter_data=filt, npts=601, vgap=j.vgap, verbose=False)
            if gain:
                kw.update(v_multiplier=gain[0], i_multiplier=gain[1])
            if off:
                kw.update(voffset=off[0], ioffset=off[1])
            if rs:
                kw.update(rseries=rs)
            keep = {k: (a.copy(), a.flags.writeable) for k, a in arrays.items()}
            keep_kw = dict(kw)
            first = None
            for call in range(2):
                dc = dciv_curve(arrays['dc'], **kw)
                out = [dc, iv_curve(arrays['iv'], dc[2], **kw)]
                dcd = digest_obj(dc)
                if not filt:
                    out.append(dcif_data(arrays['cold'], dc[2], **kw))
                    out.append(if_data(arrays['hot'], arrays['cold'], dc[2], freq=250., **kw))
                d = digest_obj(out)
                tag = '{} {} {} gain {} offset {} rseries {} filter {}'.format(order, layout, (vf, cf), gain, off, rs, filt)
                for k, a in arrays.items():
                    ctx.same(a, keep[k][0], '{}: {} data of the caller'.format(tag, k))
                    ctx.true(a.flags.writeable == keep[k][1], '{}: {} data of the caller are read-only now', tag, k)
                ctx.true(kw == keep_kw, '{}: settings of the caller changed', tag)
                ctx.true(digest_obj(dc) == dcd, '{}: the DC results were changed by a later import', tag)
                ctx.true(first is None or d == first, '{}: the second import gives something else', tag)
                first = d
                ctx.edge(len(out))
            # the results do not share memory with the data
            for o in out:
                for r in _arrays(o):
                    ctx.true(not any(np.shares_memory(r, a) for a in arrays.values()), '{}: a result is a view of the data', tag)
            ctx.state(order, layout, vf, cf, gain, off, rs, filt)
            ctx.obs(dc[2].rn)
    # spectra
    f = np.linspace(2, 10, 30)
    spec = layouts(np.vstack((f, -20 + .1 * f, -23 + .1 * f)).T if layout != 'int' else np.vstack((f, 2 + f, f)).T * 1e-6, order, layout)
    keep = spec.copy()
    one = digest_obj(if_response(spec))
    ctx.same(spec, keep, 'spectrum of the caller')
    ctx.true(digest_obj(if_response(spec)) == one, 'if_response: the second call gives something else')
    ctx.trace()


def _arrays(o):
    if isinstance(o, np.ndarray):
        yield o
    elif isinstance(o, (tuple, list)):
        for x in o:
            for y in _arrays(x):
                yield y
