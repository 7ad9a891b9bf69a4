"""C19: offsets and series resistance are removed from I-V data.

A junction with a known curve is "measured" through every combination of
voltage offset, current offset, gain error and series resistance within the
bounds; importing the measurement with these parameters must give back the
junction (an inverse-model check on every state).  Where the offsets are not
given they must be found.
"""

import itertools

import numpy as np

from mc.models.junction import Junction

MODEL = 'measurement chain v_meas = (v + rs*i)/gain_v + v0 and i_meas = i/gain_i + i0, and its inverse'
BOUNDS = {'quick': '5 x 4 offsets x 5 series resistances x 5 gains (also reversed) x bipolar/one-sided x DC/pumped; 8 x 4 unknown offsets x 3 ranges; 48 analyses with their steps plotted (debug)',
          'thorough': '11 x 9 offsets x 7 series resistances x 8 gains; 51 x 9 unknown offsets x 5 ranges'}

V0 = {'quick': (-3e-4, -1e-5, 0., 2e-5, 2e-4), 'thorough': (-1.2e-3, -6e-4, -3e-4, -5e-5, -1e-5, 0., 1e-6, 2e-5, 2e-4, 5e-4, 1.1e-3)}
I0 = {'quick': (-1e-5, 0., 5e-7, 5e-6), 'thorough': (-5e-5, -1e-5, -1e-6, -1e-8, 0., 5e-7, 5e-6, 2e-5, 1e-4)}
RS = {'quick': (None, 0., 1., 5., 20.), 'thorough': (None, 0., .1, 1., 5., 20., 50.)}
GAIN = {'quick': ((1., 1.), (2., .5), (.9, 1.2), (-1., -1.), (1., -2.)), 'thorough': ((1., 1.), (2., .5), (.9, 1.2), (-1., -1.), (1., -2.), (-.5, 1.), (1.01, .99), (10., .1))}
AUTO_V = {'quick': (-2.5e-4, -2e-4, -5e-5, -1e-5, 0., 2e-5, 1e-4, 2e-4), 'thorough': tuple(k * 1e-5 for k in range(-25, 26))}
AUTO_I = {'quick': (-1e-5, 0., 2e-6, 2e-5), 'thorough': (-2e-5, -1e-5, -5e-6, -1e-6, 0., 1e-6, 5e-6, 1e-5, 2e-5)}
RANGES = {'quick': ((-1e-3, 1e-3), 1e-3, (-8e-4, 1e-3)), 'thorough': ((-1e-3, 1e-3), 1e-3, (-8e-4, 1e-3), (-9e-4, 8e-4), 8e-4)}


def cases(tier):
    for v0, i0 in itertools.product(V0[tier], I0[tier]):
        for side in ('both', 'positive'):
            yield {'kind': 'known', 'v0': v0, 'i0': i0, 'side': side}
    for v0 in AUTO_V[tier]:
        yield {'kind': 'auto', 'v0': v0}
    yield {'kind': 'one-sided'}
    for side, rs, gain in itertools.product(('both', 'positive'), (None, 5.), (1., -2.)):
        yield {'kind': 'debug', 'side': side, 'rs': rs, 'gain': gain}


def pumped_current(j, v, dip=0.):
    vph = .35 * j.vgap
    return -dip * np.sign(v) * np.exp(-((np.abs(v) - 6e-4) / 2e-4) ** 2) + .7 * j.i(v) + .15 * j.i(v + vph) + .15 * j.i(v - vph)


def check(case, ctx):
    from qmix.exp.iv_data import dciv_curve, iv_curve
    j = Junction()
    if case['kind'] == 'known':
        v0, i0 = case['v0'], case['i0']
        step = 2.5e-6
        v = j.grid(step=step, lo=0. if case['side'] == 'positive' else None)
        npts = 1201
        vmax = 5.4e-3
        lo = 0. if case['side'] == 'positive' else None
        for rs, (gv, gi) in itertools.product(RS[ctx.tier], GAIN[ctx.tier]):
            tag = 'v0={} i0={} rs={} gain={} {}'.format(v0, i0, rs, (gv, gi), case['side'])
            kw = dict(v_fmt='mV', i_fmt='uA', filter_data=False, rseries=rs, voffset=v0, ioffset=i0, v_multiplier=gv, i_multiplier=gi,
                      npts=npts, vmax=vmax)
            i = j.i(v)
            vm, im = v + (rs or 0.) * i, i
            data = np.vstack(((vm + v0) / gv * 1e3, (im + i0) / gi * 1e6)).T
            keep = data.copy()
            volt, curr, dc = dciv_curve(data, **kw)
            ctx.same(data, keep, 'data of the caller')
            ctx.edge()
            ctx.close(dc.offset, (v0, i0), atol=1e-15, what=tag + ' offset')
            ctx.true(dc.rseries == rs, '{}: rseries {}', tag, dc.rseries)
            ctx.close(dc.vraw, vm, atol=1e-12, what=tag + ' vraw')
            ctx.close(dc.iraw, im, atol=1e-12, what=tag + ' iraw')
            ctx.close(dc.rn, j.rn, atol=0, rtol=1e-6, what=tag + ' rn')
            ctx.close(dc.vint, j.vint, atol=1e-9, what=tag + ' vint')
            ctx.close(dc.rsg, j.rsg, atol=0, rtol=1e-6, what=tag + ' rsg')
            ctx.close(dc.vgap, j.vgap, atol=1e-9, what=tag + ' vgap')
            grid = np.linspace(-vmax, vmax, npts)
            ctx.close(volt * dc.vgap, grid, atol=1e-12, what=tag + ' voltage')
            exp = j.i(grid)
            # linear interpolation between samples of a piecewise linear curve
            # (where there are data; a sample without any current carries no information about the resistance)
            ok = slice(None) if lo is None else grid > 2 * step
            ctx.close((curr * dc.igap)[ok], exp[ok], atol=1e-9, what=tag + ' current')
            # pumped, with the offset of the DC curve, and with its own
            own_v, own_i = dict(voffset=v0 + 3e-5), dict(ioffset=i0 - 2e-6)
            for own, dip in itertools.product(({}, dict(own_v, **own_i), own_v, own_i, dict(voffset=0., ioffset=0.), dict(voffset=0.),
                                               dict(ioffset=0)), (0., 3e-5)):
                if dip and len(own) == 1:
                    continue
                # the current of a pumped junction can flow against the bias voltage
                ip = pumped_current(j, v, dip)
                vp = v + (rs or 0.) * ip
                if (np.diff(vp) <= 0.).any():
                    continue
                # an offset that is not given is the one of the DC measurement
                w0, k0 = own.get('voffset', v0), own.get('ioffset', i0)
                data = np.vstack(((vp + w0) / gv * 1e3, (ip + k0) / gi * 1e6)).T
                keep = data.copy()
                kk = dict(kw)
                kk.pop('voffset'), kk.pop('ioffset')
                kk.update(own)
                pv, pc = iv_curve(data, dc, **kk)
                ctx.same(data, keep, 'data of the caller')
                ctx.edge()
                ctx.close(pv * dc.vgap, grid, atol=1e-12, what=tag + ' pumped voltage')
                e = np.interp(grid, v, ip, left=0, right=0)
                ctx.close((pc * dc.igap)[ok], e[ok], atol=1e-8, what='{} pumped current (own offsets: {}, dip {})'.format(tag, own, dip))
            ctx.state(v0, i0, rs, gv, gi, case['side'])
            ctx.obs(curr[::100])
        ctx.trace()
    elif case['kind'] == 'debug':
        check_debug(case, ctx, j)
    elif case['kind'] == 'auto':
        v0 = case['v0']
        v = j.grid(step=1e-5)
        for (ic, width), i0, rng in itertools.product(((2e-5, 2e-4), (1e-5, 1e-4)), AUTO_I[ctx.tier], RANGES[ctx.tier]):
            # the offset must be well within the range that is searched
            if abs(v0) > .2501 * (min(-rng[0], rng[1]) if isinstance(rng, tuple) else rng):
                continue
            i = j.i(v) + ic * np.tanh(v / width)
            data = np.vstack(((v + v0) * 1e3, (i + i0) * 1e3)).T
            tag = 'offset ({}, {}), range {}'.format(v0, i0, rng)
            kw = dict(filter_data=False, vgap=j.vgap, npts=1201)
            for given in ({}, {'voffset': v0}, {'ioffset': i0}):
                kk = dict(kw, voffset_range=rng, **given)
                if rng == (-1e-3, 1e-3) and not given:
                    kk.pop('voffset_range')     # the default
                volt, curr, dc = dciv_curve(data, **kk)
                t = '{}, given {}'.format(tag, given)
                ctx.close(dc.offset[0], v0, atol=5e-6, what=t + ' voltage offset')
                ctx.close(dc.offset[1], i0, atol=2e-7, what=t + ' current offset')
                # it is what was subtracted
                ctx.close(dc.vraw, v + v0 - dc.offset[0], atol=1e-12, what=t + ' vraw')
                ctx.close(dc.iraw, i + i0 - dc.offset[1], atol=1e-12, what=t + ' iraw')
                # and a pumped curve of the same set-up is shifted by the same amount
                pv, pc = iv_curve(data, dc, filter_data=False, npts=1201)
                ctx.close(pc, curr, atol=1e-9, what=t + ' pumped')
                ctx.state(v0, i0, ic, str(rng), tuple(given))
                ctx.edge(2)
            ctx.obs((round(v0, 7), round(i0, 8)))
        ctx.trace()
    else:
        # nothing can be found in one-sided data: given values or zero
        v = j.grid(step=2.5e-6, lo=0.)
        i = j.i(v)
        for v0, i0 in itertools.product(V0[ctx.tier], I0[ctx.tier]):
            data = np.vstack(((v + v0) * 1e3, (i + i0) * 1e3)).T
            for given in ({}, {'voffset': v0}, {'ioffset': i0}, {'voffset': v0, 'ioffset': i0}):
                if (v + v0).min() < -1e-3:
                    continue
                volt, curr, dc = dciv_curve(data, filter_data=False, vgap=j.vgap, npts=1201, **given)
                o = (given.get('voffset', 0.), given.get('ioffset', 0.))
                ctx.close(dc.offset, o, atol=1e-15, what='one-sided data, given {}'.format(given))
                ctx.close(dc.vraw, v + v0 - o[0], atol=1e-12, what='vraw')
                ctx.close(dc.iraw, i + i0 - o[1], atol=1e-12, what='iraw')
                ctx.state('one-sided', v0, i0, tuple(given))
                ctx.edge()
                ctx.obs(dc.offset[0])
        ctx.trace()


def check_debug(case, ctx, j):
    """Plotting every step of the analysis (debug) does not change the analysis."""
    import contextlib
    import io

    import matplotlib.pyplot as plt

    from qmix.exp.iv_data import dciv_curve, iv_curve
    fields = ('vraw', 'iraw', 'vnorm', 'inorm', 'vgap', 'igap', 'fgap', 'rn', 'rsg', 'offset', 'vint', 'rseries')
    v = j.grid(step=1e-5, lo=0. if case['side'] == 'positive' else None)
    rs, gain = case['rs'], case['gain']
    for off, filt, vgap in itertools.product(({}, {'voffset': 1e-4}, {'voffset': -1e-4, 'ioffset': 2e-6}), (False, True), (None, j.vgap)):
        i = j.i(v) + 1e-5 * np.tanh(v / 1e-4)
        v0, i0 = off.get('voffset', 0.), off.get('ioffset', 0.)
        data = np.vstack(((v + (rs or 0.) * i + v0) * 1e3 / gain, (i + i0) * 1e6 / gain)).T
        ip = pumped_current(j, v)
        pumped = np.vstack(((v + (rs or 0.) * ip + v0) * 1e3 / gain, (ip + i0) * 1e6 / gain)).T
        kw = dict(off, v_fmt='mV', i_fmt='uA', filter_data=filt, rseries=rs, v_multiplier=gain, i_multiplier=gain, npts=1201, vgap=vgap)
        out = []
        for debug in (False, True):
            with contextlib.redirect_stdout(io.StringIO()):
                volt, curr, dc = dciv_curve(data.copy(), debug=debug, **kw)
                pv, pc = iv_curve(pumped.copy(), dc, debug=debug, **kw)
            plt.close('all')
            out.append([volt, curr, pv, pc] + [getattr(dc, f) for f in fields])
        tag = 'rs={} {} filter={} vgap={} gain={} {}'.format(rs, off, filt, vgap, gain, case['side'])
        for name, a, b in zip(('voltage', 'current', 'pumped voltage', 'pumped current') + fields, *out):
            if a is None:
                ctx.true(b is None, '{}: with debug {} is {!r}', tag, name, b)
            else:
                ctx.same(np.asarray(b), np.asarray(a), '{}: {} with debug'.format(tag, name))
        ctx.state('debug', tag)
        ctx.edge(4)
        ctx.obs(out[0][4][::50])
    ctx.trace()
