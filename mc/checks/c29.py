"""C29: an interrupted or failing call leaves nothing behind.

Fault points are all lines of the package that a call executes (at its first
visits).  At every one the call is interrupted (Ctrl-C) or runs out of memory.
Afterwards the arguments and the settings of the process are what they were,
and the same call - and another one that shares code with it - returns what it
returns in a fresh process.  Calls that fail because of wrong arguments must
leave nothing behind either, and are not allowed to leave anything after two
faults in a row.
"""

import gc

import numpy as np

from mc import ops, sched, twins

FORK = True
CASE_TIMEOUT = 700
MODEL = 'a call is atomic: it returns its value or has no effect'
BOUNDS = {'quick': '34 calls x 2 sets of arguments, interrupted at every line (first visit), then repeated; out of memory at every line of 28 calls; '
                   'two faults in a row for 10 calls; 30 calls with wrong arguments',
          'thorough': 'first three visits of every line, both kinds of fault'}

SLOW = ('resp-iv', 'resp-poly', 'resp-exp', 'resp-perfect', 'DCData', 'impedance')
DOUBLE = ('current1', 'matrix2', 'build', 'file', 'resp-call', 'ifresp', 'clean', 'iv', 'lock', 'math')


def cases(tier):
    for o in ops.OPS.values():
        slow = o.name in SLOW
        if slow and tier == 'quick' and o.name in ('resp-poly', 'resp-exp'):
            continue  # built on the same code as resp-iv
        for i in (0, 1):
            for exc in ('interrupt', 'memory'):
                if exc == 'memory' and slow and tier == 'quick':
                    continue
                if i == 1 and o.name in ('DCData', 'impedance') and tier == 'quick':
                    continue
                parts = 8 if slow else 1
                for part in range(parts):
                    yield {'kind': 'fault', 'op': o.name, 'i': i, 'exc': exc, 'part': part, 'of': parts}
    for n in DOUBLE:
        yield {'kind': 'two', 'op': n}
    for n in range(len(wrong())):
        yield {'kind': 'wrong', 'n': n}


def weight(case):
    return 10 if case.get('op') in SLOW else 5 if case['kind'] == 'two' else 1


ALONE = {}


def prepare(tier):
    ALONE.update(alone())


def alone():
    """What each call returns, and its arguments, in a process that has not
    made any call since (the arguments are shared by all processes)."""
    import qmix.exp
    import qmix.harmonic_balance
    import qmix.qtcurrent
    out = {}
    for o in ops.OPS.values():
        for i in (0, 1):
            out[o.name, i] = None, ops.digest(o.make(i))
    res = twins.forked(lambda: {(o.name, i): ops.digest(o.run(o.make(i))) for o in ops.OPS.values() for i in (0, 1)})
    if not isinstance(res, dict):
        raise RuntimeError(res)
    return {k: (res[k], out[k][1]) for k in out}


EXC = {'interrupt': sched.Fault, 'memory': sched.FaultE}


def settled(ctx, what, state):
    now = ops.process_state()
    if now != state:
        gc.collect()
        now = ops.process_state()
    ctx.true(now == state, '{}: changed settings of the process: {}', what, {k: (state[k], now[k]) for k in state if state[k] != now[k]})


def check(case, ctx):
    if case['kind'] == 'fault':
        o, i = ops.OPS[case['op']], case['i']
        visits = 1 if not ctx.thorough else 3
        w = o.make(i)
        run = lambda: o.run(w)
        places, again = sched.places(run, visits, True)
        ctx.true(len(places) > 0, 'no line of the package was executed by {}', o.name)
        for k in range(len(places)):
            if k % case['of'] != case['part']:
                continue
            what = '{} of {} ({}) at {} {}:{} ({})'.format(case['exc'], o.name, i, *[places[k][j] for j in (1, 0, 2, 3)])

            def one(c):
                state = ops.process_state()
                out = sched.fault(run, visits, k, EXC[case['exc']])
                after(c, o, i, w, run, what, state)
                if case['exc'] == 'interrupt' and out is not None:
                    c.true(out[0] == 'fault', '{}: the interruption was swallowed', what)
            if places == again:
                one(ctx)
            else:
                # something is kept between calls: each fault happens in the first call of a process
                problem = twins.forked(lambda: first(one))
                ctx.true(problem is None, '{}', problem)
            ctx.state(o.name, i, case['exc'], places[k])
            ctx.edge(2)
            ctx.trace()
        ctx.obs((o.name, i))
    elif case['kind'] == 'two':
        # a fault, then a fault in the next call, then a good one
        o = ops.OPS[case['op']]
        w = o.make(0)
        run = lambda: o.run(w)
        places, again = sched.places(run, 1, True)
        state = ops.process_state()
        # all pairs in a warm process; in a cold one those at lines that only the first call executes
        early = cold((places, again))
        pairs = [(k, m, True) for k in early for m in early]
        pairs += [(k, m, False) for k in range(len(again)) for m in range(len(again))]
        warm = places == again
        for k, m, fresh in pairs:
            what = '{} with faults at points {} and {} of a {} process'.format(o.name, k, m, 'cold' if fresh else 'warm')

            def both(c):
                sched.fault(run, 1, k, sched.Fault)
                sched.fault(run, 1, m, sched.FaultE)
                c.true(ops.digest(run()) == ALONE[o.name, 0][0], '{}: the next call returns something else', what)
            if fresh:
                problem = twins.forked(lambda: first(both))
                ctx.true(problem is None, '{}', problem)
            else:
                if not warm:
                    run()
                    warm = True
                both(ctx)
            ctx.state(o.name, k, m, fresh)
            ctx.edge(3)
            ctx.trace()
        settled(ctx, what, state)
        ctx.true(ops.digest(w) == ALONE[o.name, 0][1], '{}: the arguments were changed', what)
    else:
        name, op, make, call = wrong()[case['n']]
        o = ops.OPS[op]
        for i in (0, 1):
            good = o.make(i)
            w = make(i)
            before = ops.digest(w)
            state = ops.process_state()
            try:
                call(w)
                failed = False
            except Exception as e:
                e.__traceback__ = None
                failed = True
            # (which arguments are refused is not the subject here, except for those of a locked circuit)
            ctx.true(failed or 'locked' not in name, '{} was accepted', name)
            settled(ctx, name, state)
            ctx.true(ops.digest(w) == before, '{}: the arguments were changed', name)
            ctx.true(ops.digest(o.run(good)) == ALONE[op, i][0], '{}: {} returns something else afterwards', name, op)
            ctx.state(name, i)
            ctx.edge(2)
            ctx.trace()


def cold(places):
    """The points of a first call at lines that later calls do not execute."""
    return [k for k in range(len(places[0])) if places[0][k] not in places[1]]


class Problem(Exception):
    pass


class Ask(object):
    """Stands in for the context in another process."""

    def true(self, ok, msg, *args):
        if not ok:
            raise Problem(msg.format(*args))


def first(fn):
    try:
        return fn(Ask())
    except Problem as e:
        return str(e)


def after(ctx, o, i, w, run, what, state):
    ctx.true(ops.digest(w) == ALONE[o.name, i][1], '{}: the arguments were changed', what)
    settled(ctx, what, state)
    ctx.true(ops.digest(run()) == ALONE[o.name, i][0], '{}: the next call returns something else', what)
    if o.name not in SLOW:
        # the same call with other arguments
        other = o.make(1 - i)
        ctx.true(ops.digest(o.run(other)) == ALONE[o.name, 1 - i][0], '{}: a different call returns something else afterwards', what)


def wrong():
    """(name, operation to try afterwards, its arguments, failing call)."""
    from qmix.circuit import EmbeddingCircuit, read_circuit
    from qmix.exp import DCData, PumpedData
    from qmix.exp.if_data import dcif_data, if_data
    from qmix.exp.if_response import if_response
    from qmix.exp.iv_data import dciv_curve, iv_curve
    from qmix.harmonic_balance import check_hb_error, harmonic_balance
    from qmix.mathfn.kktrans import kk_trans
    from qmix.qtcurrent import interpolate_respfn, qtcurrent
    from qmix.respfn import RespFnFromIVData
    mk = {n: ops.OPS[n].make for n in ops.OPS}

    def zero_freq(i):
        w = mk['current2'](i)
        w['cct'].freq[2] = 0.
        return w

    def locked(i):
        w = mk['current1'](i)
        w['cct'].lock()
        return w

    def write(a, v):
        a[...] = v

    q = dict(verbose=False)
    out = [
        ('current: no response function', 'current1', mk['current1'], lambda w: qtcurrent(w['vj'], w['cct'], None, w['fs'], num_b=w['num_b'], **q)),
        ('current: a frequency of zero', 'current2', zero_freq, lambda w: qtcurrent(w['vj'], w['cct'], w['resp'], w['fs'], num_b=w['num_b'], **q)),
        ('current: wrong limits', 'current2', mk['current2'], lambda w: qtcurrent(w['vj'], w['cct'], w['resp'], w['fs'], num_b=(3, 'x'), **q)),
        ('current: text as a frequency', 'current1', mk['current1'], lambda w: qtcurrent(w['vj'], w['cct'], w['resp'], [0., 'x'], num_b=3, **q)),
        ('current: matrix of another circuit', 'currentm', mk['currentm'],
         lambda w: qtcurrent(w['vj'], w['cct'], w['resp'], w['fs'], num_b=3, resp_matrix=np.zeros((2, 2, 2, 2)), **q)),
        ('matrix: no response function', 'matrix2', mk['matrix2'], lambda w: interpolate_respfn(w['cct'], None, w['num_b'])),
        ('balance: a frequency of zero', 'balance21', zero_freq, lambda w: harmonic_balance(w['cct'], w['resp'], num_b=w['num_b'], **q)),
        ('balance: no response function', 'balance12', mk['balance12'], lambda w: harmonic_balance(w['cct'], None, num_b=w['num_b'], **q)),
        ('check: no response function', 'check', mk['check'], lambda w: check_hb_error(w['vj'], w['cct'], None, w['num_b'])),
        ('circuit: no tones', 'build', mk['build'], lambda w: EmbeddingCircuit(0, 1)),
        ('circuit: unknown unit', 'build', mk['build'], lambda w: EmbeddingCircuit(1, 1, vgap=3e-3, rn=10.).set_freq(1., 1, 'furlong')),
        ('circuit: writing while locked', 'current1', locked, lambda w: write(w['cct'].vt, 3.)),
        ('circuit: power while locked', 'current1', locked, lambda w: w['cct'].set_available_power(1e-9, 1, 1)),
        ('circuit: frequency while locked', 'current1', locked, lambda w: w['cct'].set_freq(1e11, 1)),
        ('circuit: alpha while locked', 'current1', locked, lambda w: w['cct'].set_alpha(1., 1, 1)),
        ('file: missing', 'file', mk['file'], lambda w: read_circuit(w['_path'] + '.missing')),
        ('file: folder missing', 'file', mk['file'], lambda w: w['cct'].save_info(w['_path'] + '/missing/a.txt')),
        ('response: lengths differ', 'resp-iv', mk['resp-iv'], lambda w: RespFnFromIVData(w['v'], w['i'][1:], verbose=False)),
        ('transform: lengths differ', 'math', mk['math'], lambda w: kk_trans(w['v'], w['i'][2:], n=5)),
        ('dciv: unknown unit', 'dciv', mk['dciv'], lambda w: dciv_curve(w['dc'], **dict(w['kw'], v_fmt='furlong'))),
        ('dciv: text', 'dciv', mk['dciv'], lambda w: dciv_curve('no such file.csv', **w['kw'])),
        ('dciv: window too long', 'dciv', mk['dciv'], lambda w: dciv_curve(w['dc'], **dict(w['kw'], filter_data=True, filter_nwind=20001))),
        ('DCData: unknown unit', 'dciv', mk['dciv'], lambda w: DCData(w['dc'], **dict(w['kw'], i_fmt='furlong'))),
        ('PumpedData: no frequency', 'PumpedData', mk['PumpedData'], lambda w: PumpedData(w['iv'], w['base'], npts=501, verbose=False)),
        ('PumpedData: unknown unit', 'PumpedData', mk['PumpedData'], lambda w: PumpedData(w['iv'], w['base'], **dict(w['kw'], v_fmt='furlong'))),
        ('iv: text', 'iv', mk['iv'], lambda w: iv_curve('no such file.csv', w['base'].dc, **w['kw'])),
        ('if: unknown rule', 'if', mk['if'], lambda w: if_data(w['hot'], w['cold'], w['base'].dc, **dict(w['kwif'], best_pt='best'))),
        ('if: no frequency', 'if', mk['if'], lambda w: if_data(w['hot'], w['cold'], w['base'].dc, verbose=False)),
        ('dcif: text', 'if', mk['if'], lambda w: dcif_data('no such file.csv', w['base'].dc, **w['kwif'])),
        ('ifresp: two columns', 'ifresp', mk['ifresp'], lambda w: if_response(w['a'][:5, :2])),
    ]
    return out
