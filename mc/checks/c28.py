"""C28: calls that run at the same time do not disturb each other.

Two real calls run in two threads under a scheduler that decides, at every
line of the package, which one goes on.  Every schedule with one preemption is
executed for every pair of calls (the first call is stopped at each of its
points, the second one runs to its end, the first one goes on), and every
schedule with two preemptions for pairs of the same call.  Whatever the
schedule, both calls return what they return alone, and the arguments they
share are untouched.
"""

import gc

from mc import ops, sched, twins
from mc.checks import c29

FORK = True
CASE_TIMEOUT = 700
MODEL = 'two independent sequential processes: the outcome of every interleaving is the pair of the outcomes alone'
BOUNDS = {'quick': 'all pairs within a group of calls (34 calls, separate and shared arguments), one preemption at every line (first visit; '
                   'the second call runs to its end); two preemptions for 18 pairs',
          'thorough': 'first two visits of every line, pairs across groups as well, two preemptions for all pairs of equal calls'}

SLOW = ('resp-iv', 'resp-poly', 'resp-exp', 'resp-perfect', 'DCData', 'impedance')
SLOWPAIRS = (('resp-iv', 'resp-iv'), ('impedance', 'dciv'), ('impedance', 'iv'), ('DCData', 'dciv'))
DOUBLE = ('current1', 'matrix2', 'build', 'file', 'resp-call', 'ifresp', 'clean', 'iv', 'lock')


def cases(tier):
    thorough = tier == 'thorough'
    for a in ops.OPS.values():
        for b in ops.OPS.values():
            same = a.name == b.name
            if a.group != b.group and not thorough:
                continue
            if not thorough and (a.name in SLOW or b.name in SLOW) and (a.name, b.name) not in SLOWPAIRS:
                continue
            if not same and not thorough and a.group == 'sim' and not near(a.name, b.name):
                continue
            parts = 8 if a.name in SLOW else 1
            for part in range(parts):
                for first in (0, 1):
                    if first == 0 or thorough or a.name not in SLOW:
                        yield {'kind': 'one', 'a': a.name, 'b': b.name, 'first': first, 'shared': False, 'part': part, 'of': parts}
                if same and (thorough or a.name not in SLOW):
                    yield {'kind': 'one', 'a': a.name, 'b': b.name, 'first': 0, 'shared': True, 'part': part, 'of': parts}
    for n in DOUBLE if not thorough else [n for n in ops.OPS if n not in SLOW]:
        for shared in (False, True):
            for part in range(4):
                yield {'kind': 'two', 'a': n, 'b': n, 'first': 0, 'shared': shared, 'part': part, 'of': 4}


def near(a, b):
    """Simulations that use the same parts of the code."""
    return a[-1] == b[-1] or 'balance11' in (a, b)


def weight(case):
    return (10 if case['a'] in SLOW else 1) * (4 if case['b'] in SLOW else 1) + (5 if case['kind'] == 'two' else 0)


ALONE = {}


def prepare(tier):
    """What each call returns alone, and its arguments afterwards."""
    ALONE.update(c29.alone())


def check(case, ctx):
    a, b = ops.OPS[case['a']], ops.OPS[case['b']]
    ia = case['first']
    ib = ia if case['shared'] else 1 - ia
    visits = 1 if not ctx.thorough else 2
    wa = a.make(ia)
    wb = wa if case['shared'] else b.make(ib)
    if case['shared'] and a.file:
        wb = dict(wa, _path=wa['_path'] + '.other')
    elif a.file and b.file:
        wb['_path'] += '.other'
    fns = [lambda: a.run(wa), lambda: b.run(wb)]
    places, again = sched.places(fns[0], visits)
    na = len(places)
    ctx.true(na > 0, 'no line of the package was executed by {}', a.name)
    kept = places != again      # something is kept between calls
    if case['kind'] == 'one':
        plans = [((k,), kept) for k in range(na)]
    else:
        first, second = [sched.places(f, visits) for f in fns]
        # all of them in a warm process; in a cold one those at lines that only the first call executes
        plans = [((k, m), True) for k in c29.cold(first) for m in c29.cold(second)] if kept else []
        plans += [((k, m), False) for k in range(len(first[1])) for m in range(len(second[1]))]
    plans = [p for n, p in enumerate(plans) if n % case['of'] == case['part']]
    state = ops.process_state()

    def one(c, plan):
        def probe(taken):
            c.true(ops.digest(wa) == ALONE[a.name, ia][1], '{} ({}): the arguments are changed for the moment, when it has reached {}', a.name, ia, taken[-1])

        out, taken = sched.schedule(fns, plan, visits, probe)
        what = '{} ({}) and {}{}, preempted at {}'.format(a.name, ia, b.name, ' with the same arguments' if case['shared'] else '',
                                                    ' and '.join('{} {}:{} ({})'.format(t[1], t[0], t[2], t[3]) for t in taken))
        for who, (o, i) in enumerate(((a, ia), (b, ib))):
            kind, res = out[who]
            c.true(kind == 'ended', '{}: {} failed with {}', what, o.name, res)
            c.true(ops.digest(res) == ALONE[o.name, i][0], '{}: {} does not return what it returns alone', what, o.name)
        c.true(ops.digest(wa) == ALONE[a.name, ia][1] and ops.digest(wb) == ALONE[b.name, ib][1], '{}: the arguments were changed', what)
        return taken

    for plan, fresh in plans:
        if kept and not fresh:
            fns[0](), fns[1]()      # (after the last cold plan)
            kept = False
        if not fresh:
            taken = one(ctx, plan)
        else:
            # both calls are the first ones of a process
            taken = twins.forked(lambda: c29.first(lambda c: one(c, plan)))
            ctx.true(isinstance(taken, list), '{}', taken)
        ctx.state(case['a'], case['b'], ia, case['shared'], taken)
        ctx.edge(1 + len(taken))
        ctx.trace()
    gc.collect()
    now = ops.process_state()
    ctx.true(now == state, '{} and {}: changed settings of the process: {}', a.name, b.name, {k: (state[k], now[k]) for k in state if state[k] != now[k]})
    ctx.obs((a.name, b.name))
