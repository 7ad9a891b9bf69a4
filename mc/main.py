"""Command line of the checks: see check.sh."""

import argparse
import collections
import contextlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, REPO)


def load_known(prop):
    """key -> text of the known findings of this property (see the file)."""
    known = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


STOP_AT = 5  # enough counterexamples


def _worker(core, conn):
    """Explores the cases it is sent, one at a time."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        item = conn.recv()
        if item is None:
            return
        try:
            conn.send(_fork(core, item) if core._G['fork'] else core.run_case(item))
        except BaseException as e:
            conn.send({'idx': item[0], 'harness': repr(e)})


def _fork(core, item):
    """Explores one case in a process of its own."""
    here, there = mp.Pipe(False)
    pid = os.fork()
    if pid == 0:
        try:
            here.close()
            core.die_with_parent()
            try:
                out = core.run_case(item)
            except BaseException as e:
                out = {'idx': item[0], 'harness': repr(e)}
            there.send(out)
        finally:
            os._exit(0)
    there.close()
    try:
        out = here.recv()
    except EOFError:
        out = None
    here.close()
    status = os.waitpid(pid, 0)[1]
    if out is None:
        if os.WIFSIGNALED(status):
            # as if it had happened here
            signal.signal(os.WTERMSIG(status), signal.SIG_DFL)
            os.kill(os.getpid(), os.WTERMSIG(status))
        raise core.HarnessError('error: a case ended with status {}'.format(status))
    return out


def explore(todo, jobs, deadline, core):
    """Run all the cases in forked workers; a worker that dies of the code
    under test (segmentation fault, abort) is a counterexample as well."""
    from multiprocessing.connection import wait
    mpc = mp.get_context('fork')
    todo = collections.deque(todo)
    workers, results, bad = {}, [], 0

    def start():
        here, there = mpc.Pipe()
        p = mpc.Process(target=_worker, args=(core, there), daemon=False)
        p.start()
        there.close()
        workers[here] = [p, None]
        feed(here)

    def feed(conn):
        if todo and bad < STOP_AT:
            workers[conn][1] = todo.popleft()
            conn.send(workers[conn][1])
        else:
            workers[conn][1] = None
            conn.send(None)

    try:
        for _ in range(min(jobs, len(todo))):
            start()
        stop = None
        while True:
            busy = [c for c in workers if workers[c][1] is not None]
            if not busy:
                break
            if bad >= STOP_AT and stop is None:
                stop = time.time() + 30  # let the running ones finish, but not for long
            if stop is not None and time.time() > stop:
                break
            if time.time() > deadline:
                if bad:
                    break
                raise core.HarnessError('error: the time limit was reached before the exploration was complete')
            for conn in wait(busy, timeout=5):
                try:
                    r = conn.recv()
                except EOFError:
                    p, item = workers.pop(conn)
                    p.join()
                    if p.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
                        r = dict(idx=item[0], violation=('the interpreter crashed (signal {})'.format(-p.exitcode), None),
                                 states=set(), edges=0, comparisons=0, traces=0, outcomes=set(), known={}, wall=0.)
                        results.append(r)
                        bad += 1
                        if todo and bad < STOP_AT:
                            start()
                        continue
                    raise core.HarnessError('error: a worker ended with exit code {}'.format(p.exitcode))
                if 'harness' in r:
                    raise core.HarnessError('error: {}'.format(r['harness']))
                results.append(r)
                bad += r['violation'] is not None
                feed(conn)
    finally:
        for p, _ in workers.values():
            if _ is not None:
                p.kill()
        for p, _ in workers.values():
            p.join(10)
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--slow', action='store_true', help='print the slowest cases')
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    import qmix
    if not os.path.realpath(qmix.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print('error: qmix was imported from', qmix.__file__)
        return 2
    from mc import core

    prop = args.prop.upper()
    module = importlib.import_module('mc.checks.' + prop.lower())
    known = load_known(prop)
    scratch = os.environ['VERIF_SCRATCH']

    replay_dir = os.path.join(VERIF, 'replays')
    if args.replay:
        cases = [json.load(open(args.replay))['case']]
    else:
        cases = list(module.cases(tier))
    todo = list(enumerate(cases))
    case_timeout = getattr(module, 'CASE_TIMEOUT', 300 if tier == 'quick' else 3000)
    core.setup_worker(module, tier, known, scratch, case_timeout, getattr(module, 'FORK', False))
    deadline = t0 + (800 if tier == 'quick' else 12 * 3600)
    results = []
    try:
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
            if hasattr(module, 'prepare'):
                module.prepare(tier)
    except Exception as e:
        # as in run_case: valid use of the code under test failed
        results.append(dict(idx=0, violation=('unexpected ' + core.describe(e), None), states=set(), edges=0,
                            comparisons=0, traces=0, outcomes=set(), known={}, wall=0.))
        todo = []

    # biggest cases first (a check may give a weight)
    if hasattr(module, 'weight'):
        todo.sort(key=lambda t: -module.weight(t[1]))
    if todo:
        results += explore(todo, args.jobs, deadline, core)

    if args.slow:
        for r in sorted(results, key=lambda r: -r['wall'])[:8]:
            print('{:7.2f} s  {}'.format(r['wall'], json.dumps(core.jsonable(cases[r['idx']]))[:150]))

    results.sort(key=lambda r: r['idx'])
    states, outcomes, known_hits = set(), set(), {}
    edges = traces = comparisons = 0
    violations = []
    for r in results:
        states |= r['states']
        outcomes |= r['outcomes']
        edges += r['edges']
        traces += r['traces']
        comparisons += r['comparisons']
        known_hits.update(r['known'])
        if r['violation'] is not None:
            violations.append((cases[r['idx']], r['violation']))

    for key in sorted(known_hits):
        print('KNOWN-FINDING: property={} {} [{}]'.format(prop, known.get(key, ''), key))

    rc = 0
    for n, (case, (msg, key)) in enumerate(violations):
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '{}-{}.json'.format(prop, n))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case': core.jsonable(case), 'message': msg, 'key': key,
                       'how': 'bash check.sh {} --replay {}'.format(prop, path)}, f, indent=1)
        print('  ', msg[:600])
        print('VIOLATION property={} replay={}'.format(prop, path))
        rc = 1
    if not results:
        print('error: nothing was explored')
        return 2

    wall = time.time() - t0
    if not args.replay:
        n = len(cases)
        pick = sorted(set([0, n // 3, 2 * n // 3, n - 1]))
        cov = dict(states=len(states), transitions=int(edges),
                   traces_validated_against_impl=int(traces),
                   samples=[core.jsonable(cases[i]) for i in pick],
                   cases=n, cases_explored=len(results), comparisons=int(comparisons), distinct_outcomes=len(outcomes),
                   bounds=getattr(module, 'BOUNDS', {}).get(tier, ''),
                   model=getattr(module, 'MODEL', ''), exhaustive=len(results) == n,
                   known_findings=sorted(known_hits), violations=len(violations))
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 2))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('{}: {} cases, {} states, {} transitions, {} traces validated, {} distinct outcomes, {:.1f} s'.format(
        prop, len(results), len(states), edges, traces, len(outcomes), wall))
    return rc


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        # an error of the check itself, never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
