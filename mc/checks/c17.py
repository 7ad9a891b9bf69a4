"""C17: cleaning of x/y data.

Every x/y data set up to a small length over an alphabet that contains NaN,
repeated values, signed zero and infinities is run through every cleaning
function, and through every sequence of them, and compared with a multiset
model.  Longer data sets (where the sort uses another algorithm) are covered
by enumerated permutation families.
"""

import itertools

import numpy as np

NAN = float('nan')
INF = float('inf')
MODEL = 'multiset of (x, y) pairs: filter NaN, order by x, one pair per x value'
BOUNDS = {'quick': 'all x over {NaN,-1,0,1} of length 0-4 (length 5: {NaN,0,1}) times all NaN patterns in y; alphabet {-0.,0.,inf,-inf,2} of length 0-4; {NaN,0,inf,-inf} in x times {NaN,1,inf,-inf} in y of length 1-3 (no statement about doubles of an infinite value); alphabet of nearly equal values of length 2-3; '
                   'permutation families up to 130 points',
          'thorough': 'all x over {NaN,-1,0,1} of length 0-6 times all NaN patterns in y; the same extra alphabet to length 5; permutations up to 400 points'}


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 5 if q else 7):
        heads = list(itertools.product(range(4), repeat=min(n, 2)))
        for h in heads:
            yield {'kind': 'small', 'alpha': [NAN, -1., 0., 1.], 'n': n, 'head': list(h)}
    if q:
        for h in itertools.product(range(3), repeat=2):
            yield {'kind': 'small', 'alpha': [NAN, 0., 1.], 'n': 5, 'head': list(h)}
    for n in range(0, 5 if q else 6):
        for h in itertools.product(range(5), repeat=min(n, 1)):
            yield {'kind': 'small', 'alpha': [-0., 0., INF, -INF, 2.], 'n': n, 'head': list(h), 'nanless': True}
    # different, however close
    close = [1., float(np.nextafter(1., 2.)), 1. + 1e-6, 3e-9, 5e-324, -3e-9]
    for n in range(2, 4 if q else 5):
        for h in itertools.product(range(6), repeat=min(n, 1)):
            yield {'kind': 'small', 'alpha': close, 'n': n, 'head': list(h), 'nanless': True}
    # infinite and missing values in both columns
    for n in range(1, 4 if q else 5):
        for h in itertools.product(range(4), repeat=min(n, 1)):
            yield {'kind': 'small', 'alpha': [NAN, 0., INF, -INF], 'n': n, 'head': list(h), 'y': [NAN, 1., INF, -INF]}
    for n in (range(1, 131, 3) if q else range(1, 401)):
        yield {'kind': 'long', 'n': n}
    yield {'kind': 'api'}


def weight(case):
    return case.get('n', 0) if case['kind'] == 'small' else 0


def pairs(x, y):
    return [(float(a), float(b)) for a, b in zip(x, y)]


def key(p):
    return p[0], p[1]


def multiset(ps):
    return sorted((repr(a + 0.), repr(b)) for a, b in ps)


def twice_inf(values):
    """The same infinite value more than once: whether the difference inf -
    inf counts as "equal" is left open."""
    v = [a for a in values if a in (INF, -INF)]
    return len(v) != len(set(v))


def expect(x, y, ctx, cd, tag):
    """All functions on one data set."""
    kx, ky = x.copy(), y.copy()
    mat = cd.xy_to_matrix(x, y)
    ctx.true(mat.shape == (len(x), 2), '{}: xy_to_matrix gives shape {}', tag, mat.shape)
    ctx.close(mat[:, 0], x, atol=0, rtol=0, what='first column')
    ctx.close(mat[:, 1], y, atol=0, rtol=0, what='second column')
    bx, by = cd.matrix_to_xy(mat)
    ctx.close(bx, x, atol=0, rtol=0, what='matrix_to_xy x')
    ctx.close(by, y, atol=0, rtol=0, what='matrix_to_xy y')
    kmat = mat.copy()
    ok = [(a, b) for a, b in pairs(x, y) if a == a and b == b]

    # NaN removal keeps the order
    for form in ('xy', 'matrix'):
        if form == 'xy':
            out = cd.remove_nans_xy(x, y)
            got = pairs(*out)
        else:
            out = cd.remove_nans_matrix(mat)
            got = pairs(out[:, 0], out[:, 1])
        ctx.true(got == ok, '{} remove_nans_{}: {} instead of {}', tag, form, got, ok)
        ctx.edge()
    xn, yn = np.array([p[0] for p in ok]), np.array([p[1] for p in ok])
    mn = np.vstack((xn, yn)).T.reshape(-1, 2)

    # sorting keeps the pairs
    sx, sy = cd.sort_xy(xn, yn)
    got = pairs(sx, sy)
    ctx.true(multiset(got) == multiset(ok), '{} sort_xy: pairs changed: {} -> {}', tag, ok, got)
    ctx.true(all(got[i][0] <= got[i + 1][0] for i in range(len(got) - 1)), '{} sort_xy: not sorted: {}', tag, got)
    for col in (0, 1):
        sm = cd.sort_matrix(mn, col) if col else cd.sort_matrix(mn)
        g = pairs(sm[:, 0], sm[:, 1])
        ctx.true(multiset(g) == multiset(ok), '{} sort_matrix({}): pairs changed: {} -> {}', tag, col, ok, g)
        ctx.true(all(g[i][col] <= g[i + 1][col] for i in range(len(g) - 1)), '{} sort_matrix({}): not sorted: {}', tag, col, g)
        ctx.edge()
        if twice_inf(p[col] for p in ok):
            continue
        # doubles in this column: the first of each run stays
        srt = sorted(ok, key=lambda p: p[col])
        exp = [p for i, p in enumerate(srt) if i == 0 or p[col] != srt[i - 1][col]]
        arr = np.array(srt).reshape(-1, 2)
        rm = cd.remove_doubles_matrix(arr, col) if col else cd.remove_doubles_matrix(arr)
        ctx.true(pairs(rm[:, 0], rm[:, 1]) == exp, '{} remove_doubles_matrix({}): {} instead of {}', tag, col, rm.tolist(), exp)
        rm2 = cd.remove_doubles_matrix(arr, col, False)
        ctx.same(rm2, rm, 'remove_doubles_matrix without check')
        ctx.edge(2)
        if col == 0:
            rx, ry = cd.remove_doubles_xy(arr[:, 0], arr[:, 1])
            ctx.true(pairs(rx, ry) == exp, '{} remove_doubles_xy: {} instead of {}', tag, pairs(rx, ry), exp)
            rx, ry = cd.remove_doubles_xy(arr[:, 0], arr[:, 1], check=False)
            ctx.true(pairs(rx, ry) == exp, '{} remove_doubles_xy(check=False): {} instead of {}', tag, pairs(rx, ry), exp)
            ctx.edge(2)
        # the check for unsorted data, both ways
        unsorted = any(ok[i][col] > ok[i + 1][col] for i in range(len(ok) - 1))
        fns = [lambda: cd.remove_doubles_matrix(mn, col)]
        if col == 0:
            fns.append(lambda: cd.remove_doubles_xy(xn, yn))
        for f in fns:
            if unsorted:
                ctx.raises(AssertionError, f, '{} unsorted data {}'.format(tag, ok))
            else:
                f()
            ctx.edge()

    # the complete clean up
    ctx.same(x, kx, 'x data of the caller')
    ctx.same(y, ky, 'y data of the caller')
    if twice_inf(p[0] for p in ok):
        return
    xs = sorted(set(p[0] for p in ok))
    for form in ('xy', 'matrix'):
        if form == 'xy':
            got = pairs(*cd.clean_xy(x, y))
        else:
            out = cd.clean_matrix(mat)
            got = pairs(out[:, 0], out[:, 1])
        ctx.true([p[0] for p in got] == xs, '{} clean_{}: x values {} instead of {}', tag, form, [p[0] for p in got], xs)
        ctx.true(all(p in ok for p in got), '{} clean_{}: made up pairs {} from {}', tag, form, got, ok)
        # idempotent
        gx, gy = np.array([p[0] for p in got]), np.array([p[1] for p in got])
        if form == 'xy':
            again = pairs(*cd.clean_xy(gx, gy))
        else:
            m = np.vstack((gx, gy)).T.reshape(-1, 2)
            m = cd.clean_matrix(m)
            again = pairs(m[:, 0], m[:, 1])
        ctx.true(again == got, '{} clean_{} twice: {} instead of {}', tag, form, again, got)
        ctx.edge(2)
        ctx.obs(tuple(got))
    ctx.same(x, kx, 'x data of the caller')
    ctx.same(y, ky, 'y data of the caller')
    ctx.same(mat, kmat, 'matrix of the caller')
    ctx.trace()


def check(case, ctx):
    from qmix.exp import clean_data as cd
    if case['kind'] == 'small':
        n = case['n']
        alpha = [float(a) for a in case['alpha']]
        head = case['head']
        for tail in itertools.product(range(len(alpha)), repeat=n - len(head)):
            idx = tuple(head) + tail
            x = np.array([alpha[i] for i in idx], dtype=float)
            if 'y' in case:
                columns = itertools.product([float(c) for c in case['y']], repeat=n)
            else:       # y identifies the row
                masks = [0] if case.get('nanless') else range(2 ** n)
                columns = [[NAN if m >> k & 1 else 10. + (k * 7) % 5 for k in range(n)] for m in masks]
            for y in columns:
                y = np.array(y, dtype=float)
                ctx.state(idx, repr(y.tolist()), tuple(map(repr, alpha)))
                expect(x, y, ctx, cd, 'x={} y={}'.format(x.tolist(), y.tolist()))
    elif case['kind'] == 'long':
        n = case['n']
        k = np.arange(n)
        orders = {'up': k, 'down': k[::-1], 'stride': (k * 7919 + 3) % n if np.gcd(7919, n) == 1 else k,
                  'organ': np.r_[k[::2], k[1::2][::-1]], 'swap': k ^ 1 if n % 2 == 0 else k}
        for name, order in orders.items():
            for dup in (1, 2, 5):
                x = np.round(.1 * (np.asarray(order) // dup), 10) - 1.
                y = 1000. + np.asarray(order) + .25 * k
                for nan_at in (None, 0, n // 2, n - 1):
                    xx, yy = x.copy(), y.copy()
                    if nan_at is not None:
                        xx[nan_at] = NAN
                        yy[-1 - nan_at] = NAN
                    ctx.state(name, n, dup, nan_at)
                    expect(xx, yy, ctx, cd, '{} n={} dup={} nan={}'.format(name, n, dup, nan_at))
    else:
        # shapes that do not fit
        for a, b in itertools.permutations(range(5), 2):
            ctx.raises(AssertionError, lambda: cd.clean_xy(np.zeros(a), np.zeros(b)), 'clean_xy with {} and {} values'.format(a, b))
            ctx.state('len', a, b)
            ctx.edge()
        for cols in (1, 3, 4):
            ctx.raises(AssertionError, lambda: cd.clean_matrix(np.zeros((4, cols))), 'clean_matrix with {} columns'.format(cols))
            ctx.edge()
        # integers
        for perm in itertools.permutations((3, 1, 1, 2)):
            x = np.array(perm)
            y = np.array([5, 6, 7, 8])
            gx, gy = cd.clean_xy(x, y)
            ctx.true(gx.tolist() == [1, 2, 3], 'integers {}: {}', perm, gx)
            ctx.true(all((a, b) in list(zip(perm, (5, 6, 7, 8))) for a, b in zip(gx.tolist(), gy.tolist())), 'integers: pairs')
            ctx.state('int', perm)
            ctx.edge()
        ctx.trace()
