"""vlinspace, norm_int, round_up_next_multiple, normalize, norm, euler_matrix,
match_mask, DataND, order_similar, meshgridt"""
import itertools
from symx.run import Case, rescaled

META = {
    'title': 'Grid, matching and ordering helpers return exact, complete results',
    'statement': 'Vector linspace gives equidistant points from a to b (b '
    'excluded on request); integral normalization makes the area '
    'whatever was asked for, with or without internal scaling; rounding up '
    'gives the smallest multiple not below the number; Euler matrices are '
    'proper rotations composed of the three documented ones. Matching marks '
    'exactly the entries occurring in (or within eps of) the values, flattened '
    'grids are restored so that each value sits at its axis coordinates, and '
    'reordering data streams starts at the first row and picks, in every row, '
    'the entry closest to the extrapolation of the requested order, repeated '
    'as often as asked.',
    'forall': 'all vectors, samples, angles, integers, value sets, axis '
    'coordinates and data streams',
    'why': 'ties, empty matches, negative numbers, the first rows of an '
    'extrapolation and odd sample counts are easily missed by examples',
    'files': ['src/pwtools/num.py'],
    'mech': ['points @ num.py:vlinspace, meshgridt, DataND',
             'norm @ num.py:norm_int, normalize, norm',
             'match @ num.py:match_mask', 'order @ num.py:order_similar',
             'rotation @ num.py:euler_matrix',
             'multiple @ num.py:round_up_next_multiple'],
}
BOUNDS = {'quick': 'vectors of 2-3 entries, up to 5 points; integrals over 4-5 '
          'samples; integers within +-7000, multiples 1..7; 4 x 3 values to match; '
          'grids 2x3 and 2x2x2; 2-5 rows x 2 streams, '
          'well separated before the last row'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'exact ties in the reordering, user supplied integrators'


def vlin(ctx, n, dim):
    num = ctx.mod('num')
    a, b = ctx.reals('a', (dim,), -3, 3), ctx.reals('b', (dim,), -3, 3)
    a0, b0 = a.copy(), b.copy()
    end = ctx.choice('endpoint', [None, True, False])
    kw = {} if end is None else {'endpoint': end}
    r = num.vlinspace(a, b, n, **kw)
    ctx.check(tuple(r.shape) == (n, dim), 'shape')
    m = n if end is False else n - 1
    for i in range(n):
        for k in range(dim):
            f = i if m else 0
            ctx.eq(r[i, k] * max(m, 1), a0[k] * max(m, 1) + (b0[k] - a0[k]) * f,
                   'point')
    ctx.eq(a, a0, 'input kept')
    ctx.eq(b, b0, 'input kept')
    ctx.raises(AssertionError, lambda: num.vlinspace(a, b, 0), 'num')
    ctx.raises(AssertionError, lambda: num.vlinspace(a, b[:-1], 3), 'length')


def mesh(ctx):
    num = ctx.mod('num')
    x, y = ctx.reals('x', (2,), -3, 3), ctx.reals('y', (3,), -3, 3)
    X, Y = num.meshgridt(x, y)
    ctx.check(tuple(X.shape) == (2, 3) and tuple(Y.shape) == (2, 3), 'shape')
    for i in range(2):
        for j in range(3):
            ctx.eq(X[i, j], x[i], 'x')
            ctx.eq(Y[i, j], y[j], 'y')


def trapz(np, y, x):
    return sum((x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2
               for i in range(len(x) - 1))


def normint(ctx, n, func, scale):
    num, np = ctx.mod('num'), ctx.np
    y = ctx.reals('y', (n,), 0.25, 2)
    if func == 'simps':
        # unequal spacing makes huge rational functions
        d = ctx.real('d', 0.25, 2)
        x0 = ctx.real('x0', -1, 1)
        x = ctx.arr([x0 + d * i for i in range(n)])
    else:
        g = ctx.reals('g', (n - 1,), 0.25, 1)
        x = [ctx.real('x0', -1, 1)]
        for i in range(n - 1):
            x.append(x[-1] + g[i])
        x = ctx.arr(x)
    area = ctx.real('area', 0.5, 4)
    y0 = y.copy()
    kw = {}
    if scale is not None:
        kw['scale'] = scale
    if func == 'trapz':
        kw['func'] = lambda yy, x=None: trapz(np, yy, x)
    r = num.norm_int(y, x, area=area, **kw)
    if func == 'trapz':
        ctx.eq(trapz(np, r, x), area, 'area', tol=1e-9)
    else:
        # Simpson's rule, spelled out for odd counts
        assert n in (3, 5)
        w = {3: [1, 4, 1], 5: [1, 4, 2, 4, 1]}[n]
        ctx.eq(sum(wi * ri for wi, ri in zip(w, r)) * d / 3, area, 'area',
               tol=1e-9)
    for i in range(1, n):
        ctx.eq(r[i] * y0[0], r[0] * y0[i], 'shape kept', tol=1e-9)
    ctx.eq(y, y0, 'input kept')


def normint_default(ctx):
    num = ctx.mod('num')
    y = ctx.reals('y', (3,), 0.25, 2)
    x = ctx.arr([0.0, 1.0, 2.0])
    r = num.norm_int(y, x)
    ctx.eq((r[0] + 4 * r[1] + r[2]) / 3, 1.0, 'unit area', tol=1e-9)


def multiple(ctx):
    num = ctx.mod('num')
    m = ctx.choice('m', [1, 2, 3, 4, 5, 7])
    s = ctx.choice('s', list(range(m)))
    k = ctx.int('k', -1000, 1000)
    # any integer is m*k + s with 0 <= s < m
    r = num.round_up_next_multiple(m * k + s, m)
    ctx.eq(r, m * k + (m if s else 0), 'next multiple')


def norms(ctx, n):
    num = ctx.mod('num')
    a = ctx.reals('a', (n,), -3, 3)
    r = num.norm(a)
    ctx.eq(r * r, sum(x * x for x in a), 'norm')
    ctx.le(0, r, 'sign')
    b = ctx.reals('b', (n,), 0.25, 3)
    q = num.normalize(b)
    for i in range(n):
        ctx.le(q[i], 1.0, 'at most one')
        for j in range(n):
            ctx.eq(q[i] * b[j], q[j] * b[i], 'proportional')
    hit = None
    for i in range(n):
        h = q[i] >= 1 - 1e-12
        hit = h if hit is None else hit | h
    ctx.check(hit, 'maximum is one')


def euler(ctx, deg):
    num, np, m = ctx.mod('num'), ctx.np, ctx.m
    hi = 180 if deg else 3.14159
    f = ctx.PI / 180 if deg else 1
    phi = ctx.real('phi', -2 * hi, 2 * hi)
    th = ctx.real('theta', -hi, hi)
    psi = ctx.real('psi', -2 * hi, 2 * hi)
    r = num.euler_matrix(phi, th, psi, deg=True) if deg else \
        num.euler_matrix(phi, th, psi)
    c = [m.cos(v * f) for v in (phi, th, psi)]
    s = [m.sin(v * f) for v in (phi, th, psi)]
    D = [[c[0], s[0], 0], [-s[0], c[0], 0], [0, 0, 1]]
    C = [[1, 0, 0], [0, c[1], s[1]], [0, -s[1], c[1]]]
    B = [[c[2], s[2], 0], [-s[2], c[2], 0], [0, 0, 1]]

    def mul(p, q):
        return [[sum(p[i][k] * q[k][j] for k in range(3)) for j in range(3)]
                for i in range(3)]
    ctx.eq(r, mul(B, mul(C, D)), 'composition')
    ctx.eq(np.dot(r, r.T), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'orthogonal')
    ctx.eq(ctx.det3(r), 1, 'proper')


def euler_range(ctx):
    num = ctx.mod('num')
    big = ctx.real('big', 361, 900)
    ctx.raises(AssertionError, lambda: num.euler_matrix(big, 0, 0, deg=True),
               'phi')
    ctx.raises(AssertionError, lambda: num.euler_matrix(0, 0, big, deg=True),
               'psi')
    th = ctx.real('th', 181, 400)
    ctx.raises(AssertionError, lambda: num.euler_matrix(0, th, 0, deg=True),
               'theta')


def match(ctx, n, k, eps, ints):
    num, np = ctx.mod('num'), ctx.np
    if ints:
        arr = ctx.arr([ctx.int('a%i' % i, 0, 3) for i in range(n)])
        val = ctx.arr([ctx.int('v%i' % i, -1, 3) for i in range(k)])
    else:
        arr = ctx.reals('a', (n,), 0, 3)
        val = ctx.reals('v', (k,), 0, 3)
    kw = {}
    if eps:
        e = ctx.real('eps', 0.125, 1)
        kw['eps'] = e
        for i in range(n):
            for j in range(k):
                d = abs(arr[i] - val[j])
                ctx.assume((d > e + 1e-9) | (d < e - 1e-9))
    ret = num.match_mask(arr, val, **kw)
    ret2, idx = num.match_mask(arr, val, fullout=True, **kw)
    ctx.check(tuple(ret.shape) == (n,), 'shape')
    ids = [int(i) for i in idx]
    ctx.check(ids == sorted(set(ids)), 'indices ascending, unique')
    for i in range(n):
        want = False
        for j in range(k):
            d = arr[i] - val[j]
            hit = (abs(d) < e) if eps else (d == 0)
            want = hit | want if want is not False else hit
        got = bool(ret[i])
        ctx.check(want if got else ~want if not isinstance(want, bool)
                  else not want, 'member')
        ctx.check(bool(ret2[i]) == got and (i in ids) == got, 'indices')


def datand(ctx, dims):
    num = ctx.mod('num')
    axes = []
    for k, n in enumerate(dims):
        a = [ctx.real('x%i' % k, -2, 2)]
        for i in range(n - 1):
            a.append(a[-1] + ctx.real('g%i%i' % (k, i), 0.125, 1))
        axes.append(a)
    vals = ctx.reals('v', dims, -5, 5)
    rows = []
    for i in itertools.product(*[range(n) for n in dims]):
        rows.append([axes[k][ik] for k, ik in enumerate(i)] + [vals[i]])
    a2 = ctx.arr(rows)
    d = num.DataND(a2=a2)
    ctx.check(tuple(d.an.shape) == tuple(dims), 'shape')
    ctx.eq(d.an, vals, 'values')
    ctx.check(len(d.axes) == len(dims), 'axes')
    for k in range(len(dims)):
        ctx.check(len(d.axes[k]) == dims[k], 'axis length')
        ctx.eq(d.axes[k], axes[k], 'axis')
    # an incomplete grid is refused
    if len(dims) > 1:
        ctx.raises(AssertionError, lambda: num.DataND(a2=a2[:-1]),
                   'incomplete')


def similar(ctx, rows, streams, order, repeat, free):
    num = ctx.mod('num')
    # rows before `free` are well separated streams of given shape
    off = [ctx.real('off%i' % j, -0.5, 0.5) + 3 * j for j in range(streams)]
    wig = [[0, .125, .5, .25, .75], [.5, .25, 0, .25, .125]]
    arr = ctx.arr([[ctx.real('a%i%i' % (i, j), -4, 4) if i >= free else
                    off[j] + wig[j % 2][i] for j in range(streams)]
                   for i in range(rows)])
    a0 = arr.copy()

    def run(a):
        """reference; ties are excluded"""
        out = [list(a[0])]
        for i in range(rows - 1):
            new = []
            for j in range(streams):
                p = [r[j] for r in out]
                if i == 0 or order == 0:
                    ref = p[i]
                elif i == 1 or order == 1:
                    ref = 2 * p[i] - p[i - 1]
                else:
                    ref = 3 * p[i] - 3 * p[i - 1] + p[i - 2]
                best = a[i + 1][0]
                for q in range(1, streams):
                    c = a[i + 1][q]
                    # the distances differ by a clear margin
                    d = abs(c - ref) - abs(best - ref)
                    ctx.assume((d > 1e-6) | (d < -1e-6))
                    if d < 0:
                        best = c
                new.append(best)
            out.append(new)
        return out
    # a further run picks the closest of less entries: the same ones
    want = run(a0)
    kw = {}
    if order != 2:
        kw['order'] = order
    if repeat != 1:
        kw['repeat'] = repeat
    r = num.order_similar(arr, **kw)
    for i in range(rows):
        for j in range(streams):
            ctx.eq(r[i, j], want[i][j], 'ordered')
    ctx.eq(arr, a0, 'input kept')


def cases(tier):
    out = []
    for n in (1, 2, 3, 5):
        out.append(Case('vlinspace %i' % n, vlin, dict(n=n, dim=2 + n % 2)))
    out.append(Case('meshgridt', mesh))
    for scale in (None, True, False):
        out.append(Case('norm_int simpson 3 %s' % scale, normint,
                        dict(n=3, func='simps', scale=scale)))
        out.append(Case('norm_int simpson 5 %s' % scale, normint,
                        dict(n=5, func='simps', scale=scale)))
        out.append(Case('norm_int trapezoid %s' % scale, normint,
                        dict(n=4, func='trapz', scale=scale)))
    out.append(Case('norm_int default area', normint_default))
    out.append(Case('round up', multiple))
    out.append(Case('norms', norms, dict(n=3)))
    out.append(Case('euler deg', euler, dict(deg=True)))
    out.append(Case('euler rad', euler, dict(deg=False)))
    out.append(Case('euler range', euler_range))
    for n, k in ((3, 1), (3, 2)):
        out.append(Case('match int %i %i' % (n, k), match,
                        dict(n=n, k=k, eps=False, ints=True)))
    for n, k in ((2, 1), (1, 2)) + (((2, 2),) if tier == 'thorough' else ()):
        out.append(Case('match eps %i %i' % (n, k), match,
                        dict(n=n, k=k, eps=True, ints=False)))
    for d in ((4,), (2, 3), (3, 2), (2, 2, 2)):
        out.append(Case('datand %s' % (d,), datand, dict(dims=d)))
    for order in (0, 1, 2):
        for rows, streams, free, repeat in (
                (2, 2, 0, 1), (3, 2, 2, 1), (3, 2, 2, 2), (4, 2, 3, 1),
                (4, 2, 3, 3), (5, 2, 4, 1)) + (
                    ((2, 3, 0, 1), (3, 2, 1, 1)) if tier == 'thorough'
                    else ()):
            out.append(Case('order %i rows %i streams %i repeat %i' % (
                order, rows, streams, repeat), similar, dict(
                rows=rows, streams=streams, order=order, repeat=repeat,
                free=free)))
    out += [Case('vlinspace integers', vlin, dict(n=4, dim=2),
                 ints=('a', 'b')),
            Case('meshgridt integers', mesh, ints=('x', 'y')),
            Case('datand integers', datand, dict(dims=(2, 3)), ints=('v',)),
            Case('norms integers', norms, dict(n=3), ints=('a', 'b'))]
    out += [Case('vlinspace 12', vlin, dict(n=12, dim=3)),
            Case('datand many', datand, dict(dims=(11, 2)))]
    out += rescaled(
        out,
        ('vlinspace 12', dict(a=1e-09, b=1e-09)),
        ('datand many', dict(v=1e-09)),
        ('norms', dict(a=1e-09, b=1e-09)),
        ('norm_int simpson 3 True', dict(y=1e-06)),
        ('norm_int trapezoid None', dict(y=1e+06)))
    return out
