"""polyfit, polyval, PolyFit, PolyFit1D, vander, poly_powers"""
import itertools
from symx.run import Case, rescaled

META = {
    'title': 'Polynomial fits are least-squares exact and scaling-invariant',
    'statement': 'A polynomial fit reproduces every polynomial whose degree in '
    'each variable is within the requested one - values at any point and (in '
    'one dimension) derivatives of any order - and for other data it is the '
    'least-squares solution. Internal scaling of points and values, scaling of the '
    'Vandermonde matrix and the shape in which points are passed never change '
    'the result; the minimum (maximum, root) found in one dimension has zero '
    'derivative (value). Terms enumerate each combination of powers once.',
    'forall': 'all coefficients and data values, evaluation points, shifts '
    'and scales of the sample points',
    'why': 'the inner scaling has branches on sign and location of extrema '
    'and enters every derivative; tests use one data set with tolerance',
    'files': ['src/pwtools/num.py'],
    'mech': ['fit @ num.py:polyfit, vander, poly_powers',
             'eval @ num.py:polyval, PolyFit.__call__, PolyFit1D',
             'extrema @ num.py:Fit1D'],
}
BOUNDS = {'quick': '1d: 3-5 points, degree 1-3, derivatives up to 4; 2d: degree '
          '1 (4-5 points) and 2 (9 points); point sets fixed up to scale; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'rank-deficient fits, fmin based minimum search'

P1 = {3: [-1.0, 0.5, 2.0], 4: [-2.0, -0.5, 1.0, 3.0],
      5: [0.5, 1.0, 2.0, 2.5, 4.0]}
NEG = {3: [-4.0, -2.5, -1.0], 4: [-4.0, -3.0, -1.5, -1.0]}


def poly1(c, x, der=0):
    s = 0
    for k in range(der, len(c)):
        f = 1
        for q in range(der):
            f *= k - q
        s = s + c[k] * f * x ** (k - der)
    return s


def kwds(ctx):
    ctx.lazy_extrema()
    kw = {}
    for n in ('scale', 'scale_vand'):
        v = ctx.choice(n, [None, True, False])
        if v is not None:
            kw[n] = v
    return kw


def exact1(ctx, n, deg, neg, cls):
    num = ctx.mod('num')
    kw = kwds(ctx)
    x = ctx.arr((NEG if neg else P1)[n])
    c = [ctx.real('c%i' % k, -2, 2) for k in range(deg + 1)]
    y = ctx.arr([poly1(c, v) for v in x])
    x0, y0 = x.copy(), y.copy()
    z = ctx.real('z', -3, 5)
    if cls == 'PolyFit1D':
        f = num.PolyFit1D(x, y, deg, **kw)
        ctx.eq(f(z), poly1(c, z), 'scalar point')
        r = f(ctx.arr([z, z + 1]))
        ctx.check(tuple(r.shape) == (2,), 'shape')
        ctx.eq(r, [poly1(c, z), poly1(c, z + 1)], 'points')
        r = f(ctx.arr([[z], [z + 2]]))
        ctx.eq(r, [poly1(c, z), poly1(c, z + 2)], 'column of points')
        for d in range(1, deg + 2):
            ctx.eq(f(z, der=d), poly1(c, z, d), 'derivative')
        ctx.eq(num.PolyFit1D(x[:, None], y, deg, **kw)(z), poly1(c, z),
               'points given as column')
    else:
        f = num.PolyFit(x[:, None], y, deg, **kw)
        ctx.eq(f(ctx.arr([z])), poly1(c, z), 'single point')
        ctx.check(tuple(f(ctx.arr([[z]])).shape) == (1,), 'shape')
        ctx.eq(f(ctx.arr([[z], [z + 1]])), [poly1(c, z), poly1(c, z + 1)],
               'points')
        for d in range(1, deg + 1):
            ctx.eq(f(ctx.arr([[z]]), der=d), [poly1(c, z, d)], 'derivative')
        ctx.raises(AssertionError, lambda: f(ctx.arr([[z, z]])), 'ndim')
    fit = num.polyfit(x[:, None], y, deg, **kw)
    ctx.eq(num.polyval(fit, ctx.arr([[z]])), [poly1(c, z)], 'function')
    ctx.eq(x, x0, 'input kept')
    ctx.eq(y, y0, 'input kept')


def lsq1(ctx, n, deg, kw):
    ctx.lazy_extrema()
    """normal equations: residuals are orthogonal to all powers"""
    num = ctx.mod('num')
    x = ctx.arr(P1[n])
    y = ctx.reals('y', (n,), -2, 2)
    f = num.PolyFit1D(x, y, deg, **kw)
    res = f(x) - y
    for k in range(deg + 1):
        ctx.eq(sum(r * v ** k for r, v in zip(res, x)), 0, 'least squares',
               atol=1e-8)
    g = num.PolyFit1D(x, y, deg, scale=not kw.get('scale', True))
    z = ctx.real('z', -3, 5)
    ctx.eq(f(z), g(z), 'scaling does not matter', atol=1e-8)


def affine(ctx, n, deg):
    ctx.lazy_extrema()
    """moved and stretched sample points"""
    num = ctx.mod('num')
    s = ctx.real('s', 0.25, 4)
    x = ctx.arr([s * v for v in P1[n]])
    c = [ctx.real('c%i' % k, -2, 2) for k in range(deg + 1)]
    y = ctx.arr([poly1(c, v) for v in P1[n]])
    f = num.PolyFit1D(x, y, deg)
    z = ctx.real('z', -3, 5)
    ctx.eq(f(s * z), poly1(c, z), 'value')
    ctx.eq(f(s * z, der=1) * s, poly1(c, z, 1), 'derivative')


def extrema(ctx, what, scale):
    ctx.lazy_extrema()
    num = ctx.mod('num')
    x = ctx.arr([-2.0, -1.0, 0.5, 2.0])
    m = ctx.real('m', -1.75, 1.75)
    a = ctx.real('a', 0.25, 2)
    b = ctx.real('b', -2, 2)
    if what == 'max':
        a = -a
    if what == 'root':
        y = ctx.arr([a * (v - m) for v in x])
        f = num.PolyFit1D(x, y, 1, scale=scale)
        r = f.get_root()
        ctx.eq(r, m, 'root', tol=1e-6)
        r = f.get_root(xab=[-1.8, 1.8])
        ctx.eq(r, m, 'root in bracket', tol=1e-6)
        return
    y = ctx.arr([a * (v - m) * (v - m) + b for v in x])
    f = num.PolyFit1D(x, y, 2, scale=scale)
    get = f.get_max if what == 'max' else f.get_min
    ctx.eq(get(), m, 'extremum', tol=1e-6)
    ctx.eq(get(xab=[-1.9, 1.8]), m, 'extremum in bracket', tol=1e-6)
    ctx.eq(get(x0=0.1), m, 'extremum from a guess', tol=1e-5)


def bracket(ctx):
    num = ctx.mod('num')
    x = ctx.arr([-2.0, -1.0, 0.5, 2.0])
    m = ctx.real('m', 2.25, 4)
    y = ctx.arr([(v - m) * (v - m) for v in x])
    f = num.PolyFit1D(x, y, 2)
    ctx.raises(ValueError, lambda: f.get_min(), 'no minimum inside')
    ctx.check(bool(f.is_mono()), 'monotonic')
    ctx.eq(f.get_min(xab=[2.1, 5.0]), m, 'minimum in bracket', tol=1e-6)
    ctx.eq(num.PolyFit1D(x, -y, 2).get_max(xab=[2.1, 5.0]), m,
           'maximum in bracket', tol=1e-6)
    ctx.eq(num.PolyFit1D(x, m - x, 1).get_root(xab=[2.1, 5.0]), m,
           'root in bracket', tol=1e-6)
    y = ctx.arr([(v - m + 3) * (v - m + 3) for v in x])
    ctx.check(not bool(num.PolyFit1D(x, y, 2).is_mono()), 'not monotonic')


def exact2(ctx, deg, npts, kw):
    ctx.lazy_extrema()
    num = ctx.mod('num')
    pts = {(1, 4): [(0, 0), (1, .5), (-1, 2), (2, 1)],
           (1, 5): [(0, 0), (1, .5), (-1, 2), (2, 1), (1.5, -1)],
           (2, 9): [(a, b) for a in (-1, 0.5, 2) for b in (0.5, 1, 3)]}
    p = ctx.arr(pts[(deg, npts)])
    n = (deg + 1) ** 2
    c = [ctx.real('c%i' % k, -2, 2) for k in range(n)]
    pw = list(itertools.product(range(deg + 1), repeat=2))

    def val(u, v):
        return sum(ci * u ** i * v ** j for ci, (i, j) in zip(c, pw))
    y = ctx.arr([val(u, v) for u, v in p])
    f = num.PolyFit(p, y, deg, **kw)
    a, b = ctx.real('za', -2, 2), ctx.real('zb', -2, 2)
    ctx.eq(f(ctx.arr([a, b])), val(a, b), 'single point')
    ctx.eq(f(ctx.arr([[a, b], [b, a]])), [val(a, b), val(b, a)], 'points')
    ctx.raises(AssertionError, lambda: f(ctx.arr([[a, b, a]])), 'ndim')
    ctx.raises(AssertionError, lambda: f(ctx.arr([[a, b]]), der=1), 'der 2d')


def powers(ctx):
    num = ctx.mod('num')
    nd = ctx.choice('ndim', [1, 2, 3])
    deg = ctx.choice('deg', [0, 1, 2, 3])
    p = num.poly_powers(nd, deg)
    rows = [tuple(int(v) for v in r) for r in p]
    ctx.check(len(rows) == (deg + 1) ** nd and len(set(rows)) == len(rows)
              and all(0 <= v <= deg for r in rows for v in r)
              and all(len(r) == nd for r in rows), 'each term once')
    if deg == 3 and nd == 3:
        return
    pts = ctx.reals('p', (2, nd), -2, 2)
    v = num.vander(pts, deg)
    ctx.check(tuple(v.shape) == (2, len(rows)), 'shape')
    for i in range(2):
        for j, r in enumerate(rows):
            t = 1
            for k in range(nd):
                t = t * pts[i, k] ** r[k]
            ctx.eq(v[i, j], t, 'product of powers')
    st = num.poly_str(nd, deg)
    ctx.check(st.split(' + ') == [
        'a%i*' % i + '*'.join('x%i^%i' % (k, e) for k, e in enumerate(r))
        for i, r in enumerate(rows)], 'text')


def const(ctx, n):
    num = ctx.mod('num')
    v = ctx.real('v', -3, 3)
    kw = kwds(ctx)
    f = num.PolyFit1D(ctx.arr(P1[n]), ctx.arr([v] * n), 1, **kw)
    z = ctx.real('z', -3, 5)
    ctx.eq(f(z), v, 'constant', atol=1e-9)
    ctx.eq(f(z, der=1), 0, 'no slope', atol=1e-9)


def refused(ctx):
    num = ctx.mod('num')
    x, y = ctx.arr([0.0, 1, 2]), ctx.reals('y', (3,), -1, 1)
    ctx.raises(AssertionError, lambda: num.PolyFit(x, y, 1), '1d points')
    ctx.raises(AssertionError, lambda: num.PolyFit(x[:, None], y[:2], 1), 'len')
    ctx.raises(AssertionError, lambda: num.PolyFit1D(
        ctx.arr([[0.0, 1], [1, 2]]), y[:2], 1), '2d')
    ctx.raises(AssertionError, lambda: num.polyfit(x[:, None], y[:, None], 1),
               '2d values')


def cases(tier):
    out = []
    for cls in ('PolyFit1D', 'PolyFit'):
        for n, deg, neg in ((3, 2, 0), (3, 1, 1), (4, 2, 1), (4, 3, 0), (5, 2, 0),
                            (5, 3, 0)):
            out.append(Case('%s n=%i deg=%i %s' % (
                cls, n, deg, 'neg' if neg else ''), exact1,
                dict(n=n, deg=deg, neg=neg, cls=cls)))
    for kw in ({}, {'scale': False}, {'scale_vand': True},
               {'scale': False, 'scale_vand': True}):
        for n, deg in ((4, 1), (5, 2)):
            out.append(Case('lsq n=%i deg=%i %s' % (n, deg, kw), lsq1,
                            dict(n=n, deg=deg, kw=kw)))
    out.append(Case('stretched', affine, dict(n=4, deg=2)))
    for w in ('min', 'max', 'root'):
        for s in (True, False):
            out.append(Case('%s scale=%s' % (w, s), extrema,
                            dict(what=w, scale=s)))
    out.append(Case('bracket', bracket))
    for kw in ({}, {'scale': False}, {'scale_vand': True}):
        for d, n in ((1, 4), (1, 5)) + (((2, 9),) if kw else ()):
            out.append(Case('2d deg=%i n=%i %s' % (d, n, kw), exact2,
                            dict(deg=d, npts=n, kw=kw)))
    out.append(Case('powers', powers))
    out.append(Case('constant', const, dict(n=4)))
    out.append(Case('refused', refused))
    out += [Case('lsq integers', lsq1, dict(n=5, deg=2, kw={}), ints=('y',))]
    out += rescaled(
        out,
        ('constant', dict(v=1e-09)),
        ('PolyFit1D n=5 deg=3 ', dict(c=1e-09)),
        ('PolyFit1D n=5 deg=3 ', dict(c=1e+09)),
        ('lsq n=5 deg=2 {}', dict(y=1e-09)),
        ('min scale=True', dict(a=1e-06, b=1e-06)),
        ('2d deg=1 n=5 {}', dict(c=1e-09)))
    return out
