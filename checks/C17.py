"""Spline, deriv_spl, findmin, findroot"""
from symx.run import Case, rescaled

META = {
    'title': 'Splines interpolate the data and invert it consistently',
    'statement': 'A spline built from samples passes through every sample, '
    'reproduces polynomials up to its degree with all their derivatives, and '
    'depends linearly on the data; unordered abscissas are refused. Inverse '
    'lookup, minimum, maximum and root return points inside the requested '
    'bracket (default: the data range) where the spline has the requested '
    'value or vanishing derivative, and refuse values outside the data '
    'range; spline derivatives of data and the shortcuts agree with that.',
    'forall': 'all sample values, polynomials, evaluation points and lookup '
    'values',
    'why': 'sign, offset and bracket mistakes in the lookup only show for '
    'particular curves',
    'files': ['src/pwtools/num.py'],
    'mech': ['spline @ num.py:Spline, deriv_spl',
             'lookup @ num.py:Fit1D, Spline.invsplev, findmin, findroot'],
}
BOUNDS = {'quick': '4-7 samples at fixed abscissas, degrees 1-5; quadratic and '
          'linear curves for lookups'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = ('smoothing splines, convergence of the root finders; FITPACK is '
           'compiled: splrep/splev enter as the exact B-spline interpolant, '
           'brentq/newton as an arbitrary root in the bracket, replays use '
           'the real ones')

X = {4: [0.0, 1.0, 1.5, 3.0], 5: [-1.0, 0.0, 0.5, 2.0, 3.0],
     6: [0.0, 1.0, 2.0, 3.0, 4.0, 5.0],
     7: [-2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 4.0],
     10: [0.5 * i for i in range(10)],
     11: [0.25 * i * (i + 3) - 5 for i in range(11)]}


def poly(c, x, der=0):
    s = 0
    for k in range(der, len(c)):
        f = 1
        for q in range(der):
            f *= k - q
        s = s + c[k] * f * x ** (k - der)
    return s


def interp(ctx, n, k):
    num = ctx.mod('num')
    x = ctx.arr(X[n])
    y = ctx.reals('y', (n,), -2, 2)
    x0, y0 = x.copy(), y.copy()
    kw = {} if k == 3 else {'k': k}
    f = num.Spline(x, y, **kw)
    ctx.eq(f(x), y0, 'passes through the data', atol=1e-8)
    for i in range(n):
        ctx.eq(f(X[n][i]), y0[i], 'at one sample', atol=1e-8)
    z = 0.3 * X[n][1] + 0.7 * X[n][2]
    y2 = ctx.reals('u', (n,), -2, 2)
    a = ctx.real('a', -2, 2)
    g, h = num.Spline(x, y2, **kw), num.Spline(x, y + a * y2, **kw)
    for d in range(0, k + 1):
        ctx.eq(h(z, der=d), f(z, der=d) + a * g(z, der=d), 'linear',
               atol=1e-7)
    ctx.eq(x, x0, 'input kept')
    ctx.eq(y, y0, 'input kept')
    ctx.eq(f.x, x0, 'x kept')
    ctx.eq(f.y, y0, 'y kept')


def exact(ctx, n, k):
    num = ctx.mod('num')
    x = ctx.arr(X[n])
    c = [ctx.real('c%i' % i, -2, 2) for i in range(k + 1)]
    y = ctx.arr([poly(c, v) for v in x])
    z = ctx.real('z', X[n][0], X[n][-1])
    f = num.Spline(x, y, k=k, eps=1e-6)
    ctx.eq(f(z), poly(c, z), 'value', atol=1e-7)
    for d in range(1, k + 1):
        ctx.eq(f(z, der=d), poly(c, z, d), 'derivative', atol=1e-6)
    ctx.eq(f(ctx.arr([z, z / 2])), [poly(c, z), poly(c, z / 2)], 'array',
           atol=1e-7)


def deriv(ctx, n, k):
    num = ctx.mod('num')
    x = ctx.arr(X[n])
    c = [ctx.real('c%i' % i, -2, 2) for i in range(4)]
    y = ctx.arr([poly(c, v) for v in x])
    ctx.eq(num.deriv_spl(y, x), [poly(c, v, 1) for v in X[n]], 'first',
           atol=1e-6)
    ctx.eq(num.deriv_spl(y, x, n=2), [poly(c, v, 2) for v in X[n]], 'second',
           atol=1e-6)
    xn = ctx.arr([0.25, 0.75])
    xd, yd = num.deriv_spl(y, x, xnew=xn, fullout=True)
    ctx.eq(xd, xn, 'axis')
    ctx.eq(yd, [poly(c, v, 1) for v in (0.25, 0.75)], 'new points', atol=1e-6)
    y = ctx.arr([poly(c, v) for v in range(n)])
    ctx.eq(num.deriv_spl(y), [poly(c, v, 1) for v in range(n)], 'index axis',
           atol=1e-5)
    xd, yd = num.deriv_spl(y, fullout=True)
    ctx.eq(xd, list(range(n)), 'index axis')
    ctx.eq(num.deriv_spl(y, n=3, k=4) if n > 4 else [6 * c[3]] * n,
           [poly(c, v, 3) for v in range(n)], 'degree', atol=1e-4)
    ctx.raises(AssertionError, lambda: num.deriv_spl(y, x, n=0), 'order')


def lookup(ctx, n, sign):
    """monotonic curve, unique solutions"""
    num = ctx.mod('num')
    x = ctx.arr(X[n])
    a = (ctx.real('a', 0.25, 2) if n == 4 else 0.75) * sign
    m = ctx.real('m', X[n][0] + 0.125, X[n][-1] - 0.125)
    y = ctx.arr([a * (v - m) for v in x])
    f = num.Spline(x, y)
    ctx.eq(f.get_root(), m, 'root', tol=1e-6)
    ctx.eq(f.get_root(xab=[m - 0.125, m + 0.0625]), m, 'root in bracket',
           tol=1e-6)
    q = ctx.real('q', X[n][0], X[n][-1])
    y0 = a * (q - m)
    # scipy evaluates with rounding at the very end of the range
    ctx.assume((q > X[n][0] + 1e-6) & (q < X[n][-1] - 1e-6))
    ctx.eq(f.invsplev(y0), q, 'inverse', tol=1e-6)
    ctx.eq(f(f.invsplev(y0)), y0, 'value', tol=1e-6)
    for k in (0, n - 1):
        z = f.invsplev(y[k], x0=x[k])
        ctx.eq(z, x[k], 'inverse of the first and last point', tol=1e-5)
    ctx.eq(f.invsplev(y0, xab=[X[n][0], X[n][-1]]), q, 'inverse', tol=1e-6)
    ctx.eq(f.invsplev(y0, x0=m), q, 'inverse, guess', tol=1e-5)
    ctx.check(bool(f.is_mono()), 'monotonic')
    hi = abs(a) * 10 + 1
    ctx.raises(AssertionError, lambda: f.invsplev(hi), 'range')
    ctx.raises(AssertionError, lambda: f.invsplev(-hi), 'range')
    ctx.raises(ValueError, lambda: f.get_root(xab=[X[n][0], m - 0.0625]),
               'no root in bracket')


def extremum(ctx, n, sign):
    num = ctx.mod('num')
    x = ctx.arr(X[n])
    a = ctx.real('a', 0.25, 2) * sign
    b = ctx.real('b', -2, 2)
    lo, hi = (X[n][0], X[n][-1]) if n < 6 else (1.5, 3.25)
    m = ctx.real('m', lo + 0.125, hi - 0.125)
    y = ctx.arr([a * (v - m) * (v - m) + b for v in x])
    f = num.Spline(x, y)
    g = f.get_min if sign > 0 else f.get_max
    ctx.eq(g(), m, 'extremum', tol=1e-6)
    ctx.eq(g(xab=[m - 0.0625, m + 0.125]), m, 'extremum in bracket', tol=1e-6)
    ctx.eq(g(x0=m + 0.01), m, 'extremum, guess', tol=1e-5)
    if sign > 0:
        r = num.findmin(x, y)
        ctx.eq(r, [m, b], 'findmin', tol=1e-6)
    r = num.findroot(x, ctx.arr([a * (v - m) for v in x]))
    ctx.eq(r[0], m, 'findroot', tol=1e-6)
    ctx.eq(r[1], 0, 'findroot', atol=1e-6)


def refused(ctx):
    num = ctx.mod('num')
    y = ctx.reals('y', (4,), -2, 2)
    d = ctx.real('d', 0.125, 2)
    x = ctx.arr([0.0, 1.0, 1.0 - d, 2.0])
    ctx.raises(AssertionError, lambda: num.Spline(x, y), 'order')


def cases(tier):
    out = []
    for n, k in ((4, 1), (4, 2), (4, 3), (5, 3), (6, 3), (6, 5), (7, 3),
                 (7, 4)):
        out.append(Case('interpolates n=%i k=%i' % (n, k), interp,
                        dict(n=n, k=k)))
        out.append(Case('exact n=%i k=%i' % (n, k), exact, dict(n=n, k=k)))
    for n in (4, 5, 6):
        out.append(Case('derivative n=%i' % n, deriv, dict(n=n, k=3)))
        for s in (1, -1):
            out.append(Case('lookup n=%i %+i' % (n, s), lookup,
                            dict(n=n, sign=s)))
            out.append(Case('extremum n=%i %+i' % (n, s), extremum,
                            dict(n=n, sign=s)))
    out.append(Case('refused', refused))
    out += [Case('interpolates integers', interp, dict(n=5, k=3),
                 ints=('y', 'u'))]
    out += [Case('interpolates n=11', interp, dict(n=11, k=3)),
            Case('derivative n=10', deriv, dict(n=10, k=3))]
    out += rescaled(
        out,
        ('interpolates n=5 k=3', dict(y=1e-09, u=1e-09)),
        ('exact n=5 k=3', dict(c=1e-09)),
        ('derivative n=5', dict(c=1e+09)),
        ('extremum n=5 +1', dict(a=1e-06, b=1e-06)))
    return out
