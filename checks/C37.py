"""2D data sets and interpolators."""
from symx.run import Case, rescaled

META = {
    'title': '2D data sets agree in all forms; 2D interpolators get that data',
    'statement': 'A Data2D object built from x and y axes, X and Y grids, xx '
    'and yy lists or XY points, with or without z data as grid or list, has '
    'all forms of the same points in the same order ((i, j) is the point '
    '(x_i, y_j)), also after an update with new data in any of the forms and '
    'in a copy, which shares no memory with the original. Interpol2D gives '
    'the points and values (given as points, as xx and yy, or as Data2D) and '
    'all options to the interpolator asked for, evaluates it at one or many '
    'points, each value at its own point, and searches the minimum from the '
    'data point with the smallest value unless told otherwise; '
    'inner_points_mask is false exactly for the points on the hull. '
    'smooth_color and smooth_color_func divide [0, 1] evenly.',
    'forall': 'all point coordinates and values, all forms and updates',
    'why': 'the forms must agree for all axes (unsorted ones, nx != ny) and '
    'all histories of updates; tests use one square grid',
    'files': ['src/pwtools/mpl.py', 'src/pwtools/num.py'],
    'mech': ['data @ mpl.py:Data2D', 'grid @ num.py:meshgridt',
             'interpolators @ num.py:Interpol2D',
             'hull @ num.py:inner_points_mask',
             'colors @ mpl.py:smooth_color, smooth_color_func'],
}
BOUNDS = {'quick': 'nx, ny in 1..4, all real coordinates and values '
          '(different ones along an axis, in any order); histories of up to '
          'two updates'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'plotting; interpolation inside scipy (stand-ins record what it ' \
    'is given); hull of points in 2D and more (scipy Delaunay)'


def axis(ctx, name, n, order):
    """different values in a given order"""
    v = [ctx.real('%s%i' % (name, i), 3 * o - 1, 3 * o + 1)
         for i, o in enumerate((list(order) + list(range(4, n)))[:n])]
    return ctx.arr(v)


def forms(ctx, x, y, form):
    nx, ny = len(x), len(y)
    X = ctx.arr([[x[i]] * ny for i in range(nx)])
    Y = ctx.arr([[y[j] for j in range(ny)] for i in range(nx)])
    xx = ctx.arr([x[i] for i in range(nx) for j in range(ny)])
    yy = ctx.arr([y[j] for i in range(nx) for j in range(ny)])
    XY = ctx.arr([[x[i], y[j]] for i in range(nx) for j in range(ny)])
    return {'x': dict(x=x, y=y), 'X': dict(X=X, Y=Y), 'xx': dict(xx=xx, yy=yy),
            'XY': dict(XY=XY), 'all': dict(x=x, y=y, X=X, Y=Y, xx=xx, yy=yy,
                                           XY=XY)}[form]


def zform(ctx, Z, form):
    if form is None:
        return {}
    zz = ctx.arr([v for r in Z for v in r])
    return {'Z': dict(Z=Z), 'zz': dict(zz=zz), 'both': dict(Z=Z, zz=zz)}[form]


def cmp(ctx, d, x, y, Z, what):
    nx, ny = len(x), len(y)
    ctx.check((d.nx, d.ny) == (nx, ny), what + ': size')
    want = dict(forms(ctx, x, y, 'all'))
    if Z is None:
        ctx.check(d.Z is None and d.zz is None, what + ': no z')
    else:
        want.update(zform(ctx, Z, 'both'))
    for k, v in want.items():
        g = getattr(d, k)
        ctx.check(g.shape == v.shape, '%s: shape of %s' % (what, k))
        ctx.eq(g, v, '%s: %s' % (what, k))


def data(ctx, nx, ny, form, z):
    M = ctx.mod('mpl')
    x = axis(ctx, 'x', nx, (2, 0, 3, 1))
    y = axis(ctx, 'y', ny, (1, 3, 0, 2))
    Z = ctx.reals('z', (nx, ny), -9, 9) if z else None
    kw = dict(forms(ctx, x, y, form), **zform(ctx, Z, z))
    d = M.Data2D(**kw)
    cmp(ctx, d, x, y, Z, 'new')
    c = d.copy()
    cmp(ctx, c, x, y, Z, 'copy')
    for k in d.attr_lst:
        if getattr(c, k) is not None:
            getattr(c, k)[...] = -77
    cmp(ctx, d, x, y, Z, 'original')


def update(ctx, form, z, form2, z2, n2):
    M = ctx.mod('mpl')
    nx, ny = 2, 3
    x = axis(ctx, 'x', nx, (2, 0, 1))
    y = axis(ctx, 'y', ny, (1, 0, 2))
    Z = ctx.reals('z', (nx, ny), -9, 9) if z else None
    d = M.Data2D(**dict(forms(ctx, x, y, form), **zform(ctx, Z, z)))
    c = d.copy()
    x2, y2, Z2 = x, y, Z
    kw = {}
    if form2:
        nx, ny = (3, 2) if n2 else (2, 3)
        x2 = axis(ctx, 'u', nx, (0, 2, 1))
        y2 = axis(ctx, 'v', ny, (2, 1, 0))
        kw.update(forms(ctx, x2, y2, form2))
    if z2:
        Z2 = ctx.reals('w', (nx, ny), -9, 9)
        kw.update(zform(ctx, Z2, z2))
    d.update(**kw)
    cmp(ctx, d, x2, y2, Z2, 'updated')
    cmp(ctx, c, x, y, Z, 'copy made before')
    # back, in one step
    d.update(**dict(forms(ctx, x, y, 'xx'), **zform(ctx, Z, z and 'zz')))
    if z:
        cmp(ctx, d, x, y, Z, 'updated again')


def partly(ctx):
    """one axis; refused input"""
    M = ctx.mod('mpl')
    x = axis(ctx, 'x', 2, (2, 0, 1))
    y = axis(ctx, 'y', 3, (1, 0, 2))
    Z = ctx.reals('z', (2, 3), -9, 9)
    d = M.Data2D(x=x, y=y, Z=Z)
    x2 = axis(ctx, 'u', 2, (0, 2))
    d.update(x=x2)
    cmp(ctx, d, x2, y, Z, 'new x')
    y2 = axis(ctx, 'v', 3, (0, 2, 1))
    d.update(yy=forms(ctx, x, y2, 'xx')['yy'])
    cmp(ctx, d, x2, y2, Z, 'new yy')
    d.update(Y=forms(ctx, x, y, 'X')['Y'])
    cmp(ctx, d, x2, y, Z, 'new Y')
    ctx.raises(AssertionError, lambda: d.update(foo=1), 'unknown')
    ctx.raises(AssertionError, lambda: d.update(x=x, foo=1), 'unknown')
    cmp(ctx, d, x2, y, Z, 'after refused update')
    for kw in ({}, dict(x=x), dict(Z=Z), dict(x=x, yy=y)):
        ctx.raises(Exception, lambda: M.Data2D(**kw), 'no x, y data')


def colors(ctx, n):
    M = ctx.mod('mpl')
    a, b = ctx.real('a', -2, 2), ctx.real('b', -2, 2)
    f = lambda z: (a * z, b, 1 - z)
    got = M.smooth_color_func(n, f)
    ctx.check(len(got) == n, 'number of colors')
    for i in range(n):
        z = ctx.num(i) / (n - 1)
        ctx.eq(M.smooth_color(i, n), z, 'color')
        for u, v in zip(got[i], (a * z, b, 1 - z)):
            ctx.eq(u, v, 'color function')
    ctx.check(len(got[0]) == 3, 'what the function returns')


SCIPY = {'ct': 'CloughTocher2DInterpolator', 'linear': 'LinearNDInterpolator',
         'nearest': 'NearestNDInterpolator'}


def inter(ctx, what, given):
    num = ctx.mod('num')
    M = ctx.mod('mpl')
    x = axis(ctx, 'x', 3, (2, 0, 1))
    y = axis(ctx, 'y', 2, (1, 0))
    zz = ctx.reals('z', (6,), -9, 9)
    f = forms(ctx, x, y, 'all')
    kw = {'points': dict(points=f['XY'], values=zz),
          'xx': dict(xx=f['xx'], yy=f['yy'], values=zz),
          'dd': dict(dd=M.Data2D(x=x, y=y, zz=zz))}[given]
    a, b, c = ctx.reals('c', (3,), -3, 3)
    opt = dict(foo=1, bar='2')
    seen = []

    class Stand:
        def __init__(self, points, values, **k):
            seen.append((points, values, k))

        def __call__(self, pts, **k):
            return ctx.arr([a + b * p[0] + c * p[0] * p[1] + k.get('off', 0)
                            for p in pts])

    if what in SCIPY:
        names = [SCIPY[what]]
        rep = [Stand]
    else:
        def bisplrep(xx, yy, values, **k):
            k = dict(k)
            if 'kx' not in opt:
                ctx.check(k.pop('kx') == 3 and k.pop('ky') == 3, 'order')
            k.pop('nxest', None)
            k.pop('nyest', None)
            return Stand(ctx.np.array([xx, yy]).T, values, **k)

        def bisplev(u, v, spl, **k):
            return spl(ctx.np.array([[u, v]]), **k)[0]
        names = ['bisplrep', 'bisplev']
        rep = [bisplrep, bisplev]
    calls = []

    def fmin(fun, x0, **k):
        calls.append((fun, x0, k))
        return 'result'
    over = {'scipy.interpolate.' + n: r for n, r in zip(names, rep)}
    over['scipy.optimize.fmin'] = fmin
    with ctx.stand(over):
        I = num.Interpol2D(what=what, **dict(kw, **opt))
        ctx.check(len(seen) == 1 and seen[0][2] == opt, 'options')
        ctx.eq(seen[0][0], f['XY'], 'points')
        ctx.eq(seen[0][1], zz, 'values')
        p = ctx.reals('p', (3, 2), -3, 3)
        val = lambda q, o=0: a + b * q[0] + c * q[0] * q[1] + o
        got = I(p)
        ctx.check(got.shape == (3,), 'shape')
        ctx.eq(got, ctx.arr([val(q) for q in p]), 'many points')
        ctx.eq(I(p[1]), ctx.arr([val(p[1])]), 'one point')
        ctx.eq(I([[1, 2], list(p[2])]), ctx.arr(
            [val((1, 2)), val(p[2])]), 'list of points')
        ctx.eq(I(p, off=7), ctx.arr([val(q, 7) for q in p]), 'call options')
        k = ctx.idx('smallest', 0, 5)
        for i in range(6):
            if i != k:
                ctx.assume(zz[i] > zz[k] + ctx.num(1e-3))
        ctx.check(I.get_min() == 'result', 'get_min')
        fun, x0, o = calls[0]
        ctx.check(fun is I and o.get('disp') == 0, 'get_min')
        ctx.eq(ctx.arr(list(x0)), f['XY'][k], 'start at the smallest value')
        I.get_min(x0=[1, 2], ftol=5, foo=3)
        ctx.check(list(calls[1][1]) == [1, 2] and calls[1][2]['ftol'] == 5
                  and calls[1][2]['foo'] == 3, 'get_min options')


def wrong(ctx):
    num = ctx.mod('num')
    x = axis(ctx, 'x', 3, (2, 0, 1))
    y = axis(ctx, 'y', 3, (1, 0, 2))
    zz = ctx.reals('z', (3,), -9, 9)
    P = ctx.np.array([x, y]).T
    ctx.raises(Exception, lambda: num.Interpol2D(P, zz, what='foo'),
               'unknown interpolator')
    ctx.raises(Exception, lambda: num.Interpol2D(
        points=P, xx=x, yy=y, values=zz, what='nearest'), 'too much input')


def direct(ctx, what):
    """the same as the pwtools model itself"""
    num = ctx.mod('num')
    ctx.lazy_extrema()
    n = 5 if what == 'poly' else 2
    P = ctx.arr([[ctx.num(v) for v in p] for p in
                 ((0, 0), (1, 2), (0, 1), (2, 1), (1, 0))[:n]])
    zz = ctx.reals('z', (n,), -9, 9)
    p = ctx.arr([[ctx.num(v) for v in q] for q in
                 ((1, 1), (0.5, 2), (3, -1))])
    if what == 'poly':
        kw = dict(deg=1)
        ref = num.PolyFit(P, zz, scale=True, **kw)
    else:
        rbf = ctx.mod('rbf')
        kw = dict(p=ctx.num(2))
        ref = rbf.Rbf(P, zz, rbf=what[4:], **kw)
    I = num.Interpol2D(P, zz, what=what, **kw)
    ctx.eq(I(p), ref(p), 'values')
    one = I(p[0])
    if what == 'poly':
        ctx.eq(I(p, der=0), ref(p), 'options of a call')
        ctx.raises(Exception, lambda: I(p, foo=1), 'options of a call')
    ctx.check(one.shape == (1,), 'one point')
    ctx.eq(one, ref(p)[:1], 'one point')
    J = num.Interpol2D(xx=P[:, 0], yy=P[:, 1], values=zz, what=what, **kw)
    ctx.eq(J(p), ref(p), 'values, from xx and yy')


def inner(ctx, n):
    num = ctx.mod('num')
    x = ctx.reals('x', (n,), -9, 9)
    bad = ctx.idx('unordered', 0, n - 1)
    for i in range(n - 1):
        if i + 1 == bad:
            ctx.assume(x[i + 1] < x[i])
        else:
            ctx.assume(x[i + 1] >= x[i])
    f = lambda: num.inner_points_mask(x[:, None])
    if bad:
        ctx.raises(AssertionError, f, 'not ordered')
        return
    m = f()
    ctx.check([bool(v) for v in m] == [0 < i < n - 1 for i in range(n)],
              'inner points')


def cases(tier):
    r = []
    for form in ('x', 'X', 'xx', 'XY', 'all'):
        for z in (None, 'Z', 'zz', 'both'):
            for nx, ny in ((2, 3), (4, 2)) if z else ((3, 3),):
                r.append(Case('%s %s %ix%i' % (form, z, nx, ny), data, dict(
                    nx=nx, ny=ny, form=form, z=z)))
    r.append(Case('one point', data, dict(nx=1, ny=1, form='xx', z='zz')))
    for form2 in (None, 'x', 'X', 'xx', 'XY', 'all'):
        for z2 in (None, 'Z', 'zz', 'both'):
            for i, (form, z) in enumerate((('x', 'Z'), ('XY', 'zz'),
                                           ('X', None))):
                if form2 or z2:
                    r.append(Case(
                        'update %s %s with %s %s' % (form, z, form2, z2),
                        update, dict(form=form, z=z, form2=form2, z2=z2,
                                     n2=bool(z2 or not z) and i % 2 == 0)))
    r.append(Case('one axis', partly))
    for n in (2, 3, 6):
        r.append(Case('colors %i' % n, colors, dict(n=n)))
    for what in ('ct', 'linear', 'nearest', 'bispl'):
        for given in ('points', 'xx', 'dd'):
            r.append(Case('%s from %s' % (what, given), inter, dict(
                what=what, given=given)))
    r.append(Case('refused', wrong))
    for what in ('poly', 'rbf_multi', 'rbf_inv_multi', 'rbf_gauss'):
        r.append(Case('interpolate %s' % what, direct, dict(what=what)))
    for n in (2, 3, 5):
        r.append(Case('inner points %i' % n, inner, dict(n=n)))
    r.append(Case('many points', data, dict(nx=11, ny=2, form='xx',
                                              z='zz')))
    r.append(Case('many points, grid', data, dict(nx=3, ny=11, form='X',
                                                    z='Z')))
    r.append(Case('colors 12', colors, dict(n=12)))
    r += rescaled(
        r,
        ('inner points 3', dict(x=1e-07)),
        ('x both 4x2', dict(z=1e-09)),
        ('interpolate poly', dict(z=1e-09)))
    return r
