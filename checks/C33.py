"""rbf: radial basis function models, fit errors, hyper-parameter search"""
import warnings

from symx.run import Case, rescaled

META = {
    'title': 'RBF models solve their linear system; derivatives and errors '
    'fit the model',
    'statement': 'For the gauss, multi and inv_multi functions (by name or '
    'as callable) and any user function the weights of Rbf solve (G + r I) w '
    '= z with G_ij = rbf(|x_i - x_j|^2, p): for r=0 and r=None the model '
    'passes through every data point, for r > 0 the residual at data point i '
    'is r w_i. predict is the weighted sum of the functions around all '
    'centers, at training points as anywhere else, and deriv is its gradient '
    '(rows: points, columns: coordinates); a single point gives a scalar or '
    'vector with the entries a batch has; der other than 1 and points of '
    'another dimension are refused; all-zero values give a zero model. The '
    'model is independent of the order of the data points, keeps its inputs '
    'as they are, and p is the given number, the mean of all pair distances '
    '("mean") or (product of the nonzero edges of the bounding box / number '
    'of points)^(1/number of edges) ("scipy"), as estimate_p. fit_error is '
    'the mean squared error, and exp of it for negative p. FitError gives '
    'it for [p] or [p, r] with the remaining options of rbf_kwds, directly '
    'or for each split of the cross-validation (trained without the test '
    'points) and their mean, and refuses contradicting options. fit_opt '
    'minimises this error with the chosen optimizer, passes on bounds, start '
    'and other options, leaves the options of the caller alone and returns '
    'the model of the optimum trained on all points.',
    'forall': 'all data points, values, weights, evaluation points, p, r '
    'within the bounds',
    'why': 'tests interpolate sin and cos on fixed grids with loose '
    'tolerances and only run the optimizers; a wrong weight, row, split or '
    'option goes unnoticed',
    'files': ['src/pwtools/rbf/core.py', 'src/pwtools/rbf/hyperopt.py'],
    'mech': ['rbf.core.Rbf.fit', 'rbf.core.Rbf.predict',
             'rbf.core.Rbf.deriv', 'rbf.core.Rbf.get_distsq',
             'rbf.core.Rbf.fit_error', 'rbf.core.estimate_p',
             'rbf.core.squared_dists', 'rbf.hyperopt.FitError.cv',
             'rbf.hyperopt.FitError.err_cv',
             'rbf.hyperopt.FitError.err_direct', 'rbf.hyperopt.fit_opt'],
}
BOUNDS = {'quick': 'models with 2 to 3 data points (fit) or 4 (predict, '
          'deriv) in 1 to 3 dimensions, p 0.5 to 2, r 0.1 to 2; '
          'cross-validation of 4 points in 2 to 3 splits; '
          'some cases in other units (factors in their names)',
          'thorough': '5 centers, 3 evaluation points'}
OUTSIDE = ('jax mode; rounding of the linear solvers (they enter as exact '
           'solutions of the system they are given) and singular systems; '
           'the optimizers themselves (replaced by one which evaluates the '
           'error at chosen parameters and returns chosen ones)')

KINDS = ['gauss', 'multi', 'inv_multi']


def phi(ctx, kind, s, p):
    if kind == 'gauss':
        return ctx.np.exp(-s / (2 * p * p))
    if kind == 'user':
        return p + s
    r = ctx.np.sqrt(s + p * p)
    return r if kind == 'multi' else 1 / r


def d2(a, b):
    return sum((x - y)**2 for x, y in zip(a, b))


def user(rsq, p):
    return p + rsq


def pts(ctx, n, dim, name='X'):
    """separate points"""
    r = []
    for i in range(n):
        r.append([ctx.real('%s%i_%i' % (name, i, j), 2 * i + 0.3 * j,
                           2 * i + 1 + 0.3 * j) for j in range(dim)])
    return ctx.arr(r)


def fit(ctx, kind, n, dim, r):
    R = ctx.mod('rbf.core')
    ctx.lazy_extrema()
    np = ctx.np
    X = pts(ctx, n, dim)
    z = ctx.reals('z', (n,), 1, 4)
    p = ctx.real('p', 0.5, 2)
    rr = ctx.real('r', 0.1, 2) if r == 'r' else r
    X0, z0 = X.copy(), z.copy()
    name = {'user': user}.get(kind, kind)
    way = ctx.choice('way', ['plain', 'callable', 'late'] if n == 2 else [
        'late'])
    if way == 'callable' and kind != 'user':
        name = R.rbf_dct[kind]
    kw = dict(rbf=name, p=p)
    if r != 0 or way == 'late':
        kw['r'] = rr
    try:
        if way == 'late':
            f = R.Rbf(X, z, fit=False, **kw)
            ctx.check(not hasattr(f, 'w'), 'fit=False')
            f.fit()
        else:
            f = R.Rbf(X, z, **kw)
    except np.linalg.LinAlgError:
        return                             # singular
    G = [[phi(ctx, kind, d2(X[i], X[j]), p) for j in range(n)]
         for i in range(n)]
    w = f.w
    ctx.check(tuple(w.shape) == (n,), 'shape of w')
    reg = rr or 0
    for i in range(n):
        ctx.eq(sum(G[i][j] * w[j] for j in range(n)) + reg * w[i], z[i],
               'weights')
    got = f(X)
    ctx.check(tuple(got.shape) == (n,), 'shape')
    ctx.eq(got, [z[i] - reg * w[i] for i in range(n)], 'at the data points')
    ctx.eq(f.get_params()[0], p, 'p')
    ctx.check(f.get_params()[1] is None if rr is None else True, 'r')
    if rr is not None:
        ctx.eq(f.get_params()[1], rr, 'r')
    ctx.eq(X, X0, 'points kept')
    ctx.eq(z, z0, 'values kept')
    # error at data points
    ctx.eq(f.fit_error(X, z), sum((reg * w[i])**2 for i in range(n)) / n,
           'fit error')
    if n > 2:
        return
    # order of the points does not matter
    o = list(range(n))[::-1]
    g = R.Rbf(X[o], z[o], **kw)
    ctx.eq(g.w, w[o], 'other order')


def small(ctx, kind, lo, hi, neg):
    """any r but 0 counts, even one far below the matrix elements"""
    R = ctx.mod('rbf.core')
    ctx.lazy_extrema()
    X = ctx.arr([[0.0], [1.5]])
    z = ctx.reals('z', (2,), 1, 4)
    p = ctx.real('p', 0.5, 2)
    r = ctx.real('r', lo, hi)
    if neg:
        r = -r
    f = R.Rbf(X, z, rbf={'user': user}.get(kind, kind), p=p, r=r)
    G = [[phi(ctx, kind, d2(a, b), p) for b in X] for a in X]
    for i in range(2):
        ctx.eq((z[i] - sum(G[i][j] * f.w[j] for j in range(2))) / r, f.w[i],
               'regularization', tol=1e-3, atol=1e-3)


def model(ctx, kind, n, dim, neg=False):
    """a model with given weights"""
    R = ctx.mod('rbf.core')
    X = pts(ctx, n, dim)
    p = ctx.real('p', -2, -0.5) if neg else ctx.real('p', 0.5, 2)
    f = R.Rbf(X, ctx.arr([1.0 + i for i in range(n)]), p=p, fit=False,
              rbf={'user': user}.get(kind, kind))
    f.w = ctx.reals('w', (n,), 0.5, 4)
    sg = ctx.arr([(-1.0)**i for i in range(n)])
    if ctx.choice('signs', [False, True]):
        f.w = f.w * sg
    return f, X, f.w, p


def predict(ctx, kind, n, dim, L):
    ctx.lazy_extrema()
    f, X, w, p = model(ctx, kind, n, dim)
    Y = ctx.reals('y', (L, dim), -1, 4)
    if ctx.choice('hit', [False, True]):
        Y[L - 1] = X[0]
    ref = [sum(w[j] * phi(ctx, kind, d2(Y[i], X[j]), p) for j in range(n))
           for i in range(L)]
    Y0 = Y.copy()
    w0 = w.copy()
    got = f(Y)
    ctx.check(tuple(got.shape) == (L,), 'shape')
    ctx.eq(got, ref, 'values')
    ctx.eq(f.predict(Y), ref, 'predict')
    one = f(Y[L - 1])
    ctx.check(ctx.np.shape(one) == (), 'scalar')
    ctx.eq(one, ref[L - 1], 'single point')
    row = f(Y[:1])
    ctx.check(tuple(row.shape) == (1,), 'shape of one row')
    ctx.eq(row, ref[:1], 'one row')
    ctx.eq(Y, Y0, 'points kept')
    ctx.eq(f.w, w0, 'weights kept')
    ctx.raises(AssertionError, lambda: f(ctx.reals('q', (2, dim + 1), 0, 1)),
               'other dimension')
    ctx.raises(AssertionError, lambda: f(ctx.reals('q', (dim + 1,), 0, 1)),
               'other dimension')
    D = f.get_distsq(Y)
    ctx.check(tuple(D.shape) == (L, n), 'shape of the distances')
    for i in range(L):
        for j in range(n):
            ctx.eq(D[i, j], d2(Y[i], X[j]), 'squared distance')
    D = f.get_distsq()
    for i in range(n):
        for j in range(n):
            ctx.eq(D[i, j], d2(X[i], X[j]), 'squared distance of data')


def deriv(ctx, kind, n, dim, L):
    ctx.lazy_extrema()
    f, X, w, p = model(ctx, kind, n, dim)
    y = [[ctx.real('y%i_%i' % (i, k), 0.2, 3) for k in range(dim)]
         for i in range(L)]
    Y = ctx.arr(y)
    got = f(Y, der=1)
    ctx.check(tuple(got.shape) == (L, dim), 'shape')
    for i in range(L):
        for k in range(dim):
            def part(t):
                v = list(y[i])
                v[k] = t
                return f(ctx.arr(v))
            ref = ctx.derivs(part, y[i][k])
            ctx.eq(got[i, k], ref, 'derivative', tol=1e-5, atol=1e-6)
    one = f(Y[L - 1], der=1)
    ctx.check(tuple(one.shape) == (dim,), 'shape of a gradient')
    ctx.eq(one, got[L - 1], 'single point')
    ctx.eq(f.deriv(Y), got, 'deriv')
    for der in (0, 2):
        ctx.raises(Exception, lambda: f(Y, der=der), 'der=%i' % der)
    ctx.raises(AssertionError, lambda: f.deriv(ctx.arr([[1.0] * (dim + 1)])),
               'other dimension')
    if kind == 'gauss':
        g = ctx.mod('rbf.core').Rbf(X, ctx.arr([1.0] * n), p=p, rbf=user,
                                    fit=False)
        g.w = w
        ctx.raises(AssertionError, lambda: g.deriv(Y), 'user function')


def zero(ctx, kind, n, dim):
    R = ctx.mod('rbf.core')
    X = pts(ctx, n, dim)
    f = R.Rbf(X, ctx.np.zeros(n), rbf=kind, p=ctx.real('p', 0.5, 2),
              r=ctx.choice('r', [1, 0.25]))
    Y = ctx.reals('y', (2, dim), -1, 4)
    for v in (f(Y), f(Y, der=1), f(Y[0]), f.fit_error(Y, ctx.np.zeros(2))):
        for u in ctx.np.asarray(v).ravel():
            ctx.check(ctx.fin(u), 'finite')
            ctx.eq(u, 0, 'zero')


def width(ctx, n, dim, how):
    """p from the points"""
    R = ctx.mod('rbf.core')
    X = pts(ctx, n, dim)
    flat = dim > 1 and how == 'scipy' and ctx.choice('flat', [False, True])
    if flat:
        X[:, 0] = 1.0
    f = R.Rbf(X, ctx.arr([1.0] * n), p=how, fit=False)
    if how == 'mean':
        ref = sum(ctx.np.sqrt(d2(X[i], X[j])) for i in range(n)
                  for j in range(n) if i != j) / (n * n)
        ctx.eq(f.p, ref, 'p')
        ctx.eq(R.estimate_p(X), ref, 'estimate_p')
        ctx.eq(R.estimate_p(X, method='mean'), ref, 'estimate_p')
        g = R.Rbf(X, ctx.arr([1.0] * n), fit=False)
        ctx.eq(g.p, ref, 'default')
        Y = ctx.reals('y', (2, dim), -1, 4)
        D = g.get_distsq(Y)
        for i in range(2):
            for j in range(n):
                ctx.eq(D[i, j], d2(Y[i], X[j]), 'distances to other points')
        D = g.get_distsq()
        for i in range(n):
            for j in range(n):
                ctx.eq(D[i, j], d2(X[i], X[j]), 'distances of the data')
    else:
        # points are ordered in every coordinate
        edges = [X[n - 1, k] - X[0, k] for k in range(dim)][flat:]
        prod = edges[0]
        for e in edges[1:]:
            prod = prod * e
        m = len(edges)
        for got in (f.p, R.estimate_p(X, method='scipy')):
            ctx.check(got > 0, 'positive')
            v = got
            for _ in range(m - 1):
                v = v * got
            ctx.eq(v, prod / n, 'p')
    ctx.raises(ValueError, lambda: R.Rbf(X, ctx.arr([1.0] * n), p='foo'),
               'unknown')
    ctx.raises(Exception, lambda: R.estimate_p(X, method='foo'), 'unknown')
    ctx.raises(AssertionError, lambda: R.Rbf(X, ctx.arr([1.0] * (n + 1)),
                                             p=1), 'lengths')
    ctx.raises(AssertionError, lambda: R.Rbf(X[:, 0], ctx.arr([1.0] * n),
                                             p=1), '1d points')
    ctx.raises(AssertionError, lambda: R.Rbf(X, X, p=1), '2d values')


def error(ctx, kind, n, dim, neg):
    if not neg:
        ctx.lazy_extrema()
    f, X, w, p = model(ctx, kind, n, dim, neg)
    L = 1 if neg else 2
    Y = ctx.reals('y', (L, dim), 0, 1)
    z = ctx.reals('z', (L,), -1, 1)
    if neg:
        Y = X[:1]
    v = [sum(w[j] * phi(ctx, kind, d2(Y[i], X[j]), p) for j in range(n))
         for i in range(L)]
    ms = sum((z[i] - v[i])**2 for i in range(L)) / L
    if neg:
        ctx.assume(ms > 0.01)
    ctx.eq(f.fit_error(Y, z), ctx.np.exp(ms) if neg else ms, 'fit error')


def solve2(G, z, r):
    """weights of two points"""
    a, b, c, d = G[0][0] + r, G[0][1], G[1][0], G[1][1] + r
    D = a * d - b * c
    return [(d * z[0] - b * z[1]) / D, (a * z[1] - c * z[0]) / D]


class Split:
    def __init__(self, np, sp):
        self.sp = [(np.array(a), np.array(b)) for a, b in sp]
        self.seen = []

    def get_n_splits(self, X=None, y=None, groups=None):
        return len(self.sp)

    def split(self, X, y=None, groups=None):
        self.seen.append(len(X))
        return iter(self.sp)


SPLITS = [[([0, 1], [2, 3]), ([2, 3], [0, 1])],
          [([1, 3], [0, 2]), ([0, 3], [1]), ([2, 0], [3, 1])],
          [([3, 2], [1, 0, 3])]]


def ms(ctx, kind, X, z, tr, te, p, r):
    """mean squared error at te of the model of the two points tr"""
    G = [[phi(ctx, kind, d2(X[i], X[j]), p) for j in tr] for i in tr]
    w = solve2(G, [z[i] for i in tr], r)
    s = 0
    for i in te:
        v = sum(w[k] * phi(ctx, kind, d2(X[i], X[j]), p)
                for k, j in enumerate(tr))
        s = s + (z[i] - v)**2
    return s / len(te)


def cv(ctx, kind, which, npar):
    R = ctx.mod('rbf.core')
    H = ctx.mod('rbf.hyperopt')
    ctx.lazy_extrema()
    X = ctx.arr([[0.0], [1.0], [2.0], [4.0]])
    z = ctx.reals('z', (4,), 1, 4)
    p = ctx.real('p', 0.5, 2)
    r = ctx.real('r', 0.1, 2)
    kw = dict(rbf=user if kind == 'user' else kind)
    if npar == 1:
        kw['r'] = r
    par = [p, r][:npar]
    if ctx.choice('as', ['list', 'array']) == 'array':
        par = ctx.arr(par)
    kw0 = dict(kw)
    sp = SPLITS[which]
    obj = Split(ctx.np, sp)
    fe = H.FitError(X, z, rbf_kwds=kw, cv=obj)
    ref = [ms(ctx, kind, X, z, tr, te, p, r) for tr, te in sp]
    got = fe.cv(par)
    ctx.check(tuple(got.shape) == (len(sp),), 'one error for each split')
    ctx.eq(got, ref, 'errors')
    ctx.eq(fe.err_cv(par), sum(ref) / len(ref), 'mean error')
    ctx.eq(fe(par), sum(ref) / len(ref), 'call')
    ctx.check(obj.seen == [4] * 3, 'splits of all points')
    ctx.check(kw == kw0, 'options kept')
    # direct
    two = [0, 2]
    fd = H.FitError(X[two], z[two], rbf_kwds=kw, cv=None)
    ref = ms(ctx, kind, X, z, two, two, p, r)
    ctx.eq(fd(par), ref, 'direct call')
    ctx.eq(fd.err_direct(par), ref, 'direct')
    fc = H.FitError(X[two], z[two], rbf_kwds=kw, cv=obj)
    ctx.eq(fc.err_direct(par), ref, 'direct although cv is given')
    ctx.raises(Exception, lambda: fd([p, r, 1.0]), 'three parameters')
    ctx.raises(Exception, lambda: fd([]), 'no parameters')
    ctx.raises(AssertionError, lambda: H.FitError(
        X, z, rbf_kwds=dict(p=1.0), cv=None)([p]), 'p twice')
    ctx.raises(AssertionError, lambda: H.FitError(
        X, z, rbf_kwds=dict(r=1.0), cv=None)([p, r]), 'r twice')
    ctx.raises(AssertionError, lambda: H.FitError(
        X, z, rbf_kwds=dict(p=1.0), cv=None)([p, r]), 'p twice')


def kfold(ctx, old):
    """the default cross-validation"""
    H = ctx.mod('rbf.hyperopt')
    ctx.lazy_extrema()
    from sklearn.model_selection import RepeatedKFold
    X = ctx.arr([[0.0], [1.0], [2.0], [4.0]])
    z = ctx.reals('z', (4,), 1, 4)
    p = ctx.real('p', 0.5, 2)
    r = ctx.real('r', 0.1, 2)
    c = dict(n_splits=2, n_repeats=2, random_state=5)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fe = H.FitError(X, z, rbf_kwds=dict(rbf='gauss'), **(
            dict(cv_kwds=c) if old else dict(cv=c)))
    import numpy
    sp = [(list(map(int, a)), list(map(int, b))) for a, b in
          RepeatedKFold(**c).split(numpy.zeros((4, 1)))]
    ref = [ms(ctx, 'gauss', X, z, tr, te, p, r) for tr, te in sp]
    got = fe.cv([p, r])
    ctx.check(tuple(got.shape) == (4,), 'one error for each split')
    ctx.eq(got, ref, 'errors')
    ctx.eq(fe([p, r]), sum(ref) / 4, 'mean')


class Opt:
    """stands for scipy.optimize: evaluates the error and returns x"""

    def __init__(self, ctx, at, x):
        self.ctx, self.at, self.x = ctx, at, x
        self.log = []

    def _do(self, name, f, kw):
        self.log.append((name, f(self.at), kw))

    def fmin(self, f, x0, **kw):
        self._do('fmin', f, dict(kw, x0=x0))
        return self.ctx.arr(self.x)

    def brute(self, f, ranges, **kw):
        self._do('brute', f, dict(kw, ranges=ranges))
        if kw.get('finish', 1) is None and len(self.x) == 1:
            return self.x[0]
        return self.ctx.arr(self.x)

    def differential_evolution(self, f, bounds, **kw):
        self._do('de', f, dict(kw, bounds=bounds))

        class Res:
            x = self.ctx.arr(self.x)
        return Res


def opt(ctx, method, what):
    H = ctx.mod('rbf.hyperopt')
    R = ctx.mod('rbf.core')
    ctx.lazy_extrema()
    kind = 'gauss'
    X = ctx.arr([[0.0], [1.0], [2.0], [4.0]])
    use_cv = ctx.choice('cv', [False, True])
    if not use_cv:
        X = X[:2]
    n = len(X)
    z = ctx.reals('z', (4,), 1, 4)[:n]
    a = [ctx.real('pa', 0.5, 2), ctx.real('ra', 0.1, 2)]
    b = [ctx.real('pb', 0.5, 2), ctx.real('rb', 0.1, 2)]
    m = len(what)
    st = Opt(ctx, a[:m], b[:m])
    kw = dict(rbf=kind)
    if m == 1:
        kw['r'] = a[1]
        b[1] = a[1]
    kw0 = dict(kw)
    given = ctx.choice('given', [False, True])
    ok = {'disp': True, 'maxiter': 7} if given else {}
    lim = [(0.1, 3), (1e-3, 1)][:m]
    key = {'fmin': 'x0', 'de': 'bounds', 'brute': 'ranges'}[method]
    if given:
        ok[key] = [1.5, 0.25][:m] if method == 'fmin' else lim
    if method == 'brute' and ctx.choice('finish', [False, True]):
        ok['finish'] = None
    ok0 = dict(ok)
    sp = SPLITS[0]
    with ctx.stand({'scipy.optimize.' + k: getattr(st, k) for k in (
            'fmin', 'brute', 'differential_evolution')}):
        for rep in range(2):
            f = H.fit_opt(X, z, method=method, what=what, rbf_kwds=kw,
                          cv=Split(ctx.np, sp) if use_cv else None,
                          **({'opt_kwds': ok} if ok or rep else {}))
            name, err, got = st.log[rep]
            ctx.check(name == method, 'optimizer')
            if use_cv:
                ref = [ms(ctx, kind, X, z, tr, te, *a) for tr, te in sp]
                ref = sum(ref) / len(ref)
            else:
                ref = ms(ctx, kind, X, z, [0, 1], [0, 1], *a)
            ctx.eq(err, ref, 'error which is minimised')
            want = dict(ok0)
            start = want.pop(key, None)
            have = dict(got)
            s = have.pop(key)
            ctx.check(have == dict(want, disp=want.get('disp', False)),
                      'options')
            ctx.check(len(s) == m, 'number of parameters')
            if start is not None:
                ctx.check(s == start, 'start or bounds')
            else:
                p0 = R.estimate_p(X)
                if method == 'fmin':
                    ctx.eq(s[0], p0, 'start')
                else:
                    ctx.check(0 < s[0][0], 'bounds')
                    ctx.check(s[0][0] < p0 / 10, 'bounds')
                    ctx.eq(s[0][1], 5 * p0, 'bounds')
                if m == 2:
                    ctx.check(s[1] == (1e-8 if method == 'fmin' else
                                       (1e-12, 1e-1)), 'range of r')
            ctx.check(ok == ok0, 'options of the caller')
            ctx.check(kw == kw0, 'model options of the caller')
            ctx.eq(f.p, b[0], 'p')
            ctx.eq(f.r, b[1], 'r')
            ctx.check(f.rbf is R.rbf_dct[kind], 'rbf')
            ctx.check(tuple(f.w.shape) == (n,), 'trained on all points')
            for i in range(n):
                ctx.eq(sum(phi(ctx, kind, d2(X[i], X[j]), b[0]) * f.w[j]
                           for j in range(n)) + b[1] * f.w[i], z[i],
                       'weights')
    kind = dict(method=method, what=what)
    ctx.raises(AssertionError, lambda: H.fit_opt(
        X, z, **dict(kind, rbf_kwds=dict(p=1))), 'p fixed')
    if m == 2:
        ctx.raises(AssertionError, lambda: H.fit_opt(
            X, z, **dict(kind, rbf_kwds=dict(r=1))), 'r fixed')
    ctx.raises(AssertionError, lambda: H.fit_opt(
        X, z, **dict(kind, what='rp')), 'what')
    ctx.raises(AssertionError, lambda: H.fit_opt(
        X, z, **dict(kind, method='foo')), 'method')


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for kind in KINDS + ['user']:
        for n, dim in ((2, 2), (3, 1)):
            for r in (0, 'r', None):
                if n == 3 and kind == 'inv_multi' or r != 'r' and \
                        kind == 'user':
                    continue
                cs.append(Case('fit %s %i %i %s' % (kind, n, dim, r), fit,
                               dict(kind=kind, n=n, dim=dim, r=r)))
        for n, dim, L in ((4, 1, 2), (3, 3, 2)) + (((5, 3, 3),) * T):
            cs.append(Case('predict %s %i %i %i' % (kind, n, dim, L),
                           predict, dict(kind=kind, n=n, dim=dim, L=L)))
        for n, dim, L in ((3, 1, 2), (2, 2, 1)) + (((4, 3, 2),) * T):
            if kind != 'user':
                cs.append(Case('deriv %s %i %i %i' % (kind, n, dim, L),
                               deriv, dict(kind=kind, n=n, dim=dim, L=L)))
        for neg in (False, True):
            cs.append(Case('error %s %s' % (kind, neg), error, dict(
                kind=kind, n=2 - neg, dim=2 - neg, neg=neg)))
        if kind != 'inv_multi':
            for w in range(3)[::2 if kind == 'gauss' else 1]:
                cs.append(Case('cv %s %i' % (kind, w), cv, dict(
                    kind=kind, which=w, npar=1 + w % 2)))
    for old in (False, True):
        cs.append(Case('kfold %s' % old, kfold, dict(old=old)))
    for kind in KINDS:
        cs.append(Case('zero %s' % kind, zero, dict(kind=kind, n=2, dim=2)))
    for n, dim in ((2, 1), (3, 2), (2, 3)):
        for how in ('mean', 'scipy'):
            cs.append(Case('width %i %i %s' % (n, dim, how), width, dict(
                n=n, dim=dim, how=how)))
    for method in ('fmin', 'de', 'brute'):
        for what in ('p', 'pr'):
            cs.append(Case('opt %s %s' % (method, what), opt, dict(
                method=method, what=what)))
    for kind, lo, hi, neg in (
            ('user', 1e-9, 1e-8, False), ('user', 1e-11, 1e-10, False),
            ('multi', 1e-10, 1e-9, False), ('gauss', 1e-7, 1e-6, False),
            ('user', 0.01, 0.1, True)):
        cs.append(Case('small r %s %g %s' % (kind, lo, neg), small, dict(
            kind=kind, lo=lo, hi=hi, neg=neg)))
    cs += [Case('predict integers', predict, dict(
                kind='gauss', n=4, dim=1, L=2), ints=('w', 'y')),
            Case('deriv integers', deriv, dict(
                kind='gauss', n=3, dim=1, L=2), ints=('y',)),
            Case('fit integers', fit, dict(
                kind='multi', n=2, dim=2, r='r'), ints=('z',))]
    cs += rescaled(
        cs,
        ('fit gauss 2 2 0', dict(z=1e-09)),
        ('fit multi 3 1 r', dict(z=1e+06)),
        ('predict user 3 3 2', dict(w=1e-09)),
        ('error gauss False', dict(z=1e-06)))
    return cs
