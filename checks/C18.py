"""Autocorrelation: signal.acorr, pydos.pyvacf, fvacf, flib vacf/acorr"""
from symx.run import Case, rescaled

META = {
    'title': 'Autocorrelation functions agree with their definition',
    'statement': 'Every implementation (Python loops, numpy, Fortran, FFT) '
    'of the autocorrelation of a signal returns at lag t the sum of '
    'v(j) v(j+t) over all j with j+t inside the signal, without wrap-around, '
    'divided by the zero-lag value when normalized. The velocity '
    'autocorrelation of all atoms, from each Python and Fortran method, is '
    'the sum over atoms and directions, weighted with the mass if given, '
    'normalized to 1 at lag 0, whatever number of threads is requested. '
    'Inputs are left untouched and repeated calls agree.',
    'forall': 'all real signals, velocities and positive masses',
    'why': 'tests compare the methods with each other on random data; all of '
    'them must equal the definition for every signal and length',
    'files': ['src/pwtools/signal.py', 'src/pwtools/pydos.py',
              'src/_ext_src/flib.f90'],
    'mech': ['acorr @ signal.py:acorr, flib.f90:acorr',
             'vacf @ pydos.py:pyvacf, fvacf; flib.f90:vacf, vect_loops'],
}
BOUNDS = {'quick': 'signals of 1-8 samples (FFT method: 1-6), velocities of '
          '1-5 steps and 1-3 atoms; all real values'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'longer signals (uniform loops); C06-style OpenMP schedules are C21'


def ref(v):
    n = len(v)
    return [sum(v[j] * v[j + t] for j in range(n - t)) for t in range(n)]


def acorr(ctx, n, method):
    sig = ctx.mod('signal')
    v = ctx.reals('v', (n,), -3, 3)
    v0 = v.copy()
    c = ref(v0)
    ctx.assume(c[0] > 0.01 * ctx.unit('v')**2)
    kw = {} if method is None else dict(method=method)
    r = sig.acorr(v, norm=False, **kw)
    ctx.check(r.shape == (n,), 'shape')
    ctx.eq(r, c, 'unnormalized', atol=1e-8)
    ctx.eq(v, v0, 'input kept')
    r = sig.acorr(v, **kw)
    ctx.check(r.shape == (n,), 'shape')
    ctx.eq(r, [x / c[0] for x in c], 'normalized', atol=1e-6)
    ctx.eq(v, v0, 'input kept')


def unknown(ctx):
    sig, pd = ctx.mod('signal'), ctx.mod('pydos')
    v = ctx.reals('v', (3,), 1, 3)
    for m in (0, 8, -1):
        ctx.raises(ValueError, lambda: sig.acorr(v, method=m), 'method')
    w = ctx.reals('w', (2, 1, 3), 1, 2)
    ctx.raises(ValueError, lambda: pd.pyvacf(w, method=4), 'method')
    ctx.raises(AssertionError, lambda: pd.fvacf(w[..., :2]), 'last axis')


def vacf(ctx, nt, na, mass):
    pd = ctx.mod('pydos')
    v = ctx.reals('v', (nt, na, 3), -3, 3)
    v0 = v.copy()
    m = ctx.reals('m', (na,), 0.5, 4) if mass else None
    w = [m[i] if mass else 1 for i in range(na)]
    if mass:
        m0 = m.copy()
    c = [sum(w[i] * v0[j, i, k] * v0[j + t, i, k] for i in range(na)
             for k in range(3) for j in range(nt - t)) for t in range(nt)]
    ctx.assume(c[0] > 0.1 * ctx.unit('v')**2 * ctx.unit('m'))
    c = [x / c[0] for x in c]
    for q, kw in ((pd.pyvacf, {}), (pd.pyvacf, {'method': 1}),
                  (pd.pyvacf, {'method': 2}), (pd.pyvacf, {'method': 3}),
                  (pd.fvacf, {}), (pd.fvacf, {'method': 1}),
                  (pd.fvacf, {'method': 2}),
                  (pd.fvacf, {'method': 1, 'nthreads': 1}),
                  (pd.fvacf, {'method': 2, 'nthreads': 2})):
        for k in range(2):
            r = q(v, m, **kw) if k else q(v, m=m, **kw)
            lab = '%s %s' % (q.__name__, kw)
            ctx.check(r.shape == (nt,), lab + ' shape')
            ctx.eq(r, c, lab, atol=1e-7)
            ctx.eq(v, v0, 'velocities kept')
            if mass:
                ctx.eq(m, m0, 'masses kept')


def cases(tier):
    out = []
    for n in range(1, 9):
        for m in (None, 1, 2, 3, 4, 5, 6):
            if m is None and n not in (1, 2, 3, 4, 5, 6):
                continue
            out.append(Case('acorr n=%i method=%s' % (n, m), acorr,
                            dict(n=n, method=m)))
    for nt, na in ((1, 1), (2, 1), (2, 3), (3, 2), (4, 1), (4, 2), (5, 1)):
        for mass in (False, True):
            out.append(Case('vacf nt=%i na=%i mass=%i' % (nt, na, mass),
                            vacf, dict(nt=nt, na=na, mass=mass)))
    out.append(Case('refused', unknown))
    out += [Case('acorr integers %s' % m, acorr, dict(n=4, method=m),
                 ints=('v',)) for m in (None, 1, 2, 3, 4, 5, 6)]
    out += [Case('vacf integers %i' % m, vacf, dict(nt=3, na=2, mass=bool(m)),
                 ints=('v', 'm')) for m in (0, 1)]
    out += [Case('acorr many %s' % m, acorr, dict(n=13, method=m))
            for m in (1, 2, 3, 4, 5)]
    out += [Case('vacf many', vacf, dict(nt=11, na=2, mass=True)),
            Case('vacf many atoms', vacf, dict(nt=3, na=11, mass=True))]
    out += rescaled(
        out,
        ('acorr n=5 method=3', dict(v=1e-06)),
        ('acorr n=5 method=4', dict(v=1e-06)),
        ('acorr n=5 method=6', dict(v=1e+06)),
        ('vacf nt=3 na=2 mass=1', dict(v=1e-06)),
        ('vacf nt=3 na=2 mass=1', dict(m=1e-20)))
    return out
