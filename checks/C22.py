"""thermo: HarmonicThermo, debye_func, einstein_func, expansion"""
from symx.run import Case, rescaled

META = {
    'title': 'Harmonic thermodynamics follows the oscillator formulas',
    'statement': 'For a phonon density of states the vibrational energy and '
    'free energy (eV), entropy and heat capacity (kb) are the integrals over '
    'frequency of the quantum oscillator expressions weighted with the DOS, '
    'for every temperature: F = E - T S, S = -dF/dT and Cv = dE/dT hold '
    'between them, temperatures given to the method override those of the '
    'object (none at all is an error), short and long method names agree and '
    'the DOS and frequencies passed in are not modified. Skipping of '
    'frequencies below a threshold drops exactly those points, '
    'renormalization scales the DOS (after skipping) to the wanted area, and '
    'a user-supplied integrator is used for all of it. Einstein and Debye '
    'functions and the expansion model built on them follow their '
    'definitions.',
    'forall': 'all frequencies, DOS values, temperatures, thresholds and '
    'areas',
    'why': 'tests compare one DOS with one reference file; unit factors, '
    'masks and identities between the quantities are relations over all '
    'inputs',
    'files': ['src/pwtools/thermo.py'],
    'mech': ['E, F, S, Cv @ thermo.py:HarmonicThermo',
             'skip, area @ thermo.py:HarmonicThermo.__init__, _norm_int',
             'Einstein, Debye @ thermo.py:einstein_func, debye_func, '
             'expansion'],
}
BOUNDS = {'quick': '2-4 DOS points, 1-2 temperatures; Debye integral with '
          '3-5 points'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = ('NaN handling by fixnan, T = 0, frequencies of exactly zero '
           'without skipfreq, convergence of the integral with the number '
           'of points')

NAMES = {'E': ('evib', 'vibrational_internal_energy'),
         'F': ('fvib', 'vibrational_free_energy'),
         'S': ('svib', 'vibrational_entropy'),
         'C': ('cv', 'isochoric_heat_capacity')}


def thermo(ctx):
    """the constants as exact rationals, so that products and quotients of
    them carry no rounding"""
    th = ctx.mod('thermo')
    if ctx.symbolic:
        for n in ('kb', 'hplanck', 'c0', 'eV', 'eV_by_Ang3_to_GPa'):
            if hasattr(th, n):
                setattr(th, n, ctx.num(getattr(th, n)))
    return th


def trap(y, x):
    s = 0
    for i in range(len(x) - 1):
        s = s + (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2
    return s


def constants(ctx):
    """the package's own constants; their values are decided by C11"""
    k = ctx.mod('constants')
    return (ctx.num(k.hplanck) * ctx.num(k.c0) * 100, ctx.num(k.kb),
            ctx.num(k.eV))


def dens(ctx, what, f, T):
    """integrand and unit factor, written with exp(-x) and log(1 - exp(-x))"""
    h, kb, eV = constants(ctx)
    x = h * f / (kb * T)
    e = ctx.np.exp(-x)
    if what == 'E':
        return h * f / 2 + h * f * e / (1 - e), 1 / eV
    if what == 'F':
        return h * f / 2 + kb * T * ctx.np.log(1 - e), 1 / eV
    if what == 'S':
        return x * e / (1 - e) - ctx.np.log(1 - e), 1
    return x**2 * e / (1 - e)**2, 1


def ref(ctx, what, f, dos, T, integ=trap):
    out = []
    for t in T:
        y = [dens(ctx, what, a, t)[0] * b for a, b in zip(f, dos)]
        out.append(integ(y, f) * dens(ctx, what, f[0], t)[1])
    return out


def freqs(ctx, n, lo=10):
    f = [ctx.real('f0', lo, lo + 500)]
    for i in range(1, n):
        f.append(f[-1] + ctx.real('df%i' % i, 5, 500))
    return ctx.arr(f)


def formulas(ctx, what, n, nt, where, alias):
    th = thermo(ctx)
    f = freqs(ctx, n)
    d = ctx.reals('g', (n,), 0, 2)
    T = ctx.reals('T', (nt,), 50, 2000)
    f0, d0, t0 = f.copy(), d.copy(), T.copy()
    kw = {} if where == 'quiet' else {'verbose': False}
    if where == 'arg':
        ha = th.HarmonicThermo(f, d, **kw)
        r = getattr(ha, NAMES[what][alias])(T)
    elif where == 'override':
        ha = th.HarmonicThermo(f, d, T=ctx.reals('Told', (3,), 50, 2000),
                               **kw)
        r = getattr(ha, NAMES[what][alias])(temp=T)
    elif where == 'temp':
        ha = th.HarmonicThermo(f, d, temp=T, **kw)
        r = getattr(ha, NAMES[what][alias])()
    else:
        ha = th.HarmonicThermo(f, d, T, **kw)
        r = getattr(ha, NAMES[what][alias])()
    ctx.check(tuple(r.shape) == (nt,), 'shape')
    ctx.eq(r, ref(ctx, what, f0, d0, t0), 'value', tol=1e-7)
    # a second call gives the same
    if where == 'ctor':
        ctx.eq(getattr(ha, NAMES[what][1 - alias])(), r, 'other name')
    ctx.eq(f, f0, 'freq kept')
    ctx.eq(d, d0, 'dos kept')
    ctx.eq(T, t0, 'T kept')


def identity(ctx, n):
    th = thermo(ctx)
    k = ctx.mod('constants')
    f = freqs(ctx, n)
    d = ctx.reals('g', (n,), 0, 2)
    T = ctx.reals('T', (2,), 50, 2000)
    ha = th.HarmonicThermo(f, d, T=T, verbose=False)
    ctx.eq(ha.evib(), ha.fvib() + T * ha.svib() * (ctx.num(k.kb) / k.eV), 'E = F + TS',
           tol=1e-7)


def derivative(ctx, what, n):
    th = thermo(ctx)
    k = ctx.mod('constants')
    f = freqs(ctx, n)
    d = ctx.reals('g', (n,), 0.5, 2)
    T = ctx.reals('T', (1,), 200, 2000)
    ha = th.HarmonicThermo(f, d, T=T, verbose=False)
    if what == 'S':
        d1 = ctx.derivs(lambda t: ha.fvib(ctx.arr([t]))[0], T[0])
        ctx.eq(ha.svib()[0], -d1 * (ctx.num(k.eV) / k.kb), 'S = -dF/dT', tol=1e-4)
    else:
        d1 = ctx.derivs(lambda t: ha.evib(ctx.arr([t]))[0], T[0])
        ctx.eq(ha.cv()[0], d1 * (ctx.num(k.eV) / k.kb), 'Cv = dE/dT', tol=1e-4)


def skip(ctx, what, eps, verbose):
    th = thermo(ctx)
    n = 4
    f = [ctx.real('f0', -50, 50)]
    for i in range(1, n):
        f.append(f[-1] + ctx.real('df%i' % i, 5, 100))
    f = ctx.arr(f)
    e = 1.5 * 2.2204460492503131e-16
    kw = {}
    if eps:
        e = ctx.real('eps', 0.5, 60)
        kw['eps'] = e
    for v in f:
        ctx.assume((v - e > 1e-3) | (v - e < -1e-3))
        # a frequency of zero is left out below
    ctx.assume(f[2] - e > 1e-3)
    d = ctx.reals('g', (n,), 0.1, 2)
    T = ctx.reals('T', (1,), 200, 2000)
    f0, d0 = f.copy(), d.copy()
    ha = th.HarmonicThermo(f, d, T, skipfreq=True, verbose=verbose, **kw)
    r = getattr(ha, NAMES[what][0])()
    keep = [i for i in range(n) if f[i] > e]
    ctx.check(len(ha.f) == len(ha.dos) == len(keep), 'number of points')
    ctx.eq(ha.f, f0[keep], 'kept freq')
    ctx.eq(ha.dos, d0[keep], 'kept dos')
    ctx.eq(r, ref(ctx, what, f0[keep], d0[keep], T), 'value', tol=1e-7)
    ctx.eq(f, f0, 'freq kept')
    ctx.eq(d, d0, 'dos kept')


def area(ctx, what, skipf, neg):
    th = thermo(ctx)
    n = 3 + skipf
    ctx.lazy_extrema()
    f = freqs(ctx, n)
    lim = f[0] + 1
    d = ctx.reals('g', (n,), 0.1, 2)
    if neg:
        d[1] = -d[1] / 50
    a = ctx.real('area', 3, 30)
    T = ctx.reals('T', (1,), 200, 2000)
    f0, d0 = f.copy(), d.copy()
    if neg:
        ctx.assume(trap(d0[skipf:], f0[skipf:]) > ctx.unit('g'))
        ctx.assume(own(d0[skipf:], f0[skipf:]) > ctx.unit('g'))
    kw = {'skipfreq': True, 'eps': lim} if skipf else {}
    if neg == 'own':
        integ = own
        kw['integrator'] = own
    else:
        integ = trap
    ha = th.HarmonicThermo(f, d, T, verbose=False, dosarea=a, **kw)
    r = getattr(ha, NAMES[what][0])()
    if skipf:
        f0, d0 = f0[1:], d0[1:]
    tot = integ(list(d0), list(f0))
    ctx.eq(ha.dos, d0 * (a / tot), 'normalized dos', tol=1e-7)
    if what == 'C':
        ctx.eq(r, ref(ctx, what, f0, d0 * (a / tot), T, integ), 'value',
               tol=1e-7)
    ctx.eq(integ(list(ha.dos), list(ha.f)), a, 'area', tol=1e-7)
    ctx.eq(d, ctx.arr(list(d0)) if not skipf else d, 'dos kept')


def own(y, x, axis=-1):
    """left-sided rectangle rule"""
    if hasattr(y, 'ndim') and y.ndim == 2:
        return (y[:, :-1] * (x[1:] - x[:-1])).sum(axis=1)
    s = 0
    for i in range(len(x) - 1):
        s = s + y[i] * (x[i + 1] - x[i])
    return s


def integ(ctx, what):
    th = thermo(ctx)
    f = freqs(ctx, 3)
    d = ctx.reals('g', (3,), 0, 2)
    T = ctx.reals('T', (2,), 50, 2000)
    ha = th.HarmonicThermo(f, d, T, integrator=own, verbose=False)
    r = getattr(ha, NAMES[what][0])()
    ctx.eq(r, ref(ctx, what, f, d, T, own), 'value', tol=1e-7)


def errors(ctx):
    th = thermo(ctx)
    f = freqs(ctx, 2)
    d = ctx.reals('g', (2,), 0, 2)
    T = ctx.reals('T', (1,), 50, 2000)
    for nm in ('E', 'F', 'S', 'C'):
        ha = th.HarmonicThermo(f, d, verbose=False)
        for m in NAMES[nm]:
            ctx.raises(ValueError, getattr(ha, m), 'no temperature')
    ctx.raises(AssertionError, lambda: th.HarmonicThermo(f, d, T=T, temp=T),
               'both')
    ctx.raises(AssertionError, lambda: th.HarmonicThermo(
        f, d[:1], T=T, verbose=False), 'lengths')


def einstein(ctx):
    th = thermo(ctx)
    x = ctx.reals('x', (2,), 0.1, 5)
    ctx.eq(th.einstein_func(x), [ctx.np.exp(-v) / (1 - ctx.np.exp(-v))
                                 for v in x], 'array')
    r = th.einstein_func(x[0])
    ctx.check(tuple(r.shape) == (1,), 'scalar')
    ctx.eq(r[0], 1 / (ctx.np.exp(x[0]) - 1), 'scalar')


def debye(ctx, nstep, zero):
    th = thermo(ctx)
    x = ctx.reals('x', (2,), 0.1, 5)
    kw = {} if zero is None else {'zero': zero}
    z = ctx.num(1e-8 if zero is None else zero)
    r = th.debye_func(x, nstep=nstep, **kw)
    ctx.check(tuple(r.shape) == (2,), 'shape')
    t = [z + (1 - z) * i / (nstep - 1) for i in range(nstep)]
    for k in range(2):
        y = [3 * v**3 / (ctx.np.exp(v * x[k]) - 1) for v in t]
        ctx.eq(r[k], trap(y, t), 'Debye integral', tol=1e-6)
    ctx.eq(th.debye_func(x[1], nstep=nstep, **kw)[0], r[1], 'scalar')
    ctx.raises(Exception, lambda: th.debye_func(ctx.arr([x])), '2d')


def expansion(ctx, func):
    th = thermo(ctx)
    T = ctx.reals('T', (2,), 100, 1000)
    a = ctx.real('alpha', 0.001, 0.1)
    t = ctx.real('theta', 200, 900)
    x0 = ctx.real('x0', 0.5, 5)
    if func == 'einstein':
        f = th.einstein_func
        g = lambda x: 1 / (ctx.np.exp(x) - 1)
    elif func == 'own':
        f = g = lambda x: 2 * x + 1
    else:
        f = g = lambda x: th.debye_func(x, nstep=4)
    r = th.expansion(T, a, t, x0, f)
    ctx.check(tuple(r.shape) == (2,), 'shape')
    for i in range(2):
        ctx.eq(r[i], x0 + x0 * a * t * ctx.arr([g(t / T[i])]).ravel()[0],
               'model')
    if func != 'own':
        ctx.eq(th.expansion(T, a, t, func=f) * x0, r, 'default x0')


def cases(tier):
    out = []
    for w in 'EFSC':
        for n, nt, where in [(3, 2, 'ctor'), (2, 1, 'quiet'), (2, 2, 'arg'),
                             (3, 2, 'override'), (2, 2, 'temp')]:
            out.append(Case('formula-%s-%s' % (w, where), formulas, dict(what=w,
                            n=n, nt=nt, where=where,
                            alias=int(where in ('arg', 'quiet')))))
        for eps in (False, True):
            for vb in (False, True):
                out.append(Case('skip-%s-%s%s' % (
                    w, 'eps' if eps else 'default',
                    '-verbose' if vb else ''), skip, dict(what=w, eps=eps,
                    verbose=vb)))
        out.append(Case('integrator-%s' % w, integ, dict(what=w)))
    for w in 'CF':
        for sk in (0, 1):
            for neg in (False, True, 'own'):
                out.append(Case('area-%s-%i-%s' % (w, sk, neg), area, dict(what=w,
                                skipf=sk, neg=neg)))
    for n in (2, 3):
        out.append(Case('F=E-TS-%i' % n, identity, dict(n=n)))
        for w in 'SC':
            out.append(Case('derivative-%s-%i' % (w, n), derivative, dict(what=w,
                            n=n)))
    out.append(Case('errors', errors))
    out.append(Case('einstein', einstein))
    for ns in (2, 3, 5) + ((9,) if tier != 'quick' else ()):
        for z in (None, 0.25, 1e-3):
            out.append(Case('debye-%i-%s' % (ns, z), debye, dict(nstep=ns, zero=z)))
    for f in ('einstein', 'own', 'debye'):
        out.append(Case('expansion-%s' % f, expansion, dict(func=f)))
    out += [Case('formula-%s-integers' % w, formulas, dict(
                what=w, n=2, nt=2, where='arg', alias=1), ints=('g', 'T'))
            for w in 'EFSC']
    out += [Case('formula-%s-many' % w, formulas, dict(
                what=w, n=4, nt=3, where='ctor', alias=0)) for w in 'EFSC']
    out += rescaled(
        out,
        ('formula-E-ctor', dict(g=1e-09)),
        ('area-C-0-True', dict(g=1e-09)),
        ('formula-S-ctor', dict(g=1e+09)))
    return out
