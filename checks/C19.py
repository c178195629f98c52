"""Fourier transforms and the phonon DOS: signal.dft/ezfft/fft_1d_loop/
fftsample, pydos.pdos"""
from symx.run import Case, rescaled

META = {
    'title': 'Fourier transforms and phonon DOS follow their definitions',
    'statement': 'Every DFT helper returns the forward transform of its '
    'input, along the axis asked for, with the matching frequency axis; '
    'conversions between time and frequency sampling are mutually inverse. '
    'The phonon DOS is proportional to the mass-weighted power spectrum of '
    'the (windowed, zero-padded) velocities at frequencies k/(N dt) below '
    'Nyquist, or to the transform of the VACF, normalized to the requested '
    'area; both routes agree on the same data. Full output holds the whole '
    'axis and unnormalized spectrum. Velocities and masses stay untouched.',
    'forall': 'all real and complex signals, velocities, positive masses, '
    'timesteps and areas',
    'why': 'normalization, windowing, padding and axis mistakes change '
    'spectra in ways which spot checks on one trajectory cannot exclude',
    'files': ['src/pwtools/signal.py', 'src/pwtools/pydos.py'],
    'mech': ['transforms @ signal.py:dft, ezfft, fft_1d_loop, fftsample',
             'pdos @ pydos.py:pdos, direct_pdos, vacf_pdos'],
}
BOUNDS = {'quick': 'transform lengths 1-6, 8, 10, 12; velocities of 3-5 '
          'steps, 1-2 atoms; all real values, timesteps, areas'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'other lengths; FFT libraries enter as the exact transform'


def dft_ref(ctx, v):
    n = len(v)
    np = ctx.np
    return [(sum(v[j] * np.cos(ctx.PI * (2 * j * k) / n) for j in range(n)),
             -sum(v[j] * np.sin(ctx.PI * (2 * j * k) / n) for j in range(n)))
            for k in range(n)]


def power(ctx, v):
    return [a * a + b * b for a, b in dft_ref(ctx, v)]


def dft(ctx, n):
    sig = ctx.mod('signal')
    v = ctx.reals('v', (n,), -3, 3)
    v0 = v.copy()
    ref = dft_ref(ctx, v0)
    for kw in ({}, {'method': 'loop'}, {'method': 'matmul'}):
        r = sig.dft(v, **kw)
        ctx.check(r.shape == (n,), 'shape')
        ctx.eq(r.real, [x[0] for x in ref], 'dft %s' % kw, atol=1e-8)
        ctx.eq(r.imag, [x[1] for x in ref], 'dft %s' % kw, atol=1e-8)
    w = ctx.reals('w', (n,), -3, 3)
    r = sig.dft(v + 1j * w)
    q = dft_ref(ctx, w)
    ctx.eq(r.real, [x[0] - y[1] for x, y in zip(ref, q)], 'complex',
           atol=1e-8)
    ctx.eq(r.imag, [x[1] + y[0] for x, y in zip(ref, q)], 'complex',
           atol=1e-8)
    dt = ctx.real('dt', 0.1, 3)
    f, d = sig.ezfft(v, dt=dt)
    h = n // 2
    ctx.eq(f * dt * n, list(range(h)), 'frequencies')
    ctx.check(d.shape == (h,), 'half spectrum')
    ctx.eq(d.real, [x[0] for x in ref[:h]], 'ezfft', atol=1e-8)
    ctx.eq(d.imag, [x[1] for x in ref[:h]], 'ezfft', atol=1e-8)
    ctx.eq(sig.ezfft(v)[0] * n, list(range(h)), 'default step')
    ctx.eq(v, v0, 'input kept')
    ctx.raises(ValueError, lambda: sig.dft(v, method='x'), 'method')
    ctx.raises(AssertionError, lambda: sig.ezfft(v[:, None]), 'rank')


def loop(ctx, sh, axis):
    sig = ctx.mod('signal')
    np = ctx.np
    v = ctx.reals('v', sh, -3, 3)
    v0 = v.copy()
    r = sig.fft_1d_loop(v) if axis is None else \
        sig.fft_1d_loop(v, axis=axis)
    axis = -1 if axis is None else axis
    ctx.check(r.shape == v.shape, 'shape')
    a = np.moveaxis(v0, axis, -1)
    b = np.moveaxis(r, axis, -1)
    import itertools
    for i in itertools.product(*[range(k) for k in a.shape[:-1]]):
        ref = dft_ref(ctx, a[i])
        ctx.eq(b[i].real, [x[0] for x in ref], 'transform', atol=1e-8)
        ctx.eq(b[i].imag, [x[1] for x in ref], 'transform', atol=1e-8)
    ctx.eq(v, v0, 'input kept')


def sample(ctx):
    sig = ctx.mod('signal')
    fmax, df = ctx.real('fmax', 1, 200), ctx.real('df', 0.01, 2)
    for mirr in (None, False, True):
        kw = {} if mirr is None else dict(mirr=mirr)
        fac = 2 if mirr else 1
        for kf in ({}, {'mode': 'f'}):
            dt, n = sig.fftsample(fmax, df, **kw, **kf)
            ctx.eq(dt * fmax, 0.5, 'timestep for fmax')
            ctx.eq(n * dt * df * fac, 1, 'points for df')
        b, a = sig.fftsample(dt, n, mode='t', **kw)
        ctx.eq(b, fmax, 'inverse')
        ctx.eq(a, df, 'inverse')
        b, a = sig.fftsample(fmax, df, mode='t', **kw)
        ctx.eq(b * fmax, 0.5, 'fmax')
        ctx.eq(a * df * fac * fmax, 1, 'resolution')
    ctx.raises(ValueError, lambda: sig.fftsample(fmax, df, mode='x'), 'mode')


def proportional(ctx, num, res, f, raw, area):
    """res is raw, normalized such that the integral over f is area"""
    ctx.check(len(res) == len(raw) == len(f), 'length')
    ref = num.norm_int(ctx.arr(raw), f, area=area)
    ctx.eq(res, ref, 'normalized spectrum', tol=1e-6, atol=1e-7)
    for i in range(1, len(raw)):
        ctx.eq(res[i] * raw[0], res[0] * raw[i], 'shape of the spectrum',
               tol=1e-6, atol=1e-7)


def window(ctx, n):
    return [1 - (ctx.num(2 * j - n + 1) / (n - 1))**2 for j in range(n)]


def pdos(ctx, nt, na, mass, npad, tonext, win, full):
    pd, num = ctx.mod('pydos'), ctx.mod('num')
    ctx.lazy_extrema()
    v = ctx.reals('v', (nt, na, 3), -3, 3)
    v0 = v.copy()
    m = ctx.reals('m', (na,), 0.5, 4) if mass else None
    w = [m[i] if mass else 1 for i in range(na)]
    if mass:
        m0 = m.copy()
    dt = ctx.real('dt', 0.1, 3)
    area = ctx.real('area', 0.1, 5)
    win_ = True if win is None else win
    ws = window(ctx, nt) if win_ else [1] * nt
    N = nt + (nt - 1) * (npad or 0)
    if tonext and npad is not None:
        p = 1
        while p < N:
            p *= 2
        N = p
    raw = [0] * N
    for i in range(na):
        for k in range(3):
            s = power(ctx, [v0[j, i, k] * ws[j] for j in range(nt)] +
                      [0] * (N - nt))
            raw = [a + w[i] * b for a, b in zip(raw, s)]
    h = N // 2
    # the normalization divides by the integral
    u = ctx.unit('v')**2 * ctx.unit('m')
    ctx.assume(sum(raw[:h]) > 0.1 * u)
    for a in raw[:h]:
        ctx.assume(a > 0.001 * u)
    kw = {} if win is None else dict(window=win)
    if tonext is not None:
        kw['tonext'] = tonext
    calls = [lambda **k: pd.pdos(v, npad=npad, **k),
             lambda **k: pd.direct_pdos(v, npad=npad, **k)]
    if npad == 1:
        calls.append(lambda **k: pd.direct_pdos(v, **k))
        if tonext:
            calls.append(lambda tonext=None, **k:
                         pd.direct_pdos(v, pad_tonext=True, **k))
    if npad is None:
        calls.append(lambda **k: pd.pdos(v, method='direct', **k))
    for c in calls:
        r = c(dt=dt, m=m, area=area, full_out=full, **kw)
        f, d = r[:2]
        ctx.eq(f * dt * N, list(range(h)), 'frequencies')
        proportional(ctx, num, d, f, raw[:h], area)
        if full:
            ff, fd, sp = r[2:]
            ctx.check(sp == h, 'split')
            ctx.eq(ff * dt * N, list(range((N - 1) // 2 + 1)) +
                   list(range(-(N // 2), 0)), 'full axis')
            ctx.eq(fd, raw, 'full spectrum', tol=1e-6, atol=1e-6)
        else:
            ctx.check(len(r) == 2, 'two results')
    ctx.eq(v, v0, 'velocities kept')
    if mass:
        ctx.eq(m, m0, 'masses kept')
        ctx.raises(AssertionError, lambda: pd.pdos(
            v, m=ctx.arr([1.0] * (na + 1))), 'masses')


def vpdos(ctx, nt, na, mass, mirr, win, full):
    pd, num = ctx.mod('pydos'), ctx.mod('num')
    ctx.lazy_extrema()
    v = ctx.reals('v', (nt, na, 3), -3, 3)
    v0 = v.copy()
    m = ctx.reals('m', (na,), 0.5, 4) if mass else None
    w = [m[i] if mass else 1 for i in range(na)]
    dt = ctx.real('dt', 0.1, 3)
    area = ctx.real('area', 0.1, 5)
    ws = window(ctx, nt) if win else [1] * nt
    c = [sum(w[i] * v0[j, i, k] * ws[j] * v0[j + t, i, k] * ws[j + t]
             for i in range(na) for k in range(3) for j in range(nt - t))
         for t in range(nt)]
    ctx.assume(c[0] > 0.1 * ctx.unit('v')**2 * ctx.unit('m'))
    c = [x / c[0] for x in c]
    sig = c[::-1] + c[1:] if mirr else c
    N = len(sig)
    h = N // 2
    raw2 = power(ctx, sig)
    for a in raw2[:h]:
        ctx.assume(a > 0.001)
    raw = [ctx.np.sqrt(a) for a in raw2]
    kw = {} if win else dict(window=False)
    for g in (0, 1, 2):
        if g == 1 and not mirr:
            continue
        if g == 0:
            r = pd.pdos(v, dt=dt, m=m, area=area, full_out=full, mirr=mirr,
                        method='vacf', **kw)
        elif g == 1:
            r = pd.vacf_pdos(v, dt=dt, m=m, area=area, full_out=full, **kw)
        else:
            r = pd.vacf_pdos(v, dt=dt, m=m, area=area, full_out=full,
                             mirr=mirr, **kw)
        f, d = r[:2]
        ctx.eq(f * dt * N, list(range(h)), 'frequencies')
        proportional(ctx, num, d, f, raw[:h], area)
        if full:
            ff, fd, sp, vacf, fv = r[2:]
            ctx.check(sp == h, 'split')
            ctx.eq(ff * dt * N, list(range((N - 1) // 2 + 1)) +
                   list(range(-(N // 2), 0)), 'full axis')
            ctx.eq(fd * fd, raw2, 'full spectrum', tol=1e-6, atol=1e-6)
            ctx.eq(vacf, c, 'vacf', atol=1e-7)
            ctx.eq(fv.real, [x[0] for x in dft_ref(ctx, sig)], 'fft',
                   atol=1e-7)
            ctx.eq(fv.imag, [x[1] for x in dft_ref(ctx, sig)], 'fft',
                   atol=1e-7)
        else:
            ctx.check(len(r) == 2, 'two results')
    ctx.eq(v, v0, 'velocities kept')
    ctx.raises(AssertionError, lambda: pd.pdos(v, method='vacf', npad=1),
               'padding')


def cases(tier):
    out = [Case('sampling', sample)]
    for n in (1, 2, 3, 4, 5, 6, 8, 10, 12):
        out.append(Case('dft n=%i' % n, dft, dict(n=n)))
    for sh in ((4,), (2, 3), (3, 2, 4)):
        for axis in [None] + list(range(-len(sh), len(sh))):
            out.append(Case('loop %s axis=%s' % (sh, axis), loop,
                            dict(sh=sh, axis=axis)))
    for nt, na, mass, npad, tonext, win, full in (
            (4, 1, 0, None, None, None, 0), (5, 1, 0, None, None, None, 1),
            (4, 1, 1, 0, None, False, 1), (3, 2, 1, 1, None, None, 0),
            (3, 1, 1, 1, None, None, 1), (3, 2, 0, 1, True, False, 1),
            (5, 1, 1, 1, False, None, 0), (3, 1, 1, 2, True, None, 0),
            (3, 1, 0, 3, True, None, 0), (4, 2, 1, 0, True, None, 1),
            (4, 1, 1, 1, True, None, 0)):
        out.append(Case('direct nt=%i na=%i m=%i npad=%s tonext=%s win=%s '
                        'full=%i' % (nt, na, mass, npad, tonext, win, full),
                        pdos, dict(nt=nt, na=na, mass=mass, npad=npad,
                                   tonext=tonext, win=win, full=full)))
    for nt, na, mass, mirr, win, full in (
            (4, 1, 0, 0, 1, 0), (4, 1, 1, 0, 0, 1), (3, 1, 1, 1, 0, 1),
            (3, 2, 0, 1, 1, 0), (5, 1, 1, 0, 1, 1), (6, 1, 0, 0, 0, 0)):
        out.append(Case('vacf nt=%i na=%i m=%i mirr=%i win=%i full=%i' % (
            nt, na, mass, mirr, win, full), vpdos,
            dict(nt=nt, na=na, mass=mass, mirr=bool(mirr), win=bool(win),
                 full=bool(full))))
    out += [Case('dft integers', dft, dict(n=5), ints=('v', 'w')),
            Case('loop integers', loop, dict(sh=(3, 2), axis=1), ints=('v',)),
            Case('direct integers', pdos, dict(
                nt=3, na=1, mass=1, npad=0, tonext=None, win=False, full=0),
                ints=('v', 'm')),
            Case('vacf integers', vpdos, dict(
                nt=3, na=1, mass=1, mirr=False, win=False, full=False),
                ints=('v', 'm'))]
    out += [Case('direct many atoms', pdos, dict(
                nt=4, na=11, mass=1, npad=0, tonext=None, win=None, full=0)),
            Case('loop many', loop, dict(sh=(2, 11), axis=0))]
    out += rescaled(
        out,
        ('dft n=5', dict(v=1e-09, w=1e-09)),
        ('loop (2, 3) axis=0', dict(v=1e-09)),
        ('direct nt=3 na=2 m=1 npad=1 tonext=None win=None full=0', dict(v=1e-06)),
        ('direct nt=3 na=2 m=1 npad=1 tonext=None win=None full=0', dict(dt=1e-15, m=1e-20)),
        ('vacf nt=4 na=1 m=1 mirr=0 win=0 full=1', dict(v=1e-06)))
    return out
