"""thermo.Gibbs"""
from symx.run import Case

META = {
    'title': 'Gibbs energies and optimal cells are consistent on every grid',
    'statement': 'For each grid point the free energy is total energy plus '
    'vibrational free energy, the enthalpy adds P V to the total energy and '
    'the Gibbs energy adds P V (GPa and cubic Angstrom to eV) to the free '
    'energy, in arrays indexed in the order their key names, with all of F, '
    'Fvib, Evib, Svib and Cv those of the harmonic model of that grid point. '
    'The optimal values at each pressure (and temperature) are those of the '
    'fit function set for that purpose, applied to the energies over the '
    'grid of that (T,P) only: volume or axes at the minimum, energy there, '
    'bulk modulus V d2G/dV2 in GPa, axes from the volume; expansion '
    'coefficients are dx/dT / x and the heat capacity -T d2G/dT2 in kb. '
    'Quantities which do not apply are None. A given F (e.g. with electronic '
    'terms added) is used as it is; the inputs are not modified and energies '
    'alone can be requested.',
    'forall': 'all energies, DOS, temperatures, pressures and axes; all fit '
    'functions (uninterpreted linear functionals of their data)',
    'why': 'a wrong index order, unit or stale fit shows up only for '
    'particular grids; the tests compare with stored data of this very code',
    'files': ['src/pwtools/thermo.py'],
    'mech': ['F @ thermo.py:Gibbs.calc_F', 'H @ thermo.py:Gibbs.calc_H',
             'G, optimum, alpha, Cp @ thermo.py:Gibbs.calc_G, '
             '_fit_opt_store'],
}
BOUNDS = {'quick': '1-3 axes with 2-3 grid points, 1-3 temperatures, 1-2 '
          'pressures, 2-3 DOS points'}
OUTSIDE = 'quality of the default fit functions (PolyFit, Spline: C16, C17)'


def thermo(ctx):
    th = ctx.mod('thermo')
    if ctx.symbolic:
        for n in ('kb', 'hplanck', 'c0', 'eV', 'eV_by_Ang3_to_GPa'):
            if hasattr(th, n):
                setattr(th, n, ctx.num(getattr(th, n)))
    return th


def volfunc(x):
    s = 3
    for i, v in enumerate(x):
        s = s + (i + 2) * v
    return s


class Fit:
    """any smooth function which depends linearly on the data: its value and
    derivatives at x are x-dependent weighted sums of x and y data"""

    def __init__(self, kind, x, y):
        self.kind = kind
        x = x if getattr(x, 'ndim', 1) == 1 else x[:, 0] + 5 * x[:, 1]
        self.s = 1
        for i in range(len(x)):
            self.s = self.s + (i + 1) * x[i] / 7 + (i + 2)**2 * y[i] / 11
        self.n = len(x)

    def get_min(self):
        if self.kind == '2d-G':
            return [self.s, self.s * 2 + 1]
        return self.s / 3 + 1

    def __call__(self, x, der=0):
        if self.kind == '2d-G':
            return self.s * 2 + x[0] + 3 * x[1]
        return self.s * (der + 2) + x * (der + 1) * (
            2 if self.kind == 'alpha' else 1)


KINDS = ('1d-G', '2d-G', '1d-ax', 'alpha', 'C')


def setup(ctx, nax, npt, nt, npr, case=None, flat1=False, **kw):
    th = thermo(ctx)
    T = ctx.reals('T', (nt,), 100, 1500)
    P = ctx.reals('P', (npr,), -5, 50)
    etot = ctx.reals('e', (npt,), -3, 3)
    ax = ctx.reals('ax', (npt, nax), 1, 8)
    if flat1:
        ax = ax[:, 0]
    ph = []
    for i in range(npt):
        f = [ctx.real('f%i_0' % i, 20, 300)]
        f.append(f[0] + ctx.real('f%i_1' % i, 10, 300))
        ph.append(ctx.np.array([f, list(ctx.reals('g%i' % i, (2,), 0, 2))]).T)
    g = th.Gibbs(T=T, P=P, etot=etot, phdos=ph, axes_flat=ax,
                 volfunc_ax=volfunc, case=case, **kw)
    for k in KINDS:
        g.set_fitfunc(k, lambda x, y, k=k: Fit(k, x, y))
    ax2 = ax[:, None] if flat1 else ax
    V = [volfunc(r) for r in ax2]
    return th, g, T, P, etot, ax2, ph, V


def prefix(nax):
    return '/' + '-'.join('ax%i' % i for i in range(nax))


def gpa(ctx):
    return ctx.num(ctx.mod('constants').eV_by_Ang3_to_GPa)


def calcF(ctx, nax, npt, nt, calc_all, flat1):
    th, g, T, P, etot, ax, ph, V = setup(ctx, nax, npt, nt, 1, flat1=flat1)
    k = ctx.mod('constants')
    pre = prefix(nax)
    r = g.calc_F(calc_all=calc_all) if calc_all is not None else g.calc_F()
    want = {'F', 'Fvib'} | ({'Evib', 'Svib', 'Cv'}
                            if calc_all is not False else set())
    for n in ('F', 'Fvib', 'Evib', 'Svib', 'Cv'):
        ctx.check((pre + '/T/' + n in r) == (n in want), 'keys ' + n)
    for i in range(npt):
        ha = th.HarmonicThermo(ph[i][:, 0], ph[i][:, 1], T=T, verbose=False)
        F = ha.fvib()
        ctx.check(tuple(r[pre + '/T/F'].shape) == (npt, nt), 'shape')
        ctx.eq(r[pre + '/T/Fvib'][i], F, 'Fvib')
        ctx.eq(r[pre + '/T/F'][i], F + etot[i], 'F')
        if calc_all is not False:
            ctx.eq(r[pre + '/T/Svib'][i], ha.svib(), 'Svib', tol=1e-7)
            ctx.eq(r[pre + '/T/Cv'][i], ha.cv(), 'Cv', tol=1e-7)
    ctx.eq(r['/T/T'], T, 'T')
    ctx.eq(r['/P/P'], P, 'P')
    ctx.eq(r[pre + '/V'], V, 'V')
    ctx.eq(r[pre + '/Etot'], etot, 'Etot')
    ctx.eq(r[pre + pre], ax, 'axes')


def evib(ctx, nax, known):
    th, g, T, P, etot, ax, ph, V = setup(ctx, nax, 2, 2, 1)
    k = ctx.mod('constants')
    r = g.calc_F()
    got = r[prefix(nax) + '/T/Evib']
    ctx.check(tuple(got.shape) == (2, 2), 'shape')
    for i in range(2):
        ha = th.HarmonicThermo(ph[i][:, 0], ph[i][:, 1], T=T, verbose=False)
        F, S = ha.fvib(), ha.svib()
        good = F + T * S * (ctx.num(k.kb) / k.eV)
        if known:
            ctx.eq(got[i], good, 'Evib in eV', tol=1e-7)
        else:
            # either that or the recorded finding (T S in K kb)
            bad = F + T * S
            for t in range(2):
                e = (1 + abs(float(bad[t]))) * 1e-7 if not ctx.symbolic else 0
                x, y = got[i][t] - good[t], got[i][t] - bad[t]
                ctx.check(((x <= e) & (x >= -e)) | ((y <= e) & (y >= -e)),
                          'Evib from F and S of its grid point')


def skipkw(ctx):
    """keywords reach the harmonic model"""
    th, g, T, P, etot, ax, ph, V = setup(ctx, 1, 2, 1, 1)
    lim = ctx.real('lim', 15, 400)
    area = ctx.real('area', 3, 9)
    for i in range(2):
        for v in ph[i][:, 0]:
            ctx.assume((v - lim > 1e-3) | (v - lim < -1e-3))
    g2 = th.Gibbs(T=T, P=P, etot=etot, phdos=ph, axes_flat=ax,
                  volfunc_ax=volfunc, skipfreq=True, eps=lim)
    g2.set_fitfunc('1d-ax', lambda x, y: Fit('1d-ax', x, y))
    r = g2.calc_F(calc_all=False)
    for i in range(2):
        ha = th.HarmonicThermo(ph[i][:, 0], ph[i][:, 1], T=T, verbose=False,
                               skipfreq=True, eps=lim)
        ctx.eq(r['/ax0/T/Fvib'][i], ha.fvib(), 'Fvib with eps')


def opt_ref(ctx, case, nax, ax, V, gg):
    out = {}
    if case == '1d':
        f = Fit('1d-G', ctx.arr(V), gg)
        v = f.get_min()
        out['V'] = v
        out['GH'] = f(v)
        out['B'] = v * f(v, der=2) * gpa(ctx)
        for i in range(nax):
            out['ax%i' % i] = Fit('1d-ax', ctx.arr(V), ax[:, i])(v)
    else:
        lo, hi = ctx.np.min(gg), ctx.np.max(gg)
        f = Fit('2d-G', ax, (gg - lo) / (hi - lo))
        x = f.get_min()
        out['ax0'], out['ax1'] = x
        out['V'] = volfunc(x)
        out['GH'] = f(x) * (hi - lo) + lo
        out['B'] = None
    for i in range(nax, 3):
        out['ax%i' % i] = None
    return out


def compare(ctx, r, pre, refs, sh, sym):
    for n in ('ax0', 'ax1', 'ax2', 'V', 'GH', 'B'):
        key = '/#opt%s/%s' % (pre, sym if n == 'GH' else n)
        if refs[0][n] is None:
            ctx.check(r[key] is None, n + ' not defined')
            continue
        ctx.check(tuple(r[key].shape) == sh, 'shape of ' + n)
        ctx.eq(r[key].ravel(), [q[n] for q in refs], 'optimal ' + n, tol=1e-5)


def calcH(ctx, nax, npt, npr, case, calc_all):
    th, g, T, P, etot, ax, ph, V = setup(ctx, nax, npt, 1, npr, case=case,
                                         flat1=nax == 1)
    ctx.lazy_extrema()
    e0, p0 = etot.copy(), P.copy()
    if not case and nax == 2:
        # not constant: the scaled energies are defined
        ctx.assume(etot[0] - etot[1] > 20 * (V[0] - V[1] if
                                             V[0] > V[1] else V[1] - V[0]))
    r = g.calc_H() if calc_all is None else g.calc_H(calc_all=calc_all)
    pre = prefix(nax)
    H = r['/P%s/H' % pre]
    ctx.check(tuple(H.shape) == (npr, npt), 'shape')
    ggs = []
    for p in range(npr):
        gg = etot + ctx.arr(V) * P[p] / gpa(ctx)
        ctx.eq(H[p], gg, 'H = E + P V')
        ggs.append(gg)
    if calc_all is not False:
        c = case or ('1d' if nax == 1 else '2d')
        compare(ctx, r, '/P', [opt_ref(ctx, c, nax, ax, V, x) for x in ggs],
                (npr,), 'H')
    else:
        ctx.check('/#opt/P/H' not in r and '/#opt/P/V' not in r, 'energies '
                  'only')
    ctx.eq(etot, e0, 'etot kept')
    ctx.eq(P, p0, 'P kept')


def calcG(ctx, nax, npt, nt, npr, case, calc_all, own):
    th, g, T, P, etot, ax, ph, V = setup(ctx, nax, npt, nt, npr, case=case)
    ctx.lazy_extrema()
    k = ctx.mod('constants')
    pre = prefix(nax)
    if own:
        F = ctx.reals('F', (npt, nt), -3, 3)
        ret = {pre + '/T/F': F}
    else:
        ret = None
    if not case and nax == 2 and calc_all:
        for t in range(nt):
            for p in range(npr):
                d = F[1, t] - F[0, t] + (V[1] - V[0]) * P[p] / gpa(ctx)
                ctx.assume(d > 0.01)
                d = etot[1] - etot[0] + (V[1] - V[0]) * P[p] / gpa(ctx)
                ctx.assume(d > 0.01)
    r = g.calc_G(ret=ret, calc_all=calc_all)
    if not own:
        F = ctx.np.array([th.HarmonicThermo(
            ph[i][:, 0], ph[i][:, 1], T=T, verbose=False).fvib() + etot[i]
            for i in range(npt)])
    G = r['/T/P%s/G' % pre]
    ctx.check(tuple(G.shape) == (nt, npr, npt), 'shape')
    ggs = []
    for t in range(nt):
        for p in range(npr):
            gg = F[:, t] + ctx.arr(V) * P[p] / gpa(ctx)
            ctx.eq(G[t, p], gg, 'G = F + P V')
            ggs.append(gg)
    if not calc_all:
        ctx.check('/#opt/T/P/Cp' not in r, 'energies only')
        return
    c = case or ('1d' if nax == 1 else '2d')
    refs = [opt_ref(ctx, c, nax, ax, V, x) for x in ggs]
    compare(ctx, r, '/T/P', refs, (nt, npr), 'G')
    for n in ('ax0', 'ax1', 'ax2', 'V'):
        key = '/#opt/T/P/alpha_' + n
        if refs[0][n] is None:
            ctx.check(r[key] is None, 'alpha not defined')
            continue
        ctx.check(tuple(r[key].shape) == (nt, npr), 'shape')
        for p in range(npr):
            x = ctx.arr([q[n] for q in refs[p::npr]])
            ctx.eq(r[key][:, p], Fit('alpha', T, x)(T, der=1) / x,
                   'alpha_' + n, tol=1e-5)
    kk = ctx.num(k.eV) / k.kb
    for p in range(npr):
        x = ctx.arr([q['GH'] for q in refs[p::npr]]) * kk
        ctx.eq(r['/#opt/T/P/Cp'][:, p], -T * Fit('C', T, x)(T, der=2), 'Cp',
               tol=1e-5)
    # the enthalpies come along
    for p in range(npr):
        ctx.eq(r['/P%s/H' % pre][p], etot + ctx.arr(V) * P[p] / gpa(ctx), 'H')
    ctx.eq(r['/T/T'], T, 'T')
    ctx.eq(r[pre + '/V'], V, 'V')


def errors(ctx):
    th, g, T, P, etot, ax, ph, V = setup(ctx, 3, 2, 1, 1)
    ctx.raises(AssertionError, lambda: g.set_fitfunc('x', None), 'key')
    ctx.raises(Exception, lambda: g.calc_G(), '3d not supported')
    mk = lambda **k: th.Gibbs(**dict(dict(
        T=T, P=P, etot=etot, phdos=ph, axes_flat=ax, volfunc_ax=volfunc),
        **k))
    ctx.raises(AssertionError, lambda: mk(etot=etot[:1]), 'etot')
    ctx.raises(AssertionError, lambda: mk(phdos=ph[:1]), 'phdos')
    ctx.raises(ValueError, lambda: mk(axes_flat=ctx.np.ones((2, 4))), 'axes')
    g = mk(case='x')
    for k in KINDS:
        g.set_fitfunc(k, lambda x, y, k=k: Fit(k, x, y))
    ctx.raises(Exception, lambda: g.calc_G(), 'case')


def cases(tier):
    out = []
    for nax, npt, nt, ca, fl in [(1, 2, 2, True, True), (1, 3, 1, False, False),
                                 (2, 2, 2, None, False),
                                 (3, 2, 1, True, False)]:
        out.append(Case('F %i axes %i points T%i %s' % (nax, npt, nt, ca),
                        calcF, dict(nax=nax, npt=npt, nt=nt, calc_all=ca,
                                    flat1=fl)))
    for nax in (1, 2, 3):
        out.append(Case('Evib %i' % nax, evib, dict(nax=nax, known=False)))
    out.append(Case('Evib units', evib, dict(nax=1, known=True)))
    out.append(Case('keywords', skipkw))
    for nax, npt, npr, case, ca in [
            (1, 2, 1, None, None), (1, 3, 2, None, True), (2, 2, 2, '1d', True),
            (2, 2, 1, None, True), (3, 2, 2, '1d', True), (2, 3, 2, None,
                                                           False),
            (1, 2, 3, '1d', False)]:
        out.append(Case('H %i axes %i points P%i %s %s' % (
            nax, npt, npr, case, ca), calcH, dict(
                nax=nax, npt=npt, npr=npr, case=case, calc_all=ca)))
    for nax, npt, nt, npr, case, ca, own in [
            (1, 2, 2, 2, None, False, False), (1, 2, 2, 2, None, True, True),
            (1, 2, 3, 1, None, True, True), (2, 2, 2, 1, '1d', True, True),
            (3, 2, 1, 2, '1d', True, True), (2, 2, 2, 2, None, False, True),
            (2, 2, 2, 1, None, True, True), (1, 2, 1, 1, None, True, False)]:
        out.append(Case('G %i axes %i points T%i P%i %s %s%s' % (
            nax, npt, nt, npr, case, ca, ' given F' if own else ''), calcG,
            dict(nax=nax, npt=npt, nt=nt, npr=npr, case=case, calc_all=ca,
                 own=own)))
    out.append(Case('errors', errors))
    return out
