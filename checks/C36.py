"""Fictitious masses for MTTK molecular dynamics."""
from symx.run import Case

META = {
    'title': 'MTTK thermostat and barostat masses follow their formulas',
    'statement': 'For a phonon frequency f and temperature T, with '
    'q = kb T / f^2 in Hartree atomic units (electron mass times Bohr^2), '
    'the particle chain masses are nf q for the first and q for the others, '
    'those of the barostat chain ndim^2 q and q, in a list of the chain '
    'length; the barostat mass is (nf + ndim) q for isotropic cell '
    'fluctuations and that divided by ndim for full ones. A chain length '
    'below one is refused.',
    'forall': 'all frequencies, temperatures, numbers of degrees of freedom '
    'and of dimensions (real ones too)',
    'why': 'wrong units or exponents give a plausible number for every '
    'input; nothing tests these functions',
    'files': ['src/pwtools/mttk.py'],
    'mech': ['particles @ mttk.py:particle_nhc_masses',
             'barostat chain @ mttk.py:barostat_nhc_masses',
             'barostat @ mttk.py:barostat_mass_w, barostat_mass_wg'],
}
BOUNDS = {'quick': 'f in [1,40] THz, T in [1,3000] K, nf in [1,999], ndim '
          'in [1,3], chain length 1..5 and the default'
          '; larger single cases, 5 to 13 items long'}
OUTSIDE = 'digits of the physical constants beyond 1e-5'

# SI, CODATA
KB, ME, BOHR = 1.380649e-23, 9.1093837e-31, 5.29177211e-11


def masses(ctx, nnos):
    M = ctx.mod('mttk')
    f = ctx.real('f', 1, 40) * ctx.num(10 ** 12)
    T = ctx.real('T', 1, 3000)
    nf = ctx.choice('nf', [6, None])
    nf = nf or ctx.real('nfr', 1, 999)
    nd = ctx.choice('nd', [None, 2])
    C = ctx.mod('constants')
    for have, want in ((C.kb, KB), (C.m0, ME), (C.a0, BOHR)):
        ctx.check(abs(float(have) / want - 1) < 1e-5, 'constant')
    q = C.kb * T / (f * f) / C.m0 / C.a0 ** 2
    kw = {} if nnos is None else dict(nnos=nnos)
    n = 4 if nnos is None else nnos

    def cmp(got, want, label):
        ctx.check(type(got) is list and len(got) == n, 'length')
        for i in range(n):
            ctx.eq(got[i] / q, want[min(i, 1)], '%s %i' % (label, i))
    cmp(M.particle_nhc_masses(f, T, nf=nf, **kw), [nf, 1], 'particles')
    if nd:
        kw['ndim'] = nd
    d = nd or 3
    cmp(M.barostat_nhc_masses(f, T, **kw), [d * d, 1], 'barostat')
    kw = dict(ndim=nd) if nd else {}
    ctx.eq(M.barostat_mass_w(f, T, nf=nf, **kw) / q, nf + d, 'W')
    ctx.eq(M.barostat_mass_wg(f, T, nf=nf, **kw) / q, (nf + d) / ctx.num(d),
           'W_g')


def refused(ctx):
    M = ctx.mod('mttk')
    T = ctx.real('T', 1, 3000)
    n = ctx.idx('n', -2, 0)
    ctx.raises(AssertionError, lambda: M.particle_nhc_masses(
        1e12, T, nf=6, nnos=n), 'particles')
    ctx.raises(AssertionError, lambda: M.barostat_nhc_masses(
        1e12, T, nnos=n), 'barostat')


def cases(tier):
    r = [Case('masses nnos=%s' % n, masses, dict(nnos=n))
         for n in (None, 1, 2, 3, 5)]
    r.append(Case('refused', refused))
    r.append(Case('masses nnos=12', masses, dict(nnos=12)))
    return r
