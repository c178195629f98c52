"""Interatomic distances, with and without periodic boundary conditions."""
from symx.run import Case

META = {
    'title': 'Interatomic distances obey the (periodic) metric of the cell',
    'statement': 'For every structure the reported fractional differences, '
    'cartesian vectors, distances and squared distances agree with each '
    'other and with the cell; with periodic boundaries the difference is the '
    'minimum image, so distances do not change when an atom moves by a '
    'lattice vector. Trajectory distances are the per-step distances, the '
    'point-set kernels return squared distances, and the maximal meaningful '
    'radius is half the smallest perpendicular cell width.',
    'forall': 'every cell and all coordinates, periodic or not, squared or '
    'not, single or trajectory',
    'why': 'sampled structures rarely hit the half-cell boundary or oblique '
    'cells where naive formulas differ; both languages must agree',
    'files': ['src/pwtools/crys.py', 'src/pwtools/num.py',
              'src/_ext_src/flib.f90'],
    'mech': ['distances @ crys.py:distances, distances_traj',
             'kernels @ flib.f90:distsq_frac, distsq_frac_traj, distsq',
             'rmax @ crys.py:rmax_smith', 'distsq @ num.py:distsq'],
}
BOUNDS = {'quick': 'all triclinic cells; 2 atoms (3 without PBC) with '
          'fractional coordinates in [-0.9,0.9]; with PBC 2 atoms, one or '
          'three free components, image shifts up to 2 cells; 2-step '
          'trajectories; both the compiled Fortran (encoded from source) and '
          'the Python layer'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'more atoms (the loops are uniform in the atom index)'


def check_all(ctx, x, cell, d, dv, df, pbc, squared=False):
    np = ctx.np
    n = len(x)
    for i in range(n):
        for j in range(n):
            plain = x[i] - x[j]
            if not pbc:
                ctx.eq(df[i, j], plain, 'frac difference')
            else:
                for k in range(3):
                    s = plain[k] - df[i, j, k]
                    ctx.eq(np.round(s), s, 'integer image')
                    ctx.check(df[i, j, k] >= -0.5, 'in [-1/2')
                    ctx.check(df[i, j, k] <= 0.5, '1/2]')
            ctx.eq(dv[i, j], np.dot(df[i, j], cell), 'cartesian vector')
            sq = (dv[i, j]**2).sum()
            if squared:
                ctx.eq(d[i, j], sq, 'squared distance')
            else:
                ctx.check(d[i, j] >= 0, 'nonnegative')
                ctx.eq(d[i, j]**2, sq, 'length')


def nopbc(ctx, n, squared, ints=False):
    crys = ctx.mod('crys')
    cell = ctx.cell(mode='full')
    x = ctx.ints('x', (n, 3), -2, 2) if ints else \
        ctx.reals('x', (n, 3), -0.9, 0.9)
    st = crys.Structure(coords_frac=x, cell=cell, symbols=['Al'] * n)
    kw = dict(squared=True) if squared else {}
    d, dv, df = crys.distances(st, fullout=True, **kw)
    check_all(ctx, x, cell, d, dv, df, False, squared)
    ctx.eq(crys.distances(st, **kw), d, 'fullout=False')
    ctx.eq(d, d.T, 'symmetric')
    ctx.eq(st.coords_frac, x, 'input untouched')


def pbc(ctx, comps, squared, rng):
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.cell(mode='tri')
    x = []
    for i in range(2):
        x.append([ctx.real('x%i%i' % (i, k), -rng, rng) if k in comps else
                  ctx.num([0.25, 0.625][i]) for k in range(3)])
    x = ctx.arr(x)
    st = crys.Structure(coords_frac=x, cell=cell, symbols=['Al'] * 2)
    kw = dict(squared=True) if squared else {}
    d, dv, df = crys.distances(st, pbc=True, fullout=True, **kw)
    check_all(ctx, x, cell, d, dv, df, True, squared)
    ctx.eq(crys.distances(st, pbc=True, **kw), d, 'fullout=False')
    sij = x[:, None, :] - x[None, :, :]
    ctx.eq(df, crys.min_image_convention(sij, copy=True),
           'Fortran = Python minimum image')


def lattice_shift(ctx, k, m):
    """PBC distances do not change when one atom is moved by a lattice
    vector, and all atoms can be shifted rigidly"""
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.cell(mode='tri')
    x = []
    for i in range(2):
        x.append([ctx.real('x%i%i' % (i, c), 0, 1) if c == k else
                  ctx.num([0.25, 0.625][i]) for c in range(3)])
    x = ctx.arr(x)
    y = x.copy()
    y[1, k] = y[1, k] + m
    t = ctx.reals('t', (3,))
    a = crys.Structure(coords_frac=x, cell=cell, symbols=['Al'] * 2)
    b = crys.Structure(coords_frac=y, cell=cell, symbols=['Al'] * 2)
    da = crys.distances(a, pbc=True, squared=True)
    ctx.assume(abs(abs(x[0, k] - x[1, k]) - 0.5) > 0.001)
    ctx.eq(crys.distances(b, pbc=True, squared=True), da, 'lattice shift')
    c = crys.Structure(coords_frac=x + t, cell=cell, symbols=['Al'] * 2)
    ctx.eq(crys.distances(c, squared=True),
           crys.distances(a, squared=True), 'rigid shift')


def traj(ctx, pbc):
    crys = ctx.mod('crys')
    nt = 2
    cells = ctx.arr([ctx.cell('p%i' % t, mode='tri') for t in range(nt)])
    x = ctx.reals('x', (nt, 2, 3), -0.45, 0.45)
    if pbc:
        vals = [[[ctx.real('y%i%i' % (t, i), -0.9, 0.9) if k == t + 1 else
                  ctx.num([0.75, 0.125][i]) for k in range(3)]
                 for i in range(2)] for t in range(nt)]
        x = ctx.arr(vals)
    tr = crys.Trajectory(coords_frac=x, cell=cells, symbols=['Al'] * 2)
    d = crys.distances_traj(tr, pbc=pbc)
    for t in range(nt):
        st = crys.Structure(coords_frac=x[t], cell=cells[t],
                            symbols=['Al'] * 2)
        ctx.eq(d[t], crys.distances(st, pbc=pbc), 'per step')


def rmax(ctx):
    """rmax_smith: half the smallest perpendicular width; inside it the
    minimum image distance is the true minimum"""
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.cell(mode='tri')
    r = crys.rmax_smith(cell)
    vol = crys.volume_cell(cell)
    a, b, c = cell
    ar = [ctx.cross(b, c), ctx.cross(c, a), ctx.cross(a, b)]
    hit = None
    for v in ar:
        n2 = (v**2).sum()
        ctx.le(4 * r * r * n2, vol * vol, 'half width')
        e = (4 * r * r * n2 - vol * vol)
        q = abs(e) <= 1e-7 * vol * vol
        hit = q if hit is None else (hit | q)
    ctx.check(hit, 'one width is attained')
    ctx.check(r > 0, 'positive')


def distsq(ctx, nx, ny, nd):
    num = ctx.mod('num')
    fl = ctx.mod('_flib')
    np = ctx.np
    a = ctx.reals('a', (nx, nd))
    b = ctx.reals('b', (ny, nd))
    ref = [[((a[i] - b[j])**2).sum() for j in range(ny)] for i in range(nx)]
    ctx.eq(num.distsq(a, b), ref, 'num.distsq')
    out = np.zeros((nx, ny))
    out = np.array(out, order='F')
    fl.distsq(a, b, out)
    ctx.eq(out, ref, '_flib.distsq')


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for sq in (False, True):
            out.append(Case('nopbc-%i-sq%i' % (n, sq), nopbc, dict(
                n=n, squared=sq)))
    for k in range(3):
        for sq in (False, True):
            out.append(Case('pbc-%i-sq%i' % (k, sq), pbc, dict(
                comps=[k], squared=sq, rng=1.2)))
        for m in (1, -2):
            out.append(Case('shift-%i-%i' % (k, m), lattice_shift, dict(
                k=k, m=m)))
    out.append(Case('pbc-012', pbc, dict(comps=[0, 1, 2], squared=True,
                                         rng=0.49), weight=5))
    if tier != 'quick':
        out.append(Case('pbc-012-wide', pbc, dict(comps=[0, 1, 2],
                                                  squared=False, rng=0.9)))
        out.append(Case('nopbc-5', nopbc, dict(n=5, squared=False)))
    for p in (False, True):
        out.append(Case('traj-pbc%i' % p, traj, dict(pbc=p)))
    out.append(Case('rmax', rmax))
    for nx, ny, nd in ((1, 1, 1), (2, 3, 2), (3, 2, 3)):
        out.append(Case('distsq-%i%i%i' % (nx, ny, nd), distsq, dict(
            nx=nx, ny=ny, nd=nd)))
    out.append(Case('integer coords', nopbc, dict(n=2, squared=False,
                                                  ints=True)))
    out.append(Case('nopbc-many', nopbc, dict(n=6, squared=True)))
    for f in (1e-7, 1e6):
        out += [Case('nopbc', nopbc, dict(n=2, squared=False)).scaled(h=f),
                Case('nopbc', nopbc, dict(n=2, squared=True)).scaled(h=f),
                Case('pbc', pbc, dict(comps=[1], squared=False,
                                      rng=1.2)).scaled(h=f),
                Case('rmax', rmax).scaled(h=f),
                Case('distsq', distsq, dict(nx=2, ny=2, nd=2)).scaled(
                    a=f, b=f)]
    out.append(Case('nopbc', nopbc, dict(n=2, squared=False)).scaled(x=1e-6))
    out.append(Case('distsq-many', distsq, dict(nx=11, ny=4, nd=3)))
    return out
