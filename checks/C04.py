"""Supercells are the periodic images of the unit cell."""
from symx.run import Case, rescaled

META = {
    'title': 'A supercell contains exactly the periodic images of the unit cell',
    'statement': 'A supercell of size (n1,n2,n3) (negative counts and '
    'direction allowed) has |n1 n2 n3| times the atoms, cell vectors n_i '
    'a_i, and its atoms are precisely the unit-cell atoms translated by '
    'lattice vectors, in the documented order with matching symbols; both '
    'construction methods agree and the input is left alone. For a '
    'trajectory every step is the supercell of that step.',
    'forall': 'every cell, every set of coordinates, all listed dimensions, '
    'both directions and methods',
    'why': 'tests check sample structures at fixed dims; mixing up of axes '
    'or order is only visible for unequal dims and oblique cells',
    'files': ['src/pwtools/crys.py'],
    'mech': ['scell @ crys.py:scell', 'scell3d @ crys.py:scell3d',
             'mask @ crys.py:scell_mask'],
}
BOUNDS = {'quick': 'all triclinic cells / fractional coordinates, 1-2 atoms, '
          'dims (nx,ny,nz) forked over {-2,-1,1,2,3}^3 subsets with product '
          '<= 8, both directions; trajectories of 2 steps'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'larger supercells'


def images(n, direc):
    r = list(range(0, n)) if n >= 0 else [-k for k in range(0, -n)]
    return r if direc == 1 else r[::-1]


def struct(ctx, dims, direc, method, na=2):
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.cell(mode='full')
    x = ctx.reals('x', (na, 3), 0, 1)
    sym = (['Al', 'N', 'O'] * 4)[:na]
    st = crys.Structure(coords_frac=x, cell=cell, symbols=sym)
    kw = {} if direc is None else dict(direc=direc)
    if method is not None:
        kw['method'] = method
    sc = crys.scell(st, dims, **kw)
    d = 1 if direc is None else direc
    im = [(i, j, k) for i in images(dims[0], d) for j in images(dims[1], d)
          for k in images(dims[2], d)]
    n = len(im)
    ctx.check(sc.natoms == na * n, 'number of atoms')
    ctx.check(list(sc.symbols) == [s for s in sym for _ in im], 'symbols')
    ctx.eq(sc.cell, [cell[i] * dims[i] for i in range(3)], 'cell')
    cart = np.dot(sc.coords_frac, sc.cell)
    ref = [np.dot(x[a] + np.array(m), cell) for a in range(na) for m in im]
    ctx.eq(cart, ref, 'atoms are lattice translates, in documented order')
    ctx.eq(sc.coords, cart, 'coords agree')
    ctx.eq(sc.volume, st.volume * n, 'volume')
    ctx.eq(st.coords_frac, x, 'input untouched')
    ctx.eq(st.cell, cell, 'input cell untouched')


def traj(ctx, dims, nosym=False):
    crys = ctx.mod('crys')
    np = ctx.np
    nt, na = 2, 2
    cells = ctx.arr([ctx.cell('p%i' % t, mode='tri') for t in range(nt)])
    x = ctx.reals('x', (nt, na, 3), 0, 1)
    sym = ['Al', 'N']
    tr = crys.Trajectory(coords_frac=x, cell=cells, symbols=sym)
    f = crys.scell if not nosym else crys.scell3d
    sc = f(tr, dims)
    ctx.check(sc.is_traj, 'is a trajectory')
    ctx.check(sc.nstep == nt, 'nstep')
    for t in range(nt):
        st = crys.Structure(coords_frac=x[t], cell=cells[t], symbols=sym)
        s2 = crys.scell(st, dims, method=2)
        ctx.eq(sc.coords_frac[t], s2.coords_frac, 'step: coords_frac')
        ctx.eq(sc.cell[t], s2.cell, 'step: cell')
        ctx.check(list(sc.symbols) == list(s2.symbols), 'symbols')


def nosym(ctx):
    crys = ctx.mod('crys')
    cell = ctx.cell(mode='tri')
    x = ctx.reals('x', (2, 3), 0, 1)
    st = crys.Structure(coords_frac=x, cell=cell)
    a = crys.scell(st, (2, 1, 1))
    b = crys.scell(st, (2, 1, 1), method=2)
    ctx.eq(a.coords_frac, b.coords_frac, 'without symbols')
    ctx.check(a.natoms == 4, 'natoms')


def cases(tier):
    out = []
    alld = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 3), (3, 2, 1),
            (1, 3, 2), (2, 2, 2), (-2, 1, 1), (1, -2, 2), (2, 2, -1),
            (-1, -1, -2)]
    if tier != 'quick':
        alld += [(3, 1, 1), (1, 4, 1), (2, 3, 2), (-3, 2, 1), (1, 1, 5),
                 (3, 3, 1)]
    for dims in alld:
        for direc in (None, -1):
            for m in (None, 2):
                out.append(Case('struct-%s-%s-m%s' % (
                    'x'.join(map(str, dims)), direc, m), struct, dict(
                    dims=dims, direc=direc, method=m)))
    for dims in alld[:8]:
        out.append(Case('traj-%s' % 'x'.join(map(str, dims)), traj,
                        dict(dims=dims)))
    out.append(Case('scell3d', traj, dict(dims=(2, 1, 2), nosym=True)))
    out.append(Case('nosymbols', nosym))
    out += [Case('struct integers', struct, dict(
                dims=(2, 1, 3), direc=None, method=None), ints=('h', 'x')),
            Case('traj integers', traj, dict(dims=(1, 2, 1)),
                 ints=('p0', 'p1', 'x'))]
    out.append(Case('many atoms', struct, dict(dims=(2, 1, 2), direc=None,
                                               method=None, na=5)))
    out.append(Case('many cells', struct, dict(dims=(11, 1, 2), direc=None,
                                               method=None)))
    out += rescaled(
        out,
        ('many atoms', dict(h=1e-07)),
        ('many atoms', dict(h=1e+06)),
        ('traj-1x2x1', dict(p0=1e-07, p1=1e-07)),
        ('scell3d', dict(p0=1e+06, p1=1e+06)))
    return out
