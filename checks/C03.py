"""Coordinate transformations keep the point in space."""
from symx.run import Case

META = {
    'title': 'Coordinate transformation keeps every point where it is in space',
    'statement': 'Transforming coordinates between two bases describes the '
    'same point in space, is undone by the reverse transformation, for '
    'arrays of any rank with xyz on any axis, and touches its input only if '
    'in-place work is asked for (then the input holds the result). For '
    'trajectories each step is transformed with its own pair of cells for '
    'any time axis. The compiled fractional<->cartesian kernels do the same '
    'for single structures and trajectories.',
    'forall': 'every pair of non-singular bases, every coordinates array, '
    'xyz axis and time axis',
    'why': 'transposition and axis mistakes cancel for the symmetric or '
    'orthogonal cells tests use',
    'files': ['src/pwtools/crys.py', 'src/_ext_src/flib.f90'],
    'mech': ['coord_trans @ crys.py:coord_trans',
             'coord_trans3d @ crys.py:coord_trans3d',
             'kernels @ flib.f90:frac2cart, cart2frac, *_traj'],
}
BOUNDS = {'quick': 'all cells (diag [2,4], off-diag [-.6,.6], det>0) as old '
          'and/or new basis, all coordinates; arrays of rank 1-4 with 1-3 '
          'vectors, every xyz axis, every time axis, 2 time steps'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'more atoms/steps (the code is uniform in both)'


def general(ctx, shape, axis, dim=3, both=False, ints=False):
    crys = ctx.mod('crys')
    np = ctx.np
    old = ctx.cell('p', mode='tri' if both else 'full')
    new = ctx.cell('q', mode='tri') if both else np.identity(3)
    if dim == 2:
        old = ctx.arr(old[:2, :2])
        new = ctx.arr(new[:2, :2])
    x = ctx.ints('x', shape, -3, 3) if ints else ctx.reals('x', shape)
    x0 = x.copy()
    y = crys.coord_trans(x, old=old, new=new, axis=axis)
    ctx.eq(x, x0, 'input untouched')
    ax = axis if axis >= 0 else x.ndim + axis
    xl = np.rollaxis(x, ax, x.ndim)
    yl = np.rollaxis(y, ax, x.ndim)
    ctx.eq(np.dot(yl, new), np.dot(xl, old), 'same point')
    z = crys.coord_trans(y, old=new, new=old, axis=axis)
    ctx.eq(z, x, 'round trip')
    if ints:
        return
    w = x.copy()
    r = crys.coord_trans(w, old=old, new=new, axis=axis, copy=False)
    ctx.eq(w, y, 'copy=False writes in place')
    ctx.eq(r, y, 'copy=False returns the result')


def trans3d(ctx, timeaxis, axis, mode):
    crys = ctx.mod('crys')
    np = ctx.np
    nt, na = 2, 2
    olds = ctx.arr([ctx.cell('p%i' % t, mode='tri') for t in range(nt)])
    if mode == 'tocart':
        news = ctx.arr([np.identity(3)] * nt)
    else:
        news = ctx.arr([ctx.cell('q%i' % t, mode='diag') for t in range(nt)])
    shape = [na, 3] if axis in (1, -1) else [3, na]
    base = [ctx.reals('x%i' % t, tuple(shape)) for t in range(nt)]
    x = ctx.arr(base)
    if timeaxis:
        x, o, n = [np.rollaxis(a, 0, timeaxis + 1) for a in (x, olds, news)]
    else:
        o, n = olds, news
    x0 = x.copy()
    y = crys.coord_trans3d(x, old=o, new=n, axis=axis, timeaxis=timeaxis)
    ctx.eq(x, x0, 'input untouched')
    ref = ctx.arr([crys.coord_trans(base[t], old=olds[t], new=news[t],
                                    axis=axis) for t in range(nt)])
    if timeaxis:
        ref = np.rollaxis(ref, 0, timeaxis + 1)
    ctx.eq(y, ref, 'per step')
    ctx.eq(crys.coord_trans3d(y, old=n, new=o, axis=axis,
                              timeaxis=timeaxis), x, 'round trip')


def flib(ctx, na):
    fl = ctx.mod('_flib')
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.cell()
    x = ctx.reals('x', (na, 3))
    c = fl.frac2cart(x, cell)
    ctx.eq(c, np.dot(x, cell), 'frac2cart')
    ctx.eq(fl.cart2frac(c, cell), x, 'cart2frac inverts')
    ctx.eq(fl.cart2frac(x, cell),
           crys.coord_trans(x, old=np.identity(3), new=cell),
           'cart2frac = coord_trans')


def flib_traj(ctx):
    fl = ctx.mod('_flib')
    np = ctx.np
    nt, na = 2, 2
    cells = ctx.arr([ctx.cell('p%i' % t, mode='tri') for t in range(nt)])
    x = ctx.reals('x', (nt, na, 3))
    c = fl.frac2cart_traj(x, cells)
    ctx.eq(c, [np.dot(x[t], cells[t]) for t in range(nt)], 'frac2cart_traj')
    ctx.eq(fl.cart2frac_traj(c, cells), x, 'cart2frac_traj inverts')


def cases(tier):
    out = []
    for shape, axes in [((3,), (0, -1)), ((2, 3), (1, -1)), ((3, 2), (0,)),
                        ((2, 3, 2), (1,)), ((3, 2, 2), (0,)),
                        ((2, 1, 3), (2, -1)), ((3, 2, 1, 2), (0,)),
                        ((1, 2, 3, 2), (2,)), ((1, 2, 1, 3), (-1,)),
                        ((2, 3, 3), (1, 2)), ((3, 3), (0, 1)),
                        ((2, 3, 2), (-2,))]:
        for ax in axes:
            n = 'x'.join(map(str, shape))
            out.append(Case('trans-%s-axis%i' % (n, ax), general,
                            dict(shape=shape, axis=ax)))
    out.append(Case('trans-both', general, dict(shape=(1, 3), axis=-1,
                                                both=True)))
    for n, shape, ax in (('1', (3,), -1), ('2', (2, 3), -1), ('3', (3, 2), 0)):
        out.append(Case('trans integer coords ' + n, general,
                        dict(shape=shape, axis=ax, ints=True)))
    out.append(Case('trans-2d', general, dict(shape=(2, 2), axis=1, dim=2)))
    out.append(Case('trans-2d-axis0', general, dict(shape=(2, 3), axis=0,
                                                    dim=2)))
    for ta in (0, 1, 2):
        for ax in (0, 1, -1):
            for mode in ('tocart', 'both'):
                out.append(Case('trans3d-time%i-axis%i-%s' % (ta, ax, mode),
                                trans3d, dict(timeaxis=ta, axis=ax,
                                              mode=mode)))
    for na in (1, 2, 3):
        out.append(Case('flib-%i' % na, flib, dict(na=na)))
    out.append(Case('flib-traj', flib_traj))
    out += [Case('many vectors', general, dict(shape=(11, 3), axis=-1)),
            Case('many vectors, axis 0', general, dict(shape=(3, 11), axis=0)),
            Case('many atoms and steps', general, dict(shape=(4, 11, 3),
                                                       axis=-1)),
            Case('flib-many', flib, dict(na=11))]
    for f in (1e-7, 1e6):
        out += [Case('trans', general, dict(shape=(2, 3), axis=1)).scaled(p=f),
                Case('trans', general, dict(shape=(3, 2), axis=0)).scaled(
                    x=f),
                Case('flib', flib, dict(na=2)).scaled(h=f)]
    return out
