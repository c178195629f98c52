"""Periodic wrapping and the minimum image convention."""
from symx.run import Case

META = {
    'title': 'Periodic wrapping only ever moves by whole lattice vectors',
    'statement': 'Wrapping puts each selected fractional component into '
    '[0,1) by adding an integer, leaves components outside the mask alone, '
    'is idempotent, and for structures/trajectories recomputes the cartesian '
    'coordinates while leaving the original object alone unless in-place '
    'work is requested. The minimum image convention maps every difference '
    'to [-1/2,1/2] by adding an integer, so that no other image along an '
    'axis is shorter, touching its input only when not asked to copy.',
    'forall': 'every coordinate (including exact integers and halves), mask, '
    'xyz axis, both copy modes',
    'why': 'boundary values 0, 1, +-1/2 and multi-cell offsets are measure '
    'zero for sampled inputs',
    'files': ['src/pwtools/crys.py'],
    'mech': ['pbc_wrap_coords @ crys.py:pbc_wrap_coords',
             'pbc_wrap @ crys.py:pbc_wrap',
             'min image @ crys.py:min_image_convention'],
}
BOUNDS = {'quick': 'all fractional coordinates in [-2.3,2.3] (wrap) resp. '
          'differences in [-2.4,2.4] (minimum image), arrays of rank 2 and 3, '
          'every xyz axis and mask; cells triclinic'
          '; larger single cases, 5 to 13 items long'}
OUTSIDE = 'larger offsets, larger arrays'


def wrapped(ctx, y, x, mask, label):
    """y = wrapped x: differs by an integer, lies in [0,1)"""
    for i, (a, b) in enumerate(zip(y, x)):
        if mask[i % 3]:
            ctx.check(a >= 0, label + ' >= 0')
            ctx.check(a < 1, label + ' < 1')
            d = b - a
            ctx.eq(ctx.np.round(d), d, label + ' integer shift')
        else:
            ctx.eq(a, b, label + ' unmasked untouched')


def coords(ctx, shape, axis, mask, ints=False):
    crys = ctx.mod('crys')
    np = ctx.np
    x = ctx.ints('x', shape, -2, 2) if ints else \
        ctx.reals('x', shape, -2.3, 2.3)
    x0 = x.copy()
    kw = {} if mask is None else dict(mask=mask)
    m = mask or [True] * 3
    if axis is not None:
        kw['xyz_axis'] = axis
    y = crys.pbc_wrap_coords(x, **kw)
    ctx.eq(x, x0, 'copy=True keeps the input')
    ax = -1 if axis is None else axis
    ax = ax if ax >= 0 else len(shape) + ax
    f = lambda a: np.rollaxis(a, ax, a.ndim).ravel()
    wrapped(ctx, f(y), f(x), m, 'wrap')
    ctx.eq(crys.pbc_wrap_coords(y, **kw), y, 'idempotent')
    w = x.copy()
    r = crys.pbc_wrap_coords(w, copy=False, **kw)
    ctx.eq(w, y, 'copy=False in place')
    ctx.eq(r, y, 'copy=False result')


def far(ctx):
    """any number of cells away"""
    crys = ctx.mod('crys')
    x = ctx.arr([[ctx.real('x', -60, 60), 0.25, 1.0]])
    y = crys.pbc_wrap_coords(x)
    wrapped(ctx, y.ravel(), x.ravel(), [True] * 3, 'far')


def obj(ctx, traj, copy, mask, ints=False):
    crys = ctx.mod('crys')
    np = ctx.np
    n = (2, 1, 3) if traj else (2, 3)
    x = ctx.ints('x', n, -1, 1) if ints else ctx.reals('x', n, -1.6, 1.6)
    x0 = x.copy()
    kw = {} if mask is None else dict(mask=mask)
    m = mask or [True] * 3
    if traj:
        cell = ctx.arr([ctx.cell('p%i' % t, mode='tri') for t in range(2)])
        o = crys.Trajectory(coords_frac=x, cell=cell, symbols=['Al'])
    else:
        cell = ctx.cell(mode='tri')
        o = crys.Structure(coords_frac=x, cell=cell, symbols=['Al', 'N'])
    r = crys.pbc_wrap(o, copy=copy, **kw)
    wrapped(ctx, r.coords_frac.ravel(), x0.ravel(), m, 'wrap')
    if traj:
        ref = [np.dot(r.coords_frac[t], cell[t]) for t in range(2)]
    else:
        ref = np.dot(r.coords_frac, cell)
    ctx.eq(r.coords, ref, 'cartesian coords recalculated')
    ctx.eq(r.cell, cell, 'cell kept')
    if copy:
        ctx.eq(o.coords_frac, x0, 'original object untouched')
        ctx.eq(o.coords[0], np.dot(x0[0], cell[0]) if traj
               else np.dot(x0, cell)[0], 'original coords untouched')
    else:
        ctx.check(r is o, 'in place')


def minimg(ctx, shape, copy, ints=False):
    crys = ctx.mod('crys')
    np = ctx.np
    x = ctx.ints('x', shape, -2, 2) if ints else \
        ctx.reals('x', shape, -2.4, 2.4)
    x0 = x.copy()
    if copy is None:
        y = crys.min_image_convention(x)
    else:
        y = crys.min_image_convention(x, copy=copy)
    if copy:
        ctx.eq(x, x0, 'copy=True keeps the input')
    else:
        ctx.eq(x, y, 'in place')
    for a, b in zip(y.ravel(), x0.ravel()):
        ctx.check(a >= -0.5, '>= -1/2')
        ctx.check(a <= 0.5, '<= 1/2')
        d = b - a
        ctx.eq(np.round(d), d, 'integer shift')
        # no other image is shorter
        ctx.check(a * a <= (a + 1)**2, 'shortest +')
        ctx.check(a * a <= (a - 1)**2, 'shortest -')


def cases(tier):
    out = []
    T, F = True, False
    out.append(Case('far', far))
    for shape, axis in [((2, 3), None), ((2, 3), 1), ((3, 2), 0),
                        ((1, 2, 3), None), ((2, 3, 1), 1), ((3, 1, 2), 0),
                        ((3, 3), 0), ((3, 3), -1), ((2, 3, 3), 2),
                        ((2, 3, 2), -2)]:
        for mask in (None, [T, F, T], [F, T, F]):
            out.append(Case('coords-%s-%s-%s' % (
                'x'.join(map(str, shape)), axis, mask and ''.join(
                    'FT'[v] for v in mask)), coords, dict(
                shape=shape, axis=axis, mask=mask)))
    for traj in (F, T):
        for copy in (T, F):
            for mask in (None, [T, T, F]):
                out.append(Case('obj-traj%i-copy%i-%s' % (
                    traj, copy, mask and 'TTF'), obj, dict(
                    traj=traj, copy=copy, mask=mask)))
    for shape in ((2,), (1, 1, 3)) if tier == 'quick' else \
            ((2,), (3,), (1, 1, 3), (2, 2)):
        for copy in (None, T, F):
            out.append(Case('minimg-%s-%s' % ('x'.join(map(str, shape)),
                                              copy), minimg, dict(
                shape=shape, copy=copy)))
    out.append(Case('integer coords', coords, dict(
        shape=(2, 3), axis=None, mask=None, ints=True)))
    out.append(Case('minimg integers', minimg, dict(
        shape=(1, 1, 3), copy=T, ints=True)))
    for traj in (F, T):
        out.append(Case('obj-traj%i integers' % traj, obj, dict(
            traj=traj, copy=T, mask=None, ints=True)))
    out.append(Case('many coords', coords, dict(shape=(11, 3), axis=None,
                                                mask=None)))
    return out
