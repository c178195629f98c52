"""Reciprocal cells and (k-point) grids."""
from symx.run import Case

META = {
    'title': 'Reciprocal cells are dual; grids honour spacing and minima',
    'statement': 'For every right-handed cell the reciprocal cell satisfies '
    'b_i . a_j = 2 pi delta_ij (hence taking it twice returns the cell and '
    'the volumes multiply to (2 pi)^3). A grid requested by spacing h has '
    'the nearest-integer number of points per axis (the next even number at '
    'least that dense when even is requested), but never fewer than '
    'minpoints (a zero count is refused), and the reported spacing times the '
    'size is the axis length; the k-grid is that grid of the reciprocal '
    'cell, also under the alias dk.',
    'forall': 'every right-handed cell, spacing, minpoints, even flag and '
    'explicit size',
    'why': 'rounding and even/minpoints interplay occur at thresholds that '
    'fixed example cells do not hit',
    'files': ['src/pwtools/crys.py'],
    'mech': ['recip_cell @ crys.py:recip_cell',
             'grid_in_cell @ crys.py:grid_in_cell', 'kgrid @ crys.py:kgrid'],
}
BOUNDS = {'quick': 'all right-handed cells with diagonal in [2,4], '
          'off-diagonal in [-0.6,0.6]; grids: cells with one symbolic length '
          'per axis, h in [0.3,3], minpoints 0..3, even on/off, sizes 1..6; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'left-handed cells (the documented formula uses |V|)'


def recip(ctx):
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.cell()
    r = crys.recip_cell(cell)
    ctx.eq(np.dot(r, cell.T), 2 * ctx.PI * np.identity(3), 'duality')
    ctx.eq(crys.volume_cell(r) * crys.volume_cell(cell), (2 * ctx.PI)**3,
           'reciprocal volume')


def recip2(ctx):
    crys = ctx.mod('crys')
    cell = ctx.cell(mode='tri')
    r = crys.recip_cell(cell)
    ctx.eq(crys.recip_cell(r), cell, 'dual of the dual')


def grid(ctx, even, minpoints, fullout):
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.arr([[ctx.real('a', 0.2, 3), 0, 0],
                    [0, ctx.real('b', 0.2, 3), 0], [0, 0, 1]])
    norms = [cell[0, 0], cell[1, 1], cell[2, 2]]
    h = ctx.real('h', 0.8, 3)
    kw = dict(even=even, fullout=fullout)
    if minpoints is not None:
        kw['minpoints'] = minpoints
    mp = 1 if minpoints is None else minpoints
    try:
        res = crys.grid_in_cell(cell, h=h, **kw)
    except Exception as e:
        if 'at least one point count is zero' not in str(e):
            raise
        ctx.check(mp == 0, 'zero counts only without minpoints')
        c = False
        for x in norms:
            c = c | (x <= h * 0.5) if not isinstance(c, bool) else \
                (x <= h * 0.5)
        if minpoints == 0:
            ctx.check((norms[0] <= h / 2) | (norms[1] <= h / 2) |
                      (norms[2] <= h / 2), 'some axis really is too short')
        return
    size = res[0] if fullout else res
    for k in range(3):
        n, x = size[k], norms[k]
        ctx.check(n >= mp, 'minpoints respected')
        ctx.check(n >= 1, 'no empty grid')
        if even:
            ctx.check((n % 2 == 0) | (n == mp), 'even')
            ctx.check(((n <= x / h + 1.5) & (n >= x / h - 0.5)) | (n == mp),
                      'at least as dense as requested')
        else:
            ctx.check(((n <= x / h + 0.5) & (n >= x / h - 0.5)) |
                      ((n == mp) & (x / h <= mp)), 'nearest integer')
        if fullout:
            ctx.eq(res[1][k] * n, x, 'spacing')


def grid_full(ctx):
    """general cell, size -> spacing, kgrid = grid_in_cell(recip_cell)"""
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.cell(mode='tri')
    size = [ctx.idx('n%i' % i, 1, 3) for i in range(3)]
    sp = crys.grid_in_cell(cell, size=size)
    ctx.eq((sp * np.array(size))**2, (cell**2).sum(axis=1), 'spacing*size')
    ctx.eq(crys.kgrid(cell, size=size),
           crys.grid_in_cell(crys.recip_cell(cell), size=size), 'kgrid')


def kgrid_h(ctx, kw):
    crys = ctx.mod('crys')
    a = ctx.real('a', 2, 9)
    b = ctx.real('b', 2, 9)
    cell = ctx.arr([[a, 0, 0], [0, b, 0], [0, 0, 3]])
    h = ctx.real('h', 0.4, 1)
    nrm = [2 * ctx.PI / x for x in (a, b, 3)]
    g = crys.kgrid(cell, h=h, fullout=True, **kw)
    n0 = g[0]
    for k in range(3):
        ctx.eq(g[1][k] * n0[k], nrm[k], 'spacing*size = |b_k|')
        ctx.check(n0[k] >= kw.get('minpoints', 1), 'minpoints')
        if kw.get('even'):
            ctx.check((n0[k] >= nrm[k] / h - 0.5) &
                      (n0[k] <= nrm[k] / h + 1.5) | (n0[k] == 1), 'even')
        else:
            ctx.check((n0[k] >= nrm[k] / h - 0.5), 'dense enough')
    ctx.eq(crys.kgrid(cell, dk=h, **kw), n0, 'dk is h')


def cases(tier):
    out = [Case('recip', recip), Case('recip-dual', recip2),
           Case('grid-size', grid_full)]
    for even in (False, True):
        for mp in (None, 0, 2, 3):
            out.append(Case('grid-h-even%i-min%s' % (even, mp), grid, dict(
                even=even, minpoints=mp, fullout=mp != 2)))
    for kw in ({}, {'even': True}, {'minpoints': 2}):
        out.append(Case('kgrid-h-%s' % '-'.join(kw), kgrid_h, dict(kw=kw)))
    out += [Case('recip integers', recip, ints=('h',)),
            Case('recip-dual integers', recip2, ints=('h',)),
            Case('grid-size integers', grid_full, ints=('h',)),
            Case('kgrid-h integers', kgrid_h, dict(kw={}), ints=('h',))]
    for f in (1e-7, 1e6):
        out += [Case('recip', recip).scaled(h=f),
                Case('recip-dual', recip2).scaled(h=f),
                Case('grid-size', grid_full).scaled(h=f),
                Case('grid', grid, dict(
                    even=False, minpoints=None, fullout=True)).scaled(
                        a=f, b=f, h=f)]
    return out
