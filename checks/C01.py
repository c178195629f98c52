"""Cell <-> crystallographic constants <-> celldm, volumes, 3d variants."""
from symx.run import Case

META = {
    'title': 'Cell parameters convert without losing the lattice',
    'statement': 'Converting cell vectors to lengths and angles yields '
    'exactly the lengths and angles of those vectors, and converting back '
    'yields a right-handed cell with the same metric (a along +x, b in the '
    'upper xy plane), so a round trip in either direction changes nothing; '
    'the conversion to and from the celldm form (with or without a unit '
    'factor) is lossless too. The volume is the same, positive number whether '
    'computed from vectors or from lengths and angles. The trajectory '
    'variants of all of these give the per-step results for any position of '
    'the time axis.',
    'forall': 'every non-degenerate triclinic cell, every valid set of '
    'lengths/angles, every length factor, every time axis',
    'why': 'tests compare a handful of literal cells; orientation, '
    'handedness, order of the angles and the factor conventions must hold '
    'for all real cells',
    'files': ['src/pwtools/crys.py'],
    'mech': ['cell2cc @ crys.py:cell2cc', 'cc2cell @ crys.py:cc2cell',
             'celldm @ crys.py:cc2celldm, celldm2cc',
             'volumes @ crys.py:volume_cell, volume_cc',
             'time variants @ crys.py:*3d'],
}
BOUNDS = {'quick': 'all real cells with diagonal in [2,4], off-diagonal in '
          '[-0.6,0.6]; all cryst_const with lengths in [1,3], angles in '
          '[55,105] deg and positive Gram determinant; trajectories of 2-3 '
          'steps, every time axis; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'degenerate (flat) cells; rounding errors'


def cc_in(ctx, n=''):
    v = [ctx.real(x + n, 1, 3) for x in 'abc']
    v += [ctx.real(x + n, 55, 105) for x in ('al', 'be', 'ga')]
    rad = ctx.m.radians
    ca, cb, cg = [ctx.m.cos(x * ctx.PI / 180) for x in v[3:]]
    ctx.assume(1 + 2 * ca * cb * cg - ca**2 - cb**2 - cg**2 > 0.02)
    return ctx.arr(v)


def cell2cc(ctx, left=False):
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.cell()
    if left:
        cell = ctx.arr([cell[1], cell[0], cell[2]])
    cc = crys.cell2cc(cell)
    ctx.eq(cc[:3]**2, (cell**2).sum(axis=1), 'lengths')
    for k, (i, j) in enumerate([(1, 2), (0, 2), (0, 1)]):
        ctx.eq(ctx.m.cos(cc[3 + k] * ctx.PI / 180) * cc[i] * cc[j],
               np.dot(cell[i], cell[j]), 'angle %i' % k)
        ctx.check(cc[3 + k] >= 0, 'angle positive')
        ctx.check(cc[3 + k] <= 180, 'angle < 180')
    vol = crys.volume_cell(cell)
    ctx.eq(vol, abs(ctx.det3(cell)), 'volume = |det|')
    ctx.eq(crys.volume_cc(cc), vol, 'volume_cc = volume_cell')
    c2 = crys.cc2cell(cc)
    ctx.eq(np.dot(c2, c2.T), np.dot(cell, cell.T), 'same metric tensor')
    ctx.eq([c2[0, 1], c2[0, 2], c2[1, 2]], [0, 0, 0], 'a || x, b in xy')
    ctx.check(c2[0, 0] > 0, 'a along +x')
    ctx.check(c2[1, 1] > 0, 'b in upper half')
    ctx.check(c2[2, 2] > 0, 'right-handed')
    ctx.eq(crys.volume_cell(c2), vol, 'volume kept')
    ctx.eq(crys.cell2cc(c2), cc, 'cc kept')


def cc2cell(ctx):
    crys = ctx.mod('crys')
    cc = cc_in(ctx)
    cell = crys.cc2cell(cc)
    ctx.eq(crys.volume_cell(cell), crys.volume_cc(cc), 'volume')
    ctx.eq(crys.cell2cc(cell), cc, 'cell2cc(cc2cell(cc)) = cc')
    ctx.eq(cell[0], [cc[0], 0, 0], 'a along x')
    ctx.eq(cell[1, 2], 0, 'b in xy plane')
    ctx.check(cell[1, 1] > 0, 'b_y > 0')
    ctx.check(cell[2, 2] > 0, 'c_z > 0')


def celldm(ctx):
    crys = ctx.mod('crys')
    cc = cc_in(ctx)
    fac = ctx.real('fac', 0.5, 2)
    dm = crys.cc2celldm(cc, fac=fac)
    ctx.eq(dm[:3], [cc[0] * fac, cc[1] / cc[0], cc[2] / cc[0]], 'lengths')
    ctx.eq(dm[3:], [ctx.m.cos(x * ctx.PI / 180) for x in cc[3:]], 'cosines')
    ctx.eq(crys.celldm2cc(dm, fac=1 / fac), cc, 'inverse')
    dm1 = crys.cc2celldm(cc)
    ctx.eq(dm1[0], cc[0], 'fac default')
    ctx.eq(crys.celldm2cc(dm1), cc, 'inverse, default fac')
    cc3 = crys.celldm2cc(dm1, fac=fac)
    ctx.eq(cc3[:3], cc[:3] * fac, 'all lengths scale with fac')
    ctx.eq(cc3[3:], cc[3:], 'angles do not')


def traj(ctx, axis):
    """3d variants = per-step loop, on any time axis"""
    crys = ctx.mod('crys')
    np = ctx.np
    nt = 3
    cells = ctx.reals('h', (nt, 3, 3), -0.4, 0.4)
    cells = cells + 2 * np.identity(3)
    x = np.rollaxis(cells, 0, axis + 1) if axis else cells
    cc = crys.cell2cc3d(x, axis=axis)
    ctx.eq(cc, [crys.cell2cc(cells[i]) for i in range(nt)], 'cell2cc3d')
    v = crys.volume_cell3d(x, axis=axis)
    ctx.eq(v, [crys.volume_cell(cells[i]) for i in range(nt)], 'volume3d')


def traj_cc(ctx, axis):
    crys = ctx.mod('crys')
    ccs = [cc_in(ctx, str(i)) for i in range(2)]
    x = ctx.arr(ccs)
    if axis:
        x = x.T
    ctx.eq(crys.cc2cell3d(x, axis=axis), [crys.cc2cell(c) for c in ccs],
           'cc2cell3d')
    ctx.eq(crys.volume_cc3d(x, axis=axis), [crys.volume_cc(c) for c in ccs],
           'volume_cc3d')


def cases(tier):
    out = [Case('cell2cc', cell2cc), Case('cc2cell', cc2cell),
           Case('celldm', celldm),
           Case('cell2cc-left', cell2cc, dict(left=True))]
    for ax in (0, 1, 2):
        out.append(Case('cell3d-axis%i' % ax, traj, dict(axis=ax)))
    for ax in (0, 1):
        out.append(Case('cc3d-axis%i' % ax, traj_cc, dict(axis=ax)))
    out += [Case('cell2cc integers', cell2cc, ints=('h',))]
    for f in (1e-7, 1e6):
        out += [Case('cell2cc', cell2cc).scaled(h=f),
                Case('cc2cell', cc2cell).scaled(a=f, b=f, c=f),
                Case('cell3d', traj, dict(axis=0)).scaled(h=f)]
    return out
