"""Structure/Trajectory: derived attributes and units."""
from symx.run import Case, rescaled

META = {
    'title': 'Structures derive every missing quantity, in the right units, once',
    'statement': 'A structure or trajectory built from any sufficient subset '
    'of its inputs (cartesian and/or fractional coordinates, cell or cell '
    'constants given once or per step) has consistent remaining ones: '
    'coordinates, cell, volume, pressure (a third of the stress trace), '
    'species bookkeeping, masses, time axis, velocities, kinetic energy and '
    'temperature, and leaves None what cannot be derived. Unit factors '
    'multiply exactly the quantities they belong to (lengths but not angles) '
    'and exactly once, however often attributes are recomputed or the object '
    'is copied; unknown inputs and units are refused.',
    'forall': 'all values of all inputs, all unit factors, all combinations '
    'of given/missing inputs, all histories of recomputation and copying',
    'over': ['inputs', 'configurations', 'histories'],
    'why': 'input combinations times unit factors times call histories are '
    'too many for examples, and wrong factors are invisible at factor 1',
    'files': ['src/pwtools/crys.py', 'src/pwtools/base.py'],
    'mech': ['units @ crys.py:UnitsHandler', 'getters @ crys.py:Structure.get_*',
             'broadcast @ crys.py:Structure._extend*',
             'lazy getters @ base.py:FlexibleGetters'],
}
BOUNDS = {'quick': '1-2 atoms from 4 species patterns, 1-3 steps, '
          'triclinic/diagonal cells, unit factors 1 or in [1.1,2], histories of '
          'up to 3 recompute/copy operations'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'ASE and spglib exchange formats'

Z = {'Al': 13, 'N': 7, 'O': 8, 'Si': 14, 'H': 1}
MASS = {'Al': 26.981538, 'N': 14.0067, 'O': 15.9994, 'Si': 28.0855,
        'H': 1.00794}


def close(ctx, a, b, label):
    """literal physical constants: same to 1e-3 relative"""
    ctx.check(abs(float(a) - b) <= 1e-3 * abs(b), label)


def book(ctx, o, sy):
    u = sorted(set(sy))
    ctx.check(o.natoms == len(sy), 'natoms')
    ctx.check(list(o.symbols) == list(sy), 'symbols')
    ctx.check(list(o.symbols_unique) == u, 'symbols_unique')
    ctx.check(dict(o.order) == {s: i + 1 for i, s in enumerate(u)}, 'order')
    ctx.check(list(o.typat) == [u.index(s) + 1 for s in sy], 'typat')
    ctx.check(list(o.znucl) == [Z[s] for s in sy], 'znucl')
    ctx.check(list(o.znucl_unique) == [Z[s] for s in u], 'znucl_unique')
    ctx.check(o.ntypat == len(u), 'ntypat')
    ctx.check(dict(o.nspecies) == {s: list(sy).count(s) for s in u},
              'nspecies')
    for m, s in zip(o.mass, sy):
        close(ctx, m, MASS[s], 'mass')
    for m, s in zip(o.mass_unique, u):
        close(ctx, m, MASS[s], 'mass_unique')
    ctx.check(len(o.mass) == len(sy) and len(o.mass_unique) == len(u), 'len')


PATS = [['Al'], ['N', 'Al'], ['Si', 'O', 'Si'], ['O', 'H', 'H'],
        ['H', 'Si', 'O', 'H', 'Al', 'N', 'Al', 'O', 'H', 'H', 'N', 'Si']]


def struct(ctx, xin, hin, pat, auto, units, ints=False):
    crys = ctx.mod('crys')
    np = ctx.np
    sy = PATS[pat]
    na = len(sy)
    U = {k: ctx.num(1) for k in ('length', 'energy', 'stress', 'forces')}
    kw = {}
    if units:
        U = {k: ctx.real('u_' + k, 1.1, 2) for k in U}
        kw['units'] = dict(U)
    Lf = U['length']
    rd = ctx.ints if ints else ctx.reals
    x = rd('x', (na, 3), -1, 1)
    cell = ctx.cell(mode='tri' if hin == 'cell' else 'diag')
    if ints:
        cc = ctx.ints('l', (6,), 2, 5)
        cc[3:] = 90
        cell = ctx.arr([[cc[0], 0, 0], [0, cc[1], 0], [0, 0, cc[2]]])
    h = None
    if hin == 'cell':
        kw['cell'] = cell
        h = cell * Lf
    elif hin == 'cc':
        kw['cryst_const'] = cc if ints else ctx.arr([
            cell[0, 0], cell[1, 1], cell[2, 2], 90., 90., 90.])
        h = cell * Lf
    elif hin == 'cc2':
        # gamma = 60: b = b/2 (1, sqrt 3, 0)
        a, b, c = [cell[k, k] for k in range(3)]
        kw['cryst_const'] = ctx.arr([a, b, c, 90., 90., 60.])
        h = ctx.arr([[a, 0, 0], [b / 2, b * ctx.m.sqrt(3) / 2, 0],
                     [0, 0, c]]) * Lf
    elif hin == 'both':
        kw['cell'] = cell
        kw['cryst_const'] = ctx.arr([cell[0, 0], cell[1, 1], cell[2, 2],
                                     90., 90., 90.])
        h = cell * Lf
    s = rd('s', (3, 3), -3, 3)
    f = rd('f', (na, 3), -3, 3)
    e = ctx.real('e', -9, 9)
    kw.update(symbols=sy, stress=s, forces=f, etot=e)
    if xin in ('frac', 'both'):
        kw['coords_frac'] = x
    if xin in ('cart', 'both'):
        kw['coords'] = x if xin == 'cart' else np.dot(x, h) / Lf
    keep = {k: v.copy() for k, v in kw.items() if hasattr(v, 'shape')}
    if auto:
        st = crys.Structure(**kw)
    else:
        st = crys.Structure(set_all_auto=False, **kw)
        ctx.eq(st.stress, s, 'raw before set_all')
        if auto is None:
            st = st.copy()
        st.set_all()
        st.set_all()
        if auto is None:
            st = st.copy()
            st.set_all()
    book(ctx, st, sy)
    for k, v in keep.items():
        ctx.eq(kw[k], v, 'input arrays untouched')
    ctx.eq(st.stress, s * U['stress'], 'stress')
    tr = s[0, 0] + s[1, 1] + s[2, 2]
    ctx.eq(st.pressure, tr * U['stress'] / 3, 'pressure')
    ctx.eq(st.forces, f * U['forces'], 'forces')
    ctx.eq(st.etot, e * U['energy'], 'etot')
    if h is None:
        ctx.check(st.cell is None and st.cryst_const is None and
                  st.volume is None, 'no cell data')
        if xin == 'cart':
            ctx.eq(st.coords, x * Lf, 'coords')
            ctx.check(st.coords_frac is None, 'coords_frac unknown')
        else:
            ctx.eq(st.coords_frac, x, 'coords_frac')
            ctx.check(st.coords is None, 'coords unknown')
        return
    ctx.eq(st.cell, h, 'cell')
    ctx.eq(st.volume, ctx.det3(h), 'volume')
    ctx.eq(st.cryst_const[:3]**2, (h**2).sum(axis=1), 'lengths')
    if hin != 'cell':
        ctx.eq(st.cryst_const[3:], [90, 90, 60 if hin == 'cc2' else 90],
               'angles')
    if xin == 'cart':
        ctx.eq(st.coords, x * Lf, 'coords')
        ctx.eq(np.dot(st.coords_frac, h), st.coords, 'coords_frac')
    else:
        ctx.eq(st.coords_frac, x, 'coords_frac')
        ctx.eq(st.coords, np.dot(x, h), 'coords')


def traj(ctx, xin, hin, nt, units, auto, vel='calc'):
    crys = ctx.mod('crys')
    con = ctx.mod('constants')
    np = ctx.np
    sy = PATS[1]
    na = 2
    U = {k: ctx.num(1) for k in ('length', 'energy', 'stress', 'forces',
                                 'time', 'velocity', 'temperature')}
    kw = {}
    if units:
        U = {k: ctx.real('u_' + k, 1.1, 2) for k in U}
        kw['units'] = dict(U)
    Lf = U['length']
    x = ctx.reals('x', (nt, na, 3), -1, 1)
    one = hin in ('cell2', 'cell1', 'cc1', 'cc2')
    cells = [ctx.cell('h%i' % (0 if one else t),
                      mode='diag' if 'cc' in hin else 'tri')
             for t in range(1 if one else nt)]
    if one:
        cells = cells * nt
    h = ctx.arr(cells) * Lf
    cc = ctx.arr([[c[0, 0], c[1, 1], c[2, 2], 90., 90., 90.] for c in cells])
    if hin == 'cell2':
        kw['cell'] = cells[0]
    elif hin == 'cell1':
        kw['cell'] = ctx.arr([cells[0]])
    elif hin == 'cell':
        kw['cell'] = ctx.arr(cells)
    elif hin == 'cc':
        kw['cryst_const'] = cc
    elif hin == 'cc1':
        kw['cryst_const'] = cc[:1]
    elif hin == 'cc2':
        kw['cryst_const'] = cc[0]
    dt = ctx.real('dt', 0.5, 3)
    s = ctx.reals('s', (nt, 3, 3))
    e = ctx.reals('e', nt)
    kw.update(symbols=sy, stress=s, etot=e, timestep=dt)
    kw['coords_frac' if xin == 'frac' else 'coords'] = x
    if vel == 'given':
        v = ctx.reals('v', (nt, na, 3))
        kw['velocity'] = v
    if vel == 'none':
        del kw['timestep']
    if vel == 'all':
        k_ = ctx.reals('k', nt)
        T_ = ctx.reals('T', nt)
        kw.update(ekin=k_, temperature=T_)
    if auto:
        tr = crys.Trajectory(**kw)
    else:
        tr = crys.Trajectory(set_all_auto=False, **kw)
        if auto is None:
            tr = tr.copy()
        tr.set_all()
        tr = tr.copy()
        tr.set_all()
    book(ctx, tr, sy)
    ctx.check(tr.nstep == nt, 'nstep')
    ctx.eq(tr.cell, h, 'cell')
    for t in range(nt):
        ctx.eq(tr.volume[t], ctx.det3(h[t]), 'volume')
        ctx.eq(tr.cryst_const[t, :3]**2, (h[t]**2).sum(axis=1), 'lengths')
        ctx.eq(tr.pressure[t], (s[t, 0, 0] + s[t, 1, 1] + s[t, 2, 2]) / 3 *
               U['stress'], 'pressure')
        if xin == 'frac':
            ctx.eq(tr.coords[t], np.dot(x[t], h[t]), 'coords')
        else:
            ctx.eq(np.dot(tr.coords_frac[t], h[t]), tr.coords[t],
                   'coords_frac')
    if xin == 'frac':
        ctx.eq(tr.coords_frac, x, 'coords_frac kept')
    else:
        ctx.eq(tr.coords, x * Lf, 'coords scaled')
    ctx.eq(tr.stress, s * U['stress'], 'stress')
    ctx.eq(tr.etot, e * U['energy'], 'etot')
    if vel == 'none':
        for n in ('timestep', 'time', 'velocity', 'ekin', 'temperature'):
            ctx.check(getattr(tr, n) is None, n + ' unknown')
        return
    dtu = dt * U['time']
    ctx.eq(tr.timestep, dtu, 'timestep')
    ctx.eq(tr.time, [dtu * t for t in range(nt)], 'time axis')
    if vel == 'given':
        ref = v * U['velocity']
    elif nt < 3:
        for n in ('velocity', 'ekin', 'temperature'):
            ctx.check((getattr(tr, n) is None) == (vel == 'calc' or
                                                   n == 'velocity'),
                      n + ' needs 3 steps')
        if vel == 'calc':
            return
        ref = None
    else:
        c = tr.coords
        ref = [(c[t + 1] - c[t - 1]) / (2 * dtu) for t in range(1, nt - 1)]
        ref = ctx.arr([ref[0]] + ref + [ref[-1]])
    if ref is not None:
        ctx.eq(tr.velocity, ref, 'velocity')
    if vel == 'all':
        ctx.eq(tr.ekin, k_ * U['energy'], 'ekin given')
        ctx.eq(tr.temperature, T_ * U['temperature'], 'temperature given')
        return
    # 1/2 m v^2 [amu Ang^2 / fs^2] in eV
    fac = 1e10 * con.amu / con.eV
    close(ctx, fac, 103.6427, 'amu Ang^2/fs^2 in eV')
    close(ctx, con.eV / con.kb, 11604.5, 'eV in K')
    for t in range(nt):
        ek = sum((ref[t, i]**2).sum() * ctx.num(tr.mass[i])
                 for i in range(na)) * ctx.num(fac) / 2
        ctx.eq(tr.ekin[t], ek, 'kinetic energy')
        ctx.eq(tr.temperature[t] * 3 * na / 2 * ctx.num(con.kb / con.eV), ek,
               'equipartition')


def refuse(ctx):
    crys = ctx.mod('crys')
    x = ctx.reals('x', (2, 3))
    for C, y in ((crys.Structure, x), (crys.Trajectory, ctx.arr([x]))):
        ctx.raises(Exception, lambda: C(coords=y, units={'foo': 2.0}),
                   'unknown unit')
        ctx.raises(AssertionError, lambda: C(coords=y, foo=1), 'unknown attr')
        ctx.raises(AssertionError, lambda: C(coords=y, natoms=2),
                   'derived attr as input')
    ctx.raises(AssertionError, lambda: crys.Trajectory(coords=x),
               'trajectory coords must be 3d')
    for n in ('nstep', 'timestep', 'time', 'velocity', 'ekin', 'temperature'):
        st = crys.Structure(coords=x)
        ctx.raises(NotImplementedError, getattr(st, 'get_' + n),
                   'trajectory-only quantity')


def cases(tier):
    out = [Case('refuse', refuse)]
    k = 0
    for xin in ('frac', 'cart', 'both'):
        for hin in ('cell', 'cc', 'cc2', 'both', None):
            if xin == 'both' and hin is None:
                continue
            for auto in (True, False, None):
                for units in (False, True):
                    k += 1
                    out.append(Case('struct-%s-%s-%s-%i' % (
                        xin, hin, auto, units), struct, dict(
                        xin=xin, hin=hin, pat=k % 4, auto=auto,
                        units=units)))
    for xin in ('frac', 'cart'):
        for hin in ('cell', 'cell2', 'cell1', 'cc', 'cc1', 'cc2'):
            for auto, units in ((True, False), (True, True), (False, True),
                                (None, True)):
                for vel in ('calc', 'given', 'none', 'all'):
                    k += 1
                    if tier == 'quick' and k % 3:
                        continue
                    out.append(Case('traj-%s-%s-%s-%i-%s' % (
                        xin, hin, auto, units, vel), traj, dict(
                        xin=xin, hin=hin, nt=3, auto=auto, units=units,
                        vel=vel)))
    for nt in (1, 2):
        for hin in ('cell', 'cc2', 'cell1'):
            for vel in ('calc', 'given', 'none', 'all'):
                out.append(Case('traj-%i-%s-%s' % (nt, hin, vel), traj, dict(
                    xin='frac', hin=hin, nt=nt, auto=True, units=True,
                    vel=vel)))
    for xin in ('frac', 'cart'):
        for hin in ('cell', 'cc'):
            for units in (False, True):
                out.append(Case('struct integers %s %s %i' % (
                    xin, hin, units), struct, dict(
                    xin=xin, hin=hin, pat=1, auto=True, units=units,
                    ints=True)))
    for xin in ('frac', 'cart'):
        out.append(Case('struct-many-%s' % xin, struct, dict(
            xin=xin, hin='cc', pat=4, auto=True, units=False)))
    for hin, vel in (('cell', 'calc'), ('cell1', 'none')):
        out.append(Case('traj-many-%s-%s' % (hin, vel), traj, dict(
            xin='frac', hin=hin, nt=11, auto=True, units=True, vel=vel)))
    out += rescaled(
        out,
        ('struct-frac-cell-True-0', dict(h=1e-06, e=1e-06)),
        ('traj-many-cell-calc', dict(h=1e-06, e=1e-06, s=1e-09)))
    return out
