"""LAMMPS output and DCD trajectories"""
import os
import struct

from symx.run import Case

META = {
    'title': 'LAMMPS and DCD trajectories are read completely, in the right '
    'units',
    'statement': 'LAMMPS thermo output and dump files are read by column '
    'name: whatever columns there are, in whatever order, over one or '
    'several runs, every value ends up in the quantity, the step and the '
    'atom it was printed for; the cell follows from the box bounds and tilt '
    'factors, the symbols from the symbols file, the given order or the '
    'echoed dump_modify command. From a DCD file all three readers '
    '(read_dcd_data, read_dcd_data_ref and the Fortran read_dcd_data_f, '
    'with and without trusting the number of steps in the header) return '
    'the same cell parameters and coordinates, those which were written, '
    'with angles converted from cosines if asked for; a truncated file is '
    'refused. Parsers which take coordinates from DCD take the cell from '
    'there, too. get_traj converts to Angstrom, fs and GPa.',
    'forall': 'all printed or stored numbers, all signs of the tilt '
    'factors, columns in several orders, all missing columns and files',
    'why': 'free-format columns and a binary format read by three '
    'implementations; tests have one file each',
    'files': ['src/pwtools/parse.py', 'src/pwtools/dcd.py',
              'src/_ext_src/dcd.f90', 'src/pwtools/crys.py'],
    'mech': ['LAMMPS @ parse.py:LammpsTextMDOutputFile, '
             'LammpsDcdMDOutputFile', 'DCD @ dcd.py:read_dcd_data, '
             'read_dcd_data_ref, read_dcd_data_f, '
             'dcd.f90:get_dcd_file_info, read_dcd_data',
             'CP2K with DCD @ parse.py:Cp2kDcdMDOutputFile'],
}
BOUNDS = {'quick': '1-3 atoms, 1-3 steps, 1-2 runs, all values (formatting '
          'and parsing a number is taken to be exact)'
          '; larger single cases, 5 to 13 items long'}
OUTSIDE = ('orthogonal "BOX BOUNDS" without tilt factors, wrapped '
           'coordinates, big-endian DCD files')

SY = ['Al', 'N', 'H'] * 5
EL = ['N', 'Al']
F = '%.16e'


def put(d, name, text):
    fn = os.path.join(d, name)
    with open(fn, 'wb' if isinstance(text, bytes) else 'w') as fd:
        fd.write(text)
    return fn


def same(ctx, v, w, label, **k):
    if w is None or v is None:
        ctx.check(v is None and w is None, label + ': None')
    elif isinstance(w, (bool, str, int)):
        ctx.check(v == w, label)
    elif isinstance(w, list) and w and isinstance(w[0], str):
        ctx.check(list(v) == w, label)
    else:
        ctx.check(tuple(ctx.np.shape(v)) == tuple(ctx.np.shape(w)),
                  label + ': shape')
        ctx.eq(v, w, label, **k)


def parsed(ctx, make, r, **k):
    p = make()
    for n in r:
        same(ctx, getattr(p, 'get_' + n)(), r[n], n, **k)
    p = make()
    for n in reversed(sorted(r)):
        same(ctx, getattr(p, 'get_' + n)(), r[n], n + ' alone', **k)
    p = make()
    p.parse()
    for n in r:
        if n in p.attr_lst:
            same(ctx, getattr(p, n), r[n], n + ' after parse', **k)


# -- LAMMPS text ---------------------------------------------------------------
TH = ['Temp', 'Volume', 'Cella', 'Cellb', 'Cellc', 'CellAlpha', 'CellBeta',
      'CellGamma', 'KinEng', 'PotEng', 'TotEng', 'Press', 'Pxx', 'Pyy',
      'Pzz', 'Pxy', 'Pxz', 'Pyz', 'CPU']
CC = ['Cella', 'Cellb', 'Cellc', 'CellAlpha', 'CellBeta', 'CellGamma']
VO = [['Pxx', 'Pxy', 'Pxz'], ['Pxy', 'Pyy', 'Pyz'], ['Pxz', 'Pyz', 'Pzz']]


def log(ctx, nt, cols, runs=1, dt=None, element=None):
    """thermo log; nt steps per run"""
    n = nt * runs
    rng = {'Volume': (10, 99), 'Temp': (10, 900)}
    v = {}
    for i, c in enumerate(cols):
        lo, hi = rng.get(c, (1 + 0.1 * i, 20 + i))
        if c in CC[:3]:
            lo, hi = 3, 9
        v[c] = ctx.reals('t' + c, n, lo, hi)
        if c in CC[3:]:
            for t in range(n):
                v[c][t] = ctx.num(60 if c == CC[5] else 90)
    s = 'LAMMPS (11 Nov 2013)\n# comment\n\nclear\nunits metal\n'
    if element:
        s += 'dump dump_txt all custom 1 lmp.out.dump id type xu yu zu\n'
        s += 'dump_modify dump_txt sort id element %s\n' % ' '.join(element)
    s += 'thermo_style custom %s\nthermo 1\n' % ' '.join(
        c.lower() for c in cols)
    for r in range(runs):
        if dt is not None:
            s += 'timestep %s\n' % (F % dt)
        s += 'run %i\nMemory usage per processor = 1.7 Mbytes\n' % nt
        # newer versions indent the header
        s += '   ' * ((len(cols) + runs) % 2)
        s += 'Step ' + ' '.join(cols) + ' \n'
        for t in range(r * nt, (r + 1) * nt):
            s += '%8i ' % t + ' '.join('%16s' % (F % v[c][t])
                                       for c in cols) + ' \n'
        s += ('Loop time of 0.0024 on 1 procs (1 MPI x 1 OpenMP) for %i '
              'steps with 4 atoms\n\nPair  time (%%) = 0.001 (44.8)\n'
              'Histogram: 1 0 0 0 0 0 0 0 0 0\n\n' % nt)
    return s, v, n


def thermo(ctx, v, n):
    g = lambda c: v.get(c)
    r = dict(temperature=g('Temp'), volume=g('Volume'), ekin=g('KinEng'),
             etot=g('PotEng'))
    if all(c in v for c in CC):
        r['cryst_const'] = ctx.arr([[v[c][t] for c in CC] for t in range(n)])
    else:
        r['cryst_const'] = None
    if all(c in v for x in VO for c in x):
        r['stress'] = ctx.arr([[[v[c][t] for c in x] for x in VO]
                               for t in range(n)])
    else:
        r['stress'] = None
    return r


def box(ctx, t, tilt=True):
    h = ctx.cell('h%i' % t, mode='tri' if tilt else 'diag')
    lo = ctx.reals('lo%i' % t, 3, -3, 3)
    return h, lo


def bounds(ctx, h, lo):
    """the lines LAMMPS writes for a triclinic box"""
    xy, xz, yz = h[1, 0], h[2, 0], h[2, 1]
    z = ctx.num(0)
    return [(lo[0] + min(z, xy, xz, xy + xz),
             lo[0] + h[0, 0] + max(z, xy, xz, xy + xz), xy),
            (lo[1] + min(z, yz), lo[1] + h[1, 1] + max(z, yz), xz),
            (lo[2], lo[2] + h[2, 2], yz)]


DU = ['id', 'type', 'xsu', 'ysu', 'zsu', 'xu', 'yu', 'zu', 'fx', 'fy', 'fz',
      'vx', 'vy', 'vz']
TY = [1, 2, 1] * 5


def dump(ctx, na, nt, cols, tilt=True):
    real = [c for c in cols if c not in ('id', 'type')]
    v = {c: ctx.reals(c, (nt, na), -3, 3) for c in real}
    hs = []
    s = ''
    for t in range(nt):
        h, lo = box(ctx, t, tilt)
        hs.append(h)
        s += 'ITEM: TIMESTEP\n%i\nITEM: NUMBER OF ATOMS\n%i\n' % (t, na)
        s += 'ITEM: BOX BOUNDS xy xz yz pp pp pp\n'
        for b in bounds(ctx, h, lo):
            s += ' '.join(F % x for x in b) + '\n'
        s += 'ITEM: ATOMS ' + ' '.join(cols) + ' \n'
        for i in range(na):
            s += ' '.join(str(i + 1) if c == 'id' else
                          str(TY[i]) if c == 'type' else F % v[c][t, i]
                          for c in cols) + ' \n'
    return s, v, ctx.arr(hs)


def lammps(ctx, na, nt, cols=TH, dcols=DU, runs=1, sym='file', tilt=True,
           drop=(), traj=True):
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    d = ctx.scratch()
    dt = None if 'dt' in drop else ctx.real('dt', 0.001, 0.1)
    s, v, n = log(ctx, nt, cols, runs, dt, EL if sym == 'echo' else None)
    fn = os.path.join(d, 'log.lammps')
    if 'log' not in drop:
        put(d, 'log.lammps', s)
        r = thermo(ctx, v, n)
        r['timestep'] = dt
    else:
        r = dict.fromkeys(['temperature', 'volume', 'ekin', 'etot', 'stress',
                           'cryst_const', 'timestep'])
    s, v, h = dump(ctx, na, n, dcols, tilt)
    if 'dump' not in drop:
        put(d, 'lmp.out.dump', s)
    else:
        v, h = {}, None
    for k, c in (('coords_frac', ['xsu', 'ysu', 'zsu']),
                 ('coords', ['xu', 'yu', 'zu']),
                 ('forces', ['fx', 'fy', 'fz']),
                 ('velocity', ['vx', 'vy', 'vz'])):
        r[k] = ctx.arr([[[v[x][t, i] for x in c] for i in range(na)]
                        for t in range(n)]) if all(x in v for x in c) \
            else None
    r['cell'] = h
    r['natoms'] = na if h is not None else None
    kw = {}
    if sym == 'file':
        put(d, 'lmp.struct.symbols', '\n'.join(SY[:na]) + '\n')
        r['symbols'] = SY[:na]
    else:
        if sym == 'order':
            kw = dict(order={'Al': 2, 'N': 1})
        r['symbols'] = [EL[t - 1] for t in TY[:na]]
        if 'type' not in dcols or 'dump' in drop:
            r['symbols'] = None
    parsed(ctx, lambda: ps.LammpsTextMDOutputFile(fn, **kw), r)
    if drop or not traj:
        return
    tr = io.read_lammps_md_txt(fn, **kw)
    k = ctx.mod('constants')
    q = ctx.num(k.fs) / ctx.num(k.ps)
    ctx.check(tr.nstep == n and tr.natoms == na, 'steps')
    ctx.eq(tr.cell, h, 'cell [Ang]')
    for x, u in (('coords', 1), ('coords_frac', 1), ('forces', 1),
                 ('etot', 1), ('ekin', 1), ('velocity', q),
                 ('temperature', 1), ('stress', ctx.num(1) / 10000)):
        if r[x] is not None:
            ctx.eq(getattr(tr, x), r[x] * u, x + ' [eV, Ang, fs, GPa]')
    if dt is not None:
        ctx.eq(tr.timestep, dt / q, 'timestep [fs]')


# -- DCD ----------------------------------------------------------------------
def dcd_bytes(ctx, cc, x, dt, head, cut=0, more=b''):
    """as LAMMPS and CP2K write it; head: number of steps in the header"""
    nt, na = len(x), len(x[0])
    i = lambda *a: struct.pack('<%ii' % len(a), *a)
    b = i(84) + b'CORD' + i(head, 0, 1, 0, 0, 0, 0, 0, 0) + struct.pack(
        '<f', float(dt)) + i(1, 0, 0, 0, 0, 0, 0, 0, 0, 24) + i(84)
    b += i(164, 2) + b'REMARK one'.ljust(80) + b'REMARK 2'.ljust(80) + i(164)
    b += i(4, na, 4)
    for t in range(nt):
        c = [float(cc[t, k]) for k in (0, 5, 1, 4, 3, 2)]
        b += i(48) + struct.pack('<6d', *c) + i(48)
        for j in range(3):
            b += i(4 * na) + struct.pack('<%if' % na, *[
                float(x[t, a, j]) for a in range(na)]) + i(4 * na)
    return (b[:-cut] if cut else b) + more


def dcd_data(ctx, na, nt, cos):
    cc = ctx.arr([list(ctx.reals('l%i' % t, 3, 3, 9)) + list(
        ctx.reals('a%i' % t, 3, -0.3, 0.3) if cos else
        ctx.reals('a%i' % t, 3, 50, 130)) for t in range(nt)])
    x = ctx.reals('x', (nt, na, 3), -8, 8)
    dt = ctx.real('dt', 0.1, 5)
    w = cc
    if cos:
        w = ctx.arr([list(cc[t, :3]) + [ctx.np.arccos(c) * 180 / ctx.PI
                                        for c in cc[t, 3:]]
                     for t in range(nt)])
    return cc, x, dt, w


def dcd(ctx, na, nt, cos, hdr):
    ctx.tokens_on(signed=True)
    m = ctx.mod('dcd')
    cc, x, dt, w = dcd_data(ctx, na, nt, cos)
    fn = put(ctx.scratch(), 'a.dcd', dcd_bytes(ctx, cc, x, dt,
                                               nt if hdr else 0))
    h = m.read_dcd_header(fn)
    ctx.check(int(h['natoms']) == na and h['hdr'] == b'CORD', 'header')
    ctx.eq(h['timestep'], dt, 'time step', tol=1e-6)
    ctx.check([int(v) for v in h['9int']][0] == (nt if hdr else 0),
              'steps in the header')
    rd = [('fast', lambda **k: m.read_dcd_data(fn, **k)),
          ('reference', lambda **k: m.read_dcd_data_ref(fn, **k)),
          ('Fortran', lambda **k: m.read_dcd_data_f(fn, **k))]
    if hdr:
        rd.append(('Fortran, header',
                   lambda **k: m.read_dcd_data_f(fn, nstephdr=True, **k)))
    for n, f in rd:
        c, y = f(convang=cos)
        ctx.check(tuple(c.shape) == (nt, 6) and
                  tuple(y.shape) == (nt, na, 3), n + ': shape')
        ctx.eq(c, w, n + ': cell parameters')
        ctx.eq(y, x, n + ': coordinates', tol=1e-6)
        if not cos:
            c, y = f()
            ctx.eq(c, w, n + ': no conversion by default')
        else:
            c, y = f(convang=False)
            ctx.eq(c, cc, n + ': not converted')


def dcd_cut(ctx, na, nt):
    """a file which does not end with a complete step"""
    ctx.tokens_on(signed=True)
    m = ctx.mod('dcd')
    cc, x, dt, w = dcd_data(ctx, na, nt, False)
    for cut, more in ((4, b''), (12 * na + 80, b'') if na > 1 else (8, b''),
                      (0, b'\0' * 4)):
        fn = put(ctx.scratch(), 'a.dcd', dcd_bytes(
            ctx, cc, x, dt, 0, cut, more))
        if cut == 12 * na + 80:
            c, y = m.read_dcd_data(fn)
            ctx.eq(c, w[:-1], 'one step less')
            ctx.eq(y, x[:-1], 'one step less', tol=1e-6)
        else:
            ctx.raises(AssertionError, lambda: m.read_dcd_data(fn),
                       'truncated file')


def lammps_dcd(ctx, na, nt, sym='file', drop=()):
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    d = ctx.scratch()
    cc, x, tt, w = dcd_data(ctx, na, nt, True)
    if 'dcd' not in drop:
        put(d, 'lmp.out.dcd', dcd_bytes(ctx, cc, x, tt, nt))
    dt = ctx.real('ts', 0.001, 0.1)
    s, v, n = log(ctx, nt, TH, 1, dt, EL)
    fn = os.path.join(d, 'log.lammps')
    put(d, 'log.lammps', s)
    r = thermo(ctx, v, n)
    r.update(timestep=dt, cell=None, volume=None, natoms=na, coords=x,
             cryst_const=w)
    if sym == 'file':
        put(d, 'lmp.struct.symbols', ' '.join(SY[:na]))
        r['symbols'] = SY[:na]
    elif sym == 'dump':
        s, v, h = dump(ctx, na, nt, DU, False)
        put(d, 'lmp.out.dump', s)
        r['symbols'] = [EL[t - 1] for t in TY[:na]]
    else:
        r['symbols'] = None
    if 'dcd' in drop:
        r.update(natoms=None, coords=None, cryst_const=None)
    else:
        r['nstep'] = nt
    parsed(ctx, lambda: ps.LammpsDcdMDOutputFile(fn), r, tol=1e-6)
    if drop or sym == 'none':
        return
    tr = io.read_lammps_md_dcd(fn)
    k = ctx.mod('constants')
    q = ctx.num(k.fs) / ctx.num(k.ps)
    ctx.check(tr.nstep == nt and tr.natoms == na, 'steps')
    ctx.eq(tr.cryst_const, w, 'cell parameters')
    ctx.eq(tr.coords, x, 'coordinates', tol=1e-6)
    ctx.eq(tr.stress, r['stress'] / 10000, 'stress [GPa]')
    ctx.eq(tr.timestep, dt / q, 'timestep [fs]')


def cp2k_dcd(ctx, na, nt, drop=()):
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    d = ctx.scratch()
    cc, x, tt, w = dcd_data(ctx, na, nt, False)
    for t in range(nt):
        for i, a in enumerate((60, 90, 90)):
            cc[t, 3 + i] = ctx.num(a)
    if 'dcd' not in drop:
        put(d, 'PROJECT-pos-1.dcd', dcd_bytes(ctx, cc, x, tt, 0))
    dt = ctx.real('ts', 0.1, 9)
    fr = ctx.reals('f', (nt, na, 3), -2, 2)
    en = ctx.reals('e', (nt, 5), -50, -1)
    s = ''
    for t in range(nt):
        s += '%8i\n i = %8i, time = %8.3f, E = -1.5\n' % (na, t, t)
        for i in range(na):
            s += ' %2s  %s\n' % (SY[i], '  '.join(F % v for v in fr[t, i]))
    put(d, 'PROJECT-frc-1.xyz', s)
    put(d, 'PROJECT-1.ener', '# Step\n' + ''.join(
        '%9i  %9.3f %s\n' % (t, t, ' '.join(F % v for v in en[t]))
        for t in range(nt)))
    # must not be used
    put(d, 'PROJECT-1.cell', '# Step\n' + ''.join(
        '%9i  %9.3f %s\n' % (t, t, ' '.join('1.5' for v in range(10)))
        for t in range(nt)))
    fn = put(d, 'cp2k.out', ' MD| Time Step [fs]          %s\n'
             '          Number of atoms:     %i\n' % (F % dt, na))
    r = dict(cryst_const=cc, coords=x, econst=en[:, 3], ekin=en[:, 0],
             etot=en[:, 2], forces=fr, natoms=na, stress=None,
             symbols=SY[:na], temperature=en[:, 1], timestep=dt,
             velocity=None, cell=None, volume=None)
    if 'dcd' in drop:
        r.update(cryst_const=None, coords=None, natoms=None, symbols=None)
    parsed(ctx, lambda: ps.Cp2kDcdMDOutputFile(fn), r, tol=1e-6)
    if drop:
        return
    tr = io.read_cp2k_md_dcd(fn)
    k = ctx.mod('constants')
    ha = ctx.num(k.Ha) / ctx.num(k.eV)
    ctx.check(tr.nstep == nt and tr.natoms == na, 'steps')
    ctx.eq(tr.cryst_const, cc, 'cell parameters')
    ctx.eq(tr.coords, x, 'coordinates', tol=1e-6)
    ctx.eq(tr.etot, en[:, 2] * ha, 'energy [eV]')
    ctx.eq(tr.timestep, dt, 'timestep [fs]')


def cases(tier):
    T = tier == 'thorough'
    r = []
    for na, nt in ((1, 1), (2, 2), (1, 3), (3, 1)):
        r.append(Case('lammps %i %i' % (na, nt), lammps, dict(
            na=na, nt=nt, tilt=False)))
    no = dict(tilt=False)
    r.append(Case('lammps many atoms', lammps, dict(na=11, nt=1, sym='echo',
                                                    **no)))
    r.append(Case('lammps many steps', lammps, dict(na=1, nt=11, **no)))
    r.append(Case('lammps tilt', lammps, dict(na=1, nt=1, cols=TH[:1],
                                              dcols=DU[:5], traj=False)))
    r.append(Case('lammps reversed', lammps, dict(
        na=2, nt=2, cols=TH[::-1], dcols=DU[:2] + DU[:1:-1], **no)))
    r.append(Case('lammps mixed columns', lammps, dict(
        na=2, nt=2, cols=TH[1::2] + TH[::2], dcols=DU[1::2] + DU[::2],
        **no)))
    r.append(Case('lammps runs', lammps, dict(na=2, nt=2, runs=2, **no)))
    r.append(Case('lammps 3 runs', lammps, dict(na=1, nt=1, runs=3, **no)))
    for s in ('order', 'echo'):
        r.append(Case('lammps symbols %s' % s, lammps, dict(
            na=3, nt=2, sym=s, **no)))
    r.append(Case('lammps no type', lammps, dict(
        na=2, nt=2, sym='order', dcols=DU[:1] + DU[2:], traj=False, **no)))
    for x in ('log', 'dump', 'dt'):
        r.append(Case('lammps without %s' % x, lammps, dict(
            na=2, nt=2, drop=(x,), sym='order' if x == 'dump' else 'file',
            **no)))
    for c in TH if T else ('Temp', 'Volume', 'CellBeta', 'KinEng', 'PotEng',
                           'Pxz'):
        r.append(Case('lammps without %s' % c, lammps, dict(
            na=1, nt=2, cols=[x for x in TH if x != c], traj=False, **no)))
    for c in DU if T else ('ysu', 'xu', 'fz', 'vx'):
        r.append(Case('lammps without %s' % c, lammps, dict(
            na=2, nt=1, dcols=[x for x in DU if x != c], traj=False, **no)))
    for na, nt in ((1, 1), (2, 2), (1, 3), (3, 1), (2, 3)):
        for cos in (False, True):
            for hdr in (False, True):
                r.append(Case('dcd %i %i cos %s header %s' % (
                    na, nt, cos, hdr), dcd, dict(na=na, nt=nt, cos=cos,
                                                 hdr=hdr)))
    r.append(Case('dcd many', dcd, dict(na=11, nt=2, cos=True, hdr=False)))
    r.append(Case('dcd truncated', dcd_cut, dict(na=2, nt=2)))
    r.append(Case('dcd truncated one', dcd_cut, dict(na=1, nt=1)))
    for na, nt in ((2, 2), (1, 1)):
        for s in ('file', 'dump', 'none'):
            r.append(Case('lammps dcd %i %i %s' % (na, nt, s), lammps_dcd,
                          dict(na=na, nt=nt, sym=s)))
        r.append(Case('cp2k dcd %i %i' % (na, nt), cp2k_dcd, dict(
            na=na, nt=nt)))
    r.append(Case('lammps dcd without dcd', lammps_dcd, dict(
        na=2, nt=2, drop=('dcd',), sym='none')))
    r.append(Case('cp2k dcd without dcd', cp2k_dcd, dict(
        na=2, nt=2, drop=('dcd',))))
    return r
