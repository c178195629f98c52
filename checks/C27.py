"""CPMD and CP2K output parsers"""
import os

from symx.run import Case

META = {
    'title': 'CPMD and CP2K output is read completely, in the right units',
    'statement': 'From the output file of a CPMD or CP2K run and the extra '
    'files beside it, every quantity printed is returned step by step, atom '
    'by atom, in the documented unit, for any number of steps including one '
    'and for files continued by a restart. CPMD: SCF runs return the last '
    'block of energies and forces; the columns of ENERGIES are told apart '
    'by their number; ekin is the kinetic energy of the ions (ECLASSIC - '
    'EKS). CP2K: forces come from the force file or, without it, from the '
    'output; the final step of a cell optimization keeps its cell. '
    'get_struct/get_traj convert to eV, Angstrom, GPa and fs, and using one '
    'parser never changes the units of another. What is not there is None, '
    'the rest is unaffected.',
    'forall': 'all printed numbers, all subsets of one missing file or '
    'section, all orders of using two parsers',
    'why': 'six columns layouts, ten files, three run types, two unit '
    'systems; tests have one output per program',
    'files': ['src/pwtools/parse.py', 'src/pwtools/crys.py'],
    'mech': ['CPMD @ parse.py:CpmdSCFOutputFile, CpmdMDOutputFile',
             'CP2K @ parse.py:Cp2kSCFOutputFile, Cp2kMDOutputFile, '
             'Cp2kRelaxOutputFile', 'units @ crys.py:UnitsHandler'],
}
BOUNDS = {'quick': '1-3 atoms, 1-3 steps, all values (formatting and parsing '
          'a number is taken to be exact), each file or section missing '
          'alone, all pairs of parsers'
          '; larger single cases, 5 to 13 items long'}
OUTSIDE = ('missing GEOMETRY (CPMD), ENERGIES with other numbers of '
           'columns, other program versions')

SY = ['Al', 'N', 'H'] * 5
F = '%.16e'


def row(v, sep='   '):
    return sep.join(F % x for x in v)


def lines(a, pre='  '):
    return ''.join(pre + row(v) + '\n' for v in a)


def put(d, name, text):
    fn = os.path.join(d, name)
    with open(fn, 'w') as fd:
        fd.write(text)
    return fn


def units(ctx):
    k = ctx.mod('constants')
    n = ctx.num
    ha, eV, b, a = n(k.Ha), n(k.eV), n(k.Bohr), n(k.Ang)
    return dict(energy=ha / eV, length=b / a, forces=ha / eV * a / b,
                stress=n(0.1), time=n(k.thart) / n(k.fs),
                velocity=b / a * n(k.fs) / n(k.thart))


def same(ctx, v, w, label):
    if w is None or v is None:
        ctx.check(v is None and w is None, label + ': None')
    elif isinstance(w, (bool, str, int)):
        ctx.check(v == w, label)
    elif isinstance(w, list) and w and isinstance(w[0], str):
        ctx.check(list(v) == w, label)
    else:
        ctx.check(tuple(ctx.np.shape(v)) == tuple(ctx.np.shape(w)),
                  label + ': shape')
        ctx.eq(v, w, label)


def parsed(ctx, make, r):
    """every getter alone, in both orders, and after parse()"""
    p = make()
    for n in r:
        same(ctx, getattr(p, 'get_' + n)(), r[n], n)
    p = make()
    for n in reversed(sorted(r)):
        same(ctx, getattr(p, 'get_' + n)(), r[n], n + ' alone')
    p = make()
    p.parse()
    for n in r:
        if n in p.attr_lst:
            same(ctx, getattr(p, n), r[n], n + ' after parse')


# -- CPMD --------------------------------------------------------------------
def geometry(ctx, d, na, extra=False):
    x = ctx.reals('gx', (na, 6), -3, 3)
    s = lines(x)
    if extra:
        s += lines(ctx.reals('gh', (6, 3), -3, 3))
    put(d, 'GEOMETRY', s)


def scale(d, cell, frac):
    s = 'CELL MATRIX (BOHR)\n' + lines(cell)
    s += '\nCELL MATRIX (ANGSTROM)\n' + '  1.0  2.0  3.0\n' * 3
    s += '\nSCALED ATOMIC COORDINATES\n'
    for i, f in enumerate(frac):
        s += '  %s         %-2s      %i\n' % (row(f), SY[i], i + 1)
    put(d, 'GEOMETRY.scale', s)


def cpmd_scf(ctx, na, drop=(), conv=True, extra=False):
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    d = ctx.scratch()
    cell = ctx.cell('h', mode='tri')
    frac = ctx.reals('x', (na, 3), -1, 1)
    geometry(ctx, d, na, extra)
    if 'scale' not in drop:
        scale(d, cell, frac)
    e = ctx.reals('e', 2, -50, -1)
    f = ctx.reals('f', (2, na, 6), -2, 2)
    sig = ctx.reals('s', (3, 3), -99, 99)
    s = ' CPMD\n'
    if 'nk' not in drop:
        s += ('    MAXIMAL NUMBER OF K POINTS                        4\n'
              ' NUMBER OF SPECIAL K POINTS (IN CARTESIAN COORDINATES):'
              '        12\n   NKP      KX             KY\n')
    for t in range(2):
        if 'forces' not in drop:
            s += '   ATOM          COORDINATES            GRADIENTS (-FORCES)\n'
            for i in range(na):
                s += '%4i %-2s  %s\n' % (i + 1, SY[i], row(f[t, i]))
            s += '\n'
        if t == 0 and 'nscf' not in drop:
            s += ('  25  1.254E-07   1.393E-09    -192.769552\n'
                  '  26  8.537E-08   8.887E-10    -192.769552\n\n'
                  'RESTART INFORMATION WRITTEN ON FILE /x/RESTART.1\n')
        if t == 1 and not conv:
            s += ' BUT NO CONVERGENCE ON THE WAVEFUNCTION\n'
        if 'etot' not in drop:
            s += (' (K+E1+L+N+X)           TOTAL ENERGY =       %s A.U.\n'
                  ' (K)                  KINETIC ENERGY =        7.97 A.U.\n'
                  % (F % e[t]))
    if 'stress' not in drop:
        s += ' TOTAL STRESS TENSOR (kBar):\n' + lines(sig) + '\n'
    fn = put(d, 'cpmd.out', s)
    r = dict(cell=cell, coords_frac=frac, symbols=SY[:na], stress=sig,
             etot=e[1], forces=f[1, :, 3:], natoms=na, nkpoints=12,
             nstep_scf=26, scf_converged=conv)
    if 'scale' in drop:
        r.update(cell=None, coords_frac=None, symbols=None)
    for n, k in (('nk', 'nkpoints'), ('forces', 'forces'), ('etot', 'etot'),
                 ('stress', 'stress'), ('nscf', 'nstep_scf')):
        if n in drop:
            r[k] = None
    parsed(ctx, lambda: ps.CpmdSCFOutputFile(fn), r)
    st = io.read_cpmd_scf(fn)
    u = units(ctx)
    if 'scale' not in drop:
        ctx.eq(st.cell, cell * u['length'], 'cell [Ang]')
        ctx.eq(st.coords_frac, frac, 'fractional coordinates')
    for n, k in (('etot', 'energy'), ('forces', 'forces'),
                 ('stress', 'stress')):
        same(ctx, getattr(st, n), None if r[n] is None else r[n] * u[k],
             n + ' [eV, Ang, GPa]')


COLS = {9: ['ekinc', 'ekinh', 'tempp', 'eks', 'eclassic', 'eham', 'dis',
            'tcpu'],
        8: ['ekinc', 'tempp', 'eks', 'eclassic', 'eham', 'dis', 'tcpu'],
        6: ['tempp', 'eks', 'eclassic', 'dis', 'tcpu']}


def cpmd_md(ctx, na, nt, ncol, forces=True, cell=False, stress=True,
            restart=False, drop=(), hcol=6, traj=True):
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    d = ctx.scratch()
    h0 = ctx.cell('h', mode='tri')
    frac = ctx.reals('x', (na, 3), -1, 1)
    geometry(ctx, d, na, cell)
    if 'scale' not in drop:
        scale(d, h0, frac)
    en = {n: ctx.reals(n, nt, 0.1 * i + 1, 0.1 * i + 9)
          for i, n in enumerate(COLS[ncol])}
    if 'energies' not in drop:
        put(d, 'ENERGIES', ''.join('%10i  %s\n' % (
            t + 1, row([en[n][t] for n in COLS[ncol]])) for t in range(nt)))
    x = ctx.reals('c', (nt, na, 9), -4, 4)
    for fn, n in (('TRAJECTORY', 6), ('FTRAJECTORY', 9)):
        if 'traj' in drop or (n == 9 and not forces):
            continue
        s = ''
        for t in range(nt):
            if restart and t == nt // 2:
                s += '  <<<<<<  NEW DATA  >>>>>>\n'
            for i in range(na):
                s += '%7i %s\n' % (t + 1, row(x[t, i, :n]))
        put(d, fn, s)
    if cell:
        h = ctx.arr([ctx.cell('h%i' % t, mode='diag') for t in range(nt)])
        g = ctx.reals('g', (nt, 3, hcol - 3), -1, 1)
        put(d, 'CELL', ''.join(
            '   CELL PARAMETERS at Step:  %10i\n' % (t + 1) + ''.join(
                '   %s    %s\n' % (row(h[t, i]), row(g[t, i]))
                for i in range(3)) for t in range(nt)))
    sig = ctx.reals('s', (nt, 3, 3), -99, 99)
    if stress:
        put(d, 'STRESS', ''.join(
            '   TOTAL STRESS TENSOR (kB): Step:  %10i\n' % (t + 1) +
            lines(sig[t]) for t in range(nt)))
    dt = ctx.real('dt', 1, 9)
    s = ' TIME STEP FOR ELECTRONS:           2.0000\n'
    if 'dt' not in drop:
        s += ' TIME STEP FOR IONS:            %s\n' % (F % dt)
    fn = put(d, 'cpmd.out', s)
    k = ctx.mod('constants')
    r = dict(cell=h if cell else h0, coords=x[..., :3],
             velocity=x[..., 3:6], forces=x[..., 6:] if forces else None,
             econst=en.get('eham', en['eks']), ekin=en['eclassic'] -
             en['eks'], ekin_cell=en.get('ekinh'), ekin_elec=en.get('ekinc'),
             etot=en['eks'], natoms=na, stress=sig if stress else None,
             symbols=SY[:na], temperature=en['tempp'], timestep=dt)
    r['temperature_cell'] = None if r['ekin_cell'] is None else \
        r['ekin_cell'] * ctx.num(k.Ha) * 2 / 9 / ctx.num(k.kb)
    r['ekinh'], r['ekinc'] = r['ekin_cell'], r['ekin_elec']
    if 'energies' in drop:
        for n in ('econst', 'ekin', 'ekin_cell', 'ekin_elec', 'etot',
                  'temperature', 'temperature_cell', 'ekinh', 'ekinc'):
            r[n] = None
    if 'traj' in drop:
        r.update(coords=None, velocity=None, forces=None)
    if 'scale' in drop:
        r['symbols'] = None
        if not cell:
            r['cell'] = None
    if 'dt' in drop:
        r['timestep'] = None
    parsed(ctx, lambda: ps.CpmdMDOutputFile(fn), r)
    if 'traj' in drop or 'scale' in drop:
        return
    tr = io.read_cpmd_md(fn)
    u = units(ctx)
    ctx.check(tr.nstep == nt and tr.natoms == na, 'steps')
    c = (h if cell else ctx.arr([h0] * nt)) * u['length']
    ctx.eq(tr.cell, c, 'cell [Ang]')
    ctx.eq(tr.coords, x[..., :3] * u['length'], 'coords [Ang]')
    ctx.eq(tr.velocity, x[..., 3:6] * u['velocity'], 'velocity [Ang/fs]')
    for n, q in (('etot', 'energy'), ('forces', 'forces'), ('ekin', 'energy'),
                 ('stress', 'stress'), ('timestep', 'time')):
        if r[n] is not None or n != 'ekin':
            same(ctx, getattr(tr, n), None if r[n] is None else r[n] * u[q],
                 n + ' [eV, Ang, GPa, fs]')
    if r['temperature'] is not None:
        same(ctx, tr.temperature, r['temperature'], 'temperature [K]')


# -- CP2K --------------------------------------------------------------------
def fblock(f):
    s = ' ATOMIC FORCES in [a.u.]\n\n'
    s += ' # Atom   Kind   Element          X              Y\n'
    for i, v in enumerate(f):
        s += ' %6i %6i      %-2s         %s\n' % (i + 1, 1 + i // 2, SY[i],
                                                 row(v))
    return s + ' SUM OF ATOMIC FORCES           0.1  -0.1   -0.2   0.3\n\n'


def cp2k_scf_file(ctx, d, na, drop=(), name='cp2k.out', pre=''):
    e = ctx.real(pre + 'e', -50, -1)
    f = ctx.reals(pre + 'f', (na, 3), -2, 2)
    sig = ctx.reals(pre + 's', (3, 3), -99, 99)
    s = (' GLOBAL| Run type                                    '
         'ENERGY_FORCE\n GLOBAL| Global print level         LOW\n')
    if 'etot' not in drop:
        s += (' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):       %s\n\n'
              % (F % e))
    if 'forces' not in drop:
        s += '\n' + fblock(f)
    if 'stress' not in drop:
        s += ' STRESS TENSOR [GPa]\n\n            X               Y               Z\n'
        for a, v in zip('XYZ', sig):
            s += '  %s     %s\n' % (a, row(v))
        s += '\n  1/3 Trace(stress tensor):   5.9E+01\n\n'
        s += ' EIGENVECTORS AND EIGENVALUES OF THE STRESS TENSOR\n\n'
        s += '    29.9    73.2    73.9\n'
    return put(d, name, s), e, f, sig


def cp2k_scf(ctx, na, drop=()):
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    fn, e, f, sig = cp2k_scf_file(ctx, ctx.scratch(), na, drop)
    r = dict(etot=e, forces=f, stress=sig, natoms=na, symbols=SY[:na])
    if 'forces' in drop:
        r.update(forces=None, natoms=None, symbols=None)
    for n in ('etot', 'stress'):
        if n in drop:
            r[n] = None
    parsed(ctx, lambda: ps.Cp2kSCFOutputFile(fn), r)
    st = io.read_cp2k_scf(fn)
    u = units(ctx)
    for n, q in (('etot', u['energy']), ('forces', u['forces']),
                 ('stress', 1)):
        same(ctx, getattr(st, n), None if r[n] is None else r[n] * q,
             n + ' [eV, Ang, GPa]')


def xyz(x, e, relax=False, off=0):
    s = ''
    for t, y in enumerate(x):
        s += '%8i\n i = %8i, %sE = %s\n' % (
            len(y), t + off, '' if relax else 'time =   %8.3f, ' % (2.5 * t),
            F % e[t])
        for i, v in enumerate(y):
            s += ' %2s  %s\n' % (SY[i], row(v))
    return s


def flat(t, a, *more):
    return '%8i  %8.3f  %s\n' % (t, 2.5 * t, row(
        list(ctxravel(a)) + list(more)))


def ctxravel(a):
    return [a[i, j] for i in range(3) for j in range(3)]


MDF = ('cell', 'ener', 'stress', 'pos', 'frc', 'vel')


def cp2k_md_files(ctx, d, na, nt, drop=(), outf=False, name='cp2k.out'):
    r = dict(cell=ctx.arr([ctx.cell('h%i' % t, mode='diag')
                           for t in range(nt)]),
             vol=ctx.reals('v', nt, 10, 99),
             en=ctx.reals('e', (nt, 5), -50, -1),
             stress=ctx.reals('s', (nt, 3, 3), -99, 99),
             x=ctx.reals('x', (nt, na, 3), -4, 4),
             f=ctx.reals('f', (nt, na, 3), -2, 2),
             v=ctx.reals('w', (nt, na, 3), -2, 2),
             dt=ctx.real('dt', 0.1, 9))
    if 'cell' not in drop:
        put(d, 'PROJECT-1.cell', '#  Step  Time [fs]  Ax [Angstrom]\n' +
            ''.join(flat(t, r['cell'][t], r['vol'][t]) for t in range(nt)))
    if 'ener' not in drop:
        put(d, 'PROJECT-1.ener', '#  Step Nr.   Time[fs]   Kin.[a.u.]\n' +
            ''.join('%9i  %9.3f %s\n' % (t, 2.5 * t, row(r['en'][t]))
                    for t in range(nt)))
    if 'stress' not in drop:
        put(d, 'PROJECT-1.stress', '#  Step   Time [fs]  xx [bar]\n' +
            ''.join(flat(t, r['stress'][t]) for t in range(nt)))
    for k, n in (('pos', 'x'), ('frc', 'f'), ('vel', 'v')):
        if k not in drop:
            put(d, 'PROJECT-%s-1.xyz' % k, xyz(r[n], r['en'][:, 2]))
    s = ' GLOBAL| Run type                                      MD\n'
    s += ' MD| Number of Time Steps                   10\n'
    if 'dt' not in drop:
        s += ' MD| Time Step [fs]                         %s\n' % (
            F % r['dt'])
    if 'natoms' not in drop:
        s += '              - Atom kinds:   2\n'
        s += '                          Number of atoms:       %3i\n' % na
    if outf:
        for t in range(nt):
            s += ' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):  -1.5\n\n'
            s += fblock(r['f'][t]) + '\n'
    return put(d, name, s), r


def cp2k_md(ctx, na, nt, drop=(), outf=False):
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    fn, a = cp2k_md_files(ctx, ctx.scratch(), na, nt, drop, outf)
    en = a['en']
    r = dict(cell=a['cell'], coords=a['x'], econst=en[:, 3], ekin=en[:, 0],
             etot=en[:, 2], temperature=en[:, 1], forces=a['f'], natoms=na,
             stress=a['stress'], symbols=SY[:na], timestep=a['dt'],
             velocity=a['v'], volume=a['vol'])
    if 'cell' in drop:
        r.update(cell=None, volume=None)
    if 'ener' in drop:
        r.update(econst=None, ekin=None, etot=None, temperature=None)
    for k, n in (('stress', 'stress'), ('pos', 'coords'), ('frc', 'forces'),
                 ('vel', 'velocity'), ('dt', 'timestep'),
                 ('natoms', 'natoms'), ('natoms', 'symbols')):
        if k in drop and not (k == 'frc' and outf and 'natoms' not in drop):
            r[n] = None
    if not set(('pos', 'frc', 'vel')) - set(drop):
        r['symbols'] = None
    parsed(ctx, lambda: ps.Cp2kMDOutputFile(fn), r)
    if set(('natoms', 'pos', 'cell', 'vel')) & set(drop):
        return
    tr = io.read_cp2k_md(fn)
    u = units(ctx)
    ctx.check(tr.nstep == nt and tr.natoms == na, 'steps')
    ctx.eq(tr.cell, a['cell'], 'cell [Ang]')
    ctx.eq(tr.coords, a['x'], 'coords [Ang]')
    for n, q in (('etot', u['energy']), ('ekin', u['energy']),
                 ('forces', u['forces']), ('velocity', u['velocity']),
                 ('stress', ctx.num(1) / 10000), ('temperature', 1),
                 ('timestep', 1)):
        if r[n] is not None or n not in ('ekin', 'temperature'):
            same(ctx, getattr(tr, n), None if r[n] is None else r[n] * q,
                 n + ' [eV, Ang, GPa, fs]')


def cp2k_relax(ctx, na, nt, rt='CELL_OPT', drop=(), off=1):
    """nt steps in the position file, nt - off in the cell file"""
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    d = ctx.scratch()
    nc = nt - off
    h = ctx.arr([ctx.cell('h%i' % t, mode='diag') for t in range(nc)])
    sig = ctx.reals('s', (nc, 3, 3), -99, 99)
    x = ctx.reals('x', (nt, na, 3), -4, 4)
    e = ctx.reals('e', nt, -50, -1)
    if 'cell' not in drop:
        put(d, 'PROJECT-1.cell', '#  Step  Time [fs]  Ax [Angstrom]\n' +
            ''.join(flat(t + 1, h[t], 25.5) for t in range(nc)))
    if 'stress' not in drop:
        put(d, 'PROJECT-1.stress', '#  Step   Time [fs]  xx [bar]\n' +
            ''.join(flat(t + 1, sig[t]) for t in range(nc)))
    if 'pos' not in drop:
        put(d, 'PROJECT-pos-1.xyz', xyz(x, e, True, 1))
    s = ' GLOBAL| Run type                             %s\n' % rt
    s += ' GLOBAL| Global print level                  LOW\n'
    f = ctx.reals('f', (nt, na, 3), -2, 2)
    if 'forces' not in drop:
        for t in range(nt):
            s += fblock(f[t])
            s += (' --------  Informations at step = %5i ------------\n'
                  '  Total Energy     =   -326.1\n' % t)
    fn = put(d, 'cp2k.out', s)
    hh = h
    if off:
        hh = ctx.arr([h[t] for t in range(nc)] + [h[nc - 1]])
    r = dict(cell=hh, coords=x, etot=e, natoms=na, symbols=SY[:na],
             forces=f, stress=sig, ekin=None, temperature=None, econst=None,
             velocity=None, timestep=None)
    if 'pos' in drop:
        r.update(coords=None, etot=None, natoms=None, symbols=None,
                 forces=None)
        if rt == 'CELL_OPT':
            r['cell'] = None
    for n in ('cell', 'stress', 'forces'):
        if n in drop:
            r[n] = None
    parsed(ctx, lambda: ps.Cp2kRelaxOutputFile(fn), r)
    if drop:
        return
    tr = io.read_cp2k_relax(fn)
    u = units(ctx)
    ctx.check(tr.nstep == nt and tr.natoms == na, 'steps')
    ctx.eq(tr.cell, hh, 'cell [Ang]')
    ctx.eq(tr.coords, x, 'coords [Ang]')
    ctx.eq(tr.etot, e * u['energy'], 'etot [eV]')
    ctx.eq(tr.forces, f * u['forces'], 'forces [eV/Ang]')
    ctx.eq(tr.stress, sig / 10000, 'stress [GPa]')


# -- units of several parsers ---------------------------------------------------
NAMES = ['CifFile', 'PDBFile', 'PwSCFOutputFile', 'PwMDOutputFile',
         'PwVCMDOutputFile', 'CpmdSCFOutputFile', 'CpmdMDOutputFile',
         'Cp2kSCFOutputFile', 'Cp2kMDOutputFile', 'Cp2kRelaxOutputFile',
         'Cp2kDcdMDOutputFile', 'LammpsTextMDOutputFile',
         'LammpsDcdMDOutputFile']
QTY = ('energy', 'length', 'forces', 'stress', 'velocity', 'temperature',
       'time')


def wanted(ctx, n):
    """conversion factors of one parser; None: not read by it"""
    k = ctx.mod('constants')
    q = ctx.num
    u = units(ctx)
    ry = q(k.Ry) / q(k.eV)
    one = dict.fromkeys(QTY, q(1))
    if n in ('CifFile', 'PDBFile'):
        return one
    if n.startswith('Pw'):
        r = dict(energy=ry, length=u['length'], forces=ry / u['length'],
                 stress=q(0.1))
        if n != 'PwSCFOutputFile':
            r.update(time=q(k.tryd) / q(k.fs), temperature=q(1))
        return r
    if n.startswith('Cpmd'):
        r = {x: u[x] for x in ('energy', 'length', 'forces', 'stress')}
        if n == 'CpmdMDOutputFile':
            r.update(time=u['time'], velocity=u['velocity'],
                     temperature=q(1))
        return r
    if n.startswith('Cp2k'):
        r = dict(energy=u['energy'], forces=u['forces'], stress=q(1),
                 length=q(1))
        if n != 'Cp2kSCFOutputFile':
            r.update(time=q(1), velocity=u['velocity'], temperature=q(1),
                     stress=q(1) / 10000)
        return r
    r = dict(one, stress=q(1) / 10000, velocity=q(k.fs) / q(k.ps),
             time=q(k.ps) / q(k.fs))
    return r


def leak(ctx, first):
    """the units of a parser are its own, whatever was used before"""
    ps = ctx.mod('parse')
    k = ctx.real('k', 0.5, 3)
    a = getattr(ps, first)(units={'length': k, 'stress': k * 2})
    ctx.eq(a.units['length'], k, 'own length')
    ctx.eq(a.units['stress'], k * 2, 'own stress')
    for n in NAMES:
        p = getattr(ps, n)()
        w = wanted(ctx, n)
        for q in w:
            ctx.eq(p.units[q], w[q], '%s of %s after %s' % (q, n, first))
    ctx.eq(a.units['length'], k, 'own length still')
    ctx.eq(getattr(ps, first)().units['length'],
           wanted(ctx, first)['length'], 'own units are not kept')


def both(ctx, na):
    """scf after md, md after scf: the same results in the same units"""
    ctx.tokens_on(signed=True)
    io = ctx.mod('io')
    d = ctx.scratch()
    fs, e, f, sig = cp2k_scf_file(ctx, d, na, name='scf.out', pre='q')
    fm, a = cp2k_md_files(ctx, d, na, 2)
    u = units(ctx)
    for i in range(2):
        st = io.read_cp2k_scf(fs)
        ctx.eq(st.stress, sig, 'scf stress')
        ctx.eq(st.etot, e * u['energy'], 'scf energy')
        tr = io.read_cp2k_md(fm)
        ctx.eq(tr.stress, a['stress'] / 10000, 'md stress')
        ctx.eq(tr.velocity, a['v'] * u['velocity'], 'md velocity')


def cases(tier):
    T = tier == 'thorough'
    r = []
    for na in (1, 2, 3):
        r.append(Case('cpmd scf %i' % na, cpmd_scf, dict(na=na)))
    r.append(Case('cpmd scf many', cpmd_scf, dict(na=11)))
    r.append(Case('cpmd scf not converged', cpmd_scf, dict(na=2, conv=False)))
    r.append(Case('cpmd scf geometry', cpmd_scf, dict(na=2, extra=True)))
    sc = ('scale', 'nk', 'forces', 'etot', 'stress', 'nscf')
    for x in sc:
        r.append(Case('cpmd scf without %s' % x, cpmd_scf, dict(
            na=2, drop=(x,))))
    r.append(Case('cpmd scf empty', cpmd_scf, dict(na=2, drop=sc)))
    for nc in (9, 8, 6):
        for nt in (1, 2, 3) if T else (1, 2):
            r.append(Case('cpmd md %i columns %i' % (nc, nt), cpmd_md, dict(
                na=2, nt=nt, ncol=nc, cell=nc == 9, forces=nc != 9)))
    r.append(Case('cpmd md one atom', cpmd_md, dict(na=1, nt=3, ncol=8)))
    r.append(Case('cpmd md many atoms', cpmd_md, dict(na=11, nt=2, ncol=9)))
    r.append(Case('cpmd md many steps', cpmd_md, dict(na=1, nt=11, ncol=9)))
    r.append(Case('cpmd md one', cpmd_md, dict(na=1, nt=1, ncol=9,
                                               cell=True)))
    r.append(Case('cpmd md restart', cpmd_md, dict(
        na=2, nt=3, ncol=9, restart=True, cell=True)))
    r.append(Case('cpmd md restart no forces', cpmd_md, dict(
        na=3, nt=2, ncol=8, restart=True, forces=False)))
    r.append(Case('cpmd md no stress', cpmd_md, dict(
        na=2, nt=2, ncol=6, stress=False)))
    r.append(Case('cpmd md cell 3', cpmd_md, dict(
        na=2, nt=2, ncol=9, hcol=3, cell=True)))
    for x in ('energies', 'traj', 'scale', 'dt'):
        r.append(Case('cpmd md without %s' % x, cpmd_md, dict(
            na=2, nt=2, ncol=8, drop=(x,))))
    for na in (1, 2, 3, 11):
        r.append(Case('cp2k scf %i' % na, cp2k_scf, dict(na=na)))
    for x in ('etot', 'forces', 'stress'):
        r.append(Case('cp2k scf without %s' % x, cp2k_scf, dict(
            na=2, drop=(x,))))
    for na, nt in ((1, 1), (2, 2), (1, 3), (3, 1), (11, 2), (1, 11)):
        r.append(Case('cp2k md %i %i' % (na, nt), cp2k_md, dict(
            na=na, nt=nt)))
    r.append(Case('cp2k md forces in output', cp2k_md, dict(
        na=2, nt=2, outf=True, drop=('frc',))))
    r.append(Case('cp2k md forces in both', cp2k_md, dict(
        na=2, nt=2, outf=True)))
    r.append(Case('cp2k md no xyz', cp2k_md, dict(
        na=2, nt=2, drop=('pos', 'frc', 'vel'))))
    for x in MDF + ('dt', 'natoms'):
        r.append(Case('cp2k md without %s' % x, cp2k_md, dict(
            na=2, nt=2, drop=(x,))))
    for na, nt in ((2, 3), (1, 2), (11, 2), (1, 11)):
        r.append(Case('cp2k cell_opt %i %i' % (na, nt), cp2k_relax, dict(
            na=na, nt=nt)))
    r.append(Case('cp2k geo_opt', cp2k_relax, dict(
        na=2, nt=2, rt='GEO_OPT', off=0)))
    for x in ('pos', 'cell', 'stress', 'forces'):
        r.append(Case('cp2k cell_opt without %s' % x, cp2k_relax, dict(
            na=2, nt=2, drop=(x,))))
    for n in NAMES:
        r.append(Case('units after %s' % n, leak, dict(first=n)))
    r.append(Case('cp2k scf and md', both, dict(na=2)))
    return r
