"""PWscf output parsers"""
import os

from symx.run import Case

META = {
    'title': 'PWscf output is read completely, in the right units',
    'statement': 'From the output of an scf, md, relax or vc-md run, also of '
    'concatenated runs, every quantity printed at every step is returned in '
    'order: cell, coordinates, symbols, stress, forces, total energy, '
    'kinetic energy, temperature, time step, number of scf iterations and '
    'k-points. Quantities printed in units of alat are multiplied by the '
    'alat in force at that step (or left alone with use_alat=False), '
    'Angstrom blocks are converted to Bohr, crystal coordinates are returned '
    'as fractional ones; quantities of the initial scf cycle are not mixed '
    'up with those of the steps; only the first block of forces (the total) '
    'counts. get_struct/get_traj convert to eV, Angstrom, GPa and fs. What '
    'is not in the file is None, the rest is unaffected.',
    'forall': 'all printed numbers, all declared units, all subsets of '
    'missing sections',
    'why': 'units times sections times run types; tests have one file per '
    'program version',
    'files': ['src/pwtools/parse.py', 'src/pwtools/crys.py'],
    'mech': ['scf @ parse.py:PwSCFOutputFile',
             'md @ parse.py:PwMDOutputFile', 'vc-md @ '
             'parse.py:PwVCMDOutputFile', 'units @ crys.py:UnitsHandler'],
}
BOUNDS = {'quick': '1-3 atoms, 1-3 steps, all values (formatting and parsing '
          'a number is taken to be exact), each section missing alone'
          '; larger single cases, 5 to 13 items long'}
OUTSIDE = ('output of other program versions, ATOMIC_POSITIONS without a '
           'unit, alat printed with few digits')

SY = ['Al', 'N', 'H'] * 5
ALL = ('alat', 'natoms', 'cell', 'tau', 'nk', 'etot', 'conv', 'forces',
       'stress')
F = '%.16e'


def row(v):
    return '  '.join(F % x for x in v)


def head(d, drop=(), style='a_0'):
    s = '     Program PWSCF v.4.3.2\n\n'
    if 'alat' not in drop:
        s += '     lattice parameter (%s)   =      %s  a.u.\n' % (
            style, F % d['alat'])
    s += '     unit-cell volume          =     270.2132 (a.u.)^3\n'
    na = len(d['tau'])
    if 'natoms' not in drop:
        s += '     number of atoms/cell      =           %2i\n' % na
    s += '     kinetic-energy cutoff     =      25.0000  Ry\n\n'
    u = 'a_0' if style == 'a_0' else 'alat'
    if 'cell' not in drop:
        s += '     crystal axes: (cart. coord. in units of %s)\n' % u
        for i in range(3):
            s += '               a(%i) = ( %s )  \n' % (i + 1,
                                                       row(d['cell'][i]))
        s += '\n     reciprocal axes: (cart. coord. in units 2 pi/%s)\n' % u
        for i in range(3):
            s += '               b(%i) = ( 1.0 2.0 3.0 )  \n' % (i + 1)
        s += '\n'
    if 'tau' not in drop:
        s += ('     site n.     atom                  positions (%s units)\n'
              % u)
        for i in range(na):
            s += '        %2i           %-2s  tau(%3i) = (   %s  )\n' % (
                i + 1, SY[i], i + 1, row(d['tau'][i]))
        s += '\n'
    if 'nk' not in drop:
        s += '     number of k points=    7\n'
        s += '        k(    1) = (   0.0   0.0   0.0), wk =   0.25\n'
    return s


def scf(d, t, drop=(), extra=0, blank='   '):
    """one scf cycle"""
    s = '     iteration #  1     ecut=    70.00 Ry     beta=0.70\n'
    s += '     total energy              =     -12.3456 Ry\n\n'
    if 'etot' not in drop:
        s += '!    total energy              =     %s Ry\n' % (
            F % d['etot'][t])
    s += '     Harris-Foulkes estimate   =     -19.00539054 Ry\n\n'
    if 'conv' not in drop:
        s += '     convergence has been achieved in  %2i iterations\n\n' % (
            d['nscf'][t])
    if 'forces' not in drop:
        s += '     Forces acting on atoms (Ry/au):\n\n'
        for i, f in enumerate(d['forces'][t]):
            s += '     atom %3i type  1   force =     %s\n' % (i + 1, row(f))
        for k in range(extra):
            s += '     The part %i contrib.  to forces\n' % k
            for i, f in enumerate(d['forces'][t]):
                s += '     atom %3i type  1   force =     %s\n' % (
                    i + 1, row(d['part'][t, k, i]))
        s += '\n     Total force =     0.0051     Total SCF correction =  0.0\n'
    if 'stress' not in drop:
        s += ('\n          total   stress  (Ry/bohr**3)                   '
              '(kbar)     P=%s98.25\n' % blank)
        for i in range(3):
            s += '  0.0001   0.0002   0.0003     %s\n' % row(
                d['stress'][t, i])
        s += '\n'
    return s


def data(ctx, na, nt, extra=0, hi=9):
    """nt scf cycles"""
    d = dict(alat=ctx.real('alat', 2, 9), cell=ctx.cell('h', mode='tri'),
             tau=ctx.reals('tau', (na, 3), -2, 2),
             etot=ctx.reals('e', nt, -50, -1),
             forces=ctx.reals('f', (nt, na, 3), -2, 2),
             stress=ctx.reals('s', (nt, 3, 3), -99, 99),
             nscf=[6 + 3 * t for t in range(nt)])
    if extra:
        d['part'] = ctx.reals('p', (nt, extra, na, 3), -2, 2)
    return d


def write(ctx, text):
    fn = os.path.join(ctx.scratch(), 'pw.out')
    with open(fn, 'w') as fd:
        fd.write(text)
    return fn


def units(ctx):
    k = ctx.mod('constants')
    n = ctx.num
    ry, eV, b, a = n(k.Ry), n(k.eV), n(k.Bohr), n(k.Ang)
    return dict(energy=ry / eV, length=b / a, forces=ry / eV * a / b,
                stress=n(0.1), time=n(k.tryd) / n(k.fs))


def expect(ctx, d, na, use_alat=True, drop=()):
    """what the parser returns: name -> value"""
    gone = set(drop)
    al = d['alat'] if use_alat else 1
    r = dict(cell=d['cell'] * al, coords=d['tau'] * al, symbols=SY[:na],
             stress=d['stress'][0], etot=d['etot'][0],
             forces=d['forces'][0], nstep_scf=6, natoms=na, nkpoints=7,
             scf_converged=True)
    if 'alat' in gone and use_alat:
        r['cell'] = r['coords'] = None
    if 'natoms' in gone:
        r.update(natoms=None, forces=None, coords=None, symbols=None)
    if 'cell' in gone:
        r['cell'] = None
    if 'tau' in gone:
        r['coords'] = r['symbols'] = None
    if 'nk' in gone:
        r['nkpoints'] = None
    if 'etot' in gone:
        r['etot'] = None
    if 'conv' in gone:
        r.update(nstep_scf=None, scf_converged=False)
    for n in ('forces', 'stress'):
        if n in gone:
            r[n] = None
    return r


def same(ctx, v, w, label):
    if w is None or v is None:
        ctx.check(v is None and w is None, label + ': None')
    elif isinstance(w, (bool, str, int)):
        ctx.check(v == w, label)
    elif isinstance(w, list) and w and isinstance(w[0], str):
        ctx.check(list(v) == w, label)
    else:
        ctx.check(tuple(ctx.np.shape(v)) == tuple(ctx.np.shape(w)),
                  label + ': shape')
        ctx.eq(v, w, label)


def pwscf(ctx, na, drop=(), use_alat=True, style='a_0', extra=0, nt=1,
          blank='   '):
    """nt > 1: more scf cycles, of which the first is returned"""
    ctx.tokens_on(signed=True)
    ps = ctx.mod('parse')
    d = data(ctx, na, nt, extra)
    s = head(d, drop, style)
    for t in range(nt):
        s += scf(d, t, drop, extra, blank)
        if t and 'alat' not in drop:
            s += '     lattice parameter (alat)  =      99.5  a.u.\n'
    fn = write(ctx, s)
    r = expect(ctx, d, na, use_alat, drop)
    p = ps.PwSCFOutputFile(fn, use_alat=use_alat)
    for n, w in r.items():
        same(ctx, getattr(p, 'get_' + n)(), w, n)
    p = ps.PwSCFOutputFile(fn, use_alat=use_alat)
    p.parse()
    for n, w in r.items():
        same(ctx, getattr(p, n), w, n + ' after parse')
    if 'alat' not in drop:
        ctx.eq(p.get_alat(True), d['alat'], 'alat')
    ctx.eq(p.get_alat(False), 1, 'no alat')
    if extra:
        ctx.check(tuple(p._forces_raw.shape) == (nt, na * (1 + extra), 3),
                  'all forces')
        for k in range(extra):
            ctx.eq(p._forces_raw[0, (k + 1) * na:(k + 2) * na],
                   d['part'][0, k], 'parts of the forces')
    st = p.get_struct()
    u = units(ctx)
    al = u['length']
    if r['cell'] is not None:
        ctx.eq(st.cell, r['cell'] * al, 'cell [Ang]')
    if r['coords'] is not None:
        ctx.eq(st.coords, r['coords'] * al, 'coords [Ang]')
        ctx.check(list(st.symbols) == SY[:na], 'symbols')
    for n, k in (('stress', 'stress'), ('etot', 'energy'),
                 ('forces', 'forces')):
        same(ctx, getattr(st, n),
             None if r[n] is None else r[n] * u[k], n + ' [eV, Ang, GPa]')


def pwscf_units(ctx):
    """alat from outside; units of one reader do not leak into others"""
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    d = data(ctx, 2, 1)
    fn = write(ctx, head(d) + scf(d, 0))
    k = ctx.real('k', 0.5, 3)
    u = units(ctx)
    for i in range(2):
        st = io.read_pw_scf(fn, use_alat=False, units={'length': k})
        ctx.eq(st.cell, d['cell'] * k, 'cell, own unit')
        ctx.eq(st.coords, d['tau'] * k, 'coords, own unit')
        ctx.eq(st.etot, d['etot'][0] * u['energy'], 'energy')
        st = io.read_pw_scf(fn, units={'energy': k, 'stress': 1})
        ctx.eq(st.cell, d['cell'] * d['alat'] * u['length'], 'cell')
        ctx.eq(st.etot, d['etot'][0] * k, 'energy, own unit')
        ctx.eq(st.stress, d['stress'][0], 'stress, own unit')
        st = io.read_pw_scf(fn)
        ctx.eq(st.cell, d['cell'] * d['alat'] * u['length'], 'cell')
        ctx.eq(st.stress, d['stress'][0] * u['stress'], 'stress')
    ctx.raises(Exception, lambda: io.read_pw_scf(fn, units={'foo': 1}),
               'unknown unit')


def md(ctx, na, nt, cu='alat', hu=None, use_alat=True, drop=(), vcmd=False,
       restart=False, style='paren', extra=0, first=True):
    """cu: unit of ATOMIC_POSITIONS, hu: of CELL_PARAMETERS (None: fixed
    cell, '': not given, 'num': alat=number); first: initial scf printed"""
    ctx.tokens_on(signed=True)
    ps, io = ctx.mods('parse', 'io')
    n0 = 1 if first else 0
    d = data(ctx, na, nt + n0, extra)
    x = ctx.reals('x', (nt, na, 3), -3, 3)
    ek = ctx.reals('k', nt, 0, 5)
    te = ctx.reals('t', nt, 10, 500)
    ec = ctx.reals('c', nt, -50, -1)
    dt = ctx.real('dt', 10, 150)
    if hu is not None:
        h = ctx.arr([ctx.cell('h%i' % t, mode='diag') for t in range(nt)])
    al = [ctx.real('al0', 2, 9)] * nt
    if restart:
        al = al[:nt // 2] + [ctx.real('al1', 2, 9)] * (nt - nt // 2)
    s = head(d, drop)
    if first:
        s += scf(d, 0, drop, extra)
    if 'dt' not in drop:
        s += ('     Time step             =   %s a.u.,  7.2567 femto-seconds'
              '\n\n' % (F % dt))
    o, c = {'paren': '()', 'brace': '{}', 'bare': ('', '')}[style]
    for t in range(nt):
        s += '     Entering Dynamics:    iteration = %5i\n\n' % (t + 1)
        if vcmd and 'ekin' not in drop:
            s += ('     Ekin = %s Ry    T = %s K  Etot = %s\n' % (
                F % ek[t], F % te[t], F % ec[t]))
        if hu is not None:
            s += 'CELL_PARAMETERS'
            if hu == 'num':
                s += ' %salat= %s%s' % (o, F % al[t], c)
            elif hu:
                s += ' %s%s%s' % (o, hu, c)
            s += '\n'
            for i in range(3):
                s += '   %s\n' % row(h[t, i])
            s += '\n'
        if 'pos' not in drop:
            s += 'ATOMIC_POSITIONS%s\n' % (
                '' if cu is None else ' %s%s%s' % (o, cu, c))
            for i in range(na):
                s += '%-2s   %s%s\n' % (SY[i], row(x[t, i]),
                                        '   0   0   1' if i == 1 else '')
            s += '\n\n'
        s += scf(d, t + n0, drop, extra)
        if not vcmd and 'ekin' not in drop:
            s += '     kinetic energy (Ekin) =     %s Ry\n' % (F % ek[t])
            s += '     temperature           =   %s K \n' % (F % te[t])
            s += '     Ekin + Etot (const)   = -1309.01983489 Ry\n\n'
    fn = write(ctx, s)
    cls = ps.PwVCMDOutputFile if vcmd else ps.PwMDOutputFile
    k = ctx.mod('constants')
    ang = ctx.num(k.Angstrom) / ctx.num(k.Bohr)
    alat = d['alat'] if use_alat else 1
    if 'alat' in drop and use_alat:
        alat = None
    r = dict(natoms=na, nkpoints=7, symbols=SY[:na], timestep=dt, ekin=ek,
             temperature=te, etot=d['etot'][n0:], stress=d['stress'][n0:],
             forces=d['forces'][n0:])
    if vcmd:
        r['econst'] = ec
    if alat is None:
        r['coords'] = None
    else:
        r['coords'] = {'alat': x * alat, 'bohr': x, None: x, 'angstrom': x * ang,
                       'crystal': None}[cu]
    r['coords_frac'] = x if cu == 'crystal' else None
    if hu is None:
        r['cell'] = None if alat is None else d['cell'] * alat
    elif hu == 'bohr':
        r['cell'] = h
    elif hu == 'angstrom':
        r['cell'] = h * ang
    elif hu == 'num' and use_alat:
        r['cell'] = ctx.arr([h[t] * al[t] for t in range(nt)])
    else:
        r['cell'] = None if alat is None else h * alat
    for n in ('etot', 'stress', 'forces', 'ekin'):
        if n in drop:
            r[n] = None
    if 'ekin' in drop:
        r['temperature'] = None
        if vcmd:
            r['econst'] = None
    if 'dt' in drop:
        r['timestep'] = None
    if 'nk' in drop:
        r['nkpoints'] = None
    if 'tau' in drop:
        r['symbols'] = None
    if 'natoms' in drop:
        r.update(natoms=None, coords=None, coords_frac=None, symbols=None,
                 forces=None, etot=None, stress=None)
    if 'pos' in drop:
        r.update(coords=None, coords_frac=None, etot=None, stress=None,
                 forces=None)
    p = cls(fn, use_alat=use_alat)
    p.parse()
    for n, w in r.items():
        same(ctx, getattr(p, n), w, n)
    if 'conv' not in drop:
        ctx.check([int(v) for v in p.nstep_scf] == d['nscf'], 'nstep_scf')
    p = cls(fn, use_alat=use_alat)
    for n in reversed(sorted(r)):
        same(ctx, getattr(p, 'get_' + n)(), r[n], n + ' alone')
    if drop:
        return
    u = units(ctx)
    tr = (io.read_pw_vcmd if vcmd else io.read_pw_md)(fn, use_alat=use_alat)
    le = u['length']
    ctx.check(tr.nstep == nt and tr.natoms == na, 'steps')
    cell = r['cell'] * le
    if hu is None:
        cell = ctx.arr([cell] * nt)
    ctx.eq(tr.cell, cell, 'cell [Ang]')
    if cu == 'crystal':
        ctx.eq(tr.coords_frac, x, 'fractional coordinates')
        ctx.eq(tr.coords, ctx.arr([ctx.np.dot(x[t], cell[t])
                                   for t in range(nt)]), 'coords [Ang]')
    else:
        ctx.eq(tr.coords, r['coords'] * le, 'coords [Ang]')
    ctx.eq(tr.stress, r['stress'] * u['stress'], 'stress [GPa]')
    ctx.eq(tr.etot, r['etot'] * u['energy'], 'etot [eV]')
    ctx.eq(tr.ekin, ek * u['energy'], 'ekin [eV]')
    ctx.eq(tr.forces, r['forces'] * u['forces'], 'forces [eV/Ang]')
    ctx.eq(tr.temperature, te, 'temperature')
    ctx.eq(tr.timestep, dt * u['time'], 'timestep [fs]')


def cases(tier):
    T = tier == 'thorough'
    r = []
    for na in (1, 2, 3):
        r.append(Case('scf %i' % na, pwscf, dict(na=na)))
    r.append(Case('scf no alat', pwscf, dict(na=2, use_alat=False)))
    r.append(Case('scf style', pwscf, dict(na=2, style='alat')))
    r.append(Case('scf parts', pwscf, dict(na=2, extra=2)))
    r.append(Case('scf one atom parts', pwscf, dict(na=1, extra=3)))
    for x in ALL:
        r.append(Case('scf without %s' % x, pwscf, dict(na=2, drop=(x,))))
    r.append(Case('scf many atoms', pwscf, dict(na=12)))
    r.append(Case('scf first of more', pwscf, dict(na=2, nt=2, extra=1)))
    r.append(Case('scf large pressure', pwscf, dict(na=1, blank='-123')))
    r.append(Case('scf empty', pwscf, dict(na=2, drop=ALL)))
    if T:
        for i, x in enumerate(ALL):
            for y in ALL[:i]:
                r.append(Case('scf without %s %s' % (x, y), pwscf, dict(
                    na=1, drop=(x, y))))
    r.append(Case('scf units', pwscf_units, {}))
    for cu in ('alat', 'bohr', 'angstrom', 'crystal'):
        for hu in (None, '', 'alat', 'num', 'bohr', 'angstrom'):
            for ua in (True, False) if T or (cu, hu) in (
                    ('alat', 'num'), ('crystal', 'alat'),
                    ('angstrom', '')) else (True,):
                r.append(Case('md %s %r %s' % (cu, hu, ua), md, dict(
                    na=2, nt=2, cu=cu, hu=hu, use_alat=ua)))
    r.append(Case('md one atom, step', md, dict(na=1, nt=1)))
    r.append(Case('md one atom', md, dict(na=1, nt=3)))
    r.append(Case('md many atoms', md, dict(na=11, nt=2, hu='num')))
    r.append(Case('md many steps', md, dict(na=1, nt=11, hu='num')))
    r.append(Case('vcmd many', md, dict(na=2, nt=11, hu='alat', vcmd=True)))
    r.append(Case('md one step', md, dict(na=3, nt=1, cu='bohr', hu='alat')))
    r.append(Case('md no first scf', md, dict(na=2, nt=2, first=False)))
    r.append(Case('md parts', md, dict(na=2, nt=2, extra=2)))
    r.append(Case('md brace', md, dict(na=2, nt=2, style='brace', hu='num')))
    r.append(Case('md bare', md, dict(na=2, nt=2, style='bare', hu='bohr',
                                      cu='angstrom')))
    r.append(Case('md no unit', md, dict(na=2, nt=2, cu=None, hu='alat')))
    r.append(Case('md restart', md, dict(na=1, nt=3, hu='num', restart=True)))
    r.append(Case('vcmd', md, dict(na=2, nt=2, hu='alat', vcmd=True)))
    r.append(Case('vcmd one step', md, dict(na=1, nt=1, hu='alat',
                                            vcmd=True)))
    r.append(Case('vcmd restart', md, dict(na=2, nt=2, hu='num', vcmd=True,
                                           restart=True, cu='crystal')))
    dr = [x for x in ALL if x != 'cell'] + ['pos', 'ekin', 'dt']
    for x in dr:
        r.append(Case('md without %s' % x, md, dict(
            na=2, nt=2, drop=(x,), hu=None if x == 'alat' else 'num')))
    for x in dr if T else ['ekin', 'forces']:
        r.append(Case('vcmd without %s' % x, md, dict(
            na=2, nt=2, drop=(x,), hu='alat', vcmd=True)))
    return r
