"""bridges: ASE atoms, spglib tuples, viewers, Pwscf and Lammps calculators"""
import contextlib
import os

from symx.run import Case

META = {
    'title': 'Structures pass unchanged to ASE, spglib, viewers, calculators '
    'and back',
    'statement': 'get_ase_atoms, struct2atoms, atoms2struct, '
    'get_fake_ase_atoms, get_spglib, struct2spglib and spglib2struct keep '
    'symbols, cell and fractional coordinates (pbc is off unless asked for); '
    'is_same_struct is true exactly if symbols, volume, cell constants, '
    'coordinates and space group agree, spglib_get_primitive gives None for '
    'an irreducible structure and the primitive one otherwise, and options '
    'are passed on. The Pwscf calculator writes an input in which every '
    'setting stands once, inside its own namelist, with the values given or '
    'the defaults (ecutrho = 4 ecutwfc), each species with its mass and its '
    'own pseudopotential, and cell, positions and k-points of the atoms; the '
    'Lammps calculator refers to files in its own directory, by its own '
    'label. Energy, forces and stress which come back are those of the atoms '
    'in their own orientation, the stress with the sign, order and unit of '
    'ASE. Settings of one calculator do not leak into another one, unknown '
    'or unsupported settings are refused, and with backup=True older files '
    'are kept. Viewers are started on a file with exactly that object; '
    'temporary files are gone afterwards unless they are to be kept. '
    'vmd_measure_gofr gives VMD exactly the steps, selections, cell and '
    'limits asked for and returns what VMD finds; cells which are not '
    'orthogonal are refused.',
    'forall': 'all real cells, coordinates, energies, forces, stresses and '
    'numeric settings; the listed symbols, pseudopotential lists and options',
    'why': 'the tests which drive the calculators need pw.x and LAMMPS and '
    'use one well oriented AlN cell, one calculator and one label; '
    'conversions are tested for random hydrogen cells',
    'files': ['src/pwtools/calculators.py', 'src/pwtools/crys.py',
              'src/pwtools/symmetry.py', 'src/pwtools/visualize.py',
              'src/pwtools/pwscf.py', 'src/pwtools/io.py',
              'src/pwtools/parse.py'],
    'mech': ['calculators.Pwscf.write_input', 'calculators.Pwscf.read_results',
             'calculators.Lammps.write_input',
             'calculators.Lammps.read_results',
             'calculators.CalculatorBase.init_params_from_input',
             'calculators.stress_pwtools2ase', 'calculators.find_exe',
             'crys.Structure.get_ase_atoms', 'crys.atoms2struct',
             'crys.struct2atoms', 'crys.FakeASEAtoms', 'symmetry.*',
             'crys.vmd_measure_gofr', 'crys.call_vmd_measure_gofr',
             'visualize.ViewFactory.__call__'],
}
BOUNDS = {'quick': '1 to 4 atoms; sheared cells (bridges, Pwscf), '
          'rectangular cells in 4 orientations (Lammps)'
          '; larger single cases, 5 to 13 items long',
          'thorough': 'more orientations, labels and pseudopotential lists'}
OUTSIDE = ('ASE, spglib, pw.x, LAMMPS, VMD and the viewers themselves (symbolic '
           'runs use a stand-in for ase.Atoms, replays the real one; spglib '
           'and the shell command of a viewer are stand-ins which record '
           'what they get); kpts as density (ASE computes the mesh); '
           'changing settings after the calculator was made')


class Cell:
    def __init__(self, a):
        self.a = a


class Atoms:
    """stand-in for ase.Atoms with symbolic numbers"""

    def __init__(self, symbols=None, scaled_positions=None, cell=None,
                 pbc=None, **kw):
        if kw:
            raise TypeError(list(kw))
        self.s, self.x, self.c = list(symbols), scaled_positions, cell
        self.pbc = pbc

    def get_chemical_symbols(self):
        return list(self.s)

    def get_cell(self):
        return self.c

    def get_scaled_positions(self):
        return self.x

    def set_pbc(self, v):
        self.pbc = v


@contextlib.contextmanager
def ase_atoms(ctx):
    import ase
    old = ase.Atoms
    if ctx.symbolic:
        ase.Atoms = Atoms
    try:
        yield
    finally:
        ase.Atoms = old


SYM = [['Si'], ['Al', 'N'], ['C', 'Cl', 'C'], ['N', 'H', 'N', 'Na'],
       ['N', 'Na', 'H', 'C', 'Cl', 'Si', 'Al'] + ['H'] * 5]


def make(ctx, sy, mode='tri'):
    crys = ctx.mod('crys')
    n = len(sy)
    if mode == 'pos':
        h = ctx.reals('h', (3, 3), 0.1, 1) + 5 * ctx.arr(
            [[int(i == j) for j in range(3)] for i in range(3)])
    else:
        h = ctx.cell('h', mode, 3, 6)
    x = ctx.reals('x', (n, 3), 0.05, 0.95)
    return crys.Structure(symbols=sy, cell=h, coords_frac=x), h, x


def bridge(ctx, k):
    crys = ctx.mod('crys')
    sym = ctx.mod('symmetry')
    sy = SYM[k]
    st, h, x = make(ctx, sy)
    with ase_atoms(ctx):
        pbc = ctx.choice('pbc', [None, False, True])
        kw = {} if pbc is None else dict(pbc=pbc)
        for at in (st.get_ase_atoms(**kw), crys.struct2atoms(st, **kw)):
            ctx.check(list(at.get_chemical_symbols()) == sy, 'symbols')
            ctx.eq(ctx.np.array(at.get_cell()), h, 'cell')
            ctx.eq(at.get_scaled_positions(), x, 'scaled positions')
            p = at.pbc if ctx.symbolic else list(at.pbc)
            ctx.check(p in (bool(pbc), [bool(pbc)] * 3), 'pbc')
            s2 = crys.atoms2struct(at)
            ctx.check(s2.symbols == sy, 'symbols back')
            ctx.eq(s2.cell, h, 'cell back')
            ctx.eq(s2.coords_frac, x, 'coords back')
            ctx.eq(s2.coords, st.coords, 'cartesian back')
        if ctx.symbolic:
            ctx.raises(TypeError, lambda: st.get_ase_atoms(foo=1), 'options')
        for s in (crys.Structure(symbols=sy, coords_frac=x),
                  crys.Structure(cell=h, coords_frac=x),
                  crys.Structure(cell=h, symbols=sy)):
            ctx.check(s.get_ase_atoms() is None, 'incomplete')
    fa = st.get_fake_ase_atoms()
    z = {'Si': 14, 'Al': 13, 'N': 7, 'C': 6, 'Cl': 17, 'H': 1, 'Na': 11}
    zn = [z[s] for s in sy]
    ctx.eq(fa.get_scaled_positions(), x, 'fake: scaled positions')
    ctx.eq(fa.get_positions(), st.coords, 'fake: positions')
    ctx.eq(fa.get_cell(), h, 'fake: cell')
    ctx.check(fa.get_number_of_atoms() == len(sy), 'fake: number')
    ctx.check([int(v) for v in fa.get_atomic_numbers()] == zn, 'fake: Z')
    ctx.check(fa.get_magnetic_moments() is None, 'fake: moments')
    for tup in (st.get_spglib(), sym.struct2spglib(st)):
        ctx.check(isinstance(tup, tuple) and len(tup) == 3, 'tuple')
        ctx.eq(tup[0], h, 'spglib: cell')
        ctx.eq(tup[1], x, 'spglib: coords')
        ctx.check(list(tup[2]) == zn, 'spglib: numbers')
        b = sym.spglib2struct(tup)
        ctx.check(b.symbols == sy, 'back: symbols')
        ctx.eq(b.cell, h, 'back: cell')
        ctx.eq(b.coords_frac, x, 'back: coords')
    ctx.raises(AssertionError, lambda: sym.spglib2struct([h, x, zn]), 'list')
    ctx.raises(AssertionError, lambda: sym.spglib2struct((h, x)), 'short')
    tr = st.get_traj(2)
    for f in (tr.get_ase_atoms, tr.get_fake_ase_atoms, tr.get_spglib):
        ctx.raises(NotImplementedError, f, 'trajectory')


class Spglib:
    def __init__(self, groups, prim=None):
        self.groups, self.prim, self.log = list(groups), prim, []

    def get_spacegroup(self, tup, **kw):
        self.log.append((tup, kw))
        return self.groups.pop(0)

    def find_primitive(self, tup, **kw):
        self.log.append((tup, kw))
        return self.prim


GR = [('P1 (1)', (1, 'P1')), ('Fm-3m (225)', (225, 'Fm-3m')),
      ('P6_3mc (186)', (186, 'P6_3mc'))]


def spg(ctx):
    crys = ctx.mod('crys')
    S = ctx.mod('symmetry')
    sy = ['Al', 'N']
    h = ctx.cell('h', 'diag', 3, 6)
    x = ctx.reals('x', (2, 3), 0.05, 0.95)
    st = crys.Structure(symbols=sy, cell=h, coords_frac=x)
    now = [None]
    with ctx.stand({'spglib.get_spacegroup': lambda *a, **k:
                    now[0].get_spacegroup(*a, **k),
                    'spglib.find_primitive': lambda *a, **k:
                    now[0].find_primitive(*a, **k)}):
        g = ctx.choice('group', GR)
        other = ctx.choice('other', [v for v in GR])
        now[0] = sp = Spglib([g[0]] * 2)
        ctx.check(S.spglib_get_spacegroup(st) == g[1], 'space group')
        ctx.check(S.spglib_get_spacegroup(st, symprec=0.1) == g[1], 'group')
        ctx.check([v[1] for v in sp.log] == [{}, {'symprec': 0.1}],
                  'options')
        ctx.eq(sp.log[0][0][1], x, 'coords to spglib')
        ctx.eq(sp.log[0][0][0], h, 'cell to spglib')
        # equal
        now[0] = Spglib([g[0], other[0]] * 3)
        same = g == other
        b = crys.Structure(symbols=sy, cell=h.copy(), coords_frac=x.copy())
        ctx.check(bool(S.is_same_struct(st, b)) == same, 'group decides')
        # primitive
        now[0] = sp = Spglib([other[0], g[0]], (h.copy(), x.copy(),
                                                  [13, 7]))
        p = S.spglib_get_primitive(st, symprec=0.01)
        ctx.check(sp.log[0][1] == {'symprec': 0.01}, 'options')
        ctx.eq(sp.log[0][0][0], h, 'cell to spglib')
        ctx.check((p is None) == same, 'irreducible')
        if p is not None:
            ctx.eq(p.cell, h, 'primitive cell')
            ctx.check(p.symbols == sy, 'primitive symbols')
        now[0] = Spglib([g[0]] * 2, (h / 2, x[:1] * 2, [13]))
        p = S.spglib_get_primitive(st)
        ctx.eq(p.cell, h / 2, 'primitive cell')
        ctx.eq(p.coords_frac, x[:1] * 2, 'primitive coords')
        ctx.check(p.symbols == ['Al'] and p.natoms == 1, 'primitive symbols')
        # different
        d = ctx.real('d', 0.01, 0.5)
        i = ctx.idx('i', 0, 1)
        j = ctx.idx('j', 0, 2)
        x2 = x.copy()
        x2[i, j] = x2[i, j] + d
        h2 = h.copy()
        h2[j, j] = h2[j, j] + d
        for c in (crys.Structure(symbols=sy, cell=h, coords_frac=x2),
                  crys.Structure(symbols=sy, cell=h2, coords_frac=x),
                  crys.Structure(symbols=['N', 'Al'], cell=h, coords_frac=x),
                  crys.Structure(symbols=['Al'], cell=h, coords_frac=x[:1])):
            now[0] = Spglib([g[0]] * 4)
            ctx.check(not S.is_same_struct(st, c), 'different')
            ctx.check(not S.is_same_struct(c, st), 'different')


def stress(ctx):
    C = ctx.mod('calculators')
    k = ctx.mod('constants')
    u = ctx.reals('u', (6,), -50, 50)
    s = ctx.arr([[u[0], u[1], u[2]], [u[1], u[3], u[4]], [u[2], u[4], u[5]]])
    got = C.stress_pwtools2ase(s)
    # eV in J times 1e21: eV/Ang^3 in GPa
    ctx.check(tuple(got.shape) == (6,), 'shape')
    ctx.eq(got * (ctx.num(k.eV) * 10**21), [-u[0], -u[3], -u[5], -u[4],
                                            -u[2], -u[1]], 'stress')


def namelists(txt):
    """{namelist: {key: value}}, lines outside of namelists"""
    r, out, cur = {}, [], None
    for l in txt.splitlines():
        l = l.strip()
        if l.startswith('&'):
            cur = l[1:].lower()
            assert cur not in r, cur
            r[cur] = {}
        elif l == '/':
            cur = None
        elif cur is None:
            if l:
                out.append(l)
        else:
            k, v = [w.strip().rstrip(',').strip() for w in l.split('=')]
            assert k not in r[cur], k
            r[cur][k] = v
    return r, out


PP = [(['Si'], 'pbe.UPF', {'Si': 'Si.pbe.UPF'}),
      (['Al', 'N'], 'pbe-n-kjpaw_psl.0.1.UPF', {
          'Al': 'Al.pbe-n-kjpaw_psl.0.1.UPF',
          'N': 'N.pbe-n-kjpaw_psl.0.1.UPF'}),
      (['C', 'Cl', 'C'], ['Cl.pz.UPF', 'C.pbe.UPF'],
       {'C': 'C.pbe.UPF', 'Cl': 'Cl.pz.UPF'}),
      (['N', 'H', 'N', 'Na'], ['Na_x.UPF', 'N.1.UPF', 'H.UPF'],
       {'N': 'N.1.UPF', 'Na': 'Na_x.UPF', 'H': 'H.UPF'})]


def atoms(ctx, st):
    with ase_atoms(ctx):
        return st.get_ase_atoms(pbc=True)


def pwscf(ctx, k):
    ctx.tokens_on()
    C = ctx.mod('calculators')
    pt = ctx.mod('atomic_data').pt
    sy, pp, want = PP[k]
    st, h, x = make(ctx, sy, 'pos')
    at = atoms(ctx, st)
    d = os.path.join(ctx.scratch(), 'calc')
    kw = dict(pp=pp, pseudo_dir='/pp/dir', outdir='/out/dir', directory=d,
              kpts=[2, 3, 4], command='true')
    ref = {'ecutwfc': 80.0, 'ecutrho': None, 'conv_thr': 1e-10,
           'mixing_beta': 0.3, 'electron_maxstep': 500}
    txt = {'calc_name': 'pwscf', 'diagonalization': 'david',
           'mixing_mode': 'plain'}
    some = ctx.choice('given', [False, True])
    if some:
        ref.update(ecutwfc=ctx.real('ecutwfc', 10, 99),
                   conv_thr=ctx.real('conv', 0.1, 1),
                   mixing_beta=ctx.real('beta', 0.1, 1),
                   electron_maxstep=77)
        if ctx.choice('rho', [False, True]):
            ref['ecutrho'] = ctx.real('ecutrho', 100, 999)
        txt.update(calc_name='foo', diagonalization='cg', mixing_mode='TF')
        kw.update(ref)
        kw.update(txt)
    label = ctx.choice('label', [None, 'bar']) if some else None
    if label:
        kw['label'] = label
    if ref['ecutrho'] is None:
        ref['ecutrho'] = 4 * ref['ecutwfc']
    kw0 = dict(kw)
    calc = C.Pwscf(**kw)
    base = os.path.join(d, label or 'pw')
    ctx.check(calc.infile == base + '.in' and calc.outfile == base + '.out',
              'file names')
    ctx.check(kw == kw0, 'arguments kept')
    old = []
    if ctx.choice('backup', [False, True]):
        calc.backup = True
        os.makedirs(d)
        for i, fn in enumerate((calc.infile, calc.outfile)):
            with open(fn, 'w') as f:
                f.write('old %i' % i)
            old.append(fn)
    calc.write_input(at)
    for i, fn in enumerate(old):
        with open(fn + '.0') as f:
            ctx.check(f.read() == 'old %i' % i, 'backup')
    with open(calc.infile) as f:
        nl, rest = namelists(f.read())
    ctx.check(sorted(nl) == ['control', 'electrons', 'system'], 'namelists')
    q = lambda s: "'%s'" % s
    c, s, e = nl['control'], nl['system'], nl['electrons']
    ctx.check(c == {
        'calculation': q('scf'), 'restart_mode': q('from_scratch'),
        'prefix': q(txt['calc_name']), 'tstress': '.true.',
        'tprnfor': '.true.', 'pseudo_dir': q('/pp/dir'),
        'outdir': q('/out/dir'), 'wf_collect': '.false.'}, 'control')
    ctx.check(s.pop('ibrav') == '0' and s.pop('nat') == str(len(sy)) and
              s.pop('ntyp') == str(len(want)) and
              s.pop('nosym') == '.false.' and
              s.pop('occupations') == q('smearing') and
              s.pop('smearing') == q('mv') and
              float(s.pop('degauss')) == 0.005, 'system')
    for n in ('ecutwfc', 'ecutrho'):
        ctx.eq(ctx.parse(s.pop(n)), ref[n], n)
    for n in ('conv_thr', 'mixing_beta', 'electron_maxstep'):
        ctx.eq(ctx.parse(e.pop(n)), ref[n], n)
    for n in ('diagonalization', 'mixing_mode'):
        ctx.check(e.pop(n) == q(txt[n]), n)
    ctx.check(not s and not e, 'nothing else')
    # cards
    un = sorted(set(sy))
    na = len(sy)
    ctx.check(rest[0] == 'ATOMIC_SPECIES', 'species')
    sp = [l.split() for l in rest[1:1 + len(un)]]
    ctx.check(sorted(v[0] for v in sp) == un, 'species')
    for v in sp:
        ctx.check(v[2] == want[v[0]] and len(v) == 3, 'pseudopotential')
        ctx.eq(float(v[1]), pt[v[0]]['mass'], 'mass')
    rest = rest[1 + len(un):]
    ctx.check(rest[0] == 'CELL_PARAMETERS angstrom', 'cell')
    ctx.eq(ctx.arr([[ctx.parse(w) for w in l.split()] for l in rest[1:4]]),
           h, 'cell')
    ctx.check(rest[4] == 'ATOMIC_POSITIONS crystal', 'positions')
    ps = [l.split() for l in rest[5:5 + na]]
    ctx.check([v[0] for v in ps] == sy, 'symbols')
    ctx.eq(ctx.arr([[ctx.parse(w) for w in v[1:]] for v in ps]), x,
           'positions')
    k = rest[6 + na].split()
    ctx.check(rest[5 + na] == 'K_POINTS automatic' and len(rest) == 7 + na
              and k[:6] == '2 3 4 0 0 0'.split() and set(k[6:]) <= {'0'},
              'k-points')
    # results
    n = len(sy)
    F = ctx.reals('f', (n, 3), -3, 3)
    E = ctx.real('e', -99, -1)
    T = ctx.reals('s', (3, 3), -9, 9)
    T = T + T.T

    class Res:
        etot, forces, stress = E, F, T
    seen = []

    def read(fn):
        seen.append(fn)
        return Res
    with ctx.stand({'pwtools.io.read_pw_scf': read}):
        if not os.path.exists(calc.outfile):
            ctx.raises(AssertionError, calc.read_results, 'no output')
            with open(calc.outfile, 'w') as f:
                f.write('x')
        calc.read_results()
    ctx.check(seen == [calc.outfile], 'output file')
    results(ctx, C, calc, E, F, T)
    # another calculator has the defaults
    two = C.Pwscf(pp='x', pseudo_dir='p', outdir='o')
    ctx.check((two.ecutwfc, two.ecutrho, two.conv_thr, two.calc_name,
               two.kpts, two.command, two.prefix, two.backup) == (
                   80.0, 320.0, 1e-10, 'pwscf', 5.0,
                   'pw.x -input pw.in | tee pw.out', 'pw', False),
              'defaults of the next calculator')
    ok = dict(pp='x', pseudo_dir='p', outdir='o')
    for key in ok:
        ctx.raises(AssertionError, lambda: C.Pwscf(**dict(ok, **{key: None})),
                   'required')
    ctx.raises(AssertionError, lambda: C.Pwscf(**dict(ok, kpts=None)), 'kpts')
    for bad in (dict(foo=1), dict(smearing=1), dict(xc='PBE')):
        ctx.raises(Exception, lambda: C.Pwscf(**dict(ok, **bad)), 'refused')
    if isinstance(pp, list):
        short = C.Pwscf(**dict(kw0, pp=pp[:-1]))
        ctx.raises(AssertionError, lambda: short.write_input(at), 'pp')
        wrong = C.Pwscf(**dict(kw0, pp=pp[:-1] + ['Xe.UPF']))
        ctx.raises(AssertionError, lambda: wrong.write_input(at), 'pp')


def results(ctx, C, calc, E, F, T):
    k = ctx.mod('constants')
    r = calc.results
    ctx.check(sorted(r) == ['energy', 'forces', 'stress'], 'results')
    ctx.eq(r['energy'], E, 'energy')
    ctx.eq(r['forces'], F, 'forces')
    v = [T[0, 0], T[1, 1], T[2, 2], T[1, 2], T[0, 2], T[0, 1]]
    ctx.eq(r['stress'] * (ctx.num(k.eV) * 10**21), [-a for a in v], 'stress')


F = '%.16e'


def rotations(ctx):
    q = lambda a, b: ctx.num(a) / ctx.num(b)
    I = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    P = [[0, 1, 0], [0, 0, 1], [1, 0, 0]]
    A = [[q(3, 5), q(4, 5), 0], [q(-4, 5), q(3, 5), 0], [0, 0, 1]]
    B = [[q(2, 3), q(-1, 3), q(2, 3)], [q(2, 3), q(2, 3), q(-1, 3)],
         [q(-1, 3), q(2, 3), q(2, 3)]]
    M = [[1, 0, 0], [0, 1, 0], [0, 0, -1]]
    return [[[ctx.num(v) for v in r] for r in m] for m in (I, P, A, B, M)]


def lammps(ctx, k, rot, label):
    ctx.tokens_on(signed=True)
    C = ctx.mod('calculators')
    crys = ctx.mod('crys')
    sy = [['Al', 'N'], ['N', 'Al', 'N'], ['Si']][k]
    n = len(sy)
    L = ctx.cell('h', 'diag', 3, 6)
    x = ctx.reals('x', (n, 3), 0.05, 0.95)
    R = ctx.arr(rotations(ctx)[rot])
    h = ctx.np.dot(L, R)
    st = crys.Structure(symbols=sy, cell=h, coords_frac=x)
    at = atoms(ctx, st)
    d = os.path.join(ctx.scratch(), 'calc')
    kw = dict(directory=d, pair_style='foo 3.0', pair_coeff='* * x.foo')
    if label != 'lmp':
        kw.update(label=label, command='lmp < %s.in > %s.out' % (
            label, label))
    kw0 = dict(kw)
    calc = C.Lammps(**kw)
    ctx.check(kw == kw0, 'arguments kept')
    b = os.path.join(d, label)
    ctx.check((calc.infile, calc.outfile, calc.dumpfile, calc.structfile,
               calc.logfile) == (
        b + '.in', b + '.out', b + '.out.dump', b + '.struct',
        os.path.join(d, 'log.lammps')), 'file names')
    old = [calc.infile, calc.outfile, calc.dumpfile, calc.structfile,
           calc.logfile]
    back = ctx.choice('backup', [False, True])
    if back:
        calc.backup = True
        os.makedirs(d)
        for i, fn in enumerate(old):
            with open(fn, 'w') as f:
                f.write('old %i' % i)
    calc.write_input(at)
    if back:
        for i, fn in enumerate(old):
            with open(fn + '.0') as f:
                ctx.check(f.read() == 'old %i' % i, 'backup')
    with open(calc.infile) as f:
        inp = [l.split('#')[0].split() for l in f]
    inp = [l for l in inp if l]
    ctx.check([l for l in inp if l[0] == 'read_data'] ==
              [['read_data', label + '.struct']], 'structure file')
    ctx.check([l[5] for l in inp if l[0] == 'dump'] == [label + '.out.dump'],
              'dump file')
    ctx.check(['pair_style', 'foo', '3.0'] in inp and
              ['pair_coeff', '*', '*', 'x.foo'] in inp, 'interactions')
    ctx.check(['units', 'metal'] in inp and ['boundary', 'p', 'p', 'p'] in
              inp and ['run', '0'] in inp, 'settings')
    # the structure
    with open(calc.structfile) as f:
        w = [l.split() for l in f if l.strip()]
    get = lambda key: [l for l in w if l[-len(key):] == key][0]
    ctx.check(get(['atoms'])[0] == str(n), 'atoms')
    for i, a in enumerate('xyz'):
        l = get([a + 'lo', a + 'hi'])
        ctx.eq(ctx.parse(l[1]) - ctx.parse(l[0]), L[i, i], 'box')
    for v in get(['xy', 'xz', 'yz'])[:3]:
        ctx.eq(ctx.parse(v), 0, 'tilt', atol=1e-6)
    i0 = [i for i, l in enumerate(w) if l[0] == 'Atoms'][0] + 1
    un = sorted(set(sy))
    for i in range(n):
        l = w[i0 + i]
        ctx.check(l[:2] == [str(i + 1), str(un.index(sy[i]) + 1)], 'type')
        # in the frame of LAMMPS
        for j in range(3):
            ctx.eq(ctx.parse(l[2 + j]), x[i, j] * L[j, j], 'position',
                   atol=1e-6)
    # what LAMMPS gives back, in its own frame
    E = ctx.real('e', -99, -1)
    f = ctx.reals('f', (n, 3), 0.1, 3)
    s = ctx.reals('s', (6,), 1, 9)
    T = ctx.arr([[s[0], s[3], s[4]], [s[3], s[1], s[5]], [s[4], s[5], s[2]]])
    cols = 'Volume PotEng Pxx Pyy Pzz Pxy Pxz Pyz'.split()
    if back:
        for fn in (calc.outfile, calc.dumpfile):
            if os.path.exists(fn):
                os.remove(fn)
    ctx.raises(AssertionError, calc.read_results, 'no output')
    # another calculation in the same place
    for fn in ('x.out.dump', 'lmp.out.dump', 'lmp.out'):
        with open(os.path.join(d, fn), 'w') as o:
            o.write('')
    with open(calc.outfile, 'w') as o:
        o.write('LAMMPS (7 Feb 2024)\n   Step          ' +
                '  '.join(cols) + '\n         0   ' + '  '.join(
                    F % v for v in [L[0, 0] * L[1, 1] * L[2, 2], E] +
                    list(s)) + '\nLoop time of 1e-6 on 1 procs\n')
    with open(calc.dumpfile, 'w') as o:
        o.write('ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n%i\n' % n)
        o.write('ITEM: BOX BOUNDS xy xz yz pp pp pp\n')
        for i in range(3):
            o.write('0.0 %s 0.0\n' % (F % L[i, i]))
        o.write('ITEM: ATOMS id type xu yu zu fx fy fz\n')
        for i in range(n):
            o.write('%i %i ' % (i + 1, un.index(sy[i]) + 1) + ' '.join(
                F % v for v in [x[i, j] * L[j, j] for j in range(3)] +
                list(f[i])) + ' \n')
    calc.read_results()
    np = ctx.np
    results(ctx, C, calc, E, np.dot(f, R),
            np.dot(R.T, np.dot(T / 10**4, R)))
    two = C.Lammps()
    ctx.check((two.pair_style, two.pair_coeff, two.directory, two.prefix,
               two.command, two.backup) == (
        'tersoff', '* * ./AlN.tersoff Al N', '.', 'lmp',
        'lmp < lmp.in > lmp.out', False), 'defaults of the next calculator')
    ctx.raises(Exception, lambda: C.Lammps(foo=1), 'unknown setting')


def exe(ctx):
    C = ctx.mod('calculators')
    d = ctx.scratch()
    for n in ('aa', 'bb'):
        fn = os.path.join(d, n)
        with open(fn, 'w') as f:
            f.write('#!/bin/sh\n')
        os.chmod(fn, 0o755)
    with open(os.path.join(d, 'cc'), 'w') as f:
        f.write('not executable')
    old = os.environ['PATH']
    os.environ['PATH'] = d
    try:
        j = lambda n: os.path.join(d, n)
        for names, want in (('aa', j('aa')), (['xx', 'bb'], j('bb')),
                            (['bb', 'aa'], j('bb')), (['cc', 'aa'], j('aa')),
                            ('cc', None), (['xx', 'yy'], None), ('a', None),
                            ([], None)):
            ctx.check(C.find_exe(names) == want, 'first one which exists')
    finally:
        os.environ['PATH'] = old
    # one choice so that there is something to decide
    x = ctx.real('x', 0, 1)
    ctx.check(x * 0 == 0, 'trivial')


def viewer(ctx):
    V = ctx.mod('visualize')
    crys = ctx.mod('crys')
    tmp = os.path.join(ctx.scratch(), 'tmp')
    os.makedirs(tmp)
    x = ctx.reals('x', (2, 3), 0, 1)
    named = ctx.choice('symbols', [True, False])
    st = crys.Structure(coords_frac=x, cell=ctx.cell('h', 'diag', 3, 6),
                        **({'symbols': ['Al', 'N']} if named else {}))
    if not named:
        st.natoms = 2
    wrote, ran, asserted = [], [], []

    def writer(fn, obj):
        wrote.append((fn, obj, list(obj.symbols)))
        with open(fn, 'w') as f:
            f.write('struct')

    def system(cmd, wait=True):
        with open(wrote[-1][0]) as f:
            ran.append((cmd, wait, f.read()))
    with ctx.stand({'pwtools.common.system': system}):
        v = V.ViewFactory(cmd='view -x', suffix='.foo', writer=writer,
                          assert_cmd=asserted.append)
        bg = ctx.choice('bg', [False, True])
        keep = ctx.choice('keep', [False, True])
        disp = ctx.choice('disp', [False, True])
        names = ctx.choice('names', [False, True])
        kw = dict(bg=bg, keepfiles=keep, disp=disp, tmpdir=tmp,
                  options='-e a.tcl')
        if names:
            kw.update(structfile=os.path.join(tmp, 's.foo'),
                      logfile=os.path.join(tmp, 'log'))
            with open(kw['logfile'], 'w'):
                pass
        v(st, **kw)
    ctx.check(len(wrote) == len(ran) == 1, 'one call')
    ctx.check(asserted == [st], 'checked')
    fn, obj, sy = wrote[0]
    ctx.check(obj is st, 'object')
    ctx.check(sy == (['Al', 'N'] if named else ['H', 'H']), 'symbols')
    ctx.check(os.path.dirname(fn) == tmp and fn.endswith('.foo'), 'name')
    cmd, wait, txt = ran[0]
    ctx.check(txt == 'struct', 'file is complete')
    ctx.check(wait is not bg, 'wait')
    w = cmd.split()
    ctx.check(w[:5] == ['view', '-x', '-e', 'a.tcl', fn], 'command')
    log = w[-1] if disp else w[6]
    ctx.check(w[5:] == (['2>&1', '|', 'tee', log] if disp else
                        ['>', log, '2>&1']), 'log')
    left = sorted(os.listdir(tmp))
    ctx.check(left == (sorted(map(os.path.basename, (fn, log)))
                       if keep or bg else []), 'files left')
    if names:
        ctx.check((fn, log) == (kw['structfile'], kw['logfile']), 'names')
    ctx.eq(st.coords_frac, x, 'coords kept')
    tr = st.get_traj(2)
    ctx.raises(AssertionError, lambda: V.view_jmol(tr), 'trajectory')
    ctx.raises(AssertionError, lambda: V.view_avogadro(tr), 'trajectory')


def setting(txt, name):
    r = [l.split(None, 2)[2] for l in txt.splitlines()
         if l.split()[:2] == ['set', name]]
    assert len(r) == 1, (name, r)
    return r[0].strip('"')


def vmd(ctx, first, last, step, n=4):
    """the RPDF of VMD is the one of the steps asked for"""
    crys = ctx.mod('crys')
    ctx.tokens_on()
    tmp = ctx.scratch()
    sy = ['Al', 'N']
    h = ctx.cell('h', 'diag', 3, 6)
    x = ctx.reals('x', (n, 2, 3), 0.05, 0.95)
    tr = crys.Trajectory(symbols=sy, cell=h, coords_frac=x)
    dr = ctx.real('dr', 0.01, 0.1)
    out = ctx.reals('out', (3, 3), 0.5, 9)
    seen = []

    def run(cmd):
        w = cmd.split()
        ctx.check(w[:5] == ['vmd', '-dispdev', 'none', '-eofexit', '-e'],
                  'command')
        with open(w[5]) as f:
            txt = f.read()
        ctx.check('XXX' not in txt, 'placeholders')
        load = [l.split() for l in txt.splitlines() if 'mol new' in l]
        ctx.check(len(load) == 1 and load[0][3:5] == ['type', 'xsf'], 'file')
        with open(load[0][2]) as f:
            traj = f.read().split('\n')
        frames = []
        for i, l in enumerate(traj):
            if l.startswith('PRIMVEC'):
                frames.append([[ctx.parse(t) for t in traj[j].split()]
                               for j in range(i + 1, i + 4)])
            elif l.startswith('PRIMCOORD'):
                m = int(traj[i + 1].split()[0])
                rows = [traj[j].split() for j in range(i + 2, i + 2 + m)]
                ctx.check([r[0] for r in rows] == sy, 'symbols')
                frames[-1] = (frames[-1], [[ctx.parse(t) for t in r[1:4]]
                                           for r in rows])
        use = [int(setting(txt, k)) for k in ('first', 'last', 'step')]
        seen.append((frames[use[0]:None if use[1] == -1 else use[1] + 1:
                            use[2]],
                     {k: setting(txt, k) for k in (
                         'selstr1', 'selstr2', 'delta', 'rmax', 'usepbc')}))
        fn = [l.split()[3] for l in txt.splitlines()
              if l.split()[:2] == ['set', 'fp']]
        assert len(fn) == 1
        with open(fn[0].strip('"'), 'w') as f:
            for row in out:
                f.write(' '.join('%.16e' % v for v in row) + '\n')
        return ''
    sl = ctx.choice('slicefirst', [None, True, False])
    given = ctx.choice('rmax', [False, True])
    pbc = ctx.choice('usepbc', [1, 0])
    kw = dict(first=first, last=last, step=step)
    if sl is not None:
        kw['slicefirst'] = sl
    if given:
        kw['rmax'] = rm = ctx.real('rm', 1, 5)
    else:
        rm = crys.rmax_smith(h)
    sel = ['name Al', 'all']
    with ctx.stand({'pwtools.common.backtick': run}):
        got = crys.vmd_measure_gofr(tr, dr=dr, sel=sel, usepbc=pbc,
                                    tmpdir=tmp, **kw)
    ctx.eq(got, out, 'result')
    ctx.check(len(seen) == 1, 'one call')
    fr, s = seen[0]
    want = list(range(n))[first:None if last == -1 else last + 1:step]
    ctx.check(len(fr) == len(want), 'number of steps')
    for i, (c, xx) in zip(want, fr):
        ctx.eq(c, h, 'cell')
        ctx.eq(xx, ctx.np.dot(x[i], h), 'coords of the step')
    ctx.check([s['selstr1'], s['selstr2']] == sel, 'selections')
    ctx.check(int(s['usepbc']) == pbc, 'pbc')
    ctx.eq(ctx.parse(s['delta']), dr, 'dr')
    ctx.eq(ctx.parse(s['rmax']), rm, 'rmax', tol=1e-7)
    ctx.eq(tr.coords_frac, x, 'coords kept')
    if given:
        return
    tri = crys.Trajectory(symbols=sy, coords_frac=x, cryst_const=ctx.arr(
        [4, 4, 5, 90, 90, 60]))
    with ctx.stand({'pwtools.common.backtick': run}):
        ctx.raises(Exception, lambda: crys.vmd_measure_gofr(tri, tmpdir=tmp),
                   'not orthogonal')
    ctx.check(len(seen) == 1, 'no further call')


def cases(tier):
    T = tier == 'thorough'
    cs = [Case('bridge %i' % k, bridge, dict(k=k))
          for k in range(len(SYM))]
    cs += [Case('spglib', spg), Case('stress', stress), Case('exe', exe),
           Case('viewer', viewer)]
    for k in range(len(PP)):
        cs.append(Case('pwscf %i' % k, pwscf, dict(k=k)))
    for rot in range(5):
        ls = ['lmp', 'foo'] if T else [['lmp', 'foo'][rot % 2]]
        for label in ls:
            cs.append(Case('lammps %i %s' % (rot, label), lammps, dict(
                k=[0, 1, 2, 0, 1][rot], rot=rot, label=label), tol=1e-5))
    for a in ((0, -1, 1), (1, 2, 1), (1, 3, 2), (0, 0, 1), (2, -1, 1)):
        cs.append(Case('vmd %i %i %i' % a, vmd, dict(zip(
            ('first', 'last', 'step'), a)), tol=1e-5))
    return cs
