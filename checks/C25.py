"""files: arrayio, io writers, cif/pdb, hdf5, pickle"""
import io as _io
import os

from symx.run import Case

META = {
    'title': 'What is written to a file is what is read back',
    'statement': 'Text array files restore every value and the shape, '
    'whatever the axis of the 2d chunks and including dimensions of length '
    'one, from the header or from shape and axis given by hand. XYZ, AXSF, '
    'sgroup, LAMMPS and CIF files hold every atom of every step in order '
    'with its symbol, coordinates and cell (AXSF forces in Ha/Angstrom, '
    'LAMMPS cell aligned, with tilt factors, and atoms rotated with it); CIF '
    'files read back give cell constants, symbols and fractional '
    'coordinates, from the first or the named block, ignoring standard '
    'uncertainties and charges; PDB files give symbols, coordinates and the '
    'cell or None. HDF5 dictionaries keep all keys (with leading slash) and '
    'values across appends, and never overwrite in append mode; pickled '
    'objects return with all attributes.',
    'forall': 'all numbers, all shapes and axes within bounds',
    'why': 'shape and order bookkeeping for every axis and length, unit '
    'factors and rotations; tests use one file each',
    'files': ['src/pwtools/arrayio.py', 'src/pwtools/io.py',
              'src/pwtools/lammps.py', 'src/pwtools/parse.py',
              'src/pwtools/pwscf.py', 'src/pwtools/base.py'],
    'mech': ['text arrays @ arrayio.py:writetxt, readtxt, arr2d_to_3d',
             'writers @ io.py:write_*, lammps.py:struct_str, '
             'pwscf.py:atpos_str_fast', 'readers @ parse.py:CifFile, PDBFile',
             'hdf5 @ io.py:write_h5, read_h5', 'pickle @ base.py:dump'],
}
BOUNDS = {'quick': '1d-3d arrays with lengths 1-3, all axes; 1-3 atoms, 1-3 '
          'steps; all values (formatting and parsing a number is taken to '
          'be exact)'
          '; larger single cases, 5 to 13 items long'}
OUTSIDE = ('digits lost by number formats, empty arrays, CIF symmetry '
           'operations, HDF5 library itself')

SY = ['Al', 'N', 'H'] * 5


def nums(ctx, text):
    return ctx.arr([ctx.parse(w) for w in text.split()])


def txt(ctx, shape):
    ctx.tokens_on(signed=True)
    ai = ctx.mod('arrayio')
    a = ctx.reals('a', shape)
    fn = os.path.join(ctx.scratch(), 'a.txt')
    for ax in range(-len(shape), len(shape)):
        ai.writetxt(fn, a, axis=ax)
        lab = 'axis %i' % ax
        for kw in ({}, dict(shape=shape), dict(axis=ax),
                   dict(shape=shape, axis=ax)):
            b = ai.readtxt(fn, **kw)
            ctx.check(tuple(b.shape) == shape, lab + ': shape')
            ctx.eq(b, a, lab)
        ai.writetxt(fn, a, axis=ax, header=False)
        b = ai.readtxt(fn, shape=shape, axis=ax)
        ctx.check(tuple(b.shape) == shape, lab + ': shape, no header')
        ctx.eq(b, a, lab + ', no header')
        with open(fn) as fd:
            ctx.eq(ai.readtxt(fd, shape=shape, axis=ax), a, lab + ', handle')
        ctx.raises(Exception, lambda: ai.readtxt(fn), 'no header')
    if len(shape) == 3:
        # both given by hand although there is a header
        n, m, k = shape
        ai.writetxt(fn, a, axis=0)
        b = ai.readtxt(fn, shape=(m, n, k), axis=1)
        ctx.check(tuple(b.shape) == (m, n, k), 'other shape and axis: shape')
        ctx.eq(b, ctx.np.swapaxes(a, 0, 1), 'other shape and axis')
        if n == m:
            ctx.eq(ai.readtxt(fn, axis=1), ctx.np.swapaxes(a, 0, 1),
                   'other axis')
    if len(shape) == 3:
        flat = a.reshape(shape[0] * shape[1], shape[2])
        ctx.eq(ai.arr2d_to_3d(flat, shape=shape, axis=0), a, 'chunks axis 0')
        b = ai.arr2d_to_3d(flat, shape=shape[1:] + shape[:1]) \
            if shape[0] == shape[1] == shape[2] else None
        if b is not None:
            ctx.eq(ctx.np.moveaxis(b, -1, 0), a, 'default axis')
        ctx.raises(Exception, lambda: ai.arr2d_to_3d(
            flat, shape=(shape[0] + 1,) + shape[1:], axis=0), 'wrong shape')
        ps = ctx.mod('parse')
        with open(fn, 'w') as fd:
            fd.write('')
        ai.writetxt(fn, a, axis=0, header=False)
        with open(fn) as fd:
            s = fd.read()
        ctx.eq(ps.traj_from_txt(s, shape), a, 'traj_from_txt')
        ctx.check(ps.traj_from_txt(' \n', shape) is None, 'empty')
        ctx.check(ps.arr2d_from_txt(' ') is None, 'empty')
        ctx.check(ps.arr1d_from_txt(' ') is None, 'empty')
        if shape[2] > 1:
            ctx.eq(ps.arr2d_from_txt(s), flat, 'arr2d_from_txt')
        ctx.eq(ps.arr1d_from_txt('%.16e' % a[0, 0, 0]), [a[0, 0, 0]], 'arr1d')


def traj(ctx, nt, na, forces=False, mode='diag'):
    kw = dict(cell=ctx.arr([ctx.cell('h%i' % t, mode=mode)
                            for t in range(nt)]),
              coords=ctx.reals('x', (nt, na, 3), -9, 9), symbols=SY[:na])
    if forces:
        kw['forces'] = ctx.reals('f', (nt, na, 3), -9, 9)
    return ctx.mod('crys').Trajectory(**kw)


def xyz(ctx, nt, na, struct):
    ctx.tokens_on(signed=True)
    io = ctx.mod('io')
    tr = traj(ctx, nt, na)
    fn = os.path.join(ctx.scratch(), 'a.xyz')
    io.write_xyz(fn, tr[0] if struct else tr, name='mol')
    with open(fn) as fd:
        ln = fd.read().rstrip('\n').split('\n')
    ctx.check(len(ln) == nt * (na + 2), 'lines')
    for t in range(nt):
        b = ln[t * (na + 2):(t + 1) * (na + 2)]
        ctx.check(b[0].split() == [str(na)], 'number of atoms')
        ctx.check(b[1] == 'mol.%i' % (t + 1), 'name')
        for i in range(na):
            w = b[2 + i].split()
            ctx.check(w[0] == SY[i] and len(w) == 4, 'symbol')
            ctx.eq(nums(ctx, ' '.join(w[1:])), tr.coords[t, i], 'coords')


def axsf(ctx, nt, na, forces, struct=False):
    ctx.tokens_on(signed=True)
    io = ctx.mod('io')
    k = ctx.mod('constants')
    tr = traj(ctx, nt, na, forces)
    fn = os.path.join(ctx.scratch(), 'a.axsf')
    io.write_axsf(fn, tr[0] if struct else tr)
    with open(fn) as fd:
        ln = [x for x in fd.read().split('\n') if x.strip()]
    ctx.check(ln[0].split() == ['ANIMSTEPS', str(nt)], 'steps')
    ctx.check(ln[1].strip() == 'CRYSTAL', 'crystal')
    n = 4 + 2 + na
    ctx.check(len(ln) == 2 + nt * n, 'lines')
    for t in range(nt):
        b = ln[2 + t * n:2 + (t + 1) * n]
        ctx.check(b[0].split() == ['PRIMVEC', str(t + 1)], 'PRIMVEC')
        for i in range(3):
            ctx.eq(nums(ctx, b[1 + i]), tr.cell[t, i], 'cell', atol=1e-13)
        ctx.check(b[4].split() == ['PRIMCOORD', str(t + 1)], 'PRIMCOORD')
        ctx.check(b[5].split() == [str(na), '1'], 'natoms')
        for i in range(na):
            w = b[6 + i].split()
            ctx.check(w[0] == SY[i], 'symbol')
            v = nums(ctx, ' '.join(w[1:]))
            ctx.check(len(v) == (6 if forces else 3), 'columns')
            ctx.eq(v[:3], tr.coords[t, i], 'coords')
            if forces:
                ctx.eq(v[3:], tr.forces[t, i] * k.eV / k.Ha, 'forces')


def cc(ctx):
    return ctx.arr([ctx.real('a', 3, 6), ctx.real('b', 3, 6),
                    ctx.real('c', 3, 6), ctx.real('al', 70, 110),
                    ctx.real('be', 70, 85), ctx.real('ga', 60, 80)])


def sgroup(ctx, na):
    ctx.tokens_on(signed=True)
    io, crys = ctx.mods('io', 'crys')
    c = cc(ctx)
    x = ctx.reals('x', (na, 3), -1, 1)
    st = crys.Structure(cryst_const=c, coords_frac=x, symbols=SY[:na])
    fn = os.path.join(ctx.scratch(), 'a.sg')
    io.write_wien_sgroup(fn, st, lat_symbol='F')
    with open(fn) as fd:
        ln = [y.split('/')[0].strip() for y in fd.read().split('\n')]
    ln = [y for y in ln if y]
    ctx.check(ln[0] == 'F', 'lattice')
    ctx.eq(nums(ctx, ln[1]), c, 'cell')
    ctx.check(ln[2] == str(na), 'natoms')
    ctx.check(len(ln) == 3 + 2 * na, 'lines')
    for i in range(na):
        ctx.eq(nums(ctx, ln[3 + 2 * i]), x[i], 'coords')
        ctx.check(ln[4 + 2 * i] == SY[i], 'symbol')


def lammps(ctx, ortho=False, ang=None):
    ctx.tokens_on(signed=True)
    io, crys, ad = ctx.mods('io', 'crys', 'atomic_data')
    sy = ['N', 'Al', 'N']
    # away from zero, below which numbers are written as 0
    x = ctx.arr([[ctx.real('x%i' % i, 0.6, 1), ctx.real('y%i' % i, 0.01, 0.2),
                  ctx.real('z%i' % i, 0.01, 0.2)] for i in range(3)])
    if ortho:
        # rotated: b along -x, a along y
        h = ctx.reals('h', 3, 3, 6)
        cell = ctx.arr([[0, h[0], 0], [-h[1], 0, 0], [0, 0, h[2]]])
        st = crys.Structure(cell=cell, coords_frac=x, symbols=sy)
        ref = ctx.arr([[h[0], 0, 0], [0, h[1], 0], [0, 0, h[2]]])
    else:
        c = ctx.arr([ctx.real('a', 3, 6), ctx.real('b', 3, 6),
                     ctx.real('c', 3, 6)] + ang)
        st = crys.Structure(cryst_const=c, coords_frac=x, symbols=sy)
        ref = crys.cc2cell(c)
    d = ctx.scratch()
    fn = os.path.join(d, 'lmp.struct')
    io.write_lammps(fn, st)
    with open(os.path.join(d, 'lmp.struct.symbols')) as fd:
        ctx.check(fd.read().split() == sy, 'symbols file')
    with open(fn) as fd:
        ln = fd.read().split('\n')[1:]
    ln = [y for y in ln if y.strip()]
    ctx.check(ln[0].split() == ['3', 'atoms'], 'atoms')
    ctx.check(ln[1].split() == ['2', 'atom', 'types'], 'types')
    for i, n in enumerate('xyz'):
        w = ln[2 + i].split()
        ctx.check(w[2:] == [n + 'lo', n + 'hi'], 'bounds')
        v = nums(ctx, ' '.join(w[:2]))
        ctx.eq(v, [0, ref[i, i]], 'cell ' + n, atol=1e-9)
    w = ln[5].split()
    ctx.check(w[3:] == ['xy', 'xz', 'yz'], 'tilts')
    ctx.eq(nums(ctx, ' '.join(w[:3])), [ref[1, 0], ref[2, 0], ref[2, 1]],
           'tilts', atol=1e-9)
    ctx.check(ln[6].strip() == 'Atoms', 'Atoms')
    xc = ctx.np.dot(x, ref)
    for i in range(3):
        w = ln[7 + i].split()
        ctx.check(w[:2] == [str(i + 1), str({'Al': 1, 'N': 2}[sy[i]])],
                  'id, type')
        ctx.eq(nums(ctx, ' '.join(w[2:])), xc[i], 'coords', atol=1e-9)
    ctx.check(ln[10].strip() == 'Masses' and len(ln) == 13, 'Masses')
    for i, s in enumerate(['Al', 'N']):
        w = ln[11 + i].split()
        ctx.check(w[0] == str(i + 1) and
                  abs(float(w[1]) - ad.pt[s]['mass']) < 1e-3, 'mass')


def quiet(f, *a, **k):
    """PyCifRW prints"""
    import contextlib
    with contextlib.redirect_stdout(_io.StringIO()):
        return f(*a, **k)


def cif(ctx, na):
    ctx.tokens_on(signed=False)
    io, crys, ps = ctx.mods('io', 'crys', 'parse')
    c = cc(ctx)
    x = ctx.reals('x', (na, 3), -1, 1)
    st = crys.Structure(cryst_const=c, coords_frac=x, symbols=SY[:na])
    fn = os.path.join(ctx.scratch(), 'a.cif')
    quiet(io.write_cif, fn, st)
    for s in (quiet(io.read_cif, fn),
              quiet(ps.CifFile(fn, block='pwtools').get_struct)):
        ctx.eq(s.cryst_const, c, 'cell')
        ctx.eq(s.coords_frac, x, 'coords')
        ctx.check(list(s.symbols) == SY[:na], 'symbols')
        ctx.eq(s.cell, crys.cc2cell(c), 'cell vectors')


CIF = """data_one
_cell_length_a   {a}({u})
_cell_length_b   {b}
_cell_length_c   {c}(12)
_cell_angle_alpha  90.
_cell_angle_beta   90.5(12)
_cell_angle_gamma  {g}(1)
_symmetry_space_group_name_H-M     'P 1'
loop_
_atom_site_label
{ty}_atom_site_{fr}_x
_atom_site_{fr}_y
_atom_site_{fr}_z
Al1 {t1} {x[0]:.15f}(3) {x[1]:.15f} {x[2]:.15f}
Si {t2} {x[3]:.15f} {x[4]:.15f}(10) {x[5]:.15f}
O22 {t3} {x[6]:.15f} {x[7]:.15f} {x[8]:.15f}(1)
C {t4} -.25(13) 0.(1) 1.5E-1(2)

data_two
_cell_length_a   {b}
_cell_length_b   {b}
_cell_length_c   {b}
_cell_angle_alpha  90.
_cell_angle_beta   90
_cell_angle_gamma  90
loop_
_atom_site_label
_atom_site_fract_x
_atom_site_fract_y
_atom_site_fract_z
H {x[3]:.15f} {x[4]:.15f} {x[5]:.15f}
"""


def cifread(ctx, types, cart):
    ctx.tokens_on(signed=True)
    io, ps = ctx.mods('io', 'parse')
    a, b, c = [ctx.real(n, 3, 6) for n in 'abc']
    g = ctx.real('g', 60, 80)
    x = ctx.reals('x', 9, -1, 1)
    s = CIF.format(a='%.15f' % a, b='%.15f' % b, c='%.15f' % c, g='%.15f' % g,
                   u=5, x=x, ty='_atom_site_type_symbol\n' if types else '',
                   t1='N3-' if types else '', t2='Si4+' if types else '',
                   t3='O2-' if types else '',
                   t4='Cl1-' if types else '',
                   fr='Cartn' if cart else 'fract')
    fn = os.path.join(ctx.scratch(), 'b.cif')
    with open(fn, 'w') as fd:
        fd.write(s)
    sy = ['N', 'Si', 'O', 'Cl'] if types else ['Al', 'Si', 'O', 'C']
    for p in (ps.CifFile(fn), ps.CifFile(fn, block='one')):
        quiet(p.parse)
        ctx.eq(p.cryst_const, [a, b, c, 90, 90.5, g], 'cell')
        got, other = ((p.coords, p.coords_frac) if cart else
                      (p.coords_frac, p.coords))
        ctx.eq(got[:3], x.reshape(3, 3), 'coords')
        ctx.eq(got[3:], [[-.25, 0, .15]], 'coords')
        ctx.check(other is None, 'the other coords')
        ctx.check(list(p.symbols) == sy, 'symbols')
    st = quiet(io.read_cif, fn, block='two')
    ctx.eq(st.cell, b * ctx.np.eye(3), 'second block', atol=1e-9)
    ctx.eq(st.coords_frac, [x[3:6]], 'second block')
    ctx.check(list(st.symbols) == ['H'], 'second block')


PDB = """TITLE     some_random_atoms
REMARK    THIS IS A SIMULATION BOX 1 2 3
{cryst}MODEL        1
HETATM    1  C           1    {x[0]:.15f} {x[1]:.15f}   {x[2]:.15f}  1.00  0.00
ATOM      2  O           1    {x[3]:.15f} {x[4]:.15f}   {x[5]:.15f}  1.00  0.00
ATOM      8  NA          1    {x[6]:.15f} {x[7]:.15f}   {x[8]:.15f}  1.00  0.00
HETATM   10  H   HOH    20    {x[9]:.15f} {x[10]:.15f}   {x[11]:.15f}  1.00  0.00
TER
ENDMDL
"""


def pdb(ctx, cryst):
    ctx.tokens_on(signed=True)
    io, ps, crys = ctx.mods('io', 'parse', 'crys')
    x = ctx.reals('x', 12, -9, 9)
    c = [ctx.real(n, 3, 6) for n in 'abc'] + [ctx.real(n, 70, 80)
                                              for n in 'uvw']
    s = 'CRYST1  ' + ' '.join('%.15f' % v for v in c) + ' P 1           1\n'
    fn = os.path.join(ctx.scratch(), 'b.pdb')
    with open(fn, 'w') as fd:
        fd.write(PDB.format(cryst=s if cryst else '', x=x))
    p = ps.PDBFile(fn)
    p.parse()
    ctx.eq(p.coords, x.reshape(4, 3), 'coords')
    ctx.check(p.symbols == ['C', 'O', 'Na', 'H'], 'symbols')
    st = io.read_pdb(fn)
    ctx.eq(st.coords, x.reshape(4, 3), 'coords')
    if cryst:
        ctx.eq(p.cryst_const, c, 'cell')
        ctx.eq(st.cell, crys.cc2cell(ctx.arr(c)), 'cell vectors')
    else:
        ctx.check(p.cryst_const is None and st.cell is None, 'no cell')


class H5:
    """HDF5 with numbers as text tokens (symbolic mode)"""
    def __init__(self, ctx):
        import h5py
        self.h = h5py
        self.ctx = ctx
        h5 = self

        class Dataset:
            def __init__(self, d):
                self.d = d

            def __getitem__(self, k):
                v = self.d[k]
                if isinstance(v, bytes):
                    return v
                return h5.ctx.np.array(v) if getattr(v, 'ndim', 0) else \
                    h5.ctx.arr([v])[0] if False else h5.ctx.parse(repr(
                        float(v)))

            def asstr(self):
                return self.d.asstr()

        class File:
            def __init__(self, *a, **k):
                self.f = h5.h.File(*a, **k)

            def __setitem__(self, k, v):
                from symx import shim
                if shim.has_sym(v):
                    v = shim.tagged_float(v) if hasattr(v, 'shape') and \
                        v.shape else float(v)
                self.f[k] = v

            def visititems(self, f):
                return self.f.visititems(
                    lambda n, o: f(n, Dataset(o) if isinstance(
                        o, h5.h.Dataset) else o))

            def close(self):
                self.f.close()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __getattr__(self, n):
                return getattr(self.f, n)
        self.Dataset = Dataset
        self.File = File
        self.Group = h5py.Group


def h5(ctx):
    ctx.tokens_on(signed=True)
    io = ctx.mod('io')
    if ctx.symbolic:
        io.h5py = H5(ctx)
    a = ctx.reals('a', (2, 3))
    b = ctx.reals('b', 2)
    s = ctx.real('s')
    fn = os.path.join(ctx.scratch(), 'a.h5')

    def same(d, keys, label):
        ctx.check(sorted(d) == sorted(keys), label + ': keys')
        for k, v in (('/a', a), ('/g/b', b), ('/g/h/s', s), ('/n', b * 2)):
            if k in keys:
                ctx.check(ctx.np.shape(d[k]) == ctx.np.shape(v),
                          label + ': shape ' + k)
                ctx.eq(d[k], v, label + ': ' + k)
        if '/t' in keys:
            ctx.check(d['/t'] == 'text', label + ': text')
    io.write_h5(fn, {'a': a, '/g/b': b, 'g/h/s': s})
    same(io.read_h5(fn), ['/a', '/g/b', '/g/h/s'], 'write')
    io.write_h5(fn, {'/t': 'text', 'n': b * 2})
    every = ['/a', '/g/b', '/g/h/s', '/t', '/n']
    same(io.read_h5(fn), every, 'append')
    ctx.raises(Exception, lambda: io.write_h5(fn, {'a': b}), 'overwrite')
    same(io.read_h5(fn), every, 'after refusing')
    d = io.read_h5(fn)
    io.write_h5(fn, d, mode='w')
    same(io.read_h5(fn), every, 'copy')
    io.write_h5(fn, {'n': b * 2}, mode='w')
    same(io.load_h5(fn), ['/n'], 'mode w')


def pickled(ctx, struct):
    ctx.tokens_on(signed=True)
    io, crys = ctx.mods('io', 'crys')
    tr = traj(ctx, 2, 2, True)
    obj = tr[0] if struct else tr
    obj.foo = None
    fn = os.path.join(ctx.scratch(), 'sub', 'dir', 'a.pk')
    obj.dump(fn)
    for x in (io.read_pickle(fn), crys.Structure() if struct else
              crys.Trajectory()):
        if x.coords is None:
            x.load(fn)
        ctx.check(type(x).__name__ == type(obj).__name__, 'type')
        for n in ('cell', 'coords', 'coords_frac', 'forces', 'cryst_const',
                  'volume'):
            ctx.eq(getattr(x, n), getattr(obj, n), n)
        ctx.check(list(x.symbols) == list(obj.symbols), 'symbols')
        ctx.check(sorted(x.__dict__) == sorted(obj.__dict__), 'attributes')
    ctx.raises(Exception, lambda: obj.dump(os.path.join(
        ctx.scratch(), 'no', 'dir', 'a.pk'), mkdir=False), 'no directory')


def factory(ctx):
    ctx.tokens_on()
    io, ps, crys = ctx.mods('io', 'parse', 'crys')
    x = ctx.reals('x', 12, 1, 9)
    fn = os.path.join(ctx.scratch(), 'b.pdb')
    with open(fn, 'w') as fd:
        fd.write(PDB.format(cryst='', x=x))
    k = ctx.real('k', 2, 3)
    st = io.read_pdb(fn, units={'length': k})
    ctx.eq(st.coords, x.reshape(4, 3) * k, 'units')
    st = io.read_pdb(fn)
    ctx.eq(st.coords, x.reshape(4, 3), 'units of the last call are gone')
    ctx.raises(Exception, lambda: io.ReadFactory(
        parser=ps.PDBFile, struct_or_traj='foo')(fn), 'kind')
    ctx.raises(Exception, lambda: io.ReadFactory(
        parser=ps.PDBFile, struct_or_traj='traj')(fn), 'no trajectory')


def cases(tier):
    T = tier == 'thorough'
    r = []
    sh = [(1,), (3,), (1, 1), (1, 3), (3, 1), (2, 3), (2, 2, 2), (2, 3, 1),
          (1, 2, 3), (2, 1, 2), (1, 1, 1), (3, 2, 3)]
    if T:
        sh += [(4, 3, 5), (5, 1, 1), (1, 5, 1), (1, 1, 5), (6,)]
    for s in sh:
        r.append(Case('text array %s' % (s,), txt, dict(shape=s)))
    for nt, na, st in [(1, 3, True), (1, 1, False), (3, 2, False),
                       (1, 11, True), (11, 1, False)]:
        r.append(Case('xyz %i %i %s' % (nt, na, st), xyz,
                      dict(nt=nt, na=na, struct=st)))
    for nt, na, f, st in [(1, 2, True, True), (1, 1, False, True),
                          (3, 2, True, False), (2, 3, False, False),
                          (1, 11, True, True), (11, 1, True, False)]:
        r.append(Case('axsf %i %i %s %s' % (nt, na, f, st), axsf,
                      dict(nt=nt, na=na, forces=f, struct=st)))
    r.append(Case('sgroup', sgroup, dict(na=3)))
    for ang in ([60, 60, 60], [90, 90, 120], [60, 90, 60], [90, 60, 90]):
        r.append(Case('lammps %s' % ang, lammps, dict(ang=ang)))
    r.append(Case('lammps ortho', lammps, dict(ortho=True)))
    r.append(Case('cif', cif, dict(na=3)))
    r.append(Case('cif many atoms', cif, dict(na=11)))
    r.append(Case('cif one atom', cif, dict(na=1)))
    for ty in (True, False):
        for ca in (True, False):
            r.append(Case('read cif %s %s' % (ty, ca), cifread,
                          dict(types=ty, cart=ca)))
    r.append(Case('pdb', pdb, dict(cryst=True)))
    r.append(Case('pdb no cell', pdb, dict(cryst=False)))
    r.append(Case('hdf5', h5, {}))
    r.append(Case('pickle struct', pickled, dict(struct=True)))
    r.append(Case('pickle traj', pickled, dict(struct=False)))
    r.append(Case('factory', factory, {}))
    return r
