"""PWscf input text, phonon files, Bravais lattices, k-paths"""
import os

from symx.run import Case

META = {
    'title': 'PWscf input text, phonon files, Bravais lattices and k-paths '
    'are exact',
    'statement': 'The text made for pw.x and ph.x inputs names the right '
    'atom in front of its coordinates, mass and pseudopotential and contains '
    'the given mesh followed by the given shift, for lists, tuples and '
    'arrays alike. Readers of phonon output (matdyn.x modes and frequencies, '
    'dyn files, dynmat.x) return for every q-point, mode, atom and '
    'direction the number in that place of the file, complex where the file '
    'has two columns, None for columns that are not there. ibrav2cell '
    'returns primitive vectors of the documented lattice: they have the '
    'documented lengths, angles and volume, and integer combinations of '
    'them give the conventional cell. k-paths visit their special points in '
    'order, N steps each on a straight line, and path norms are cumulated '
    'distances.',
    'forall': 'all numbers in the files, all lattice parameters, all '
    'special points',
    'why': 'index order of 4d arrays and 14 lattice formulas; tests check '
    'a few entries of one file and shapes',
    'files': ['src/pwtools/pwscf.py', 'src/pwtools/kpath.py',
              'src/pwtools/num.py', 'src/pwtools/parse.py',
              'src/pwtools/common.py'],
    'mech': ['input text @ pwscf.py:atpos_str, atpos_str_fast, atspec_str, '
             'kpoints_str, kpoints_str_pwin, kpoints_str_pwin_full',
             'phonons @ pwscf.py:read_matdyn_modes, read_dyn, read_all_dyn, '
             'read_dynmat, read_dynmat_ir_raman, read_matdyn_freq',
             'lattices @ pwscf.py:ibrav2cell',
             'k-paths @ kpath.py:kpath, get_path_norm, SpecialPointsPath'],
}
BOUNDS = {'quick': '1-3 atoms, 1-3 q-points, 1-4 special points with 1-4 '
          'steps between them, all values (formatting and parsing a number '
          'is taken to be exact)'
          '; larger single cases, 5 to 13 items long'}
OUTSIDE = ('files which end early, numbers glued together by full columns, '
           'plot_dis')

SY = ['Al', 'N', 'H'] * 5
F = '%.16e'


def put(d, name, text):
    fn = os.path.join(d, name)
    with open(fn, 'w') as fd:
        fd.write(text)
    return fn


def row(v, sep='   '):
    return sep.join(F % x for x in v)


# -- input text ------------------------------------------------------------------
def fields(ctx, txt, nc):
    """[first word, numbers] of every line"""
    r = []
    for l in txt.splitlines():
        w = l.split()
        r.append((w[0], [ctx.parse(x) for x in w[1:nc + 1]], w[nc + 1:]))
    return r


def atpos(ctx, na, nc, delim=None):
    ctx.tokens_on(signed=True)
    pw = ctx.mod('pwscf')
    x = ctx.arr([[ctx.real('x%i%i' % (i, j), 0.1, 5) * (-1) ** (i + j)
                  for j in range(nc)] for i in range(na)])
    sy = SY[:na]
    k = {} if delim is None else dict(delim=delim)
    for n, t in (('atpos_str', pw.atpos_str(sy, x, **k)),
                 ('list', pw.atpos_str(sy, [list(v) for v in x], **k)),
                 ('format', pw.atpos_str(sy, x, fmt='%25.17e', **k)),
                 ('atpos_str_fast', pw.atpos_str_fast(sy, x))):
        f = fields(ctx, t, nc)
        ctx.check(len(f) == na and [v[0] for v in f] == sy, n + ': symbols')
        ctx.check(all(len(v[1]) == nc and not v[2] for v in f),
                  n + ': columns')
        ctx.eq(ctx.arr([v[1] for v in f]), x, n + ': coordinates')
        if delim is not None and n != 'atpos_str_fast':
            ctx.check(all(l.count(delim) == nc for l in t.splitlines()),
                      n + ': delimiter')
    w = [-1.2345678901234567e-05, 0.12345678901234566, -12345.678901234567]
    t = pw.atpos_str_fast(['Uue'], ctx.np.array([w])).split()
    ctx.check(t[0] == 'Uue' and [float(v) for v in t[1:]] == w,
              'all digits')
    t = pw.atpos_str(['Uue'], ctx.np.array([w]), fmt='%.3f').split()
    ctx.check(t[1:] == ['0.000' if k == 0 else '%.3f' % v
                        for k, v in enumerate(w)] or
              t[1:] == ['%.3f' % v for v in w], 'number format')
    ctx.raises(AssertionError, lambda: pw.atpos_str(sy[:-1], x),
               'symbols do not match')


def atspec(ctx, n):
    pw = ctx.mod('pwscf')
    ms = [26.98, 14.0, 1][:n]
    pp = ['al.UPF', 'n.UPF', 'h.UPF'][:n]
    t = pw.atspec_str(SY[:n], ms, pp)
    ctx.check([l.split() for l in t.splitlines()] ==
              [[a, str(b), c] for a, b, c in zip(SY, ms, pp)], 'species')
    ctx.raises(AssertionError, lambda: pw.atspec_str(SY[:n], ms, pp[:-1]),
               'lengths')


def kstr(ctx):
    pw = ctx.mod('pwscf')
    k0 = ctx.idx('k', 1, 3)
    s0 = ctx.idx('s', 0, 1)
    k = [k0, 1 if k0 == 1 else 7, ctx.choice('k2', [1, 12])]
    s = [s0, 0, 1]
    np = ctx.np
    mk = ctx.choice('type', [list, tuple, np.array])
    ms = ctx.choice('shift', [list, tuple, np.array])
    w = ' '.join(str(v) for v in k + s)
    ctx.check(pw.kpoints_str_pwin(mk(k), mk(s)) == w, 'mesh and shift')
    ctx.check(pw.kpoints_str_pwin(mk(k), shift=ms(s)) == w,
              'mesh and shift, mixed')
    ctx.check(pw.kpoints_str_pwin(mk(k)) == ' '.join(
        str(v) for v in k) + ' 0 0 0', 'no shift')
    ctx.check(pw.kpointstr_pwin(mk(k), ms(s)) == w, 'alias')
    g = k == [1, 1, 1]
    full = 'K_POINTS automatic\n' + w
    ctx.check(pw.kpoints_str_pwin_full(mk(k), shift=ms(s)) ==
              ('K_POINTS gamma' if g else full), 'full')
    ctx.check(pw.kpoints_str_pwin_full(mk(k), shift=ms(s), gamma=False) ==
              full, 'full, no gamma')
    for kw in ({}, {'gamma': False}):
        ctx.check(pw.kpoints_str_pwin_full('gamma', **kw) ==
                  'K_POINTS gamma', 'gamma')
    ctx.check(pw.kpoints_str(mk(k)) == 'nk1=%i,nk2=%i,nk3=%i' % tuple(k),
              'nk')
    ctx.check(pw.kpoints_str(mk(k), base='nq') ==
              'nq1=%i,nq2=%i,nq3=%i' % tuple(k), 'nq')
    ctx.check(pw.bool2str(True) == '.true.' and
              pw.bool2str(False) == '.false.', 'bool')


# -- phonon files ------------------------------------------------------------------
STARS = ' ' + 74 * '*' + '\n'


def modes(f, v):
    """frequencies (THz, cm-1) and vectors of one q-point"""
    s = STARS
    for m in range(len(v)):
        s += '     omega(%2i) =  %s [THz] =  %s [cm-1]\n' % (
            m + 1, F % f[m, 0], F % f[m, 1])
        for a in v[m]:
            s += ' ( %s   )\n' % '    '.join(F % x for x in a)
    return s + STARS


def data(ctx, nq, na):
    nm = 3 * na
    q = ctx.reals('q', (nq, 3), -2, 2)
    f = ctx.reals('f', (nq, nm, 2), -9, 9)
    v = ctx.reals('v', (nq, nm, na, 6), -1, 1)
    return q, f, v


def checkq(ctx, r, q, f, v, what):
    qq, ff, vv = r
    ctx.check(tuple(qq.shape) == tuple(q.shape), what + ': q shape')
    ctx.check(tuple(ff.shape) == tuple(f.shape[:-1]), what + ': f shape')
    ctx.check(tuple(vv.shape) == tuple(v.shape[:-1]) + (3,),
              what + ': v shape')
    ctx.eq(qq, q, what + ': q-points')
    ctx.eq(ff, f[..., 1], what + ': frequencies')
    ctx.eq(vv.real, v[..., ::2], what + ': vectors, real part')
    ctx.eq(vv.imag, v[..., 1::2], what + ': vectors, imaginary part')


def matdyn(ctx, nq, na):
    ctx.tokens_on(signed=True)
    pw = ctx.mod('pwscf')
    q, f, v = data(ctx, nq, na)
    d = ctx.scratch()
    fn = put(d, 'matdyn.modes', ''.join(
        '     diagonalizing the dynamical matrix ...\n\n q =  %s\n' % row(
            q[i]) + modes(f[i], v[i]) for i in range(nq)))
    checkq(ctx, pw.read_matdyn_modes(fn, natoms=na), q, f, v, 'matdyn.modes')
    ctx.raises(AssertionError, lambda: pw.read_matdyn_modes(fn), 'no natoms')


def dyn(ctx, nq, na, base='ph.dyn'):
    ctx.tokens_on(signed=True)
    pw = ctx.mod('pwscf')
    q, f, v = data(ctx, nq, na)
    d = ctx.scratch()
    o = ctx.reals('o', 3, -2, 2)
    for i in range(nq):
        s = 'Dynamical matrix file\n\n  1  1  4  5.7  0.0\n'
        for w in (o, q[i]):
            s += ('\n     Dynamical  Matrix in cartesian axes\n\n'
                  '     q = (  %s )\n\n    1    1\n'
                  '  0.54  0.0  0.0  0.0\n' % row(w))
        s += ('     Diagonalizing the dynamical matrix\n\n'
              '     q = (  %s )\n\n' % row(q[i])) + modes(f[i], v[i])
        fn = put(d, '%s%i' % (base, i + 1), s)
        checkq(ctx, pw.read_dyn(fn, natoms=na), q[i], f[i], v[i], 'dyn')
    k = {} if base == 'ph.dyn' else dict(base=base)
    checkq(ctx, pw.read_all_dyn(d, nqpoints=nq, natoms=na, **k), q, f, v,
           'all dyn')


def dynmat(ctx, na, ncol):
    ctx.tokens_on(signed=True)
    pw = ctx.mod('pwscf')
    nm = 3 * na
    d = ctx.scratch()
    x = ctx.reals('x', (na, 3), -9, 9)
    v = ctx.reals('v', (nm, na, 3), -1, 1)
    c = ctx.reals('c', (nm, ncol), 0, 99)
    s = 'ANIMSTEPS  %i\nCRYSTAL\nPRIMVEC\n' % nm
    s += '  3.0  0.0  0.0\n  0.0  3.0  0.0\n  0.0  0.0  3.0\n'
    for m in range(nm):
        s += 'PRIMCOORD  %i\n      %i   1\n' % (m + 1, na)
        for a in range(na):
            s += '   %-2s   %s  %s\n' % (SY[a], row(x[a]), row(v[m, a]))
    put(d, 'dynmat.axsf', s)
    put(d, 'other.axsf', s)
    t = ['cm-1]    [THz]', '  IR', ' Raman', 'depol.fact']
    s = '     Program DYNMAT v.5.0.2\n\n     Reading Dynamical Matrix\n\n'
    s += '# mode   [' + ''.join(t[:ncol - 1]) + '\n'
    for m in range(nm):
        s += '%5i   %s\n' % (m + 1, row(c[m]))
    s += '\n     DYNMAT       :     0.00s CPU\n'
    fn = put(d, 'dynmat.out', s)
    put(d, 'other.out', s)
    for k in ({}, dict(filename='other.out', axsf='other.axsf')):
        q, ff, vv = pw.read_dynmat(d, natoms=na, **k)
        ctx.check(tuple(vv.shape) == (nm, na, 3), 'shape')
        ctx.eq(q, ctx.np.zeros(3), 'Gamma')
        ctx.eq(ff, c[:, 0], 'frequencies')
        ctx.eq(vv, v, 'vectors')
    r = pw.read_dynmat_ir_raman(fn, natoms=na)
    ctx.check(sorted(r) == ['depol', 'freqs', 'ir', 'raman'], 'keys')
    for n, i in (('freqs', 0), ('ir', 2), ('raman', 3), ('depol', 4)):
        if i < ncol:
            ctx.eq(r[n], c[:, i], n)
        else:
            ctx.check(r[n] is None, n + ': None')
    a = pw.read_dynmat_ir_raman(fn, natoms=na, cols=None)
    ctx.check(tuple(a.shape) == (nm, ncol + 1), 'array')
    ctx.eq(a[:, 1:], c, 'array')
    r = pw.read_dynmat_ir_raman(fn, natoms=na, cols={2: 'thz', 9: 'no'})
    ctx.eq(r['thz'], c[:, 1], 'own columns')
    ctx.check(r['no'] is None and len(r) == 2, 'own columns: None')


def freq(ctx, nk, nb, width):
    """frequencies over several lines"""
    ctx.tokens_on(signed=True)
    pw, kp = ctx.mods('pwscf', 'kpath')
    k = ctx.reals('k', (nk, 3), -2, 2)
    f = ctx.reals('f', (nk, nb), -9, 9)
    s = ' &plot nbnd=%4i, nks=%4i /\n' % (nb, nk)
    for i in range(nk):
        s += '           %s\n' % row(k[i])
        for j in range(0, nb, width):
            s += ' %s\n' % row(f[i, j:j + width])
    fn = put(ctx.scratch(), 'matdyn.freq', s)
    a, b = pw.read_matdyn_freq(fn)
    ctx.check(tuple(a.shape) == (nk, 3) and tuple(b.shape) == (nk, nb),
              'shape')
    ctx.eq(a, k, 'k-points')
    ctx.eq(b, f, 'frequencies')


# -- ibrav -----------------------------------------------------------------------
# lattice: (volume / volume of the box a, b, c), conventional vectors as
# integer combinations
CONV = {
    1: (1, None), 2: ((1, 4), [[-1, 1, -1], [-1, 1, 1], [1, 1, -1]]),
    3: ((1, 2), [[1, -1, 0], [0, 1, -1], [1, 0, 1]]),
    6: (1, None), 7: ((1, 2), [[0, 1, 0], [0, 0, 0], [0, 0, 0]]),
    8: (1, None), 9: ((1, 2), [[1, -1, 0], [1, 1, 0], [0, 0, 1]]),
    10: ((1, 4), [[1, 1, -1], [-1, 1, 1], [1, -1, 1]]),
    11: ((1, 2), [[1, -1, 0], [0, 1, -1], [1, 0, 1]]),
}
CONV[7] = ((1, 2), [[1, 0, -1], [-1, 1, 0], [0, 1, 1]])


def box(ctx, h, a, b, c, frac, comb, label):
    """orthogonal conventional cell"""
    box_ = ctx.arr([[a, 0, 0], [0, b, 0], [0, 0, c]])
    m = h if comb is None else ctx.np.dot(ctx.arr(comb), h)
    ctx.eq(m, box_, label + ': conventional cell')
    n, d = (1, 1) if frac == 1 else frac
    v = ctx.det3(h)
    s = ctx.np.dot(v, v) * d * d
    ctx.eq(s, (a * b * c) ** 2 * n * n, label + ': volume')


def ibrav(ctx, ib):
    pw, cr = ctx.mods('pwscf', 'crys')
    a = ctx.real('a', 2, 9)
    ba = ctx.real('ba', 0.5, 2)
    ca = ctx.real('ca', 0.5, 2)
    np = ctx.np
    b, c = a * ba, a * ca
    if ib in (1, 2, 3):
        h = pw.ibrav2cell(ib, [a, None, None, None, None, None])
        box(ctx, h, a, a, a, *CONV[ib], label='cubic')
        return
    if ib in (6, 7):
        h = pw.ibrav2cell(ib, [a, None, ca, None, None, None])
        box(ctx, h, a, a, c, *CONV[ib], label='tetragonal')
        return
    if ib in (8, 9, 10, 11):
        h = pw.ibrav2cell(ib, (a, ba, ca, None, None, None))
        box(ctx, h, a, b, c, *CONV[ib], label='orthorhombic')
        return
    dot = lambda x, y: sum(x[i] * y[i] for i in range(3))
    if ib == 4:
        h = pw.ibrav2cell(ib, [a, None, ca, None, None, None])
        for i, w in ((0, a), (1, a), (2, c)):
            ctx.eq(dot(h[i], h[i]), w * w, 'lengths')
        ctx.eq(dot(h[0], h[1]), -a * a / 2, '120 degrees')
        ctx.eq(dot(h[0], h[2]), 0, '90 degrees')
        ctx.eq(dot(h[1], h[2]), 0, '90 degrees')
        ctx.eq(h[0], [a, 0, 0], 'a along x')
        ctx.lt(0, ctx.det3(h), 'right-handed')
        return
    if ib == 5:
        al = ctx.real('al', -0.45, 0.95)
        h = pw.ibrav2cell(ib, [a, None, None, al, None, None])
        for i in range(3):
            ctx.eq(dot(h[i], h[i]), a * a, 'lengths')
            ctx.eq(dot(h[i], h[i - 1]), a * a * al, 'angles')
        ctx.eq(h[0] + h[1] + h[2], [0, 0, 3 * h[0, 2]], 'z is the axis')
        ctx.lt(0, h[0, 2], 'up')
        return
    g = ctx.real('g', -0.9, 0.9)
    if ib in (12, 13):
        h = pw.ibrav2cell(ib, [a, ba, ca, None, None, g])
        if ib == 13:
            ctx.eq(h[0] + h[2], [a, 0, 0], 'a')
            ctx.eq(h[2] - h[0], [0, 0, c], 'c')
        else:
            ctx.eq(h[0], [a, 0, 0], 'a')
            ctx.eq(h[2], [0, 0, c], 'c')
        ctx.eq(dot(h[1], h[1]), b * b, 'length of b')
        ctx.eq(h[1, 0], b * g, 'gamma')
        ctx.eq(h[1, 2], 0, 'b in the xy plane')
        ctx.lt(0, h[1, 1], 'b along y')
        return
    al, be = ctx.real('al', -0.3, 0.3), ctx.real('be', -0.3, 0.3)
    g = ctx.real('gg', -0.3, 0.3)
    h = pw.ibrav2cell(14, [a, ba, ca, al, be, g])
    for i, w in ((0, a), (1, b), (2, c)):
        ctx.eq(dot(h[i], h[i]), w * w, 'lengths')
    ctx.eq(dot(h[0], h[1]), a * b * g, 'gamma')
    ctx.eq(dot(h[0], h[2]), a * c * be, 'beta')
    ctx.eq(dot(h[1], h[2]), b * c * al, 'alpha')
    ctx.eq(h[0], [a, 0, 0], 'a along x')
    ctx.eq(h[1, 2], 0, 'b in the xy plane')
    ctx.lt(0, h[1, 1], 'b up')
    ctx.lt(0, h[2, 2], 'c up')


def illegal(ctx):
    pw = ctx.mod('pwscf')
    for i in (0, 15, -5):
        ctx.raises(Exception, lambda: pw.ibrav2cell(i, [1.5, 1, 1, 0, 0, 0]),
                   'illegal ibrav')


# -- k-paths ---------------------------------------------------------------------
def path(ctx, K, N, M=3):
    kp = ctx.mod('kpath')
    v = ctx.reals('v', (K, M), -3, 3)
    p = kp.kpath(v, N) if N != 10 else kp.kpath(v)
    ctx.check(tuple(p.shape) == ((K - 1) * N + 1, M), 'number of points')
    for i in range(K - 1):
        for j in range(N):
            ctx.eq(p[i * N + j], v[i] + (v[i + 1] - v[i]) * j / N,
                   'on the line')
    ctx.eq(p[-1], v[-1], 'end')


def norm(ctx, K):
    kp = ctx.mod('kpath')
    np = ctx.np
    # Pythagorean steps
    st = [[1, 2, 2], [2, 3, 6], [1, 4, 8], [4, 4, 7]]
    ln = [3, 7, 9, 9]
    o = ctx.real('o', 0.1, 2)
    k = [[ctx.num(0)] * 3] if ctx.choice('origin', [True, False]) else [
        [o * x for x in (2, -1, 2)]]
    acc = [k[0][0] / 2 * 3]
    for i in range(K - 1):
        s = ctx.real('s%i' % i, 0, 2)
        sg = [ctx.choice('g%i%i' % (i, j), [1, -1]) if i == 0 else (-1) ** j
              for j in range(3)]
        k.append([x + s * y * g for x, y, g in zip(k[-1], st[i], sg)])
        acc.append(acc[-1] + s * ln[i])
    k = ctx.arr(k)
    ctx.eq(kp.get_path_norm(k), ctx.arr(acc), 'cumulated distances')
    sy = ['A', 'B', 'C', 'D'][:K]
    fr = ctx.reals('fr', (K, 3), 0, 1)
    for p in (kp.SpecialPointsPath(ks=k, symbols=sy),
              kp.SpecialPointsPath(ks=k, ks_frac=fr, symbols=sy)):
        ctx.eq(p.path_norm, ctx.arr(acc), 'special points')
        ctx.eq(p.ks, k, 'special points kept')
        ctx.check(list(p.symbols) == sy, 'symbols')
    ctx.eq(p.ks_frac, fr, 'fractional')
    ctx.check(kp.SpecialPointsPath(ks=k).ks_frac is None, 'optional')


def norm2(ctx, K):
    """any steps: squares of the differences"""
    kp = ctx.mod('kpath')
    k = ctx.reals('k', (K, 3), -2, 2)
    n = kp.get_path_norm(k)
    prev, pk = 0, [0, 0, 0]
    for i in range(K):
        d = n[i] - prev
        ctx.le(0, d, 'never decreases')
        ctx.eq(d * d, sum((k[i, j] - pk[j]) ** 2 for j in range(3)),
               'distance')
        prev, pk = n[i], k[i]


def cases(tier):
    T = tier == 'thorough'
    r = []
    for na, nc in ((1, 3), (2, 3), (3, 3), (2, 6)):
        r.append(Case('atpos %i %i' % (na, nc), atpos, dict(na=na, nc=nc)))
    r.append(Case('atpos delim', atpos, dict(na=2, nc=3, delim=' \t ')))
    for n in (1, 2, 3):
        r.append(Case('atspec %i' % n, atspec, dict(n=n)))
    r.append(Case('kpoints', kstr, {}))
    for nq, na in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (1, 3)):
        r.append(Case('matdyn %i %i' % (nq, na), matdyn, dict(nq=nq, na=na)))
        r.append(Case('dyn %i %i' % (nq, na), dyn, dict(
            nq=nq, na=na, base='ph.dyn' if nq < 3 else 'dd')))
    for na in (1, 2, 3):
        for nc in (2, 3, 4, 5) if T or na == 2 else (5,):
            r.append(Case('dynmat %i %i' % (na, nc), dynmat, dict(
                na=na, ncol=nc)))
    for nk, nb, w in ((1, 3, 6), (2, 3, 6), (3, 6, 6), (2, 9, 6), (2, 6, 4),
                      (3, 1, 1)):
        r.append(Case('freq %i %i %i' % (nk, nb, w), freq, dict(
            nk=nk, nb=nb, width=w)))
    for i in range(1, 15):
        r.append(Case('ibrav %i' % i, ibrav, dict(ib=i)))
    r.append(Case('ibrav illegal', illegal, {}))
    for K, N, M in ((1, 3, 3), (2, 1, 3), (2, 4, 3), (3, 2, 3), (4, 3, 3),
                    (3, 3, 2), (2, 10, 3)):
        r.append(Case('kpath %i %i %i' % (K, N, M), path, dict(
            K=K, N=N, M=M)))
    for K in (1, 2, 3, 4):
        r.append(Case('norm %i' % K, norm, dict(K=K)))
    for K in (1, 2, 3):
        r.append(Case('norm any %i' % K, norm2, dict(K=K)))
    r += [Case('atpos many', atpos, dict(na=12, nc=3)),
            Case('matdyn many', matdyn, dict(nq=2, na=11)),
            Case('matdyn many points', matdyn, dict(nq=11, na=1)),
            Case('dyn many', dyn, dict(nq=2, na=11, base='ph.dyn')),
            Case('dynmat many', dynmat, dict(na=11, ncol=5)),
            Case('freq many', freq, dict(nk=11, nb=33, width=6)),
            Case('kpath many', path, dict(K=11, N=2, M=3))]
    return r
