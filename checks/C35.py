"""Random structures."""
import itertools
from symx.run import Case

META = {
    'title': 'Random structures respect every limit they were asked for',
    'statement': 'A random cell has side lengths, angles and a volume within '
    'the requested ranges (relative to the mean volume, vol_scale times that '
    'of the covalent spheres, and its third root); it is accepted at the '
    'first try which has them, and after cell_maxtry tries without success '
    '(also if there is no cell with the drawn angles) RandomStructureFail is '
    'raised. In a random structure, atoms are in the order asked for, inside '
    'the cell, and the distance of any two of them, to any periodic image, '
    'is at least the sum of their covalent radii times close_scale; an atom '
    'is accepted at the first try for which this holds, and '
    'RandomStructureFail is raised after atom_maxtry tries. With fail=False '
    'a new structure is tried until one succeeds; counters tell the number '
    'of tries of the last one.',
    'forall': 'all random numbers drawn; scales and ranges',
    'why': 'whether a structure violates the limits depends on the random '
    'numbers; the test checks only that some structure comes back',
    'files': ['src/pwtools/random.py'],
    'mech': ['cell @ random.py:RandomStructure.get_random_cryst_const',
             'atoms @ random.py:RandomStructure.get_random_struct',
             'shortcut @ random.py:random_struct'],
}
BOUNDS = {'quick': 'cells: cell_maxtry 1..3; structures: 1-3 atoms of 1-2 '
          'kinds in orthogonal and oblique cells with given lengths; one to '
          'three free random coordinates per atom, atom_maxtry 1..2; up to '
          '3 structures with fail=False'}
OUTSIDE = 'distance of an atom to its own images; more atoms; termination ' \
    'of fail=False if no structure is possible'


class Stop(Exception):
    pass


def unit_scale(ctx, sy):
    """vol_scale for which the mean volume is 1"""
    pt = ctx.mod('atomic_data').pt
    s = sum(pt[x]['cov_rad'] ** 3 for x in sy)
    return 3 / (4 * ctx.PI * s)


def limits(ctx, k, n):
    """Accepted iff the volume is in range."""
    R = ctx.mod('random')
    ctx.rand_fix = lambda i: 0.25 + 0.5 * (i % 2)
    sy = [['Si'], ['Si', 'C', 'O']][k]
    s = ctx.real('s', 0.5, 2)
    lo = ctx.real('lo', 0.3, 1)
    hi = ctx.real('hi', 1, 3)
    V = [1, 8][k]
    ang = [[90, 90], [60, 60]][n % 2]
    # volume of the unit cell with these angles
    u = [1, ctx.m.sqrt(ctx.num(1) / 2)][n % 2]
    vol = s ** 3 * u
    # not at the limits
    eps = ctx.num(1e-3)
    a, b = ctx.choice('lower', [0, 1]), ctx.choice('upper', [0, 1])
    ctx.assume(vol - lo > eps if a else lo - vol > eps)
    ctx.assume(hi - vol > eps if b else vol - hi > eps)
    inside = bool(a and b)
    rs = R.RandomStructure(sy, vol_scale=V * unit_scale(ctx, sy),
                           angle_range=ang, vol_range_scale=[lo, hi],
                           length_range_scale=[s, s], cell_maxtry=n)
    try:
        cc = rs.get_random_cryst_const()
    except R.RandomStructureFail:
        ctx.check(not inside, 'good cell refused')
        ctx.check(ctx._rand >= 6 * n, 'number of tries')
        return
    ctx.check(inside, 'volume out of range')
    L = [1, 2][k]
    ctx.eq(cc, ctx.arr([s * L] * 3 + [ang[0]] * 3), 'cell parameters')
    ctx.check(rs.counters['cryst_const'] == 1, 'first try')


def cryst(ctx, n):
    """All random cells."""
    R = ctx.mod('random')
    sy = ['Si', 'N']
    free = ctx.idx('free', 0, 2)
    ctx.rand_fix = lambda i: None if (
        i % 6 == free or i % 6 == 3 + free) else 0.3
    l0, l1 = 0.7, ctx.real('l1', 1.1, 1.5)
    a0, a1 = ctx.real('a0', 70, 80), 100
    v0, v1 = ctx.real('v0', 0.6, 0.8), ctx.real('v1', 0.9, 1.2)
    rs = R.RandomStructure(sy, vol_scale=unit_scale(ctx, sy),
                           angle_range=[a0, a1], vol_range_scale=[v0, v1],
                           length_range_scale=[l0, l1], cell_maxtry=n)
    try:
        cc = rs.get_random_cryst_const()
    except R.RandomStructureFail as e:
        ctx.check(ctx._rand >= 6 * n, 'number of tries')
        ctx.check(len(str(e)) > 0, 'message')
        return
    ctx.check(len(cc) == 6, 'shape')
    c = [ctx.m.cos(x * ctx.PI / 180) for x in cc[3:]]
    w = 1 + 2 * c[0] * c[1] * c[2] - c[0] ** 2 - c[1] ** 2 - c[2] ** 2
    vol = cc[0] * cc[1] * cc[2] * ctx.m.sqrt(w)
    ctx.le(v0, vol, 'volume')
    ctx.le(vol, v1, 'volume')
    for i in range(3):
        ctx.le(l0, cc[i], 'length')
        ctx.le(cc[i], l1, 'length')
        ctx.le(a0, cc[3 + i], 'angle')
        ctx.le(cc[3 + i], a1, 'angle')
    ctx.check(1 <= rs.counters['cryst_const'] <= n, 'counter')


def no_cell(ctx, ang, maxtry):
    """The angles drawn first belong to no cell."""
    R = ctx.mod('random')
    ctx.strict_domain = True
    sy = ['Si', 'O']
    s = ctx.real('s', 0.5, 2)
    # angles from 30 to 150: all 90 after the first try
    ctx.rand_fix = lambda i: (ang[i - 3] - 30) / 120 if 3 <= i < 6 else 0.5
    rs = R.RandomStructure(sy, vol_scale=unit_scale(ctx, sy),
                           angle_range=[30, 150], vol_range_scale=[0, 9],
                           length_range_scale=[s, s], cell_maxtry=maxtry)
    if maxtry == 1:
        ctx.raises(R.RandomStructureFail, rs.get_random_cryst_const,
                   'no such cell')
    else:
        cc = rs.get_random_cryst_const()
        ctx.eq(cc, ctx.arr([s] * 3 + [ctx.num(90)] * 3), 'second try')
        ctx.check(rs.counters['cryst_const'] == 2, 'counter')


def dists(ctx, x, h, i, j, ns=2):
    """squared distances of i to the images of j"""
    for k in itertools.product(range(-ns, ns + 1), repeat=3):
        d = x[i] - x[j] + ctx.arr([ctx.num(v) for v in k])
        v = [sum(d[a] * h[a, b] for a in range(3)) for b in range(3)]
        yield k, sum(c * c for c in v)


def struct(ctx, cell, sy, close, maxtry, free, fail=True, n=1, shortcut=False):
    R = ctx.mod('random')
    pt = ctx.mod('atomic_data').pt
    L, ang, u = cell
    dmin = lambda i, j: (pt[sy[i]]['cov_rad'] + pt[sy[j]]['cov_rad']) * \
        ctx.num(close)
    # draws 0..5: cell
    per = [1 / 8, 5 / 16, 7 / 16, 3 / 4, 9 / 16, 11 / 16]
    nat = 2 * maxtry * 3
    ctx.rand_fix = lambda i: 0.5 if i < 6 else (
        None if i - 6 in free else per[(i * 5 + i // 7) % 6])
    kw = dict(vol_scale=unit_scale(ctx, sy), angle_range=[ang, ang],
              vol_range_scale=[0, 1000], length_range_scale=[L, L],
              close_scale=ctx.num(close), cell_maxtry=1, atom_maxtry=maxtry)
    if not fail:
        ctx.rand_max = n * (6 + 3 + 6 * maxtry * (len(sy) - 1))
        ctx.rand_exc = Stop()
    try:
        if shortcut:
            st = R.random_struct(sy, **kw)
        else:
            rs = R.RandomStructure(sy, **kw)
            st = rs.get_random_struct(**({} if fail else {'fail': False}))
    except Stop:
        ctx.check(not fail, 'only the limit of this harness')
        return
    except R.RandomStructureFail:
        ctx.check(fail, 'must not fail')
        ctx.check(ctx._rand >= 6 + 3 + 3 * maxtry, 'number of tries')
        if maxtry == 1 and len(sy) == 2:
            # was there a reason?
            v = ctx.rand_log[6:]
            d = [ctx.num(v[3 + i]) - v[i] for i in range(3)]
            c = {90: 0, 60: 0.5}[ang]
            bad = False
            for k in itertools.product((-1, 0, 1), repeat=3):
                e = [d[i] + k[i] for i in range(3)]
                q = sum(x * x for x in e) + 2 * c * (
                    e[0] * e[1] + e[0] * e[2] + e[1] * e[2])
                bad = bad | (q * ctx.num(L) ** 2 < dmin(0, 1) ** 2)
            ctx.check(bad, 'refused although far apart')
        return
    ctx.check(list(st.symbols) == sy, 'symbols')
    cc = st.cryst_const
    ctx.eq(cc[:3], ctx.arr([ctx.num(L)] * 3), 'lengths')
    x = st.coords_frac
    ctx.check(x.shape == (len(sy), 3), 'shape')
    for v in ctx.np.ravel(x):
        ctx.le(0, v, 'inside')
        ctx.lt(v, 1, 'inside')
    h = st.cell
    g = ctx.np.dot(h, h.T)
    c = {90: 0, 60: 0.5}[ang]
    for i in range(3):
        for j in range(3):
            ctx.eq(g[i, j], ctx.num(L) ** 2 * (1 if i == j else c), 'cell')
    for i in range(len(sy)):
        for j in range(i):
            dm = dmin(i, j)
            for k, d2 in dists(ctx, x, h, i, j):
                ctx.le(dm * dm, d2, 'distance %i %i %s' % (i, j, k))
    if not shortcut:
        cnt = rs.counters['coords']
        ctx.check(len(cnt) == len(sy) and cnt[0] == 1 and
                  all(1 <= c <= maxtry for c in cnt), 'counters')


def cases(tier):
    r = []
    for k in range(2):
        for n in (1, 2, 3):
            r.append(Case('limits %i maxtry %i' % (k, n), limits,
                          dict(k=k, n=n), random=True))
    for n in (1, 2):
        r.append(Case('cells maxtry %i' % n, cryst, dict(n=n), random=True))
    for ang in ((30, 30, 90), (120, 30, 60), (120, 135, 120), (90, 135, 30)):
        for n in (1, 2):
            r.append(Case('no cell %i %i %i maxtry %i' % (ang + (n,)),
                          no_cell, dict(ang=ang, maxtry=n), random=True))
    cub = lambda L: (L, 90, 1)
    rho = lambda L: (L, 60, 1)
    # free: draws (after those of the cell) which vary
    def add(name, **kw):
        r.append(Case(name, struct, kw, random=True))
    two = ['Si', 'C']
    for nm, cell in (('cubic', cub(5)), ('oblique', rho(5)),
                     ('small oblique', rho(3))):
        for f in range(3):
            add('%s pair free %i' % (nm, f), cell=cell, sy=two, close=0.9,
                maxtry=1, free=[3 + f, 3 + (f + 1) % 3])
    for f in (3, 4, 5):
        add('two tries free %i' % f, cell=cub(4), sy=two, close=1.2,
            maxtry=2, free=[f, f + 6, f + 3])
        add('three atoms free %i' % f, cell=rho(5), sy=['O', 'Si', 'O'],
            close=0.8, maxtry=1, free=[f, f + 3])
    add('no fail', cell=cub(4), sy=two, close=1.2, maxtry=1, fail=False,
        n=3, free=[3, 18])
    add('shortcut', cell=rho(4), sy=two, close=1, maxtry=1, free=[0, 4],
        shortcut=True)
    add('one atom', cell=cub(4), sy=['H'], close=1, maxtry=1,
        free=[0, 1, 2])
    return r
