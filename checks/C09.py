"""Radial pair distribution functions."""
from symx.run import Case

META = {
    'title': 'Radial distribution: every pair is counted once, in its shell',
    'statement': 'Per time step each pair (one atom from each selection) '
    'whose (minimum image) distance is below rmax and passes the distance '
    'mask is counted in the shell its distance lies in, except those in the '
    'first shell (identical atoms); the number integral is the '
    'time-averaged cumulated count per atom of the first selection, and g(r) is '
    'the count relative to the ideal-gas count of the shell. Atom masks '
    '(names or bool arrays), time slices and pbc select exactly the '
    'corresponding pairs and steps, the default rmax is the largest '
    'meaningful radius, and the arguments are left unchanged.',
    'forall': 'all positions (any two trajectories of equal cell), atom '
    'masks, time masks, distance masks, pbc on/off',
    'why': 'shell boundaries, first-shell and rmax treatment depend on '
    'exact distances; the tests compare against one stored VMD run',
    'files': ['src/pwtools/crys.py'],
    'mech': ['rpdf @ crys.py:rpdf', 'rmax @ crys.py:rmax_smith',
             'min image @ crys.py:min_image_convention'],
}
BOUNDS = {'quick': 'orthorhombic and oblique concrete cells, 3 atoms (one or '
          'two with one free component over the whole cell and beyond), '
          '1-2 steps, 3-5 shells of fixed width; all mask kinds'
          '; larger single cases, 5 to 13 items long'}
OUTSIDE = 'more atoms/steps/shells; VMD-based reference implementation'


def nearest(v):
    while bool(v >= 0.5):
        v = v - 1
    while bool(v < -0.5):
        v = v + 1
    return v


def smith(ctx, mode):
    """rmax: every vector not longer than it is its own minimum image"""
    crys, np = ctx.mod('crys'), ctx.np
    if mode == 'tri':
        h = ctx.cell(mode='tri')
    else:
        a, b = ctx.real('a', -1.5, 1.5), ctx.real('b', -1.5, 1.5)
        h = ctx.arr([{'xy': [3, a, b], 'yz': [3, 0, 0], 'x': [3, a, 0]}[mode],
                     {'xy': [0, 4, 0], 'yz': [a, 4, b], 'x': [0, 4, b]}[mode],
                     {'xy': [0, 0, 5], 'yz': [0, 0, 5], 'x': [0, 0, 5]}[mode]])
    h0 = h.copy()
    r = crys.rmax_smith(h)
    vol = abs(ctx.det3(h))
    ctx.check(r > 0, 'positive')
    p = ctx.num(1)
    for i in range(3):
        n = ctx.cross(h[i - 2], h[i - 1])
        q = 4 * r * r * (n * n).sum()
        ctx.le(q, vol * vol, 'half the distance of the planes')
        p = p * (q - vol * vol)
    ctx.eq(p, 0, 'largest such radius', atol=1e-2)
    ctx.eq(h, h0, 'cell kept')


def expect(ctx, x0, x1, cell, dr, rmax, sel0, sel1, steps, pbc, dcond,
           vmd=False):
    np = ctx.np
    crys = ctx.mod('crys')
    vol = abs(ctx.det3(cell))
    nb = 0
    edges = [ctx.num(0)]
    while edges[-1] < rmax:
        edges.append(edges[-1] + dr)
    nb = len(edges) - 1
    g = [ctx.num(0)] * nb
    ni = [ctx.num(0)] * nb
    for t in steps:
        h = [0] * nb
        dup = 0
        for i in sel0:
            for j in sel1:
                df = x0[t, i] - x1[t, j]
                if pbc:
                    df = ctx.arr([nearest(v) for v in df])
                d2 = (np.dot(df, cell)**2).sum()
                if vmd and bool(d2 < 1e-30):
                    dup += 1
                if bool(d2 >= rmax * rmax):
                    continue
                if dcond is not None and not dcond(ctx, d2):
                    continue
                for k in range(1, nb):
                    if bool(d2 >= edges[k]**2) and (k == nb - 1 or bool(
                            d2 < edges[k + 1]**2)):
                        h[k] += 1
                        break
        c = 0
        for k in range(nb):
            c += h[k]
            sh = 4 * ctx.PI / 3 * (edges[k + 1]**3 - edges[k]**3)
            g[k] = g[k] + vol / sh * h[k] / (len(sel0) * len(sel1) - dup)
            ni[k] = ni[k] + ctx.num(c) / len(sel0)
    n = len(steps)
    return [(e + dr / 2) for e in edges[:-1]], [v / n for v in g], \
        [v / n for v in ni]


def body(ctx, kind, pbc, amask=None, tmask=None, dmask=None, two=False,
         nt=1, vmd=False, rmax=None, free=((0, 0),), dr=0.5,
         ints=False, na=3):
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.arr({'cube': [[4., 0, 0], [0, 4, 0], [0, 0, 4]],
                    'ortho': [[3., 0, 0], [0, 4, 0], [0, 0, 5]],
                    'tri': [[4., 0, 0], [1, 4, 0], [0, -1, 4]]}[kind])
    base = [[0.125, 0.25, 0.5], [0.5, 0.25, 0.5], [0.25, 0.75, 0.125]]
    syms = ['O', 'H', 'H'] * 3
    for i in range(6):
        base.append([0.11 + 0.13 * i, 0.87 - 0.14 * (i * i % 7),
                     0.05 + 0.15 * (i * 5 % 6)])
    base, syms = base[:na], syms[:na]

    def make(n):
        x = [[[ctx.num(base[i][k]) + 0.0625 * t * k for k in range(3)]
              for i in range(na)] for t in range(nt)]
        for (a, k) in free:
            for t in range(nt):
                if t == nt - 1 or nt == 1:
                    x[t][a][k] = ctx.real('%s%i%i%i' % (n, t, a, k), -1, 2)
        return ctx.arr(x)
    if ints:
        x0 = ctx.ints('x', (nt, na, 3), 0, 1)
        x0[:, 1:] = 0
    else:
        x0 = make('x')
    mk = lambda x: crys.Trajectory(coords_frac=x, cell=cell, symbols=syms)
    trs = [mk(x0)]
    x1 = x0
    if two:
        x1 = ctx.arr([[[0.375, 0.625, 0.25]] * na] * nt)
        trs.append(mk(x1))
    args = trs if two else (trs[0] if dmask is None else [trs[0]])
    dr = ctx.num(dr)
    kw = dict(dr=dr, pbc=pbc)
    if amask is not None:
        am = []
        for a in amask:
            am.append(a if isinstance(a, str) else np.array(a))
        kw['amask'] = am
        sel = [[i for i in range(na) if (syms[i] == a if isinstance(a, str)
                                         else a[i])] for a in amask]
        if len(sel) == 1:
            sel = sel * 2
    else:
        sel = [list(range(na))] * 2
    steps = list(range(nt))
    if tmask is not None:
        kw['tmask'] = tmask
        steps = steps[tmask]
        steps = [steps] if isinstance(steps, int) else steps
    dc = None
    if dmask is not None:
        kw['dmask'] = dmask[0]
        dc = dmask[1]
    if vmd:
        kw['norm_vmd'] = True
    rm = ctx.num(rmax) if rmax is not None else crys.rmax_smith(cell)
    if rmax is not None:
        kw['rmax'] = rm
    na0 = len(kw['amask']) if amask is not None else None
    r = crys.rpdf(args, **kw)
    rad, g, ni = expect(ctx, x0, x1, cell, dr, rm, sel[0], sel[1], steps, pbc,
                        dc, vmd)
    ctx.eq(r[:, 0], rad, 'radii are the shell centres')
    ctx.eq(r[:, 2], ni, 'number integral')
    ctx.eq(r[:, 1], g, 'g(r)')
    if isinstance(args, list):
        ctx.check(len(args) == (2 if two else 1), 'trajs list untouched')
    if amask is not None:
        ctx.check(len(kw['amask']) == na0 and all(
            (isinstance(b, str) and a == b) if isinstance(a, str) else
            list(map(bool, b)) == a
            for a, b in zip(amask, kw['amask'])), 'amask list untouched')


def maxmem(ctx):
    crys = ctx.mod('crys')
    cell = ctx.cell(mode='diag')
    x = ctx.reals('x', (2, 2, 3), -1, 1)
    tr = crys.Trajectory(coords_frac=x, cell=cell, symbols=['H'] * 2)
    ctx.raises(Exception, lambda: crys.rpdf(tr, dr=1.0, maxmem=1.9e-7),
               'memory limit')


def cases(tier):
    T, F = True, False
    out = [Case('maxmem', maxmem)]
    for m in ('xy', 'yz', 'x', 'tri'):
        out.append(Case('smith-%s' % m, smith, dict(mode=m)))
    big = lambda c, d2: bool(d2 >= 1)
    win = lambda c, d2: bool(d2 > 1) and bool(d2 < 2.25)
    C = [('cube-nopbc', dict(kind='cube', pbc=F)),
         ('cube-pbc', dict(kind='cube', pbc=T)),
         ('ortho-pbc', dict(kind='ortho', pbc=T, free=((1, 1),))),
         ('tri-pbc', dict(kind='tri', pbc=T, free=((0, 1),))),
         ('tri-nopbc', dict(kind='tri', pbc=F, free=((0, 2),))),
         ('rmax', dict(kind='cube', pbc=T, rmax=1.25)),
         ('rmax-big', dict(kind='cube', pbc=F, rmax=3.25, dr=0.75)),
         ('wide', dict(kind='cube', pbc=F, rmax=5, dr=1.25)),
         ('amask-names', dict(kind='cube', pbc=T, amask=['O', 'H'])),
         ('amask-names-rev', dict(kind='ortho', pbc=T, amask=['H', 'O'])),
         ('amask-one', dict(kind='cube', pbc=T, amask=['H'],
                            free=((1, 1),))),
         ('amask-bool', dict(kind='cube', pbc=F, amask=[
             [T, T, F], [F, T, T]])),
         ('tmask-slice', dict(kind='cube', pbc=T, nt=3,
                              tmask=slice(1, None, None))),
         ('tmask-last', dict(kind='cube', pbc=T, nt=2, tmask=-1)),
         ('steps', dict(kind='cube', pbc=T, nt=2)),
         ('dmask', dict(kind='cube', pbc=T, dmask=('>=1.0', big))),
         ('dmask-ph', dict(kind='cube', pbc=T, dmask=(
             '({d} > 1.0) & ({d} < 1.5)', win))),
         ('two', dict(kind='cube', pbc=T, two=T)),
         ('vmd', dict(kind='cube', pbc=T, vmd=T)),
         ('vmd-amask', dict(kind='cube', pbc=F, vmd=T, amask=['H', 'O']))]
    if tier != 'quick':
        C += [('free2', dict(kind='cube', pbc=F, free=((0, 0), (1, 0)))),
              ('free2-pbc', dict(kind='cube', pbc=T, free=((0, 0), (1, 1)),
                                 amask=['O', 'H'])),
              ('fine', dict(kind='cube', pbc=T, dr=0.25)),
              ('amask-tri', dict(kind='tri', pbc=T, amask=['O', 'H'],
                                 free=((2, 0),)))]
    C += [('integers', dict(kind='cube', pbc=T, ints=T)),
          ('integers-nopbc', dict(kind='cube', pbc=F, ints=T, rmax=1.5))]
    for n, kw in C:
        out.append(Case(n, body, kw))
    out += [Case('many atoms', body, dict(kind='cube', pbc=T, na=5, dr=1.25,
                                           rmax=2.25)),
            Case('many atoms, names', body, dict(
                kind='tri', pbc=F, na=9, amask=['O', 'H'], dr=1.25)),
            Case('many steps', body, dict(kind='ortho', pbc=T, nt=11,
                                          dr=1.25))]
    return out
