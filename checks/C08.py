"""Nearest neighbours."""
from symx.run import Case, rescaled

META = {
    'title': 'Nearest neighbours are exactly the closest admissible atoms',
    'statement': 'Asked for num neighbours the result is that many (or all '
    'available) distinct atoms, excluding the central one and skipped '
    'species, none farther than any admissible atom left out; asked for a '
    'cutoff it is exactly the admissible atoms closer than it. Results are '
    'ordered by distance if sorted, else by index, the reported distances '
    'belong to the reported atoms, and the neighbour structure holds '
    'those atoms plus the central one in original order with the original '
    'cell.',
    'forall': 'every distance pattern including ties and coincident atoms, '
    'central atom (negative index too), species list, skip set, num or '
    'cutoff',
    'why': 'ties, skipped species among the nearest and coincident atoms '
    'need specific distance orderings; all orderings are covered',
    'files': ['src/pwtools/crys.py'],
    'mech': ['selection @ crys.py:nearest_neighbors_from_dists',
             'structures @ crys.py:nearest_neighbors, '
             'nearest_neighbors_struct'],
}
BOUNDS = {'quick': '4 atoms (3 species patterns), every central atom incl. '
          'negative index, every real symmetric distance matrix with entries '
          'in [0.5,5] (ties included; coincident atoms as a separate case); '
          'num 1..4 or any cutoff; every skip set; sort on/off; Structure '
          'level: 3 atoms on one lattice axis, with and without PBC'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'more atoms'


def verify(ctx, r, d, syms, idx, num, cutoff, skip, sort, dd=None):
    n = len(syms)
    r = [int(i) for i in r]
    sk = [] if skip is None else ([skip] if isinstance(skip, str) else skip)
    allowed = [i for i in range(n) if i != idx and syms[i] not in sk]
    ctx.check(len(set(r)) == len(r), 'no duplicates')
    ctx.check(all(i in allowed for i in r), 'neither centre nor skipped')
    rest = [i for i in allowed if i not in r]
    if num is not None:
        ctx.check(len(r) == min(num, len(allowed)), 'count')
        for i in r:
            for j in rest:
                ctx.check(d[i, idx] <= d[j, idx], 'really the nearest')
    else:
        for i in r:
            ctx.check(d[i, idx] < cutoff, 'inside the cutoff')
        for j in rest:
            ctx.check(d[j, idx] >= cutoff, 'all inside the cutoff')
    if sort:
        for a, b in zip(r[:-1], r[1:]):
            ctx.check(d[a, idx] <= d[b, idx], 'sorted by distance')
    else:
        ctx.check(r == sorted(r), 'in order of symbols')
    if dd is not None:
        ctx.eq(dd, [d[i, idx] for i in r], 'distances')


def dist_matrix(ctx, n, idx, nfree=99):
    """symmetric, zero diagonal; distances to idx free, others fixed"""
    m = [[ctx.num(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if idx in (i, j) and max(i, j) < nfree:
                v = ctx.real('d%i%i' % (i, j), 0.5, 5)
            else:
                v = ctx.num(0.4 * (i + j) + 0.1)
                if nfree == 99:
                    v = ctx.num(1 + i + j)
            m[i][j] = m[j][i] = v
    return ctx.arr(m)


def from_dists(ctx, syms, idx, num, skip, sort, nfree=99):
    crys = ctx.mod('crys')
    n = len(syms)
    d = dist_matrix(ctx, n, idx % n, nfree)
    kw = {}
    cutoff = None
    if num is None:
        cutoff = kw['cutoff'] = ctx.real('cut', 0.4, 5.5)
    else:
        kw['num'] = num
    if skip is not None:
        kw['skip'] = skip
    if not sort:
        kw['sort'] = False
    r, dd = crys.nearest_neighbors_from_dists(d, syms, idx=idx, fullout=True,
                                              **kw)
    verify(ctx, r, d, syms, idx % n, num, cutoff, skip, sort, dd)
    r2 = crys.nearest_neighbors_from_dists(d, syms, idx=idx, **kw)
    ctx.check(list(r2) == list(r), 'fullout=False')


def coincident(ctx, num):
    """an atom on top of the central one is a neighbour at distance 0"""
    crys = ctx.mod('crys')
    a, b = ctx.real('a', 0.5, 2), ctx.real('b', 0.5, 2)
    d = ctx.arr([[0, 0, a], [0, 0, b], [a, b, 0]])
    kw = dict(num=2) if num else dict(cutoff=3.0)
    for idx in (0, 1):
        r = crys.nearest_neighbors_from_dists(d, ['A', 'B', 'C'], idx=idx,
                                              **kw)
        ctx.check(sorted(int(i) for i in r) == [1 - idx, 2], 'both found')


def struct(ctx, idx, pbc, num, skip, sort):
    crys = ctx.mod('crys')
    np = ctx.np
    L = ctx.real('L', 3, 6)
    x = ctx.arr([[0.25, 0, 0], [ctx.real('x1', 0.3, 0.9), 0, 0],
                 [ctx.real('x2', 0, 0.2), 0, 0.25]])
    syms = ['Al', 'N', 'Al']
    cell = L * np.identity(3)
    st = crys.Structure(coords_frac=x, cell=cell, symbols=syms)
    kw = dict(idx=idx, pbc=pbc, sort=sort, skip=skip)
    cutoff = None
    if num is None:
        cutoff = kw['cutoff'] = ctx.real('cut', 0.5, 6)
    else:
        kw['num'] = num
    r, dd = crys.nearest_neighbors(st, fullout=True, **kw)
    d = crys.distances(st, pbc=pbc)
    if num == 1:
        i, j = [i for i in range(3) if i != idx]
        e = d[i, idx]**2 - d[j, idx]**2
        ctx.assume((e > 1e-9) | (e < -1e-9))
    verify(ctx, r, d, syms, idx, num, cutoff, skip, sort, dd)
    ns = crys.nearest_neighbors_struct(st, **kw)
    keep = sorted([int(i) for i in r] + [idx])
    ctx.check(list(ns.symbols) == [syms[i] for i in keep], 'struct symbols')
    ctx.eq(ns.coords_frac, x[keep, :], 'struct coords')
    ctx.eq(ns.cell, cell, 'struct cell')


def cases(tier):
    out = []
    pats = [['A', 'B', 'A', 'B'], ['A', 'A', 'A', 'B'], ['A', 'B', 'C', 'A']]
    skips = [None, 'A', 'B', ['B'], ['A', 'C'], ['A', 'B', 'C'], 'X']
    k = 0
    for pi, syms in enumerate(pats):
        for idx in (0, 1, 3, -1, -3):
            for si, skip in enumerate(skips):
                for num in (1, 2, 3, 4, None):
                    k += 1
                    if tier == 'quick' and (k * 7 + pi) % 5:
                        continue
                    out.append(Case('dists-%s-%i-%s-%s' % (
                        ''.join(syms), idx, skip, num), from_dists, dict(
                        syms=syms, idx=idx, num=num, skip=skip,
                        sort=bool((pi + idx + si + (num or 0)) % 3)),
                        validate=2, samples=2))
    for num in (False, True):
        out.append(Case('coincident-%i' % num, coincident, dict(num=num)))
    for idx in (0, 1, 2):
        for pbc in (False, True):
            for num, skip, sort in ((1, None, True), (1, 'Al', False),
                                    (2, 'N', True), (None, None, True),
                                    (None, ['Al'], False)):
                out.append(Case('struct-%i-%i-%s-%s' % (idx, pbc, num, skip),
                                struct, dict(idx=idx, pbc=pbc, num=num,
                                             skip=skip, sort=sort)))
    for num, skip in ((3, None), (11, None), (None, 'B'), (5, 'A')):
        out.append(Case('many-%s-%s' % (num, skip), from_dists, dict(
            syms=['A', 'B', 'C'] * 4, idx=1, num=num, skip=skip, sort=True,
            nfree=1)))
    out += rescaled(
        out,
        ('struct-1-1-None-None', dict(L=1e-07, cut=1e-07)),
        ('struct-2-1-2-N', dict(L=1e+06)),
        ('dists-ABAB-0-None-None', dict(d=1e-07, cut=1e-07)))
    return out
