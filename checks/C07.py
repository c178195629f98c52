"""Angles between all atom triples."""
from symx.run import Case, rescaled

META = {
    'title': 'Angles are those at the central atom, and masks never collide',
    'statement': 'For each triple of distinct atoms (i,j,k) the reported '
    'value is the angle (or its cosine) at atom i between the '
    '(minimum-image) vectors to j and k, symmetric in j and k, in [0,180] '
    'degrees. Triples with repeated atoms hold exactly the mask value and a '
    'mask value that could be a real angle is refused; a genuine angle or '
    'cosine is never mistaken for a masked entry.',
    'forall': 'every structure without coincident atoms, both output units, '
    'periodic or not, every admissible mask value',
    'why': 'the failing combinations (a cosine equal to the mask value, '
    'boundary images) are single points in a continuum',
    'files': ['src/pwtools/crys.py', 'src/_ext_src/flib.f90'],
    'mech': ['angles @ crys.py:angles', 'kernel @ flib.f90:angles'],
}
BOUNDS = {'quick': '3 atoms, all triclinic cells, all fractional coordinates '
          'in [-0.9,0.9] without coincident atoms; PBC with one free '
          'component; deg on/off; default and custom mask values, one of '
          'them equal to a cosine that does occur; 1 and 2 atoms; 4 atoms '
          'with one free atom'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'coincident atoms; floating-point clamping of |cos|>1'


def body(ctx, x, cell, pbc, deg, mask, n):
    crys = ctx.mod('crys')
    np = ctx.np
    st = crys.Structure(coords_frac=x, cell=cell, symbols=['Al'] * n)
    kw = {}
    if mask is not None:
        kw['mask_val'] = mask
    if deg is not None:
        kw['deg'] = deg
    d, dv, _ = crys.distances(st, pbc=pbc, fullout=True)
    for i in range(n):
        for j in range(n):
            if i != j:
                ctx.assume(d[i, j] > 0.01 * ctx.unit('h') * ctx.unit('a'))
    a = crys.angles(st, pbc=pbc, **kw)
    mv = 999.0 if mask is None else mask
    ctx.check(a.shape == (n, n, n), 'shape')
    for i in range(n):
        for j in range(n):
            for k in range(n):
                v = a[i, j, k]
                if i == j or i == k or j == k:
                    ctx.eq(v, mv, 'masked entries')
                    continue
                if deg or deg is None:
                    ctx.le(0, v, 'angle >= 0')
                    ctx.le(v, 180, 'angle <= 180')
                    c = ctx.m.cos(v * ctx.PI / 180)
                else:
                    c = v
                ctx.eq(c * d[i, j] * d[i, k], np.dot(dv[i, j], dv[i, k]),
                       'cosine at the central atom i')
    if n == 3:
        ctx.eq(a[0, 1, 2], a[0, 2, 1], 'symmetric in the two legs')


def free3(ctx, deg, mask, mode):
    cell = ctx.cell(mode=mode)
    x = ctx.reals('x', (3, 3), -0.9, 0.9)
    body(ctx, x, cell, False, deg, mask, 3)


def plane3(ctx, deg, mask):
    """three atoms in general position: one leg along x"""
    cell = ctx.arr([[1, 0, 0], [0, ctx.real('b', 1, 2), 0], [0, 0, 1]])
    u, v = ctx.real('u', -0.9, 0.9), ctx.real('v', 0.1, 0.9)
    x = ctx.arr([[0.25, 0, 0], [0.75, 0, 0], [u, v, 0]])
    body(ctx, x, cell, False, deg, mask, 3)


def pbc3(ctx, deg, k):
    if deg is False:
        cell = ctx.cell(mode='tri')
    else:
        cell = ctx.num(2) * ctx.np.identity(3)
    x = [[ctx.real('x%i' % i, -0.9, 0.9) if (c == k and i == 1) else
          ctx.num([0.125, 0.5, 0.875][(i + c) % 3]) for c in range(3)]
         for i in range(3)]
    body(ctx, ctx.arr(x), cell, True, deg, None, 3)


def collinear(ctx, deg, mask, kind):
    """special geometry: angle 180, 0, 120 or 90 degrees"""
    a = ctx.real('a', 2, 4)
    np = ctx.np
    cell = a * np.identity(3)
    s = ctx.real('s', 0.1, 0.4)
    pos = {'180': [[0.5, 0, 0], [0.5 + s, 0, 0], [0.5 - s, 0, 0]],
           '0': [[0, 0, 0], [s, 0, 0], [2 * s, 0, 0]],
           '90': [[0, 0, 0], [s, 0, 0], [0, s, 0]],
           '120': [[0, 0, 0], [s, -s, 0], [-s, 0, s]],
           '60': [[0, 0, 0], [s, s, 0], [s, 0, s]]}[kind]
    body(ctx, ctx.arr(pos), cell, False, deg, mask, 3)


def few(ctx, n):
    cell = ctx.cell(mode='diag')
    x = ctx.reals('x', (n, 3), -0.9, 0.9)
    body(ctx, x, cell, False, True, None, n)


def many(ctx, na):
    a = ctx.real('a', 1, 3)
    x = [[0.1 * i, 0.03 * i * i, 0.07 * (i * i * i % 5)] for i in range(na)]
    body(ctx, ctx.arr(x), a * ctx.np.identity(3), False, False, None, na)


def four(ctx, deg):
    a = ctx.real('a', 1, 3)
    cell = a * ctx.np.identity(3)
    x = [[0.125, 0.25, 0], [0.5, 0.125, 0.75], [0.875, 0.75, 0.5],
         [ctx.real('x', -0.4, 0) if deg is False else -0.125, 0, 0]]
    body(ctx, ctx.arr(x), cell, False, deg, None, 4)


def badmask(ctx):
    crys = ctx.mod('crys')
    cell = ctx.cell(mode='diag')
    x = ctx.reals('x', (2, 3), -0.9, 0.9)
    st = crys.Structure(coords_frac=x, cell=cell, symbols=['Al'] * 2)
    m = ctx.real('m', 0, 180)
    ctx.raises(AssertionError, lambda: crys.angles(st, mask_val=m),
               'ambiguous mask refused (deg)')
    m = ctx.real('m2', -1, 1)
    ctx.raises(AssertionError, lambda: crys.angles(st, mask_val=m, deg=False),
               'ambiguous mask refused (cos)')


def cases(tier):
    out = []
    out.append(Case('free3', free3, dict(deg=False, mask=None, mode='tri')))
    for deg in (None, True, False):
        out.append(Case('plane3-%s' % deg, plane3, dict(deg=deg, mask=None)))
        for k in range(3):
            out.append(Case('pbc3-%s-%i' % (deg, k), pbc3, dict(deg=deg,
                                                                k=k)))
        out.append(Case('four-%s' % deg, four, dict(deg=deg)))
    for kind in ('0', '60', '90', '120', '180'):
        for deg, mask in ((True, -1.0), (True, -0.5), (True, None),
                          (False, 5.0), (False, -7.0)):
            out.append(Case('special-%s-%s-%s' % (kind, deg, mask), collinear,
                            dict(deg=deg, mask=mask, kind=kind)))
    for n in (1, 2):
        out.append(Case('few-%i' % n, few, dict(n=n)))
    out.append(Case('badmask', badmask))
    out.append(Case('many', many, dict(na=6)))
    out += rescaled(
        out,
        ('few-2', dict(h=1e-07)),
        ('free3', dict(h=1e+06)),
        ('free3', dict(h=1e-07)),
        ('special-60-True--1.0', dict(a=1e-07)),
        ('special-90-False-5.0', dict(a=1e+06)),
        ('four-True', dict(a=1e-07)))
    return out
