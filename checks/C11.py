"""Rigid moves, interpolation, Voigt notation."""
from symx.run import Case, rescaled

META = {
    'title': 'Centering, alignment and mixing change only what they should',
    'statement': 'Centering on an atom shifts all atoms of a step rigidly so '
    'that it sits at (1/2,1/2,1/2), with recomputed cartesian coordinates '
    'and the original object untouched unless in-place work is requested. '
    'Alignment expresses the same structure(s) in a rotated cartesian frame '
    'given by two vectors, three points, atom indices or a matrix (refused '
    'if not orthogonal), keeping fractional coordinates and all lengths. '
    'Mixing gives, for every alpha, the linear '
    'interpolation of coordinates, cell and forces (if both have them); '
    'Voigt vectors and symmetric tensors convert into each other without '
    'loss, per step too.',
    'forall': 'all cells, coordinates, forces, rotation frames, mixing '
    'parameters and tensors',
    'why': 'index order and transposed rotations pass symmetric test '
    'examples; the statement is about all real inputs',
    'files': ['src/pwtools/crys.py'],
    'mech': ['center @ crys.py:center_on_atom', 'align @ crys.py:align_cart',
             'mix @ crys.py:mix',
             'voigt @ crys.py:tensor2voigt, voigt2tensor, *3d'],
}
BOUNDS = {'quick': 'triclinic cells, 2-3 atoms, 2 steps; frames: rotations '
          'about an axis by any angle (rational parametrization) and '
          'their permutations; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'general 3-parameter rotations'


def center(ctx, traj, idx, copy):
    crys = ctx.mod('crys')
    np = ctx.np
    na = 3
    if traj:
        cell = ctx.arr([ctx.cell('p%i' % t, mode='tri') for t in range(2)])
        x = ctx.reals('x', (2, na, 3), -1, 2)
        o = crys.Trajectory(coords_frac=x, cell=cell, symbols=['Al', 'N', 'O'])
    else:
        cell = ctx.cell(mode='full')
        x = ctx.reals('x', (na, 3), -1, 2)
        o = crys.Structure(coords_frac=x, cell=cell, symbols=['Al', 'N', 'O'])
    x0, c0 = x.copy(), o.coords.copy()
    kw = {} if copy is None else dict(copy=copy)
    r = crys.center_on_atom(o, idx=idx, **kw)
    for t in range(2 if traj else 1):
        a = r.coords_frac[t] if traj else r.coords_frac
        b = x0[t] if traj else x0
        h = cell[t] if traj else cell
        ctx.eq(a[idx], [0.5] * 3, 'atom in the centre')
        for i in range(na):
            ctx.eq(a[i] - a[idx], b[i] - b[idx], 'rigid')
        ctx.eq((r.coords[t] if traj else r.coords), np.dot(a, h), 'coords')
    ctx.eq(r.cell, cell, 'cell kept')
    ctx.check(list(r.symbols) == ['Al', 'N', 'O'], 'symbols')
    if copy is not False:
        ctx.check(r is not o, 'copy')
        ctx.eq(o.coords_frac, x0, 'original untouched')
        ctx.eq(o.coords, c0, 'original untouched')
    else:
        ctx.check(r is o, 'in place')
    ctx.raises(AssertionError, lambda: crys.center_on_atom(o), 'no index')


def frame(ctx, perm):
    """two orthogonal, unnormalized vectors"""
    t = ctx.real('t', -1.5, 1.5)
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    l1, l2 = ctx.real('l1', 0.5, 2), ctx.real('l2', 0.5, 2)
    x = [c * l1, s * l1, 0]
    y = [-s * l2, c * l2, 0]
    x = ctx.arr([x[p] for p in perm])
    y = ctx.arr([y[p] for p in perm])
    xx = ctx.arr([[c, s, 0][p] for p in perm])
    yy = ctx.arr([[-s, c, 0][p] for p in perm])
    return x, y, ctx.arr([xx, yy, ctx.cross(xx, yy)])


def align(ctx, how, traj, perm):
    crys = ctx.mod('crys')
    np = ctx.np
    x, y, cart = frame(ctx, perm)
    na = 4 if how == 'indices' else 3
    nt = 2 if traj else 1
    cells = [ctx.cell('p%i' % t, mode='diag' if traj or how == 'indices' else 'tri')
             for t in range(nt)]
    kw = {}
    fr = ctx.reals('f', (nt, na, 3), -1, 1)
    if how == 'indices':
        v0 = ctx.reals('v', (3,), -1, 1)
        order = [3, 0, 2]
        pts = [v0, v0 + x, v0 + y]
        step = nt - 1
        fr = np.array(fr)
        inv = ctx.arr([1 / cells[step][k, k] for k in range(3)])
        for i, p in zip(order, pts):
            fr[step, i] = p * inv
        kw['indices'] = ([step] if traj else []) + order
    elif how == 'vecs':
        v0 = ctx.reals('v', (3,), -1, 1)
        kw['vecs'] = ctx.arr([v0, v0 + x, v0 + y])
    elif how == 'xy':
        kw.update(x=x, y=y)
    else:
        kw['cart'] = cart
    sy = ['Al', 'N', 'O', 'H'][:na]
    if traj:
        o = crys.Trajectory(coords_frac=fr, cell=ctx.arr(cells), symbols=sy)
    else:
        o = crys.Structure(coords_frac=fr[0], cell=cells[0], symbols=sy)
    keep = o.coords.copy()
    r = crys.align_cart(o, **kw)
    ctx.check(r.is_traj == traj, 'same kind of object')
    ctx.eq(r.coords_frac, o.coords_frac, 'fractional coordinates kept')
    ctx.check(list(r.symbols) == sy, 'symbols')
    for t in range(nt):
        rc, oc = (r.coords[t], o.coords[t]) if traj else (r.coords, o.coords)
        rh, oh = (r.cell[t], o.cell[t]) if traj else (r.cell, o.cell)
        for k in range(3):
            ctx.eq(rc[:, k], np.dot(oc, cart[k]), 'components in new frame')
            ctx.eq(rh[:, k], np.dot(oh, cart[k]), 'cell in new frame')
    ctx.eq(o.coords, keep, 'input untouched')


def skew(ctx):
    crys = ctx.mod('crys')
    s = ctx.real('s', 0.01, 0.9)
    st = crys.Structure(coords_frac=ctx.reals('x', (1, 3)),
                        cell=ctx.np.identity(3) * ctx.real('a', 1, 3),
                        symbols=['Al'])
    bad = ctx.arr([[1, 0, 0], [s, 1, 0], [0, 0, 1]])
    ctx.raises(AssertionError, lambda: crys.align_cart(st, cart=bad),
               'non-orthogonal frame refused')
    ctx.raises(AssertionError, lambda: crys.align_cart(
        st, x=bad[0], y=bad[1]), 'non-orthogonal vectors refused')
    r = crys.align_cart(st, cart=bad, eps=-1)
    ctx.eq(r.cell, ctx.np.dot(st.cell, bad.T), 'unless the check is off')


def mix(ctx, forces):
    crys = ctx.mod('crys')
    na = 2
    sy = ['Al', 'N']
    sts, xs, hs, fs = [], [], [], []
    for n in 'ab':
        h = ctx.cell(n, mode='tri')
        x = ctx.reals('x' + n, (na, 3))
        f = ctx.reals('f' + n, (na, 3))
        kw = dict(forces=f) if forces == 2 or (forces == 1 and n == 'a') \
            else {}
        sts.append(crys.Structure(coords=x, cell=h, symbols=sy, **kw))
        xs.append(x.copy()), hs.append(h), fs.append(f)
    al = ctx.arr([ctx.real('al', 0, 1), 1.25, -0.25])
    al2 = al.copy()
    tr = crys.mix(sts[0], sts[1], al)
    ctx.check(tr.nstep == 3, 'one step per alpha')
    for t in range(3):
        w = lambda p: (1 - al2[t]) * p[0] + al2[t] * p[1]
        ctx.eq(tr.coords[t], w(xs), 'coords')
        ctx.eq(tr.cell[t], w(hs), 'cell')
        if forces == 2:
            ctx.eq(tr.forces[t], w(fs), 'forces')
    if forces != 2:
        ctx.check(tr.forces is None, 'no forces unless both have them')
    ctx.check(list(tr.symbols) == sy, 'symbols')
    ctx.eq(sts[0].coords, xs[0], 'input untouched')
    ctx.eq(sts[1].coords, xs[1], 'input untouched')
    bad = crys.Structure(coords=xs[1], cell=hs[1], symbols=['N', 'Al'])
    ctx.raises(AssertionError, lambda: crys.mix(sts[0], bad, al),
               'different symbols refused')


def voigt(ctx, nt):
    crys = ctx.mod('crys')
    v = ctx.reals('v', (nt, 6))
    pos = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    T = crys.voigt2tensor3d(v)
    for t in range(nt):
        T1 = crys.voigt2tensor(v[t])
        for k, (i, j) in enumerate(pos):
            ctx.eq(T1[i, j], v[t, k], 'tensor')
            ctx.eq(T1[j, i], v[t, k], 'symmetric')
            ctx.eq(T[t, i, j], v[t, k], '3d')
            ctx.eq(T[t, j, i], v[t, k], '3d symmetric')
        ctx.eq(crys.tensor2voigt(T1), v[t], 'round trip')
    ctx.eq(crys.tensor2voigt3d(T), v, '3d round trip')
    ctx.raises(AssertionError, lambda: crys.voigt2tensor(v[0][:5]), 'length')


def cases(tier):
    out = []
    for traj in (False, True):
        for idx in (0, 1, -1):
            for copy in (None, True, False):
                out.append(Case('center-%i-%i-%s' % (traj, idx, copy), center,
                                dict(traj=traj, idx=idx, copy=copy)))
    perms = [(0, 1, 2), (2, 0, 1), (1, 2, 0), (0, 2, 1)]
    for how in ('xy', 'vecs', 'indices', 'cart'):
        for traj in (False, True):
            for p in perms[:2] if tier == 'quick' else perms:
                out.append(Case('align-%s-%i-%i%i%i' % ((how, traj) + p),
                                align, dict(how=how, traj=traj, perm=p)))
    out.append(Case('align-skew', skew))
    for f in (0, 1, 2):
        out.append(Case('mix-%i' % f, mix, dict(forces=f)))
    for nt in (1, 2):
        out.append(Case('voigt-%i' % nt, voigt, dict(nt=nt)))
    out += [Case('center integers %i' % t, center, dict(
                traj=bool(t), idx=0, copy=None), ints=('x', 'h', 'p0', 'p1'))
            for t in (0, 1)]
    out += [Case('mix integers', mix, dict(forces=2), ints=(
                'a', 'b', 'xa', 'xb', 'fa', 'fb')),
            Case('voigt integers', voigt, dict(nt=2), ints=('v',)),
            Case('align integers', align, dict(
                how='xy', traj=True, perm=(0, 1, 2)), ints=('p0', 'p1', 'f'))]
    out += rescaled(
        out,
        ('center-0-0-None', dict(h=1e-07)),
        ('center-1-1-True', dict(p0=1e+06, p1=1e+06)),
        ('align-xy-1-012', dict(p0=1e-06, p1=1e-06)),
        ('align-skew', dict(a=1e-06)),
        ('mix-2', dict(a=1e-06, b=1e-06, fa=1e-06, fb=1e-06)),
        ('voigt-2', dict(v=1e-09)),
        ('voigt-2', dict(v=1e+09)))
    return out
