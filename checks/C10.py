"""Time statistics of trajectories."""
from symx.run import Case

META = {
    'title': 'RMS, means, velocities and smoothing act step-wise along time',
    'statement': 'Velocities from coordinates are central differences over '
    'twice the timestep with end points repeated (or omitted on request), the '
    'RMSD at a step is the root of the mean squared cartesian displacement '
    'per atom from the chosen reference step, and RMS values along any axis '
    'use the requested normalization. The mean structure holds the time '
    'average of every time-dependent quantity and the unchanged constant '
    'ones; smoothing convolves every such quantity along time with the '
    'normalized kernel (mirrored edges), identically for both methods, and '
    'keeps steps, timestep and the input.',
    'forall': 'all trajectories (real-valued quantities), reference steps, '
    'axes, normalizations, timesteps and smoothing kernels',
    'why': 'tests use random arrays and compare the code with itself; every '
    'attribute, axis and edge must be right for all values',
    'files': ['src/pwtools/crys.py', 'src/pwtools/num.py',
              'src/pwtools/signal.py'],
    'mech': ['velocity_traj @ crys.py:velocity_traj', 'rmsd @ crys.py:rmsd',
             'rms @ num.py:rms, rms3d', 'mean @ crys.py:mean',
             'smooth @ crys.py:smooth, signal.py:smooth'],
}
BOUNDS = {'quick': '2-6 steps, 1-2 atoms, kernels of length 3-5, all real '
          'entries'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'more steps/atoms (uniform code), non-array attributes'


def velo(ctx, nt, endpoints, ints=False):
    crys = ctx.mod('crys')
    x = ctx.ints('x', (nt, 2, 3), -3, 3) if ints else \
        ctx.reals('x', (nt, 2, 3))
    x0 = x.copy()
    dt = ctx.real('dt', 0.1, 3)
    kw = {} if endpoints is None else dict(endpoints=endpoints)
    v = crys.velocity_traj(x, dt=dt, **kw)
    ref = [(x0[i + 1] - x0[i - 1]) / (2 * dt) for i in range(1, nt - 1)]
    if endpoints is not False:
        ref = [ref[0]] + ref + [ref[-1]]
    ctx.eq(v, ref, 'central differences')
    ctx.eq(x, x0, 'input untouched')
    ctx.eq(crys.velocity_traj(x[:, 0, 0]),
           [y[0, 0] * dt for y in ([ref[0]] if endpoints is False else []) +
            list(ref) + ([ref[-1]] if endpoints is False else [])],
           'default timestep 1, rank 1')


def rmsd(ctx, ref, ints=False):
    crys = ctx.mod('crys')
    nt, na = 3, 2
    x = ctx.ints('x', (nt, na, 3), -5, 5) if ints else \
        ctx.reals('x', (nt, na, 3), -5, 5)
    x0 = x.copy()
    tr = crys.Trajectory(coords=x)
    kw = {} if ref is None else dict(ref_idx=ref)
    r = crys.rmsd(tr, **kw)
    ref = ref or 0
    ctx.check(r.shape == (nt,), 'one value per step')
    for t in range(nt):
        ctx.check(r[t] >= 0, 'nonnegative')
        ctx.eq(r[t]**2 * na, ((x0[t] - x0[ref])**2).sum(), 'rmsd')
    ctx.eq(tr.coords, x0, 'input untouched')


def rms(ctx, axis, nitems):
    num = ctx.mod('num')
    np = ctx.np
    sh = (2, 3, 4)
    a = ctx.reals('a', sh, -5, 5)
    n = 5.5 if nitems else None
    kw = dict(nitems=n) if nitems else {}
    r = num.rms3d(a, axis=axis, **kw)
    b = np.rollaxis(a, axis, 0)
    ctx.check(r.shape == (b.shape[0],), 'shape')
    for i in range(b.shape[0]):
        q = b[i].ravel()
        ctx.check(r[i] >= 0, 'nonnegative')
        ctx.eq(r[i]**2 * ctx.num(n or len(q)), (q**2).sum(), 'rms3d')
    q = num.rms(a[0], **kw)
    ctx.check(q >= 0, 'nonnegative')
    ctx.eq(q**2 * ctx.num(n or 12), (a[0]**2).sum(), 'rms')


def full_traj(ctx, nt, na, extra=True, ints=False):
    crys = ctx.mod('crys')
    np = ctx.np
    cell = ctx.arr([ctx.cell('h%i' % t, mode='diag') for t in range(nt)])
    rd = (lambda n, sh, lo=-3, hi=3: ctx.ints(n, (sh,) if isinstance(
        sh, int) else sh, lo, hi)) if ints else ctx.reals
    kw = dict(coords_frac=rd('x', (nt, na, 3), -1, 1), cell=cell,
              symbols=['Al', 'N'][:na], timestep=ctx.real('dt', 0.5, 2))
    if extra:
        kw.update(forces=rd('f', (nt, na, 3)),
                  stress=rd('s', (nt, 3, 3)),
                  etot=rd('e', nt), ekin=rd('k', nt),
                  temperature=rd('T', nt),
                  velocity=rd('v', (nt, na, 3)))
    return crys.Trajectory(**kw)


NAMES = ['coords', 'coords_frac', 'cell', 'cryst_const', 'forces', 'stress',
         'etot', 'ekin', 'temperature', 'velocity', 'volume', 'pressure']
CONST = ['symbols', 'symbols_unique', 'natoms', 'mass', 'typat', 'znucl',
         'order', 'nspecies', 'ntypat', 'mass_unique', 'znucl_unique']


def same(a, b):
    return (list(a) == list(b)) if hasattr(a, '__len__') and not isinstance(
        a, dict) else a == b


def mean(ctx, ints=False):
    crys = ctx.mod('crys')
    nt = 3
    tr = full_traj(ctx, nt, 2, ints=ints)
    keep = {n: getattr(tr, n).copy() for n in NAMES}
    st = crys.mean(tr)
    ctx.check(st.is_struct, 'a Structure')
    for n in NAMES:
        v = keep[n]
        s = v[0]
        for t in range(1, nt):
            s = s + v[t]
        ctx.eq(getattr(st, n), s / nt, 'mean ' + n)
        ctx.eq(getattr(tr, n), v, 'input untouched')
    for n in CONST:
        ctx.check(same(getattr(st, n), getattr(tr, n)), n)


def part(ctx):
    """attributes that are not set stay unset"""
    crys = ctx.mod('crys')
    tr = crys.Trajectory(coords=ctx.reals('x', (2, 1, 3)), symbols=['N'])
    st = crys.mean(tr)
    ctx.eq(st.coords, (tr.coords[0] + tr.coords[1]) / 2, 'mean')
    ctx.check(st.cell is None, 'cell unset')
    ctx.check(st.forces is None, 'forces unset')
    sm = crys.smooth(tr, ctx.arr([1., 2, 1]))
    ctx.check(sm.cell is None, 'cell unset')


def sm_ref(ctx, v, k):
    """normalized convolution along axis 0, mirrored edges"""
    n, m = len(v), len(k)
    h = (m - 1) // 2
    s = sum(k[i] for i in range(m))
    out = []
    for i in range(n):
        acc = None
        for j in range(m):
            p = i + h - j
            if p < 0:
                p = -p
            if p > n - 1:
                p = 2 * (n - 1) - p
            t = v[p] * k[j]
            acc = t if acc is None else acc + t
        out.append(acc / s)
    return out


def smooth(ctx, nt, klen, method, ints=False):
    crys = ctx.mod('crys')
    tr = full_traj(ctx, nt, 1, ints=ints)
    keep = {n: getattr(tr, n).copy() for n in NAMES}
    k = ctx.reals('w', klen, 0.1, 2)
    kw = {} if method is None else dict(method=method)
    sm = crys.smooth(tr, k, **kw)
    ctx.check(sm.is_traj, 'a Trajectory')
    ctx.check(sm.nstep == nt, 'nstep')
    ctx.eq(sm.timestep, tr.timestep, 'timestep')
    for n in NAMES:
        ctx.eq(getattr(sm, n), sm_ref(ctx, keep[n], k), 'smooth ' + n)
        ctx.eq(getattr(tr, n), keep[n], 'input untouched')
    for n in CONST:
        ctx.check(same(getattr(sm, n), getattr(tr, n)), n)


def cases(tier):
    out = []
    for nt in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6, 8):
        for ep in (None, True, False):
            out.append(Case('velocity-%i-%s' % (nt, ep), velo, dict(
                nt=nt, endpoints=ep)))
    for r in (None, 0, 1, 2, -1):
        out.append(Case('rmsd-%s' % r, rmsd, dict(ref=r)))
    for ax in (0, 1, 2, -1):
        for n in (False, True):
            out.append(Case('rms-%i-%i' % (ax, n), rms, dict(axis=ax,
                                                             nitems=n)))
    out.append(Case('mean', mean))
    out.append(Case('unset', part))
    for nt, kl in ((4, 3), (6, 5)) if tier == 'quick' else (
            (4, 3), (6, 5), (5, 5), (8, 7)):
        for m in (None, 1, 2):
            out.append(Case('smooth-%i-%i-%s' % (nt, kl, m), smooth, dict(
                nt=nt, klen=kl, method=m)))
    for ep in (True, False):
        out.append(Case('velocity integers %s' % ep, velo, dict(
            nt=4, endpoints=ep, ints=True)))
    out.append(Case('rmsd integers', rmsd, dict(ref=1, ints=True)))
    out.append(Case('mean integers', mean, dict(ints=True)))
    for m in (1, 2):
        out.append(Case('smooth integers %s' % m, smooth, dict(
            nt=4, klen=3, method=m, ints=True)))
    out += [Case('velocity-many', velo, dict(nt=12, endpoints=None)),
            Case('velocity', velo, dict(nt=4, endpoints=None)).scaled(x=1e-7),
            Case('velocity', velo, dict(nt=4, endpoints=None)).scaled(dt=1e6),
            Case('rmsd', rmsd, dict(ref=1)).scaled(x=1e-7),
            Case('rms', rms, dict(axis=1, nitems=False)).scaled(a=1e-7),
            Case('mean', mean).scaled(x=1e-6, f=1e-6, e=1e6, v=1e-6, k=1e-6),
            Case('smooth', smooth, dict(nt=4, klen=3, method=None)).scaled(
                x=1e-6, f=1e-6, e=1e6, v=1e-6, w=1e-5),
            Case('smooth-many', smooth, dict(nt=13, klen=5, method=None)),
            Case('smooth-many-loop', smooth, dict(nt=13, klen=7, method=2))]
    return out
