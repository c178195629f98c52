"""Trajectory as a container: index, slice, iterate, join, copy, compress."""
from symx.run import Case, rescaled

META = {
    'title': 'Trajectories behave as sequences of structures',
    'statement': 'Indexing gives the structure of that step (negative '
    'indices too), slicing gives the trajectory of those steps with the '
    'timestep multiplied by the stride, and iterating - also nested, '
    'repeated, or after leaving a loop early - visits every step in order. '
    'Joining structures and trajectories appends their steps for every '
    'quantity all of them have and never carries a quantity of the wrong '
    'length; a structure becomes a trajectory by repeating it. '
    'Copies are independent of their original, compressing forgets exactly '
    'the named quantities and changes only the original asked for.',
    'forall': 'all quantities, all indices and slices, all interleavings of '
    'iterations, all combinations of present/absent attributes',
    'over': ['inputs', 'histories'],
    'why': 'iterator state, aliasing and attribute combinations only show '
    'in particular call histories; tests use one order and one set',
    'files': ['src/pwtools/crys.py'],
    'mech': ['index/slice/iterate @ crys.py:Trajectory.__getitem__, __iter__',
             'join @ crys.py:concatenate, populated_attrs',
             'repeat @ crys.py:struct2traj, Structure.get_traj',
             'copy @ crys.py:Structure.copy',
             'compress @ crys.py:compress, Structure.compress'],
}
BOUNDS = {'quick': '3-4 steps, 2 atoms, all slices with start/stop in '
          '-5..5 and step 1..3 (plus reversed), all loop histories of two '
          'iterators with up to 3 steps, all subsets of 4 optional '
          'quantities per joined object'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'lengths that disagree with the number of steps (parser leftovers)'

N3 = ['coords', 'coords_frac', 'cell', 'stress', 'forces']
N2 = ['cryst_const']
N1 = ['etot', 'volume', 'pressure']
ONLY = ['velocity', 'ekin', 'temperature', 'time']
CONST = ['symbols', 'natoms', 'typat', 'znucl', 'mass', 'order', 'nspecies',
         'symbols_unique', 'ntypat', 'mass_unique', 'znucl_unique']


def same(a, b):
    if hasattr(a, 'dtype') and a.dtype.kind == 'f':
        # masses; single precision after compressing
        return len(a) == len(b) and all(abs(float(x) - float(y)) < 1e-4
                                        for x, y in zip(a, b))
    if hasattr(a, '__len__') and not isinstance(a, dict):
        return list(a) == list(b)
    return a == b


def make(ctx, nt, n='', opt=('forces', 'stress', 'etot'), dt=True, cart=False):
    crys = ctx.mod('crys')
    cell = ctx.arr([ctx.cell(n + 'h%i' % t, mode='diag') for t in range(nt)])
    kw = dict(cell=cell, symbols=['N', 'Al'])
    kw['coords' if cart else 'coords_frac'] = ctx.reals(n + 'x', (nt, 2, 3))
    if 'forces' in opt:
        kw['forces'] = ctx.reals(n + 'f', (nt, 2, 3))
    if 'stress' in opt:
        kw['stress'] = ctx.reals(n + 's', (nt, 3, 3))
    if 'etot' in opt:
        kw['etot'] = ctx.reals(n + 'e', nt)
    if 'ekin' in opt:
        kw['ekin'] = ctx.reals(n + 'k', nt)
    if dt:
        kw['timestep'] = ctx.real(n + 'dt', 0.5, 2)
    return crys.Trajectory(**kw)


def is_step(ctx, st, tr, t, label):
    ctx.check(st.is_struct and not st.is_traj, label + ': a Structure')
    for n in N3 + N2 + N1:
        ctx.eq(getattr(st, n), getattr(tr, n)[t], '%s: %s' % (label, n))
    for n in CONST:
        ctx.check(same(getattr(st, n), getattr(tr, n)), label + ': ' + n)
    for n in ONLY:
        ctx.check(getattr(st, n, None) is None, label + ': no ' + n)


def index(ctx, nt=3):
    tr = make(ctx, nt)
    for t in range(-nt, nt):
        is_step(ctx, tr[t], tr, t, 'index')
    ctx.raises(IndexError, lambda: tr[nt], 'out of range')


def slices(ctx, sls, nt=4):
    tr = make(ctx, nt)
    for sl in sls:
        want = list(range(nt))[sl]
        if not want:
            continue
        r = tr[sl]
        ctx.check(r.is_traj, 'a Trajectory')
        ctx.check(r.nstep == len(want), 'nstep')
        ctx.eq(r.timestep, tr.timestep * (sl.step or 1), 'timestep')
        for n in N3 + N2 + N1 + ONLY:
            a, b = getattr(r, n), getattr(tr, n)
            ctx.eq(a, [b[t] for t in want], 'slice: ' + n)
        for n in CONST:
            ctx.check(same(getattr(r, n), getattr(tr, n)), n)
        for n in ('nstep', 'timestep'):
            ctx.check(getattr(tr, n) is not None, 'original kept')


def iterate(ctx, plan, nt=3):
    """plan: sequence of operations on two nested/leftover iterations"""
    tr = make(ctx, nt, opt=('etot',))
    if plan == 'nested':
        seen = []
        for i, a in enumerate(tr):
            for j, b in enumerate(tr):
                seen.append((i, j))
                ctx.eq(a.etot, tr.etot[i], 'outer')
                ctx.eq(b.etot, tr.etot[j], 'inner')
                if len(seen) > 20:
                    break
            if len(seen) > 20:
                break
        ctx.check(seen == [(i, j) for i in range(nt) for j in range(nt)],
                  'all pairs visited')
    elif plan == 'twice':
        for rep in range(2):
            r = list(tr)
            ctx.check(len(r) == nt, 'all steps')
            for t, st in enumerate(r):
                is_step(ctx, st, tr, t, 'iterate') if rep == 0 and \
                    'stress' in () else ctx.eq(st.coords, tr.coords[t], 'x')
    elif plan == 'next':
        for rep in range(3):
            for t in range(nt):
                ctx.eq(next(tr).etot, tr.etot[t], 'next')
            ctx.raises(StopIteration, lambda: next(tr), 'end')
    elif isinstance(plan, int):
        # leave the first loop after `plan` steps, then iterate again
        for k, st in enumerate(tr):
            ctx.eq(st.etot, tr.etot[k], 'first loop')
            if k + 1 == plan:
                break
        r = list(tr)
        ctx.check(len(r) == nt, 'all steps again')
        for t, st in enumerate(r):
            ctx.eq(st.etot, tr.etot[t], 'second loop')
    else:
        its = {'a': iter(tr), 'b': iter(tr)}
        pos = {'a': 0, 'b': 0}
        for c in plan:
            if pos[c] < nt:
                st = next(its[c])
                ctx.eq(st.etot, tr.etot[pos[c]], 'interleaved')
            else:
                ctx.raises(StopIteration, lambda: next(its[c]), 'end')
            pos[c] += 1
    ctx.check(tr.nstep == nt, 'trajectory itself unchanged')


OPT = ['forces', 'stress', 'etot']


def concat(ctx, kinds, opts):
    crys = ctx.mod('crys')
    lst, parts = [], []
    for i, (k, o) in enumerate(zip(kinds, opts)):
        n = 'abcdefghijkl'[i]
        tr = make(ctx, 3 if k == 't' else 1, n, o, dt=(k == 't'))
        if k == 's':
            tr = tr[0]
        lst.append(tr)
        parts.append(tr if k == 't' else crys.struct2traj(tr))
    keep = [p.coords.copy() for p in parts]
    r = crys.concatenate(lst)
    n = sum(len(p.coords) for p in parts)
    ctx.check(r.is_traj, 'a Trajectory')
    ctx.check(r.nstep == n, 'number of steps')
    for name in N3 + N2 + N1 + ['velocity', 'ekin', 'temperature']:
        vals = [getattr(p, name) for p in parts]
        got = getattr(r, name)
        if any(v is None for v in vals):
            ctx.check(got is None, '%s: not in all parts' % name)
        else:
            ctx.eq(got, [v[t] for v in vals for t in range(len(v))], name)
    for name in CONST:
        ctx.check(same(getattr(r, name), getattr(parts[0], name)), name)
    ctx.check(r.timestep is None, 'no timestep')
    ctx.check(r.time is None, 'no time')
    for p, k in zip(parts, keep):
        ctx.eq(p.coords, k, 'parts untouched')


def repeat(ctx, nt, opt):
    crys = ctx.mod('crys')
    st = make(ctx, 1, 'a', opt, dt=False)[0]
    tr = st.get_traj(nt) if nt else crys.struct2traj(st)
    nt = nt or 1
    ctx.check(tr.is_traj and tr.nstep == nt, 'nstep')
    for n in N3 + N2 + N1:
        v = getattr(st, n)
        if v is None:
            ctx.check(getattr(tr, n) is None, 'unset stays unset')
        else:
            ctx.eq(getattr(tr, n), [v] * nt, 'repeated ' + n)
    for n in CONST:
        ctx.check(same(getattr(tr, n), getattr(st, n)), n)
    ctx.check(crys.struct2traj(tr) is tr, 'a trajectory stays itself')


def copies(ctx, traj):
    crys = ctx.mod('crys')
    tr = make(ctx, 3)
    o = tr if traj else tr[1]
    c = o.copy()
    ctx.check(c.is_traj == traj, 'kind')
    names = N3 + N2 + (N1 + ONLY if traj else [])
    for n in N3 + N2 + N1 + (ONLY if traj else []):
        ctx.eq(getattr(c, n), getattr(o, n), 'equal ' + n)
    keep = {n: getattr(o, n).copy() for n in names}
    for n in names:
        a = getattr(c, n)
        a[...] = a + 1
    c.symbols[0] = 'O'
    c.order['X'] = 5
    c.nspecies['N'] = 9
    for n in names:
        ctx.eq(getattr(o, n), keep[n], 'independent ' + n)
    ctx.check(o.symbols[0] == 'N', 'independent symbols')
    ctx.check('X' not in o.order and o.nspecies['N'] == 1, 'independent dicts')
    if traj:
        ctx.eq(c.timestep, o.timestep, 'timestep')
        ctx.check(c.nstep == o.nstep, 'nstep')


def compress(ctx, copy, forget, traj):
    crys = ctx.mod('crys')
    tr = make(ctx, 3)
    o = tr if traj else tr[0]
    names = N3 + N2 + N1 + (ONLY if traj else [])
    keep = {n: getattr(o, n) for n in names}
    kw = {} if forget is None else dict(forget=list(forget))
    if copy is not None:
        kw['copy'] = copy
    r = crys.compress(o, **kw)
    gone = ['forces', 'stress', 'coords', 'cryst_const'] if forget is None \
        else forget
    for n in names:
        if n in gone:
            ctx.check(getattr(r, n) is None, 'forgotten ' + n)
        else:
            ctx.eq(getattr(r, n), keep[n], 'kept ' + n)
        if copy is not False:
            ctx.eq(getattr(o, n), keep[n], 'original keeps ' + n)
    for n in CONST:
        ctx.check((getattr(r, n) is None) if n in gone else
                  same(getattr(r, n), getattr(tr, n)), n)
    ctx.check((r is o) == (copy is False), 'in place or not')


def cases(tier):
    out = [Case('index', index)]
    sls = [slice(a, b, s) for a in (None, 0, 1, -2, -5) for b in (
        None, 2, 4, 5, -1) for s in (None, 1, 2, 3)]
    sls += [slice(None, None, -1), slice(3, 0, -2)]
    for k in range(0, len(sls), 13):
        out.append(Case('slices-%i' % k, slices, dict(sls=sls[k:k + 13])))
    for plan in ['nested', 'twice', 'next', 1, 2, 3]:
        out.append(Case('iter-%s' % plan, iterate, dict(plan=plan)))
    import itertools
    for k, plan in enumerate(itertools.product('ab', repeat=5)):
        out.append(Case('iter-%s' % ''.join(plan), iterate, dict(
            plan=''.join(plan))))
    subs = [s for r in range(4) for s in itertools.combinations(OPT, r)]
    n = 0
    for kinds in ('tt', 'ts', 'st', 'ss', 'stt'):
        for s1 in subs:
            for s2 in subs:
                n += 1
                if tier == 'quick' and n % 6:
                    continue
                o = (s1, s2) if len(kinds) == 2 else (s1, tuple(OPT), s2)
                out.append(Case('concat-%s-%i' % (kinds, n), concat, dict(
                    kinds=kinds, opts=o)))
    for a, b in (((), ('ekin',)), (('ekin',), ())):
        out.append(Case('concat-ekin-%s' % (a,), concat, dict(
            kinds='tt', opts=(a, b))))
    for nt in (None, 1, 3):
        for s in ((), ('forces',), tuple(OPT)):
            out.append(Case('repeat-%s-%i' % (nt, len(s)), repeat, dict(
                nt=nt, opt=s)))
    for traj in (False, True):
        out.append(Case('copy-%i' % traj, copies, dict(traj=traj)))
        for copy in (None, True, False):
            for fg in (None, ('coords',), ('symbols', 'stress'), ()):
                out.append(Case('compress-%i-%s-%s' % (traj, copy, fg),
                                compress, dict(copy=copy, forget=fg,
                                               traj=traj)))
    out += [Case('index-many', index, dict(nt=11)),
            Case('slices-many', slices, dict(nt=12, sls=[
                slice(2, 11, 4), slice(-11, None, 3), slice(10, None),
                slice(None, None, 10), slice(None, None, -1)])),
            Case('iter-many', iterate, dict(plan=9, nt=11)),
            Case('iter-many-twice', iterate, dict(plan='twice', nt=11))]
    out += [Case('concat-many', concat, dict(kinds='tsstsstsstst', opts=[
                ('etot', 'forces')] * 12)),
            Case('repeat-many', repeat, dict(nt=11, opt=('etot',)))]
    out += rescaled(
        out,
        ('concat-many', dict(ah=1e-07, af=1e-07, ae=1e-07, bh=1e-07, bf=1e-07, be=1e-07, ch=1e-07, cf=1e-07, ce=1e-07)))
    return out
