"""OpenMP loops of the Fortran extension"""
import os

from symx import build, fortran
from symx.run import Case

META = {
    'title': 'Parallel Fortran loops give the sequential result',
    'statement': 'The parallel loops of the Fortran extension (velocity '
    'autocorrelation, squared distances, trajectory distances) return the '
    'same result for every number of threads and every schedule: no two '
    'iterations access the same shared memory location with one of them '
    'writing.',
    'forall': 'all interleavings of the threads, all array sizes',
    'over': ['schedules', 'inputs'],
    'why': 'a race only shows for particular timings, sizes and thread '
    'numbers; tests run few threads on small arrays',
    'files': ['src/_ext_src/flib.f90'],
    'mech': ['vacf @ flib.f90:vacf, vect_loops',
             'distances @ flib.f90:distsq, distances_traj'],
}
BOUNDS = {'quick': 'none on array sizes, iterations or threads: two symbolic '
          'iterations per pair of conflicting accesses'}
OUTSIDE = ('the OpenMP runtime and compiler; branch conditions are ignored, '
           'so a conflict is only reported when a replay with many threads '
           'shows a wrong result')


def replay():
    """Run the compiled loops with many threads; return what differs from
    the definition, or None."""
    build.prepare()
    import numpy as np
    from pwtools import _flib, num, pydos
    rng = np.random.RandomState(0)
    f = lambda *s: np.asfortranarray(rng.rand(*s) - 0.3)
    for nt, na in ((40, 9), (300, 5), (7, 40), (200, 30)):
        v, m = f(nt, na, 3), rng.rand(na) + 0.1
        for w in (None, m):
            ww = np.ones(na) if w is None else w
            ref = np.array([(v[:nt - t] * v[t:] * ww[None, :, None]).sum()
                            for t in range(nt)])
            ref /= ref[0]
            for meth in (1, 2):
                for rep in range(20):
                    c = np.zeros(nt)
                    r = _flib.vacf(v, m, c, meth, int(w is not None),
                                   1 + rep % 8)
                    if not np.allclose(r, ref, rtol=1e-7, atol=1e-9):
                        return 'vacf method %i' % meth
    for nx, ny in ((50, 60), (400, 3), (3, 400), (300, 300)):
        x, y = f(nx, 3), f(ny, 3)
        ref = ((x[:, None] - y[None])**2).sum(-1)
        for rep in range(20):
            r = _flib.distsq(x, y, np.zeros((nx, ny), order='F'))
            if not np.allclose(r, ref):
                return 'distsq'
    for nt, na in ((100, 10), (400, 4), (30, 60)):
        x = f(nt, na, 3)
        c = f(nt, 3, 3)
        for pbc in (0, 1):
            d = x[:, :, None] - x[:, None]
            if pbc:
                d = d - np.floor(d + 0.5)
            ref = np.sqrt((np.einsum('tijk,tkl->tijl', d, c)**2).sum(-1))
            for rep in range(20):
                r = _flib.distances_traj(x, c, pbc,
                                         np.zeros((nt, na, na), order='F'))
                if not np.allclose(r, ref):
                    return 'distances_traj'
    return None


def races(res, st, tier, seed):
    import time
    path = os.path.join(build.EXT, 'flib.f90')
    bad, n = [], 0
    t0 = time.time()
    for label, verdict, det in fortran.race_queries(path):
        n += 1
        st.queries += 1
        st.branches += 1
        fn = 'flib.f90:' + label.split(':')[0]
        if fn not in res['funcs']:
            res['funcs'].append(fn)
            st.paths += 1
        st.checks += 1
        if verdict == 'unsat':
            st.unsat += 1
            st.discharged += 1
            res['labels'][label] = res['labels'].get(label, 0) + 1
        elif verdict == 'sat':
            bad.append((label, det))
        else:
            res['inconclusive'].append('%s: %s' % (label, verdict))
    st.solver_s += time.time() - t0
    r = replay()
    if r is not None:
        res['violation'] = {
            'message': r + ': result depends on the schedule', 'values': {},
            'why': '; '.join('%s (%s)' % b for b in bad[:4])}
        return
    res['validated'] = 1
    for label, det in bad:
        res['inconclusive'].append('%s: conflict not reproduced: %s' % (
            label, det[:80]))




def cases(tier):
    return [Case('races', races, static=True)]
