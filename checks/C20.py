"""signal: pad_zeros, mirror, windows, smooth, odd, scale, find_peaks,
FIRFilter"""
import itertools
import math

from symx.run import Case, rescaled

META = {
    'title': 'Padding, windows, smoothing, peaks and filters are exact',
    'statement': 'Zero padding adds exactly the requested number of zeros '
    '(fixed number, up to a length, to the next power of two not below a '
    'minimum) at the requested end of the requested axis and leaves the data '
    'in place; mirroring reverses along that axis without doubling the '
    'origin. Welch, Lorentz and Gauss windows have their analytic values. '
    'Smoothing is the normalized convolution with mirrored or constant '
    'edges, of the shape of the data, along the named axis. Peak finding '
    'reports exactly the points above both neighbours and not below the threshold, refined to '
    'the maximum of the local spline; scaling maps onto [0,1]; FIR filters '
    'are causal convolutions whose pass and stop bands are those asked for.',
    'forall': 'all data, kernels, thresholds and widths; sizes and axes '
    'enumerated',
    'why': 'off-by-one shifts at edges, axis mix-ups and threshold errors '
    'only show for particular sizes, axes and values',
    'files': ['src/pwtools/signal.py'],
    'mech': ['padding @ signal.py:pad_zeros, mirror',
             'windows @ signal.py:welch, lorentz, gauss',
             'smooth @ signal.py:smooth, odd, scale',
             'peaks @ signal.py:find_peaks', 'filter @ signal.py:FIRFilter'],
}
BOUNDS = {'quick': 'arrays of rank 1-3 with up to 7 points along the axis, '
          'kernels of 1-9 points, windows of 0-8 points; all real values; '
          'filter designs: a fixed list'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'design quality of scipy filters, longer arrays'


def padn(ctx, sh, axis, where, kw):
    sig = ctx.mod('signal')
    np = ctx.np
    v = ctx.reals('v', sh, -3, 3)
    v0 = v.copy()
    k2 = dict(kw)
    if where is not None:
        k2['where'] = where
    if axis is not None:
        k2['axis'] = axis
    ax = axis or 0
    n = sh[ax]
    r = sig.pad_zeros(v, **k2)
    if kw.get('nadd') is not None:
        tot = n + kw['nadd']
    elif kw.get('upto') is not None:
        tot = kw['upto']
    elif kw.get('tonext'):
        tot = 1
        while tot < (kw.get('tonext_min') or n):
            tot *= 2
    else:
        tot = 2 * n
    want = list(sh)
    want[ax] = tot
    ctx.check(r.shape == tuple(want), 'shape')
    a = np.moveaxis(r, ax, 0)
    b = np.moveaxis(v0, ax, 0)
    if where == 'start':
        ctx.eq(a[tot - n:], b, 'data at the end')
        z = a[:tot - n]
    else:
        ctx.eq(a[:n], b, 'data at the start')
        z = a[n:]
    for x in z.ravel():
        ctx.check(x == 0, 'zeros')
    ctx.eq(v, v0, 'input kept')


def padbad(ctx):
    sig = ctx.mod('signal')
    v = ctx.reals('v', (3,), -3, 3)
    ctx.raises(AssertionError, lambda: sig.pad_zeros(v, nadd=1, upto=4),
               'two')
    ctx.raises(AssertionError, lambda: sig.pad_zeros(v, nadd=1, tonext=True),
               'two')
    ctx.raises(Exception, lambda: sig.pad_zeros(v, nadd=1, where='x'),
               'where')
    ctx.raises(AssertionError, lambda: sig.pad_zeros(
        v, tonext=True, tonext_min=2**29 + 1), 'size')
    ctx.raises(Exception, lambda: sig.smooth(v, v, edge='x'), 'edge')
    ctx.raises(AssertionError, lambda: sig.odd(3, add=2), 'odd')


def mirror(ctx, sh, axis):
    sig = ctx.mod('signal')
    np = ctx.np
    v = ctx.reals('v', sh, -3, 3)
    v0 = v.copy()
    r = sig.mirror(v) if axis is None else sig.mirror(v, axis=axis)
    ax = axis or 0
    n = sh[ax]
    want = list(sh)
    want[ax] = 2 * n - 1
    ctx.check(r.shape == tuple(want), 'shape')
    a = np.moveaxis(r, ax, 0)
    b = np.moveaxis(v0, ax, 0)
    for i in range(2 * n - 1):
        ctx.eq(a[i], b[abs(i - n + 1)], 'even around the origin')
    ctx.eq(v, v0, 'input kept')


def windows(ctx, m):
    sig = ctx.mod('signal')
    std = ctx.real('std', 0.2, 5)
    for sym in (None, True, False):
        w = sig.welch(m) if sym is None else sig.welch(m, sym=sym)
        q = sig.lorentz(m, std=std) if sym is None else \
            sig.lorentz(m, std=std, sym=sym)
        q1 = sig.cauchy(m) if sym is None else sig.cauchy(m, sym=sym)
        ctx.check(len(w) == len(q) == len(q1) == m, 'length')
        if m == 0:
            continue
        N = m if sym in (None, True) or m % 2 else m + 1
        if m == 1:
            ctx.eq([w[0], q[0], q1[0]], [1, 1, 1], 'single')
            continue
        for i in range(m):
            x = i - ctx.num(N - 1) / 2
            x0 = ctx.num(0) if N % 2 else ctx.num(1) / 2
            ctx.eq(w[i], 1 - (2 * x / (N - 1))**2, 'welch', atol=1e-12)
            ctx.eq(q[i] * (x * x + std * std), x0 * x0 + std * std,
                   'lorentz', tol=1e-9)
            ctx.eq(q1[i] * (x * x + 1), x0 * x0 + 1, 'lorentz, default',
                   tol=1e-9)


def gauss(ctx):
    sig = ctx.mod('signal')
    np = ctx.np
    x = ctx.reals('x', (3,), -3, 3)
    std = ctx.real('std', 0.5, 3)
    g = sig.gauss(x, std=std)
    for i in range(3):
        ctx.eq(g[i], np.exp(-(x[i] * x[i]) / (2 * std * std)), 'gauss',
               tol=1e-9)
    ctx.eq(sig.gauss(x), [np.exp(-(a * a) / 2) for a in x], 'default std',
           tol=1e-9)
    ctx.eq(sig.gauss(x, std, norm=False), g, 'default norm')
    n = sig.gauss(x, std=std, norm=True)
    for i in range(3):
        ctx.eq(n[i] * std * np.sqrt(2 * ctx.PI), g[i], 'normalized',
               tol=1e-9)
        ctx.check(n[i] > 0, 'positive')


def ext(v, i, edge):
    """value of the padded signal at index i"""
    n = len(v)
    if 0 <= i < n:
        return v[i]
    if edge == 'c':
        return v[0] if i < 0 else v[-1]
    j = -i if i < 0 else 2 * (n - 1) - i
    return v[j] if 0 <= j < n else 0


def conv(v, k, edge):
    n, m = len(v), len(k)
    c = (m - 1) // 2        # even kernels shift to the right
    return [sum(k[q] * ext(v, i + c - q, edge) for q in range(m))
            for i in range(n)]


def smooth(ctx, n, m, edge, norm, rank, axis, ints=False):
    sig = ctx.mod('signal')
    np = ctx.np
    sh = [2] * rank
    sh[axis] = n
    ks = [1] * rank
    ks[axis] = m
    v = ctx.ints('v', tuple(sh), -3, 3) if ints else \
        ctx.reals('v', tuple(sh), -3, 3)
    k = ctx.ints('k', (m,), 1, 3) if ints else ctx.reals('k', (m,), 0.1, 2)
    k2 = k.reshape(tuple(ks))
    v0, k0 = v.copy(), k2.copy()
    kw = {}
    if edge is not None:
        kw['edge'] = edge
    if norm is not None:
        kw['norm'] = norm
    if axis != 0:
        kw['axis'] = axis
    r = sig.smooth(v, k2, **kw)
    ctx.check(r.shape == v.shape, 'shape')
    s = sum(k) if norm in (None, True) else 1
    a, b = np.moveaxis(r, axis, -1), np.moveaxis(v0, axis, -1)
    for i in itertools.product(*[range(2)] * (rank - 1)):
        ref = conv(list(b[i]), list(k), edge or 'm')
        for x, y in zip(a[i], ref):
            ctx.eq(x * s, y, 'convolution', atol=1e-7)
    ctx.eq(v, v0, 'data kept')
    ctx.eq(k2, k0, 'kernel kept')


def scale(ctx, n, copy, ints=False):
    sig = ctx.mod('signal')
    ctx.lazy_extrema()
    v = ctx.ints('v', (n,), -3, 3) if ints else ctx.reals('v', (n,), -3, 3)
    v0 = v.copy()
    d = abs(v[0] - v[1])
    ctx.assume(d > 0.01 * ctx.unit('v'))
    r = sig.scale(v) if copy is None else sig.scale(v, copy=copy)
    mn, mx = v0.min(), v0.max()
    for i in range(n):
        ctx.eq(r[i] * (mx - mn), v0[i] - mn, 'scaled', atol=1e-9)
        ctx.check((r[i] >= -1e-9) & (r[i] <= 1 + 1e-9), 'range')
    if copy is not False:
        ctx.eq(v, v0, 'input kept')
    for i in range(-3, 8):
        ctx.check(sig.odd(i) == (i if i % 2 else i + 1), 'odd')
        ctx.check(sig.odd(i, add=-1) == (i if i % 2 else i - 1), 'odd')


def peaks(ctx, n, thr, flat=False):
    sig = ctx.mod('signal')
    y = ctx.reals('y', (n,), -3, 3)
    y0 = y.copy()
    tiny = 1e-6 * ctx.unit('y')
    for i in range(n - 1):
        if not flat:
            d = y[i + 1] - y[i]
            ctx.assume((d > tiny) | (d < -tiny))
    kw = {}
    if thr:
        t = ctx.real('t', -3, 3)
        for i in range(n if not flat else 0):
            ctx.assume((y[i] - t > 1e-6) | (y[i] - t < -1e-6))
        kw['ymin'] = t
    idx, pos = sig.find_peaks(y, **kw)
    ctx.check(pos is None, 'no positions')
    ref = [i for i in range(1, n - 1)
           if y0[i] > y0[i - 1] and y0[i] > y0[i + 1] and
           (not thr or y0[i] >= t)]
    ctx.check(list(idx) == ref, 'peaks')
    ctx.eq(y, y0, 'data kept')


def peakpos(ctx, h, k, p=3, n=7, free=False):
    """a parabola: maximum known exactly; free: the points which are more
    than spread away are anything lower than their neighbour there"""
    sig = ctx.mod('signal')
    m = ctx.real('m', (p - .375) * h, (p + .375) * h)
    a = ctx.real('a', 0.5, 2)
    b = ctx.real('b', -2, 2)
    x = ctx.arr([i * h for i in range(n)])
    y = ctx.arr([b - a * (v - m) * (v - m) for v in x])
    if free:
        spread = (k or {}).get('spread', 2)
        for i in range(p - spread - 1, -1, -1):
            y[i] = y[i + 1] - ctx.real('l%i' % i, 0.5, 2)
        for i in range(p + spread + 1, n):
            y[i] = y[i - 1] - ctx.real('u%i' % i, 0.5, 2)
    kw = {} if k is None else k
    idx, pos = sig.find_peaks(y, x, **kw)
    ctx.check(list(idx) == [p], 'index')
    ctx.eq(pos, [m], 'position', atol=1e-5)


DESIGN = [
    (dict(cutoff=2.0, nyq=10.0, ntaps=31), ((0, 1),), ((6, 10),)),
    (dict(cutoff=2.0, nyq=10.0, ntaps=31, mode='lowpass', window='hann'),
     ((0, 0.5),), ((6, 10),)),
    (dict(cutoff=2.0, nyq=10.0, ntaps=31, mode='highpass'),
     ((5, 10),), ((0, 0.2),)),
    (dict(cutoff=[3.0, 7.0], nyq=10.0, ntaps=41, mode='bandpass'),
     ((4.5, 5.5),), ((0, 1), (9, 10))),
    (dict(cutoff=[3.0, 7.0], nyq=10.0, ntaps=41, mode='bandstop'),
     ((0, 1), (9, 10)), ((4.8, 5.2),)),
    (dict(cutoff=[3.0, 7.0], nyq=10.0, ntaps=40, mode='bandstop'),
     ((0, 1), (9, 10)), ((4.8, 5.2),)),
    (dict(cutoff=2.0, nyq=10.0, ripple=40, width=1.5),
     ((0, 1),), ((3.2, 10),)),
    (dict(cutoff=[30.0, 70.0], nyq=100.0, ripple=40, width=15,
          mode='bandpass'), ((40, 60),), ((0, 20), (80, 100))),
    (dict(cutoff=[30.0, 70.0], nyq=100.0, ripple=40, width=15,
          mode='bandstop'), ((0, 20), (80, 100)), ((40, 60),)),
]


def fir(ctx, i):
    sig = ctx.mod('signal')
    np = ctx.np
    kw, pas, stop = DESIGN[i]
    f = sig.FIRFilter(**kw)
    taps = [float(t) for t in f.taps]
    ctx.check(len(taps) == f.ntaps, 'number of taps')
    if 'ntaps' in kw:
        ctx.check(f.ntaps == kw['ntaps'] + (kw.get('mode') == 'bandstop' and
                                            kw['ntaps'] % 2 == 0), 'taps')
    nyq = kw['nyq']
    n = len(f.h)
    ctx.check(n >= 100 and len(f.w) == n, 'response')
    w = [nyq * j / n for j in range(n)]
    for j in range(0, n, 37):
        d = f.w[j] - w[j]
        ctx.check((d < 1e-6 * nyq) & (d > -1e-6 * nyq), 'frequency axis')
        z = sum(t * complex(math.cos(math.pi * w[j] / nyq * q),
                            -math.sin(math.pi * w[j] / nyq * q))
                for q, t in enumerate(taps))
        ctx.check(abs(z - complex(f.h[j])) < 1e-8, 'response of the taps')
    for bands, lo, hi in ((pas, 0.94, 1.06), (stop, 0, 0.06)):
        for a, b in bands:
            g = [abs(complex(h)) for v, h in zip(w, f.h) if a <= v <= b]
            ctx.check(g and min(g) >= lo and max(g) <= hi, 'gain')
    x = ctx.reals('x', (5,), -3, 3)
    x0 = x.copy()
    y = f(x)
    ctx.eq(y, [sum(taps[k] * x0[n - k] for k in range(min(n + 1,
                                                          len(taps))))
               for n in range(5)], 'causal convolution', atol=1e-9)
    ctx.eq(x, x0, 'input kept')
    z = ctx.reals('z', (3, 2), -3, 3)
    a, b = f(z, axis=0), f(z)
    for c in range(2):
        ctx.eq(a[:, c], f(z[:, c]), 'axis 0', atol=1e-9)
    for c in range(3):
        ctx.eq(b[c], f(z[c]), 'last axis', atol=1e-9)
    kb = dict(kw, mode='x')
    ctx.raises(Exception, lambda: sig.FIRFilter(**kb), 'mode')


def cases(tier):
    out = [Case('refused', padbad), Case('gauss', gauss)]
    for sh in ((3,), (2, 3), (3, 2, 2), (5,)):
        for axis in [None] + list(range(-len(sh), len(sh))):
            n = sh[axis or 0]
            for where in (None, 'end', 'start'):
                for kw in ({}, {'nadd': 2}, {'nadd': 0}, {'upto': n + 1},
                           {'tonext': True}, {'tonext': False},
                           {'tonext': True, 'tonext_min': n + 3},
                           {'tonext': True, 'tonext_min': 8},
                           {'tonext': False, 'nadd': 1}):
                    if len(sh) == 3 and where is None and kw:
                        continue
                    out.append(Case('pad %s axis=%s where=%s %s' % (
                        sh, axis, where, kw), padn,
                        dict(sh=sh, axis=axis, where=where, kw=kw)))
            out.append(Case('mirror %s axis=%s' % (sh, axis), mirror,
                            dict(sh=sh, axis=axis)))
    for m in range(0, 9):
        out.append(Case('windows m=%i' % m, windows, dict(m=m)))
    for n in (1, 2, 3, 4, 5, 7):
        for m in (1, 2, 3, 4, 5, 6, 9):
            for edge in ('m', 'c'):
                out.append(Case('smooth n=%i m=%i %s' % (n, m, edge), smooth,
                                dict(n=n, m=m, edge=edge, norm=None, rank=1,
                                     axis=0)))
    for n, m, edge, norm, rank, axis in (
            (4, 3, None, None, 1, 0), (4, 3, None, False, 1, 0),
            (4, 4, 'c', True, 1, 0), (4, 2, 'c', False, 1, 0),
            (4, 3, 'm', None, 2, 0), (4, 3, 'm', None, 2, 1),
            (3, 4, 'c', None, 2, 1), (3, 5, 'c', None, 2, 0),
            (3, 3, 'm', None, 3, 0), (4, 3, 'c', None, 3, 1),
            (3, 5, 'm', None, 3, 2), (3, 3, 'c', None, 3, 2)):
        out.append(Case('smooth n=%i m=%i %s norm=%s rank=%i axis=%i' % (
            n, m, edge, norm, rank, axis), smooth,
            dict(n=n, m=m, edge=edge, norm=norm, rank=rank, axis=axis)))
    for n in (2, 3, 4):
        for c in (None, True, False):
            out.append(Case('scale n=%i copy=%s' % (n, c), scale,
                            dict(n=n, copy=c)))
    for n in (1, 2, 3, 4, 5):
        out.append(Case('peaks n=%i' % n, peaks, dict(n=n, thr=False)))
        if n > 2:
            out.append(Case('peaks n=%i ymin' % n, peaks,
                            dict(n=n, thr=True)))
    for n in (3, 4, 5):
        for thr in (False, True):
            out.append(Case('peaks n=%i flat ymin=%s' % (n, thr), peaks,
                            dict(n=n, thr=thr, flat=True),
                            ints=('y', 't')))
    for h in (0.5, 1.0):
        for k in (None, dict(k=2), dict(spread=3), dict(k=4, spread=3)):
            out.append(Case('peak position h=%s %s' % (h, k), peakpos,
                            dict(h=h, k=k)))
        for p in range(1, 6):
            out.append(Case('peak position h=%s at %i' % (h, p), peakpos,
                            dict(h=h, k=None, p=p, free=True)))
        out.append(Case('peak position h=%s spread 3' % h, peakpos,
                        dict(h=h, k=dict(spread=3), p=4, n=9, free=True)))
        out.append(Case('peak position h=%s k=2 spread 1' % h, peakpos,
                        dict(h=h, k=dict(spread=1, k=2), free=True)))
    for c in (None, False):
        out.append(Case('scale integers %s' % c, scale, dict(
            n=3, copy=c, ints=True)))
    for e in ('m', 'c'):
        out.append(Case('smooth integers %s' % e, smooth, dict(
            n=4, m=3, edge=e, norm=None, rank=1, axis=0, ints=True)))
    for i in range(len(DESIGN)):
        out.append(Case('filter %i' % i, fir, dict(i=i)))
    out += [Case('pad integers %s' % k, padn, dict(
                sh=(2, 3), axis=1, where='end', kw=k), ints=('v',))
            for k in ({'nadd': 2}, {'tonext': True})]
    out += [Case('mirror integers', mirror, dict(sh=(2, 3), axis=1),
                 ints=('v',))]
    out += [Case('pad many %s' % k, padn, dict(
                sh=(13,), axis=0, where='end', kw=k))
            for k in ({'nadd': 20}, {'tonext': True}, {'upto': 31})]
    out += [Case('mirror many', mirror, dict(sh=(12, 2), axis=0)),
            Case('windows m=20', windows, dict(m=20)),
            Case('scale many', scale, dict(n=6, copy=None))]
    out += [Case('smooth n=%i m=%i %s' % (n, m, edge), smooth, dict(
                n=n, m=m, edge=edge, norm=None, rank=1, axis=0))
            for n, m, edge in ((13, 5, 'm'), (13, 6, 'm'), (13, 11, 'c'))]
    out += rescaled(
        out,
        ("pad (3,) axis=None where=end {'nadd': 2}", dict(v=1e-09)),
        ('scale many', dict(v=1e-09)),
        ('peaks n=5', dict(y=1e-09)),
        ('smooth n=4 m=3 m', dict(v=1e-09)),
        ('smooth n=4 m=3 m', dict(k=1e-09)))
    return out
