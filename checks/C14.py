"""slicetake, sliceput, extend_array, sum"""
import itertools
from symx.run import Case, rescaled

META = {
    'title': 'Array slicing, extending and summing act on exactly the named axes',
    'statement': 'Taking a slice or index along an axis (or one slice per axis) '
    'gives exactly those elements, as a view unless a copy is asked for, and '
    'putting changes exactly the elements a take of the same slice would '
    'return and nothing else. Extending repeats the whole array along a new '
    'axis at the requested position. Summing over any set of axes (negative '
    'ones too) adds exactly the elements along these axes, or with keepdims '
    'along all other axes.',
    'forall': 'all array contents, slice bounds (also negative or out of '
    'range), strides, axes and axis sets',
    'why': 'wrong axis bookkeeping shows only for particular combinations of '
    'rank, axis sign and slice; a test fixes a few of them',
    'files': ['src/pwtools/num.py'],
    'mech': ['take @ num.py:slicetake', 'put @ num.py:sliceput',
             'extend @ num.py:extend_array', 'sum @ num.py:sum'],
}
BOUNDS = {'quick': 'arrays (3,2), (2,3,2); slice bounds in -4..4 or open, '
          'strides 1, 2, -1; 1-3 repetitions'
          '; larger single cases, 5 to 13 items long; '
          'some cases in other units (factors in their names)'}
OUTSIDE = 'rank above 3, fancy index arrays'


def rngslice(ctx, n):
    a = ctx.choice('start', [None] + list(range(-n, n + 1)))
    b = ctx.choice('stop', [None] + list(range(-n - 1, n + 2)))
    s = ctx.choice('step', [None, 2, -1])
    return slice(a, b, s)


def put_ref(shape, sl, axis):
    """indices selected, in order (as nested result positions)"""
    nd = len(shape)
    per = [list(range(n)) for n in shape]
    sls = [slice(None)] * nd
    if axis is None:
        sls = list(sl)
    else:
        sls[axis] = sl
    drop = []
    for k, s in enumerate(sls):
        if isinstance(s, slice):
            per[k] = list(range(shape[k]))[s]
        else:
            per[k] = [list(range(shape[k]))[s]]
            drop.append(k)
    return per, drop


def compare(ctx, a0, r, per, drop, label):
    shp = tuple(len(p) for k, p in enumerate(per) if k not in drop)
    ctx.check(tuple(r.shape) == shp, label + ' shape')
    for pos in itertools.product(*[range(len(p)) for p in per]):
        src = tuple(per[k][i] for k, i in enumerate(pos))
        dst = tuple(i for k, i in enumerate(pos) if k not in drop)
        ctx.eq(r[dst] if dst else r, a0[src], label)


def spec(ctx, shape, axis, kind):
    if kind == 'slice':
        return rngslice(ctx, shape[axis])
    if kind == 'int':
        return ctx.choice('i', list(range(-shape[axis], shape[axis])))
    # one slice per axis
    out = []
    for k, n in enumerate(shape):
        out.append(ctx.choice('s%i' % k, [
            slice(None), slice(1, None), slice(None, -1), slice(None, None, -1),
            slice(0, 1), 0, -1]))
    return out if kind == 'list' else tuple(out)


def take(ctx, shape, axis, kind, copy):
    num = ctx.mod('num')
    a = ctx.reals('a', shape, -2, 2)
    a0 = a.copy()
    sl = spec(ctx, shape, axis, kind)
    kw = {} if copy is None else {'copy': copy}
    if axis is not None:
        kw['axis'] = axis
    r = num.slicetake(a, sl, **kw)
    per, drop = put_ref(shape, sl, axis)
    compare(ctx, a0, r, per, drop, 'selected')
    if len(drop) < len(shape):
        r[...] = 7.5
        hit = set(itertools.product(*per)) if not copy else ()
        for i in itertools.product(*[range(n) for n in shape]):
            ctx.eq(a[i], 7.5 if i in hit else a0[i], 'view or copy')


def put(ctx, shape, axis, kind, what):
    num = ctx.mod('num')
    a = ctx.reals('a', shape, -2, 2)
    a0 = a.copy()
    sl = spec(ctx, shape, axis, kind)
    kw = {} if axis is None else {'axis': axis}
    per, drop = put_ref(shape, sl, axis)
    shp = tuple(len(p) for k, p in enumerate(per) if k not in drop)
    if what == 'scalar' or not shp:
        b = ctx.real('b', -2, 2)
    else:
        b = ctx.reals('b', shp, -2, 2)
    r = num.sliceput(a, b, sl, **kw)
    ctx.check(r is a, 'modifies and returns its input')
    want = {}
    for pos in itertools.product(*[range(len(p)) for p in per]):
        src = tuple(per[k][i] for k, i in enumerate(pos))
        dst = tuple(i for k, i in enumerate(pos) if k not in drop)
        want[src] = b if (what == 'scalar' or not shp) else b[dst]
    for i in itertools.product(*[range(n) for n in shape]):
        ctx.eq(a[i], want.get(i, a0[i]), 'put')


def extend(ctx, shape):
    num = ctx.mod('num')
    a = ctx.reals('a', shape, -2, 2)
    n = ctx.choice('n', [1, 2, 3])
    nd = len(shape)
    axis = ctx.choice('axis', [None] + list(range(-1, nd + 1)))
    r = num.extend_array(a, n) if axis is None else \
        num.extend_array(a, n, axis)
    ax = 0 if axis is None else (nd if axis == -1 else axis)
    want = list(shape)
    want.insert(ax, n)
    ctx.check(tuple(r.shape) == tuple(want), 'shape')
    for t in range(n):
        for i in itertools.product(*[range(m) for m in shape]):
            j = list(i)
            j.insert(ax, t)
            ctx.eq(r[tuple(j)], a[i], 'repeated')
    bad = ctx.choice('bad', [-2, nd + 1])
    ctx.raises(AssertionError, lambda: num.extend_array(a, n, bad), 'bounds')


def total(ctx, shape, naxes, form, keep):
    num = ctx.mod('num')
    a = ctx.reals('a', shape, -2, 2)
    a0 = a.copy()
    nd = len(shape)
    keep = keep[0] if keep else ctx.choice('keep', [None, False, True])
    axes = []
    for k in range(naxes):
        axes.append(ctx.choice('ax%i' % k, list(range(-nd, nd))))
    norm = [x % nd for x in axes]
    if len(set(norm)) != naxes:
        ctx.assume(False)
    arg = {'int': lambda: axes[0], 'tuple': lambda: tuple(axes),
           'list': lambda: list(axes), 'none': lambda: None}[form]()
    kw = {} if keep is None else {'keepdims': keep}
    if form == 'none':
        if keep:
            ctx.raises(Exception, lambda: num.sum(a, keepdims=True),
                       'keep nothing')
            return
        norm = list(range(nd))
        r = num.sum(a, **kw)
    else:
        r = num.sum(a, axis=arg, **kw)
    red = [k for k in range(nd) if (k in norm) != bool(keep)]
    left = [k for k in range(nd) if k not in red]
    shp = tuple(shape[k] for k in left)
    ctx.check(tuple(getattr(r, 'shape', ())) == shp, 'shape')
    for i in itertools.product(*[range(n) for n in shp]):
        s = 0
        for j in itertools.product(*[range(shape[k]) for k in red]):
            full = [0] * nd
            for k, v in zip(left, i):
                full[k] = v
            for k, v in zip(red, j):
                full[k] = v
            s = s + a0[tuple(full)]
        ctx.eq(r[i] if i else r, s, 'sum')
    ctx.eq(a, a0, 'input kept')
    ctx.raises(Exception, lambda: num.sum(a, axis='x'), 'illegal axis')


def cases(tier):
    out = []
    for axis in (0, 1, -1, -2):
        for copy in (None, True) if axis == 1 else (None,):
            out.append(Case('take axis=%i copy=%s' % (axis, copy), take,
                            dict(shape=(3, 2), axis=axis, kind='slice',
                                 copy=copy)))
        out.append(Case('put axis=%i' % axis, put, dict(
            shape=(3, 2), axis=axis, kind='slice', what='array')))
    for axis in (0, 1, 2, -1, -3):
        out.append(Case('take index axis=%i' % axis, take, dict(
            shape=(2, 3, 2), axis=axis, kind='int', copy=False)))
        out.append(Case('put index axis=%i' % axis, put, dict(
            shape=(2, 3, 2), axis=axis, kind='int', what='array')))
    for kind in ('tuple', 'list'):
        for copy in (False, True):
            out.append(Case('take %s copy=%s' % (kind, copy), take, dict(
                shape=(2, 3), axis=None, kind=kind, copy=copy)))
        for what in ('scalar', 'array'):
            out.append(Case('put %s %s' % (kind, what), put, dict(
                shape=(2, 3), axis=None, kind=kind, what=what)))
    for shape in ((3,), (2, 3), (2, 1, 3)):
        out.append(Case('extend %id' % len(shape), extend, dict(shape=shape)))
    for shape in ((2, 3), (2, 3, 2)):
        for n, form in ((0, 'none'), (1, 'int'), (1, 'tuple'), (2, 'tuple'),
                        (2, 'list'), (3, 'tuple')):
            for keep in (((None,), (False,), (True,)) if n == 3 else (None,)):
                if n <= len(shape):
                    out.append(Case('sum %id %s %i%s' % (
                        len(shape), form, n, ' %s' % keep[0] if keep else ''),
                        total, dict(shape=shape, naxes=n, form=form,
                                    keep=keep)))
    out += [Case('put integers', put, dict(
                shape=(3, 2), axis=0, kind='slice', what='array'), ints=('a', 'b')),
            Case('take integers', take, dict(
                shape=(3, 2), axis=1, kind='slice', copy=True), ints=('a',)),
            Case('extend integers', extend, dict(shape=(2, 3)), ints=('a',)),
            Case('sum integers', total, dict(
                shape=(2, 3, 2), naxes=2, form='tuple', keep=None), ints=('a',))]
    out += [Case('extend many', extend, dict(shape=(11, 2))),
            Case('sum many', total, dict(shape=(11, 2, 3), naxes=2,
                                         form='tuple', keep=None))]
    out += rescaled(
        out,
        ('put axis=0', dict(b=1e-09)),
        ('take axis=1 copy=True', dict(a=1e-09)),
        ('extend 2d', dict(a=1e-09)),
        ('sum many', dict(a=1e-09)),
        ('sum many', dict(a=1e+09)))
    return out
