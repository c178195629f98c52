"""helpers: common, comb, base, decorators, timer"""
import gzip
import itertools
import os

from symx.run import Case

META = {
    'title': 'Text, sequence and attribute helpers do exactly what they '
    'document',
    'statement': 'common.toslice, tobool, ffloat turn every documented '
    'spelling (slices, on/yes/.true./1, Fortran exponents, any case) into the '
    'value it stands for and refuse others; frepr, str_arr, seq2str, str2seq '
    'keep order and value, and str_arr/fix_eps set to zero exactly the '
    'entries with |x| <= eps. flatten, is_seq, asseq, pop_from_list, '
    'nested_loops and unique2d return all their elements, in order, once. '
    'FlexibleGetters sets every attribute by its own getter whatever the '
    'order and the dependencies, runs no getter again once its value is set, '
    'treats None as not set, and slices raw arrays along the given axis; '
    'lazyprop evaluates once per object; open_and_close gives the same for a '
    'file name, a .gz name and a file object; backtick returns the standard '
    'output of a finished command, system waits for it, both refuse commands '
    'which complain (text on stderr, exit status); TagTimer reports the time '
    'between the last two calls for each tag.',
    'forall': 'all real arrays, tolerances and leaves of nested sequences; '
    'all orders, dependency graphs, spellings and clock readings within the '
    'bounds',
    'why': 'tests use one or two calls of each; the helpers carry every '
    'parser and writer of the package',
    'files': ['src/pwtools/common.py', 'src/pwtools/comb.py',
              'src/pwtools/base.py', 'src/pwtools/decorators.py',
              'src/pwtools/timer.py'],
    'mech': ['common.toslice', 'common.tobool', 'common.ffloat',
             'common.fix_eps', 'common.str_arr', 'common.flatten',
             'comb.nested_loops', 'comb.unique2d',
             'base.FlexibleGetters.try_set_attr',
             'base.FlexibleGetters.raw_slice_get', 'decorators.lazyprop',
             'decorators.open_and_close', 'timer.TagTimer'],
}
BOUNDS = {'quick': 'arrays up to 2x3; nesting depth 3; 4 attributes; 5 timer '
          'calls; unique2d up to 3x2', 'thorough': 'unique2d up to 4x2'}
OUTSIDE = ('number formats of print; '
           'getters which depend on themselves')
pj = os.path.join


def words(ctx, s, want, label, sep=None):
    w = s.split(sep)
    ctx.check(len(w) == len(want), label + ': count')
    for a, b in zip(w, want):
        ctx.eq(ctx.parse(a), b, label)


def slices(ctx):
    co = ctx.mod('common')
    a = ctx.choice('a', [None, 0, 2, -2])
    b = ctx.choice('b', [None, 0, 7, -1])
    c = ctx.choice('c', [None, 2, -1, 'no'])
    st = lambda v: '' if v is None else str(v)
    pad = ctx.choice('pad', ['', ' '])
    if c == 'no':
        t, w = '%s:%s' % (st(a), st(b)), slice(a, b)
    else:
        t, w = '%s:%s:%s' % (st(a), st(b), st(c)), slice(a, b, c)
    ctx.check(co.toslice(pad + t + pad) == w, 'slice')
    for k in (3, 0, -2):
        ctx.check(co.toslice(pad + str(k)) == k, 'integer')
    x = ctx.reals('x', 5, -9, 9)
    ctx.eq(x[co.toslice(t)], x[w], 'sliced array')
    for bad in (3, None, slice(1)):
        ctx.raises(AssertionError, lambda: co.toslice(bad), 'no string')


def bools(ctx):
    co = ctx.mod('common')
    for s, w in [(s, True) for s in ('.true.', 'true', 'on', 'yes', '1')] + [
            (s, False) for s in ('.false.', 'false', 'off', 'no', '0')]:
        for v in (s, s.upper(), s.title()):
            ctx.check(co.tobool(v) is w, 'string')
    ctx.check(co.tobool(True) is True and co.tobool(False) is False, 'bool')
    k = ctx.int('k', -9, 9)
    r = co.tobool(k)
    ctx.check(k != 0 if r else k == 0, 'integer')
    for bad in ('maybe', '2', '', 1.5, None, []):
        ctx.raises(Exception, lambda: co.tobool(bad), 'refused')


def ffl(ctx, kind):
    ctx.tokens_on(signed=True)
    co = ctx.mod('common')
    x = ctx.real('x', 0.5, 900)
    neg = ctx.choice('neg', [False, True])
    t = '%.16e' % (-x if neg else x)
    e = ctx.choice('exp', ['e', 'E', 'd', 'D'])
    t = t.replace('e', e)
    if kind == 'nosign':
        t = t.replace(e + '+', e)
    if e in 'dD' and kind == 'kind':
        t += ctx.choice('kind', ['_10', '_dp '])
    pad = ctx.choice('pad', ['', '  '])
    ctx.eq(co.ffloat(pad + t + pad), -x if neg else x, 'number')
    ctx.eq(co.ffloat('40.0d+02_10'), 4000, 'docs')
    ctx.eq(co.ffloat('  3.0D05'), 3e5, 'no sign')
    ctx.eq(co.ffloat('2.5d-1'), 0.25, 'minus')
    ctx.eq(co.ffloat('7'), 7, 'plain')
    ctx.eq(co.ffloat('1d+003'), 1000, 'three digits')
    ctx.eq(co.ffloat('25.D-002_8'), 0.25, 'three digits')
    ctx.check(0 < co.ffloat('1.d-105') * 1e99 * 1e6 < 1.1, 'small')
    for bad in ('abcd', 'xd', ''):
        ctx.raises(ValueError, lambda: co.ffloat(bad), 'refused')
    ctx.raises(AssertionError, lambda: co.ffloat(1.5), 'no string')


def texts(ctx):
    ctx.tokens_on(ints=True)
    co = ctx.mod('common')
    x = ctx.reals('x', 3, -9, 9)
    k = ctx.int('k', -9, 9)
    ctx.eq(ctx.parse(co.frepr(x[0])), x[0], 'frepr float')
    ctx.eq(ctx.parse(co.frepr(x[0], ffmt='%.15g')), x[0], 'frepr float')
    ctx.eq(ctx.parse(co.frepr(k)), k, 'frepr int')
    ctx.check(co.frepr('a b') == 'a b' and co.frepr(None) == 'None' and
              co.frepr([1]) == '[1]' and co.frepr(1) == '1' and
              co.frepr(0.5) == '%.16e' % 0.5, 'frepr')
    mk = ctx.choice('type', [list, tuple, ctx.np.array])
    seq = mk([v for v in x])
    sep = ctx.choice('sep', [None, ',', ' ; '])
    f = lambda v: '%.16e' % v
    s = co.seq2str(seq, func=f) if sep is None else co.seq2str(
        seq, func=f, sep=sep)
    words(ctx, s, x, 'seq2str', sep)
    ctx.check(co.tup2str((1, 2, 3)) == '1 2 3' and
              co.seq2str([1, 2], sep='x') == '1x2', 'integers')
    for fn, t in ((co.str2seq, list), (co.str2tup, tuple)):
        r = fn(s, func=ctx.parse) if sep is None else fn(
            s, func=ctx.parse, sep=sep)
        ctx.check(type(r) is t and len(r) == 3, 'type')
        ctx.eq(ctx.arr(list(r)), x, 'back')
        ctx.check(fn(' 3 1  2 ') == t([3, 1, 2]), 'integers back')
    d = {'a': x[0], 'b': 't'}
    o = co.dict2class(d, 'Foo')
    ctx.eq(o.a, x[0], 'class')
    ctx.check(o.b == 't' and type(o).__name__ == 'Foo' and
              sorted(o.__dict__) == ['a', 'b'], 'class')
    ls = co.dict2str({'a': 1, 'b': 't'}).split('\n')
    ctx.check(ls == ['a: 1', "b: 't'", ''], 'dict2str')
    ctx.check(co.fullpathjoin('/a', 'b', '..', 'c') == '/a/c' and
              co.fullpath('~/x') == pj(os.path.expanduser('~'), 'x') and
              co.fpj('/a', 'b') == '/a/b', 'paths')
    co.assert_cond(True, 'x')
    ctx.raises(AssertionError, lambda: co.assert_cond(False, 'x'), 'cond')
    import configparser
    c = co.add_to_config(configparser.ConfigParser(), {
        's1': {'a': '1', 'b': 'x y'}, 's2': {'a': '2'}})
    ctx.check({s: dict(c.items(s)) for s in c.sections()} == {
        's1': {'a': '1', 'b': 'x y'}, 's2': {'a': '2'}}, 'config')


def arrays(ctx, shape):
    """fix_eps, str_arr"""
    ctx.tokens_on(signed=True)
    co = ctx.mod('common')
    np = ctx.np
    a = ctx.reals('a', shape, -2, 2)
    eps = ctx.real('eps', 0.01, 1)
    for x in a.ravel():
        d = abs(x) - eps
        ctx.assume((d > 1e-3) | (d < -1e-3))
    a0 = a.copy()
    cp = ctx.choice('copy', [None, True, False])
    kw = {} if cp is None else {'copy': cp}
    b = a.copy()
    r = co.fix_eps(b, eps=eps, **kw)
    w = ctx.arr([x if abs(x) > eps else 0 for x in a.ravel()]).reshape(
        a.shape)
    ctx.eq(r, w, 'small is zero')
    ctx.eq(b, a0 if cp is not False else w, 'input')
    ctx.check((r is b) == (cp is False), 'same object')
    ctx.raises(AssertionError, lambda: co.fix_eps(b, eps=-1.0), 'eps')
    use = ctx.choice('eps', ['eps', 'off'])
    s = co.str_arr(a, eps=eps if use == 'eps' else -1.0)
    w = w if use == 'eps' else a0
    rows = s.split('\n')
    ctx.check(len(rows) == (1 if len(shape) == 1 else shape[0]), 'rows')
    for i, t in enumerate(rows):
        words(ctx, t, w if len(shape) == 1 else w[i], 'str_arr')
    s = co.str_arr([list(v) for v in a] if len(shape) == 2 else list(a),
                   fmt='%25.16e', delim=',', eps=-1.0)
    for i, t in enumerate(s.split('\n')):
        words(ctx, t, a if len(shape) == 1 else a[i], 'delim', ',')
    ctx.eq(a, a0, 'input as it was')
    ctx.check(co.str_arr(np.array([[1.5, -2.25], [0.125, 31.5]]),
                         fmt='%.4f', delim=';') ==
              '1.5000;-2.2500\n0.1250;31.5000' and
              co.str_arr([1.5, -2.25], fmt='%.1e') == '1.5e+00    -2.2e+00',
              'number format')
    ctx.raises(ValueError, lambda: co.str_arr(np.zeros((1, 1, 1))), 'rank')


def seqs(ctx):
    """nested sequences"""
    co = ctx.mod('common')
    np = ctx.np
    x = ctx.reals('x', 6, -9, 9)
    mk = [ctx.choice('t%i' % i, [list, tuple]) for i in range(3)]
    leaf = ctx.choice('leaf', ['abc', None, 7])
    n = [x[0], mk[0]([x[1], mk[1]([x[2], leaf]), mk[2]([])]), x[3:6]]
    f = co.flatten(n)
    ctx.check(len(f) == 7 and f[3] == leaf, 'length')
    ctx.eq(ctx.arr(f[:3] + f[4:]), x, 'order')
    g = list(co.iflatten(mk[0](n)))
    ctx.check(len(g) == 7 and g[3] == leaf, 'iflatten')
    ctx.eq(ctx.arr(g[:3] + g[4:]), x, 'iflatten')
    for s, w in (([1], True), ((), True), (np.array([1, 2]), True),
                 ('abc', False), (3, False), (1.5, False), (None, False),
                 ({'a': 1}, True), (iter([1]), True)):
        ctx.check(co.is_seq(s) is w, 'is_seq')
    ctx.check(co.is_seq(x) and not co.is_seq(x[0]), 'is_seq')
    fn = pj(ctx.scratch(), 'f')
    with open(fn, 'w') as fd:
        ctx.check(not co.is_seq(fd), 'file')
    ctx.check(co.asseq(3) == [3] and co.asseq('ab') == ['ab'] and
              co.asseq([1, 2]) == [1, 2] and co.asseq((1,)) == (1,) and
              co.asseq(None) == [None], 'asseq')
    k = ctx.choice('k', [0, 1, 2, 3])
    lst = ['a', ['b'], 'c', 'd', 'a']
    items = [[], ['a'], [['b'], 'd'], ['a', 'a', 'c']][k]
    w = [['a', ['b'], 'c', 'd', 'a'], [['b'], 'c', 'd', 'a'],
         ['a', 'c', 'a'], [['b'], 'd']][k]
    r = co.pop_from_list(lst, items)
    ctx.check(r == w and lst == ['a', ['b'], 'c', 'd', 'a'] and r is not lst,
              'pop_from_list')
    ctx.raises(ValueError, lambda: co.pop_from_list(lst, ['z']), 'not there')
    r = co.pop_from_list(lst, ['d'])
    r[1].append('q')
    ctx.check(lst == ['a', ['b'], 'c', 'd', 'a'], 'copy')


def shell(ctx):
    co = ctx.mod('common')
    d = ctx.scratch()
    for cmd, out in (("printf 'a b\\nc'", 'a b\nc'), ('true', ''),
                     ('echo x; false', 'x\n'), ('printf " " >&2; echo y',
                                                'y\n'),
                     ('cd %s && pwd | tail -c 2' % d, d[-1] + '\n')):
        ctx.check(co.backtick(cmd) == out, 'output of %r' % cmd)
    for cmd in ('echo x >&2', 'echo y; echo x >&2', 'echo x >&2; exit 0',
                '/no/such/program'):
        ctx.raises(Exception, lambda: co.backtick(cmd), 'text on stderr')
    fn = pj(d, 'f')
    co.system('printf ab > %s' % fn)
    ctx.check(co.file_read(fn) == 'ab', 'done when it returns')
    ctx.raises(Exception, lambda: co.system('exit 3'), 'failure')
    ctx.raises(NotImplementedError, lambda: co.system('true', wait=False),
               'wait')


def falsy(ctx):
    """zero, False and empty values are values"""
    base = ctx.mod('base')
    n = {'a': 0, 'b': 0, 'c': 0, 'd': 0, 'e': 0}
    vals = {'a': 0, 'b': False, 'c': [], 'd': '', 'e': None}

    class P(base.FlexibleGetters):
        pass
    for k in vals:
        def get(self, k=k):
            n[k] += 1
            return vals[k]
        setattr(P, 'get_' + k, get)
    p = P()
    ctx.check(not p.check_set_attr_lst(['e', 'a', 'b']), 'one is None')
    ctx.check(p.is_set_attr('a') and p.is_set_attr('b') and
              not p.is_set_attr('e'), 'all were tried')
    p.try_set_attr_lst(['c', 'd', 'a'])
    for k in 'abcd':
        ctx.check(p.is_set_attr(k) and p.check_set_attr(k), 'set ' + k)
        p.assert_set_attr(k)
        ctx.check(getattr(p, k) is vals[k] and p.get_return_attr(k) is
                  vals[k] and n[k] == 1, 'value ' + k)
    ctx.check(p.is_set_attr_lst(['a', 'b', 'c', 'd']) and
              not p.is_set_attr_lst(['a', 'e', 'b']), 'list')


def loops(ctx, n):
    """nested_loops"""
    cb = ctx.mod('comb')
    np = ctx.np
    x = ctx.reals('x', n[0], -9, 9)
    y = ['s%i' % i for i in range(n[1])]
    z = [ctx.real('z%i' % i, -9, 9) for i in range(n[1])]
    kind = ctx.choice('kind', ['list', 'tuple', 'array', 'iter'])
    a = {'list': list, 'tuple': tuple, 'array': lambda v: v, 'iter': iter}[
        kind](x)
    three = ctx.choice('three', [False, True])
    fl = ctx.choice('flatten', [False, True, None])
    lists = [a, zip(y, z)] + ([[1, 2]] if three else [])
    r = cb.nested_loops(lists) if fl is None else cb.nested_loops(
        lists, flatten=fl)
    w = list(itertools.product(range(n[0]), range(n[1]),
                               [1, 2] if three else [0]))
    ctx.check(isinstance(r, list) and len(r) == len(w), 'number')
    for e, (i, j, k) in zip(r, w):
        ctx.check(isinstance(e, list), 'list')
        if fl:
            ctx.check(len(e) == 3 + three, 'flat')
            p, q, s = e[0], e[1], e[2]
        else:
            ctx.check(len(e) == 2 + three and isinstance(e[1], list) and
                      len(e[1]) == 2, 'nested')
            p, (q, s) = e[0], e[1]
        ctx.eq(p, x[i], 'first')
        ctx.check(q == y[j], 'second')
        ctx.eq(s, z[j], 'second')
        if three:
            ctx.check(e[-1] == k, 'third')


def unique(ctx, n, m):
    """unique2d"""
    cb = ctx.mod('comb')
    np = ctx.np
    a = ctx.reals('a', (n, m), -3, 3)
    what = ctx.choice('what', [None, 'row', 'col', 'list'])
    # rows are equal or clearly different
    for i in range(n):
        for j in range(i):
            for k in range(m):
                d = a[i, k] - a[j, k]
                ctx.assume((d == 0) | (d > 0.1) | (d < -0.1))
    if what == 'col':
        r = cb.unique2d(a.T, 'col').T
    elif what == 'list':
        r = cb.unique2d([list(v) for v in a])
    else:
        r = cb.unique2d(a) if what is None else cb.unique2d(a, what)
    w = []
    for i in range(n):
        if not any(bool(ctx.np.all(a[i] == u)) for u in w):
            w.append(a[i])
    ctx.check(r.shape == (len(w), m), 'number of different rows')
    if r.shape == (len(w), m):
        ctx.eq(r, ctx.arr([list(v) for v in w]), 'rows in order')
    ctx.raises(ValueError, lambda: cb.unique2d(a, 'x'), 'what')


GRAPHS = [
    {'a': '', 'b': 'a', 'c': 'ab', 'd': 'c'},
    {'a': 'bcd', 'b': '', 'c': '', 'd': 'bc'},
    {'a': 'd', 'b': 'a', 'c': 'b', 'd': ''},
    {'a': '', 'b': '', 'c': 'd', 'd': 'ab'},
]


def getters(ctx, gi, form):
    """FlexibleGetters"""
    base = ctx.mod('base')
    np = ctx.np
    G = GRAPHS[gi]
    us = {'a': 'a', 'b': '_b', 'c': 'c', 'd': '_d'}
    x = {k: ctx.real('x' + k, 0.5, 9) for k in 'abcd'}
    none = ctx.choice('none', ['', 'a', 'd'])
    count = {k: 0 for k in 'abcd'}

    class P(base.FlexibleGetters):
        pass

    def make(k):
        def get(self):
            count[k] += 1
            dep = [us[y] for y in G[k]]
            if form == 'lst':
                ok = self.check_set_attr_lst(dep)
            elif form == 'one':
                ok = all([self.check_set_attr(y) for y in dep])
            elif form == 'try':
                self.try_set_attr_lst(dep)
                ok = self.is_set_attr_lst(dep)
            else:
                v = [self.get_return_attr(y) for y in dep]
                ok = None not in v
            if k == none or not ok:
                return None
            r = x[k]
            for y in G[k]:
                r = r * 2 + getattr(self, us[y])
            return r
        setattr(P, ('_get' if us[k].startswith('_') else 'get_') + us[k],
                get)
    for k in 'abcd':
        make(k)

    def val(k):
        if k == none:
            return None
        r = x[k]
        for y in G[k]:
            v = val(y)
            if v is None:
                return None
            r = r * 2 + v
        return r
    order = list(ctx.choice('order', ['abcd', 'dcba', 'cadb', 'bdac']))
    p = P()
    use = ctx.choice('use', ['all', 'arg', 'single', 'init'])
    pre = ctx.choice('preset', ['', 'b'])
    if use == 'init':
        p.set_attr_lst([us[k] for k in order])
        ctx.check(all(getattr(p, us[k]) is None for k in 'abcd'), 'None')
    elif use == 'all':
        p.attr_lst = [us[k] for k in order]
    if pre:
        p._b = x['b'] + 100
        G = dict(G, b='')
        x['b'] = x['b'] + 100
    if use in ('all', 'init'):
        p.set_all()
    elif use == 'arg':
        p.set_all([us[k] for k in order])
    else:
        for k in order:
            p.try_set_attr(us[k])
    for k in 'abcd':
        w = val(k) if not (k == 'b' and pre) else x['b']
        v = getattr(p, us[k])
        ctx.check((v is None) == (w is None), 'set or None')
        ctx.check(p.is_set_attr(us[k]) == (w is not None), 'is_set_attr')
        ctx.check(p.check_set_attr(us[k]) == (w is not None),
                  'check_set_attr')
        if w is None:
            ctx.raises(AssertionError, lambda: p.assert_attr(us[k]), 'assert')
            ctx.raises(AssertionError, lambda: p.assert_set_attr_lst(
                [us[k]]), 'assert')
        else:
            ctx.eq(v, w, 'value')
            p.assert_set_attr(us[k])
            p.assert_attr_lst([us[k]])
            ctx.check(count[k] == (0 if k == 'b' and pre else 1),
                      'getter ran once')
            ctx.eq(p.get_return_attr(us[k]), w, 'returned')
    ctx.check(p.is_set_attr_lst(['a', '_b', 'c', '_d']) ==
              all(val(k) is not None or k == 'b' and pre for k in 'abcd'),
              'is_set_attr_lst')
    ctx.check(not p.is_set_attr('nope'), 'no attribute')
    ctx.raises(AttributeError, lambda: p.try_set_attr('nope'), 'no getter')
    ctx.raises(AssertionError, lambda: p.is_set_attr_lst('ab'), 'string')


def raw(ctx, shape):
    base = ctx.mod('base')
    np = ctx.np
    a = ctx.reals('a', shape, -9, 9)
    n = [0]

    class P(base.FlexibleGetters):
        def _get_x_raw(self):
            n[0] += 1
            return a

        def _get_y_raw(self):
            return None
    p = P()
    ax = ctx.choice('axis', list(range(len(shape))))
    sl = ctx.choice('slice', [slice(None), slice(1, None), slice(None, None,
                                                               2), 0, -1])
    i = [slice(None)] * len(shape)
    i[ax] = sl
    w = a[tuple(i)]
    r = p.raw_slice_get('x', sl, ax)
    if w.ndim == 1 and len(w) == 1:
        w = w[0]
    ctx.check(np.shape(r) == np.shape(w), 'shape')
    ctx.eq(r, w, 'slice')
    ctx.eq(p.raw_return('x'), a, 'all')
    ctx.check(n[0] == 1, 'read once')
    ctx.check(p.raw_slice_get('y', sl, ax) is None and
              p.raw_return('y') is None, 'None')


def lazy(ctx):
    """lazyprop"""
    de = ctx.mod('decorators')
    n = [0]

    class A:
        def __init__(self, v):
            self.v = v

        @de.lazyprop
        def sq(self):
            n[0] += 1
            return self.v * self.v

        @de.lazyprop
        def cu(self):
            return self.sq * self.v

    class B(A):
        @de.lazyprop
        def sq(self):
            return self.v + 1
    x, y = ctx.reals('x', 2, -3, 3)
    a, b = A(x), A(y)
    first = ctx.choice('first', ['sq', 'cu'])
    for o, v in ((a, x), (b, y)):
        for k in [first, 'sq', 'cu', 'sq']:
            ctx.eq(getattr(o, k), v * v if k == 'sq' else v * v * v, k)
    ctx.check(n[0] == 2, 'once per object')
    a.v = x + 1
    ctx.eq(a.sq, x * x, 'not again')
    a.sq = y
    ctx.eq(a.sq, y, 'can be set')
    ctx.eq(b.sq, y * y, 'other object')
    c = B(x)
    ctx.eq(c.sq, x + 1, 'derived class')
    ctx.eq(c.cu, (x + 1) * x, 'derived class')
    ctx.check(A.sq is None, 'class')


def opened(ctx, gz):
    """open_and_close"""
    ctx.tokens_on()
    de, ai, co = ctx.mods('decorators', 'arrayio', 'common')
    np = ctx.np
    seen = []

    @de.open_and_close
    def first(fh, k, plus=0):
        seen.append(fh)
        return fh.read().split()[k] + 'x' * plus
    x = ctx.reals('x', (2, 3), -9, 9)
    t = '\n'.join(' '.join('%.16e' % v for v in r) for r in x) + '\n'
    fn = pj(ctx.scratch(), 'f.txt' + ('.gz' if gz else ''))
    if gz:
        with gzip.open(fn, 'wt') as fd:
            fd.write(t)
    else:
        co.file_write(fn, t)
        ctx.check(co.file_read(fn) == t and
                  co.file_readlines(fn) == t.splitlines(True), 'file')
    k = ctx.choice('k', [0, 4])
    ctx.check(first.__name__ == 'first', 'name')
    ctx.eq(ctx.parse(first(fn, k)), x[k // 3, k % 3], 'by name')
    ctx.check(seen[-1].closed, 'closed')
    ctx.check(first(fn, k, plus=2).endswith('xx'), 'keywords')
    with (gzip.open(fn, 'rt') if gz else open(fn)) as fd:
        ctx.eq(ctx.parse(first(fd, k)), x[k // 3, k % 3], 'by object')
        ctx.check(not fd.closed, 'stays open')
        ctx.check(seen[-1] is fd, 'same object')
    ctx.eq(ai.readtxt(fn, shape=(2, 3), axis=-1), x, 'readtxt')
    h = '# @@ [array]\n# @@ shape = 2 3\n# @@ axis = -1\n' if 0 else None
    ai.writetxt(pj(ctx.scratch(), 'g.txt'), x)
    s = co.file_read(pj(ctx.scratch(), 'g.txt'))
    if gz:
        with gzip.open(fn, 'wt') as fd:
            fd.write(s)
        ctx.eq(ai.readtxt(fn), x, 'readtxt with header')


def timer(ctx, seq):
    """TagTimer with a given clock"""
    ctx.tokens_on()
    tm = ctx.mod('timer')
    now = [ctx.real('t0', 1, 2)]
    n = [0]

    def clock():
        n[0] += 1
        now[0] = now[0] + ctx.real('d%i' % n[0], 0.5, 9)
        return now[0]
    with ctx.stand({'time.time': clock}):
        out = []
        t = tm.TagTimer()
        t.p = lambda m: out.append(m)
        st = {}
        for op, tag in seq:
            if op == 't':
                t.t(tag)
                v = st.get(tag, [])
                st[tag] = [now[0]] if len(v) == 2 else v + [now[0]]
            else:
                if tag not in st:
                    ctx.raises(ValueError, lambda: t.pt(tag), 'not started')
                    continue
                k = n[0]
                t.pt(tag, msg='msg')
                v = st[tag]
                ctx.check(n[0] - k == (1 if len(v) == 1 else 0), 'clock')
                if len(v) == 1:
                    v = st[tag] = v + [now[0]]
                w = out[-1].split()
                ctx.check(w[:3] == [tag + ':', 'msg', 'time:'], 'text')
                ctx.eq(ctx.parse(w[3]), v[1] - v[0], 'time')


def cases(tier):
    out = [Case('shell', shell), Case('falsy', falsy),
           Case('toslice', slices), Case('tobool', bools),
           Case('text', texts), Case('sequences', seqs)]
    for k in ('plain', 'nosign', 'kind'):
        out.append(Case('ffloat ' + k, ffl, dict(kind=k)))
    for s in ((1,), (2,), (1, 2), (2, 1), (1, 1)):
        out.append(Case('str_arr %s' % (s,), arrays, dict(shape=s)))
    for n in ((2, 2), (1, 3), (3, 1), (2, 0)):
        out.append(Case('nested_loops %s' % (n,), loops, dict(n=n)))
    for n, m in [(1, 2), (2, 1), (2, 2), (3, 1), (3, 2)] + (
            [(4, 1), (4, 2)] if tier == 'thorough' else []):
        out.append(Case('unique2d %i %i' % (n, m), unique, dict(n=n, m=m)))
    for g in range(len(GRAPHS)):
        for f in ('lst', 'one', 'try', 'ret'):
            out.append(Case('getters %i %s' % (g, f), getters,
                            dict(gi=g, form=f)))
    for s in ((3,), (2, 3), (2, 2, 2), (1, 2), (1, 1, 3)):
        out.append(Case('raw %s' % (s,), raw, dict(shape=s)))
    out.append(Case('lazyprop', lazy))
    for gz in (False, True):
        out.append(Case('open %s' % gz, opened, dict(gz=gz)))
    ops = [('t', 'a'), ('t', 'b'), ('pt', 'a'), ('pt', 'b')]
    seqs_ = [list(s) for s in itertools.product(ops, repeat=5)
             if s[-1][0] == 'pt']
    for i, s in enumerate(seqs_[:: 7 if tier == 'quick' else 1]):
        out.append(Case('timer ' + ' '.join(a + b for a, b in s), timer,
                        dict(seq=s)))
    return out
