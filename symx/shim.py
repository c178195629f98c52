"""Run pwtools sources on symbolic values: numpy/math/scipy stand-ins for
object arrays of `Sym`, AST rewriting of a few builtin calls, module loader."""
import ast
import builtins
import importlib
import itertools
import math as _math
import os
import sys
import types
from fractions import Fraction

import numpy as rnp

from . import core
from .core import Sym, SymC, SymBool, Unsupported, cur

REPO = os.environ.get('PWTOOLS_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'pwtools')


# ---------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------

class SymArr(rnp.ndarray):
    """ndarray of dtype object holding Sym; behaves like a float array."""
    __array_priority__ = 50

    def astype(self, t, *a, **k):
        return cast(self, t)

    @property
    def real(self):
        if self.dtype != object:
            return rnp.ndarray.real.__get__(self)
        return emap(lambda x: x.real if not isinstance(x, float) else x, self)

    @property
    def imag(self):
        if self.dtype != object:
            return rnp.ndarray.imag.__get__(self)
        return emap(lambda x: Sym.lift(x.imag), self)

    def conj(self):
        if self.dtype != object:
            return rnp.ndarray.conj(self)
        return emap(lambda x: x.conjugate(), self)
    conjugate = conj

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return NP.mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return NP.std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return NP.var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def round(self, decimals=0, out=None):
        return NP.round(self, decimals)

    def dot(self, b, out=None):
        return NP.dot(self, b)

    def clip(self, min=None, max=None, out=None, **k):
        r = NP.clip(self, min, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def any(self, *a, **k):
        return rnp.ndarray.any(self.astype(bool), *a, **k)

    def all(self, *a, **k):
        return rnp.ndarray.all(self.astype(bool), *a, **k)

    def nonzero(self):
        return NP.nonzero(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def item(self, *a):
        return rnp.ndarray.item(self, *a)

    def tofile(self, fid, sep='', format='%s'):
        if self.dtype == object:
            return tagged_float(self).tofile(fid, sep=sep, format=format)
        return rnp.ndarray.tofile(self.view(rnp.ndarray), fid, sep=sep,
                                  format=format)

    def tobytes(self, *a, **k):
        if self.dtype == object:
            return tagged_float(self).tobytes(*a, **k)
        return rnp.ndarray.tobytes(self, *a, **k)
    tostring = tobytes


INTOPS = frozenset((rnp.add, rnp.subtract, rnp.multiply, rnp.negative,
                    rnp.absolute, rnp.maximum, rnp.minimum, rnp.sign,
                    rnp.square, rnp.floor_divide, rnp.remainder,
                    rnp.positive))


class IntArr(SymArr):
    """symbolic array of an integer dtype: assigned values are truncated,
    in-place work with reals is refused"""

    def __array_ufunc__(self, uf, method, *ins, out=None, **kw):
        isint = all(isinstance(x, (IntArr, int, rnp.integer)) or
                    isinstance(x, rnp.ndarray) and x.dtype.kind in 'biu' or
                    isinstance(x, Sym) and cur().is_int(x.r)
                    for x in ins) and uf in INTOPS
        args = [x.view(SymArr) if isinstance(x, IntArr) else x for x in ins]
        if out is not None:
            if any(isinstance(o, IntArr) for o in out) and not isint:
                raise TypeError('Cannot cast ufunc %r output from float64 to '
                                'int64' % uf.__name__)
            kw['out'] = tuple(o.view(SymArr) if isinstance(o, IntArr) else o
                              for o in out)
            getattr(uf, method)(*args, **kw)
            return out[0] if len(out) == 1 else out
        r = getattr(uf, method)(*args, **kw)
        if isint and isinstance(r, SymArr) and r.dtype == object:
            r = r.view(IntArr)
        return r

    def __setitem__(self, k, v):
        if self.dtype == object and not isinstance(v, IntArr):
            if isinstance(v, (rnp.ndarray, list, tuple)):
                v = lift_arr(cast(asarr(v).view(SymArr), int))
            elif isinstance(v, Sym):
                v = cur().trunc(v)
            else:
                v = Sym.lift(int(v))
        SymArr.__setitem__(self, k, v)

    def astype(self, t, *a, **k):
        if dtkind(t) == 'i':
            return self.copy()
        return cast(self.view(SymArr), t)


class IntDT:
    """what .dtype of an IntArr is for the code under test"""
    kind = 'i'
    itemsize = 8
    name = 'int64'

    def __eq__(self, o):
        return dtkind(o) == 'i'

    def __hash__(self):
        return 7

    def __repr__(self):
        return "dtype('int64')"


INTDT = IntDT()


def sx_dtype(x):
    if isinstance(x, IntArr) and x.dtype == object:
        return INTDT
    return x.dtype


def tagged_float(a):
    """object array -> float array of tags (token mode)."""
    return rnp.array([float(x) for x in rnp.asarray(a).ravel()],
                     dtype=float).reshape(rnp.shape(a))


def untag_arr(a):
    a = rnp.asarray(a)
    if a.dtype.kind in 'fiu' and core.CTX is not None and core.CTX.tagnum:
        c = cur()
        out = rnp.empty(a.shape, dtype=object)
        hit = False
        for i in rnp.ndindex(*a.shape):
            v = c.untag(a[i])
            hit = hit or isinstance(v, Sym)
            out[i] = v
        if hit or a.dtype.kind == 'f':
            return lift_arr(out)
        return a
    if a.dtype.kind == 'f':
        return lift_arr(a)
    if a.dtype.kind in 'US' and a.ndim:
        return a.view(StrArr)
    return a


def is_sym(x):
    return isinstance(x, (Sym, SymC))


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymC, SymBool)):
        return True
    if isinstance(x, rnp.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def lift1(x):
    """lift a scalar to Sym/SymC; keep nan/inf floats, None and others"""
    if isinstance(x, (Sym, SymC)):
        return x
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (complex, rnp.complexfloating)):
        return SymC.lift(x)
    if isinstance(x, (str, bytes)):
        return x
    s = Sym.lift(x)
    return x if s is None else s


def lift_arr(a):
    a = rnp.asarray(a)
    if a.dtype.kind in 'biufcO':
        out = rnp.empty(a.shape, dtype=object)
        f = out.ravel() if out.ndim else None
        if a.ndim == 0:
            out[()] = lift1(a[()])
        else:
            src = a.ravel()
            for i in range(src.size):
                f[i] = lift1(src[i])
            out = f.reshape(a.shape)
        return out.view(SymArr)
    return a


def wrap(a):
    if isinstance(a, rnp.ndarray):
        if a.dtype == object and not isinstance(a, SymArr):
            return a.view(SymArr)
        return a
    if isinstance(a, tuple) and type(a) is tuple:
        return tuple(wrap(x) for x in a)
    if isinstance(a, list):
        return [wrap(x) for x in a]
    return a


def emap(f, a):
    a = rnp.asarray(a)
    out = rnp.empty(a.shape, dtype=object)
    for i in rnp.ndindex(*a.shape):
        out[i] = f(a[i])
    if a.ndim == 0:
        return out[()]
    return out.view(SymArr)


def all_const(a):
    for x in rnp.asarray(a).ravel():
        if isinstance(x, Sym):
            if not x.r.is_const():
                return False
        elif isinstance(x, (SymC, SymBool)):
            return False
    return True


def to_conc(x):
    """object array with constants only -> float array"""
    if isinstance(x, rnp.ndarray) and x.dtype == object:
        if all_const(x):
            return rnp.array([float(v) if isinstance(v, Sym) else v
                              for v in x.ravel()],
                             dtype=float).reshape(x.shape)
        raise Unsupported('symbolic array in a concrete-only routine')
    if isinstance(x, Sym):
        if x.r.is_const():
            c = x.r.const()
            return c if isinstance(c, int) else float(c)
        raise Unsupported('symbolic value in a concrete-only routine')
    if isinstance(x, (list, tuple)):
        return type(x)(to_conc(v) for v in x)
    return x


def cast_scalar(x, t):
    k = dtkind(t)
    if k == 'f' or k == 'c':
        return x
    if k == 'i':
        return cur().trunc(x)
    if k == 'b':
        return bool(x)
    return x


def dtkind(t):
    if t is None:
        return None
    if t is float or t is FloatT:
        return 'f'
    if t is int or t is IntT or t is INTDT:
        return 'i'
    if t is bool:
        return 'b'
    if t is complex:
        return 'c'
    if t is object:
        return 'O'
    if isinstance(t, types.FunctionType):
        return {'float64': 'f', 'float_': 'f', 'sx_float': 'f',
                'sx_int': 'i', 'sx_complex': 'c'}.get(t.__name__, 'f')
    return rnp.dtype(t).kind


class FloatT:
    pass


class IntT:
    pass


def cast(a, t):
    k = dtkind(t)
    if k in ('f', 'c'):
        return lift_arr(a) if a.dtype != object else \
            rnp.array(a, dtype=object).view(SymArr) if all(
                is_sym(x) for x in rnp.asarray(a).ravel()) else \
            emap_keep(parse_scalar, a)
    if k == 'O':
        return rnp.array(a, dtype=object).view(SymArr)
    if a.dtype != object:
        return rnp.asarray(a).astype(t)
    if k in 'iu':
        vals = [cur().trunc(x) if isinstance(x, Sym) else int(x)
                for x in a.ravel()]
        if all(isinstance(v, int) or v.r.is_const() for v in vals):
            return rnp.array([int(v) for v in vals],
                             dtype=int).reshape(a.shape)
        out = rnp.empty(len(vals), dtype=object)
        out[:] = [lift1(v) for v in vals]
        return out.reshape(a.shape).view(SymArr)
    if k == 'b':
        return rnp.array([bool(x) for x in a.ravel()],
                         dtype=bool).reshape(a.shape)
    return rnp.asarray(a).astype(t)


def emap_keep(f, a):
    r = emap(f, a)
    if not isinstance(r, rnp.ndarray):
        o = rnp.empty((), dtype=object)
        o[()] = r
        return o.view(SymArr)
    return r


def parse_scalar(x):
    if isinstance(x, (str, bytes)):
        v = float(x)
        return lift1(cur().untag(v))
    return lift1(x)


def mk(shape, fill, order='C'):
    out = rnp.empty(shape, dtype=object, order='F' if order == 'F' else 'C')
    out.fill(fill)
    return out.view(SymArr)


# ---------------------------------------------------------------------------
# numpy
# ---------------------------------------------------------------------------

def ufn(name):
    rf = getattr(rnp, name, None)
    meth = {'arccos': 'arccos', 'acos': 'arccos', 'abs': '__abs__',
            'absolute': '__abs__', 'fabs': '__abs__'}.get(name, name)

    def one(x):
        x = lift1(x)
        if isinstance(x, (Sym, SymC)):
            return getattr(x, meth)()
        return rf(x)

    def f(x, out=None, **kw):
        if isinstance(x, (Sym, SymC, int, float, rnp.number)):
            return one(x)
        a = asarr(x)
        r = emap(one, a)
        if out is not None:
            out[...] = r
            return out
        return r
    f.__name__ = name
    return f


def asarr(x):
    """any array-like -> ndarray (SymArr if it holds Sym)."""
    if isinstance(x, rnp.ndarray):
        return x
    if isinstance(x, (Sym, SymC)):
        o = rnp.empty((), dtype=object)
        o[()] = x
        return o.view(SymArr)
    if isinstance(x, (list, tuple)):
        if has_sym(x):
            return nested(x)
        return rnp.asarray(x)
    if isinstance(x, types.GeneratorType) or isinstance(x, (map, range)):
        return rnp.asarray(x)
    return rnp.asarray(x)


def nshape(x):
    if isinstance(x, rnp.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if not len(x):
            return (0,)
        s = {nshape(y) for y in x}
        if len(s) != 1:
            raise ValueError('inhomogeneous shape')
        return (len(x),) + s.pop()
    return ()


def nested(x):
    sh = nshape(x)
    out = rnp.empty(sh, dtype=object)

    def fill(idx, y):
        if len(idx) == len(sh):
            out[idx] = lift1(y[()] if isinstance(y, rnp.ndarray) else y)
        else:
            for i in range(len(y)):
                fill(idx + (i,), y[i])
    fill((), x)
    return out.view(SymArr)


NPTYPES = {FloatT: float, IntT: int}


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_over'] = {}
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        if name.startswith('__'):
            return getattr(rnp, name)
        o = self._over
        if name in o:
            v = o[name]
            if isinstance(getattr(rnp, name, None), rnp.ufunc):
                c = self._cache.get(name)
                if c is None or c.f is not v:
                    c = self._cache[name] = Ufn(v, getattr(rnp, name))
                return c
            return v
        if name == 'pi':
            return cur().PI
        if name == 'e':
            return cur().exp(Sym.lift(1))
        c = self._cache.get(name)
        if c is not None:
            return c
        v = getattr(rnp, name)
        if callable(v) and not isinstance(v, type):
            v = generic(v)
        if isinstance(getattr(rnp, name), rnp.ufunc):
            v = Ufn(v, getattr(rnp, name))
        self._cache[name] = v
        return v


class Ufn:
    """the methods of a ufunc"""

    def __init__(self, f, rf):
        self.f, self.rf = f, rf
        self.__name__ = rf.__name__
        self.nin, self.nout, self.nargs = rf.nin, rf.nout, rf.nargs
        self.identity = rf.identity

    def __call__(self, *a, **k):
        w = k.pop('where', True)
        out = k.pop('out', None)
        if isinstance(out, tuple) and self.nout == 1:
            out, = out
        if len(a) > self.nin:
            out = a[self.nin]
            a = a[:self.nin]
        if out is not None and self.nout == 1 and not any(
                has_sym(x) for x in (a + (out, w))):
            return self.rf(*a, out=out, where=w, **k)
        k.pop('casting', None)
        k.pop('subok', None)
        if k.get('dtype', float) in (None, float, FloatT):
            k.pop('dtype', None)
        r = self.f(*a, **k)
        if w is True and out is None:
            return r
        if w is True:
            out[...] = r
            return out
        w = cast(asarr(w), bool)
        if out is None:
            out = r.copy()
        for i in rnp.ndindex(*out.shape):
            if rnp.broadcast_to(w, out.shape)[i]:
                out[i] = rnp.broadcast_to(rnp.asarray(asarr(r)), out.shape)[i]
        return out

    def outer(self, a, b, **k):
        a, b = asarr(a), asarr(b)
        if not has_sym(a) and not has_sym(b):
            return self.rf.outer(a, b, **k)
        return self(a.reshape(a.shape + (1,) * b.ndim), b, **k)

    def _name(self):
        return {'add': 'sum', 'maximum': 'max', 'minimum': 'min',
                'logical_and': 'all', 'logical_or': 'any',
                'fmax': 'max', 'fmin': 'min'}.get(self.__name__)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False,
               initial=None, where=True):
        a = asarr(a)
        if not has_sym(a):
            k = {} if initial is None else {'initial': initial}
            return self.rf.reduce(rnp.asarray(a), axis=axis, out=out,
                                  keepdims=keepdims, where=where, **k)
        if where is not True or isinstance(axis, tuple):
            if where is True and self.__name__ in (
                    'add', 'multiply', 'maximum', 'minimum', 'logical_and',
                    'logical_or') and initial is None and out is None:
                for x in sorted((i % a.ndim for i in axis), reverse=True):
                    a = asarr(self.reduce(a, axis=x, keepdims=keepdims))
                return a if a.ndim else a[()]
            raise Unsupported('%s.reduce(where=, axis=tuple)' % self.__name__)
        if axis is None:
            if keepdims:
                raise Unsupported('%s.reduce(keepdims)' % self.__name__)
            a, axis = a.reshape(-1), 0
        b = rnp.moveaxis(a, axis, 0)
        if initial is not None:
            r, b = asarr(initial) + 0 * b[0], b
        elif len(b):
            r, b = b[0], b[1:]
        else:
            r = self.identity
        for x in b:
            r = self(r, x)
        if keepdims:
            r = rnp.expand_dims(asarr(r), axis)
        if out is not None:
            out[...] = r
            return out
        return r

    def accumulate(self, a, axis=0, dtype=None, out=None):
        a = asarr(a)
        if not has_sym(a):
            return self.rf.accumulate(rnp.asarray(a), axis=axis, out=out)
        b = rnp.moveaxis(a, axis, 0)
        r = []
        for x in b:
            r.append(self(r[-1], x) if r else x)
        r = rnp.moveaxis(O['array'](r), 0, axis) if r else a.copy()
        if out is not None:
            out[...] = r
            return out
        return r

    def at(self, a, idx, *b):
        if not has_sym(a) and not any(has_sym(x) for x in b):
            return self.rf.at(a, idx, *b)
        pos = rnp.arange(a.size).reshape(a.shape)[idx]
        b = [rnp.broadcast_to(rnp.asarray(asarr(x)), pos.shape) for x in b]
        for i in rnp.ndindex(*pos.shape):
            j = rnp.unravel_index(int(pos[i]), a.shape)
            a[j] = self(a[j], *[x[i] for x in b])

    def reduceat(self, a, idx, axis=0, **k):
        a = asarr(a)
        if not has_sym(a):
            return self.rf.reduceat(rnp.asarray(a), idx, axis=axis, **k)
        b = rnp.moveaxis(a, axis, 0)
        e = list(idx[1:]) + [len(b)]
        return rnp.moveaxis(O['array']([
            self.reduce(b[i:j]) if i < j else b[i]
            for i, j in zip(idx, e)]), 0, axis)


def generic(f):
    """Call the real function on object arrays; constants fall back to
    floats."""
    def g(*a, **k):
        sym = any(has_sym(x) for x in a) or any(has_sym(x)
                                                for x in k.values())
        if not sym:
            r = f(*a, **k)
            return r
        a2 = [asarr(x) if isinstance(x, (list, tuple)) and has_sym(x) and
              not any(isinstance(y, rnp.ndarray) for y in x) else x
              for x in a]
        try:
            return wrap(f(*a2, **k))
        except (TypeError, AttributeError, Unsupported,
                rnp.exceptions.DTypePromotionError):
            try:
                return f(*[to_conc(x) for x in a],
                         **{kk: to_conc(v) for kk, v in k.items()})
            except Unsupported:
                raise Unsupported('numpy function %s on symbolic data' %
                                  getattr(f, '__name__', f))
    g.__name__ = getattr(f, '__name__', 'f')
    g.__wrapped__ = f
    return g


NP = NumpyShim()
O = NP._over


def over(f, *names):
    for n in names or (f.__name__.strip('_'),):
        O[n] = f
    return f


for _n in ('sqrt cbrt cos sin tan exp expm1 log log10 log2 log1p sinh cosh '
           'tanh arccos arcsin arctan radians deg2rad degrees rad2deg floor '
           'ceil trunc rint square').split():
    O[_n] = ufn(_n)
for _n in ('acos', 'asin', 'atan'):
    O[_n] = O['arc' + _n[1:]]


def _emptyfill(kind):
    if kind == 'f':
        return float('nan')
    return None


@over
def empty(shape, dtype=float, order='C', **kw):
    k = dtkind(dtype)
    if dtype is INTDT:
        return mk(shape, Sym.lift(0), order).view(IntArr)
    if k in ('f', 'c'):
        return mk(shape, float('nan'), order)
    if k == 'O':
        return rnp.empty(shape, dtype=object, order=order).view(SymArr)
    r = rnp.zeros(shape, dtype=dtype, order=order)
    return r.view(StrArr) if r.dtype.kind in 'US' else r


class StrArr(rnp.ndarray):
    """string array; numbers are stored as text (token mode)"""
    def astype(self, dtype, *a, **k):
        d = dtkind(dtype)
        if d == 'f':
            return untag_arr(rnp.asarray(self).astype(float))
        return rnp.ndarray.astype(self, dtype, *a, **k)

    def __setitem__(self, k, v):
        if has_sym(v):
            if isinstance(v, rnp.ndarray):
                v = tagged_float(v).astype(self.dtype)
            else:
                v = str(v)
        rnp.ndarray.__setitem__(self, k, v)


@over
def zeros(shape, dtype=float, order='C', **kw):
    k = dtkind(dtype)
    if dtype is INTDT:
        return mk(shape, Sym.lift(0), order).view(IntArr)
    if k in ('f', 'c'):
        return mk(shape, Sym.lift(0), order)
    return rnp.zeros(shape, dtype=dtype, order=order)


@over
def ones(shape, dtype=float, order='C', **kw):
    k = dtkind(dtype)
    if dtype is INTDT:
        return mk(shape, Sym.lift(1), order).view(IntArr)
    if k in ('f', 'c'):
        return mk(shape, Sym.lift(1), order)
    return rnp.ones(shape, dtype=dtype, order=order)


@over
def full(shape, fill_value, dtype=None, **kw):
    if has_sym(fill_value) or dtkind(dtype) in ('f', 'c') or \
            isinstance(fill_value, float):
        out = mk(shape, Sym.lift(0))
        out[...] = lift_arr(fill_value) if not is_sym(fill_value) \
            else fill_value
        return out
    return rnp.full(shape, fill_value, dtype=dtype)


def _like(fn):
    def f(a, dtype=None, **kw):
        a = asarr(a)
        if dtype is None:
            dtype = INTDT if isinstance(a, IntArr) else \
                float if a.dtype == object else a.dtype
        return fn(kw.get('shape') or a.shape, dtype=dtype)
    return f


O['empty_like'] = _like(empty)
O['zeros_like'] = _like(zeros)
O['ones_like'] = _like(ones)


@over
def full_like(a, v, dtype=None, **kw):
    return full(asarr(a).shape, v, dtype=dtype)


@over
def identity(n, dtype=float, **kw):
    r = rnp.identity(n)
    return lift_arr(r) if dtkind(dtype) == 'f' else r.astype(dtype)


@over
def eye(N, M=None, k=0, dtype=float, **kw):
    r = rnp.eye(N, M, k)
    return lift_arr(r) if dtkind(dtype) == 'f' else r.astype(dtype)


def _array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False,
           like=None):
    k = dtkind(dtype)
    if isinstance(x, (map, range, types.GeneratorType)) and not \
            isinstance(x, types.GeneratorType):
        x = list(x)
    a = asarr(x)
    if a.dtype == object and not isinstance(a, SymArr):
        a = a.view(SymArr)
    if isinstance(a, IntArr) and (k is None or k == 'i'):
        if copy:
            a = a.copy()
        if ndmin and a.ndim < ndmin:
            a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
        return reorder(a, order)
    if isinstance(a, IntArr):
        a = a.view(SymArr)
        copy = True
    if k is None:
        if a.dtype.kind in 'fc':
            a = untag_arr(a) if a.dtype.kind == 'f' else lift_arr(a)
        elif a.dtype == object:
            a = rnp.array(a, dtype=object).view(SymArr) if copy else a
        else:
            a = rnp.array(a) if copy else a
    elif k in ('f', 'c'):
        if a.dtype.kind in 'SU':
            a = untag_arr(rnp.asarray(a).astype(float))
        elif a.dtype == object:
            if all(is_sym(v) for v in rnp.asarray(a).ravel()):
                a = rnp.array(a, dtype=object).view(SymArr) if copy else a
            else:
                a = emap_keep(parse_scalar, a)
        else:
            a = lift_arr(a)
    else:
        if a.dtype == object:
            a = cast(a, dtype)
        else:
            a = rnp.array(a, dtype=dtype)
    if ndmin and a.ndim < ndmin:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    if a.dtype.kind in 'US' and a.ndim:
        a = a.view(StrArr)
    return reorder(a, order)


def reorder(a, order):
    if order == 'F' and not a.flags.f_contiguous:
        b = rnp.empty(a.shape, dtype=a.dtype, order='F')
        b[...] = a
        return b.view(type(a))
    if order == 'C' and not a.flags.c_contiguous:
        return rnp.ascontiguousarray(a).view(type(a))
    return a


O['array'] = _array


def _asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, IntArr) and x.dtype == object:
        return _array(x, dtype=dtype, copy=False, order=order)
    if isinstance(x, SymArr) and dtkind(dtype) in (None, 'f', 'c', 'O') and \
            x.dtype == object:
        return reorder(x, order)
    if isinstance(x, rnp.ndarray) and x.dtype != object and (
            dtype is None or rnp.dtype(
                NPTYPES.get(dtype, dtype)) == x.dtype):
        return x
    return _array(x, dtype=dtype, copy=False, order=order)


for _n in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray',
           'asfarray', 'require'):
    O[_n] = _asarray


@over
def atleast_1d(*xs):
    r = [asarr(x) for x in xs]
    r = [wrap(x.reshape(1) if x.ndim == 0 else x) for x in r]
    return r[0] if len(r) == 1 else r


@over
def atleast_2d(*xs):
    r = [asarr(x) for x in xs]
    r = [wrap(x.reshape(1, 1) if x.ndim == 0 else
              (x[None, :] if x.ndim == 1 else x)) for x in r]
    return r[0] if len(r) == 1 else r


@over
def atleast_3d(*xs):
    return wrap(rnp.atleast_3d(*[asarr(x) for x in xs]))


@over
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0):
    num = int(num)
    div = num - 1 if endpoint else num
    start = lift_arr(asarr(start)) if not is_sym(start) else start
    stop = lift_arr(asarr(stop)) if not is_sym(stop) else stop
    if isinstance(start, rnp.ndarray) and start.ndim == 0:
        start = start[()]
    if isinstance(stop, rnp.ndarray) and stop.ndim == 0:
        stop = stop[()]
    vals = []
    step = (stop - start) / div if div > 0 else float('nan')
    for i in range(num):
        vals.append(start + i * (stop - start) / div if div > 0 else start)
    out = nested(vals) if vals else mk((0,), Sym.lift(0))
    return (out, step) if retstep else out


@over
def arange(*args, **kw):
    if any(has_sym(a) for a in args) or \
            any(isinstance(a, float) for a in args):
        args = [lift1(a) for a in args]
        start, step = Sym.lift(0), Sym.lift(1)
        if len(args) == 1:
            stop = args[0]
        else:
            start, stop = args[:2]
            if len(args) > 2:
                step = args[2]
        n = (stop - start) / step
        n = int(-(cur().floor(-n)))
        vals = [start + i * step for i in range(max(0, n))]
        if not vals:
            return mk((0,), Sym.lift(0))
        if all(v.r.is_const() and isinstance(v.r.const(), int) for v in vals) \
                and not any(isinstance(a, float) for a in args):
            return rnp.array([v.r.const() for v in vals])
        return nested(vals)
    k = kw.get('dtype')
    r = rnp.arange(*args, **kw)
    return lift_arr(r) if r.dtype.kind == 'f' else r


@over
def meshgrid(*xi, **kw):
    xs = [asarr(x) for x in xi]
    return wrap(rnp.meshgrid(*xs, **kw))


def _lifted(x):
    a = asarr(x)
    return a


@over
def dot(a, b, out=None):
    a, b = _lifted(a), _lifted(b)
    if a.dtype == object or b.dtype == object:
        a = lift_arr(a) if a.dtype != object else a
        b = lift_arr(b) if b.dtype != object else b
        if a.ndim == 0 or b.ndim == 0:
            return a * b
        if a.shape[-1] != b.shape[-2 if b.ndim > 1 else 0]:
            raise ValueError('shapes %s and %s not aligned' % (a.shape,
                                                               b.shape))
    r = rnp.dot(a.view(rnp.ndarray), b.view(rnp.ndarray))
    r = wrap(r)
    if out is not None:
        out[...] = r
        return out
    return r


@over
def matmul(a, b, **kw):
    a, b = _lifted(a), _lifted(b)
    return wrap(rnp.matmul(rnp.asarray(a), rnp.asarray(b)))


@over
def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        al = 'abcdefghijklmnopqrstuvwxyz'
        a = (spec,) + ops
        ops = a[0:len(a) // 2 * 2:2]
        sub = [''.join('...' if i is Ellipsis else al[i] for i in v)
               for v in a[1::2]]
        spec = ','.join(sub)
        if len(a) % 2:
            spec += '->' + ''.join('...' if i is Ellipsis else al[i]
                                   for i in a[-1])
    ops = [rnp.asarray(asarr(o)) for o in ops]
    ops = [o if o.dtype != object else o for o in ops]
    if any(o.dtype == object for o in ops):
        return einsum_obj(spec, ops)
    return rnp.einsum(spec, *ops)


def einsum_obj(spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = ''.join(sorted(c for c in set(ins.replace(',', ''))
                             if ins.count(c) == 1 and c != '.'))
        if '...' in ins:
            out = '...' + out
    ins = ins.split(',')
    if '...' in spec:
        free = [c for c in 'ZYXWVU']
        nd = max(o.ndim - len(i.replace('...', ''))
                 for i, o in zip(ins, ops))
        el = ''.join(free[:nd])
        ins2 = []
        for i, o in zip(ins, ops):
            if '...' in i:
                m = o.ndim - len(i.replace('...', ''))
                ins2.append(i.replace('...', el[nd - m:]))
            else:
                ins2.append(i)
        ins = ins2
        out = out.replace('...', el)
    dims = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError('einsum operand')
        for c, n in zip(i, o.shape):
            if dims.get(c, n) != n:
                if 1 in (dims[c], n):
                    raise Unsupported('einsum broadcast')
                raise ValueError('einsum dims')
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = rnp.empty([dims[c] for c in out], dtype=object)
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        tot = Sym.lift(0)
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = None
            for i, o in zip(ins, ops):
                v = o[tuple(env[c] for c in i)]
                t = v if t is None else t * v
            tot = tot + t
        res[oi] = tot
    return wrap(res) if res.ndim else res[()]


@over
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asarr(a), asarr(b)
    if a.dtype != object and b.dtype != object:
        return rnp.cross(a, b, axisa, axisb, axisc, axis)
    if axis is not None:
        axisa = axisb = axisc = axis
    a = rnp.moveaxis(rnp.asarray(a), axisa, -1)
    b = rnp.moveaxis(rnp.asarray(b), axisb, -1)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported('cross of non-3-vectors')
    a, b = rnp.broadcast_arrays(a, b)
    out = rnp.empty(a.shape, dtype=object)
    out[..., 0] = a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]
    out[..., 1] = a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2]
    out[..., 2] = a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return wrap(rnp.moveaxis(out, -1, axisc))


@over
def abs_(x):
    if is_sym(x):
        return abs(x)
    a = asarr(x)
    if a.dtype == object:
        return emap(abs, a)
    return rnp.abs(a)


O['abs'] = O['absolute'] = O['fabs'] = abs_
O.pop('abs_', None)


@over
def sign(x):
    if is_sym(x):
        return x.sign()
    a = asarr(x)
    if a.dtype == object:
        return emap(lambda v: lift1(v).sign(), a)
    return rnp.sign(a)


@over
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarr(a)
    if a.dtype != object:
        r = rnp.mean(rnp.asarray(a), axis=axis, keepdims=keepdims)
        return lift1(r) if rnp.ndim(r) == 0 else lift_arr(r)
    s = rnp.sum(rnp.asarray(a), axis=axis, keepdims=keepdims)
    if axis is None:
        n = a.size
    else:
        ax = axis if isinstance(axis, tuple) else (axis,)
        n = 1
        for x in ax:
            n *= a.shape[x]
    return wrap(s / n) if isinstance(s, rnp.ndarray) else s / Sym.lift(n)


@over
def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return mean(a, axis=axis)
    a, w = asarr(a), asarr(weights)
    if w.ndim != a.ndim:
        sh = [1] * a.ndim
        sh[axis] = len(w)
        w = w.reshape(sh)
    s = rnp.sum(rnp.asarray(a * w), axis=axis)
    n = rnp.sum(rnp.broadcast_to(rnp.asarray(w), a.shape), axis=axis)
    return wrap(s / n)


@over
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = asarr(a)
    if a.dtype != object:
        a = lift_arr(a)
    m = mean(a, axis=axis, keepdims=True)
    d = a - m
    d = rnp.asarray(d * (d.conj() if any(isinstance(x, SymC)
                                         for x in d.ravel()) else d))
    s = rnp.sum(d, axis=axis, keepdims=keepdims)
    if axis is None:
        n = a.size
    else:
        n = 1
        for x in (axis if isinstance(axis, tuple) else (axis,)):
            n *= a.shape[x]
    return wrap(s / Sym.lift(n - ddof))


@over
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return O['sqrt'](var(a, axis=axis, ddof=ddof, keepdims=keepdims))


@over
def round(a, decimals=0, out=None):
    if is_sym(a):
        return cur().round_(a, decimals)
    a = asarr(a)
    if a.dtype == object:
        return emap(lambda v: cur().round_(lift1(v), decimals), a)
    return rnp.round(a, decimals)


O['around'] = O['round_'] = round


@over
def clip(a, a_min=None, a_max=None, out=None, **kw):
    a = asarr(a)
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    if a.dtype != object and not has_sym(a_min) and not has_sym(a_max):
        return rnp.clip(a, a_min, a_max)

    def f(x):
        if a_min is not None and x < a_min:
            x = lift1(a_min)
        if a_max is not None and x > a_max:
            x = lift1(a_max)
        return x
    return emap(f, a)


@over
def isnan(x):
    a = asarr(x)
    if a.dtype == object:
        r = rnp.array([isinstance(v, (float, rnp.floating)) and v != v
                       for v in a.ravel()], dtype=bool).reshape(a.shape)
        return r if a.ndim else bool(r)
    return rnp.isnan(a)


@over
def isfinite(x):
    a = asarr(x)
    if a.dtype == object:
        r = rnp.array([is_sym(v) or _math.isfinite(v)
                       for v in a.ravel()], dtype=bool).reshape(a.shape)
        return r if a.ndim else bool(r)
    return rnp.isfinite(a)


@over
def isinf(x):
    a = asarr(x)
    if a.dtype == object:
        r = rnp.array([(not is_sym(v)) and _math.isinf(v)
                       for v in a.ravel()], dtype=bool).reshape(a.shape)
        return r if a.ndim else bool(r)
    return rnp.isinf(a)


def _close(x, y, rtol, atol):
    x, y = lift1(x), lift1(y)
    if not (is_sym(x) and is_sym(y)):
        return bool(rnp.isclose(x, y)) if not (is_sym(x) or is_sym(y)) \
            else False
    if isinstance(x, SymC) or isinstance(y, SymC):
        x, y = SymC.lift(x), SymC.lift(y)
        return _close(x.re, y.re, rtol, atol) and \
            _close(x.im, y.im, rtol, atol)
    d = x - y
    if not d.r.num:
        return True
    c = cur()
    tol = atol + rtol * c.abs_r(y)
    return bool((d <= tol) & (-d <= tol))


@over
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.dtype != object and b.dtype != object:
        return rnp.isclose(a, b, rtol=rtol, atol=atol)
    a, b = rnp.broadcast_arrays(rnp.asarray(a), rnp.asarray(b))
    r = rnp.array([_close(x, y, rtol, atol) for x, y in
                   zip(a.ravel(), b.ravel())], dtype=bool).reshape(a.shape)
    return r if r.ndim else bool(r)


@over
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(rnp.all(isclose(a, b, rtol, atol)))


@over
def array_equal(a, b, **kw):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


@over
def where(c, *xy):
    c = asarr(c)
    if c.dtype == object:
        c = cast(c, bool)
    if not xy:
        return rnp.where(c)
    x, y = [asarr(v) for v in xy]
    if x.dtype == object or y.dtype == object:
        x = lift_arr(x) if x.dtype != object else x
        y = lift_arr(y) if y.dtype != object else y
    elif x.dtype.kind == 'f' or y.dtype.kind == 'f':
        x, y = lift_arr(x), lift_arr(y)
    return wrap(rnp.where(c, rnp.asarray(x), rnp.asarray(y)))


@over
def nonzero(a):
    a = asarr(a)
    if a.dtype == object:
        a = cast(a, bool)
    return rnp.nonzero(rnp.asarray(a))


@over
def flatnonzero(a):
    return nonzero(asarr(a).ravel())[0]


@over
def argwhere(a):
    return rnp.argwhere(cast(asarr(a), bool) if asarr(a).dtype == object
                        else a)


@over
def count_nonzero(a, **kw):
    a = asarr(a)
    return rnp.count_nonzero(cast(a, bool) if a.dtype == object else a, **kw)


def _logical(op):
    def f(a, b):
        a, b = asarr(a), asarr(b)
        a = cast(a, bool) if a.dtype == object else a
        b = cast(b, bool) if b.dtype == object else b
        return op(a, b)
    return f


O['logical_and'] = _logical(rnp.logical_and)
O['logical_or'] = _logical(rnp.logical_or)


@over
def any_(a, axis=None, **kw):
    a = asarr(a)
    return rnp.any(cast(a, bool) if a.dtype == object else a, axis=axis, **kw)


@over
def all_(a, axis=None, **kw):
    a = asarr(a)
    return rnp.all(cast(a, bool) if a.dtype == object else a, axis=axis, **kw)


O['any'] = any_
O['all'] = all_


@over
def diff(a, n=1, axis=-1, **kw):
    a = asarr(a)
    if a.dtype != object:
        return rnp.diff(a, n=n, axis=axis, **kw)
    for w in ('prepend', 'append'):
        if kw.get(w) is not None:
            v = asarr(kw[w])
            if v.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                v = rnp.broadcast_to(v, sh)
            a = O['concatenate']([v, a] if w == 'prepend' else [a, v],
                                 axis=axis)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return wrap(a)


@over
def gradient(f, *varargs, axis=None, **kw):
    f = asarr(f)
    if f.ndim > 1 and isinstance(axis, int):
        b = rnp.moveaxis(rnp.asarray(lift_arr(f)), axis, -1)
        r = rnp.empty(b.shape, dtype=object)
        for i in rnp.ndindex(*b.shape[:-1]):
            r[i] = gradient(b[i].view(SymArr), *varargs, **kw)
        return wrap(rnp.moveaxis(r, -1, axis))
    if f.ndim != 1:
        raise Unsupported('gradient')
    h = varargs[0] if varargs else Sym.lift(1)
    n = len(f)
    out = mk((n,), Sym.lift(0))
    if isinstance(h, rnp.ndarray) and h.ndim:
        x = h
        for i in range(1, n - 1):
            hd, hs = x[i + 1] - x[i], x[i] - x[i - 1]
            out[i] = (hs * hs * f[i + 1] + (hd * hd - hs * hs) * f[i] -
                      hd * hd * f[i - 1]) / (hs * hd * (hd + hs))
        out[0] = (f[1] - f[0]) / (x[1] - x[0])
        out[-1] = (f[-1] - f[-2]) / (x[-1] - x[-2])
        return out
    for i in range(1, n - 1):
        out[i] = (f[i + 1] - f[i - 1]) / (2 * h)
    out[0] = (f[1] - f[0]) / h
    out[-1] = (f[-1] - f[-2]) / h
    return out


def _minmax(op):
    def f(a, axis=None, out=None, keepdims=False, initial=None, **kw):
        a = asarr(a)
        if a.dtype != object and not has_sym(initial):
            if initial is not None:
                kw['initial'] = initial
            return (rnp.max if op == 'max' else rnp.min)(
                rnp.asarray(a), axis=axis, out=out, keepdims=keepdims, **kw)
        a = lift_arr(a)
        if keepdims or out is not None or isinstance(axis, tuple):
            ax = axis if isinstance(axis, tuple) else tuple(
                range_(a.ndim)) if axis is None else (axis,)
            ax = [i % a.ndim for i in ax]
            b = rnp.moveaxis(rnp.asarray(a), ax, range_(-len(ax), 0))
            b = b.reshape(b.shape[:a.ndim - len(ax)] + (-1,))
            r = asarr(f(b.view(SymArr), axis=-1, initial=initial))
            if keepdims:
                r = r.reshape([1 if i in ax else n
                               for i, n in enumerate(a.shape)])
            if out is not None:
                out[...] = r
                return out
            return r if r.ndim else r[()]

        def red(v):
            it = list(v) + ([] if initial is None else [lift1(initial)])
            if not it:
                raise ValueError('zero-size array to reduction operation')
            if cur().lazy:
                return cur().extremum(op, it)
            m = it[0]
            for x in it[1:]:
                if (x > m) if op == 'max' else (x < m):
                    m = x
            return m
        if axis is None:
            return red(a.ravel())
        b = rnp.moveaxis(rnp.asarray(a), axis, -1)
        out = rnp.empty(b.shape[:-1], dtype=object)
        for i in rnp.ndindex(*out.shape):
            out[i] = red(b[i])
        return wrap(out) if out.ndim else out[()]
    return f


O['max'] = O['amax'] = O['nanmax'] = _minmax('max')
O['min'] = O['amin'] = O['nanmin'] = _minmax('min')
SymArr.max = lambda self, axis=None, out=None, **k: O['max'](
    self, axis, out, **k)
SymArr.min = lambda self, axis=None, out=None, **k: O['min'](
    self, axis, out, **k)
over(lambda a, axis=None, **k: O['max'](a, axis) - O['min'](a, axis), 'ptp')


def _ew2(f, rf):
    def g(a, b, *r, **k):
        if not has_sym(a) and not has_sym(b):
            return rf(a, b, *r, **k)
        a, b = rnp.broadcast_arrays(rnp.asarray(asarr(a)),
                                    rnp.asarray(asarr(b)))
        out = rnp.empty(a.shape, dtype=object)
        for i in rnp.ndindex(*a.shape):
            out[i] = f(lift1(a[i]), lift1(b[i]))
        return wrap(out) if out.ndim else out[()]
    return g


O['maximum'] = O['fmax'] = _ew2(lambda x, y: x if x >= y else y, rnp.maximum)
O['minimum'] = O['fmin'] = _ew2(lambda x, y: x if x <= y else y, rnp.minimum)
O['remainder'] = O['mod'] = _ew2(lambda x, y: x % y, rnp.remainder)
O['fmod'] = _ew2(lambda x, y: x - y * cur().trunc(x / y), rnp.fmod)
O['floor_divide'] = _ew2(lambda x, y: x // y, rnp.floor_divide)
O['power'] = O['float_power'] = O['pow'] = _ew2(lambda x, y: x ** y,
                                                rnp.power)
O['arctan2'] = O['atan2'] = _ew2(lambda x, y: cur().arctan2(x, y),
                                 rnp.arctan2)
O['hypot'] = _ew2(lambda x, y: (x * x + y * y).sqrt(), rnp.hypot)
O['heaviside'] = _ew2(lambda x, y: Sym.lift(0) if x < 0 else (
    Sym.lift(1) if x > 0 else y), rnp.heaviside)


@over
def modf(x):
    f = O['trunc'](x)
    return x - f, f


@over
def divmod(a, b):
    return a // b, a % b


O['copysign'] = _ew2(lambda x, y: abs(x) if y >= 0 else -abs(x), rnp.copysign)


@over
def exp2(x):
    return O['power'](2.0, x)


@over
def angle(z, deg=False):
    r = O['arctan2'](O['imag'](z), O['real'](z))
    return r * 180 / cur().PI if deg else r


@over
def block(x):
    def depth(v):
        return 1 + max(depth(y) for y in v) if isinstance(v, list) else 0
    if not has_sym(x):
        return rnp.block(x)

    def rec(v, k):
        if not isinstance(v, list):
            return v
        return O['concatenate']([rec(y, k - 1) for y in v], axis=-k)
    d = depth(x)
    leaves = []

    def nd(v):
        if isinstance(v, list):
            return [nd(y) for y in v]
        v = asarr(v)
        leaves.append(v.ndim)
        return v
    x = nd(x)
    m = max([d] + leaves)

    def up(v):
        if isinstance(v, list):
            return [up(y) for y in v]
        return v.reshape((1,) * (m - v.ndim) + v.shape)
    return rec(up(x), d)


@over
def issubdtype(a, b):
    if rnp.dtype(a) == object if not isinstance(a, type) else a is object:
        a = float
    return rnp.issubdtype(a, b)


@over
def fromiter(it, dtype=float, count=-1, **k):
    it = list(it)
    return O['array'](it[:count] if count >= 0 else it, dtype=dtype)


@over
def bincount(x, weights=None, minlength=0):
    x = rnp.asarray(to_conc(x))
    if weights is None or not has_sym(weights):
        return rnp.bincount(x, weights=weights, minlength=minlength)
    n = max(int(x.max()) + 1 if x.size else 0, minlength)
    r = rnp.empty(n, dtype=object)
    r[:] = Sym.lift(0)
    for i, w in zip(x.tolist(), asarr(weights)):
        r[i] = r[i] + w
    return wrap(r)


@over
def sinc(x):
    def f(v):
        if v == 0:
            return Sym.lift(1)
        p = cur().PI * v
        return cur().sin(p) / p
    a = lift_arr(asarr(x))
    return emap(f, a)


@over
def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    if a.dtype != object and not has_sym(v):
        return rnp.searchsorted(a, v, side=side, sorter=sorter)

    def one(x):
        n = 0
        for y in a:
            if (y < x) if side == 'left' else (y <= x):
                n += 1
            else:
                break
        return n
    if rnp.ndim(v) == 0:
        return one(v)
    return rnp.array([one(x) for x in asarr(v)])


@over
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


@over
def histogram(a, bins=10, range=None, density=None, weights=None):
    a = asarr(a).ravel()
    if a.dtype != object and not has_sym(bins):
        return rnp.histogram(a, bins=bins, range=range, density=density,
                             weights=weights)
    if rnp.ndim(bins) == 0:
        lo, hi = range if range is not None else (O['min'](a), O['max'](a))
        edges = linspace(lo, hi, int(bins) + 1)
    else:
        edges = asarr(bins)
    n = len(edges) - 1
    cnt = [0] * n
    for j, x in enumerate(a):
        w = 1 if weights is None else weights[j]
        for i in builtins.range(n):
            hi = (x <= edges[i + 1]) if i == n - 1 else (x < edges[i + 1])
            if x < edges[i]:
                break
            if hi:
                cnt[i] = cnt[i] + w
                break
    h = rnp.array(cnt) if weights is None else nested(cnt)
    if density:
        tot = h.sum()
        h = lift_arr(h) / diff(edges) / Sym.lift(tot)
    return h, edges


@over
def argsort(a, axis=-1, kind=None, order=None, **kw):
    a = asarr(a)
    if a.dtype != object:
        return rnp.argsort(a, axis=axis, kind=kind)
    import functools
    b = rnp.moveaxis(rnp.asarray(a), axis, -1)
    out = rnp.empty(b.shape, dtype=int)

    def c(v):
        def f(i, j):
            if v[i] < v[j]:
                return -1
            if v[j] < v[i]:
                return 1
            return 0
        return f
    for i in rnp.ndindex(*b.shape[:-1]):
        out[i] = sorted(range_(b.shape[-1]),
                        key=functools.cmp_to_key(c(b[i])))
    return rnp.moveaxis(out, -1, axis)


range_ = builtins.range


@over
def sort(a, axis=-1, **kw):
    a = asarr(a)
    if a.dtype != object:
        return rnp.sort(a, axis=axis)
    return wrap(rnp.take_along_axis(rnp.asarray(a), argsort(a, axis=axis),
                                    axis=axis))


def _sm_argsort(self, axis=-1, **k):
    return argsort(self, axis=axis)


def _sm_sort(self, axis=-1, **k):
    self[...] = sort(self, axis=axis)


SymArr.argsort = _sm_argsort
SymArr.sort = _sm_sort


def _argm(op):
    def f(a, axis=None, **kw):
        a = asarr(a)
        if a.dtype != object:
            return (rnp.argmax if op == 'max' else rnp.argmin)(
                rnp.asarray(a), axis=axis, **kw)

        def red(v):
            k = 0
            for i in range_(1, len(v)):
                if (v[i] > v[k]) if op == 'max' else (v[i] < v[k]):
                    k = i
            return k
        if axis is None:
            return red(a.ravel())
        b = rnp.moveaxis(rnp.asarray(a), axis, -1)
        out = rnp.empty(b.shape[:-1], dtype=int)
        for i in rnp.ndindex(*out.shape):
            out[i] = red(b[i])
        return out
    return f


O['argmax'] = _argm('max')
O['argmin'] = _argm('min')
SymArr.argmax = lambda self, axis=None, out=None, **k: O['argmax'](self, axis)
SymArr.argmin = lambda self, axis=None, out=None, **k: O['argmin'](self, axis)


@over
def unique(ar, return_index=False, return_inverse=False, return_counts=False,
           axis=None, **kw):
    a = asarr(ar)
    if a.dtype != object:
        r = rnp.unique(a, return_index=return_index,
                       return_inverse=return_inverse,
                       return_counts=return_counts, axis=axis)
        return r
    a = a.ravel()
    if not all(is_sym(x) for x in a):
        return rnp.unique(rnp.asarray(a), return_index=return_index,
                          return_inverse=return_inverse,
                          return_counts=return_counts)
    idx = argsort(a)
    us, first, inv, cnt = [], [], [0] * len(a), []
    for i in idx:
        if not us or not bool(a[i] == us[-1]):
            us.append(a[i])
            first.append(i)
            cnt.append(0)
        inv[i] = len(us) - 1
        cnt[-1] += 1
        first[-1] = min(first[-1], i)
    out = [nested(us) if us else mk((0,), Sym.lift(0))]
    if return_index:
        out.append(rnp.array(first))
    if return_inverse:
        out.append(rnp.array(inv))
    if return_counts:
        out.append(rnp.array(cnt))
    return out[0] if len(out) == 1 else tuple(out)


@over
def isscalar(x):
    return is_sym(x) or rnp.isscalar(x)


@over
def iscomplexobj(x):
    a = asarr(x)
    if a.dtype == object:
        return any(isinstance(v, SymC) for v in a.ravel())
    return rnp.iscomplexobj(a)


over(lambda x: not iscomplexobj(x), 'isrealobj')


@over
def real(x):
    return x.real if is_sym(x) else asarr(x).real


@over
def imag(x):
    return x.imag if is_sym(x) else wrap(asarr(x)).imag


@over
def conj(x):
    return x.conj()


O['conjugate'] = conj
over(lambda x: emap(abs, lift_arr(asarr(x))) if False else None, '_unused')
O.pop('_unused')


@over
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if y.dtype != object and not has_sym(x) and not has_sym(dx):
        y = lift_arr(y)
    y = rnp.moveaxis(rnp.asarray(y), axis, -1)
    if x is not None:
        x = asarr(x)
        if x.ndim == 1:
            d = x[1:] - x[:-1]
        else:
            x = rnp.moveaxis(rnp.asarray(x), axis, -1)
            d = x[..., 1:] - x[..., :-1]
    else:
        d = Sym.lift(dx) if not is_sym(dx) else dx
    r = rnp.sum(rnp.asarray((y[..., 1:] + y[..., :-1]) * d), axis=-1)
    return wrap(r / Sym.lift(2)) if isinstance(r, rnp.ndarray) else r / 2


O['trapz'] = trapezoid


@over
def polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    x, y = lift_arr(asarr(x)), lift_arr(asarr(y))
    deg = int(deg)
    A = rnp.empty((len(x), deg + 1), dtype=object)
    for i in range_(len(x)):
        for j in range_(deg + 1):
            A[i, j] = x[i] ** (deg - j)
    if w is not None:
        w = lift_arr(asarr(w))
        A = A * rnp.asarray(w)[:, None]
        y = y * w
    if len(x) < deg + 1:
        raise Unsupported('underdetermined polyfit')
    if len(x) == deg + 1:
        return LA.solve(A, y)
    At = A.T
    return LA.solve(rnp.dot(At, A), rnp.dot(At, rnp.asarray(y)))


@over
def polyval(p, x):
    p = asarr(p)
    if p.dtype != object and not has_sym(x):
        p = lift_arr(p)
    y = Sym.lift(0)
    if isinstance(x, (rnp.ndarray, list, tuple)):
        x = asarr(x)
        y = mk(x.shape, Sym.lift(0))
    for c in p:
        y = y * x + c
    return y


@over
def vander(x, N=None, increasing=False):
    x = lift_arr(asarr(x))
    N = len(x) if N is None else N
    A = rnp.empty((len(x), N), dtype=object)
    for i in range_(len(x)):
        for j in range_(N):
            A[i, j] = x[i] ** (j if increasing else N - 1 - j)
    return wrap(A)


@over
def correlate(a, v, mode='valid'):
    a, v = lift_arr(asarr(a)), lift_arr(asarr(v))
    return convolve(a, v[::-1].conj() if iscomplexobj(v) else v[::-1], mode)


@over
def convolve(a, v, mode='full'):
    a, v = lift_arr(asarr(a)), lift_arr(asarr(v))
    if len(v) > len(a) and mode != 'full':
        a, v = v, a
    n, m = len(a), len(v)
    full_ = []
    for k in range_(n + m - 1):
        s = Sym.lift(0)
        for j in range_(max(0, k - n + 1), min(m, k + 1)):
            s = s + a[k - j] * v[j]
        full_.append(s)
    full_ = nested(full_)
    if mode == 'full':
        return full_
    if mode == 'same':
        L = max(n, m)
        st = (len(full_) - L) // 2
        return full_[st:st + L]
    return full_[m - 1:n]


def _realdt(a, k):
    """numpy's own dtype for the stand-in types"""
    def f(t):
        if isinstance(t, types.FunctionType) or t in (FloatT, IntT):
            return {'f': float, 'i': int, 'c': complex, 'b': bool}.get(
                dtkind(t), t)
        return t
    if k.get('dtype') is not None:
        k = dict(k, dtype=f(k['dtype']))
    return tuple(f(x) if i == 1 and callable(x) else x
                 for i, x in enumerate(a)), k


@over
def loadtxt(*a, **k):
    a, k = _realdt(a, k)
    return untag_arr(rnp.loadtxt(*a, **k))


@over
def genfromtxt(*a, **k):
    a, k = _realdt(a, k)
    return untag_arr(rnp.genfromtxt(*a, **k))


@over
def fromstring(*a, **k):
    a, k = _realdt(a, k)
    return untag_arr(rnp.fromstring(*a, **k))


def scalar(a):
    return a[()] if isinstance(a, rnp.ndarray) and not a.ndim else a


class RecArr:
    """A structured array read from a file, one array per field."""

    def __init__(self, dtype, shape, fields):
        self.dtype, self.shape, self._f = dtype, tuple(shape), fields
        self.ndim = len(self.shape)
        self.size = int(rnp.prod(self.shape, dtype=int))

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __getitem__(self, i):
        if isinstance(i, str):
            return scalar(self._f[i])
        if isinstance(i, list) and i and isinstance(i[0], str):
            return RecArr(self.dtype[i], self.shape,
                          {n: self._f[n] for n in i})
        if not self.shape and isinstance(i, (int, rnp.integer)):
            return scalar(self._f[self.dtype.names[i]])
        s = rnp.empty(self.shape, dtype=bool)[i].shape
        return RecArr(self.dtype, s, {n: v[i] for n, v in self._f.items()})

    def __iter__(self):
        if not self.shape:
            return iter([scalar(self._f[n]) for n in self.dtype.names])
        return iter([self[i] for i in range_(len(self))])


def untag_rec(r):
    if r.dtype.names is None:
        return untag_arr(r)

    return RecArr(r.dtype, r.shape, {n: untag_arr(r[n]) for n in
                                        r.dtype.names})


@over
def fromfile(*a, **k):
    a, k = _realdt(a, k)
    r = rnp.fromfile(*a, **k)
    return untag_rec(r)


@over
def frombuffer(*a, **k):
    a, k = _realdt(a, k)
    return untag_rec(rnp.frombuffer(*a, **k))


@over
def savetxt(fname, X, *a, **k):
    X = asarr(X)
    if X.dtype == object:
        X = tagged_float(X)
    return rnp.savetxt(fname, X, *a, **k)


@over
def save(fname, X, *a, **k):
    X = asarr(X)
    return rnp.save(fname, tagged_float(X) if X.dtype == object else X)


@over
def load(*a, **k):
    return untag_arr(rnp.load(*a, **k))


@over
def concatenate(xs, axis=0, **kw):
    xs = [asarr(x) for x in xs]
    if any(x.dtype == object for x in xs):
        xs = [rnp.asarray(lift_arr(x) if x.dtype != object else x)
              for x in xs]
    return wrap(rnp.concatenate(xs, axis=axis))


def _stackers(name):
    rf = getattr(rnp, name)

    def f(xs, *a, **k):
        xs = [asarr(x) for x in xs]
        if any(x.dtype == object for x in xs):
            xs = [rnp.asarray(lift_arr(x) if x.dtype != object else x)
                  for x in xs]
        return wrap(rf(xs, *a, **k))
    return f


for _n in ('vstack', 'hstack', 'stack', 'column_stack', 'dstack',
           'row_stack'):
    if hasattr(rnp, _n):
        O[_n] = _stackers(_n)


@over
def append(arr, values, axis=None):
    if axis is None:
        return concatenate([asarr(arr).ravel(), asarr(values).ravel()])
    return concatenate([arr, values], axis=axis)


class _RClass:
    def __init__(self, r):
        self.r = r

    def __getitem__(self, k):
        if isinstance(k, tuple) and any(has_sym(x) for x in k):
            return concatenate([atleast_1d(x) for x in k])
        r = self.r[k]
        return lift_arr(r) if isinstance(r, rnp.ndarray) and \
            r.dtype.kind == 'f' else r


O['r_'] = _RClass(rnp.r_)


@over
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    a = asarr(a)
    if a.dtype != object:
        r = rnp.sum(rnp.asarray(a), axis=axis, keepdims=keepdims, **{
            k: v for k, v in dict(kw, dtype=dtype).items()
            if v is not None and v not in (float, FloatT)})
        return r
    r = rnp.sum(rnp.asarray(a), axis=axis, keepdims=keepdims)
    if isinstance(r, (int, float)) and not isinstance(r, bool):
        r = lift1(r)
    return wrap(r)


O['sum'] = O['nansum'] = sum_
O.pop('sum_', None)


def _sm_sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
    return sum_(self, axis=axis, keepdims=keepdims)


SymArr.sum = _sm_sum


@over
def median(a, axis=None, keepdims=False, **kw):
    if axis is not None:
        b = rnp.moveaxis(rnp.asarray(lift_arr(asarr(a))), axis, -1)
        r = rnp.empty(b.shape[:-1], dtype=object)
        for i in rnp.ndindex(*r.shape):
            r[i] = median(b[i].view(SymArr))
        return wrap(rnp.expand_dims(r, axis) if keepdims else r)
    s = sort(asarr(a).ravel())
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


@over
def float64(x=0):
    return lift1(x) if not isinstance(x, str) else parse_scalar(x)


over(lambda x: lift_arr(asarr(x)) if isinstance(x, (list, tuple, rnp.ndarray))
     else lift1(x), 'nan_to_num')


@over
def copyto(dst, src, **k):
    dst[...] = src


@over
def copy_(a, **k):
    return asarr(a).copy()


O['copy'] = copy_


@over
def interp(x, xp, fp, **kw):
    xp, fp = lift_arr(asarr(xp)), lift_arr(asarr(fp))

    def one(v):
        if v <= xp[0]:
            return fp[0]
        for i in range_(1, len(xp)):
            if v <= xp[i]:
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (
                    xp[i] - xp[i - 1])
        return fp[-1]
    if rnp.ndim(x) == 0:
        return one(lift1(x))
    return emap(one, lift_arr(asarr(x)))


class _Finfo:
    eps = 2.220446049250313e-16
    tiny = 2.2250738585072014e-308
    max = 1.7976931348623157e308
    min = -max
    resolution = 1e-15


over(lambda *a: _Finfo, 'finfo')


class _Testing:
    def __getattr__(self, n):
        return getattr(rnp.testing, n)

    @staticmethod
    def assert_array_almost_equal(a, b, decimal=6, **k):
        a, b = asarr(a), asarr(b)
        a, b = rnp.broadcast_arrays(rnp.asarray(a), rnp.asarray(b))
        tol = Fraction(3, 2) / 10 ** decimal
        for x, y in zip(a.ravel(), b.ravel()):
            d = lift1(x) - lift1(y)
            if isinstance(d, SymC):
                ds = [d.re, d.im]
            else:
                ds = [d]
            for d in ds:
                if not bool((d < tol) & (-d < tol)):
                    raise AssertionError('arrays not almost equal')
    assert_almost_equal = assert_array_almost_equal

    @staticmethod
    def assert_allclose(a, b, rtol=1e-7, atol=0, **k):
        if not allclose(a, b, rtol=rtol, atol=atol):
            raise AssertionError('not close')


O['testing'] = _Testing()


class _Random:
    """Nondeterministic stub: every drawn number is a fresh symbolic value in
    [0,1) (or the requested interval)."""

    def _draw(self, shape, lo=0, hi=1):
        c = cur()
        n = getattr(c, '_rand', 0)
        if isinstance(shape, (int, rnp.integer)):
            shape = (shape,)
        if n + int(rnp.prod(shape or ())) > getattr(c, 'rand_max', 10**9):
            raise c.rand_exc
        if shape is None or shape == ():
            c._rand = n + 1
            return c.rand_var('rand%i' % n, lo, hi)
        out = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*out.shape):
            out[i] = c.rand_var('rand%i' % n, lo, hi)
            n += 1
        c._rand = n
        return out.view(SymArr)

    def rand(self, *shape):
        return self._draw(shape)

    def random(self, size=None):
        return self._draw(size)
    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._draw(size)
        return low + (high - low) * u

    def default_rng(self, *a):
        return self

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        def f(*a, **k):
            raise Unsupported('numpy.random.' + n)
        return f


RANDOM = _Random()
O['random'] = RANDOM


# -- linear algebra ----------------------------------------------------------

class _LA:
    LinAlgError = rnp.linalg.LinAlgError

    def __getattr__(self, n):
        return generic(getattr(rnp.linalg, n))

    @staticmethod
    def det(a):
        a = lift_arr(asarr(a))
        if a.ndim > 2:
            out = rnp.empty(a.shape[:-2], dtype=object)
            for i in rnp.ndindex(*out.shape):
                out[i] = _LA.det(a[i])
            return wrap(out)
        n = a.shape[0]
        if n != a.shape[1]:
            raise rnp.linalg.LinAlgError('square')
        if n <= 4:
            return _detc(rnp.asarray(a))
        return _gauss(rnp.asarray(a), None)[1]

    @staticmethod
    def inv(a, **k):
        a = lift_arr(asarr(a))
        if a.ndim > 2:
            out = rnp.empty(a.shape, dtype=object)
            for i in rnp.ndindex(*a.shape[:-2]):
                out[i] = _LA.inv(a[i])
            return wrap(out)
        n = a.shape[0]
        if n <= 4:
            a = rnp.asarray(a)
            d = _detc(a)
            _nonsing(d)
            if n == 1:
                return wrap(rnp.array([[1 / d]], dtype=object))
            out = rnp.empty((n, n), dtype=object)
            for i in range_(n):
                for j in range_(n):
                    mnr = rnp.delete(rnp.delete(a, i, 0), j, 1)
                    out[j, i] = (-1) ** (i + j) * _detc(mnr) / d
            return wrap(out)
        return _gauss(rnp.asarray(a), rnp.asarray(identity(n)))[0]

    @staticmethod
    def solve(a, b, **k):
        a, b = lift_arr(asarr(a)), lift_arr(asarr(b))
        n = a.shape[0]
        if a.ndim > 2:
            raise Unsupported('stacked solve')
        if n <= 4:
            return dot(_LA.inv(a), b)
        return _gauss(rnp.asarray(a), rnp.asarray(b))[0]

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asarr(x)
        if x.dtype != object:
            x = lift_arr(x)
        if ord not in (None, 2, 'fro') and not (
                ord in (1, rnp.inf) and x.ndim == 1):
            raise Unsupported('norm ord')
        if ord == 1:
            return sum_(abs_(x), axis=axis)
        if ord == rnp.inf:
            return O['max'](abs_(x), axis=axis)
        if ord == 2 and x.ndim == 2 and axis is None:
            raise Unsupported('spectral norm')
        sq = emap(lambda v: v * v.conjugate() if isinstance(v, SymC)
                  else v * v, x)
        if any(isinstance(v, SymC) for v in sq.ravel()):
            sq = wrap(sq).real
        s = rnp.sum(rnp.asarray(sq), axis=axis, keepdims=keepdims)
        return O['sqrt'](wrap(s))

    @staticmethod
    def lstsq(a, b, rcond=None, **k):
        a, b = lift_arr(asarr(a)), lift_arr(asarr(b))
        n, m = a.shape
        if n == m:
            x = _LA.solve(a, b)
        elif n > m:
            x = _LA.solve(dot(a.T, a), dot(a.T, b))
        else:
            raise Unsupported('underdetermined lstsq')
        return x, None, m, None

    @staticmethod
    def pinv(a, *k, **kw):
        a = lift_arr(asarr(a))
        if a.shape[0] == a.shape[1]:
            return _LA.inv(a)
        return dot(_LA.inv(dot(a.T, a)), a.T)

    @staticmethod
    def matrix_power(a, n):
        r = identity(len(a))
        for _ in range_(n):
            r = dot(r, a)
        return r


def _nonsing(d):
    d = lift1(d)
    if not cur().nonzero(d.r):
        raise rnp.linalg.LinAlgError('Singular matrix')


def _detc(a):
    n = a.shape[0]
    if n == 0:
        return Sym.lift(1)
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    s = Sym.lift(0)
    for j in range_(n):
        if isinstance(a[0, j], Sym) and not a[0, j].r.num:
            continue
        m = rnp.delete(a[1:], j, 1)
        t = a[0, j] * _detc(m)
        s = s + t if j % 2 == 0 else s - t
    return s


def _gauss(a, b):
    """Gauss elimination; pivots: any provably/assumably nonzero entry."""
    a = a.copy()
    n = len(a)
    vec = False
    if b is None:
        b = rnp.empty((n, 0), dtype=object)
    b = b.copy()
    if b.ndim == 1:
        b = b[:, None]
        vec = True
    det = Sym.lift(1)
    for k in range_(n):
        piv = None
        cand = [i for i in range_(k, n) if a[i, k].r.num]
        const = [i for i in cand if a[i, k].r.is_const()]
        if const:
            piv = const[0]
        elif cand:
            cand.sort(key=lambda i: (len(a[i, k].r.num) +
                                     10 * len(a[i, k].r.den)))
            piv = cand[0]
        if piv is None:
            if b.shape[1] == 0:
                return None, Sym.lift(0)
            raise rnp.linalg.LinAlgError('Singular matrix')
        if piv != k:
            a[[k, piv]] = a[[piv, k]]
            b[[k, piv]] = b[[piv, k]]
            det = -det
        det = det * a[k, k]
        p = a[k, k]
        for j in range_(k, n):
            a[k, j] = a[k, j] / p
        for j in range_(b.shape[1]):
            b[k, j] = b[k, j] / p
        for i in range_(n):
            if i != k and a[i, k].r.num:
                f = a[i, k]
                for j in range_(k, n):
                    a[i, j] = a[i, j] - f * a[k, j]
                for j in range_(b.shape[1]):
                    b[i, j] = b[i, j] - f * b[k, j]
    return wrap(b[:, 0] if vec else b), det


LA = _LA()
O['linalg'] = LA
O['vdot'] = lambda a, b: dot(asarr(a).ravel(), asarr(b).ravel())
O['inner'] = lambda a, b: dot(a, asarr(b).T if rnp.ndim(b) > 1 else b)


@over
def outer(a, b, **k):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return a[:, None] * b[None, :]


@over
def tensordot(a, b, axes=2):
    return wrap(rnp.tensordot(rnp.asarray(asarr(a)), rnp.asarray(asarr(b)),
                              axes=axes))


# -- FFT -----------------------------------------------------------------------

def _dft1(v, n, sign, scale):
    v = list(v)
    if n is None:
        n = len(v)
    v = v[:n] + [Sym.lift(0)] * (n - len(v))
    c = cur()
    co = [c.cos(c.PI * Fraction(2 * k, n)) for k in range_(n)]
    si = [c.sin(c.PI * Fraction(2 * k, n)) for k in range_(n)]
    out = []
    for k in range_(n):
        re = im = Sym.lift(0)
        for j, x in enumerate(v):
            z = SymC.lift(lift1(x))
            cc, ss = co[j * k % n], si[j * k % n] * sign
            re = re + z.re * cc - z.im * ss
            im = im + z.re * ss + z.im * cc
        if scale:
            re, im = re / n, im / n
        out.append(SymC(re, im))
    return out


def _fftax(a, n, axis, sign, scale):
    a = rnp.moveaxis(rnp.asarray(lift_arr(asarr(a))), axis, -1)
    m = a.shape[-1] if n is None else int(n)
    out = rnp.empty(a.shape[:-1] + (m,), dtype=object)
    for i in rnp.ndindex(*a.shape[:-1]):
        r = _dft1(a[i], m, sign, scale)
        for j in range_(m):
            out[i + (j,)] = r[j]
    return wrap(rnp.moveaxis(out, -1, axis))


class _FFT:
    def __init__(self, real_mod):
        self._m = real_mod

    def fft(self, x, n=None, axis=-1, *a, **k):
        return _fftax(x, n, axis, -1, False)

    def ifft(self, x, n=None, axis=-1, *a, **k):
        return _fftax(x, n, axis, 1, True)

    def rfft(self, x, n=None, axis=-1, *a, **k):
        r = _fftax(x, n, axis, -1, False)
        m = r.shape[axis]
        sl = [slice(None)] * r.ndim
        sl[axis] = slice(0, m // 2 + 1)
        return r[tuple(sl)]

    def irfft(self, x, n=None, axis=-1, *a, **k):
        x = rnp.moveaxis(rnp.asarray(lift_arr(asarr(x))), axis, -1)
        m = int(n) if n else 2 * (x.shape[-1] - 1)
        full_ = rnp.empty(x.shape[:-1] + (m,), dtype=object)
        h = m // 2 + 1
        for j in range_(m):
            if j < h:
                full_[..., j] = x[..., j] if j < x.shape[-1] else Sym.lift(0)
            else:
                full_[..., j] = wrap(x[..., m - j]).conj() if x.ndim > 1 \
                    else SymC.lift(x[m - j]).conj()
        r = _fftax(full_, m, -1, 1, True)
        return wrap(rnp.moveaxis(rnp.asarray(wrap(r).real), -1, axis))

    def fftfreq(self, n, d=1.0):
        n = int(n)
        d = lift1(d)
        ks = list(range_(0, (n - 1) // 2 + 1)) + list(range_(-(n // 2), 0))
        return nested([Sym.lift(k) / (d * n) for k in ks])

    def rfftfreq(self, n, d=1.0):
        d = lift1(d)
        return nested([Sym.lift(k) / (d * n) for k in range_(n // 2 + 1)])

    def fftshift(self, x, axes=None):
        return wrap(rnp.fft.fftshift(rnp.asarray(x), axes=axes))

    def ifftshift(self, x, axes=None):
        return wrap(rnp.fft.ifftshift(rnp.asarray(x), axes=axes))

    def next_fast_len(self, n, *a, **k):
        m = 1
        while m < n:
            m *= 2
        return m

    def __getattr__(self, n):
        return generic(getattr(self._m, n))


O['fft'] = _FFT(rnp.fft)


class _Vec:
    """np.vectorize"""

    def __init__(self, f, *a, **k):
        self.f = f

    def __call__(self, *xs):
        if not any(has_sym(x) for x in xs):
            return rnp.vectorize(self.f)(*xs)
        b = rnp.broadcast_arrays(*[rnp.asarray(asarr(x)) for x in xs])
        out = rnp.empty(b[0].shape, dtype=object)
        for i in rnp.ndindex(*out.shape):
            out[i] = self.f(*[x[i] for x in b])
        return wrap(out) if out.ndim else out[()]


O['vectorize'] = _Vec
O['ndarray'] = rnp.ndarray
O['float_'] = float64


@over
def take(a, indices, axis=None, **k):
    return wrap(rnp.take(rnp.asarray(asarr(a)), indices, axis=axis))


@over
def array_split(a, n, axis=0):
    return [wrap(x) for x in rnp.array_split(rnp.asarray(asarr(a)), n, axis)]


O['split'] = lambda a, n, axis=0: [wrap(x) for x in rnp.split(
    rnp.asarray(asarr(a)), n, axis)]


@over
def pad(a, width, mode='constant', **kw):
    a = asarr(a)
    if a.dtype != object:
        a = lift_arr(a)
    if mode != 'constant':
        return wrap(rnp.pad(rnp.asarray(a), width, mode, **kw))
    cv = kw.get('constant_values', 0)
    w = rnp.broadcast_to(rnp.asarray(width), (a.ndim, 2)) \
        if rnp.ndim(width) < 2 or rnp.shape(width) != (a.ndim, 2) \
        else rnp.asarray(width)
    out = mk([n + l + r for n, (l, r) in zip(a.shape, w)], lift1(cv))
    out[tuple(slice(l, l + n) for n, (l, r) in zip(a.shape, w))] = a
    return out


# ---------------------------------------------------------------------------
# math, scipy
# ---------------------------------------------------------------------------

class _Math(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    @property
    def pi(self):
        return cur().PI

    inf = float('inf')
    nan = float('nan')

    @property
    def e(self):
        return cur().exp(Sym.lift(1))

    def __getattr__(self, n):
        meth = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan'}.get(n, n)
        rf = getattr(_math, n)
        if meth in ('sqrt', 'cos', 'sin', 'tan', 'exp', 'log', 'log10',
                    'log2', 'arccos', 'arcsin', 'arctan', 'sinh', 'cosh',
                    'tanh', 'radians', 'degrees', 'fabs', 'cbrt', 'expm1',
                    'log1p'):
            def f(x, *a):
                x = lift1(x)
                if isinstance(x, Sym):
                    if n == 'log' and a:
                        return x.log() / lift1(a[0]).log()
                    if n == 'sqrt' and x.r.is_const() and x.r.const() < 0:
                        raise ValueError('math domain error')
                    if n == 'sqrt' and getattr(cur(), 'strict_domain', False) \
                            and bool(x < 0):
                        raise ValueError('math domain error')
                    return getattr(x, meth)()
                return rf(x, *a)
            return f
        if n in ('floor', 'ceil', 'trunc'):
            def f(x):
                x = lift1(x)
                return getattr(x, n)() if isinstance(x, Sym) else rf(x)
            return f
        if n in ('atan2', 'hypot', 'pow', 'fmod'):
            return O[{'atan2': 'arctan2', 'pow': 'power'}.get(n, n)]
        if n == 'isclose':
            def f(a, b, rel_tol=1e-9, abs_tol=0.0):
                return _close(a, b, rel_tol, abs_tol)
            return f
        if n == 'isnan':
            return isnan
        if n == 'prod':
            def f(it, start=1):
                for x in it:
                    start = start * x
                return start
            return f
        if n in ('copysign', 'modf'):
            return O[n]
        if n == 'dist':
            def f(p, q):
                return O['sqrt'](builtins.sum((a - b) * (a - b)
                                              for a, b in zip(p, q)))
            return f
        if n == 'sumprod':
            return lambda p, q: builtins.sum(a * b for a, b in zip(p, q))
        if n == 'fsum':
            return builtins.sum
        return rf


MATH = _Math()


class ModShim(types.ModuleType):
    def __init__(self, name, over, real_name=None):
        super().__init__(name)
        self.__dict__['_over'] = over
        self.__dict__['_real'] = real_name or name

    def __getattr__(self, n):
        if n.startswith('__') and n != '__name__':
            raise AttributeError(n)
        if n in self._over:
            return self._over[n]
        m = importlib.import_module(self._real)
        v = getattr(m, n)
        if isinstance(v, types.FunctionType) or isinstance(
                v, types.BuiltinFunctionType):
            return conc_only(v)
        return v


def conc_only(f):
    def g(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            a = [to_conc(x) for x in a]
            k = {kk: to_conc(v) for kk, v in k.items()}
        r = f(*a, **k)
        if isinstance(r, rnp.ndarray) and r.dtype.kind == 'f':
            return lift_arr(r)
        return r
    g.__name__ = getattr(f, '__name__', 'f')
    g.__wrapped__ = f
    return g


def simpson(y, x=None, dx=1.0, axis=-1, even=None):
    """Composite Simpson as in current scipy (irregular spacing, Cartwright
    correction for an even number of points)."""
    y = lift_arr(asarr(y))
    if y.ndim > 1:
        y2 = rnp.moveaxis(rnp.asarray(y), axis, -1)
        out = rnp.empty(y2.shape[:-1], dtype=object)
        for i in rnp.ndindex(*out.shape):
            out[i] = simpson(y2[i], x=x, dx=dx)
        return wrap(out)
    n = len(y)
    if x is not None:
        x = lift_arr(asarr(x))
        h = [x[i + 1] - x[i] for i in range_(n - 1)]
    else:
        h = [lift1(dx)] * (n - 1)
    if n == 1:
        return Sym.lift(0)
    if n == 2:
        return (y[0] + y[1]) * h[0] / 2
    tot = Sym.lift(0)
    last = n - 2 if n % 2 == 1 else n - 3

    def seg(i):
        h0, h1 = h[i], h[i + 1]
        s, p = h0 + h1, h0 * h1
        r = h0 / h1
        return s / 6 * (y[i] * (2 - 1 / r) + y[i + 1] * (s * s / p) +
                        y[i + 2] * (2 - r))
    if n % 2 == 1:
        for i in range_(0, n - 2, 2):
            tot = tot + seg(i)
        return tot
    for i in range_(0, n - 3, 2):
        tot = tot + seg(i)
    h0, h1 = h[-2], h[-1]
    a = (2 * h1 ** 2 + 3 * h0 * h1) / (6 * (h1 + h0))
    b = (h1 ** 2 + 3 * h0 * h1) / (6 * h0)
    e = h1 ** 3 / (6 * h0 * (h0 + h1))
    return tot + a * y[-1] + b * y[-2] - e * y[-3]


def cdist(a, b, metric='euclidean', **kw):
    a, b = lift_arr(asarr(a)), lift_arr(asarr(b))
    out = rnp.empty((len(a), len(b)), dtype=object)
    for i in range_(len(a)):
        for j in range_(len(b)):
            d = a[i] - b[j]
            s = builtins.sum((x * x for x in d), Sym.lift(0))
            out[i, j] = s if metric == 'sqeuclidean' else s.sqrt()
    return wrap(out)


def pdist(a, metric='euclidean'):
    c = cdist(a, a, metric)
    n = len(c)
    return nested([c[i, j] for i in range_(n) for j in range_(i + 1, n)])


def squareform(v):
    v = asarr(v)
    n = int((1 + (1 + 8 * len(v)) ** 0.5) / 2)
    out = mk((n, n), Sym.lift(0))
    k = 0
    for i in range_(n):
        for j in range_(i + 1, n):
            out[i, j] = out[j, i] = v[k]
            k += 1
    return out


def fftconvolve(a, b, mode='full', axes=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return _conv_scipy(a, b, mode)
    if axes is None and a.ndim == 2:
        return _conv2(a, b, mode)
    if axes is not None and a.ndim == b.ndim:
        ax = axes if isinstance(axes, int) else axes[0]
        if not isinstance(axes, int) and len(axes) > 1:
            raise Unsupported('fftconvolve axes')
        a = rnp.moveaxis(rnp.asarray(lift_arr(a)), ax, -1)
        b = rnp.moveaxis(rnp.asarray(lift_arr(b)), ax, -1)
        sh = rnp.broadcast_shapes(a.shape[:-1], b.shape[:-1])
        a = rnp.broadcast_to(a, sh + a.shape[-1:])
        b = rnp.broadcast_to(b, sh + b.shape[-1:])
        res = [[_conv_scipy(wrap(a[i]), wrap(b[i]), mode)]
               for i in rnp.ndindex(*sh)]
        out = rnp.empty(sh + (len(res[0][0]),), dtype=object)
        for k, i in enumerate(rnp.ndindex(*sh)):
            out[i] = res[k][0]
        return wrap(rnp.moveaxis(out, -1, ax))
    return _convnd(a, b, mode)


def _conv_scipy(a, b, mode):
    full_ = convolve(a, b, 'full')
    if mode == 'full':
        return full_
    if mode == 'same':
        L = len(a)
        st = (len(full_) - L) // 2
        return full_[st:st + L]
    n, m = len(a), len(b)
    L = max(n, m) - min(n, m) + 1
    st = (len(full_) - L) // 2
    return full_[st:st + L]


def _convnd(a, b, mode):
    a, b = rnp.asarray(lift_arr(a)), rnp.asarray(lift_arr(b))
    if a.ndim != b.ndim:
        raise ValueError('in1 and in2 should have the same dimensionality')
    sh = [n + m - 1 for n, m in zip(a.shape, b.shape)]
    out = rnp.asarray(mk(sh, Sym.lift(0)))
    for i in rnp.ndindex(*b.shape):
        sl = tuple(slice(k, k + n) for k, n in zip(i, a.shape))
        out[sl] = out[sl] + a * b[i]
    if mode == 'full':
        return wrap(out)
    if mode == 'same':
        L = a.shape
    else:
        L = [max(n, m) - min(n, m) + 1 for n, m in zip(a.shape, b.shape)]
    sl = tuple(slice((s - l) // 2, (s - l) // 2 + l)
               for s, l in zip(sh, L))
    return wrap(out[sl])


_conv2 = _convnd


def hann_(N, sym=True, **kw):
    c = cur()
    N = int(N)
    M = N if sym else N + 1
    if M == 1:
        return nested([Sym.lift(1)])
    return nested([Sym.lift(Fraction(1, 2)) - c.cos(
        c.PI * Fraction(2 * i, M - 1)) / 2 for i in range_(N)])


def general_cos(N, coef):
    c = cur()
    out = []
    for i in range_(N):
        s = Sym.lift(0)
        for k, a in enumerate(coef):
            s = s + (-1) ** k * Sym.lift(a) * c.cos(
                c.PI * Fraction(2 * k * i, N - 1)) if N > 1 else Sym.lift(1)
        out.append(s)
    return nested(out)


O['hanning'] = hann_
O['bartlett'] = lambda N: nested([
    Sym.lift(1 - abs(Fraction(2 * i, N - 1) - 1)) for i in range_(N)])
O['hamming'] = lambda N: general_cos(N, [Fraction(54, 100),
                                         Fraction(46, 100)])


def s_inv(a, *k, **kw):
    return LA.inv(a)


SCIPY = {}


def _mod(name, over, real=None):
    m = ModShim(name, over, real)
    SCIPY[name] = m
    return m


_linalg = _mod('scipy.linalg', {
    'inv': s_inv, 'det': LA.det, 'norm': LA.norm,
    'solve': lambda a, b, *k, **kw: LA.solve(a, b), 'lstsq':
    lambda a, b, *k, **kw: LA.lstsq(a, b), 'pinv': LA.pinv,
    'cho_solve': None, 'cho_factor': None})
_integrate = _mod('scipy.integrate', {
    'simpson': simpson, 'simps': simpson, 'trapezoid': trapezoid,
    'trapz': trapezoid})
_fftpack = _mod('scipy.fftpack', {
    k: getattr(O['fft'], k) for k in ('fft', 'ifft', 'fftfreq', 'fftshift',
                                      'ifftshift')})
_sfft = _mod('scipy.fft', {
    k: getattr(O['fft'], k) for k in ('fft', 'ifft', 'fftfreq', 'rfft',
                                      'irfft', 'fftshift', 'next_fast_len')})
_distance = _mod('scipy.spatial.distance', {
    'cdist': cdist, 'pdist': pdist, 'squareform': squareform})
_spatial = _mod('scipy.spatial', {'distance': _distance})
_windows = _mod('scipy.signal.windows', {'hann': hann_, 'hanning': hann_})


def get_window(w, N, fftbins=True):
    if w in ('hann', 'hanning'):
        return hann_(N, sym=not fftbins)
    raise Unsupported('window')


def lfilter(b, a, x, axis=-1, zi=None):
    if zi is not None:
        raise Unsupported('lfilter state')
    b = [lift1(v) for v in asarr(b).ravel()]
    a = [lift1(v) for v in asarr(a).ravel()]
    y = rnp.moveaxis(rnp.asarray(lift_arr(asarr(x))), axis, -1)
    out = rnp.empty(y.shape, dtype=object)
    for i in rnp.ndindex(*y.shape[:-1]):
        for n in range_(y.shape[-1]):
            s = Sym.lift(0)
            for k in range_(min(n + 1, len(b))):
                s = s + b[k] * y[i + (n - k,)]
            for k in range_(1, min(n + 1, len(a))):
                s = s - a[k] * out[i + (n - k,)]
            out[i + (n,)] = s / a[0]
    return wrap(rnp.moveaxis(out, -1, axis))


_signal = _mod('scipy.signal', {
    'lfilter': lfilter,
    'fftconvolve': fftconvolve, 'convolve': lambda a, b, mode='full', **k:
    fftconvolve(a, b, mode), 'correlate': lambda a, b, mode='full', **k:
    fftconvolve(a, asarr(b)[::-1], mode), 'windows': _windows,
    'get_window': get_window, 'hann': hann_,
    'hanning': hann_})
_scipy = _mod('scipy', {'linalg': _linalg, 'integrate': _integrate,
                        'fftpack': _fftpack, 'fft': _sfft,
                        'spatial': _spatial, 'signal': _signal})
for _k in ('optimize', 'interpolate', 'special', 'constants', 'stats'):
    if _k == 'special':
        _mod('scipy.special', {})
    elif _k == 'constants':
        _mod('scipy.constants', {})
    else:
        _mod('scipy.' + _k, {})
    _scipy._over[_k] = SCIPY['scipy.' + _k]


# -- splines, root finding ---------------------------------------------------

def _frac_inv(a):
    """exact inverse of a rational matrix"""
    from fractions import Fraction as F
    n = len(a)
    m = [[F(v) for v in row] + [F(int(i == j)) for j in range_(n)]
         for i, row in enumerate(a)]
    for c in range_(n):
        p = next((r for r in range_(c, n) if m[r][c] != 0), None)
        if p is None:
            raise rnp.linalg.LinAlgError('singular collocation matrix')
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [v / d for v in m[c]]
        for r in range_(n):
            if r != c and m[r][c] != 0:
                f = m[r][c]
                m[r] = [v - f * w for v, w in zip(m[r], m[c])]
    return [row[n:] for row in m]


def _concrete(x):
    from fractions import Fraction
    out = []
    for v in asarr(x).ravel():
        if isinstance(v, Sym):
            if not v.r.is_const():
                raise Unsupported('spline with symbolic abscissas')
            v = v.r.const()
        out.append(Fraction(core.to_frac(v)))
    return out


def _bspl(t, k, j, n, x, der=0):
    """values of the k+1 B-splines that are nonzero on [t_j, t_j+1]"""
    from fractions import Fraction as F
    b = [F(1)]
    for d in range_(1, k + 1):
        nb = [0] * (d + 1)
        for i in range_(d):
            lo, hi = t[j - d + 1 + i], t[j + 1 + i]
            w = hi - lo
            nb[i] = nb[i] + b[i] * ((hi - x) * (F(1) / w))
            nb[i + 1] = nb[i + 1] + b[i] * ((x - lo) * (F(1) / w))
        b = nb
    return b


def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None,
           full_output=0, per=0, quiet=1):
    from fractions import Fraction as F
    if w is not None or (s not in (None, 0)) or per or task or \
            t is not None or xb is not None or xe is not None:
        raise Unsupported('splrep other than interpolation')
    xs = _concrete(x)
    m, k = len(xs), int(k)
    y = lift_arr(asarr(y)).ravel()
    if len(y) != m:
        raise TypeError('Lengths of the first three arguments (x,y,w) must '
                        'be equal')
    if not 1 <= k <= 5:
        raise TypeError('Given degree of the spline (k=%i) is not supported. '
                        '(1<=k<=5)' % k)
    if m <= k:
        raise TypeError('m > k must hold')
    if any(b <= a for a, b in zip(xs, xs[1:])):
        raise ValueError('Error on input data')
    if k % 2:
        h = (k + 1) // 2
        inner = xs[h:m - h]
    else:
        h = k // 2
        inner = [(xs[i] + xs[i + 1]) / 2 for i in range_(h, m - h - 1)]
    kn = [xs[0]] * (k + 1) + inner + [xs[-1]] * (k + 1)
    A = []
    for v in xs:
        j = k
        while j < m - 1 and v >= kn[j + 1]:
            j += 1
        row = [F(0)] * m
        for i, b in enumerate(_bspl(kn, k, j, m, v)):
            row[j - k + i] = F(b)
        A.append(row)
    inv = _frac_inv(A)
    c = mk((m + k + 1,), Sym.lift(0))
    for i in range_(m):
        tot = Sym.lift(0)
        for a, v in zip(inv[i], y):
            if a:
                tot = tot + v * a
        c[i] = tot
    return (wrap(rnp.array([Sym.lift(v) for v in kn], dtype=object)), c, k)


def splev(x, tck, der=0, ext=0):
    t, c, k = tck
    t, c, k, der = _concrete(t), list(c), int(k), int(der)
    if not 0 <= der <= k:
        raise ValueError('0<=der=%d<=k=%d must hold' % (der, k))
    if ext != 0:
        raise Unsupported('splev ext')
    n = len(t) - k - 1
    c = c[:n]
    for d in range_(der):
        kk = k - d
        nc = []
        for i in range_(len(c) - 1):
            w = t[i + kk + 1 + d] - t[i + 1 + d]
            nc.append((c[i + 1] - c[i]) * (w ** -1 * kk) if w else Sym.lift(0))
        c = nc
    tt = t[der:len(t) - der] if der else t
    kd = k - der
    nd = len(tt) - kd - 1

    def ev(v):
        v = Sym.lift(v)
        j = kd
        while j < nd - 1 and v >= tt[j + 1]:
            j += 1
        s = Sym.lift(0)
        for i, b in enumerate(_bspl(tt, kd, j, nd, v)):
            s = s + c[j - kd + i] * b
        return s
    if isinstance(x, Sym) or rnp.ndim(x) == 0:
        return ev(x if isinstance(x, Sym) else asarr(x).item())
    x = asarr(x)
    out = mk(x.shape, Sym.lift(0))
    for i in rnp.ndindex(*x.shape):
        out[i] = ev(x[i])
    return out


def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.881784197001252e-16,
           maxiter=100, full_output=False, disp=True):
    """contract: some root in [a, b]; signs at the ends must differ"""
    g = (lambda v: f(v, *args)) if args else f
    a, b = Sym.lift(a), Sym.lift(b)
    fa, fb = Sym.lift(g(a)), Sym.lift(g(b))
    if fa == 0:
        return a
    if fb == 0:
        return b
    if fa * fb > 0:
        raise ValueError('f(a) and f(b) must have different signs')
    return cur().implicit(g, a, b)


def newton(f, x0, fprime=None, args=(), **kw):
    """contract: some root (not necessarily the nearest)"""
    g = (lambda v: f(v, *args)) if args else f
    return cur().implicit(g)


SCIPY['scipy.interpolate']._over.update(splrep=splrep, splev=splev)
SCIPY['scipy.optimize']._over.update(brentq=brentq, newton=newton)

SHIMS = {'numpy': NP, 'math': MATH, 'numpy.linalg': LA,
         'numpy.fft': O['fft'], 'numpy.random': RANDOM,
         'numpy.testing': O['testing'], 'np': NP}
SHIMS.update(SCIPY)


# ---------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------

def sx_float(x=0.0):
    if isinstance(x, (Sym, SymC)):
        return x
    if isinstance(x, SymBool):
        return Sym.lift(int(x))
    if isinstance(x, rnp.ndarray) and x.dtype == object and x.size == 1:
        return x.ravel()[0]
    v = float(x)
    if core.CTX is not None:
        u = cur().untag(v)
        if isinstance(u, Sym):
            return u
        return lift1(v)
    return v


def sx_int(x=0, *a):
    if isinstance(x, Sym):
        r = cur().trunc(x)
        return int(r) if r.r.is_const() else r
    if isinstance(x, rnp.ndarray) and x.dtype == object and x.size == 1:
        return sx_int(x.ravel()[0])
    v = int(x, *a) if a else int(x)
    if core.CTX is not None and isinstance(x, (str, bytes)):
        u = cur().untag(v)
        if isinstance(u, Sym):
            return u
    return v


def sx_complex(re=0, im=0):
    if is_sym(re) or is_sym(im):
        z = SymC.lift(re) + SymC.lift(im) * 1j
        return z
    return complex(re, im)


def _symtypes(t):
    if isinstance(t, tuple):
        return any(_symtypes(x) for x in t)
    return t


def sx_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for y in ts:
            flat.extend(y if isinstance(y, tuple) else (y,))
        isint = cur().is_int(x.r)
        isreal = not x.r.is_const() and not isint
        for y in flat:
            if y in (float, rnp.floating, rnp.float64, rnp.number,
                     rnp.inexact, Sym) or y is object:
                if not (isint and y is not rnp.number and
                        not x.r.is_const()):
                    return True
            if y in (int, rnp.integer) and isint and not x.r.is_const():
                return True
            try:
                import numbers
                if y in (numbers.Number, numbers.Real):
                    return True
            except TypeError:
                pass
        return False
    if isinstance(x, SymC):
        ts = t if isinstance(t, tuple) else (t,)
        return complex in ts
    if isinstance(x, SymBool):
        ts = t if isinstance(t, tuple) else (t,)
        return bool in ts or int in ts
    if t is FLOAT64 or (isinstance(t, tuple) and FLOAT64 in t):
        return isinstance(x, float)
    return isinstance(x, t)


FLOAT64 = O['float64']


def sx_type(*a):
    if len(a) == 1:
        if isinstance(a[0], Sym):
            r = a[0].r
            return int if not r.is_const() and cur().is_int(r) else float
        if isinstance(a[0], SymArr):
            return rnp.ndarray
    return type(*a)


def sx_callable(x):
    return callable(x)


def sx_hasattr(x, n):
    if isinstance(x, (Sym, SymC)) and n in ('__len__', '__iter__',
                                            '__getitem__', 'keys'):
        return False
    if isinstance(x, Sym) and n in ('shape', 'ndim', 'dtype', 'size'):
        return False
    return hasattr(x, n)


def sx_round(x, n=None):
    if isinstance(x, Sym):
        r = cur().round_(x, n or 0)
        return r
    return builtins.round(x) if n is None else builtins.round(x, n)


def sx_str(x='', *a):
    return str(x, *a) if a else str(x)


def sx_idx(x):
    """index: symbolic bool/int arrays become concrete (forking)"""
    if isinstance(x, SymArr) and x.dtype == object:
        f = x.ravel()
        if all(isinstance(v, (bool, SymBool, rnp.bool_)) for v in f) and \
                f.size:
            return rnp.array([bool(v) for v in f],
                             dtype=bool).reshape(x.shape)
        if all(isinstance(v, (int, Sym)) for v in f):
            return rnp.array([v.__index__() if isinstance(v, Sym) else int(v)
                              for v in f], dtype=int).reshape(x.shape)
        return x
    if isinstance(x, SymBool):
        return bool(x)
    return x


def sx_msg(f):
    """text of an exception: symbolic numbers in it do not matter"""
    try:
        return f()
    except Unsupported:
        return '<message>'


class Opaque:
    """text with a symbolic number in it: may only be printed"""

    def __str__(self):
        raise Unsupported('text of a symbolic number')

    __repr__ = __format__ = __str__


def sx_mod(a, b):
    try:
        return a % b
    except Unsupported:
        if isinstance(a, str):
            return Opaque()
        raise


def sx_print(*a, **kw):
    if not any(isinstance(x, (Opaque, Sym, SymC)) for x in a):
        print(*a, **kw)


SX = {'mod': sx_mod, 'print': sx_print, 'idx': sx_idx, 'msg': sx_msg, 'float': sx_float, 'int': sx_int, 'isinstance': sx_isinstance,
      'type': sx_type, 'complex': sx_complex, 'hasattr': sx_hasattr,
      'round': sx_round, 'dtype': sx_dtype}


class Rewriter(ast.NodeTransformer):
    names = frozenset(SX) - {'idx', 'msg', 'mod', 'dtype'}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.names:
            node.func = ast.copy_location(
                ast.Name('__sx_%s__' % node.func.id, ast.Load()), node.func)
        if isinstance(node.func, ast.Name) and node.func.id in (
                'map', 'filter', 'list', 'apply'):
            node.args = [self._arg(a) for a in node.args]
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == 'dtype' and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_dtype__', ast.Load()), [node.value], []), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_mod__', ast.Load()), [node.left, node.right],
                []), node)
        return node

    def _lazy(self, e):
        return ast.copy_location(ast.Call(
            ast.Name('__sx_msg__', ast.Load()), [ast.Lambda(
                ast.arguments([], [], None, [], [], None, []), e)], []), e)

    def visit_Assert(self, node):
        self.generic_visit(node)
        if node.msg is not None and not isinstance(node.msg, ast.Constant):
            node.msg = self._lazy(node.msg)
        return node

    def visit_Raise(self, node):
        self.generic_visit(node)
        if isinstance(node.exc, ast.Call):
            node.exc.args = [
                self._lazy(a) if isinstance(a, (ast.BinOp, ast.JoinedStr)) or
                isinstance(getattr(a, 'func', None), ast.Name) and
                a.func.id == '__sx_mod__' or
                (isinstance(a, ast.Call) and
                 isinstance(a.func, ast.Attribute) and
                 a.func.attr == 'format') else a for a in node.exc.args]
        return node

    def _wrapidx(self, e):
        if isinstance(e, (ast.Name, ast.Call, ast.BinOp, ast.Compare,
                          ast.UnaryOp, ast.Attribute, ast.Subscript)) and \
                not (isinstance(e, ast.UnaryOp) and
                     isinstance(e.operand, ast.Constant)):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_idx__', ast.Load()), [e], []), e)
        return e

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Tuple):
            node.slice.elts = [self._wrapidx(e) for e in node.slice.elts]
        else:
            node.slice = self._wrapidx(node.slice)
        return node

    def _arg(self, a):
        if isinstance(a, ast.Name) and a.id in ('float', 'int', 'complex'):
            return ast.copy_location(
                ast.Name('__sx_%s__' % a.id, ast.Load()), a)
        return a


_codecache = {}


def get_code(path, rewrite):
    key = (path, rewrite)
    c = _codecache.get(key)
    if c is None:
        with open(path) as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
            if rewrite:
                tree = ast.fix_missing_locations(Rewriter().visit(tree))
            c = compile(tree, path, 'exec', dont_inherit=True)
        _codecache[key] = c
    return c


def _getcls(mod, qualname):
    x = core.LOADER.load(mod)
    for n in qualname.split('.'):
        x = getattr(x, n)
    return x


def _pickle():
    """pickle which finds the classes of the loaded copies"""
    import io
    import pickle as P
    m = types.ModuleType('pickle')
    m.__dict__.update({k: v for k, v in vars(P).items()
                       if not k.startswith('__')})

    class Pickler(P.Pickler):
        def reducer_override(self, x):
            mod = getattr(x, '__module__', None)
            if isinstance(x, (type, types.FunctionType)) and isinstance(
                    mod, str) and mod.split('.')[0] == 'pwtools':
                return _getcls, (mod, x.__qualname__)
            return NotImplemented

    def dump(obj, fd, protocol=None, **k):
        Pickler(fd, protocol).dump(obj)

    def dumps(obj, protocol=None, **k):
        fd = io.BytesIO()
        dump(obj, fd, protocol)
        return fd.getvalue()
    m.Pickler, m.dump, m.dumps = Pickler, dump, dumps
    return m


SHIMS['pickle'] = _pickle()


def _sqlite3():
    """the real sqlite3; symbolic numbers are stored as tags"""
    import sqlite3 as S
    m = types.ModuleType('sqlite3')
    m.__dict__.update({k: v for k, v in vars(S).items()
                       if not k.startswith('__')})

    def one(x):
        if isinstance(x, Sym):
            if not cur().tokens and not x.r.is_const():
                raise Unsupported('symbolic number in a database')
            return cur().tag(x)
        return x

    def bind(p):
        if isinstance(p, dict):
            return {k: one(v) for k, v in p.items()}
        return [one(v) for v in p]

    def row(r):
        if r is None or core.CTX is None:
            return r
        return tuple(cur().untag(v) if type(v) in (int, float) else v
                     for v in r)

    class Cursor(S.Cursor):
        def execute(self, sql, p=()):
            return super().execute(sql, bind(p))

        def executemany(self, sql, ps):
            return super().executemany(sql, [bind(p) for p in ps])

        def __next__(self):
            return row(super().__next__())

        def fetchone(self):
            return row(super().fetchone())

        def fetchall(self):
            return [row(r) for r in super().fetchall()]

        def fetchmany(self, *a, **k):
            return [row(r) for r in super().fetchmany(*a, **k)]

    class Connection(S.Connection):
        def cursor(self, factory=Cursor):
            return super().cursor(factory)

        def execute(self, *a):
            return self.cursor().execute(*a)

        def executemany(self, *a):
            return self.cursor().executemany(*a)

    def connect(*a, **k):
        k.setdefault('factory', Connection)
        return S.connect(*a, **k)
    m.Cursor, m.Connection, m.connect = Cursor, Connection, connect
    return m


SHIMS['sqlite3'] = _sqlite3()


class Loader:
    """Fresh copies of pwtools modules which see the stand-ins."""

    def __init__(self, overrides=None):
        core.LOADER = self
        self.mods = {}
        self.overrides = dict(overrides or {})
        b = dict(vars(builtins))
        b['__import__'] = self.imp
        for k, v in SX.items():
            b['__sx_' + k + '__'] = v
        self.builtins = b

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.overrides:
            m = self.overrides[name]
            if callable(m) and not isinstance(m, types.ModuleType):
                m = m(self)
            self.mods[name] = m
            return m
        parts = name.split('.')
        assert parts[0] == 'pwtools'
        p = os.path.join(SRC, *parts[1:])
        if os.path.isdir(p):
            path = os.path.join(p, '__init__.py')
            ispkg = True
        else:
            path = p + '.py'
            ispkg = False
        if not os.path.exists(path):
            raise ImportError('no module ' + name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        if name == 'pwtools':
            # the package __init__ only imports submodules; do that lazily
            return m
        if len(parts) > 1:
            parent = self.load('.'.join(parts[:-1]))
        try:
            exec(get_code(path, True), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if len(parts) > 1:
            setattr(parent, parts[-1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name == 'pwtools' or name.startswith('pwtools.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == '*':
                        continue
                    if not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ImportError:
                            raise ImportError('cannot import %s from %s' % (
                                f, name))
                        if name + '.' + f in self.mods:
                            setattr(m, f, self.mods[name + '.' + f])
                return m
            return self.load('pwtools')
        if name in SHIMS:
            if fromlist:
                return SHIMS[name]
            root = name.split('.')[0]
            return SHIMS.get(root)
        if name.split('.')[0] == 'scipy':
            if fromlist:
                return importlib.import_module(name)
            importlib.import_module(name)
            return SHIMS['scipy']
        return builtins.__import__(name, globals, locals, fromlist or (),
                                   level if not level else 0) \
            if not level else importlib.import_module(name)
