"""Symbolic values, path forking, SMT queries.

`Sym` wraps an exact rational function over *atoms* (see poly.py).  Atoms are
input variables, PI and applications of sqrt/cos/exp/log/arccos/floor/... whose
defining axioms are handed to the SMT solver.  Truth values are `SymBool`;
asking Python for their truth value forks the path (decision prefix
re-execution).
"""
import math
import os
import pickle
import select
import signal
import time
from fractions import Fraction

import numpy as _np
import z3

from .poly import (Ring, R, ONE, TooBig, const, norm_c, p_add, p_key, p_neg,
                   p_scale, p_sub, frac_sqrt, frac_root, mono_div)


class Unsupported(Exception):
    """The engine cannot encode an operation."""


class Stop(BaseException):
    """Abort the current path (infeasible, assumption false, budget)."""


class OutOfTime(BaseException):
    pass


CTX = None
LOADER = None       # current context (symbolic run) or None


def cur():
    if CTX is None:
        raise Unsupported('no symbolic context')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


_fcache = {}


def to_frac(x):
    """float/int -> exact "nice" rational; None for nan/inf/other."""
    t = type(x)
    if t is int or t is Fraction:
        return norm_c(x)
    if isinstance(x, (bool, _np.bool_)):
        return int(x)
    if isinstance(x, (int, _np.integer)):
        return int(x)
    if isinstance(x, (float, _np.floating)):
        f = float(x)
        r = _fcache.get(f)
        if r is not None:
            return r
        if math.isnan(f) or math.isinf(f):
            return None
        if f == int(f) and abs(f) < 1e15:
            r = int(f)
        else:
            q = Fraction(f).limit_denominator(1000)
            if float(q) == f and q != 0:
                r = norm_c(q)
            else:
                r = norm_c(Fraction(repr(f)))
        _fcache[f] = r
        return r
    if isinstance(x, Fraction):
        return norm_c(x)
    return None


# ---------------------------------------------------------------------------
# boolean expressions:  True/False | ('rel', op, R) | ('and', xs) | ('or', xs)
# | ('not', x);   op in '>', '>=', '==', '!='  (against 0)
# ---------------------------------------------------------------------------

def b_not(e):
    if e is True:
        return False
    if e is False:
        return True
    if e[0] == 'not':
        return e[1]
    if e[0] == 'rel':
        op, r = e[1], e[2]
        if op == '==':
            return ('rel', '!=', r)
        if op == '!=':
            return ('rel', '==', r)
        if op == '>':
            return ('rel', '>=', -r)
        return ('rel', '>', -r)
    if e[0] == 'and':
        return b_or([b_not(x) for x in e[1]])
    if e[0] == 'or':
        return b_and([b_not(x) for x in e[1]])


def b_and(xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if x[0] == 'and':
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def b_or(xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if x[0] == 'or':
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def b_atoms(e, acc):
    if e is True or e is False:
        return acc
    if e[0] == 'rel':
        acc |= e[2].atoms()
    elif e[0] == 'not':
        b_atoms(e[1], acc)
    else:
        for x in e[1]:
            b_atoms(x, acc)
    return acc


class SymBool:
    __slots__ = ('e',)
    __array_priority__ = 200

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        if self.e is True or self.e is False:
            return self.e
        return cur().branch(self.e)

    @staticmethod
    def lift(x):
        if isinstance(x, SymBool):
            return x.e
        if isinstance(x, (bool, _np.bool_)):
            return bool(x)
        if isinstance(x, Sym):
            return (x != 0).e if isinstance(x != 0, SymBool) else (x != 0)
        if isinstance(x, int):
            return bool(x)
        return NotImplemented

    def __and__(self, o):
        o = SymBool.lift(o)
        return NotImplemented if o is NotImplemented else \
            SymBool(b_and([self.e, o]))
    __rand__ = __and__

    def __or__(self, o):
        o = SymBool.lift(o)
        return NotImplemented if o is NotImplemented else \
            SymBool(b_or([self.e, o]))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(b_not(self.e))

    def __eq__(self, o):
        o = SymBool.lift(o)
        if o is NotImplemented:
            return False
        return SymBool(b_or([b_and([self.e, o]),
                             b_and([b_not(self.e), b_not(o)])]))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return id(self)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    def __radd__(self, o):
        return o + int(self)

    def __mul__(self, o):
        return int(self) * o

    def __rmul__(self, o):
        return o * int(self)

    def __repr__(self):
        return 'SymBool'


def rel(op, r):
    """Build relation with constant folding. r: R"""
    if r.is_const():
        c = r.const()
        return {'>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
    if not r.num:
        return op in ('>=', '==')
    c = cur()
    s = c.quick_sign(r)
    if s is not None:
        if s == 2:      # > 0
            return op in ('>', '>=', '!=')
        if s == -2:
            return op == '!='
        if s == 1 and op == '>=':
            return True
        if s == -1 and op == '>':
            return False
    return ('rel', op, r)


def from_tag(x):
    return cur().untag(x)


class Sym:
    __slots__ = ('r',)
    __array_priority__ = 100

    def __init__(self, r):
        self.r = r

    # numpy looks at these
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return cur().num(0)

    @property
    def T(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return _np.dtype(object)

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        from . import shim
        return shim.cast_scalar(self, t)

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def __iter__(self):
        raise TypeError("'float' object is not iterable")

    def __getitem__(self, i):
        from .shim import nested
        if isinstance(i, tuple) and all(x is None or x is Ellipsis
                                        for x in i) or i is None or \
                i is Ellipsis:
            out = self
            for x in (i if isinstance(i, tuple) else (i,)):
                if x is None:
                    out = [out]
            return self if out is self else nested(out)
        raise IndexError('invalid index to scalar variable.')

    def min(self, *a, **k):
        return self

    def round(self, n=0, *a):
        return cur().round_(self, n)

    def __reduce__(self):
        if not cur().tokens:
            raise Unsupported('pickle')
        return from_tag, (float(cur().tag(self)),)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def is_int(self):
        return cur().is_int(self.r)

    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        c = to_frac(x)
        if c is None:
            return None
        return Sym(R(cur().ring, const(c)))

    # -- arithmetic -------------------------------------------------------
    def _bin(self, o, f, rev=False):
        if isinstance(o, Sym):
            b = o
        elif isinstance(o, SymBool):
            b = Sym.lift(int(o))
        elif isinstance(o, (complex, _np.complexfloating)):
            z = SymC(self, Sym.lift(0))
            w = SymC.lift(o)
            return f(w, z) if rev else f(z, w)
        elif isinstance(o, SymC):
            z = SymC(self, Sym.lift(0))
            return f(o, z) if rev else f(z, o)
        elif isinstance(o, (float, _np.floating)) and not math.isfinite(o):
            return self._nonfinite(float(o), f, rev)
        elif isinstance(o, _np.ndarray):
            if o.ndim == 0:
                return self._bin(o.item(), f, rev)
            from .shim import emap, lift1
            return emap(lambda x: f(lift1(x), self) if rev
                        else f(self, lift1(x)), o) if all(
                isinstance(x, Sym) or Sym.lift(x) is not None
                for x in o.ravel()) else emap(
                lambda x: self._bin(x, f, rev), o)
        else:
            b = Sym.lift(o)
            if b is None:
                return NotImplemented
        return f(b, self) if rev else f(self, b)

    def _nonfinite(self, o, f, rev):
        if math.isnan(o):
            return o
        if f in (_add,):
            return o
        if f is _sub:
            return o if rev else -o
        if f is _div and not rev:
            return Sym.lift(0)
        s = cur().sign_fork(self.r)
        if f in (_mul, _div) and s:
            return o if s > 0 else -o
        return float('nan')

    def __add__(self, o):
        return self._bin(o, _add)

    def __radd__(self, o):
        return self._bin(o, _add, True)

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, _sub, True)

    def __mul__(self, o):
        return self._bin(o, _mul)

    def __rmul__(self, o):
        return self._bin(o, _mul, True)

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __floordiv__(self, o):
        return self._bin(o, _fdiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _fdiv, True)

    def __mod__(self, o):
        return self._bin(o, _mod)

    def __rmod__(self, o):
        return self._bin(o, _mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        return self._bin(o, _pow)

    def __rpow__(self, o):
        return self._bin(o, _pow, True)

    def __neg__(self):
        return Sym(-self.r)

    def __pos__(self):
        return self

    def __abs__(self):
        return cur().abs_r(self)

    fabs = __abs__
    absolute = __abs__

    def _cmp(self, o, op, swap=False):
        if isinstance(o, SymC):
            return NotImplemented
        if isinstance(o, (float, _np.floating)) and not math.isfinite(o):
            o = float(o)
            if math.isnan(o):
                return op == '!='
            if op in ('==', '!='):
                return op == '!='
            return (o < 0) != swap
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            out = _np.empty(o.shape, dtype=object)
            for i in _np.ndindex(*o.shape):
                out[i] = self._cmp(o[i], op, swap)
            from .shim import wrap
            return wrap(out)
        if isinstance(o, _np.ndarray):
            o = o.item()
        b = Sym.lift(int(o) if isinstance(o, SymBool) else o)
        if b is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        d = (b.r - self.r) if swap else (self.r - b.r)
        e = rel(op, d)
        return e if isinstance(e, bool) else SymBool(e)

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __lt__(self, o):
        return self._cmp(o, '>', True)

    def __le__(self, o):
        return self._cmp(o, '>=', True)

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        if self.r.is_const():
            return hash(self.r.const())
        return 0x5e5e        # force comparison by ==

    def __bool__(self):
        return bool(self != 0)

    # -- conversions ------------------------------------------------------
    def __float__(self):
        return cur().to_float(self)

    def __int__(self):
        return cur().to_int(self)

    def __index__(self):
        if not self.r.is_const() and not cur().is_int(self.r):
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        if self.r.is_const() and not isinstance(self.r.const(), int):
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        return cur().to_int(self)

    def __trunc__(self):
        return cur().trunc(self)

    def __round__(self, n=None):
        return cur().round_(self, n or 0)

    def __floor__(self):
        return cur().floor(self)

    def __ceil__(self):
        return -cur().floor(-self)

    def is_integer(self):
        return cur().is_int(self.r)

    def __format__(self, spec):
        x = cur().tag(self)
        return format(x, spec) if spec else str(x)

    def __str__(self):
        return str(cur().tag(self))

    def __repr__(self):
        c = CTX
        if c is None:
            return 'Sym(?)'
        if c.tokens:
            return repr(cur().tag(self))
        return 'Sym(%s)' % c.show(self.r)

    # -- numpy object-ufunc hooks ------------------------------------------
    def sqrt(self):
        return cur().sqrt(self)

    def cbrt(self):
        return cur().root(self, 3)

    def square(self):
        return self * self

    def cos(self):
        return cur().cos(self)

    def sin(self):
        return cur().sin(self)

    def tan(self):
        return cur().sin(self) / cur().cos(self)

    def exp(self):
        return cur().exp(self)

    def expm1(self):
        return cur().exp(self) - 1

    def log(self):
        return cur().log(self)

    def log10(self):
        return cur().log(self) / cur().log(Sym.lift(10))

    def log2(self):
        return cur().log(self) / cur().log(Sym.lift(2))

    def log1p(self):
        return cur().log(self + 1)

    def sinh(self):
        e = cur().exp(self)
        return (e - 1 / e) / 2

    def cosh(self):
        e = cur().exp(self)
        return (e + 1 / e) / 2

    def tanh(self):
        e = cur().exp(self)
        return (e - 1 / e) / (e + 1 / e)

    def arccos(self):
        return cur().arccos(self)

    def arcsin(self):
        return cur().PI / 2 - cur().arccos(self)

    def arctan2(self, o):
        return cur().arctan2(self, Sym.lift(o))

    def arctan(self):
        return cur().arctan2(self, Sym.lift(1))

    def radians(self):
        return self * cur().PI / 180
    deg2rad = radians

    def degrees(self):
        return self * 180 / cur().PI
    rad2deg = degrees

    def floor(self):
        return cur().floor(self)

    def ceil(self):
        return -cur().floor(-self)

    def trunc(self):
        return cur().trunc(self)

    def rint(self):
        return cur().round_(self, 0)

    def sign(self):
        return Sym.lift(cur().sign_fork(self.r))

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def logical_not(self):
        return ~SymBool(SymBool.lift(self))


def _add(a, b):
    if isinstance(a, SymC) or isinstance(b, SymC):
        return SymC._add(a, b)
    return Sym(a.r + b.r)


def _sub(a, b):
    if isinstance(a, SymC) or isinstance(b, SymC):
        return SymC._add(a, -b)
    return Sym(a.r - b.r)


def _mul(a, b):
    if isinstance(a, SymC) or isinstance(b, SymC):
        return SymC._mul(a, b)
    return Sym(a.r * b.r)


def _div(a, b):
    if isinstance(a, SymC) or isinstance(b, SymC):
        return SymC._div(a, b)
    c = cur()
    if b.r.is_const():
        k = b.r.const()
        if k == 0:
            return c.div_zero(a)
        return Sym(R(c.ring, p_scale(a.r.num, norm_c(Fraction(1) / k)),
                     a.r.den))
    z = c.nonzero(b.r)
    if not z:
        return c.div_zero(a)
    if not a.r.num:
        return a
    return Sym(a.r * b.r.inv())


def _fdiv(a, b):
    return cur().floor(_div(a, b))


def _mod(a, b):
    if isinstance(a, SymC) or isinstance(b, SymC):
        return NotImplemented
    c = cur()
    return a - b * c.floor(_div(a, b))


def _pow(a, b):
    c = cur()
    if isinstance(a, SymC) or isinstance(b, SymC):
        if isinstance(b, SymC):
            raise Unsupported('complex exponent')
        n = b.r.const() if b.r.is_const() else None
        if not isinstance(n, int):
            raise Unsupported('complex power')
        out = SymC(Sym.lift(1), Sym.lift(0))
        for _ in range(abs(n)):
            out = SymC._mul(out, a)
        return out if n >= 0 else SymC._div(SymC(Sym.lift(1), Sym.lift(0)), out)
    return c.power(a, b)


class SymC:
    """Complex symbolic number."""
    __slots__ = ('re', 'im')
    __array_priority__ = 150
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @staticmethod
    def lift(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, Sym):
            return SymC(x, Sym.lift(0))
        if isinstance(x, (complex, _np.complexfloating)):
            return SymC(Sym.lift(float(x.real)), Sym.lift(float(x.imag)))
        s = Sym.lift(x)
        if s is None:
            return None
        return SymC(s, Sym.lift(0))

    def _bin(self, o, f, rev=False):
        if isinstance(o, _np.ndarray):
            if o.ndim:
                return NotImplemented
            o = o.item()
        b = SymC.lift(o)
        if b is None:
            return NotImplemented
        return f(b, self) if rev else f(self, b)

    @staticmethod
    def _add(a, b):
        a, b = SymC.lift(a), SymC.lift(b)
        return SymC(a.re + b.re, a.im + b.im)

    @staticmethod
    def _sub(a, b):
        a, b = SymC.lift(a), SymC.lift(b)
        return SymC(a.re - b.re, a.im - b.im)

    @staticmethod
    def _mul(a, b):
        a, b = SymC.lift(a), SymC.lift(b)
        return SymC(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)

    @staticmethod
    def _div(a, b):
        a, b = SymC.lift(a), SymC.lift(b)
        if not b.im.r.num:
            return SymC(a.re / b.re, a.im / b.re)
        d = b.re * b.re + b.im * b.im
        return SymC((a.re * b.re + a.im * b.im) / d,
                    (a.im * b.re - a.re * b.im) / d)

    def __add__(self, o):
        return self._bin(o, SymC._add)

    def __radd__(self, o):
        return self._bin(o, SymC._add, True)

    def __sub__(self, o):
        return self._bin(o, SymC._sub)

    def __rsub__(self, o):
        return self._bin(o, SymC._sub, True)

    def __mul__(self, o):
        return self._bin(o, SymC._mul)

    def __rmul__(self, o):
        return self._bin(o, SymC._mul, True)

    def __truediv__(self, o):
        return self._bin(o, SymC._div)

    def __rtruediv__(self, o):
        return self._bin(o, SymC._div, True)

    def __pow__(self, o):
        return self._bin(o, lambda a, b: _pow(
            a, b.re if isinstance(b, SymC) and not b.im.r.num else b))

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return (self.re * self.re + self.im * self.im).sqrt()
    absolute = __abs__
    fabs = __abs__

    def conjugate(self):
        return SymC(self.re, -self.im)
    conj = conjugate

    def __eq__(self, o):
        o = SymC.lift(o)
        if o is None:
            return False
        return SymBool(b_and([SymBool.lift(self.re == o.re),
                              SymBool.lift(self.im == o.im)]))

    def __ne__(self, o):
        e = self == o
        return ~e if isinstance(e, SymBool) else not e

    def __hash__(self):
        return 0x5e5f

    def __bool__(self):
        return bool(self != 0)

    def exp(self):
        c = cur()
        e = c.exp(self.re)
        return SymC(e * c.cos(self.im), e * c.sin(self.im))

    def square(self):
        return self * self

    def sqrt(self):
        raise Unsupported('complex sqrt')

    def isnan(self):
        return False

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SymC(%r, %r)' % (self.re, self.im)


def _is_symbool(x):
    return isinstance(x, SymBool)


# ---------------------------------------------------------------------------

class Atom:
    __slots__ = ('id', 'kind', 'name', 'arg', 'zv', 'lo', 'hi', 'sign',
                 'isint', 'ax', 'axdone', 'extra', 'tight')

    def __init__(self, id, kind, name, arg=None, isint=False, sign=None):
        self.id = id
        self.kind = kind
        self.name = name
        self.arg = arg
        self.isint = isint
        self.sign = sign      # 2 '>0', 1 '>=0', None unknown
        self.lo = self.hi = None
        self.ax = []          # list of bool exprs
        self.zv = None
        self.extra = None
        self.tight = False


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.trivial = 0
        self.paths = 0
        self.branches = 0
        self.atoms = 0
        self.checks = 0
        self.discharged = 0
        self.cvc5 = 0

    def asdict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k, 0) + v)


PI_LO = Fraction(314159265358979, 10 ** 14)
PI_HI = Fraction(314159265358980, 10 ** 14)


class Ctx:
    """One symbolic path."""
    symbolic = True

    def __init__(self, prefix, stats, deadline=None, cfg=None):
        cfg = cfg or {}
        self.cfg = cfg
        self.prefix = prefix
        self.stats = stats
        self.deadline = deadline
        self.decisions = []
        self.pending = []
        self.ring = Ring()
        self.ring.check = self.tick
        self.atoms = []
        self.bykey = {}
        self._fa = {}
        self.sqrtm = {}
        self.path = []            # bool exprs
        self.assumed = []         # descriptive strings
        self.assumed_keys = set()
        self.base = {}            # name -> atom id
        self.tokens = False
        self.tags = {}            # key -> (number, Sym)
        self.tagnum = {}
        self.tagsorted = None
        self.frac = 0
        self.lazy = False         # extrema as atoms instead of forks
        self.int_tagging = False
        self.signed = False
        self.failures = []
        self.observed = []
        self.qtimeout = cfg.get('qtimeout', 4000)
        self.btimeout = cfg.get('btimeout', 1500)
        self.div_policy = cfg.get('div', 'assume')
        self.funcs = set()
        self._solver = None
        self._solver_n = 0
        a = self.new_atom('pi', 'PI', sign=2)
        a.lo, a.hi = PI_LO, PI_HI
        self.PI = self.atom_sym(a)
        self.qcache = {}

    # -- time -------------------------------------------------------------
    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime()

    # -- atoms ------------------------------------------------------------
    def new_atom(self, kind, name, arg=None, isint=False, sign=None):
        a = Atom(len(self.atoms), kind, name, arg, isint, sign)
        self.atoms.append(a)
        self.stats.atoms += 1
        return a

    def atom_sym(self, a):
        return Sym(R(self.ring, {((a.id, 1),): 1}))

    def num(self, x):
        return Sym.lift(x)

    def show(self, r, lim=300):
        def sp(p):
            out = []
            for m, c in sorted(p.items(), key=lambda t: t[0]):
                out.append('%s%s' % (c, ''.join(
                    '*%s%s' % (self.atoms[a].name, '' if e == 1 else '^%i' % e)
                    for a, e in m)))
                if len(out) > 12:
                    out.append('...')
                    break
            return ' + '.join(out) or '0'
        s = sp(r.num)
        if r.den:
            s = '(%s)/(%s)' % (s, ')('.join(
                sp(p) + ('' if e == 1 else '^%i' % e)
                for p, e in r.den.values()))
        return s[:lim]

    def is_int(self, r):
        if r.den:
            return False
        for m, c in r.num.items():
            if not isinstance(c, int):
                return False
            for a, e in m:
                if not self.atoms[a].isint:
                    return False
        return True

    # -- inputs -----------------------------------------------------------
    def var(self, name, lo=None, hi=None, isint=False, strict=False):
        if name in self.base:
            return self.atom_sym(self.atoms[self.base[name]])
        a = self.new_atom('int' if isint else 'var', name, isint=isint)
        a.lo, a.hi = lo, hi
        if lo is not None and (lo > 0 or (lo == 0 and strict)):
            a.sign = 2
        elif lo is not None and lo == 0:
            a.sign = 1
        self.base[name] = a.id
        s = self.atom_sym(a)
        if lo is not None:
            a.ax.append(('rel', '>' if strict else '>=', (s - lo).r))
        if hi is not None:
            a.ax.append(('rel', '>' if strict else '>=', (hi - s).r))
        return s

    # -- signs --------------------------------------------------------------
    def poly_sign(self, p):
        """2 >0, 1 >=0, -2, -1, 0 or None; quick syntactic rule."""
        if not p:
            return 0
        tot = None
        strict = False
        for m, c in p.items():
            s = 2
            for a, e in m:
                at = self.atoms[a].sign
                if at == 2:
                    continue
                if e % 2 == 0:
                    s = min(s, 1)
                    continue
                if at == 1:
                    s = min(s, 1)
                    continue
                return None
            sg = 1 if c > 0 else -1
            if tot is None:
                tot = sg
            elif tot != sg:
                return None
            if s == 2:
                strict = True
        return tot * (2 if strict else 1)

    def quick_sign(self, r):
        s = self.poly_sign(r.num)
        if s is None or s == 0:
            return s
        for p, e in r.den.values():
            if e % 2:
                d = self.poly_sign(p)
                if d is None:
                    return None
                if d < 0:
                    s = -s
        return s

    def sign_fork(self, r):
        """-1, 0, 1 (0 only when exactly zero); forks when undetermined."""
        if r.is_const():
            c = r.const()
            return (c > 0) - (c < 0)
        q = self.quick_sign(r)
        if q == 2 or q == -2:
            return q // 2
        if q == 1:
            return 1 if self.branch(('rel', '>', r)) else 0
        if q == -1:
            return -1 if self.branch(('rel', '>', -r)) else 0
        if self.branch(('rel', '>', r)):
            return 1
        if self.branch(('rel', '==', r)):
            return 0
        return -1

    def abs_r(self, s):
        """|s|; forks only on s >= 0."""
        q = self.quick_sign(s.r) if not s.r.is_const() else \
            (1 if s.r.const() >= 0 else -1)
        if q is not None:
            return s if q >= 0 else -s
        if self.lazy:
            out = Sym.lift(1)
            for p, e in s.r.den.values():
                if e % 2:
                    out = out * self.abs_r(Sym(R(self.ring, p)))
                out = out * Sym(R(self.ring, p))**(e - e % 2)
            n = Sym(R(self.ring, s.r.num))
            if not self.ring.lead(n.r.num)[1] > 0:
                n = -n
            m = self.extremum('max', [n, -n])
            a = self.atoms[next(iter(m.r.num))[0][0]]
            a.sign = 1
            self.ring.rules[a.id] = (2, (n * n).r.num)
            return m / out
        return s if self.branch(('rel', '>', s.r)) else -s

    def nonzero(self, r):
        """Is r != 0 on this path?  Policy decides the undecided case."""
        if r.is_const():
            return r.const() != 0
        if not r.num:
            return False
        if self.quick_sign(r) in (2, -2):
            return True
        # monomials of provably nonzero atoms
        k = p_key(r.num)
        if k in self.assumed_keys:
            return True
        if len(r.num) == 1:
            (m, c), = r.num.items()
            if all(self.atoms[a].sign == 2 for a, _ in m):
                return True
        if self.div_policy == 'fork':
            return not self.branch(('rel', '==', R(self.ring, r.num)))
        res = self.query([('rel', '==', R(self.ring, r.num))],
                         timeout=300, stat=False)
        self.assumed_keys.add(k)
        if res[0] == 'unsat':
            return True
        self.assumed.append('divisor nonzero: ' + self.show(
            R(self.ring, r.num), 120))
        self.path.append(('rel', '!=', R(self.ring, r.num)))
        return True

    def div_zero(self, a):
        if self.cfg.get('pyzero'):
            raise ZeroDivisionError('division by zero')
        if isinstance(a, Sym) and not a.r.num:
            return float('nan')
        s = self.sign_fork(a.r)
        if s == 0:
            return float('nan')
        return float('inf') * s

    # -- functions ------------------------------------------------------------
    def power(self, a, b):
        if b.r.is_const():
            n = norm_c(b.r.const())
            if isinstance(n, int):
                if n >= 0:
                    if n > 64:
                        raise Unsupported('large power')
                    return Sym(a.r.ipow(n))
                if not a.r.num:
                    return self.div_zero(self.num(1))
                return _div(self.num(1), Sym(a.r.ipow(-n)))
            # k is exact rational p/q
            q = n.denominator
            if q in (2, 3, 4, 6, 8) :
                base = a
                if q == 2:
                    y = self.sqrt(base)
                elif q == 3:
                    y = self.root(base, 3)
                elif q == 4:
                    y = self.sqrt(self.sqrt(base))
                elif q == 6:
                    y = self.root(self.sqrt(base), 3)
                else:
                    y = self.sqrt(self.sqrt(self.sqrt(base)))
                return self.power(y, self.num(n.numerator))
        elif self.is_int(b.r):
            n = self.to_int(b)
            return self.power(a, self.num(n))
        # general: exp(b*log(a))
        return self.exp(b * self.log(a))

    def _split_square(self, p):
        """p = out**2 * rest; out as Sym factors list (|.| needed), rest poly.
        """
        ring = self.ring
        outs = []
        if not p:
            return outs, p
        # monomial content
        items = iter(p)
        g = dict(next(items))
        for m in items:
            if not g:
                break
            d = dict(m)
            g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        g = {a: e // 2 for a, e in g.items() if e >= 2}
        if g:
            gm = tuple(sorted(g.items()))
            g2 = tuple((a, 2 * e) for a, e in gm)
            p = {mono_div(m, g2): c for m, c in p.items()}
            for a, e in gm:
                outs.extend([Sym(R(ring, {((a, 1),): 1}))] * e)
        # rational content: make integer primitive, pull square part
        from math import gcd
        den = 1
        for c in p.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
        num = 0
        for c in p.values():
            num = gcd(num, int(abs(c) * den))
        # p = (num/den) * q , q primitive
        cont = Fraction(num, den)
        sq = _square_part(cont)
        if sq != 1:
            p = p_scale(p, norm_c(1 / (sq * sq)))
            outs.append(self.num(norm_c(sq)))
        s = ring.sqrt_poly(p)
        if s is not None:
            outs.append(Sym(R(ring, s)))
            return outs, {ONE: 1}
        # trig: factors (1 - c**2)
        for aid in {a for m in p for a, _ in m}:
            at = self.atoms[aid]
            if at.kind == 'cos' and at.extra is not None:
                f = {ONE: 1, ((aid, 2),): -1}
                q = ring.div_exact(p, f)
                if q is not None:
                    o2, rest = self._split_square(q)
                    sn = self.sin(Sym(at.arg))
                    return outs + [sn] + o2, rest
        return outs, p

    def sqrt(self, x):
        if x.r.is_const():
            c = x.r.const()
            if c < 0:
                return float('nan')
            f = frac_sqrt(c)
            if f is not None:
                return self.num(f)
        elif not x.r.num:
            return x
        ring = self.ring
        num = x.r.num
        out = self.num(1)
        for p, e in x.r.den.values():
            q = Sym(R(ring, p))
            k = (e + 1) // 2
            if e % 2:
                known = self.known_sqrt(p)
                if known is not None:
                    out = out * known
                else:
                    num = ring.mul(num, p)
            out = out / self.abs_r(q.__pow__(k) if k > 1 else q)
        outs, rest = self._split_square(num)
        if len(rest) > 1:
            for k, aid in self.sqrtm.items():
                at = self.atoms[aid]
                if len(at.arg.num) < 2 or at.sign != 2 or \
                        len(at.arg.num) >= len(rest):
                    continue
                q = ring.div_exact(rest, at.arg.num)
                if q is not None:
                    out = out * self.atom_sym(at)
                    o2, rest = self._split_square(q)
                    outs = outs + o2
        for o in outs:
            out = out * self.abs_r(o)
        if len(rest) == 1 and ONE in rest and rest[ONE] == 1:
            return out
        # domain
        rr = R(ring, rest)
        if not rr.is_const():
            self.domain(('rel', '>=', rr), 'sqrt argument >= 0')
        elif rr.const() < 0:
            return float('nan')
        # denominators of rest coefficients: sqrt(p/d) = sqrt(p*d)/d
        key = ('sqrt', p_key(rest))
        aid = self.bykey.get(key)
        if aid is None:
            a = self.new_atom('sqrt', 'sqrt[%s]' % self.show(rr, 60), rr)
            a.sign = 2 if self.quick_sign(rr) == 2 or \
                (rr.is_const() and rr.const() > 0) else 1
            self.bykey[key] = a.id
            self.sqrtm[p_key(p_scale(rest, norm_c(
                1 / Fraction(ring.lead(rest)[1]))))] = a.id
            self.ring.rules[a.id] = (2, rest)
            y = self.atom_sym(a)
            a.ax.append(('rel', '>=', y.r))
            a.extra = 'y2'
        else:
            y = self.atom_sym(self.atoms[aid])
        return out * y

    def known_sqrt(self, p):
        """sqrt(p) if the root of (a multiple of) p is already an atom."""
        c = norm_c(1 / Fraction(self.ring.lead(p)[1]))
        aid = self.sqrtm.get(p_key(p_scale(p, c)))
        if aid is None:
            return None
        rest = self.atoms[aid].arg.num
        m = next(iter(rest))
        k = Fraction(p[m]) / rest[m]
        if k <= 0:
            return None
        y = self.atom_sym(self.atoms[aid])
        return y if k == 1 else y * self.sqrt(self.num(norm_c(k)))

    def root(self, x, k):
        """odd root (k=3) of positive argument (numpy semantics for pow: nan
        for negative)."""
        if x.r.is_const():
            c = x.r.const()
            f = frac_root(c, k)
            if f is not None and c >= 0:
                return self.num(f)
        if not x.r.num:
            return x
        ring = self.ring
        num = x.r.num
        out = self.num(1)
        for p, e in x.r.den.values():
            q, rem = divmod(e, k)
            if rem:
                num = ring.mul(num, ring.pow(p, k - rem))
                q += 1
            out = out / Sym(R(ring, p)).__pow__(q)
        # perfect powers of a monomial content
        items = iter(num)
        g = dict(next(items))
        for m in items:
            d = dict(m)
            g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        g = {a: e // k for a, e in g.items() if e >= k}
        if g:
            gm = tuple(sorted(g.items()))
            gk = tuple((a, k * e) for a, e in gm)
            num = {mono_div(m, gk): c for m, c in num.items()}
            out = out * Sym(R(ring, {gm: 1}))
        cont = None
        if len(num) == 1:
            (m, c), = num.items()
            f = frac_root(c, k)
            if f is not None and c > 0:
                out = out * self.num(f)
                num = {m: 1}
                if not m:
                    return out
        rr = R(ring, num)
        if not rr.is_const():
            self.domain(('rel', '>=', rr), 'root argument >= 0')
        key = ('root', k, p_key(num))
        aid = self.bykey.get(key)
        if aid is None:
            a = self.new_atom('root', 'root%i[%s]' % (k, self.show(rr, 60)),
                              rr)
            a.sign = 2 if self.quick_sign(rr) == 2 or \
                (rr.is_const() and rr.const() > 0) else 1
            a.extra = k
            self.bykey[key] = a.id
            self.ring.rules[a.id] = (k, num)
            y = self.atom_sym(a)
            a.ax.append(('rel', '>=', y.r))
        else:
            y = self.atom_sym(self.atoms[aid])
        return out * y

    def domain(self, e, what):
        """Domain condition: holds, else assume (recorded)."""
        e2 = rel(e[1], e[2])
        if e2 is True:
            return
        if e2 is False:
            raise Unsupported('domain: ' + what)
        k = ('dom', e[1], e[2].key())
        if k in self.assumed_keys:
            return
        self.assumed_keys.add(k)
        res = self.query([b_not(e)], timeout=500, stat=False)
        if res[0] == 'unsat':
            return
        self.assumed.append('domain: %s: %s' % (what, self.show(e[2], 120)))
        self.path.append(e)

    def canon_angle(self, r):
        """r = arg mod 2 PI; returns (sign, R, k) with arg = sign*R + k*PI/60
        where R has no pure PI part with denominators dividing 60"""
        num, den = r.num, r.den
        k = 0
        if not den:
            m = ((0, 1),)
            c = num.get(m)
            if c is not None and (Fraction(c) * 60).denominator == 1:
                num = dict(num)
                del num[m]
                k = int(Fraction(c) * 60)
        if not num:
            return 1, R(self.ring, {}), k
        mm = min(num)
        sgn = 1
        if num[mm] < 0:
            num = p_neg(num)
            sgn = -1
        return sgn, R(self.ring, num, den), k

    def _trig_const(self, k):
        """(cos, sin) of k*PI/60"""
        k %= 120
        if k % 5 == 0:
            return self._trig12(k // 5)
        b = 3 * k % 5           # k = 5 a + 12 b
        a = (k - 12 * b) // 5
        c, s = self._trig12(a)
        s5 = self.sqrt(self.num(5))
        c1 = (s5 + 1) / 4       # PI/5
        s1 = self.sqrt(10 - 2 * s5) / 4
        for _ in range(b % 10):
            c, s = c * c1 - s * s1, s * c1 + c * s1
        return c, s

    def _trig12(self, k):
        """(cos, sin) of k*PI/12"""
        k %= 24
        s2 = lambda: self.sqrt(self.num(2))
        s3 = lambda: self.sqrt(self.num(3))
        s6 = lambda: self.sqrt(self.num(6))

        def c(k):
            k %= 24
            if k > 12:
                k = 24 - k
            if k > 6:
                return -c(12 - k)
            if k == 0:
                return self.num(1)
            if k == 6:
                return self.num(0)
            if k == 4:
                return self.num(Fraction(1, 2))
            if k == 3:
                return s2() / 2
            if k == 2:
                return s3() / 2
            if k == 1:
                return (s2() * s3() + s2()) / 4
            if k == 5:
                return (s2() * s3() - s2()) / 4
        return c(k), c(k - 6)

    def _cs(self, r):
        """(cos, sin) Syms of canonical nonconstant-shift arg R."""
        if not r.num:
            return self.num(1), self.num(0)
        # arg = c * acos-atom / asin..: cos(acos x) = x
        if not r.den and len(r.num) == 1:
            (m, c), = r.num.items()
            if len(m) == 1 and m[0][1] == 1:
                at = self.atoms[m[0][0]]
                if at.kind == 'acos' and isinstance(c, int) and 1 <= c <= 4:
                    x = Sym(at.arg)
                    cc, ss = x, self.sqrt(1 - x * x)
                    co, si = cc, ss
                    for _ in range(c - 1):
                        co, si = co * cc - si * ss, si * cc + co * ss
                    return co, si
                if at.kind == 'atan2' and c == 1:
                    y, x = at.extra
                    y, x = Sym(y), Sym(x)
                    h = self.sqrt(x * x + y * y)
                    return x / h, y / h
        key = ('cos', r.key())
        aid = self.bykey.get(key)
        if aid is None:
            nm = self.show(r, 50)
            a = self.new_atom('cos', 'cos[%s]' % nm, r)
            b = self.new_atom('sin', 'sin[%s]' % nm, r)
            a.extra = b.id
            b.extra = a.id
            self.bykey[key] = a.id
            cs = self.atom_sym(a)
            self.ring.rules[b.id] = (2, {ONE: 1, ((a.id, 2),): -1})
            a.ax.append(('rel', '>=', (1 - cs).r))
            a.ax.append(('rel', '>=', (1 + cs).r))
            sn = self.atom_sym(b)
            b.ax.append(('rel', '>=', (1 - sn).r))
            b.ax.append(('rel', '>=', (1 + sn).r))
            # 0 < arg < PI  ->  sin > 0
            arg = Sym(r)
            e1, e2 = rel('>', arg.r), rel('>', (self.PI - arg).r)
            pre = b_and([e1, e2])
            if pre is True or (pre is not False and self.query(
                    [b_not(pre)], timeout=300, stat=False)[0] == 'unsat'):
                b.sign = 2
                b.ax.append(('rel', '>', sn.r))
                a.ax.append(('rel', '>', (1 - cs).r))
                a.ax.append(('rel', '>', (1 + cs).r))
                e3 = rel('>', (self.PI / 2 - arg).r)
                if e3 is True or (e3 is not False and self.query(
                        [b_not(e3)], timeout=300, stat=False)[0] == 'unsat'):
                    a.sign = 2
                    a.ax.append(('rel', '>', cs.r))
            q = arg if arg.r.is_const() else arg / self.PI
            if q.r.is_const():
                # a number: give its value
                v = float(q.r.const())
                if not arg.r.is_const():
                    v *= math.pi
                if abs(v) < 100:
                    d = 10**12
                    for at, y, w in ((a, cs, math.cos(v)),
                                     (b, sn, math.sin(v))):
                        n = round(w * d)
                        at.ax.append(('rel', '>', (y - Fraction(
                            n - 1, d)).r))
                        at.ax.append(('rel', '>', (Fraction(
                            n + 1, d) - y).r))
        else:
            a = self.atoms[aid]
            cs = self.atom_sym(a)
            sn = self.atom_sym(self.atoms[a.extra])
        return cs, sn

    def cossin(self, x):
        sgn, r, k = self.canon_angle(x.r)
        c, s = self._cs(r)
        if sgn < 0:
            s = -s
        if k % 120:
            ck, sk = self._trig_const(k)
            c, s = c * ck - s * sk, s * ck + c * sk
        return c, s

    def cos(self, x):
        return self.cossin(x)[0]

    def sin(self, x):
        return self.cossin(x)[1]

    def arccos(self, x):
        if x.r.is_const():
            c = x.r.const()
            tab = {1: 0, -1: 1, 0: Fraction(1, 2), Fraction(1, 2):
                   Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}
            if c in tab:
                return self.PI * tab[c]
        # acos(cos(t)) for 0 <= t <= PI
        if not x.r.den and len(x.r.num) == 1:
            (m, c), = x.r.num.items()
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                at = self.atoms[m[0][0]]
                if at.kind == 'cos':
                    t = Sym(at.arg)
                    e = b_and([rel('>=', t.r), rel('>=', (self.PI - t).r)])
                    ok = e is True or (e is not False and self.query(
                        [b_not(e)], timeout=1000, stat=False)[0] == 'unsat')
                    if ok:
                        return t if c == 1 else self.PI - t
        mm = min(x.r.num) if x.r.num else ONE
        if x.r.num and x.r.num[mm] < 0:
            return self.PI - self.arccos(-x)
        key = ('acos', x.r.key())
        aid = self.bykey.get(key)
        if aid is None:
            self.domain(('rel', '>=', (1 - x * x).r), 'arccos argument')
            a = self.new_atom('acos', 'acos[%s]' % self.show(x.r, 50), x.r)
            a.sign = 1
            self.bykey[key] = a.id
            y = self.atom_sym(a)
            a.ax.append(('rel', '>=', y.r))
            a.ax.append(('rel', '>=', (self.PI - y).r))
            half = (self.PI / 2 - y)
            for o1, o2 in (('>', '>'), ('==', '==')):
                e1, e2 = rel(o1, half.r), rel(o2, x.r)
                a.ax.append(b_or([b_and([e1, e2]),
                                  b_and([b_not(e1), b_not(e2)])]))
            # monotone with the others
            for b in self.atoms:
                if b.kind == 'acos' and b.id != a.id:
                    z = self.atom_sym(b)
                    e1 = rel('>', (y - z).r)
                    e2 = rel('>', (Sym(b.arg) - x).r)
                    a.ax.append(b_or([b_and([e1, e2]),
                                      b_and([b_not(e1), b_not(e2)])]))
        else:
            y = self.atom_sym(self.atoms[aid])
        return y

    def arctan2(self, y, x):
        key = ('atan2', y.r.key(), x.r.key())
        aid = self.bykey.get(key)
        if aid is None:
            a = self.new_atom('atan2', 'atan2[%s;%s]' % (
                self.show(y.r, 30), self.show(x.r, 30)), y.r)
            a.extra = (y.r, x.r)
            self.bykey[key] = a.id
            s = self.atom_sym(a)
            a.ax.append(('rel', '>=', (s + self.PI).r))
            a.ax.append(('rel', '>=', (self.PI - s).r))
        else:
            s = self.atom_sym(self.atoms[aid])
        return s

    def exp(self, x):
        if not x.r.num:
            return self.num(1)
        out = self.num(1)
        den = x.r.den
        const_part = x.r.num.get(ONE) if not den else None
        for m, c in x.r.num.items():
            if not den and len(m) == 1 and m[0][1] == 1:
                at = self.atoms[m[0][0]]
                if at.kind == 'log':
                    out = out * self.power(Sym(at.arg), self.num(c))
                    continue
            key = ('exp', m, frozenset((k, e) for k, (p, e) in den.items()))
            ent = self.bykey.get(key)
            if ent is None:
                bases = []
                self.bykey[key] = bases
            else:
                bases = ent
            sgn = 1 if c > 0 else -1
            done = False
            for (c0, aid) in bases:
                q = Fraction(abs(c)) / c0
                if q.denominator == 1 and q <= 64:
                    y = self.atom_sym(self.atoms[aid])
                    y = Sym(y.r.ipow(int(q)))
                    out = out * y if sgn > 0 else out / y
                    done = True
                    break
            if done:
                continue
            c0 = Fraction(abs(c)) / 2
            arg = R(self.ring, {m: norm_c(c0)}, den)
            a = self.new_atom('exp', 'exp[%s]' % self.show(arg, 50), arg)
            a.sign = 2
            E = self.atom_sym(a)
            a.ax.append(('rel', '>', E.r))
            z = Sym(arg)
            for op in ('>', '=='):
                e1, e2 = rel(op, (E - 1).r), rel(op, z.r)
                a.ax.append(b_or([b_and([e1, e2]),
                                  b_and([b_not(e1), b_not(e2)])]))
            a.ax.append(('rel', '>=', (E - 1 - z).r))
            if m == ONE and not den and abs(c0) < 500:
                v = math.exp(float(c0))
                d = 10**max(9, 9 - int(math.floor(math.log10(v))))
                n = round(Fraction(v) * d)
                a.ax.append(('rel', '>=', (E - Fraction(n - 1, d)).r))
                a.ax.append(('rel', '>=', (Fraction(n + 1, d) - E).r))
            # relation to other bases of the same monomial
            for (c1, aid) in bases:
                q = c0 / c1
                if q.numerator <= 12 and q.denominator <= 12:
                    F = self.atom_sym(self.atoms[aid])
                    a.ax.append(('rel', '==', (
                        Sym(E.r.ipow(q.denominator)) -
                        Sym(F.r.ipow(q.numerator))).r))
            bases.append((c0, a.id))
            y = E * E
            out = out * y if sgn > 0 else out / y
        return out

    def log(self, x):
        if x.r.is_const():
            c = x.r.const()
            if c == 1:
                return self.num(0)
            if c == 0:
                return float('-inf')
            if c < 0:
                return float('nan')
        if not x.r.num:
            return float('-inf')
        # monomial factors of positive atoms split off
        out = self.num(0)
        ring = self.ring
        num = dict(x.r.num)
        self.domain(('rel', '>', x.r), 'log argument > 0')
        items = iter(num)
        g = dict(next(items))
        for m in items:
            d = dict(m)
            g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        g = {a: e for a, e in g.items() if self.atoms[a].sign == 2}
        if g:
            gm = tuple(sorted(g.items()))
            num = {mono_div(m, gm): c for m, c in num.items()}
            for a, e in gm:
                out = out + e * self._log_atom(R(ring, {((a, 1),): 1}))
        rest_den = {}
        for k, (p, e) in x.r.den.items():
            if self.poly_sign(p) == 2:
                out = out - e * self._log_atom(R(ring, p))
            else:
                rest_den[k] = (p, e)
        rr = R(ring, num, rest_den)
        if rr.is_const():
            c = rr.const()
            if c != 1:
                out = out + self._log_atom(rr)
        else:
            # leading rational content
            out = out + self._log_atom(rr)
        return out

    def _log_atom(self, r):
        if r.is_const():
            c = Fraction(r.const())
            if c.denominator != 1:
                return (self._log_atom(R(self.ring, const(c.numerator))) -
                        self._log_atom(R(self.ring, const(c.denominator))))
            if c == 1:
                return self.num(0)
            n = int(c)
            # prime factors (small)
            fs = {}
            for p in (2, 3, 5, 7):
                while n % p == 0:
                    fs[p] = fs.get(p, 0) + 1
                    n //= p
            if fs and (n != 1 or len(fs) > 1 or max(fs.values()) > 1):
                out = self.num(0)
                for p, e in fs.items():
                    out = out + e * self._log_atom(R(self.ring, const(p)))
                if n != 1:
                    out = out + self._log_atom(R(self.ring, const(n)))
                return out
        if not r.den and len(r.num) == 1:
            (m, c), = r.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = self.atoms[m[0][0]]
                if at.kind == 'exp':
                    return Sym(at.arg)
                if at.kind == 'sqrt':
                    return self.log(Sym(at.arg)) / 2
                if at.kind == 'root':
                    return self.log(Sym(at.arg)) / at.extra
        key = ('log', r.key())
        aid = self.bykey.get(key)
        if aid is None:
            a = self.new_atom('log', 'log[%s]' % self.show(r, 50), r)
            self.bykey[key] = a.id
            y = self.atom_sym(a)
            x = Sym(r)
            for op in ('>', '=='):
                e1, e2 = rel(op, y.r), rel(op, (x - 1).r)
                a.ax.append(b_or([b_and([e1, e2]),
                                  b_and([b_not(e1), b_not(e2)])]))
            if r.is_const() and r.const() > 1:
                a.sign = 2
        else:
            y = self.atom_sym(self.atoms[aid])
        return y

    def floor(self, x):
        if not isinstance(x, Sym):
            if isinstance(x, float) and not math.isfinite(x):
                return x
            x = self.num(x)
        r = x.r
        if r.is_const():
            return self.num(math.floor(r.const()))
        # split integer part
        out = {}
        rest = r.num
        if not r.den:
            rest = {}
            for m, c in r.num.items():
                if all(self.atoms[a].isint for a, _ in m):
                    fl = math.floor(c)
                    if fl:
                        out[m] = fl
                    fr = norm_c(c - fl)
                    if fr:
                        rest[m] = fr
                else:
                    rest[m] = c
        ip = Sym(R(self.ring, out))
        if not rest:
            return ip
        rr = R(self.ring, rest, r.den)
        key = ('floor', rr.key())
        aid = self.bykey.get(key)
        if aid is None:
            a = self.new_atom('floor', 'floor[%s]' % self.show(rr, 50), rr,
                              isint=True)
            self.bykey[key] = a.id
            n = self.atom_sym(a)
            y = Sym(rr)
            a.ax.append(('rel', '>=', (y - n).r))
            a.ax.append(('rel', '>', (n + 1 - y).r))
        else:
            n = self.atom_sym(self.atoms[aid])
        return ip + n

    def trunc(self, x):
        if self.is_int(x.r):
            return x
        if x.r.is_const():
            return self.num(math.trunc(x.r.const()))
        if self.branch_sym(x >= 0):
            return self.floor(x)
        return -self.floor(-x)

    def round_(self, x, n=0):
        if n:
            f = 10 ** n
            return self.round_(x * f, 0) / f
        if self.is_int(x.r):
            return x
        if x.r.is_const():
            return self.num(round(Fraction(x.r.const())))
        key = ('round', x.r.key())
        aid = self.bykey.get(key)
        if aid is None:
            neg = ('round', (-x).r.key())
            if neg in self.bykey:
                return -self.atom_sym(self.atoms[self.bykey[neg]])
            a = self.new_atom('round', 'round[%s]' % self.show(x.r, 50), x.r,
                              isint=True)
            h = self.new_atom('roundhalf', 'rh[%s]' % self.show(x.r, 50), x.r,
                              isint=True)
            self.bykey[key] = a.id
            k = self.atom_sym(a)
            hh = self.atom_sym(h)
            half = Fraction(1, 2)
            d = x - k
            a.ax.append(('rel', '>=', (half - d).r))
            a.ax.append(('rel', '>=', (half + d).r))
            # tie -> even
            a.ax.append(b_or([b_and([rel('>', (half - d).r),
                                     rel('>', (half + d).r)]),
                              rel('==', (k - 2 * hh).r)]))
        else:
            k = self.atom_sym(self.atoms[aid])
        return k

    # uninterpreted function of real arguments; fn evaluates it concretely
    def uf(self, name, args, fn, sign=None):
        args = [Sym.lift(a) for a in args]
        key = ('uf', name, tuple(a.r.key() for a in args))
        aid = self.bykey.get(key)
        if aid is None:
            a = self.new_atom('uf', '%s(%s)' % (name, ','.join(
                self.show(x.r, 25) for x in args[:4])), args[0].r if args
                else R(self.ring, {}))
            a.extra = (name, [x.r for x in args], fn)
            a.sign = sign
            self.bykey[key] = a.id
            # functional consistency with other applications (Ackermann)
            y = self.atom_sym(a)
            for b in self.atoms:
                if b.kind == 'uf' and b.id != a.id and b.extra[0] == name \
                        and len(b.extra[1]) == len(args):
                    same = b_and([rel('==', (x - Sym(r2)).r) for x, r2 in
                                  zip(args, b.extra[1])])
                    z = self.atom_sym(b)
                    a.ax.append(b_or([b_not(same), rel('==', (y - z).r)]))
            return y
        return self.atom_sym(self.atoms[aid])

    def extremum(self, op, xs):
        """max/min without forking: an atom constrained by its arguments"""
        xs = [Sym.lift(x) for x in xs]
        cs = [x.r.const() for x in xs if x.r.is_const()]
        ys = {x.r.key(): x for x in xs if not x.r.is_const()}
        if cs:
            c = Sym.lift(max(cs) if op == 'max' else min(cs))
            ys[c.r.key()] = c
        if len(ys) == 1:
            return list(ys.values())[0]
        key = (op, tuple(sorted(ys, key=repr)))
        aid = self.bykey.get(key)
        if aid is None:
            a = self.new_atom('minmax', '%s!%i' % (op, len(self.atoms)))
            self.bykey[key] = a.id
            s = self.atom_sym(a)
            ys = list(ys.values())
            a.extra = (op, [y.r for y in ys])
            for y in ys:
                a.ax.append(('rel', '>=', (s - y if op == 'max'
                                           else y - s).r))
            a.ax.append(b_or([('rel', '==', (s - y).r) for y in ys]))
            sg = [self.quick_sign(y.r) for y in ys]
            if op == 'max':
                a.sign = 2 if 2 in sg else 1 if 1 in sg else None
            elif all(v in (1, 2) for v in sg):
                a.sign = min(sg)
            return s
        return self.atom_sym(self.atoms[aid])

    def implicit(self, f, lo=None, hi=None):
        """Some root of f (in [lo, hi]), as a root finder would return it."""
        a = self.new_atom('implicit', 'root!%i' % len(self.atoms))
        s = self.atom_sym(a)
        if lo is not None:
            lo, hi = Sym.lift(lo), Sym.lift(hi)
            a.ax.append(('rel', '>=', (s - lo).r))
            a.ax.append(('rel', '>=', (hi - s).r))
            lo, hi = lo.r, hi.r
        a.extra = (None, lo, hi)
        y = Sym.lift(f(s))
        a.extra = (y.r, lo, hi)
        self._fa.clear()
        e = ('rel', '==', y.r)
        if self.query([e], timeout=self.btimeout)[0] == 'unsat':
            raise Stop()
        self.path.append(e)
        return s

    # -- conversions ----------------------------------------------------------
    def to_float(self, s):
        if s.r.is_const():
            return float(s.r.const())
        if self.tokens:
            return float(self.tag(s))
        raise Unsupported('float(Sym): %s' % self.show(s.r, 80))

    def to_int(self, s):
        """Concretise: fork over all values (bounded)."""
        if s.r.is_const():
            return math.trunc(s.r.const())
        if not self.is_int(s.r):
            return self.to_int(self.trunc(s))
        if self.int_tagging:
            return int(self.tag(s))
        e = self.known_value(s)
        if e is not None:
            return e
        for _ in range(200):
            res = self.query([], model_of=s, timeout=self.btimeout * 3)
            if res[0] == 'unsat':
                raise Stop()
            if res[0] != 'sat' or res[1] is None:
                raise Unsupported('cannot concretise %s' % self.show(s.r, 80))
            v = res[1]
            if self.branch(('rel', '==', (s - v).r)):
                return v
        raise Unsupported('too many values for an index')

    def known_value(self, s):
        for e in self.path:
            if e is not True and e[0] == 'rel' and e[1] == '==':
                d = s.r - e[2]
                if d.is_const():
                    return int(d.const())
                d = s.r + e[2]
                if d.is_const():
                    return int(d.const())
        return None

    # -- tokens: uninterpreted format/parse ------------------------------------
    def tag(self, s):
        """A unique concrete number standing for the symbolic value in text
        and binary files."""
        if s.r.is_const():
            c = s.r.const()
            return c if isinstance(c, int) else float(c)
        k = s.r.key()
        t = self.tags.get(k)
        if t is None:
            n = len(self.tags) + 1
            v = 1000 + 37 * n
            if not self.is_int(s.r):
                v = v + 0.25
                if self.signed and n % 2:
                    v = -v
            t = (v, s)
            self.tags[k] = t
            self.tagnum[round(v * 4)] = s
        return t[0]

    def untag(self, x):
        """Map a parsed number back to the symbolic value it stands for."""
        if not self.tagnum:
            return x
        if isinstance(x, (bool, _np.bool_, Sym)):
            return x
        try:
            f = float(x)
        except Exception:
            return x
        if not math.isfinite(f):
            return x
        q = round(f * 4)
        if abs(f * 4 - q) < 0.08:
            s = self.tagnum.get(q)
            if s is not None:
                return s
            s = self.tagnum.get(-q)
            if s is not None:
                return -s
        return x

    # -- forking ---------------------------------------------------------------
    def branch_sym(self, b):
        return bool(b)

    def branch(self, e):
        self.tick()
        i = len(self.decisions)
        if i < len(self.prefix):
            v, isforced = self.prefix[i]
            self.decisions.append((v, isforced))
            if not isforced:
                self.path.append(e if v else b_not(e))
            return v
        self.stats.branches += 1
        t = self.query([e], timeout=self.btimeout, stat=True)[0]
        if t == 'unsat':
            self.decisions.append((False, True))
            return False
        f = self.query([b_not(e)], timeout=self.btimeout, stat=True)[0]
        if f == 'unsat':
            self.decisions.append((True, True))
            return True
        if t == 'unknown' or f == 'unknown':
            self.assumed_keys.add(('unkbranch', i))
        self.pending.append(self.decisions + [(False, False)])
        self.decisions.append((True, False))
        self.path.append(e)
        if len(self.decisions) > self.cfg.get('max_decisions', 400):
            raise Unsupported('too many decisions on one path')
        return True

    def assume(self, b):
        e = SymBool.lift(b)
        if e is True:
            return
        if e is False:
            raise Stop()
        self.path.append(e)

    # -- SMT --------------------------------------------------------------------
    def zatom(self, aid):
        a = self.atoms[aid]
        if a.zv is None:
            nm = 'a%i' % a.id
            a.zv = z3.Int(nm) if a.isint else z3.Real(nm)
        return a.zv

    def zreal(self, aid):
        v = self.zatom(aid)
        return z3.ToReal(v) if self.atoms[aid].isint else v

    def zpoly(self, p, ints=False):
        terms = []
        for m, c in p.items():
            fs = []
            for a, e in m:
                v = self.zatom(a) if ints else self.zreal(a)
                fs.extend([v] * e)
            if ints:
                k = z3.IntVal(int(c))
            else:
                k = z3.RealVal(str(c))
            if not fs:
                terms.append(k)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t if c == 1 else k * t)
        if not terms:
            return z3.IntVal(0) if ints else z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def zbool(self, e):
        if e is True or e is False:
            return z3.BoolVal(e)
        k = e[0]
        if k == 'and':
            return z3.And([self.zbool(x) for x in e[1]])
        if k == 'or':
            return z3.Or([self.zbool(x) for x in e[1]])
        if k == 'not':
            return z3.Not(self.zbool(e[1]))
        op, r = e[1], e[2]
        if not r.den and all(self.atoms[a].isint for a in r.atoms()):
            d = 1
            for c in r.num.values():
                if isinstance(c, Fraction):
                    d = d * c.denominator // math.gcd(d, c.denominator)
            z = self.zpoly(p_scale(r.num, d), ints=True)
        else:
            z = self.zpoly(r.num)
            for p, ex in r.den.values():
                if ex % 2 and op not in ('==', '!='):
                    s = self.poly_sign(p)
                    if s == 2:
                        continue
                    if s == -2:
                        z = -z
                        continue
                    z = z * self.zpoly(p)
        if op == '>':
            return z > 0
        if op == '>=':
            return z >= 0
        if op == '==':
            return z == 0
        return z != 0

    def full_atoms(self, e):
        """atoms of e and, transitively, of the arguments of its atoms"""
        k = self._fa.get(e)
        if k is not None:
            return k
        acc = b_atoms(e, set())
        todo = list(acc)
        while todo:
            for x in self.deps(todo.pop()):
                if x not in acc:
                    acc.add(x)
                    todo.append(x)
        self._fa[e] = acc
        return acc

    def deps(self, aid):
        a = self.atoms[aid]
        out = set()
        if a.arg is not None:
            out |= a.arg.atoms()
        if a.kind == 'atan2':
            out |= a.extra[0].atoms() | a.extra[1].atoms()
        elif a.kind in ('uf', 'minmax'):
            for r in a.extra[1]:
                out |= r.atoms()
        elif a.kind == 'implicit':
            for r in a.extra:
                if r is not None:
                    out |= r.atoms() - {aid}
        return out

    def closure(self, exprs, use_path=True):
        """Cone of influence: path conditions and axioms touching atoms."""
        atoms = set()
        for e in exprs:
            b_atoms(e, atoms)
        pcs = []
        rest = list(self.path) if use_path else []
        pat = [(e, self.full_atoms(e)) for e in rest]
        used = [False] * len(pat)
        done = set()
        ch = True
        axioms = []
        while ch:
            ch = False
            new = atoms - done
            for aid in new:
                done.add(aid)
                a = self.atoms[aid]
                for x in a.ax:
                    axioms.append(x)
                    b_atoms(x, atoms)
                if a.kind in ('sqrt', 'root', 'sin', 'floor', 'round', 'acos',
                              'cos', 'exp', 'log'):
                    if a.arg is not None and a.kind in (
                            'sqrt', 'root', 'floor', 'round'):
                        atoms |= a.arg.atoms()
                    if a.kind == 'sin':
                        atoms.add(a.extra)
                ch = True
            for i, (e, at) in enumerate(pat):
                if not used[i] and (at & atoms):
                    used[i] = True
                    pcs.append(e)
                    atoms |= at
                    ch = True
        return atoms, pcs, axioms

    def zrules(self, atoms):
        out = []
        for aid in atoms:
            a = self.atoms[aid]
            if a.kind == 'pi':
                v = self.zreal(aid)
                out.append(v > z3.RealVal(str(a.lo)))
                out.append(v < z3.RealVal(str(a.hi)))
            ru = self.ring.rules.get(aid)
            if ru is not None:
                v = self.zreal(aid)
                t = v
                for _ in range(ru[0] - 1):
                    t = t * v
                out.append(t == self.zpoly(ru[1]))
        return out

    def query(self, exprs, timeout=None, stat=True, model_of=None,
              want_model=False):
        """Satisfiability of path /\\ axioms /\\ exprs."""
        self.tick()
        timeout = timeout or self.qtimeout
        for e in exprs:
            if e is False:
                return ('unsat', None)
        exprs = [e for e in exprs if e is not True]
        base = list(exprs)
        if model_of is not None:
            base.append(('rel', '==', model_of.r))
        if want_model:
            atoms, pcs, axioms = self.closure(list(base) + list(self.path))
            for nm, aid in self.base.items():
                if aid not in atoms:
                    at2, p2, ax2 = self.closure([('rel', '==',
                                                  self.atom_sym(
                                                      self.atoms[aid]).r)],
                                                use_path=False)
                    atoms |= at2
                    axioms += ax2
        else:
            atoms, pcs, axioms = self.closure(base)
        key = None
        cons = [self.zbool(e) for e in exprs] + [self.zbool(e) for e in pcs] \
            + [self.zbool(e) for e in axioms] + self.zrules(atoms)
        t0 = time.time()
        hasint = any(self.atoms[x].isint for x in atoms)
        hard = not easy(exprs) or not easy(pcs) or not easy(axioms) or \
            sum(len(self.ring.rules[x][1]) for x in atoms
                if x in self.ring.rules) > 3
        job = lambda: self._solve(cons, timeout, model_of, want_model, hasint)
        if hard:
            out, c5 = forked(job, timeout / 1000 * 3.2 + 3)
        else:
            out, c5 = job()
        self.stats.cvc5 += c5
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        setattr(self.stats, out[0], getattr(self.stats, out[0]) + 1)
        return out

    def _solve(self, cons, timeout, model_of, want_model, hasint):
        c5 = 0
        s = z3.Solver()
        s.set('timeout', int(timeout))
        s.set('random_seed', self.cfg.get('seed', 1))
        s.add(cons)
        res = s.check()
        if res == z3.unknown and not hasint and timeout >= 1000:
            try:
                s2 = z3.Tactic('qfnra-nlsat').solver()
                s2.set('timeout', int(timeout))
                s2.add(cons)
                res2 = s2.check()
                if res2 != z3.unknown:
                    res, s = res2, s2
            except z3.Z3Exception:
                pass
        if res == z3.unknown and timeout >= 3000 and self.cfg.get('cvc5', 1):
            if cvc5_check(s.to_smt2(), timeout) == 'unsat':
                res = z3.unsat
                c5 = 1
        if res == z3.sat and (want_model or model_of is not None):
            m = s.model()
            if model_of is not None:
                try:
                    v = m.eval(self.zpoly(model_of.r.num, ints=True),
                               model_completion=True).as_long()
                except Exception:
                    return ('sat', None), c5
                return ('sat', v), c5
            out = {}
            for nm, aid in self.base.items():
                v = m.eval(self.zatom(aid), model_completion=True)
                out[nm] = zval(v, self.atoms[aid].isint)
            # non-input atoms which determine inputs (cos of an input)
            hints = {}
            for a in self.atoms:
                if a.kind == 'cos' and a.zv is not None:
                    hints[a.id] = zval(m.eval(a.zv, model_completion=True),
                                       False)
            return ('sat', out, hints), c5
        return (str(res), None), c5

    # -- numeric evaluation ------------------------------------------------------
    def evaluator(self, values):
        return Evaluator(self, values)

    # -- differentiation ----------------------------------------------------------
    def deriv_atom(self, aid, v):
        a = self.atoms[aid]
        if aid == v:
            return self.num(1)
        if a.kind in ('var', 'int', 'pi', 'floor', 'round', 'roundhalf'):
            return self.num(0)
        y = self.atom_sym(a)
        if a.kind == 'atan2':
            yy, xx = Sym(a.extra[0]), Sym(a.extra[1])
            dy, dx = self.deriv(yy, v), self.deriv(xx, v)
            return (xx * dy - yy * dx) / (xx * xx + yy * yy)
        if a.kind == 'uf':
            for r in a.extra[1]:
                if self.deriv(Sym(r), v).r.num:
                    raise Unsupported('derivative of uf')
            return self.num(0)
        d = self.deriv(Sym(a.arg), v)
        if not d.r.num:
            return d
        if a.kind == 'sqrt':
            return d / (2 * y)
        if a.kind == 'root':
            return d * y / (a.extra * Sym(a.arg))
        if a.kind == 'cos':
            return -self.atom_sym(self.atoms[a.extra]) * d
        if a.kind == 'sin':
            return self.atom_sym(self.atoms[a.extra]) * d
        if a.kind == 'exp':
            return y * d
        if a.kind == 'log':
            return d / Sym(a.arg)
        if a.kind == 'acos':
            x = Sym(a.arg)
            return -d / self.sqrt(1 - x * x)
        raise Unsupported('derivative of ' + a.kind)

    def deriv(self, s, v):
        """d s / d v, v: atom id."""
        r = s.r

        def dp(p):
            out = self.num(0)
            cache = {}
            for m, c in p.items():
                for i, (a, e) in enumerate(m):
                    if a not in cache:
                        cache[a] = self.deriv_atom(a, v)
                    da = cache[a]
                    if not da.r.num:
                        continue
                    rest = list(m)
                    if e == 1:
                        rest.pop(i)
                    else:
                        rest[i] = (a, e - 1)
                    out = out + Sym(R(self.ring, {tuple(rest): norm_c(c * e)}
                                      )) * da
            return out
        n = dp(r.num)
        if not r.den:
            return n
        out = n
        base = s
        inv = Sym(R(self.ring, {ONE: 1}, dict(r.den)))
        out = n * inv
        for p, e in r.den.values():
            d = dp(p)
            if d.r.num:
                out = out - s * e * d / Sym(R(self.ring, p))
        return out


def _square_part(c):
    """largest rational q with c/q**2 squarefree-ish (small primes)"""
    c = Fraction(c)
    q = Fraction(1)
    n, d = c.numerator, c.denominator
    for p in (2, 3, 5, 7, 11, 13):
        while n and n % (p * p) == 0:
            n //= p * p
            q *= p
        while d % (p * p) == 0:
            d //= p * p
            q /= p
    # make denominator free: sqrt(n/d) = sqrt(n*d)/d
    r = frac_sqrt(Fraction(n, d))
    if r is not None:
        return q * r
    return q / d if d != 1 else q


def easy(es, lim=12):
    """few, low degree terms: the solver's own timeout is reliable"""
    n = 0
    for e in es:
        if e is True or e is False:
            continue
        if e[0] == 'rel':
            r = e[2]
            for m in r.num:
                d = 0
                for x in m:
                    d += x[1]
                if d > 1:
                    n += d
            if r.den:
                n += 5
        elif e[0] == 'not':
            n += 0 if easy([e[1]]) else lim
        else:
            n += 0 if easy(e[1]) else lim
        if n >= lim:
            return False
    return True


def forked(job, limit):
    """Run job in a forked child; kill it after limit seconds."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            res = pickle.dumps(job())
            with os.fdopen(wfd, 'wb') as f:
                f.write(res)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(wfd)
    data = b''
    end = time.time() + limit
    try:
        while True:
            left = end - time.time()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                data = b''
                break
            r, _, _ = select.select([rfd], [], [], left)
            if not r:
                continue
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            data += b
    finally:
        os.close(rfd)
        os.waitpid(pid, 0)
    if not data:
        return ('unknown', None), 0
    return pickle.loads(data)


def zval(v, isint):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return 0


def cvc5_check(smt2, timeout):
    """unsat / sat / unknown via the cvc5 Python API."""
    try:
        import cvc5
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption('tlimit-per', str(int(timeout)))
        s.setLogic('ALL')
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(s, sm)
            if '(error' in str(out):
                return 'unknown'
            if str(cmd).startswith('(check-sat'):
                res = str(out).strip()
        return res or 'unknown'
    except Exception:
        return 'unknown'


class Evaluator:
    """Evaluate R / bool exprs in floats, given input values by name."""

    def __init__(self, ctx, values):
        self.ctx = ctx
        self.values = values
        self.memo = {}

    def atom(self, aid):
        v = self.memo.get(aid)
        if v is not None:
            return v
        a = self.ctx.atoms[aid]
        k = a.kind
        if k in ('var', 'int'):
            v = self.values[a.name]
        elif k == 'pi':
            v = math.pi
        elif k == 'atan2':
            v = math.atan2(self.R(a.extra[0]), self.R(a.extra[1]))
        elif k == 'uf':
            v = a.extra[2](*[self.R(r) for r in a.extra[1]])
        elif k == 'implicit':
            v = self.root(aid, *a.extra)
        elif k == 'minmax':
            v = (max if a.extra[0] == 'max' else min)(
                [self.R(r) for r in a.extra[1]])
        else:
            x = self.R(a.arg)
            if k == 'sqrt':
                v = math.sqrt(x) if x > 0 else (
                    0.0 if x > -1e-9 else float('nan'))
            elif k == 'root':
                v = x ** (1.0 / a.extra) if x >= 0 else float('nan')
            elif k == 'cos':
                v = math.cos(x)
            elif k == 'sin':
                v = math.sin(x)
            elif k == 'acos':
                v = math.acos(max(-1.0, min(1.0, x)))
            elif k == 'exp':
                v = math.exp(min(x, 700))
            elif k == 'log':
                v = math.log(x) if x > 0 else float('nan')
            elif k == 'floor':
                v = math.floor(x) if math.isfinite(x) else float('nan')
            elif k == 'round':
                v = round(x) if math.isfinite(x) else float('nan')
            elif k == 'roundhalf':
                v = round(x) / 2
            else:
                raise Unsupported('eval ' + k)
        self.memo[aid] = v
        return v

    def root(self, aid, f, lo, hi):
        """some root; nan if the bracket shows none"""
        def g(t):
            # expressions of f other than the unknown have no memo yet
            old = dict(self.memo)
            self.memo[aid] = t
            try:
                return self.R(f)
            finally:
                self.memo = old
        if lo is None:
            lo, hi = -50.0, 50.0
        else:
            lo, hi = self.R(lo), self.R(hi)
        n = 64
        ts = [lo + (hi - lo) * i / n for i in range(n + 1)]
        ys = [g(t) for t in ts]
        for i in range(n):
            if ys[i] == 0:
                return ts[i]
            if ys[i] * ys[i + 1] < 0:
                p, q, yp = ts[i], ts[i + 1], ys[i]
                for _ in range(60):
                    m = (p + q) / 2
                    ym = g(m)
                    if ym == 0:
                        return m
                    if ym * yp < 0:
                        q = m
                    else:
                        p, yp = m, ym
                return (p + q) / 2
        return ts[n] if ys[n] == 0 else float('nan')

    def poly(self, p):
        s = 0
        for m, c in p.items():
            t = float(c)
            for a, e in m:
                t *= self.atom(a) ** e
            s += t
        return s

    def R(self, r):
        n = self.poly(r.num)
        for p, e in r.den.values():
            d = self.poly(p) ** e
            if d == 0:
                return float('nan')
            n /= d
        return n

    def scale(self, r):
        """magnitude of the terms of the numerator (for tolerance)"""
        s = 0
        for m, c in r.num.items():
            t = abs(float(c))
            for a, e in m:
                t *= abs(self.atom(a)) ** e
            s += t
        return s

    def bool(self, e, tol=0.0):
        if e is True or e is False:
            return e
        if e[0] == 'and':
            return all(self.bool(x, tol) for x in e[1])
        if e[0] == 'or':
            return any(self.bool(x, tol) for x in e[1])
        if e[0] == 'not':
            return not self.bool(e[1], tol)
        v = self.R(e[2])
        if v != v:
            return False
        if e[1] == '>':
            return v > tol
        if e[1] == '>=':
            return v >= -tol
        if e[1] == '==':
            return abs(v) <= 1e-9 * (1 + self.scale(e[2]))
        return abs(v) > 1e-12 * (1 + self.scale(e[2]))
