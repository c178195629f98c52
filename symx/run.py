"""Run harness cases symbolically, discharge their checks with the SMT solver,
replay counterexamples on the real code, write evidence."""
import contextlib
import hashlib
import importlib.util
import io
import json
import math
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as rnp

from . import core, shim, build, fortran
from .stand import standins
from .core import (Ctx, Sym, SymC, SymBool, Stop, OutOfTime, Unsupported,
                   Stats, b_not, b_and, rel)
from .poly import TooBig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class Case:
    def __init__(self, name, fn, kw=None, **opt):
        self.name = name
        self.fn = fn
        self.kw = kw or {}
        self.opt = opt      # budget, max_paths, samples, cfg entries, tol

    def scaled(self, **f):
        """the same case with variables in other units: cell lengths in
        metres, energies in meV, ..."""
        lab = ' '.join('%s*%g' % kv for kv in f.items())
        return Case('%s, %s' % (self.name, lab), self.fn, self.kw,
                    **dict(self.opt, scale=f, atol=1e-40))


def rescaled(cs, *specs):
    """(case name, {variable: factor}) -> the scaled cases"""
    by = {c.name: c for c in cs}
    return [by[n].scaled(**f) for n, f in specs]


def estr(e):
    try:
        return str(e)[:200]
    except Exception:
        return '(message not available)'


class Fail(Exception):
    """A check failed in a concrete run."""


class Discard(Exception):
    """Concrete inputs violate an assumption."""


# ---------------------------------------------------------------------------

class Common:
    def real(self, name, *a, **k):
        v = self._real(name, *a, **k)
        for p, f in self.case.opt.get('scale', {}).items():
            if re.fullmatch(p + r'[\d_]*', name):
                return v * self.num(f)
        return v

    def unit(self, name):
        """the factor a scaled case puts on a variable"""
        for p, f in self.case.opt.get('scale', {}).items():
            if re.fullmatch(p + r'[\d_]*', name):
                return f
        return 1.0

    def reals(self, name, shape, lo=None, hi=None, **k):
        if isinstance(shape, int):
            shape = (shape,)
        if name in self.case.opt.get('ints', ()):
            return self.ints(name, shape, -3 if lo is None else
                             math.ceil(lo), 3 if hi is None else
                             math.floor(hi))
        vals = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*shape):
            vals[i] = self.real('%s_%s' % (name, '_'.join(map(str, i))),
                                lo, hi, **k)
        return self.arr(vals)

    def scratch(self):
        if getattr(self, '_scratch', None) is None:
            self._scratch = tempfile.mkdtemp(prefix='pwv-')
        return self._scratch

    def stand(self, over):
        """stand-ins until the end of the run (or .close())"""
        s = contextlib.ExitStack()
        s.enter_context(standins(self, over))
        self.__dict__.setdefault('_stands', []).append(s)
        return s

    def cleanup(self):
        for s in reversed(self.__dict__.pop('_stands', [])):
            s.close()
        d = getattr(self, '_scratch', None)
        if d:
            shutil.rmtree(d, ignore_errors=True)
            self._scratch = None

    def mods(self, *names):
        return [self.mod(n) for n in names]

    def zeros(self, shape):
        return self.np.zeros(shape)

    def cross(self, a, b):
        return self.arr([a[1] * b[2] - a[2] * b[1],
                         a[2] * b[0] - a[0] * b[2],
                         a[0] * b[1] - a[1] * b[0]])

    def det3(self, m):
        return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) -
                m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0]) +
                m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))

    def cell(self, name='h', mode='full', lo=None, hi=None):
        """A right-handed nonsingular symbolic 3x3 cell.  mode: 'full' (9
        entries), 'tri' (lower triangular, 6), 'diag'."""
        if name in self.case.opt.get('ints', ()):
            # lower triangular
            h = self.ints(name, (3, 3), 3, 5)
            for i in range(3):
                for j in range(3):
                    if i != j:
                        h[i, j] = 0 if mode == 'diag' or j > i else self.int(
                            '%so%i%i' % (name, i, j), -1, 1)
            return h
        z = self.num(0)
        rows = []
        for i in range(3):
            r = []
            for j in range(3):
                if i == j:
                    r.append(self.real('%s%i%i' % (name, i, j), 2, 4))
                elif mode == 'diag' or (mode == 'tri' and j > i):
                    r.append(z)
                else:
                    r.append(self.real('%s%i%i' % (name, i, j), -0.6, 0.6))
            rows.append(r)
        h = self.arr(rows)
        if mode == 'full' and self.symbolic:
            d = self.det3(h)
            self.assume(d > 0)
        return h


def noise(d, s):
    """All coefficients of the difference are below 1e-12 of those of the
    sum of the two sides."""
    try:
        return all(abs(c) <= 1e-12 * abs(s.num.get(m, 0))
                   for m, c in d.num.items())
    except (OverflowError, TypeError):
        return False


class SymCtx(Ctx, Common):
    def __init__(self, case, prefix, stats, deadline, cfg):
        Ctx.__init__(self, prefix, stats, deadline, cfg)
        self.case = case
        core.set_ctx(self)
        self.np = shim.NP
        self.m = shim.MATH
        self.loader = shim.Loader({
            'pwtools._flib': lambda l: fortran.FModule('pwtools._flib',
                                                       'flib.f90'),
            'pwtools._dcd': lambda l: fortran.FModule('pwtools._dcd',
                                                      'dcd.f90')})
        self.fails = []
        self.inconclusive = []
        self.labels = {}

    def mod(self, name):
        m = self.loader.load('pwtools.' + name)
        return m

    def _real(self, name, lo=None, hi=None, strict=False, nice=False, **k):
        from fractions import Fraction
        f = lambda v: None if v is None else core.to_frac(v)
        return self.var(name, f(lo), f(hi), strict=strict)

    def int(self, name, lo, hi):
        return self.var(name, lo, hi, isint=True)

    def ints(self, name, shape, lo, hi):
        """symbolic array of integer dtype"""
        a = shim.mk(shape, shim.Sym.lift(0))
        for i in rnp.ndindex(*a.shape):
            a[i] = self.int(name + '_'.join(map(str, i)), lo, hi)
        return a.view(shim.IntArr)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.var(name, 0, len(options) - 1, isint=True)
        return options[self.concretise(v)]

    def concretise(self, v):
        tg, self.int_tagging = self.int_tagging, False
        try:
            return self.to_int(v)
        finally:
            self.int_tagging = tg

    def idx(self, name, lo, hi):
        """concretised integer (forks over all values)"""
        return self.concretise(self.var(name, lo, hi, isint=True))

    def rand_var(self, name, lo, hi):
        v = self._rand_var(name, lo, hi)
        self.__dict__.setdefault('rand_log', []).append(v)
        return v

    def _rand_var(self, name, lo, hi):
        fix = getattr(self, 'rand_fix', None)
        v = fix(int(name[4:])) if fix else None
        if v is not None:
            return Sym.lift(lo) + Sym.lift(v) * (Sym.lift(hi) - lo)
        s = self.var(name, lo, hi)
        a = self.atoms[self.base[name]]
        if not a.tight:
            a.tight = True
            self.path.append(('rel', '>', (hi - s).r))
        return s

    def arr(self, x):
        return shim.lift_arr(shim.asarr(x))

    def num(self, x):
        return Sym.lift(x)

    def lazy_extrema(self):
        self.lazy = True

    def parse(self, text):
        """the number a text stands for"""
        return self.untag(float(text))

    def tokens_on(self, ints=False, signed=False):
        self.tokens = True
        self.int_tagging = ints
        self.signed = signed

    def _expr(self, cond):
        if isinstance(cond, (bool, rnp.bool_)):
            return bool(cond)
        e = SymBool.lift(cond)
        if e is NotImplemented:
            return bool(cond)
        return e

    def check(self, cond, label):
        e = self._expr(cond)
        self.decide(e, label)

    def decide(self, e, label):
        st = self.stats
        st.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if e is True:
            st.trivial += 1
            st.discharged += 1
            return
        if e is False:
            self.fails.append((label, 'constant false', b_and([])))
            return
        res = self.query([b_not(e)])
        if res[0] == 'unsat':
            st.discharged += 1
            return
        if res[0] == 'sat':
            self.fails.append((label, 'sat', b_not(e)))
        else:
            self.inconclusive.append((label, 'unknown'))
            self.fails.append((label, 'unknown', b_not(e)))

    def eq(self, a, b, label, tol=None, atol=None):
        try:
            a = shim.asarr(a)
            b = shim.asarr(b)
            if a.shape != b.shape:
                self.stats.checks += 1
                self.fails.append((label, 'shape %s vs %s' % (
                    a.shape, b.shape), True))
                return
        except ValueError:
            self.stats.checks += 1
            self.fails.append((label, 'inhomogeneous', True))
            return
        fa, fb = a.ravel(), b.ravel()
        self.labels[label] = self.labels.get(label, 0) + 1
        obs = []
        batch = []
        for x, y in zip(fa, fb):
            x, y = shim.lift1(x), shim.lift1(y)
            self.stats.checks += 1
            obs.append(x)
            if isinstance(x, SymC) or isinstance(y, SymC):
                x, y = SymC.lift(x), SymC.lift(y)
                pairs = [(x.re, y.re), (x.im, y.im)]
            else:
                pairs = [(x, y)]
            ok = True
            for p, q in pairs:
                if not isinstance(p, Sym) or not isinstance(q, Sym):
                    same = (p == q) if not (isinstance(p, float) and
                                            isinstance(q, float) and
                                            p != p and q != q) else True
                    if isinstance(same, SymBool):
                        same = False
                    if not same:
                        try:
                            same = bool(abs(p - q) <= 1e-12 * abs(p + q))
                        except TypeError:
                            pass
                    if not same:
                        self.fails.append((label, '%r != %r' % (p, q), True))
                        ok = False
                    continue
                d = (p - q).r
                if not d.num:
                    self.stats.trivial += 1
                    batch.append((p, q))
                    continue
                if noise(d, (p + q).r):
                    # sides differ by the rounding of float constants only
                    self.stats.trivial += 1
                    batch.append((p, q + Sym(d)))
                    continue
                e = rel('==', d)
                if e is False:
                    self.fails.append((label, 'never equal', True))
                    ok = False
                    continue
                if e is True:
                    continue
                res = self.query([b_not(e)])
                if res[0] != 'unsat':
                    ok = False
                    self.fails.append((label, res[0], b_not(e)))
                    if res[0] == 'unknown':
                        self.inconclusive.append((label, 'unknown'))
            if ok:
                self.stats.discharged += 1
            if len(self.fails) > 6:
                break
        if batch:
            self.confirm(batch, label)
        self.observed.append((label, a.shape, obs))

    def confirm(self, batch, label):
        """Equalities decided by the normal form are handed to the solver as
        one query (negated conjunction over the un-subtracted sides)."""
        tot = sum(len(p.r.num) + len(q.r.num) for p, q in batch)
        if tot > 6000:
            batch = batch[:max(1, len(batch) * 6000 // tot)]
        import z3
        cons = []
        for p, q in batch:
            n1, n2 = p.r.num, q.r.num
            if p.r.den or q.r.den:
                kd = {k: e for k, (f, e) in p.r.den.items()}
                if kd != {k: e for k, (f, e) in q.r.den.items()}:
                    continue
            cons.append(self.zpoly(n1) == self.zpoly(n2))
        if not cons:
            return
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(z3.Not(z3.And(cons)))
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
            self.fails.append((label, 'normal form not confirmed', True))
        else:
            self.stats.unknown += 1
            self.inconclusive.append((label, 'confirm unknown'))

    def le(self, a, b, label, tol=None):
        d = shim.lift1(b) - shim.lift1(a)
        if not isinstance(d, Sym):
            self.decide(bool(d >= 0), label)
            return
        self.decide(rel('>=', d.r), label)

    def lt(self, a, b, label):
        d = shim.lift1(b) - shim.lift1(a)
        if not isinstance(d, Sym):
            self.decide(bool(d > 0), label)
            return
        self.decide(rel('>', d.r), label)

    def raises(self, exc, f, label):
        self.stats.checks += 1
        try:
            f()
        except exc:
            self.stats.discharged += 1
            return
        self.fails.append((label, 'no exception', True))

    def derivs(self, f, x, rtol=None):
        """df/dx for a function of one input variable symbol x."""
        (m, c), = x.r.num.items()
        v = m[0][0]
        return self.d(f(x), v)

    def d(self, y, v):
        if isinstance(y, rnp.ndarray):
            return shim.emap(lambda t: self.deriv(t, v)
                             if isinstance(t, Sym) else self.num(0), y)
        return self.deriv(shim.lift1(y), v)

    def fin(self, x):
        """x is a finite number"""
        return isinstance(x, (Sym, SymC)) or bool(rnp.isfinite(x))

    def value(self, x):
        return x


class ConcCtx(Common):
    symbolic = False
    PI = math.pi

    def __init__(self, case, values=None, rng=None, fresh=False):
        self.case = case
        self.values = dict(values or {})
        self.rng = rng
        self.np = rnp
        self.m = math
        self.used = {}
        self.observed = []
        self.tol = case.opt.get('tol', 1e-6)
        self.atol = case.opt.get('atol', 1e-9)
        self.ntests = 0
        build.prepare()
        if fresh or case.opt.get('fresh'):
            build.purge()

    def mod(self, name):
        return build.real_mod('pwtools.' + name)

    def _get(self, name, gen):
        if name in self.values:
            v = self.values[name]
        elif self.rng is not None:
            v = gen()
        else:
            v = gen() if False else self._default(name, gen)
        self.used[name] = v
        return v

    def _default(self, name, gen):
        return gen_with_seed(name, gen, self)

    def _real(self, name, lo=None, hi=None, strict=False, nice=False, **k):
        def gen():
            a = -2.0 if lo is None else float(lo)
            b = a + 4.0 if hi is None else float(hi)
            if lo is None and hi is not None:
                a = b - 4.0
            return (self.rng or random).uniform(a, b)
        v = self.values.get(name)
        if v is not None:
            # the solver's model may leave a variable open
            e = 1e-9 * (1 + abs(float(v)))
            if (lo is not None and v < float(lo) - e) or \
                    (hi is not None and v > float(hi) + e):
                self.values = dict(self.values)
                del self.values[name]
        return float(self._get(name, gen))

    def int(self, name, lo, hi):
        return int(self._get(name, lambda: (self.rng or random).randint(
            lo, hi)))
    idx = int

    def ints(self, name, shape, lo, hi):
        a = rnp.zeros(shape, dtype=rnp.int64)
        for i in rnp.ndindex(*a.shape):
            a[i] = self.int(name + '_'.join(map(str, i)), lo, hi)
        return a

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, lambda: (
            self.rng or random).randint(0, len(options) - 1)))]

    def rand_var(self, name, lo, hi):
        v = self._rand_var(name, lo, hi)
        self.__dict__.setdefault('rand_log', []).append(v)
        return v

    def _rand_var(self, name, lo, hi):
        fix = getattr(self, 'rand_fix', None)
        v = fix(int(name[4:])) if fix else None
        if v is not None:
            return float(lo + float(v) * (hi - lo))
        return float(self._get(name, lambda: (self.rng or random).uniform(
            float(lo), float(hi))))

    def arr(self, x):
        a = rnp.array(x)
        if a.dtype == object:
            if any(isinstance(v, complex) for v in a.ravel()):
                return a.astype(complex)
            return a.astype(float)
        return a.astype(float) if a.dtype.kind in 'iub' else a

    def num(self, x):
        return float(x)

    def lazy_extrema(self):
        pass

    def parse(self, text):
        return float(text)

    def tokens_on(self, ints=False, signed=False):
        pass

    def assume(self, cond):
        if not bool(cond):
            raise Discard()

    def check(self, cond, label):
        self.ntests += 1
        if not bool(cond):
            raise Fail('%s: condition is false' % label)

    def eq(self, a, b, label, tol=None, atol=None):
        self.ntests += 1
        try:
            a = rnp.asarray(a)
            b = rnp.asarray(b)
            if a.dtype == object:
                a = a.astype(float)
            if b.dtype == object:
                b = b.astype(float)
        except (ValueError, TypeError) as e:
            raise Fail('%s: not comparable: %s' % (label, estr(e)))
        if a.shape != b.shape:
            raise Fail('%s: shape %s != %s' % (label, a.shape, b.shape))
        self.observed.append((label, a.shape, a.ravel().copy()))
        if a.dtype.kind in 'SU' or b.dtype.kind in 'SU':
            if not (a == b).all():
                raise Fail('%s: %s != %s' % (label, a, b))
            return
        tol = self.tol if tol is None else tol
        if a.size == 0:
            return
        sc = max(min(1e-12, self.atol), float(rnp.max(rnp.abs(rnp.where(
            rnp.isfinite(b), b, 0)))))
        at = tol * sc * 0.1 + (self.atol if atol is None else atol)
        bad = ~(rnp.abs(a - b) <= at + tol * rnp.abs(b))
        bad &= ~((a != a) & (b != b))
        bad &= ~(a == b)
        if bad.any():
            i = tuple(rnp.argwhere(bad)[0])
            raise Fail('%s: got %r, expected %r at %s' % (
                label, a[i].item(), b[i].item(), i))

    def le(self, a, b, label, tol=None):
        self.ntests += 1
        tol = self.tol if tol is None else tol
        if not (a <= b + tol * (abs(a) + abs(b)) + self.atol):
            raise Fail('%s: %r > %r' % (label, a, b))

    def lt(self, a, b, label):
        self.le(a, b, label)

    def raises(self, exc, f, label):
        self.ntests += 1
        try:
            f()
        except exc:
            return
        raise Fail(label + ': no exception')

    def derivs(self, f, x, h=None):
        h = h or 1e-4 * max(1.0, abs(x))
        g = lambda s: rnp.asarray(f(x + s), dtype=float)
        d = (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)
        return d if d.ndim else float(d)

    def fin(self, x):
        return bool(rnp.isfinite(x))

    def value(self, x):
        return x

    def uf(self, name, args, fn, sign=None):
        return fn(*args)


def gen_with_seed(name, gen, ctx):
    st = random.getstate()
    random.seed('default-' + name)
    v = gen()
    random.setstate(st)
    return v


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        so, se = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        old = rnp.seterr(all='ignore')
        try:
            yield
        finally:
            sys.stdout, sys.stderr = so, se
            rnp.seterr(**old)


@contextlib.contextmanager
def patched_random(ctx):
    """Concrete counterpart of the nondeterministic random stub."""
    n = [0]
    save = {}

    def draw(shape, lo=0.0, hi=1.0):
        if isinstance(shape, (int, rnp.integer)):
            shape = (shape,)
        if n[0] + int(rnp.prod(shape or ())) > getattr(ctx, 'rand_max',
                                                       10**9):
            raise ctx.rand_exc
        ctx._rand = n[0] + int(rnp.prod(shape or ()))
        if shape is None or shape == ():
            n[0] += 1
            return ctx.rand_var('rand%i' % (n[0] - 1), lo, hi)
        out = rnp.empty(shape)
        for i in rnp.ndindex(*out.shape):
            out[i] = ctx.rand_var('rand%i' % n[0], lo, hi)
            n[0] += 1
        return out

    fns = {'rand': lambda *s: draw(s), 'random': lambda size=None: draw(size),
           'random_sample': lambda size=None: draw(size),
           'uniform': lambda low=0.0, high=1.0, size=None:
           low + (high - low) * draw(size)}

    class Gen:
        pass
    for k, f in fns.items():
        setattr(Gen, k, staticmethod(f))
    fns['default_rng'] = lambda *a: Gen
    fns['seed'] = lambda *a: None
    for k, f in fns.items():
        save[k] = getattr(rnp.random, k)
        setattr(rnp.random, k, f)
    mods = []
    try:
        m = build.real_mod('pwtools.random')
        for k, f in fns.items():
            if k in m.__dict__ and callable(m.__dict__[k]):
                mods.append((m, k, m.__dict__[k]))
                m.__dict__[k] = f
    except Exception:
        pass
    try:
        yield
    finally:
        for k, v in save.items():
            setattr(rnp.random, k, v)
        for m, k, v in mods:
            m.__dict__[k] = v


def run_concrete(case, values=None, rng=None):
    """-> ('ok'|'fail'|'discard', message, ctx)"""
    old = core.CTX
    core.set_ctx(None)
    c = ConcCtx(case, values, rng)
    cwd = os.getcwd()
    try:
        with quiet():
            cm = patched_random(c) if case.opt.get('random') else \
                contextlib.nullcontext()
            with cm:
                case.fn(c, **case.kw)
        return 'ok', '', c
    except Discard:
        return 'discard', '', c
    except Fail as e:
        return 'fail', str(e), c
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in tb[::-1]:
            if '/pwtools/' in fr.filename:
                where = ' at %s:%s' % (os.path.basename(fr.filename),
                                       fr.name)
                break
        return 'fail', 'exception %s: %s%s' % (
            type(e).__name__, estr(e), where), c
    finally:
        os.chdir(cwd)
        c.cleanup()
        core.set_ctx(old)


# ---------------------------------------------------------------------------

def sample_path(ctx, rng, extra=(), tries=120):
    """Random inputs satisfying the path condition (numeric)."""
    conds = list(ctx.path) + list(extra)
    out = []
    for t in range(tries):
        vals = {}
        for nm, aid in ctx.base.items():
            a = ctx.atoms[aid]
            if a.isint:
                vals[nm] = rng.randint(int(a.lo), int(a.hi)) \
                    if a.lo is not None and a.hi is not None \
                    else rng.randint(-3, 3)
            else:
                lo = float(a.lo) if a.lo is not None else -2.0
                hi = float(a.hi) if a.hi is not None else lo + 4.0
                if a.lo is None and a.hi is not None:
                    lo = hi - 4.0
                vals[nm] = rng.uniform(lo, hi)
        # solve simple equalities  c*x + d == 0 for an int/real input
        for e in conds:
            if e is not True and e is not False and e[0] == 'rel' and \
                    e[1] == '==' and not e[2].den:
                num = e[2].num
                nonc = [m for m in num if m]
                if len(nonc) == 1 and len(nonc[0]) == 1 and \
                        nonc[0][0][1] == 1:
                    a = ctx.atoms[nonc[0][0][0]]
                    if a.kind in ('int', 'var'):
                        v = -num.get((), 0) / num[nonc[0]]
                        vals[a.name] = int(v) if a.isint else float(v)
        ev = ctx.evaluator(vals)
        try:
            if all(ev.bool(e) for e in conds):
                return vals
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
    return None


def model_values(ctx, extra=()):
    res = ctx.query([e for e in extra if e is not True], want_model=True,
                    timeout=4000)
    if res[0] != 'sat' or len(res) < 2 or res[1] is None:
        return None
    vals = dict(res[1])
    # transcendental functions are uninterpreted for the solver: recover the
    # angle from its cosine
    for aid, cv in (res[2] or {}).items():
        a = ctx.atoms[aid]
        r = a.arg
        if not r.den and len(r.num) == 1:
            (m, c), = r.num.items()
            ids = [x for x, e in m if ctx.atoms[x].kind == 'var']
            if len(ids) == 1 and all(e == 1 for x, e in m):
                fac = float(c)
                if any(ctx.atoms[x].kind == 'pi' for x, e in m):
                    fac *= math.pi
                try:
                    vals[ctx.atoms[ids[0]].name] = math.acos(
                        max(-1, min(1, cv))) / fac
                except (ValueError, ZeroDivisionError):
                    pass
    return vals


class Result(dict):
    pass


def run_case(case, tier, seed):
    t0 = time.time()
    st = Stats()
    budget = case.opt.get('budget', 60 if tier == 'quick' else 600)
    max_paths = case.opt.get('max_paths', 400 if tier == 'quick' else 5000)
    deadline = t0 + budget
    res = {'case': case.name, 'status': 'ok', 'fails': [], 'degraded': [],
           'inconclusive': [], 'assumed': [], 'validated': 0,
           'mismatch': [], 'violation': None, 'funcs': [], 'samples': [],
           'labels': {}, 'spurious': []}
    rng = random.Random('%s-%s' % (seed, case.name))
    stack = [[]]
    complete = True
    funcs = set()
    seenfail = set()
    nval = 0
    maxval = case.opt.get('validate', 6)
    cfg = dict(case.opt.get('cfg', {}))
    cfg['seed'] = seed
    assumed = set()

    def try_values(vals, why):
        nonlocal nval
        if vals is None:
            return None
        r, msg, c = run_concrete(case, vals)
        if r == 'fail':
            res['violation'] = {'values': vals, 'message': msg, 'why': why,
                                'used': c.used}
            return True
        return (r, c)

    while stack and not res['violation']:
        prefix = stack.pop()
        if st.paths >= max_paths:
            complete = False
            res['degraded'].append('path limit %i' % max_paths)
            break
        if time.time() > deadline:
            complete = False
            res['degraded'].append('time budget %is' % budget)
            break
        ctx = SymCtx(case, prefix, st, deadline, cfg)
        st.paths += 1
        err = None
        cwd = os.getcwd()
        try:
            with quiet():
                with tracer(funcs):
                    case.fn(ctx, **case.kw)
        except Stop:
            ctx_stopped = True
            stack.extend(ctx.pending)
            st.paths -= 1
            continue
        except OutOfTime:
            complete = False
            res['degraded'].append('time budget %is' % budget)
            err = 'time'
        except (Unsupported, TooBig) as e:
            err = '%s: %s' % (type(e).__name__, estr(e))
            complete = False
        except RecursionError as e:
            err = 'RecursionError'
            complete = False
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            err = 'exception %s: %s [%s]' % (
                type(e).__name__, estr(e), ' < '.join(
                    '%s:%s' % (os.path.basename(f.filename), f.lineno)
                    for f in tb[::-1][:5]))
            complete = False
        finally:
            os.chdir(cwd)
            ctx.cleanup()
            ctx.deadline = None
            ctx.ring.check = None
        ctx.deadline = None
        for l, n in ctx.labels.items():
            res['labels'][l] = res['labels'].get(l, 0) + n
        for a in ctx.assumed:
            assumed.add(a)
        if err == 'time':
            break
        stack.extend(ctx.pending)
        if err is not None:
            if err not in res['degraded']:
                res['degraded'].append(err)
            # is the exception real?
            for k in range(3):
                v = sample_path(ctx, rng)
                if v is None:
                    v = model_values(ctx)
                    if try_values(v, 'path with ' + err) is True:
                        break
                    break
                if try_values(v, 'path with ' + err) is True:
                    break
            if len(res['degraded']) > 8:
                break
            continue
        if not ctx.fails and not ctx.labels and not st.checks:
            pass
        if ctx.fails:
            for (label, kind, neg) in ctx.fails:
                key = (label, kind)
                if key in seenfail:
                    continue
                hit = False
                cands = []
                try:
                    mv = model_values(ctx, [neg] if neg is not True else [])
                except OutOfTime:
                    mv = None
                if mv is not None:
                    cands.append(mv)
                if neg is not True:
                    v = sample_path(ctx, rng, [neg], tries=200)
                    if v is not None:
                        cands.append(v)
                for _ in range(4):
                    v = sample_path(ctx, rng)
                    if v is not None:
                        cands.append(v)
                for v in cands:
                    if try_values(v, '%s (%s)' % (label, kind)) is True:
                        hit = True
                        break
                if hit:
                    break
                seenfail.add(key)
                if kind == 'unknown':
                    pass
                else:
                    res['spurious'].append('%s (%s)' % (label, kind))
                if len(seenfail) > 6:
                    break
            if res['violation']:
                break
        for i in ctx.inconclusive:
            res['inconclusive'].append('%s: %s' % i)
        # cross-validate the encoding on this path
        if nval < maxval or (nval < 4 * maxval and rng.random() < 0.1):
            v = sample_path(ctx, rng)
            if v is None:
                v = model_values(ctx)
            if v is not None:
                nval += 1
                r = try_values(v, 'validation of a path')
                if r is True:
                    break
                if r[0] == 'ok':
                    mm = compare(ctx, r[1], v)
                    if mm:
                        res['mismatch'].append(mm)
                    else:
                        res['validated'] += 1
                        if len(res['samples']) < 2:
                            res['samples'].append(
                                {'case': case.name, 'inputs': {
                                    k: v[k] for k in list(v)[:12]}})
    # concrete sampling: always a few; more when the symbolic run degraded
    if not res['violation']:
        k = case.opt.get('samples', 3)
        if res['degraded'] or res['spurious'] or res['inconclusive']:
            k = max(k, case.opt.get('degraded_samples', 40))
        tlim = time.time() + 40
        got = 0
        for i in range(k * 5):
            if got >= k or time.time() > tlim:
                break
            r, msg, c = run_concrete(case, None, random.Random(
                '%s-%s-%i' % (seed, case.name, i)))
            if r == 'fail':
                res['violation'] = {'values': c.used, 'message': msg,
                                    'why': 'concrete run', 'used': c.used}
                break
            if r == 'ok':
                got += 1
        res['concrete_runs'] = got
    res['stats'] = st.asdict()
    res['complete'] = complete and not res['degraded']
    res['funcs'] = sorted(funcs)
    res['assumed'] = sorted(assumed)[:20]
    res['wall'] = time.time() - t0
    if res['violation']:
        res['status'] = 'violation'
    elif res['degraded'] or res['spurious'] or res['inconclusive'] or \
            res['mismatch']:
        res['status'] = 'degraded'
    elif st.checks == 0:
        res['status'] = 'degraded'
        res['degraded'].append('vacuous: no check reached')
    return res


def compare(ctx, conc, vals):
    """symbolic observations evaluated at vals vs. the concrete run."""
    ev = ctx.evaluator(vals)
    obs = ctx.observed
    if len(obs) != len(conc.observed):
        # concrete run may take another path at ties; not comparable
        return None
    for (l1, s1, a), (l2, s2, b) in zip(obs, conc.observed):
        if l1 != l2 or s1 != s2:
            return 'observation order %s/%s' % (l1, l2)
        if len(a) != len(b):
            continue
        for x, y in zip(a, b):
            try:
                if isinstance(x, SymC):
                    v = complex(ev.R(x.re.r), ev.R(x.im.r))
                elif isinstance(x, Sym):
                    v = ev.R(x.r)
                    big = ev.scale(x.r)
                else:
                    continue
            except (OverflowError, ValueError, ZeroDivisionError, KeyError):
                continue
            if v != v or not rnp.isfinite(y) or isinstance(v, complex):
                continue
            sc = max(abs(v), abs(y), 1e-3)
            if isinstance(x, Sym) and x.r.den:
                continue_scale = sc
            if abs(v - y) > 1e-4 * sc + 1e-9 * (big if isinstance(
                    x, Sym) else 1):
                return '%s: encoding %r, real code %r' % (l1, v, float(
                    rnp.real(y)))
    return None


@contextlib.contextmanager
def tracer(funcs):
    """Record which functions of /repo/src are executed (sys.monitoring)."""
    mon = sys.monitoring
    tid = 3
    pref = shim.SRC

    def cb(code, off):
        fn = code.co_filename
        if fn.startswith(pref):
            funcs.add('%s:%s' % (os.path.relpath(fn, pref), code.co_qualname))
        return mon.DISABLE
    try:
        mon.use_tool_id(tid, 'symx')
    except ValueError:
        yield
        return
    mon.register_callback(tid, mon.events.PY_START, cb)
    mon.set_events(tid, mon.events.PY_START)
    mon.restart_events()
    try:
        yield
    finally:
        mon.set_events(tid, 0)
        mon.register_callback(tid, mon.events.PY_START, None)
        mon.free_tool_id(tid)


# ---------------------------------------------------------------------------

_CASES = None


def case_limit(case, tier):
    return 1.6 * case.opt.get('budget', 60 if tier == 'quick' else 600) + 45


def run_procs(order, tier, seed, jobs):
    """One forked process per case, killed when it exceeds its hard limit
    (then the case falls back to concrete runs)."""
    ctxm = mp.get_context('fork')
    todo = [(i, False) for i in order]
    live = {}
    results = []

    def child(conn, i, conc):
        os.setpgid(0, 0)
        r = _work((i, tier, seed, conc))
        try:
            conn.send(r)
        except Exception as e:
            conn.send({'case': _CASES[i].name, 'status': 'error',
                       'error': 'result: %s' % estr(e), 'wall': 0,
                       'stats': Stats().asdict()})
        conn.close()
        os._exit(0)

    while todo or live:
        while todo and len(live) < jobs:
            i, conc = todo.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=child, args=(b, i, conc))
            p.start()
            b.close()
            live[a] = (p, i, conc, time.time())
        for a in mp.connection.wait(list(live), timeout=1.0):
            p, i, conc, t0 = live.pop(a)
            try:
                r = a.recv()
            except (EOFError, OSError):
                r = None
            a.close()
            p.join(5)
            if r is None:
                if not conc:
                    todo.append((i, True))
                else:
                    results.append(dead(_CASES[i], 'worker died', t0))
            else:
                results.append(r)
                if r['status'] == 'violation' and os.environ.get(
                        'SYMX_FAILFAST'):
                    for p, i, conc, t0 in live.values():
                        os.killpg(p.pid, signal.SIGKILL)
                    return results
        for a, (p, i, conc, t0) in list(live.items()):
            if time.time() - t0 > case_limit(_CASES[i], tier):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                del live[a]
                a.close()
                if not conc:
                    todo.append((i, True))
                else:
                    results.append(dead(_CASES[i], 'hard time limit', t0))
    return results


def dead(case, why, t0):
    return {'case': case.name, 'status': 'degraded', 'degraded': [why],
            'inconclusive': [], 'assumed': [], 'validated': 0,
            'mismatch': [], 'violation': None, 'funcs': [], 'samples': [],
            'labels': {}, 'spurious': [], 'complete': False,
            'stats': Stats().asdict(), 'wall': time.time() - t0}


def tbtext():
    try:
        return traceback.format_exc()[-1500:]
    except Exception:
        return ''


def _work(job):
    i, tier, seed, conc = job
    case = _CASES[i]
    if conc:
        case.opt = dict(case.opt, max_paths=0)
    try:
        if case.opt.get('static'):
            return run_static(case, tier, seed)
        return run_case(case, tier, seed)
    except BaseException as e:
        if not conc and not case.opt.get('static') and \
                isinstance(e, Exception):
            # engine trouble: run the harness on sampled values only and
            # record that the case was not decided
            why = 'engine: %s: %s' % (type(e).__name__, estr(e))
            r = _work((i, tier, seed, True))
            if r['status'] in ('ok', 'degraded'):
                r['status'] = 'degraded'
                r.setdefault('degraded', []).insert(0, why)
                r['complete'] = False
            return r
        return {'case': case.name, 'status': 'error', 'error': '%s: %s\n%s' % (
            type(e).__name__, estr(e), tbtext()),
            'stats': Stats().asdict(), 'wall': 0}


def run_static(case, tier, seed):
    """A harness which produces its own list of (label, verdict, detail)."""
    t0 = time.time()
    st = Stats()
    res = {'case': case.name, 'status': 'ok', 'degraded': [],
           'inconclusive': [], 'assumed': [], 'validated': 0, 'mismatch': [],
           'violation': None, 'funcs': [], 'samples': [], 'labels': {},
           'spurious': [], 'complete': True}
    case.fn(res, st, tier=tier, seed=seed, **case.kw)
    res['stats'] = st.asdict()
    res['wall'] = time.time() - t0
    if res['violation']:
        res['status'] = 'violation'
    elif res['degraded'] or res['inconclusive']:
        res['status'] = 'degraded'
    return res


def load_check(pid):
    p = os.path.join(VERIF, 'checks', pid + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    spec.loader.exec_module(m)
    return m


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(ln)
    return out


def matches(line, r):
    """A recorded finding names the case and the assertion which fails."""
    d = dict(re.findall(r'(case|label)=\[([^\]]*)\]', line))
    return (set(d) == {'case', 'label'} and d['case'] == r['case'] and
            str(r['violation']['message']).startswith(d['label']))


def main(pid, tier, seed, only=None, jobs=None, verbose=False):
    global _CASES
    t0 = time.time()
    m = load_check(pid)
    build.prepare()
    import pwtools  # noqa  (preload before forking)
    for n in ('crys', 'num', 'signal', 'pydos', 'thermo', 'eos', 'io',
              'parse', 'sql', 'batch', 'pwscf', 'rbf'):
        try:
            with quiet():
                build.real_mod('pwtools.' + n)
        except Exception:
            pass
    cases = m.cases(tier)
    if only:
        cases = [c for c in cases if only in c.name]
    _CASES = cases
    order = sorted(range(len(cases)),
                   key=lambda i: -cases[i].opt.get('weight', 1))
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(cases)))
    if len(cases) == 1 and jobs == 1:
        results = [_work((i, tier, seed, False)) for i in order]
    else:
        results = run_procs(order, tier, seed, jobs)
    results.sort(key=lambda r: r['case'])
    rc = 0
    tot = Stats()
    funcs = set()
    viol = []
    for r in results:
        tot.merge(r['stats'])
        funcs |= set(r.get('funcs', []))
        if r['status'] == 'violation':
            viol.append(r)
        if verbose or r['status'] in ('error',):
            print('%-40s %-9s %6.1fs paths=%s checks=%s/%s q=%s val=%s %s' % (
                r['case'], r['status'], r['wall'], r['stats']['paths'],
                r['stats']['discharged'], r['stats']['checks'],
                r['stats']['queries'], r.get('validated'),
                r.get('error', '')))
            for k in ('degraded', 'spurious', 'inconclusive', 'mismatch'):
                for x in r.get(k, [])[:6]:
                    print('      %s: %s' % (k, x))
            if verbose > 1:
                for x in r.get('assumed', []):
                    print('      assumed:', x)
        elif r['status'] == 'degraded':
            why = (r['degraded'] + r['spurious'] + r['inconclusive'] +
                   r['mismatch'])[:2]
            print('INCONCLUSIVE property=%s case=%s: %s' % (
                pid, r['case'], '; '.join(why)))
    kf = known_findings(pid)
    known = []
    for r in list(viol):
        hit = [ln for ln in kf if matches(ln, r)]
        if hit:
            viol.remove(r)
            known.append(r)
            print(hit[0])
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    for r in viol:
        v = r['violation']
        vals = {k: jsonable(x) for k, x in (v.get('used') or
                                            v['values']).items()}
        h = hashlib.sha256(json.dumps([r['case'], vals], sort_keys=True,
                                      default=str).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.json' % (
            pid, h))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': r['case'], 'inputs': vals,
                       'message': v['message'], 'found_by': v['why']}, f,
                      indent=1, default=str)
        print('case %s: %s' % (r['case'], v['message']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    errors = [r for r in results if r['status'] == 'error']
    if errors and rc == 0:
        rc = 2
    samples = []
    for r in results:
        samples.extend(r.get('samples', [])[:1])
    assumed = sorted({a for r in results for a in r.get('assumed', [])})
    ndeg = [r for r in results if r['status'] == 'degraded']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot.paths,
            'transitions': tot.branches,
            'traces_validated_against_impl': sum(
                r.get('validated', 0) for r in results),
            'samples': samples[:12] or [{'case': r['case']}
                                        for r in results[:3]],
            'technique': 'symbolic execution of the real source, obligations '
                         'decided by SMT (z3, cvc5 on unknown)',
            'states_meaning': 'symbolic paths executed',
            'transitions_meaning': 'symbolic branch decisions sent to the '
                                   'solver',
            'cases': [{'case': r['case'], 'status': r['status'],
                       'paths': r['stats']['paths'],
                       'complete': r.get('complete', False),
                       'obligations': r['stats']['checks'],
                       'discharged': r['stats']['discharged'],
                       'queries': r['stats']['queries'],
                       'wall_s': round(r['wall'], 2)} for r in results],
            'obligations': tot.checks, 'discharged': tot.discharged,
            'closed_by_normal_form_then_confirmed': tot.trivial,
            'solver': {'queries': tot.queries, 'unsat': tot.unsat,
                       'sat': tot.sat, 'unknown': tot.unknown,
                       'cvc5_unsat': tot.cvc5,
                       'seconds': round(tot.solver_s, 2)},
            'functions_encoded': sorted(funcs),
            'bounds': getattr(m, 'BOUNDS', {}).get(
                tier, getattr(m, 'BOUNDS', {}).get('quick', '')) if
            isinstance(getattr(m, 'BOUNDS', {}), dict) else m.BOUNDS,
            'outside': getattr(m, 'OUTSIDE', ''),
            'not_decided': [{'case': r['case'], 'why': (
                r['degraded'] + r['spurious'] + r['inconclusive'] +
                r['mismatch'])[:4]} for r in ndeg],
            'concrete_runs_of_real_code': sum(r.get('concrete_runs', 0)
                                              for r in results),
        },
        'assumptions': list(getattr(m, 'ASSUMPTIONS', [])) + [
            'real arithmetic: floats are modelled as exact reals, '
            'replays use tolerance 1e-6'] + assumed[:25],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
        'known_findings': [r['case'] for r in known],
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('property=%s tier=%s cases=%i paths=%i obligations=%i discharged=%i '
          'queries=%i solver=%.1fs validated=%i violations=%i wall=%.1fs' % (
              pid, tier, len(results), tot.paths, tot.checks, tot.discharged,
              tot.queries, tot.solver_s, ev['coverage'][
                  'traces_validated_against_impl'], len(viol),
              time.time() - t0))
    return rc


def jsonable(x):
    if isinstance(x, (rnp.floating, rnp.integer)):
        return x.item()
    return x


def replay(path):
    d = json.load(open(path))
    m = load_check(d['property'])
    for tier in ('quick', 'thorough'):
        for c in m.cases(tier):
            if c.name == d['case']:
                if c.opt.get('static'):
                    r = run_static(c, tier, 1)
                    print(r['status'], r['violation'])
                    return 1 if r['violation'] else 0
                r, msg, ctx = run_concrete(c, d['inputs'])
                print('replay %s: %s %s' % (d['case'], r, msg))
                return 1 if r == 'fail' else 0
    print('no such case')
    return 2
