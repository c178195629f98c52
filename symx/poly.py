"""Exact normal forms: sparse multivariate polynomials over Q and rational
functions with factored denominators.

A *poly* is a dict ``{mono: coef}``; a *mono* is a tuple of ``(atom_id, exp)``
pairs sorted by atom id with exp >= 1; coef is a nonzero int or Fraction.
Atoms can carry a reduction rule ``atom**k -> poly`` (square roots, cube roots,
sin**2 -> 1 - cos**2), applied on every product, which makes the form canonical
for the algebraic extensions used here.
"""
from fractions import Fraction

ONE = ()


class TooBig(Exception):
    pass


MAXTERMS = 40000


def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = norm_c(c)
    return {ONE: c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = norm_c(v + c)
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: norm_c(c * k) for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b))


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    # merge two sorted tuples
    i = j = 0
    lm, ln = len(m), len(n)
    out = []
    while i < lm and j < ln:
        a, b = m[i], n[j]
        if a[0] == b[0]:
            out.append((a[0], a[1] + b[1]))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m[i:])
    out.extend(n[j:])
    return tuple(out)


def mono_div(m, n):
    """m / n or None."""
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) - e
        if v < 0:
            return None
        if v == 0:
            del d[a]
        else:
            d[a] = v
    return tuple(sorted(d.items()))


class Ring:
    """Holds the reduction rules of atoms."""

    def __init__(self):
        self.rules = {}          # atom -> (k, poly)
        self.check = None        # deadline callback

    def mono_reduce(self, m):
        """Return None if nothing to reduce, else poly."""
        rules = self.rules
        for a, e in m:
            r = rules.get(a)
            if r is not None and e >= r[0]:
                q, rem = divmod(e, r[0])
                rest = tuple((x, y) for x, y in m if x != a)
                base = rest if rem == 0 else mono_mul(rest, ((a, rem),))
                b = self.mono_reduce(base)
                return self.mul({base: 1} if b is None else b,
                                self.pow(r[1], q))
        return None

    def mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1 and ONE in a:
            return p_scale(b, a[ONE])
        if len(b) == 1 and ONE in b:
            return p_scale(a, b[ONE])
        if len(a) < len(b):
            a, b = b, a
        if len(a) * len(b) > 4000000:
            raise TooBig('poly product %i x %i' % (len(a), len(b)))
        if self.check is not None and len(a) * len(b) > 2000:
            self.check()
        r = {}
        rules = self.rules
        red = []
        for n, d in b.items():
            for m, c in a.items():
                mn = mono_mul(m, n)
                v = r.get(mn)
                r[mn] = c * d if v is None else v + c * d
        out = {}
        for m, c in r.items():
            c = norm_c(c)
            if c:
                out[m] = c
        if len(out) > MAXTERMS:
            raise TooBig('poly with %i terms' % len(out))
        if rules:
            for m in list(out):
                for at, e in m:
                    ru = rules.get(at)
                    if ru is not None and e >= ru[0]:
                        red.append(m)
                        break
            for m in red:
                c = out.pop(m)
                out = p_add(out, p_scale(self.mono_reduce(m), c))
        return out

    def pow(self, a, n):
        r = {ONE: 1}
        b = a
        while n:
            if n & 1:
                r = self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r

    # -- division ---------------------------------------------------------
    @staticmethod
    def order_key(m):
        # graded lex
        return (sum(e for _, e in m), tuple((-a, e) for a, e in m))

    def lead(self, p):
        m = max(p, key=self.order_key)
        return m, p[m]

    def div_exact(self, a, b):
        """a / b if exact as plain polynomials, else None."""
        if not a:
            return {}
        if len(b) == 1:
            (bm, bc), = b.items()
            out = {}
            inv = Fraction(1) / bc
            for m, c in a.items():
                q = mono_div(m, bm)
                if q is None:
                    return None
                out[q] = norm_c(c * inv)
            return out
        # cheap necessary tests
        va = {}
        for m in a:
            for x, e in m:
                if va.get(x, 0) < e:
                    va[x] = e
        vb = {}
        for m in b:
            for x, e in m:
                if vb.get(x, 0) < e:
                    vb[x] = e
        for x, e in vb.items():
            if va.get(x, 0) < e:
                return None
        if len(a) * len(b) > 200000:
            return None
        key = self.lexkey(sorted(vb) + [x for x in sorted(va) if x not in vb])
        bm = max(b, key=key)
        bc = b[bm]
        bmin = min(b, key=key)
        amin = min(a, key=key)
        if mono_div(amin, bmin) is None:
            return None
        rest = dict(a)
        q = {}
        steps = 0
        while rest:
            m = max(rest, key=key)
            t = mono_div(m, bm)
            if t is None:
                return None
            c = norm_c(Fraction(rest[m]) / bc)
            q[t] = c
            for n, d in b.items():
                mn = mono_mul(t, n)
                v = norm_c(rest.get(mn, 0) - c * d)
                if v:
                    rest[mn] = v
                else:
                    rest.pop(mn, None)
            steps += 1
            if steps > 5000 or len(rest) > 4 * len(a) + 50:
                return None
        return q

    @staticmethod
    def lexkey(order):
        idx = {a: i for i, a in enumerate(order)}
        n = len(order)

        def key(m):
            v = [0] * n
            for a, e in m:
                v[idx[a]] = e
            return v
        return key

    def sqrt_poly(self, p):
        """s with s*s == p (plain polynomials), else None."""
        if not p:
            return {}
        order = sorted({a for m in p for a, _ in m})
        key = self.lexkey(order)
        m = max(p, key=key)
        c = p[m]
        if c < 0 or any(e % 2 for _, e in m):
            return None
        rc = frac_sqrt(c)
        if rc is None:
            return None
        mm = min(p, key=key)
        if p[mm] < 0 or any(e % 2 for _, e in mm):
            return None
        lm = tuple((a, e // 2) for a, e in m)
        s = {lm: rc}
        rest = dict(p)
        del rest[m]
        steps = 0
        while rest:
            m2 = max(rest, key=key)
            t = mono_div(m2, lm)
            if t is None or key(t) >= key(lm):
                return None
            ct = norm_c(Fraction(rest[m2]) / (2 * rc))
            # rest -= 2*s*t + t*t
            for n, d in s.items():
                mn = mono_mul(n, t)
                v = norm_c(rest.get(mn, 0) - 2 * d * ct)
                if v:
                    rest[mn] = v
                else:
                    rest.pop(mn, None)
            mn = mono_mul(t, t)
            v = norm_c(rest.get(mn, 0) - ct * ct)
            if v:
                rest[mn] = v
            else:
                rest.pop(mn, None)
            s[t] = ct
            steps += 1
            if steps > 60:
                return None
        # atoms with rules: the plain square may reduce; s is still a root
        return s


def int_sqrt(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def frac_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = int_sqrt(c.numerator), int_sqrt(c.denominator)
    if a is None or b is None:
        return None
    return norm_c(Fraction(a, b))


def int_root(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def frac_root(c, k):
    c = Fraction(c)
    s = 1
    if c < 0:
        if k % 2 == 0:
            return None
        s, c = -1, -c
    a, b = int_root(c.numerator, k), int_root(c.denominator, k)
    if a is None or b is None:
        return None
    return norm_c(Fraction(s * a, b))


def p_key(p):
    return frozenset(p.items())


class R:
    """Rational function num / prod(f**e).  den: dict key->(poly, exp)."""
    __slots__ = ('ring', 'num', 'den', '_k')

    def __init__(self, ring, num, den=None):
        self.ring = ring
        self.num = num
        self.den = den or {}
        self._k = None

    # -- helpers ----------------------------------------------------------
    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and
                                                  ONE in self.num))

    def const(self):
        return self.num.get(ONE, 0)

    def key(self):
        if self._k is None:
            self._k = (p_key(self.num),
                       frozenset((k, e) for k, (p, e) in self.den.items()))
        return self._k

    def den_poly(self):
        d = {ONE: 1}
        for p, e in self.den.values():
            d = self.ring.mul(d, self.ring.pow(p, e))
        return d

    def atoms(self):
        s = {a for m in self.num for a, _ in m}
        for p, e in self.den.values():
            s |= {a for m in p for a, _ in m}
        return s

    def simplify(self):
        """Cancel denominator factors which divide the numerator."""
        if not self.num:
            self.den = {}
            return self
        if not self.den:
            return self
        num = self.num
        den = dict(self.den)
        ch = False
        for k, (p, e) in list(den.items()):
            while e > 0:
                q = self.ring.div_exact(num, p)
                if q is None:
                    break
                num = q
                e -= 1
                ch = True
            if e:
                den[k] = (p, e)
            else:
                del den[k]
        if ch:
            self.num, self.den = num, den
            self._k = None
        return self

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        ring = self.ring
        if not o.num:
            return self
        if not self.num:
            return o
        if not self.den and not o.den:
            return R(ring, p_add(self.num, o.num))
        den = dict(self.den)
        fa = fb = None
        for k, (p, e) in o.den.items():
            mine = den.get(k)
            e0 = mine[1] if mine else 0
            if e > e0:
                fa = ring.mul(fa, ring.pow(p, e - e0)) if fa is not None \
                    else ring.pow(p, e - e0)
                den[k] = (p, e)
        for k, (p, e) in self.den.items():
            ot = o.den.get(k)
            e0 = ot[1] if ot else 0
            if e > e0:
                fb = ring.mul(fb, ring.pow(p, e - e0)) if fb is not None \
                    else ring.pow(p, e - e0)
        a = self.num if fa is None else ring.mul(self.num, fa)
        b = o.num if fb is None else ring.mul(o.num, fb)
        return R(ring, p_add(a, b), den).simplify()

    def __neg__(self):
        return R(self.ring, p_neg(self.num), self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        ring = self.ring
        if not self.num or not o.num:
            return R(ring, {})
        if not self.den and not o.den:
            return R(ring, ring.mul(self.num, o.num))
        a, b = self.num, o.num
        den = dict(self.den)
        oden = dict(o.den)
        # cross cancel before multiplying out
        for k, (p, e) in list(oden.items()):
            while e > 0 and len(a) > 0:
                q = ring.div_exact(a, p)
                if q is None:
                    break
                a, e = q, e - 1
            if e:
                oden[k] = (p, e)
            else:
                del oden[k]
        for k, (p, e) in list(den.items()):
            while e > 0:
                q = ring.div_exact(b, p)
                if q is None:
                    break
                b, e = q, e - 1
            if e:
                den[k] = (p, e)
            else:
                del den[k]
        for k, (p, e) in oden.items():
            if k in den:
                den[k] = (p, den[k][1] + e)
            else:
                den[k] = (p, e)
        res = R(ring, ring.mul(a, b), den)
        if ring.rules:
            res.simplify()
        elif not res.num:
            res.den = {}
        return res

    def inv(self):
        """1/self; the caller makes sure num != 0."""
        ring = self.ring
        num = self.num
        if len(num) == 1 and ONE in num:
            out = {ONE: norm_c(1 / Fraction(num[ONE]))}
            den = {}
        else:
            out, den = self.fac_inv(num)
        for p, e in self.den.values():
            out = ring.mul(out, ring.pow(p, e))
        return R(ring, out, den).simplify()

    def fac_inv(self, num):
        """Numerator poly and den dict of 1/num: monomial content goes to
        single-atom factors, roots are rationalised when num is c*mono."""
        ring = self.ring
        # content: monomial gcd and rational content by leading coefficient
        items = iter(num)
        g = dict(next(items))
        for m in items:
            if not g:
                break
            d = dict(m)
            g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        out = {ONE: 1}
        den = {}
        if g:
            gm = tuple(sorted(g.items()))
            num = {mono_div(m, gm): c for m, c in num.items()}
            for a, e in gm:
                ru = ring.rules.get(a)
                if ru is not None:
                    # y**-e = y**(k-e) / p
                    out = ring.mul(out, {((a, ru[0] - e),): 1})
                    o2, d2 = self.fac_inv(ru[1])
                    out = ring.mul(out, o2)
                    for k, (p, ee) in d2.items():
                        den[k] = (p, den[k][1] + ee if k in den else ee)
                else:
                    p = {((a, 1),): 1}
                    k = p_key(p)
                    den[k] = (p, den[k][1] + e if k in den else e)
        lm, lc = ring.lead(num)
        out = p_scale(out, norm_c(1 / Fraction(lc)))
        num = p_scale(num, norm_c(1 / Fraction(lc)))
        if not (len(num) == 1 and ONE in num):
            # a perfect square is one factor twice
            e = 1
            s = ring.sqrt_poly(num) if len(num) > 2 else None
            if s is not None and p_key(ring.mul(s, s)) == p_key(num):
                num, e = s, 2
                _, lc = ring.lead(num)
                if lc < 0:
                    num = p_neg(num)
            # binomial/trinomial rationalisation: a + b*sqrt(p) -> only if
            # exactly one rule atom occurs linearly with k == 2
            rats = {a for m in num for a, _ in m if a in ring.rules}
            if len(rats) == 1 and e == 1:
                a, = rats
                if ring.rules[a][0] == 2:
                    A = {m: c for m, c in num.items()
                         if all(x != a for x, _ in m)}
                    B = {tuple((x, y) for x, y in m if x != a): c
                         for m, c in num.items() if any(x == a for x, _ in m)}
                    conj = p_sub(A, ring.mul(B, {((a, 1),): 1}))
                    nrm = p_sub(ring.mul(A, A),
                                ring.mul(ring.mul(B, B), ring.rules[a][1]))
                    if nrm and len(nrm) <= 60:
                        out = ring.mul(out, conj)
                        o2, d2 = self.fac_inv(nrm)
                        out = ring.mul(out, o2)
                        for k, (p, ee) in d2.items():
                            den[k] = (p, den[k][1] + ee if k in den else ee)
                        return out, den
            k = p_key(num)
            den[k] = (num, den[k][1] + e if k in den else e)
        return out, den

    def ipow(self, n):
        if n < 0:
            return self.inv().ipow(-n)
        r = R(self.ring, {ONE: 1})
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r
