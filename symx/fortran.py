"""Interpreter for the Fortran 90 subset used by src/_ext_src/*.f90, running on
symbolic values, plus an OpenMP data-race analysis (SMT) on the same AST.

The sources are re-parsed on every run.  Anything outside the subset raises
`Unsupported`.
"""
import os
import re
import types
from fractions import Fraction

import numpy as rnp
import z3

from .core import Sym, SymBool, Unsupported, cur, b_not, b_and, b_or
from . import shim

EXT = os.path.join(shim.REPO, 'src', '_ext_src')


# ---------------------------------------------------------------------------
# reading
# ---------------------------------------------------------------------------

def preprocess(src, defines=('__OPENMP',)):
    lines = []
    macros = {}
    stack = []
    for ln in src.splitlines():
        s = ln.strip()
        if s.startswith('#'):
            m = re.match(r'#\s*(\w+)\s*(\S*)\s*(.*)', s)
            d = m.group(1)
            if d == 'ifdef':
                stack.append(m.group(2) in defines or m.group(2) in macros)
            elif d == 'ifndef':
                stack.append(not (m.group(2) in defines or
                                  m.group(2) in macros))
            elif d == 'else':
                stack[-1] = not stack[-1]
            elif d == 'endif':
                stack.pop()
            elif d == 'define' and all(stack):
                macros[m.group(2)] = m.group(3)
            continue
        if not all(stack):
            continue
        lines.append(ln)
    out = []
    cont = ''
    for ln in lines:
        s = ln.strip()
        low = s.lower()
        if low.startswith('!f2py') or low.startswith('!$omp'):
            out.append(low)
            continue
        # strip comments outside strings
        r = ''
        q = None
        for ch in ln:
            if q:
                r += ch
                if ch == q:
                    q = None
                continue
            if ch in '"\'':
                q = ch
                r += ch
            elif ch == '!':
                break
            else:
                r += ch
        s = r.strip()
        if not s:
            continue
        if s.startswith('&'):
            s = s[1:]
        if s.endswith('&'):
            cont += s[:-1] + ' '
            continue
        s = (cont + s).strip()
        cont = ''
        for k, v in macros.items():
            s = re.sub(r'\b%s\b' % re.escape(k), v, s)
        # several statements
        parts, cur_, q = [], '', None
        for ch in s:
            if q:
                if ch == q:
                    q = None
            elif ch in '"\'':
                q = ch
            elif ch == ';':
                parts.append(cur_)
                cur_ = ''
                continue
            cur_ += ch
        parts.append(cur_)
        out.extend(p.strip() for p in parts if p.strip())
    return out


TOK = re.compile(r'''\s*(?:
 (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[dDeE][+-]?\d+)?(?:_\w+)?)
|(?P<dot>\.(?:and|or|not|eq|ne|lt|le|gt|ge|true|false|eqv|neqv)\.)
|(?P<id>[A-Za-z_]\w*)
|(?P<str>"[^"]*"|'[^']*')
|(?P<op>\*\*|==|/=|<=|>=|=>|::|//|\(/|/\)|[-+*/<>=(),:%\[\]])
)''', re.X | re.I)


def tokenize(s):
    # "1.and." style is not used; keep simple: number must not eat ".and."
    pos = 0
    out = []
    while pos < len(s):
        if s[pos:].strip() == '':
            break
        m = re.match(r'\s*(\d+)(?=\.(?:and|or|eq|ne|lt|le|gt|ge)\.)', s[pos:],
                     re.I)
        if m:
            out.append(('num', m.group(1)))
            pos += m.end()
            continue
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('fortran token: %r' % s[pos:pos + 20])
        k = m.lastgroup
        v = m.group(k)
        if k in ('id', 'dot'):
            v = v.lower()
        out.append((k, v))
        pos = m.end()
    return out


class P:
    """Expression parser."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported('fortran: expected %s got %s' % (v, self.peek()))

    def end(self):
        return self.i >= len(self.t)

    def expr(self):
        return self.p_or()

    def p_or(self):
        a = self.p_and()
        while self.peek()[1] in ('.or.', '.eqv.', '.neqv.'):
            op = self.next()[1]
            a = ('bin', op, a, self.p_and())
        return a

    def p_and(self):
        a = self.p_not()
        while self.accept('.and.'):
            a = ('bin', '.and.', a, self.p_not())
        return a

    def p_not(self):
        if self.accept('.not.'):
            return ('un', '.not.', self.p_not())
        return self.p_cmp()

    CMP = {'==': '==', '/=': '/=', '<': '<', '<=': '<=', '>': '>', '>=': '>=',
           '.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=',
           '.gt.': '>', '.ge.': '>='}

    def p_cmp(self):
        a = self.p_add()
        while self.peek()[1] in self.CMP and self.peek()[0] in ('op', 'dot'):
            op = self.CMP[self.next()[1]]
            a = ('bin', op, a, self.p_add())
        return a

    def p_add(self):
        if self.peek() == ('op', '-'):
            self.next()
            a = ('un', '-', self.p_mul())
        elif self.peek() == ('op', '+'):
            self.next()
            a = self.p_mul()
        else:
            a = self.p_mul()
        while self.peek() in (('op', '+'), ('op', '-'), ('op', '//')):
            op = self.next()[1]
            a = ('bin', op, a, self.p_mul())
        return a

    def p_mul(self):
        a = self.p_pow()
        while self.peek() in (('op', '*'), ('op', '/')):
            op = self.next()[1]
            a = ('bin', op, a, self.p_pow())
        return a

    def p_pow(self):
        a = self.p_prim()
        if self.accept('**'):
            if self.peek() == ('op', '-'):
                self.next()
                return ('bin', '**', a, ('un', '-', self.p_pow()))
            return ('bin', '**', a, self.p_pow())
        return a

    def p_prim(self):
        k, v = self.next()
        if k == 'num':
            v = v.split('_')[0].lower()
            if re.fullmatch(r'\d+', v):
                return ('int', int(v))
            return ('real', Fraction(v.replace('d', 'e')))
        if k == 'str':
            return ('str', v[1:-1])
        if k == 'dot' and v in ('.true.', '.false.'):
            return ('log', v == '.true.')
        if v == '(':
            save = self.i
            e = self.expr()
            if self.peek()[1] == ',':
                # implied do
                items = [e]
                while self.accept(','):
                    if self.peek()[0] == 'id' and self.peek(1)[1] == '=':
                        var = self.next()[1]
                        self.next()
                        lo = self.expr()
                        self.expect(',')
                        hi = self.expr()
                        st = self.expr() if self.accept(',') else None
                        self.expect(')')
                        return ('impdo', items, var, lo, hi, st)
                    items.append(self.expr())
                raise Unsupported('complex literal')
            self.expect(')')
            return ('par', e)
        if v in ('(/', '['):
            items = []
            close = '/)' if v == '(/' else ']'
            while not self.accept(close):
                items.append(self.expr())
                self.accept(',')
            return ('arr', items)
        if k == 'id':
            if self.accept('('):
                args = []
                while not self.accept(')'):
                    args.append(self.arg())
                    self.accept(',')
                return ('ref', v, args)
            return ('var', v)
        raise Unsupported('fortran primary %r' % (v,))

    def arg(self):
        # keyword, section or expr
        if self.peek()[0] == 'id' and self.peek(1)[1] == '=':
            n = self.next()[1]
            self.next()
            if self.accept('*'):
                return ('kw', n, None)
            return ('kw', n, self.expr())
        if self.peek()[1] == '*' and self.peek()[0] == 'op':
            self.next()
            return ('star',)
        lo = None
        if self.peek()[1] != ':':
            lo = self.expr()
            if self.peek()[1] != ':':
                return lo
        self.expect(':')
        hi = st = None
        if self.peek()[1] not in (',', ')', ':'):
            hi = self.expr()
        if self.accept(':'):
            st = self.expr()
        return ('sec', lo, hi, st)


TYPES = re.compile(r'^(integer|double\s+precision|real|logical|'
                   r'character\s*(?:\([^)]*\))?)\b(.*)$', re.I | re.S)


def split_top(s, sep=','):
    out, d, c = [], 0, ''
    for ch in s:
        if ch in '([':
            d += 1
        elif ch in ')]':
            d -= 1
        if ch == sep and d == 0:
            out.append(c)
            c = ''
        else:
            c += ch
    out.append(c)
    return [x.strip() for x in out]


class Decl:
    def __init__(self, name):
        self.name = name
        self.type = None
        self.dims = None
        self.intent = set()
        self.optional = False
        self.param = None
        self.alloc = False


class Sub:
    def __init__(self, name, args, isfunc=False):
        self.name = name
        self.args = args
        self.decls = {}
        self.body = []
        self.isfunc = isfunc
        self.result = name

    def decl(self, n):
        n = n.lower()
        if n not in self.decls:
            self.decls[n] = Decl(n)
        return self.decls[n]


def parse_decl(sub, line):
    m = TYPES.match(line)
    ty = re.sub(r'\s+', ' ', m.group(1).lower())
    rest = m.group(2)
    attrs = ''
    # character(len=..), kind
    if rest.strip().startswith('('):
        depth = 0
        for i, ch in enumerate(rest):
            if ch == '(':
                depth += 1
            if ch == ')':
                depth -= 1
                if depth == 0:
                    break
        rest = rest[i + 1:]
    if '::' in rest:
        attrs, names = rest.split('::', 1)
    else:
        names = rest
    at = [a.strip().lower() for a in split_top(attrs) if a.strip()]
    base = 'double' if ty.startswith('double') else ty.split('(')[0].strip()
    dimattr = None
    for a in at:
        if a.startswith('dimension'):
            dimattr = a[a.index('(') + 1:a.rindex(')')]
    for n in split_top(names):
        init = None
        m = re.match(r'^(\w+)\s*(\((?:.*)\))?\s*(?:=\s*(.*))?$', n, re.S)
        if n.count('=') and '(' in n and n.index('=') < n.index('('):
            m = re.match(r'^(\w+)\s*()=\s*(.*)$', n, re.S)
        if not m:
            raise Unsupported('fortran decl: ' + n)
        d = sub.decl(m.group(1))
        d.type = base
        dims = m.group(2)
        if dims:
            dims = dims[1:-1]
        elif dimattr:
            dims = dimattr
        if dims:
            dl = []
            for x in split_top(dims):
                if ':' in x:
                    lo, hi = x.split(':')
                    lo = P(tokenize(lo)).expr() if lo.strip() else None
                    hi = P(tokenize(hi)).expr() if hi.strip() else None
                    dl.append((lo if lo is not None or hi is None
                               else ('int', 1), hi))
                else:
                    dl.append((('int', 1), P(tokenize(x)).expr()))
            d.dims = dl
        if m.group(3) is not None:
            d.param = P(tokenize(m.group(3))).expr()
        for a in at:
            mm = re.match(r'intent\s*\((.*)\)', a)
            if mm:
                s = mm.group(1).replace(' ', '')
                d.intent |= {'in', 'out'} if s == 'inout' else {s}
            if a == 'optional':
                d.optional = True
            if a == 'allocatable':
                d.alloc = True


def parse_file(path):
    with open(path) as f:
        lines = preprocess(f.read())
    subs = {}
    sub = None
    stack = None
    omp = []
    for ln in lines:
        low = ln.lower()
        if ln.startswith('!f2py'):
            if sub is None:
                continue
            m = re.match(r'!f2py\s+intent\s*\(([^)]*)\)\s*(?:::)?\s*(.*)', ln)
            if m:
                its = {x.strip() for x in m.group(1).split(',')}
                for n in m.group(2).split(','):
                    sub.decl(n.strip()).intent |= its
            continue
        if ln.startswith('!$omp'):
            if sub is not None:
                stack[-1].append(('omp', ln[5:].strip()))
            continue
        m = re.match(r'^(?:(double\s+precision|integer|real|logical)\s+)?'
                     r'(?:pure\s+|recursive\s+|elemental\s+)*'
                     r'(subroutine|function)\s+(\w+)\s*(?:\(([^)]*)\))?\s*'
                     r'(?:result\s*\((\w+)\))?$', low)
        if m and sub is None:
            args = [a.strip() for a in (m.group(4) or '').split(',')
                    if a.strip()]
            sub = Sub(m.group(3), args, m.group(2) == 'function')
            if m.group(5):
                sub.result = m.group(5)
            if m.group(1):
                sub.decl(sub.result).type = 'double' if 'double' in \
                    m.group(1) else m.group(1)
            stack = [sub.body]
            continue
        if re.match(r'^(module|end\s*module|contains)\b', low):
            continue
        if sub is None:
            continue
        if re.match(r'^end\s*(subroutine|function)\b', low) or (
                low == 'end' and len(stack) == 1):
            subs[sub.name] = sub
            sub = None
            continue
        if re.match(r'^(use|implicit|external|intrinsic)\b', low):
            continue
        m = TYPES.match(ln)
        if m and not re.match(r'^real\s*\(.*\)\s*=', low) and \
                len(stack) == 1:
            parse_decl(sub, ln)
            continue
        if low.startswith('format'):
            continue
        parse_stmt(ln, low, stack)
    return subs


def parse_stmt(ln, low, stack):
    top = stack[-1]
    low1 = re.sub(r'^(\w+)\s*:\s*(?=do\b|if\b)', '', low)
    if low1 != low:
        ln = ln[len(low) - len(low1):]
        low = low1
    if re.match(r'^end\s*(if|do|where|select)\b', low):
        stack.pop()
        if stack and isinstance(stack[-1], tuple):
            stack.pop()
        return
    m = re.match(r'^else\s*if\s*\((.*)\)\s*then$', low, re.S)
    if m:
        node = stack[-2]
        stack.pop()
        body = []
        node[1].append((P(tokenize(m.group(1))).expr(), body))
        stack.append(body)
        return
    if re.match(r'^else$', low):
        node = stack[-2]
        stack.pop()
        body = []
        node[1].append((None, body))
        stack.append(body)
        return
    m = re.match(r'^if\s*\((.*)\)\s*then$', low, re.S)
    if m:
        body = []
        node = ('if', [(P(tokenize(m.group(1))).expr(), body)])
        top.append(node)
        stack.append(node)
        stack.append(body)
        return
    m = re.match(r'^do\s+while\s*\((.*)\)$', low, re.S)
    if m:
        body = []
        top.append(('while', P(tokenize(m.group(1))).expr(), body))
        stack.append(body)
        return
    if low == 'do':
        body = []
        top.append(('while', ('log', True), body))
        stack.append(body)
        return
    m = re.match(r'^do\s+(\w+)\s*=\s*(.*)$', low, re.S)
    if m:
        parts = split_top(m.group(2))
        es = [P(tokenize(x)).expr() for x in parts]
        body = []
        top.append(('do', m.group(1), es[0], es[1],
                    es[2] if len(es) > 2 else None, body))
        stack.append(body)
        return
    m = re.match(r'^(if|where)\s*\(', low)
    if m:
        kw = m.group(1)
        d = 0
        for i in range(m.end() - 1, len(ln)):
            if ln[i] == '(':
                d += 1
            if ln[i] == ')':
                d -= 1
                if d == 0:
                    break
        cond = P(tokenize(ln[m.end():i])).expr()
        rest = ln[i + 1:].strip()
        body = []
        if kw == 'where':
            top.append(('where', cond, body))
            if rest:
                parse_stmt(rest, rest.lower(), [body])
            else:
                stack.append(body)
        else:
            top.append(('if', [(cond, body)]))
            parse_stmt(rest, rest.lower(), [body])
        return
    if low in ('return', 'exit', 'cycle', 'continue'):
        top.append((low,))
        return
    if re.match(r'^(exit|cycle)\s+\w+$', low):
        raise Unsupported('named exit')
    if re.match(r'^stop\b', low) or low.startswith('error stop'):
        top.append(('stop',))
        return
    if re.match(r'^(write|print)\b', low):
        top.append(('write',))
        return
    m = re.match(r'^call\s+(\w+)\s*(?:\((.*)\))?$', ln, re.S | re.I)
    if m:
        args = []
        if m.group(2):
            p = P(tokenize(m.group(2)))
            while not p.end():
                args.append(p.arg())
                p.accept(',')
        top.append(('call', m.group(1).lower(), args))
        return
    m = re.match(r'^(open|close|read|allocate|deallocate|rewind)\s*\(', low)
    if m:
        p = P(tokenize(ln[m.end():]))
        args = []
        while not p.accept(')'):
            args.append(p.arg())
            p.accept(',')
        items = []
        while not p.end():
            items.append(p.expr())
            p.accept(',')
        top.append((m.group(1), args, items))
        return
    # assignment
    p = P(tokenize(ln))
    lhs = p.p_prim()
    p.expect('=')
    rhs = p.expr()
    if not p.end():
        raise Unsupported('fortran statement: ' + ln)
    top.append(('asg', lhs, rhs))


# ---------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------

class Arr:
    """Array with lower bounds."""
    __slots__ = ('a', 'lb')

    def __init__(self, a, lb):
        self.a = a
        self.lb = lb


class Ret(Exception):
    pass


class Exit(Exception):
    pass


class Cycle(Exception):
    pass


class FStop(Exception):
    pass


def newarr(shape, ty):
    shape = tuple(max(0, int(s)) for s in shape)
    a = rnp.empty(shape, dtype=object, order='F')
    a.fill(float('nan') if ty in ('double', 'real') else 0)
    return a


class Interp:
    def __init__(self, path, fileio=None):
        self.subs = parse_file(path)
        self.files = {}
        self.fileio = fileio
        self.maxloop = 400

    # -- expressions ----------------------------------------------------------
    def ev(self, e, env):
        k = e[0]
        if k == 'int':
            return e[1]
        if k == 'real':
            return Sym.lift(e[1])
        if k == 'str':
            return e[1]
        if k == 'log':
            return e[1]
        if k == 'par':
            return self.ev(e[1], env)
        if k == 'var':
            v = env.vars.get(e[1])
            if v is None:
                raise Unsupported('fortran: unknown variable ' + e[1])
            if isinstance(v, Arr):
                return v.a
            return v[0]
        if k == 'ref':
            v = env.vars.get(e[1])
            if isinstance(v, Arr):
                return v.a[self.index(v, e[2], env)]
            return self.call_fn(e[1], e[2], env)
        if k == 'arr':
            return shim.asarr([self.ev(x, env) for x in e[1]])
        if k == 'un':
            x = self.ev(e[2], env)
            if e[1] == '-':
                return -x
            return self.lnot(x)
        if k == 'bin':
            return self.binop(e[1], e[2], e[3], env)
        raise Unsupported('fortran expr ' + k)

    def lnot(self, x):
        if isinstance(x, SymBool):
            return ~x
        if isinstance(x, rnp.ndarray):
            return shim.emap(self.lnot, x)
        return not x

    def binop(self, op, ea, eb, env):
        a = self.ev(ea, env)
        if op in ('.and.', '.or.'):
            b = self.ev(eb, env)
            return self.logic(op, a, b)
        b = self.ev(eb, env)
        if op in ('==', '/=', '<', '<=', '>', '>='):
            f = {'==': lambda x, y: x == y, '/=': lambda x, y: x != y,
                 '<': lambda x, y: x < y, '<=': lambda x, y: x <= y,
                 '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[op]
            return self.ew(f, a, b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            def dv(x, y):
                if isinstance(x, int) and isinstance(y, int):
                    q = abs(x) // abs(y)
                    return q if (x < 0) == (y < 0) else -q
                return shim.lift1(x) / shim.lift1(y)
            return self.ew(dv, a, b)
        if op == '**':
            return self.ew(lambda x, y: x ** y if isinstance(x, int) and
                           isinstance(y, int) else shim.lift1(x) ** y, a, b)
        if op == '//':
            return str(a) + str(b)
        raise Unsupported('fortran op ' + op)

    def logic(self, op, a, b):
        def f(x, y):
            if isinstance(x, (bool, rnp.bool_)) and isinstance(
                    y, (bool, rnp.bool_)):
                return (x and y) if op == '.and.' else (x or y)
            x, y = SymBool.lift(x), SymBool.lift(y)
            return SymBool(b_and([x, y]) if op == '.and.' else b_or([x, y]))
        return self.ew(f, a, b)

    def ew(self, f, a, b):
        if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
            x, y = rnp.broadcast_arrays(
                rnp.asarray(a if isinstance(a, rnp.ndarray) else box(a)),
                rnp.asarray(b if isinstance(b, rnp.ndarray) else box(b)))
            out = rnp.empty(x.shape, dtype=object)
            for i in rnp.ndindex(*x.shape):
                out[i] = f(x[i], y[i])
            return out
        return f(a, b)

    def index(self, v, args, env):
        idx = []
        if len(args) != v.a.ndim:
            raise Unsupported('fortran rank')
        for d, x in enumerate(args):
            n = v.a.shape[d]
            lb = v.lb[d]
            if x[0] == 'sec':
                st = int(self.ev(x[3], env)) if x[3] is not None else 1
                lo = int(self.ev(x[1], env)) - lb if x[1] is not None else 0
                hi = int(self.ev(x[2], env)) - lb if x[2] is not None \
                    else n - 1
                if st != 1:
                    raise Unsupported('strided section')
                if hi >= lo and (lo < 0 or hi >= n):
                    raise IndexError('fortran section out of bounds')
                idx.append(slice(lo, max(lo, hi + 1)))
            else:
                i = int(self.ev(x, env)) - lb
                if i < 0 or i >= n:
                    raise IndexError('fortran index out of bounds')
                idx.append(i)
        return tuple(idx)

    FN1 = {'sqrt': 'sqrt', 'dsqrt': 'sqrt', 'acos': 'arccos',
           'dacos': 'arccos', 'cos': 'cos', 'dcos': 'cos', 'sin': 'sin',
           'dsin': 'sin', 'exp': 'exp', 'dexp': 'exp', 'log': 'log',
           'dlog': 'log', 'abs': '__abs__', 'dabs': '__abs__'}

    def call_fn(self, n, args, env):
        if n in self.subs and self.subs[n].isfunc:
            return self.call_sub(n, args, env, fn=True)
        kw = {a[1]: self.ev(a[2], env) for a in args if a[0] == 'kw'}
        v = [self.ev(a, env) for a in args if a[0] != 'kw']
        if n in self.FN1:
            m = self.FN1[n]

            def f(x):
                if isinstance(x, int) and m == '__abs__':
                    return abs(x)
                return getattr(shim.lift1(x), m)()
            return shim.emap(f, v[0]) if isinstance(v[0], rnp.ndarray) \
                else f(v[0])
        if n == 'sum':
            a = rnp.asarray(v[0])
            dim = kw.get('dim', v[1] if len(v) > 1 else None)
            if dim is not None:
                return rnp.sum(a, axis=int(dim) - 1)
            s = Sym.lift(0)
            for x in a.ravel(order='F'):
                s = s + x
            return s
        if n in ('maxval', 'minval'):
            return shim.O['max' if n == 'maxval' else 'min'](v[0])
        if n == 'product':
            s = Sym.lift(1)
            for x in rnp.asarray(v[0]).ravel():
                s = s * x
            return s
        if n == 'dot_product':
            s = Sym.lift(0)
            if len(v[0]) != len(v[1]):
                raise ValueError('dot_product')
            for x, y in zip(v[0], v[1]):
                s = s + x * y
            return s
        if n == 'matmul':
            return rnp.asarray(shim.dot(v[0], v[1]))
        if n == 'transpose':
            return rnp.asarray(v[0]).T
        if n == 'size':
            a = v[0]
            return a.size if len(v) == 1 else a.shape[int(v[1]) - 1]
        if n in ('floor', 'int', 'nint', 'anint', 'aint', 'ceiling',
                 'dnint', 'dint'):
            def f(x):
                x = shim.lift1(x)
                if n == 'floor':
                    return x.floor()
                if n == 'ceiling':
                    return x.ceil()
                if n in ('int', 'aint', 'dint'):
                    return cur().trunc(x)
                # round half away from zero
                h = Sym.lift(Fraction(1, 2))
                if x >= 0:
                    return (x + h).floor()
                return -((-x + h).floor())
            return shim.emap(f, v[0]) if isinstance(v[0], rnp.ndarray) \
                else f(v[0])
        if n in ('mod', 'modulo'):
            if all(isinstance(x, int) for x in v):
                if n == 'modulo':
                    return v[0] % v[1]
                r = abs(v[0]) % abs(v[1])
                return r if v[0] >= 0 else -r
            return self.ew(lambda x, y: (shim.lift1(x) % y) if n == 'modulo'
                           else shim.lift1(x) - y * cur().trunc(
                               shim.lift1(x) / y), v[0], v[1])
        if n in ('min', 'max', 'dmin1', 'dmax1'):
            m = v[0]
            for x in v[1:]:
                if 'max' in n:
                    m = self.ew(lambda p, q: p if p >= q else q, m, x)
                else:
                    m = self.ew(lambda p, q: p if p <= q else q, m, x)
            return m
        if n in ('dble', 'real', 'float'):
            return v[0] if isinstance(v[0], rnp.ndarray) else \
                shim.lift1(v[0])
        if n == 'trim':
            return v[0].rstrip() if isinstance(v[0], str) else v[0]
        if n == 'present':
            return True
        if n == 'spread':
            raise Unsupported('spread')
        if n in ('all', 'any'):
            a = [bool(x) for x in rnp.asarray(v[0]).ravel()]
            return all(a) if n == 'all' else any(a)
        if n == 'merge':
            return v[0] if bool(v[2]) else v[1]
        raise Unsupported('fortran function ' + n)

    # -- statements -------------------------------------------------------------
    def assign(self, lhs, val, env):
        if lhs[0] == 'var':
            v = env.vars.get(lhs[1])
            if v is None:
                raise Unsupported('fortran: unknown variable ' + lhs[1])
            if isinstance(v, Arr):
                if isinstance(val, rnp.ndarray) and val.shape != v.a.shape:
                    raise ValueError('fortran shape mismatch')
                v.a[...] = val if isinstance(val, rnp.ndarray) else conv(
                    val, env.type(lhs[1]))
            else:
                v[0] = conv(val, env.type(lhs[1]))
            return
        if lhs[0] == 'ref':
            v = env.vars.get(lhs[1])
            if not isinstance(v, Arr):
                raise Unsupported('fortran lhs')
            idx = self.index(v, lhs[2], env)
            if isinstance(val, rnp.ndarray):
                tgt = v.a[idx]
                if rnp.shape(tgt) != val.shape:
                    raise ValueError('fortran shape mismatch')
                v.a[idx] = rnp.array(val, dtype=object)
            else:
                v.a[idx] = conv(val, env.type(lhs[1]))
            return
        raise Unsupported('fortran lhs')

    def run(self, body, env):
        for s in body:
            k = s[0]
            cur().tick()
            if k == 'asg':
                self.assign(s[1], self.ev(s[2], env), env)
            elif k == 'do':
                lo = int(self.ev(s[2], env))
                hi = int(self.ev(s[3], env))
                st = int(self.ev(s[4], env)) if s[4] is not None else 1
                v = env.vars[s[1]]
                i = lo
                while (i <= hi) if st > 0 else (i >= hi):
                    v[0] = i
                    try:
                        self.run(s[5], env)
                    except Exit:
                        break
                    except Cycle:
                        pass
                    i += st
                else:
                    v[0] = i
            elif k == 'while':
                n = 0
                while bool(self.ev(s[1], env)):
                    try:
                        self.run(s[2], env)
                    except Exit:
                        break
                    except Cycle:
                        pass
                    n += 1
                    if n > self.maxloop:
                        raise Unsupported('fortran loop bound')
            elif k == 'if':
                for cond, b in s[1]:
                    if cond is None or bool(self.ev(cond, env)):
                        self.run(b, env)
                        break
            elif k == 'where':
                mask = rnp.asarray(self.ev(s[1], env))
                mask = rnp.array([bool(x) for x in mask.ravel()],
                                 dtype=bool).reshape(mask.shape)
                for a in s[2]:
                    if a[0] != 'asg' or a[1][0] != 'var':
                        raise Unsupported('where body')
                    tgt = env.vars[a[1][1]].a
                    # evaluate the rhs elementwise only where masked
                    for i in rnp.ndindex(*mask.shape):
                        if mask[i]:
                            sub = ElemEnv(env, i, mask.shape)
                            tgt[i] = conv(self.ev(a[2], sub),
                                          env.type(a[1][1]))
            elif k == 'call':
                self.call_sub(s[1], s[2], env)
            elif k == 'return':
                raise Ret()
            elif k == 'exit':
                raise Exit()
            elif k == 'cycle':
                raise Cycle()
            elif k == 'stop':
                raise FStop('STOP')
            elif k in ('write', 'omp', 'continue', 'deallocate'):
                pass
            elif k == 'allocate':
                for a in s[1]:
                    if a[0] == 'kw':
                        continue
                    shape, lb = [], []
                    for x in a[2]:
                        if x[0] == 'sec':
                            l = int(self.ev(x[1], env))
                            h = int(self.ev(x[2], env))
                        else:
                            l, h = 1, int(self.ev(x, env))
                        lb.append(l)
                        shape.append(h - l + 1)
                    env.vars[a[1]] = Arr(newarr(shape, env.type(a[1])), lb)
            elif k in ('open', 'close', 'read', 'rewind'):
                self.io(k, s[1], s[2], env)
            else:
                raise Unsupported('fortran statement ' + k)

    # -- calls ----------------------------------------------------------------
    def call_sub(self, n, args, env, fn=False):
        if n == 'omp_set_num_threads':
            return
        if n == 'dgesv':
            return self.dgesv(args, env)
        sub = self.subs.get(n)
        if sub is None:
            raise Unsupported('fortran call ' + n)
        vals = []
        back = []
        for a, nm in zip(args, sub.args):
            if a[0] == 'kw':
                raise Unsupported('keyword actual')
            if a[0] == 'var':
                v = env.vars.get(a[1])
                if v is None:
                    raise Unsupported('fortran: unknown variable ' + a[1])
                vals.append(v)      # by reference
            elif a[0] == 'ref' and isinstance(env.vars.get(a[1]), Arr):
                v = env.vars[a[1]]
                idx = self.index(v, a[2], env)
                t = v.a[idx]
                if isinstance(t, rnp.ndarray):
                    c = rnp.array(t, dtype=object, order='F')
                    vals.append(Arr(c, [1] * c.ndim))
                    back.append((v, idx, c))
                else:
                    cell = [t]
                    vals.append(cell)
                    back.append((v, idx, cell))
            else:
                x = self.ev(a, env)
                if isinstance(x, rnp.ndarray):
                    vals.append(Arr(rnp.array(x, dtype=object),
                                    [1] * x.ndim))
                else:
                    vals.append([x])
        e = self.enter(sub, vals)
        try:
            self.run(sub.body, e)
        except Ret:
            pass
        for v, idx, c in back:
            v.a[idx] = c[0] if isinstance(c, list) else c
        if fn:
            r = e.vars[sub.result]
            return r.a if isinstance(r, Arr) else r[0]

    def enter(self, sub, vals):
        e = Env(self, sub)
        given = dict(zip(sub.args, vals))
        # scalars first (dims depend on them)
        for n, v in given.items():
            if not isinstance(v, Arr):
                e.vars[n] = v
        for n, d in sub.decls.items():
            if d.param is not None and n not in given:
                e.vars[n] = [conv(self.ev(d.param, e), d.type)]
        for n, d in sub.decls.items():
            if d.dims is None and n not in e.vars and n not in given:
                e.vars[n] = [float('nan') if d.type in ('double', 'real')
                             else 0]
        for n, d in sub.decls.items():
            if d.dims is None or d.alloc:
                continue
            v = given.get(n)
            if v is not None and all(h is None for l, h in d.dims):
                e.vars[n] = Arr(v.a, [1] * v.a.ndim)
                continue
            lb = [int(self.ev(l, e)) for l, h in d.dims]
            shape = [int(self.ev(h, e)) - l + 1
                     for (_, h), l in zip(d.dims, lb)]
            if v is not None:
                a = v.a
                if a.shape != tuple(shape):
                    if a.size < int(rnp.prod(shape)):
                        raise ValueError('fortran: array argument %s too '
                                         'small' % n)
                    raise Unsupported('fortran: sequence association')
                e.vars[n] = Arr(a, lb)
            else:
                e.vars[n] = Arr(newarr(shape, d.type), lb)
        for n, v in given.items():
            if isinstance(v, Arr) and n not in e.vars:
                raise Unsupported('undeclared array arg ' + n)
        return e

    def dgesv(self, args, env):
        n = int(self.ev(args[0], env))
        a = rnp.asarray(self.ev(args[2], env))
        bref = args[5]
        b = env.vars[bref[1]].a
        nrhs = int(self.ev(args[1], env))
        if b.ndim == 2 and b.shape[1] != nrhs or a.shape != (n, n):
            raise Unsupported('dgesv shapes')
        x = rnp.asarray(shim.LA.solve(shim.wrap(a.copy()),
                                      shim.wrap(b.copy())))
        b[...] = x
        env.vars[args[7][1]][0] = 0

    # -- io (dcd files) -------------------------------------------------------
    def io(self, kind, args, items, env):
        import struct
        kw = {a[1]: a[2] for a in args if a[0] == 'kw'}
        pos = [a for a in args if a[0] != 'kw']

        def seti(nm, v):
            if nm in kw:
                self.assign(kw[nm], v, env)
        if kind == 'open':
            u = int(self.ev(kw.get('unit', pos[0] if pos else None), env))
            name = self.ev(kw['file'], env).rstrip()
            try:
                with open(name, 'rb') as f:
                    self.files[u] = [f.read(), 0]
                seti('iostat', 0)
            except OSError:
                if 'iostat' not in kw:
                    raise FStop('open')
                seti('iostat', 2)
            return
        u = int(self.ev(kw['unit'] if 'unit' in kw else pos[0], env))
        if kind == 'close':
            self.files.pop(u, None)
            return
        f = self.files[u]
        if kind == 'rewind':
            f[1] = 0
            return
        data, p = f
        if p + 4 > len(data):
            if 'iostat' in kw:
                seti('iostat', -1)
                return
            raise FStop('end of file')
        n, = struct.unpack_from('<i', data, p)
        rec = data[p + 4:p + 4 + n]
        if len(rec) < n or p + 8 + n > len(data):
            if 'iostat' in kw:
                seti('iostat', -1)
                return
            raise FStop('short record')
        f[1] = p + 8 + n
        off = [0]

        def rd(target):
            if target[0] == 'impdo':
                _, its, var, lo, hi, st = target
                v = env.vars[var]
                i = int(self.ev(lo, env))
                h = int(self.ev(hi, env))
                s = int(self.ev(st, env)) if st else 1
                while i <= h:
                    v[0] = i
                    for t in its:
                        rd(t)
                    i += s
                v[0] = i
                return
            if target[0] == 'par':
                return rd(target[1])
            nm = target[1]
            d = env.sub.decls[nm]
            v = env.vars[nm]
            if isinstance(v, Arr) and target[0] == 'var':
                for i in rnp.ndindex(*v.a.shape[::-1]):
                    v.a[i[::-1]] = one(d)
                return
            x = one(d)
            self.assign(target, x, env)

        def one(d):
            if d.type == 'integer':
                fmt, w = '<i', 4
            elif d.type == 'real':
                fmt, w = '<f', 4
            elif d.type == 'double':
                fmt, w = '<d', 8
            elif d.type == 'character':
                w = d.charlen if hasattr(d, 'charlen') else (
                    4 if d.name == 'hdr' else 80)
                b = rec[off[0]:off[0] + w]
                off[0] += w
                return b.decode('latin1')
            if off[0] + w > n:
                raise FStop('record too short')
            x, = struct.unpack_from(fmt, rec, off[0])
            off[0] += w
            if d.type == 'integer':
                return x
            return shim.lift1(cur().untag(x))
        for t in items:
            rd(t)
        seti('iostat', 0)


def box(x):
    o = rnp.empty((), dtype=object)
    o[()] = x
    return o


def conv(v, ty):
    if ty in ('double', 'real') and isinstance(v, (int, float)) and \
            not isinstance(v, bool):
        return shim.lift1(v)
    if ty == 'integer' and isinstance(v, Sym):
        t = cur().trunc(v)
        return int(t.r.const()) if t.r.is_const() else t
    return v


class Env:
    def __init__(self, interp, sub):
        self.interp = interp
        self.sub = sub
        self.vars = {}

    def type(self, n):
        d = self.sub.decls.get(n)
        return d.type if d else None


class ElemEnv:
    """View of an environment for one element of a `where` statement."""

    def __init__(self, env, idx, shape):
        self.sub = env.sub
        self.type = env.type
        self.vars = _ElemVars(env.vars, idx, shape)


class _ElemVars:
    def __init__(self, v, idx, shape):
        self.v, self.idx, self.shape = v, idx, shape

    def get(self, n, d=None):
        x = self.v.get(n, d)
        if isinstance(x, Arr):
            if x.a.shape != self.shape:
                raise Unsupported('where shape')
            return [x.a[self.idx]]
        return x

    def __getitem__(self, n):
        return self.get(n)


# ---------------------------------------------------------------------------
# f2py-like module
# ---------------------------------------------------------------------------

class FModule(types.ModuleType):
    def __init__(self, name, fname):
        super().__init__(name)
        self.__file__ = os.path.join(EXT, fname)
        self._ip = Interp(self.__file__)
        self.error = FStop

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        sub = self.__dict__['_ip'].subs.get(n)
        if sub is None:
            raise AttributeError('fortran module has no attribute ' + n)
        return Wrapper(self.__dict__['_ip'], sub)


def dim_vars(e, acc):
    if e is None:
        return acc
    if e[0] == 'var':
        acc.append(e[1])
    elif e[0] in ('bin',):
        dim_vars(e[2], acc)
        dim_vars(e[3], acc)
    elif e[0] in ('un', 'par'):
        dim_vars(e[-1], acc)
    return acc


class Wrapper:
    """Call a subroutine the way the f2py wrapper does."""

    def __init__(self, ip, sub):
        self.ip, self.sub = ip, sub
        self.__name__ = sub.name
        sig_in, opt, outs = [], [], []
        infer = {}
        for n in sub.args:
            d = sub.decl(n)
            it = d.intent
            if 'out' in it and 'in' not in it:
                outs.append(n)
                continue
            if 'out' in it:
                outs.append(n)
            if d.dims is not None:
                for k, (lo, hi) in enumerate(d.dims):
                    vs = dim_vars(hi, [])
                    if len(vs) == 1 and vs[0] in sub.args:
                        infer.setdefault(vs[0], []).append((n, k, lo, hi))
        self.infer = infer
        self.outs = outs
        for n in sub.args:
            d = sub.decl(n)
            if 'out' in d.intent and 'in' not in d.intent:
                continue
            if n in infer or d.optional:
                opt.append(n)
            else:
                sig_in.append(n)
        self.order = sig_in + opt
        self.required = sig_in

    def __call__(self, *args, **kw):
        sub, ip = self.sub, self.ip
        given = {}
        if len(args) > len(self.order):
            raise TypeError('too many arguments')
        for n, v in zip(self.order, args):
            given[n] = v
        for n, v in kw.items():
            n = n.lower()
            if n.startswith('overwrite_'):
                continue
            if n not in self.order or n in given:
                raise TypeError('bad keyword ' + n)
            given[n] = v
        for n in self.required:
            if n not in given:
                raise TypeError('missing argument ' + n)
        arrs = {}
        for n, v in given.items():
            d = sub.decls[n]
            if d.dims is not None:
                a = shim._asarray(v, dtype=float if d.type in (
                    'double', 'real') else int)
                if a.ndim < len(d.dims):
                    a = a.reshape(a.shape + (1,) * (len(d.dims) - a.ndim))
                arrs[n] = a
        vals = {}
        for n in sub.args:
            d = sub.decl(n)
            if d.dims is not None:
                continue
            if n in given:
                x = given[n]
                if d.type == 'integer':
                    x = int(x)
                elif d.type in ('double', 'real'):
                    x = shim.lift1(x)
                elif d.type == 'character' and isinstance(x, bytes):
                    x = x.decode()
                vals[n] = [x]
            elif d.optional:
                vals[n] = [0]
            elif n in self.infer:
                # f2py: the first array which has it as a dimension
                for (an, k, lo, hi) in self.infer[n]:
                    if an in arrs:
                        e = Env(ip, sub)
                        ln = arrs[an].shape[k]
                        l = int(ip.ev(lo, e))
                        # solve hi(n) - l + 1 == ln for the plain forms
                        for c in range(0, ln + 12):
                            e.vars[n] = [c]
                            try:
                                if int(ip.ev(hi, e)) - l + 1 == ln:
                                    vals[n] = [c]
                                    break
                            except Unsupported:
                                break
                        break
                if n not in vals:
                    raise Unsupported('cannot infer ' + n)
            else:
                vals[n] = [0 if d.type == 'integer' else float('nan')]
        for (n, v) in list(vals.items()):
            pass
        ev = Env(ip, sub)
        for n, v in vals.items():
            ev.vars[n] = v
        lst = []
        backs = []
        for n in sub.args:
            d = sub.decl(n)
            if d.dims is None:
                lst.append(vals[n])
                continue
            lb = [int(ip.ev(l, ev)) for l, h in d.dims]
            shape = tuple(int(ip.ev(h, ev)) - l + 1
                          for (_, h), l in zip(d.dims, lb))
            if n in arrs:
                a = arrs[n]
                if a.shape != shape:
                    # f2py: too-small axis or wrong size raises; equal size
                    # arrays with different shape also raise for rank > 1
                    raise ValueError('failed in converting argument `%s`: '
                                     'shape %s, expected %s' % (
                                         n, a.shape, shape))
                if 'out' in d.intent:
                    if a.dtype == object and (a.flags.f_contiguous):
                        w = rnp.asarray(a)
                    else:
                        w = rnp.array(shim.lift_arr(a), dtype=object,
                                      order='F')
                    backs.append((n, w))
                else:
                    w = rnp.array(rnp.asarray(
                        shim.lift_arr(a) if a.dtype != object and
                        d.type in ('double', 'real') else a), dtype=object)
                lst.append(Arr(w, lb))
            else:
                w = newarr(shape, d.type)
                lst.append(Arr(w, lb))
        e = ip.enter(sub, lst)
        try:
            ip.run(sub.body, e)
        except Ret:
            pass
        res = []
        for n in self.outs:
            v = e.vars[n]
            if isinstance(v, Arr):
                a = v.a
                res.append(a.view(shim.SymArr) if sub.decls[n].type in (
                    'double', 'real') else rnp.array(a, dtype=int))
            else:
                res.append(v[0])
        if not res:
            return None
        return res[0] if len(res) == 1 else tuple(res)


# ---------------------------------------------------------------------------
# OpenMP race analysis
# ---------------------------------------------------------------------------

class Access:
    def __init__(self, name, idx, write, loops, guard):
        self.name, self.idx, self.write = name, idx, write
        self.loops, self.guard = loops, guard


def parallel_loops(subs):
    """All (sub, private set, do node) of '!$omp do' loops."""
    out = []
    for sub in subs.values():
        def walk(body, priv):
            pend = None
            p = set(priv) if priv else set()
            inpar = priv is not None
            for s in body:
                if s[0] == 'omp':
                    t = s[1]
                    if t.startswith('end'):
                        if 'parallel' in t:
                            inpar = False
                            p = set()
                        continue
                    if t.startswith('parallel'):
                        inpar = True
                        p = set()
                    for m in re.finditer(r'(private|firstprivate|lastprivate|'
                                         r'reduction)\s*\(([^)]*)\)', t):
                        names = m.group(2)
                        if ':' in names:
                            names = names.split(':')[1]
                        p |= {x.strip() for x in names.split(',')}
                    if re.search(r'\bdo\b', t):
                        pend = True
                    continue
                if s[0] == 'do':
                    if pend:
                        out.append((sub, set(p), s))
                        pend = None
                    else:
                        walk(s[5], p if inpar else None)
                elif s[0] == 'while':
                    walk(s[2], p if inpar else None)
                elif s[0] == 'if':
                    for c, b in s[1]:
                        walk(b, p if inpar else None)
        walk(sub.body, None)
    return out


def collect(sub, subs, body, loops, acc):
    """Accesses (reads and writes) in body."""
    def rd(e):
        if e is None or not isinstance(e, tuple):
            return
        k = e[0]
        if k == 'var':
            acc.append(Access(e[1], None, False, list(loops), None))
        elif k == 'ref':
            d = sub.decls.get(e[1])
            if d is not None and d.dims is not None:
                acc.append(Access(e[1], e[2], False, list(loops), None))
                for a in e[2]:
                    if a[0] == 'sec':
                        for x in a[1:]:
                            rd(x)
                    else:
                        rd(a)
            else:
                for a in e[2]:
                    rd(a)
        elif k == 'bin':
            rd(e[2])
            rd(e[3])
        elif k in ('un', 'par'):
            rd(e[-1])
        elif k == 'kw':
            rd(e[2])
        elif k == 'sec':
            for x in e[1:]:
                rd(x)
        elif k == 'arr':
            for x in e[1]:
                rd(x)

    def wr(lhs):
        if lhs[0] == 'var':
            acc.append(Access(lhs[1], None, True, list(loops), None))
        elif lhs[0] == 'ref':
            acc.append(Access(lhs[1], lhs[2], True, list(loops), None))
            for a in lhs[2]:
                rd(a)

    for s in body:
        k = s[0]
        if k == 'asg':
            rd(s[2])
            wr(s[1])
        elif k == 'do':
            rd(s[2])
            rd(s[3])
            loops.append((s[1], s[2], s[3]))
            collect(sub, subs, s[5], loops, acc)
            loops.pop()
        elif k == 'while':
            rd(s[1])
            collect(sub, subs, s[2], loops, acc)
        elif k == 'if':
            for c, b in s[1]:
                rd(c)
                collect(sub, subs, b, loops, acc)
        elif k == 'where':
            rd(s[1])
            collect(sub, subs, s[2], loops, acc)
        elif k == 'call':
            callee = subs.get(s[1])
            for i, a in enumerate(s[2]):
                w = True
                if callee is not None and i < len(callee.args):
                    w = writes_arg(callee, subs, callee.args[i])
                rd(a)
                if w and a[0] in ('var', 'ref'):
                    wr(a)


def writes_arg(sub, subs, n, seen=()):
    d = sub.decls.get(n)
    if d and d.intent == {'in'}:
        return False
    if sub.name in seen:
        return True
    acc = []
    collect(sub, subs, sub.body, [], acc)
    return any(a.write and a.name == n for a in acc)


def race_queries(path):
    """Yield (label, verdict, detail) for every parallel loop and every pair
    of conflicting accesses to a shared variable.  verdict: 'unsat' no race,
    'sat' race."""
    subs = parse_file(path)
    for sub, priv, node in parallel_loops(subs):
        acc = []
        collect(sub, subs, node[5], [], acc)
        loopvars = {node[1]}
        for a in acc:
            loopvars |= {l[0] for l in a.loops}
        shared = [a for a in acc if a.name not in priv and
                  a.name not in loopvars]
        consts = {n for n, d in sub.decls.items() if d.param is not None}
        names = {a.name for a in shared if a.write}
        nq = 0
        for nm in sorted(names):
            accs = [a for a in shared if a.name == nm]
            for a in accs:
                if not a.write:
                    continue
                for b in accs:
                    verdict, det = race_pair(sub, node, a, b)
                    yield ('%s: do %s: %s' % (sub.name, node[1], nm),
                           verdict, det)
                    nq += 1
        if not names:
            yield ('%s: do %s: no shared writes' % (sub.name, node[1]),
                   'unsat', '')


def race_pair(sub, node, a, b):
    s = z3.Solver()
    s.set('timeout', 5000)
    glob = {}

    def var(n, side, loc):
        if n in loc:
            return z3.Int('%s_%s' % (n, side))
        if n not in glob:
            glob[n] = z3.Int(n)
            d = sub.decls.get(n)
            if d is not None and d.type == 'integer' and n in sub.args:
                s.add(glob[n] >= 0)
        return glob[n]

    def ex(e, side, loc):
        k = e[0]
        if k == 'int':
            return z3.IntVal(e[1])
        if k == 'var':
            return var(e[1], side, loc)
        if k == 'par':
            return ex(e[1], side, loc)
        if k == 'un' and e[1] == '-':
            return -ex(e[2], side, loc)
        if k == 'bin' and e[1] in '+-*':
            x, y = ex(e[2], side, loc), ex(e[3], side, loc)
            return x + y if e[1] == '+' else (x - y if e[1] == '-' else x * y)
        raise Unsupported('race index')

    tv = node[1]
    for side, acc in (('1', a), ('2', b)):
        loc = {tv} | {l[0] for l in acc.loops}
        s.add(var(tv, side, loc) >= ex(node[2], side, loc),
              var(tv, side, loc) <= ex(node[3], side, loc))
        for (v, lo, hi) in acc.loops:
            s.add(var(v, side, loc) >= ex(lo, side, loc),
                  var(v, side, loc) <= ex(hi, side, loc))
    s.add(z3.Int(tv + '_1') != z3.Int(tv + '_2'))
    if a.idx is not None and b.idx is not None:
        la = {tv} | {l[0] for l in a.loops}
        lb = {tv} | {l[0] for l in b.loops}
        for d, (x, y) in enumerate(zip(a.idx, b.idx)):
            def rng(e, side, loc):
                if e[0] == 'sec':
                    lo = ex(e[1], side, loc) if e[1] is not None else None
                    hi = ex(e[2], side, loc) if e[2] is not None else None
                    return lo, hi
                v = ex(e, side, loc)
                return v, v
            l1, h1 = rng(x, '1', la)
            l2, h2 = rng(y, '2', lb)
            if l1 is not None and h2 is not None:
                s.add(l1 <= h2)
            if l2 is not None and h1 is not None:
                s.add(l2 <= h1)
    r = s.check()
    det = ''
    if r == z3.sat:
        det = str(s.model())
    return str(r), det
