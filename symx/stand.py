"""Stand-ins for single functions, wherever pwtools modules refer to them."""
import contextlib
import importlib
import sys
import types


class _Proxy(types.ModuleType):
    """a module of which some functions are replaced"""

    def __init__(self, m, path, over):
        super().__init__(getattr(m, '__name__', path))
        self.__dict__.update(_m=m, _path=path, _over=over)

    def __getattr__(self, n):
        p = self._path + '.' + n
        if p in self._over:
            return self._over[p]
        v = getattr(self._m, n)
        if isinstance(v, types.ModuleType) and any(
                k.startswith(p + '.') for k in self._over):
            return _Proxy(v, p, self._over)
        return v


def _plain(f):
    return getattr(f, '__wrapped__', f)


@contextlib.contextmanager
def standins(ctx, over):
    """`over`: {'scipy.optimize.fmin': f, 'pwtools.common.system': g}. All
    modules of pwtools which are loaded now see f and g, no matter how they
    import them; the modules of others stay as they are."""
    if ctx.symbolic:
        mods = [m for m in ctx.loader.mods.values()
                if isinstance(m, types.ModuleType)]
    else:
        mods = [m for k, m in list(sys.modules.items())
                if (k == 'pwtools' or k.startswith('pwtools.')) and
                isinstance(m, types.ModuleType)]
    old = []

    def put(m, n, v):
        old.append((m, n, m.__dict__[n]))
        m.__dict__[n] = v
    real = {}
    for path in over:
        par, _, n = path.rpartition('.')
        if par.startswith('pwtools'):
            f = getattr(ctx.mod(par[len('pwtools.'):]), n)
        else:
            f = getattr(importlib.import_module(par), n)
        real[id(_plain(f))] = path
    ext = {k: v for k, v in over.items() if not k.startswith('pwtools.')}
    for m in mods:
        for n, v in list(m.__dict__.items()):
            if n.startswith('__'):
                continue
            try:
                p = real.get(id(v)) or real.get(id(_plain(v)))
            except Exception:
                p = None
            if p is not None:
                put(m, n, over[p])
            elif isinstance(v, types.ModuleType):
                name = getattr(v, '__name__', '')
                if any(k.startswith(name + '.') for k in ext):
                    put(m, n, _Proxy(v, name, ext))
    try:
        yield
    finally:
        for m, n, v in reversed(old):
            m.__dict__[n] = v
