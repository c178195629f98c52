"""Import the real pwtools from /repo/src for replays; compile the Fortran
extensions from the current sources when the in-place ones are stale."""
import fcntl
import hashlib
import importlib
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('PWTOOLS_REPO', '/repo')
EXT = os.path.join(REPO, 'src', '_ext_src')
CACHE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), '.build')

_modules = {}


def src_hash():
    h = hashlib.sha256()
    out = []
    for f in ['Makefile'] + sorted(x for x in os.listdir(EXT)
                                   if x.endswith('.f90')):
        with open(os.path.join(EXT, f), 'rb') as fd:
            out.append('%s  %s' % (hashlib.sha256(fd.read()).hexdigest(), f))
    return '\n'.join(out)


def ext_dir():
    """Directory holding _flib.so/_dcd.so built from the current sources."""
    hs = src_hash()
    stamp = os.path.join(EXT, '.vp-stamp')
    inplace = os.path.join(REPO, 'src', 'pwtools')
    try:
        with open(stamp) as f:
            if f.read().strip() == hs and all(
                    os.path.getsize(os.path.join(inplace, x)) > 0
                    for x in ('_flib.so', '_dcd.so')):
                return inplace
    except OSError:
        pass
    key = hashlib.sha256(hs.encode()).hexdigest()[:16]
    d = os.path.join(CACHE, key)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, key + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if all(os.path.exists(os.path.join(d, x))
               for x in ('_flib.so', '_dcd.so')):
            return d
        tmp = tempfile.mkdtemp(prefix='ext-', dir=CACHE)
        try:
            w = os.path.join(tmp, 'src', '_ext_src')
            os.makedirs(w)
            os.makedirs(os.path.join(tmp, 'src', 'pwtools'))
            for f in os.listdir(EXT):
                if f == 'Makefile' or f.endswith('.f90'):
                    shutil.copy(os.path.join(EXT, f), w)
            env = dict(os.environ)
            env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '')
            env.pop('PYTHONPATH', None)
            r = subprocess.run(['make', '-C', w, 'gfortran-omp',
                                'ARCH=-march=x86-64-v2'], env=env,
                               stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            os.makedirs(d, exist_ok=True)
            for x in ('_flib.so', '_dcd.so'):
                p = os.path.join(w, x)
                if not os.path.exists(p) or os.path.getsize(p) == 0:
                    raise RuntimeError('Fortran build failed:\n' +
                                       r.stdout.decode()[-2000:])
                shutil.copy(p, os.path.join(d, x))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def prepare():
    """Make `import pwtools` resolve to /repo/src with current extensions."""
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    d = ext_dir()
    if d != os.path.join(REPO, 'src', 'pwtools'):
        for x in ('_flib', '_dcd'):
            if 'pwtools.' + x in _modules:
                continue
            spec = importlib.util.spec_from_file_location(
                'pwtools.' + x, os.path.join(d, x + '.so'))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            _modules['pwtools.' + x] = m
    sys.modules.update(_modules)


def real_mod(name):
    prepare()
    return importlib.import_module(name)


def purge():
    """Forget imported pwtools modules (fresh module state); the compiled
    extensions stay."""
    for k in list(sys.modules):
        if k == 'pwtools' or k.startswith('pwtools.'):
            if k in ('pwtools._flib', 'pwtools._dcd'):
                _modules.setdefault(k, sys.modules[k])
            del sys.modules[k]
    sys.modules.update(_modules)
