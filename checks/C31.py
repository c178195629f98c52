"""parameter studies: batch.ParameterStudy, Calculation, FileTemplate"""
import contextlib
import os
import re
import shlex
import shutil
import subprocess

from symx.run import Case

META = {
    'title': 'Parameter studies give each parameter set its own directory and '
    'row',
    'statement': 'ParameterStudy.write_input makes one directory <calc_root>/'
    '<prefix>_<hostname>/<idx> for each machine and each parameter set, '
    'holding every template and the job file with each placeholder replaced '
    'by the value of that set (numbers with full precision), of that machine '
    'and of that calculation (idx, calc_name, study_name, revision) and '
    'nothing else changed; one database row per parameter set has the same '
    'idx, name, revision, host names and values, with NULL for keys which a '
    'set does not have. In append mode earlier directories, files and rows '
    'stay as they are, idx continues at the next free number, revision grows '
    'by one, new keys become new columns, and excl_push lists exactly the '
    'idx of earlier revisions; in write mode only the new calculations '
    'remain. run.sh visits every new calculation once, in order, with the '
    'submit command of the machine. With backup=True all that was there '
    'before is still found in a backup, and backups never replace each '
    'other. Nothing outside calc_root is written or removed. FileTemplate '
    'replaces exactly the keys asked for, Calculation leaves the lists it '
    'was given alone. conv_table and backup do what is documented.',
    'forall': 'all real and integer parameter values, all sequences of up to '
    'three write_input calls with all modes and options within the bounds',
    'why': 'tests run one study with fixed values and one append; numbering, '
    'revisions, NULLs, backups and lists of old calculations go wrong only '
    'for particular histories of calls',
    'files': ['src/pwtools/batch.py', 'src/pwtools/sql.py',
              'src/pwtools/common.py'],
    'mech': ['batch.ParameterStudy.write_input', 'batch.Calculation',
             'batch.FileTemplate.write', 'batch.Machine', 'batch.conv_table',
             'batch.default_repl_keys', 'common.template_replace',
             'common.file_template_replace', 'common.backup'],
}
BOUNDS = {'quick': 'up to 3 write_input calls, 2 machines, 3 parameter sets, '
          '3 keys'
          '; larger single cases, 5 to 13 items long', 'thorough': 'up to 4 calls'}
OUTSIDE = ('placeholders which contain each other and values which contain '
           'placeholders (the replacement is sequential); databases without '
           'rows; running the jobs; SQLite itself (runs as it is)')
pj = os.path.join


@contextlib.contextmanager
def guard(root):
    """the code under test may remove files only below root; commands are
    not run but carried out here if they are a plain rm"""
    root = os.path.realpath(root)

    def inside(p):
        p = os.path.realpath(os.fspath(p))
        return p == root or p.startswith(root + os.sep)

    def wrap(f):
        def g(p, *a, **k):
            if k.get('dir_fd') is None and not isinstance(p, int) and \
                    not inside(p):
                raise RuntimeError('removes a file outside: %s' % p)
            return f(p, *a, **k)
        return g

    def wrap2(f):
        def g(p, q, *a, **k):
            if k.get('src_dir_fd') is None and not (inside(p) and inside(q)):
                raise RuntimeError('moves a file outside')
            return f(p, q, *a, **k)
        return g

    def run(cmd, *a, **k):
        w = shlex.split(cmd) if isinstance(cmd, str) else list(cmd)
        if not w or w[0] != 'rm' or any(re.search(r'[*?;&|$`<>]', x)
                                        for x in w):
            raise RuntimeError('command: %r' % (cmd,))
        for p in w[1:]:
            if p.startswith('-'):
                continue
            if not inside(p) or os.path.realpath(p) == root:
                raise RuntimeError('rm of %s' % p)
            shutil.rmtree(p)
        return subprocess.CompletedProcess(cmd, 0)
    old = []

    def put(mod, name, f):
        old.append((mod, name, getattr(mod, name)))
        setattr(mod, name, f)
    try:
        for n in ('remove', 'unlink', 'rmdir', 'removedirs'):
            put(os, n, wrap(getattr(os, n)))
        put(shutil, 'rmtree', wrap(shutil.rmtree))
        for n in ('rename', 'replace', 'renames'):
            put(os, n, wrap2(getattr(os, n)))
        put(shutil, 'move', wrap2(shutil.move))
        for n in ('run', 'call', 'check_call', 'Popen', 'check_output',
                  'getoutput'):
            put(subprocess, n, run)
        put(os, 'system', run)
        yield
    finally:
        for mod, name, f in reversed(old):
            setattr(mod, name, f)


def same(ctx, a, b, label):
    if b is None or isinstance(b, str):
        ctx.check(a == b if isinstance(a, (str, type(None))) else False,
                  label)
    else:
        ctx.check(a is not None and not isinstance(a, str), label + ': number')
        ctx.eq(a, b, label)


def text(ctx, got, want, label):
    """text with numbers: words are equal, numbers have equal value"""
    ctx.check(got.count('\n') == sum(isinstance(w, str) and w == '\n'
                                     for w in want), label + ': lines')
    words = got.split()
    want = [w for w in want if not (isinstance(w, str) and w == '\n')]
    ctx.check(len(words) == len(want), label + ': words')
    for a, b in zip(words, want):
        if isinstance(b, str):
            ctx.check(a == b, label + ': word')
        else:
            try:
                v = ctx.parse(a)
            except ValueError:
                ctx.check(False, label + ': no number')
                continue
            ctx.eq(v, b, label + ': number')


def tree(d):
    """all files below d and their text"""
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            with open(pj(p, f), 'rb') as fd:
                out[os.path.relpath(pj(p, f), d)] = fd.read()
        for x in ds:
            out[os.path.relpath(pj(p, x), d)] = None
    return out


def sub(d, name):
    """part of a tree, relative to name"""
    return {k[len(name) + 1:]: v for k, v in d.items()
            if k.startswith(name + os.sep)}


IN = 'a XXXFOO\nb = XXXBAR , XXXFOO\nXXXCALC_NAME XXXIDX end\n'
IN2 = 'rev XXXREVISION XXXSTUDY_NAME XXXBAZ\n'
JOB = '#! XXXCALC_NAME XXXSCRATCH XXXHOME XXXFOO\nXXXSUBCMD\n'


def expect(kind, v, m, idx, rev, study, ext=''):
    """words of a written file"""
    def p(k):
        x = v.get(k, 'XXX' + k.upper())
        return 'None' if x is None else x
    name = '%s_run%i' % (study, idx)
    if kind == 'pw.in':
        return ['a', p('foo'), '\n', 'b', '=', p('bar'), ',', p('foo'), '\n',
                name, str(idx), 'end', '\n']
    if kind == 'two.in':
        return ['rev', str(rev), study, p('baz'), '\n']
    return ['#!', name, m['scratch'], m['home'], p('foo'), '\n', m['subcmd'],
            '\n']


HOSTS = [dict(hostname='h0', subcmd='qsub', scratch='/s0', home='/home0'),
         dict(hostname='h1', subcmd='bsub', scratch='/s1', home='/home1')]


def params(ctx, sql, tag, n, kinds):
    """n parameter sets: what is passed and the values"""
    lst, vals = [], []
    for i in range(n):
        v = {}
        for k in kinds[i]:
            nm = '%s%s%i' % (tag, k, i)
            k, _, t = k.partition(':')
            if t:
                v[k] = ctx.int(nm, -9, 9) if t == 'i' else None
                continue
            v[k] = {'foo': lambda: ctx.real(nm, -50, 50),
                    'bar': lambda: ctx.int(nm, -9, 9),
                    'baz': lambda: nm}[k]()
        e = [sql.SQLEntry(key=k, sqlval=x) for k, x in v.items()]
        # nested sets are flattened
        lst.append([e[0], e[1:]] if i % 2 and len(e) > 1 else e)
        vals.append(v)
    return lst, vals


FULL = ['foo', 'bar', 'baz']


def study(ctx, calls, nm, opts, kinds=None, space=False):
    """a history of write_input calls"""
    ctx.tokens_on(ints=True)
    batch, sql = ctx.mods('batch', 'sql')
    top = ctx.scratch()
    for x in os.listdir(top):
        p = pj(top, x)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    base = pj(top, 'work')
    os.makedirs(base)
    root = pj(base, 'my study' if space else 'study')
    tdir = pj(top, 'calc.templ')
    os.makedirs(tdir)
    for f, t in (('pw.in', IN), ('two.in', IN2), ('job.h0', JOB),
                 ('job.h1', JOB)):
        with open(pj(tdir, f), 'w') as fd:
            fd.write(t)
    # what must never be touched
    os.makedirs(pj(base, 'my', 'calc_h0'))
    with open(pj(base, 'my', 'calc_h0', 'keep'), 'w') as fd:
        fd.write('x')
    prefix = opts.get('prefix', 'calc')
    table = opts.get('table', 'calc')
    dbn = opts.get('db', 'calc.db')
    sname = opts.get('study', 'calc')
    mach = []
    for i in range(nm):
        if i == 0:
            mach.append(batch.Machine(filename=pj(tdir, 'job.h0'),
                                      **HOSTS[0]))
        else:
            mach.append(batch.Machine(template=batch.FileTemplate(
                basename='job.h1', templ_dir=tdir), **HOSTS[1]))
    templ = [batch.FileTemplate(basename='pw.in', templ_dir=tdir),
             batch.FileTemplate(filename=pj(tdir, 'two.in'))]
    rows, files = [], {}
    keys = []
    rev = -1
    backups = {}
    for c, call in enumerate(calls):
        mode, n = call[0], call[1]
        o = {} if len(call) < 3 else dict(call[2])
        lst, vals = params(ctx, sql, 'c%i' % c, n, [FULL] * n if kinds is None
                           else kinds[c])
        kw = {k: v for k, v in opts.items() if k in ()}
        if 'prefix' in opts:
            kw['calc_dir_prefix'] = prefix
        if 'table' in opts:
            kw['db_table'] = table
        if 'db' in opts:
            kw['db_name'] = dbn
        if 'study' in opts:
            kw['study_name'] = sname
        ms = mach[0] if nm == 1 and c % 2 else (
            tuple(mach) if c % 2 else list(mach))
        before = tree(root) if os.path.exists(root) else {}
        had = dbn in before
        with guard(top):
            st = batch.ParameterStudy(machines=ms, templates=templ,
                                      params_lst=lst, calc_root=root, **kw)
            st.write_input(**({} if mode == 'default' else {'mode': mode}),
                           **o)
        ctx.check(len(templ) == 2, 'list of templates as it was')
        ctx.check(st.dbfn == pj(root, dbn), 'name of the database')
        if mode == 'w' or not had:
            rows, files, rev, idx0 = [], {}, 0, 0
        else:
            rev += 1
            idx0 = max(r['idx'] for r in rows) + 1
        for i, v in enumerate(vals):
            idx = idx0 + i
            r = dict(v)
            r.update(idx=idx, revision=rev, study_name=sname,
                     calc_name='%s_run%i' % (sname, idx),
                     hostname=','.join(h['hostname'] for h in HOSTS[:nm]))
            rows.append(r)
            for h in HOSTS[:nm]:
                for f in ('pw.in', 'two.in', 'job.' + h['hostname']):
                    files[pj('%s_%s' % (prefix, h['hostname']), str(idx), f)] \
                        = expect(f, v, h, idx, rev, sname)
        after = tree(root)
        # files
        want = set()
        for f in files:
            want |= {f, os.path.dirname(f), f.split(os.sep)[0]}
        for h in HOSTS[:nm]:
            want.add(pj('%s_%s' % (prefix, h['hostname']), 'run.sh'))
        want.add(dbn)
        excl = o.get('excl', True)
        if excl and rev > 0:
            want.add('excl_push')
            ctx.check(after.get('excl_push') is not None and sorted(
                after['excl_push'].decode().split()) == sorted(
                str(r['idx']) for r in rows if r['revision'] < rev),
                'excl_push')
        elif 'excl_push' in before:
            want.add('excl_push')
        dirs = ['%s_%s' % (prefix, h['hostname']) for h in HOSTS[:nm]]
        bak = o.get('backup', True)
        for x in dirs + [dbn]:
            k = backups.get(x, 0)
            for j in range(k):
                b = '%s.%i' % (x, j)
                want.add(b)
                ctx.check(b in after and before.get(b, 0) == after[b] and
                          sub(before, b) == sub(after, b),
                          'earlier backup as it was')
                want |= {pj(b, y) for y in sub(before, b)}
            if bak and x in before:
                b = '%s.%i' % (x, k)
                want.add(b)
                ctx.check(b in after and before[x] == after[b] and
                          sub(before, x) == sub(after, b), 'backup')
                want |= {pj(b, y) for y in sub(before, x)}
                backups[x] = k + 1
        ctx.check(set(after) == want, 'files and directories')
        for f, w in files.items():
            if after.get(f) is None:
                continue
            text(ctx, after[f].decode(), w, 'file')
            if f in before and mode != 'w':
                ctx.check(before[f] == after[f], 'old file as it was')
        for h, d in zip(HOSTS, dirs):
            if after.get(pj(d, 'run.sh')) is None:
                continue
            ls = after[pj(d, 'run.sh')].decode().split('\n')
            ctx.check(ls == ['here=$(pwd)'] + [
                'cd %i && %s job.%s && cd $here && sleep %i' % (
                    idx0 + i, h['subcmd'], h['hostname'], o.get('sleep', 0))
                for i in range(n)] + [''], 'run.sh')
        # database
        if mode == 'w' or not had:
            keys = []
        for r in rows:
            keys += [k for k in r if k not in keys]
        db = sql.SQLiteDB(pj(root, dbn), table=table)
        hd = [x[0] for x in db.get_header()]
        ctx.check(sorted(hd) == sorted(keys), 'columns')
        got = db.get_dict('select * from %s order by idx' % table)
        db.finish()
        ctx.check(all(len(x) == len(rows) for x in got.values()), 'rows')
        for i, r in enumerate(rows):
            for k in keys:
                same(ctx, got[k][i], r.get(k), 'entry ' + k)
    ctx.check(sorted(os.listdir(base)) == sorted(
        ['my', os.path.basename(root)]) and
        os.path.exists(pj(base, 'my', 'calc_h0', 'keep')) and
        sorted(os.listdir(top)) == ['calc.templ', 'work'], 'nothing else')
    for f, t in (('pw.in', IN), ('two.in', IN2), ('job.h0', JOB),
                 ('job.h1', JOB)):
        with open(pj(tdir, f)) as fd:
            ctx.check(fd.read() == t, 'template as it was')


def fresh(ctx):
    top = ctx.scratch()
    for x in os.listdir(top):
        p = pj(top, x)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    return top


def put(fn, t):
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, 'w') as fd:
        fd.write(t)


def get(fn):
    with open(fn) as fd:
        return fd.read()


def template(ctx, via):
    """FileTemplate.write"""
    ctx.tokens_on(ints=True)
    batch, sql = ctx.mods('batch', 'sql')
    top = fresh(ctx)
    t = 'x XXXFOO y XXXBAR\nXXXFOO z XXXBAZ XXXNONE\n'
    if via == 'func':
        t = t.replace('XXXFOO', '@foo@').replace('XXXBAR', '@bar@').replace(
            'XXXBAZ', '@baz@')
    fn = pj(top, 'calc.templ', 'f.in')
    put(fn, t if via != 'txt' else 'unused\n')
    os.makedirs(pj(top, 'calc'))
    keys = ctx.choice('keys', [None, ['foo'], ['baz', 'foo'],
                               ['foo', 'bar', 'baz'], []])
    kw = dict(filename=fn) if via == 'file' else dict(
        basename='f.in', templ_dir=pj(top, 'calc.templ'))
    if via == 'txt':
        kw['txt'] = t
    if via == 'func':
        kw['func'] = lambda x: '@%s@' % x
    if keys is not None:
        kw['keys'] = keys
    f = ctx.real('f', -50, 50)
    b = ctx.int('b', -9, 9)
    v = {'foo': f, 'bar': b, 'baz': 'say-what', 'more': 'no'}
    tm = batch.FileTemplate(**kw)
    mode = ctx.choice('mode', ['dct', 'sql', 'writesql', 'fileval'])
    with guard(top):
        if mode == 'dct':
            tm.write(v, pj(top, 'calc'))
        elif mode == 'fileval':
            tm.write({k: sql.SQLEntry(key=k, sqlval='other', fileval=x)
                      for k, x in v.items()}, pj(top, 'calc'), mode='sql')
        elif mode == 'sql':
            tm.write({k: sql.SQLEntry(key=k, sqlval=x) for k, x in v.items()},
                     pj(top, 'calc'), mode='sql')
        else:
            tm.writesql({k: sql.SQLEntry(key=k, sqlval=x)
                         for k, x in v.items()}, pj(top, 'calc'))
    ks = FULL if keys is None else keys
    got = get(pj(top, 'calc', 'f.in'))
    if keys == []:
        ctx.check(got == (t if via != 'txt' else 'unused\n'), 'copied')
    else:
        p = {k: v[k] if k in ks else (
            'XXX' + k.upper() if via != 'func' else '@%s@' % k) for k in FULL}
        text(ctx, got, ['x', p['foo'], 'y', p['bar'], '\n', p['foo'], 'z',
                        p['baz'], 'XXXNONE', '\n'], 'written')
    ctx.check(get(fn) == (t if via != 'txt' else 'unused\n'),
              'template as it was')
    ctx.raises(AssertionError, lambda: tm.write(v, pj(top, 'calc'),
                                                mode='x'), 'mode')
    ctx.raises(AssertionError, lambda: batch.FileTemplate(
        basename='a', filename='b/a'), 'basename or filename')


def calculation(ctx):
    """Calculation on its own"""
    ctx.tokens_on(ints=True)
    batch, sql = ctx.mods('batch', 'sql')
    top = fresh(ctx)
    tdir = pj(top, 'calc.templ')
    for f, t in (('pw.in', IN), ('job.h0', JOB), ('job.h1', JOB)):
        put(pj(tdir, f), t)
    given = ctx.choice('templates', [False, True])
    lst = [batch.FileTemplate(basename='pw.in', templ_dir=tdir)]
    vs = []
    for i in range(2):
        v = {'foo': ctx.real('f%i' % i, -50, 50),
             'bar': ctx.int('b%i' % i, -9, 9)}
        vs.append(v)
        m = batch.Machine(filename=pj(tdir, 'job.h%i' % i), **HOSTS[i])
        kw = {'templates': lst} if given else {}
        c = batch.Calculation(machine=m, params=[
            sql.SQLEntry(key=k, sqlval=x) for k, x in v.items()],
            calc_dir=pj(top, 'calc', str(i)), **kw)
        with guard(top):
            c.write_input()
        rec = c.get_sql_record()
        ctx.check(sorted(rec) == ['bar', 'foo'], 'record')
        for k in v:
            same(ctx, rec[k].sqlval, v[k], 'record')
        d = pj(top, 'calc', str(i))
        ctx.check(sorted(os.listdir(d)) == sorted(
            ['job.h%i' % i] + ['pw.in'] * given), 'files')
        text(ctx, get(pj(d, 'job.h%i' % i)),
             ['#!', 'XXXCALC_NAME', HOSTS[i]['scratch'], HOSTS[i]['home'],
              v['foo'], '\n', HOSTS[i]['subcmd'], '\n'], 'job file')
        if given:
            text(ctx, get(pj(d, 'pw.in')),
                 ['a', v['foo'], '\n', 'b', '=', v['bar'], ',', v['foo'],
                  '\n', 'XXXCALC_NAME', 'XXXIDX', 'end', '\n'], 'input')
        ctx.check(m.get_jobfile_basename() == 'job.h%i' % i, 'job file name')
    ctx.check(len(lst) == 1, 'list of templates as it was')
    r = batch.Machine(**HOSTS[0]).get_sql_record()
    ctx.check({k: (e.key, e.sqlval) for k, e in r.items()} == {
        k: (k, HOSTS[0][k]) for k in ('subcmd', 'scratch', 'home')},
        'machine record')
    ctx.raises(Exception, lambda: batch.Machine(
        **HOSTS[0]).get_jobfile_basename(), 'no job file')
    ctx.raises(AssertionError, lambda: batch.Machine(
        template=lst[0], filename='x'), 'template or filename')


def replace(ctx):
    """template_replace, file_template_replace"""
    ctx.tokens_on(ints=True)
    common = ctx.mod('common')
    top = fresh(ctx)
    f = ctx.real('f', -50, 50)
    b = ctx.int('b', -9, 9)
    warn = ctx.choice('warn', [False, True])
    kw = dict(warn_mult_found=warn, warn_not_found=warn, disp=warn)
    t = 'a XXXF b XXXB\nXXXF XXXS 10%\n'
    w = ['a', f, 'b', b, '\n', f, 'txt', '10%', '\n']
    v = {'XXXF': f, 'XXXB': b, 'XXXS': 'txt', 'XXXNONE': 'no'}
    text(ctx, common.template_replace(t, v, conv=True, mode='txt', **kw), w,
         'text mode')
    td = 'a %(f).16e b %(b)i\n%(f).16e %(s)s 10%%\n'
    text(ctx, common.template_replace(td, dict(f=f, b=b, s='txt', n=1), **kw),
         w, 'dict mode')
    ctx.raises(Exception, lambda: common.template_replace(
        t, v, mode='txt', **kw), 'no strings')
    ctx.raises(ValueError, lambda: common.template_replace(v, t), 'order')
    ctx.raises(Exception, lambda: common.template_replace(
        t, v, mode='x'), 'mode')
    bak = ctx.choice('bak', ['', '.bak', '~'])
    fn = pj(top, 'f.in')
    put(fn, t)
    with guard(top):
        common.file_template_replace(fn, v, bak, conv=True, mode='txt', **kw)
    text(ctx, get(fn), w, 'file')
    ctx.check(sorted(os.listdir(top)) == sorted(
        {'f.in', 'f.in' + bak}), 'files')
    if bak:
        ctx.check(get(fn + bak) == t, 'backup of the file')


def backup(ctx):
    """backup never replaces anything"""
    common = ctx.mod('common')
    top = fresh(ctx)
    kind = ctx.choice('kind', ['file', 'dir'])
    pre = ctx.choice('prefix', [None, '.', '~', '.bak'])
    there = [i for i in range(3) if ctx.choice('there%i' % i, [False, True])]
    src = pj(top, 'a')
    put(src if kind == 'file' else pj(src, 'b', 'c'), 'text')
    p = pre or '.'
    for i in there:
        put(src + '%s%i' % (p, i), 'old%i' % i)
    kw = {} if pre is None else {'prefix': pre}
    want = dict(tree(top))
    for rep in range(2):
        with guard(top):
            common.backup(src, **kw)
        i = 0
        while 'a%s%i' % (p, i) in want:
            i += 1
        n = 'a%s%i' % (p, i)
        want[n] = want['a']
        want.update({pj(n, k): x for k, x in sub(want, 'a').items()})
        ctx.check(tree(top) == want, 'backup %i' % rep)
    with guard(top):
        common.backup(pj(top, 'nothere'))
    ctx.check(tree(top) == want, 'nothing to do')


def conv(ctx, n, ny):
    """conv_table"""
    ctx.tokens_on()
    batch = ctx.mod('batch')
    np = ctx.np
    y = ctx.reals('y', (ny, n), -9, 9)
    ctx.signed = False
    mode = ctx.choice('mode', ['last', 'next', None])
    orig = ctx.choice('orig', [False, True])
    ad = ctx.choice('absdiff', [False, True]) if n * ny < 5 else False
    kind = ctx.choice('type', ['array', 'list'] + ['flat'] * (ny == 1))
    arg = {'array': lambda: y, 'list': lambda: [list(r) for r in y],
           'flat': lambda: y[0]}[kind]()
    kw = {'ffmt': '%25.16e'}
    if mode:
        kw['mode'] = mode
    if ad:
        for i in range(n):
            for j in range(ny):
                o = y[j, -1] if mode != 'next' else y[j, min(i + 1, n - 1)]
                if i < n - 1:
                    d = o - y[j, i]
                    ctx.assume((d > 0.1) | (d < -0.1))
    xx = ['x%i' % i for i in range(n)]
    y0 = y.copy()
    s = batch.conv_table(xx, arg, orig=orig, absdiff=ad, **kw)
    w = []
    for i in range(n):
        w.append(xx[i])
        for j in range(ny):
            if mode == 'next':
                d = y0[j, i + 1] - y0[j, i] if i + 1 < n else 0.0
            else:
                d = y0[j, -1] - y0[j, i]
            w.append(abs(d) if ad else d)
            if orig:
                w.append(y0[j, i])
        w.append('\n')
    text(ctx, s, w, 'table')
    ctx.eq(y, y0, 'input as it was')
    ctx.raises(Exception, lambda: batch.conv_table(xx, arg, mode='x'), 'mode')


def other(ctx):
    """Case, default_repl_keys"""
    batch = ctx.mod('batch')
    import tempfile
    top = fresh(ctx)
    x, z = ctx.reals('x', 2, -9, 9)

    class My(batch.Case):
        def init(self):
            self.s = self.x + self.z
    c = batch.Case(x=x, y='t')
    ctx.eq(c.x, x, 'x')
    ctx.check(c.y == 't', 'y')
    ctx.eq(My(x=x, z=z).s, x + z, 'init')
    old, tempfile.tempdir = tempfile.tempdir, top
    try:
        with guard(top):
            r = batch.default_repl_keys()
    finally:
        tempfile.tempdir = old
    ctx.check(sorted(r) == ['Machine', 'ParameterStudy'], 'groups')
    ctx.check(sorted(r['Machine']) == ['home', 'scratch', 'subcmd'],
              'machine keys')
    ctx.check(sorted(r['ParameterStudy']) == ['calc_name', 'idx', 'revision',
                                              'study_name'], 'study keys')
    ctx.check(os.listdir(top) == [], 'nothing left')


def cases(tier):
    th = tier == 'thorough'
    out = []

    def add(name, calls, nm=1, opts={}, **kw):
        out.append(Case('study ' + name, study, dict(
            calls=calls, nm=nm, opts=opts, **kw)))
    modes = ['a', 'w']
    L = 3 if not th else 4
    import itertools
    for k in range(1, L + 1):
        for c in itertools.product(modes, repeat=k):
            n = [2, 1, 3, 1]
            add(''.join(c), [(m, n[i]) for i, m in enumerate(c)],
                nm=1 + (sum(x == 'a' for x in c) + k) % 2)
    add('default', [('default', 2), ('default', 1)], nm=2)
    for m in modes:
        for b in (False, True):
            add('backup %s %s' % (m, b), [
                ('a', 1), (m, 2, {'backup': b}), ('a', 1, {'backup': not b}),
                (m, 1)], nm=2)
    add('excl off', [('a', 1), ('a', 2, {'excl': False}), ('a', 1),
                     ('a', 1, {'excl': False, 'sleep': 3})])
    o = dict(prefix='run', table='tab', db='x.db', study='silly')
    add('names', [('a', 2, {'sleep': 5}), ('a', 1), ('w', 2), ('a', 1)], nm=2,
        opts=o)
    for k in o:
        add('name ' + k, [('a', 2), ('a', 2)], opts={k: o[k]})
    add('blanks', [('w', 2), ('w', 1), ('a', 1)], nm=2, space=True)
    # incomplete sets
    F, B, Z = 'foo', 'bar', 'baz'
    for i, kinds in enumerate([
            [[[F], [B]], [[Z], [F, B]]],
            [[[F, B], [F]], [[F], [Z, B]]],
            [[[B]], [[F, Z]], [[Z]]],
            [[[F], [Z], [B]], [[F, B, Z]]],
            [[[Z, F]], [[B]], [[F]]]]):
        add('incomplete %i' % i, [('a', len(k)) for k in kinds], kinds=kinds)
        add('incomplete w %i' % i, [('w' if j == 1 else 'a', len(k))
                                    for j, k in enumerate(kinds)],
            kinds=kinds, nm=2)
    for i, kinds in enumerate([
            [[[F], [F + ':i']], [[F]]], [[[F + ':i', B], [B, F]], [[F, B]]],
            [[[F + ':n'], [F]], [[F + ':n', B]]]]):
        add('types %i' % i, [('a', len(k)) for k in kinds], kinds=kinds)
    for v in ('file', 'base', 'txt', 'func'):
        out.append(Case('template ' + v, template, dict(via=v)))
    out.append(Case('calculation', calculation))
    out.append(Case('replace', replace))
    out.append(Case('backup', backup))
    for n, ny in ((1, 1), (2, 1), (3, 1), (3, 2), (2, 3)):
        out.append(Case('conv_table %i %i' % (n, ny), conv,
                        dict(n=n, ny=ny)))
    out.append(Case('other', other))
    add('many sets', [('a', 11), ('a', 2), ('a', 1)], nm=2)
    add('many calls', [('a', 1)] * 12)
    add('many times anew', [('w', 1)] * 12)
    add('many backups', [('a', 1, {'backup': True})] + [
        ('w', 1, {'backup': True})] * 11)
    return out
