"""SQLite tables: makedb, fill_column, attach_column, getters, SQLEntry"""
import os

from symx.run import Case

META = {
    'title': 'SQLite tables give back exactly what was put into them',
    'statement': 'A table made by makedb, create_table, add_column(s) or '
    'attach_column has exactly the given columns in the given order with the '
    'type of their values (REAL also where FLOAT is asked for), and every '
    'getter (get_list1d, get_array1d, get_array, get_dict, get_single, plain '
    'execute, and the same after the file is closed and opened again) returns '
    'each number, text and NULL in its own row and column, unchanged. '
    'makedb(mode="w") starts anew, mode="a" appends rows below the present '
    'ones, with NULL in columns which are not given, and refuses unknown '
    'columns and other types. fill_column puts values[i] into row start+i and '
    'touches nothing else; past the last row it appends rows, also to an '
    'empty table, or stops there for extend=False; it never replaces an entry '
    'which is not NULL unless overwrite=True. With several tables each method '
    'acts on the table asked for. sql_column, sql_matrix and SQLEntry carry '
    'key, type, database value and file value of each entry.',
    'forall': 'all real and integer values; texts with quotes, spaces, '
    'digits; all NULL patterns, starts, lengths and options within the '
    'bounds',
    'why': 'tests use one small table of fixed values and a single sequence '
    'of calls; rows are lost or overwritten only for particular combinations '
    'of start, length, NULLs, options and tables',
    'files': ['src/pwtools/sql.py', 'src/pwtools/common.py'],
    'mech': ['sql.SQLiteDB.fill_column', 'sql.SQLiteDB.attach_column',
             'sql.SQLiteDB.add_column', 'sql.SQLiteDB.create_table',
             'sql.SQLiteDB.get_dict', 'sql.SQLiteDB.get_array',
             'sql.SQLiteDB.get_list1d', 'sql.SQLiteDB.get_single',
             'sql.SQLiteDB.get_header', 'sql.makedb', 'sql.sql_matrix',
             'sql.sql_column', 'sql.SQLEntry', 'sql.find_sqltype'],
}
BOUNDS = {'quick': 'tables of up to 4 rows and 4 columns; up to 3 values to '
          'fill in, start 1 to 4; two tables'
          '; larger single cases, 5 to 13 items long',
          'thorough': 'up to 6 rows, 4 values'}
OUTSIDE = ('SQLite itself (its C library runs as it is; numbers pass through '
           'it as unique stand-ins); texts other than the ones listed; '
           'fill_column starting more than one row below the last one; '
           'arbitrary SQL text given by the caller')

TXT = ["it's", 'a b', '12', '', 'x;y "z"', 'ä', 'None', '1e5']


def same(ctx, a, b, label):
    """equal values: NULL, text, numbers"""
    if b is None or isinstance(b, str):
        ctx.check(a == b if isinstance(a, (str, type(None))) else False,
                  label)
    else:
        ctx.check(a is not None and not isinstance(a, str), label + ': number')
        ctx.eq(a, b, label)


def cells(ctx, kinds, n, nulls, tag='v'):
    """rows of values, some of them NULL (never in the first row)"""
    rows = []
    hole = ctx.choice('null' + tag, [None] + [
        (i, j) for i in range(1, n) for j in range(len(kinds))] + [
        'row'] * (n > 1)) if nulls else None
    for i in range(n):
        r = []
        for j, k in enumerate(kinds):
            nm = '%s%i_%i' % (tag, i, j)
            if hole == (i, j) or hole == 'row' and i == n - 1:
                r.append(None)
            elif k == 'f':
                r.append(ctx.real(nm, -50, 50))
            elif k == 'i':
                r.append(ctx.int(nm, -9, 9))
            else:
                r.append(TXT[(3 * i + j) % len(TXT)])
        rows.append(r)
    return rows


TYPE = {'f': 'REAL', 'i': 'INTEGER', 's': 'TEXT'}
NAMES = ['foo', 'bar', 'baz', 'qux']


def table(ctx, db, names, types, rows, name, label):
    """everything the database returns is as expected"""
    np = ctx.np
    ctx.check(db.has_table(name), label + ': has_table')
    ctx.check(db.get_header(name) == list(zip(names, types)),
              label + ': header')
    for c in names:
        ctx.check(db.has_column(c, table=name), label + ': has_column')
    ctx.check(not db.has_column('nope', table=name), label + ': no column')
    ctx.check(db.get_max_rowid(name) == len(rows), label + ': rows')
    q = 'select %s from %s' % (','.join(names), name)
    got = db.execute(q).fetchall()
    ctx.check(len(got) == len(rows), label + ': number of rows')
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            same(ctx, got[i][j], v, label + ': entry')
    it = list(db.execute('select * from %s' % name))
    ctx.check(len(it) == len(rows), label + ': iterator')
    d = db.get_dict('select * from %s' % name)
    ctx.check(list(d) == list(names), label + ': keys of the dict')
    for j, c in enumerate(names):
        ls = db.get_list1d('select %s from %s' % (c, name))
        ctx.check(len(ls) == len(rows) == len(d[c]), label + ': length')
        for i, r in enumerate(rows):
            same(ctx, ls[i], r[j], label + ': get_list1d')
            same(ctx, d[c][i], r[j], label + ': get_dict')
            same(ctx, it[i][j], r[j], label + ': iterator')
            same(ctx, db.get_single('select %s from %s where rowid=?' %
                                    (c, name), (i + 1,)), r[j],
                 label + ': get_single')
        if rows and types[j] == 'REAL' and None not in [r[j] for r in rows]:
            a = db.get_array1d('select %s from %s' % (c, name))
            ctx.eq(a, ctx.arr([r[j] for r in rows]), label + ': get_array1d')
    num = [j for j, t in enumerate(types) if t in ('REAL', 'INTEGER') and
           None not in [r[j] for r in rows]]
    if rows and num:
        a = db.get_array('select %s from %s' % (
            ','.join(names[j] for j in num), name))
        ctx.eq(a, ctx.arr([[r[j] for j in num] for r in rows]),
               label + ': get_array')


def make(ctx, kinds, n):
    """makedb, new and append"""
    ctx.tokens_on(ints=True)
    sql = ctx.mod('sql')
    d = ctx.scratch()
    fn = os.path.join(d, {2: 't1.sqlite', 3: 't1.sqlite3'}.get(
        n, 't1.db'))
    tab = ctx.choice('table', [None, 'calc'])
    name = tab or 't1'
    names = NAMES[:len(kinds)]
    types = [TYPE[k] for k in kinds]
    rows = cells(ctx, kinds, n, True)
    db = sql.makedb(fn, rows, names, table=tab, mode=ctx.choice(
        'mode', ['w', 'a']), close=False)
    ctx.check(db.get_table() == name, 'table name')
    table(ctx, db, names, types, rows, name, 'new')
    db.finish()
    # subset of the columns, other order
    k = ctx.choice('cols', [1, len(kinds)])
    sub = list(range(len(kinds)))[::-1][:k]
    more = cells(ctx, [kinds[j] for j in sub], 2, False, 'w')
    db = sql.makedb(fn, more, [names[j] for j in sub], table=tab)
    full = rows + [[r[sub.index(j)] if j in sub else None
                    for j in range(len(kinds))] for r in more]
    db = sql.SQLiteDB(fn, table=name)
    table(ctx, db, names, types, full, name, 'append')
    db.finish()
    ctx.raises(AssertionError, lambda: sql.makedb(
        fn, [[1.5]], ['nope'], table=tab), 'unknown column')
    bad = 'x' if kinds[0] != 's' else 1.5
    ctx.raises(AssertionError, lambda: sql.makedb(
        fn, [[bad]], [names[0]], table=tab), 'other type')
    bad = 7 if kinds[0] != 'i' else 1.5
    ctx.raises(AssertionError, lambda: sql.makedb(
        fn, [[bad]], [names[0]], table=tab), 'other type of number')
    ctx.raises(AssertionError, lambda: sql.makedb(
        fn, [[1.5, 2.5]], [names[0]], table=tab), 'lengths differ')
    db = sql.SQLiteDB(fn, table=name)
    table(ctx, db, names, types, full, name, 'refused')
    db.finish()
    db = sql.makedb(fn, more, [names[j] for j in sub], table=tab, mode='w',
                    close=False)
    table(ctx, db, [names[j] for j in sub], [types[j] for j in sub], more,
          name, 'anew')
    db.finish()
    ctx.raises(AssertionError, lambda: sql.makedb(
        os.path.join(d, 'file.dat'), more, [names[j] for j in sub]),
        'no table name')


def fill(ctx, n, nv, kind, via):
    """fill_column, attach_column"""
    ctx.tokens_on(ints=True)
    sql = ctx.mod('sql')
    db = sql.SQLiteDB(':memory:', table='calc')
    typ = TYPE[kind]
    two = ctx.choice('arg', [False, True]) if n < 3 else nv == 3
    if two:
        # other table current, the right one as argument
        db.create_table([('a', 'text'), ('b', typ)], table='other')
        db.execute("insert into other values ('q', NULL)")
        db.set_table('other')
    kw = {'table': 'calc'} if two else {}
    db.create_table([('a', 'text'), ('b', typ)], **kw)
    old = []
    for i in range(n):
        o = None
        if (n < 4 or i % 2) and ctx.choice('set%i' % i, [False, True]):
            o = {'f': lambda: ctx.real('o%i' % i, -50, 50),
                 'i': lambda: ctx.int('o%i' % i, -9, 9),
                 's': lambda: 'old%i' % i}[kind]()
        old.append(o)
        db.execute('insert into calc (a, b) values (?, ?)', ('r%i' % i, o))
    vals = [{'f': lambda: ctx.real('v%i' % i, -50, 50),
             'i': lambda: ctx.int('v%i' % i, -9, 9),
             's': lambda: 'new%i' % i}[kind]() for i in range(nv)]
    start = ctx.choice('start', list(range(1, n + 2)))
    ext = ctx.choice('extend', [True, False])
    over = ctx.choice('overwrite', [False, True])
    opt = dict(kw)
    if start != 1 or ctx.choice('explicit', [False, True]):
        opt['start'] = start
    if not ext:
        opt['extend'] = False
    if over:
        opt['overwrite'] = True
    bad = (not ext and start > n) or (not over and any(
        old[start - 1 + i] is not None for i in range(nv)
        if start - 1 + i < n))
    if via == 'attach' and not over:
        bad = True
    f = (lambda: db.fill_column('b', vals, **opt)) if via == 'fill' else (
        lambda: db.attach_column('b', vals, **opt))
    if bad:
        ctx.raises(AssertionError, f, 'refuses')
        for i, o in enumerate(old):
            if o is not None:
                same(ctx, db.get_single('select b from calc where rowid=?',
                                        (i + 1,)), o, 'old value survives')
        return
    f()
    new = list(old)
    for i, v in enumerate(vals):
        r = start - 1 + i
        if r < len(new):
            new[r] = v
        elif ext:
            new.append(v)
    rows = [['r%i' % i if i < n else None, v] for i, v in enumerate(new)]
    table(ctx, db, ['a', 'b'], ['TEXT', typ], rows, 'calc', 'filled')
    if two:
        table(ctx, db, ['a', 'b'], ['TEXT', typ], [['q', None]], 'other',
              'other table')
    ctx.raises(AssertionError, lambda: db.fill_column('c', vals, **opt),
               'no such column')


def attach(ctx, n, nv, kind):
    """a new column"""
    ctx.tokens_on(ints=True)
    sql = ctx.mod('sql')
    db = sql.SQLiteDB(':memory:', table='calc')
    db.create_table([('a', 'float')])
    a = ctx.reals('a', n, -50, 50) if n else []
    for i in range(n):
        db.execute('insert into calc (a) values (?)', (a[i],))
    vals = [{'f': lambda: ctx.real('v%i' % i, -50, 50),
             'i': lambda: ctx.int('v%i' % i, -9, 9),
             's': lambda: TXT[i]}[kind]() for i in range(nv)]
    start = ctx.choice('start', list(range(1, n + 2)))
    ext = ctx.choice('extend', [True, False]) or start > n
    over = ctx.choice('overwrite', [False, True])
    typ = ctx.choice('type', [None, TYPE[kind].lower(), TYPE[kind]])
    kw = {} if typ is None else {'sqltype': typ}
    if over:
        kw['overwrite'] = True
    if not ext:
        kw['extend'] = False
    db.attach_column('b', vals, start=start, **kw)
    new = [None] * n
    for i, v in enumerate(vals):
        r = start - 1 + i
        if r < n:
            new[r] = v
        elif ext:
            new.append(v)
    rows = [[a[i] if i < n else None, v] for i, v in enumerate(new)]
    table(ctx, db, ['a', 'b'], ['REAL', TYPE[kind]], rows, 'calc', 'attached')
    ctx.raises(AssertionError, lambda: db.attach_column('b', vals),
               'column is there')


def tables(ctx):
    """two tables, columns added"""
    ctx.tokens_on(ints=True)
    sql = ctx.mod('sql')
    db = sql.SQLiteDB(os.path.join(ctx.scratch(), 'x.db'))
    for f in (lambda: db.has_column('a'), lambda: db.get_header(),
              lambda: db.get_max_rowid(),
              lambda: db.create_table([('a', 'text')]),
              lambda: db.add_column('a', 'text'),
              lambda: db.fill_column('a', [1]),
              lambda: db.attach_column('a', [1])):
        ctx.raises(Exception, f, 'no table')
    ft = ctx.choice('float', ['float', 'FLOAT', 'real', 'Real'])
    db.create_table([('a', ft), ('b', 'text')], table='t1')
    db.set_table('t2')
    db.create_table([('c', 'integer')])
    ctx.check(db.has_table('t1') and db.has_table('t2') and
              not db.has_table('t3'), 'tables')
    v = ctx.reals('v', 3, -9, 9)
    k = [ctx.int('k%i' % i, -9, 9) for i in range(2)]
    db.execute('insert into t1 values (?, ?)', (v[0], 'z'))
    db.executemany('insert into t2 (c) values (?)', [(x,) for x in k])
    h1 = [['a', 'REAL'], ['b', 'TEXT']]
    r1 = [[v[0], 'z']]
    h2 = [['c', 'INTEGER']]
    r2 = [[x] for x in k]
    step = ctx.choice('step', ['arg', 'cur', 'cols', 'twice', 'attach'])
    if step == 'arg':
        db.add_column('d', ft, table='t1')
        h1.append(['d', 'REAL'])
        r1[0].append(None)
    elif step == 'cur':
        db.add_column('d', ft)
        h2.append(['d', 'REAL'])
        r2 = [x + [None] for x in r2]
    elif step == 'cols':
        db.add_columns([('d', ft), ('e', 'text')], table='t1')
        h1 += [['d', 'REAL'], ['e', 'TEXT']]
        r1[0] += [None, None]
    elif step == 'twice':
        db.add_columns([('a', 'text'), ('d', ft)], table='t1')
        db.add_column('c', 'integer')
        h1 += [['d', 'REAL']]
        r1[0] += [None]
    else:
        db.attach_column('d', [v[1], v[2]], table='t1')
        h1.append(['d', 'REAL'])
        r1 = [r1[0] + [v[1]], [None, None, v[2]]]
    for again in (False, True):
        if again:
            db.finish()
            db = sql.SQLiteDB(os.path.join(ctx.scratch(), 'x.db'))
        for h, r, n in ((h1, r1, 't1'), (h2, r2, 't2')):
            table(ctx, db, [x[0] for x in h], [x[1] for x in h], r, n,
                  'table ' + n)
    ctx.raises(AssertionError, lambda: db.get_single('select c from t2'),
               'not unique')
    ctx.raises(AssertionError, lambda: db.get_single(
        "select c from t2 where c='none'"), 'nothing')
    db.set_table('t1')
    ctx.check(db.get_table() == 't1' and db.get_max_rowid() == len(r1),
              'switched')
    db.finish()


def entries(ctx):
    """SQLEntry, sql_column, sql_matrix"""
    ctx.tokens_on(ints=True)
    sql = ctx.mod('sql')
    kind = ctx.choice('kind', ['f', 'i', 's'])
    vals = [{'f': lambda: ctx.real('v%i' % i, -50, 50),
             'i': lambda: ctx.int('v%i' % i, -9, 9),
             's': lambda: TXT[i]}[kind]() for i in range(3)]
    typ = ctx.choice('type', [None, TYPE[kind], TYPE[kind].lower()] +
                     (['float', 'FLOAT'] if kind == 'f' else []))
    kw = {} if typ is None else {'sqltype': typ}

    def entry(e, key, sv, fv, t, lab):
        ctx.check(e.key == key and e.sqltype == t, lab + ': key and type')
        same(ctx, e.sqlval, sv, lab + ': sqlval')
        same(ctx, e.fileval, fv, lab + ': fileval')
    entry(sql.SQLEntry(sqlval=vals[0], key='k', **kw), 'k', vals[0], vals[0],
          TYPE[kind], 'entry')
    entry(sql.SQLEntry(sqlval=vals[0], fileval=vals[1], **kw), None, vals[0],
          vals[1], TYPE[kind], 'entry with fileval')
    for x in (0, '', False):
        e = sql.SQLEntry(sqlval=vals[0], fileval=x, **kw)
        ctx.check(e.fileval is x, 'empty fileval')
    entry(sql.SQLEntry(sqlval=None), None, None, None, 'NULL', 'null')
    s = [(x + 'S' if kind == 's' else x * 2) for x in vals]
    w = [(x + 'F' if kind == 's' else x + 1) for x in vals]
    fs = (lambda x: x + 'S') if kind == 's' else (lambda x: x * 2)
    fw = (lambda x: x + 'F') if kind == 's' else (lambda x: x + 1)
    us = ctx.choice('sqlval_func', [False, True])
    uw = ctx.choice('fileval_func', [False, True])
    fk = {}
    if us:
        fk['sqlval_func'] = fs
    if uw:
        fk['fileval_func'] = fw
    es = sql.sql_column('k', vals, **kw, **fk)
    eo = sql.sql_column_old('k', typ or TYPE[kind], vals, **fk)
    ctx.check(len(es) == len(eo) == 3, 'column')
    for i in range(3):
        for e in (es[i], eo[i]):
            entry(e, 'k', s[i] if us else vals[i], w[i] if uw else vals[i],
                  TYPE[kind], 'column')
    ctx.raises(AssertionError, lambda: sql.sql_column(
        'k', [1.5, 'x', 2.5]), 'mixed types')
    rows = [[vals[i], 'row%i' % i] for i in range(3)]
    mk = {}
    if us:
        mk['sqlval_funcs'] = {'k': fs}
    if uw:
        mk['fileval_funcs'] = {'k': fw}
    m = sql.sql_matrix(rows, colnames=['k', 't'], **mk) if typ is None else \
        sql.sql_matrix(rows, header=[('k', typ), ('t', 'text')], **mk)
    ctx.check(len(m) == 3 and all(len(r) == 2 for r in m), 'matrix')
    for i in range(3):
        entry(m[i][0], 'k', s[i] if us else vals[i],
              w[i] if uw else vals[i], TYPE[kind], 'matrix')
        entry(m[i][1], 't', 'row%i' % i, 'row%i' % i, 'TEXT', 'matrix')
    ctx.raises(AssertionError, lambda: sql.sql_matrix(
        rows, colnames=['k']), 'columns differ')
    for x, t in ((None, 'NULL'), (3, 'INTEGER'), (True, 'INTEGER'),
                 (1.5, 'REAL'), ('x', 'TEXT'), (memoryview(b'x'), 'BLOB')):
        ctx.check(sql.find_sqltype(x) == t, 'find_sqltype')
    ctx.raises(Exception, lambda: sql.find_sqltype([1]), 'unknown type')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for kinds in ('f', 'fs', 'sfi', 'ifsf'):
        for n in (1, 2, 3):
            out.append(Case('makedb %s %i' % (kinds, n), make,
                            dict(kinds=kinds, n=n)))
    for via in ('fill', 'attach'):
        for kind in 'fis':
            for n in range(4 if not th else 5):
                for nv in (1, 3) if not th else (1, 2, 3, 4):
                    if kind != 'f' and (n > 2 or n == 0):
                        continue
                    out.append(Case('%s %s %i %i' % (via, kind, n, nv), fill,
                                    dict(n=n, nv=nv, kind=kind, via=via)))
    for kind in 'fis':
        for n in (0, 1, 3):
            for nv in (1, 3):
                out.append(Case('new column %s %i %i' % (kind, n, nv),
                                attach, dict(n=n, nv=nv, kind=kind)))
    out.append(Case('tables', tables))
    out.append(Case('entries', entries))
    out.append(Case('makedb many', make, dict(kinds='f', n=11)))
    return out
