"""C19: each database gets its own dialect."""
from .base import *
from . import catalog
from .catalog import Vals, build, apply, new, names_of

BOUNDS = {
    'C19': ['every step of SELECT, UPDATE, DELETE and INSERT over symbolic names and ints, built under each database and rendered '
            'under each database',
            'names of 1-2 and strings of 0-2 arbitrary characters, bytes of 0-2 arbitrary bytes, both booleans, in every dialect',
            'upserts with symbolic names and values, full joins, histories of 3 switches of the database'],
}
ASSUMPTIONS = {
    'C19': ['plain SQL has no upsert; what on_duplicate_key_update does there is outside the claim'],
}


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    for b in BACKENDS:
        for kind in ('select', 'update', 'delete', 'insert'):
            out.append((prop, 'h_step', {'backend': b, 'kind': kind, 'n': 2 if deep else 1}, 900 if deep else 60))
        out.append((prop, 'h_quotes', {'backend': b, 'hi': 3 if deep else 2}, 600 if deep else 60))
        out.append((prop, 'h_text', {'backend': b, 'hi': 3 if deep else 2}, 600 if deep else 60))
        out.append((prop, 'h_scalars', {'backend': b}, 60))
        out.append((prop, 'h_upsert', {'backend': b}, 60))
        out.append((prop, 'h_full_join', {'backend': b}, 60))
        out.append((prop, 'h_configure', {'backend': b, 'n': 4 if deep else 3}, 60))
        out.append((prop, 'h_refused', {'backend': b}, 60))
        out.append((prop, 'h_almost', {'backend': b}, 60))
        out.append((prop, 'h_reference_value', {'backend': b}, 60))
    return out


def h_step(ctx, backend, kind, n):
    """A statement built under one database and rendered under another one is in the dialect of the latter."""
    sp = ctx.sp
    other = ctx.choose('other', BACKENDS)
    plan = []
    common = catalog.steps(kind, 'sql')
    for i in range(n):
        plan.append((ctx.choose('step%d' % i, tuple(common)), Vals(ctx, 's%d' % i, fixed=i > 0)))
    sp.configure(other)
    q = build(sp, kind, 'sql', plan)
    if ctx.flag('rendered before'):
        str(q)
    sp.configure(backend)
    got = str(q)
    want = str(build(sp, kind, 'sql', plan))
    ctx.observe([got, want])
    ctx.check(got == want, 'text depends on the database used while building')
    # the same tokens as in plain SQL apart from the spelling of booleans
    sp.configure('sql')
    plain = [t for t in tokens(str(q), 'sql')]
    mine = tokens(got, backend)
    if backend == 'postgresql':
        plain_bool = [('word', 'TRUE') if t == ('num', '1') and m == ('word', 'TRUE') else t for t, m in zip(plain, mine)] + plain[len(mine):]
        plain = plain_bool
    ctx.check(mine == plain, 'statement means something else in this database')


def h_quotes(ctx, backend, hi):
    """Names are quoted by the quotes of the database, and only by them."""
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.str('n', 1, hi, 'plain')
    sql = str(sp.select(n))
    ctx.observe(sql)
    quote = QUOTE[backend]
    ctx.check(sql == 'SELECT ' + quote + n + quote, 'name is not quoted by the quotes of the database')
    other = '"' if quote == '`' else '`'
    m = ctx.str('m', 0, 1, 'plain')
    # the quote of another database has no meaning
    sql = str(sp.select(n + other + m))
    ctx.observe(sql)
    ctx.check(tokens(sql, backend) == words('SELECT') + [('id', n + other + m)], 'quote of another database is not part of the name')


def h_text(ctx, backend, hi):
    """Strings have to be read back by the rules of the database."""
    sp = ctx.sp
    sp.configure(backend)
    v = ctx.str('v', 0, hi)
    same(ctx, sp.select(sp.V(v)), backend, words('SELECT') + string_value(v, backend), 'string is read as something else')
    ctx.check(str(sp.V(v))[:1] != 'E' or backend == 'postgresql', 'string of PostgreSQL in another database')


def h_scalars(ctx, backend):
    sp = ctx.sp
    sp.configure(ctx.choose('built', BACKENDS))
    kind = ctx.choose('kind', ('true', 'false', 'bytes', 'none', 'int'))
    v = {'true': True, 'false': False, 'none': None}.get(kind)
    if kind == 'bytes':
        v = ctx.bytes('v', 0, 2)
    elif kind == 'int':
        v = ctx.int('v')
    where = ctx.choose('where', ('V', 'set', 'insert', 'insert list', 'where', 'in', 'not in', 'in two', 'on', 'having', 'relation'))
    if where == 'V':
        q, shape = sp.select(sp.V(v)), 'SELECT ?'
    elif where == 'set':
        q, shape = sp.update('t').set('a', v).where('k', 1), 'UPDATE "t" SET "a" = ? WHERE "k" = 1'
    elif where == 'insert':
        q, shape = sp.insert_into('t').values(a=v), 'INSERT INTO "t" ("a") VALUES (?)'
    elif where == 'insert list':
        q, shape = sp.insert_into('t').values([['a', v]]), 'INSERT INTO "t" ("a") VALUES (?)'
    elif where == 'where':
        q, shape = sp.select_from('t').where('a', sp.relations.EQ(sp.V(v))), 'SELECT * FROM "t" WHERE "a" = ?'
    else:
        # bytes are no values of plain relations
        ctx.assume(v is not None and not (kind == 'bytes' and where in ('having', 'relation')))
        if where == 'in':
            q, shape = sp.select_from('t').where('a', [v]), 'SELECT * FROM "t" WHERE "a" IN (?)'
        elif where == 'not in':
            q, shape = sp.select_from('t').where('a', sp.relations.NOT_IN((v, 'x'))), 'SELECT * FROM "t" WHERE "a" NOT IN (?, \'x\')'
        elif where == 'in two':
            q, shape = sp.delete_from('t').where('a', ('x', v)), 'DELETE FROM "t" WHERE "a" IN (\'x\', ?)'
        elif where == 'on':
            q, shape = sp.select_from('t').left_join('u').on('a', sp.V(v)), 'SELECT * FROM "t" LEFT JOIN "u" ON "a" = ?'
        elif where == 'having':
            q, shape = sp.select_from('t').having(sp.Q(a=v) | sp.Q(b=1)), 'SELECT * FROM "t" HAVING ("a" = ? OR "b" = 1)'
        else:
            q, shape = sp.select_from('t').where('a', sp.relations.NE(v)), 'SELECT * FROM "t" WHERE "a" != ?'
    sp.configure(backend)
    same(ctx, q, backend, expect(shape, value(v, backend)), 'value is not in the dialect')


def h_upsert(ctx, backend):
    sp = ctx.sp
    ctx.assume(backend != 'sql')
    sp.configure(backend)
    n = ctx.str('n', 1, 1, 'plain')
    v = ctx.int('v')
    s = ctx.str('s', 0, 1)
    q = sp.insert_into('t').values(a=v)
    head = expect('INTO "t" ("a") VALUES (?)', num(v))
    when = ctx.choose('ignore', ('no', 'before', 'after', 'off'))
    if when in ('before', 'off'):
        q.ignore(when == 'before')
    if when in ('before', 'after'):
        head = words('IGNORE') + head
    rows = ctx.choose('rows', (1, 2))
    if rows == 2:
        q.values(a=8)
        head = head + words(', (8)')
    if backend == 'mysql':
        form = ctx.choose('form', ('kwds', 'dict', 'args', 'two'))
        if form == 'kwds':
            q.on_duplicate_key_update(**{n: s})
        elif form == 'dict':
            q.on_duplicate_key_update({n: s})
        else:
            q.on_duplicate_key_update(n, s)
        tail = words('ON DUPLICATE KEY UPDATE') + [('id', n)] + words('=') + value(s, backend)
        if form == 'two':
            q.on_duplicate_key_update('zz', v)
            tail = tail + words(', "zz" =') + num(v)
        if when == 'after':
            q.ignore()
        same(ctx, q, backend, words('INSERT') + head + tail, 'upsert is wrong')
    elif backend == 'postgresql':
        k = ctx.str('k', 1, 1, 'plain')
        form = ctx.choose('form', ('kwds', 'dict', 'args'))
        if form == 'kwds':
            q.on_duplicate_key_update(k, **{n: s})
        elif form == 'dict':
            q.on_duplicate_key_update(k, {n: s})
        else:
            q.on_duplicate_key_update(k, n, s)
        if when == 'after':
            q.ignore()
        sql = render(ctx, q)
        got = tokens(sql, backend)
        want = words('INSERT') + head + words('ON CONFLICT (') + [('id', k)] + words(') DO UPDATE SET') + [('id', n)] + words('=') + value(s, backend)
        ctx.check(no_set(got) == no_set(want), 'upsert is wrong')
        ctx.check(got == want, 'ON CONFLICT ... DO UPDATE without SET', finding='pg-upsert-missing-set')
    else:
        before = ctx.flag('before')
        if before:
            ctx.assume(when == 'no' and rows == 1)
            q = sp.insert().on_duplicate_key_update().into('t').values(a=v)
        else:
            q.on_duplicate_key_update()
            if when == 'after':
                q.ignore()
        same(ctx, q, backend, words('REPLACE') + head, 'upsert is wrong')
        ctx.check(raises(ctx, lambda: sp.insert_into('t').values(a=v).on_duplicate_key_update(n, s), Exception),
                  'assignments which the database does not know are accepted')
        same(ctx, sp.insert_into('t').values(a=v), backend, expect('INSERT INTO "t" ("a") VALUES (?)', num(v)), 'plain insert is wrong')


def h_full_join(ctx, backend):
    sp = ctx.sp
    sp.configure(ctx.choose('built', BACKENDS))
    q = sp.select_from('t')
    head = words('SELECT * FROM "t"')
    before = ctx.choose('before', ('nothing', 'join', 'left', 'right', 'table', 'two', 'full'))
    ctx.assume(before != 'full' or backend == 'postgresql')
    if before in ('join', 'two'):
        q.join('b1').on('x', 'y')
        head += words('JOIN "b1" ON "x" = "y"')
    if before in ('left', 'two'):
        q.left_join('b2').on('x', 'y')
        head += words('LEFT JOIN "b2" ON "x" = "y"')
    if before == 'right':
        q.right_join('b3')
        head += words('RIGHT JOIN "b3"')
    if before == 'table':
        q.from_('b4')
        head += words(', "b4"')
    sp.configure(backend)
    if before == 'full':
        q.full_join('b5').on('x', 'y')
        head += words('FULL JOIN "b5" ON "x" = "y"')
    n = ctx.str('n', 1, 1, 'plain')
    form = ctx.choose('form', ('str', 'tuple', 'dict'))
    arg = {'str': n, 'tuple': (n, 'al'), 'dict': {n: 'al'}}[form]
    toks = [('id', n)] + (words('AS "al"') if form != 'str' else [])
    try:
        q.full_join(arg).on('a', 'b')
        ok = True
    except sp.exceptions.InvalidQueryException:
        ok = False
    ctx.check(ok == (backend == 'postgresql'), 'full join is accepted or refused wrongly')
    if ok:
        same(ctx, q, backend, head + words('FULL JOIN') + toks + words('ON "a" = "b"'), 'full join is wrong')
    else:
        same(ctx, q, backend, head, 'refused join changes the query')


def h_configure(ctx, backend, n):
    """The last successful configure wins, in any letter case."""
    sp = ctx.sp
    sp.configure('sql')
    current = 'sql'
    q = sp.select('c').where('b', True)
    for i in range(n):
        b = backend if i == 0 else ctx.choose('b%d' % i, BACKENDS + ('MySQL', 'PostgreSQL', 'SQLITE', 'Sql', 'oracle', ''))
        if b in ('oracle', ''):
            ctx.check(raises(ctx, lambda: sp.configure(b), Exception), 'unknown database is accepted')
        else:
            sp.configure(b)
            current = b.lower()
        same(ctx, q, current, expect('SELECT "c" WHERE "b" = ?', value(True, current)), 'wrong dialect')
        mark = QUOTE[current]
        ctx.check(str(q).startswith('SELECT ' + mark + 'c' + mark), 'wrong quotes')


def h_refused(ctx, backend):
    """A name of a database nobody knows, of any ordinary characters, leaves the current one."""
    sp = ctx.sp
    sp.configure(backend)
    before = str(sp.select('a').where('b', True))
    b = ctx.str('b', 0, 3, 'lower')
    ctx.assume(b != 'sql')
    ctx.check(raises(ctx, lambda: sp.configure(b), Exception), 'unknown database is accepted')
    ctx.check(ctx.observe(str(sp.select('a').where('b', True))) == before, 'refused configuration changes the database')


def h_almost(ctx, backend):
    """A name which only resembles that of a database: with characters added, left out or exchanged."""
    sp = ctx.sp
    sp.configure(backend)
    before = str(sp.select('a').where('b', True))
    known = ctx.choose('known', BACKENDS + ('MySQL', 'PostgreSQL'))
    how = ctx.choose('how', ('after', 'before', 'without', 'inside', 'twice'))
    at = ctx.choose('at', (0, len(known) // 2, len(known) - 1))
    if how == 'after':
        b = known + ctx.str('b', 1, 1, 'ascii')
    elif how == 'before':
        b = ctx.str('b', 1, 1, 'ascii') + known
    elif how == 'without':
        b = known[:at] + known[at + 1:]
    elif how == 'inside':
        b = known[:at] + ctx.str('b', 1, 1, 'ascii') + known[at + 1:]
    else:
        b = known + known
    ctx.assume(all(b.lower() != x for x in BACKENDS))
    ctx.check(raises(ctx, lambda: sp.configure(b), Exception), 'unknown database is accepted')
    ctx.check(ctx.observe(str(sp.select('a').where('b', True))) == before, 'refused configuration changes the database')


def h_reference_value(ctx, backend):
    """A value wholly in quotes of the database is a column; in quotes of another database it is a string."""
    sp = ctx.sp
    sp.configure(ctx.choose('built', BACKENDS))
    n = ctx.str('n', 1, 2, 'plain')
    quote = ctx.choose('quote', ('"', '`'))
    v = quote + n + quote
    q = sp.select_from('t').where('a', v)
    sp.configure(backend)
    want = [('id', n)] if quote == QUOTE[backend] else lit(v)
    same(ctx, q, backend, words('SELECT * FROM "t" WHERE "a" =') + want, 'quoted value is read wrongly')
