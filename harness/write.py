"""C08 (rows of INSERT) and C09 (assignments of UPDATE and upserts)."""
import decimal

from symx import logic

from .base import *

BOUNDS = {
    'C08': ['2 rows (thorough: 3) over the columns a, b, c, any subset of them in each row, with unbounded symbolic ints, '
            'strings of 0-1 arbitrary characters, None, False or custom SQL as values; every argument style',
            '2 rows with columns named by 1-2 arbitrary characters',
            'up to 40 columns and 60 rows (and every integer constant of the source, +1, up to 300)', 'all four databases'],
    'C09': ['2 assignments (thorough: 3) to columns a, b or of 1-2 ordinary symbolic characters, values as in C08, every '
            'argument style, in UPDATE and in the upserts of MySQL and PostgreSQL',
            'up to 40 assignments (and every integer constant of the source, +1, up to 300)'],
}
ASSUMPTIONS = {
    'C08': ['a column named twice in one row, two spellings of one column (a and "a") and custom SQL as column name are outside the claim',
            'the order of the columns is free, but every row has to follow it'],
    'C09': ['assignments with the same rendered text may be merged'],
}

KINDS = ('int', 'str', 'null', 'false', 'custom')


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'C08':
        for b in BACKENDS:
            for style in STYLES:
                out.append((prop, 'h_rows', {'backend': b, 'style': style, 'rows': 3 if deep else 2}, 900 if deep else 60))
            out.append((prop, 'h_row_values', {'backend': b, 'n': 3 if deep else 2}, 600 if deep else 60))
            out.append((prop, 'h_row_names', {'backend': b, 'hi': 2 if deep or b == 'sql' else 1}, 600 if deep else 60))
            out.append((prop, 'h_row_many', {'backend': b, 'columns': harvest.counts(SRC, (1, 3, 12, 40), 300),
                                             'rows': harvest.counts(SRC, (1, 2, 10, 60), 1100)}, 120))
            out.append((prop, 'h_row_same', {'backend': b}, 60))
            out.append((prop, 'h_row_sub', {'backend': b}, 60))
    else:
        for target in ('update', 'mysql', 'postgresql'):
            for style in STYLES:
                out.append((prop, 'h_assign', {'target': target, 'style': style, 'n': 3 if deep else 2}, 900 if deep else 60))
            out.append((prop, 'h_assign_names', {'target': target, 'hi': 2 if deep else 1}, 600 if deep else 60))
            out.append((prop, 'h_assign_types', {'target': target}, 120))
            out.append((prop, 'h_assign_many', {'target': target, 'counts': harvest.counts(SRC, (1, 3, 12, 40), 300)}, 60))
            out.append((prop, 'h_assign_custom', {'target': target}, 60))
            out.append((prop, 'h_assign_self', {'target': target}, 60))
            for style in STYLES:
                out.append((prop, 'h_assign_related', {'target': target, 'style': style}, 60))
        for b in BACKENDS:
            out.append((prop, 'h_update_shape', {'backend': b}, 60))
    return out


def datum(ctx, sp, kind, label, dialect, alpha='any'):
    if kind == 'int':
        v = ctx.int(label)
    elif kind == 'str':
        v = ctx.str(label, 0, 1, alpha)
    elif kind == 'null':
        v = None
    elif kind == 'false':
        v = False
    else:
        return sp.C('now'), words('now')
    return v, value(v, dialect)


STYLES = ('kwds', 'dict', 'pairs', 'list', 'mixed')


def give(method, pairs, style, before=()):
    """Call method with the pairs in the given style (a row or a set of assignments)."""
    if style == 'kwds':
        return method(*before, **dict(pairs))
    if style == 'dict':
        return method(*(before + (dict(pairs),)))
    if style == 'mixed' and len(pairs) == 1:
        return method(*(before + (pairs[0][0], pairs[0][1])))
    if style == 'mixed':
        return method(*(before + (dict(pairs[:1]),)), **dict(pairs[1:]))
    if style == 'pairs' and len(pairs) > 1:
        return method(*(before + tuple(pairs)))
    return method(*(before + ([list(p) for p in pairs],)))


def parse_insert(toks, table):
    """-> (columns, rows) as token lists, or None."""
    head = words('INSERT INTO') + table
    if toks[:len(head)] != head:
        return None
    i = len(head)
    if i >= len(toks) or toks[i] != ('op', '('):
        return None
    lists = []
    depth = 0
    cur = None
    values_at = None
    for t in toks[i:]:
        if t == ('op', '('):
            depth += 1
            if depth == 1:
                cur = []
                continue
        elif t == ('op', ')'):
            depth -= 1
            if depth == 0:
                lists.append(logic.split(cur, ('op', ',')))
                continue
            if depth < 0:
                return None
        if depth == 0:
            if len(lists) == 1 and values_at is None and t == ('word', 'VALUES'):
                values_at = True
            elif not (len(lists) > 1 and t == ('op', ',')):
                return None
        else:
            cur.append(t)
    if depth or not values_at:
        return None
    return lists[0], lists[1:]


def aligned(ctx, q, dialect, rows, table=None):
    """rows: list of [(column tokens, value tokens)]"""
    toks = tokens(render(ctx, q), dialect)
    got = parse_insert(toks, table or [('id', 't')])
    ctx.check(got is not None, 'INSERT is malformed')
    columns, lines = got
    wanted = []
    for row in rows:
        for c, _ in row:
            if c not in wanted:
                wanted.append(c)
    ctx.check(len(columns) == len(wanted) and all(c in columns for c in wanted), 'list of columns is wrong')
    ctx.check(len(lines) == len(rows), 'number of rows is wrong')
    for row, line in zip(rows, lines):
        ctx.check(len(line) == len(columns), 'row has a wrong number of values')
        for column, got_value in zip(columns, line):
            e = words('NULL')
            for c, v in row:
                if c == column:
                    e = v
            ctx.check(got_value == e, 'value is in another column, lost or altered')


def h_rows(ctx, backend, style, rows):
    sp = ctx.sp
    sp.configure(backend)
    q = sp.insert_into('t')
    model = []
    for i in range(rows):
        pairs, exp = [], []
        for c in ctx.choose('columns%d' % i, ('a', 'b', 'ab', 'ba', 'abc', 'cab', 'bc')):
            v, t = datum(ctx, sp, 'int', 'v%d%s' % (i, c), backend)
            pairs.append((c, v))
            exp.append(([('id', c)], t))
        give(q.values, pairs, style)
        model.append(exp)
    aligned(ctx, q, backend, model)


def h_row_values(ctx, backend, n):
    sp = ctx.sp
    sp.configure(backend)
    q = sp.insert_into('t')
    model = []
    for i in range(n):
        pairs, exp = [], []
        for c in ('ab', 'ca', 'b')[i]:
            kind = ctx.choose('kind%d%s' % (i, c), KINDS) if c != 'c' else 'int'
            v, t = datum(ctx, sp, kind, 'v%d%s' % (i, c), backend, 'plain')
            pairs.append((c, v))
            exp.append(([('id', c)], t))
        q.values(dict(pairs))
        model.append(exp)
    aligned(ctx, q, backend, model)


def h_row_names(ctx, backend, hi):
    """Columns named by arbitrary characters; two rows, possibly the same column."""
    sp = ctx.sp
    sp.configure(backend)
    n, m = ctx.str('n', 1, hi), ctx.str('m', 1, 1)
    pn, pm = split_name(n, QUOTE[backend]), split_name(m, QUOTE[backend])
    ctx.assume(pn is not None and pm is not None)
    tn, tm = name_tokens(pn), name_tokens(pm)
    ctx.assume(n == m or tn != tm)
    a, b = ctx.int('a'), ctx.int('b')
    q = sp.insert_into('t').values({n: a}).values({m: b})
    aligned(ctx, q, backend, [[(tn, value(a, backend))], [(tm, value(b, backend))]])
    if n != m:
        q = sp.insert_into('t').values({n: a, m: b}).values({m: a})
        aligned(ctx, q, backend, [[(tn, value(a, backend)), (tm, value(b, backend))], [(tm, value(a, backend))]])


def h_row_many(ctx, backend, columns, rows):
    sp = ctx.sp
    sp.configure(backend)
    k = ctx.choose('k', columns)
    n = ctx.choose('n', rows)
    ctx.assume(k * n <= 400)
    q = sp.insert_into('t')
    model = []
    for i in range(n):
        row = [('c%d' % j, i * 1000 + j) for j in range(k) if (i + j) % 3]
        q.values(row or [('c0', i)])
        model.append([([('id', c)], num(v)) for c, v in (row or [('c0', i)])])
    aligned(ctx, q, backend, model)


def h_row_same(ctx, backend):
    """Rows are never merged or dropped, equal ones included."""
    sp = ctx.sp
    sp.configure(backend)
    pool = (1, True, '1', None, '', 0, False, 1.0, decimal.Decimal('1'))
    a, b = ctx.choose('a', pool), ctx.choose('b', pool)
    form = ctx.choose('form', ('two', 'three', 'copy', 'same dict'))
    q = sp.insert_into('t').values(c=a)
    row = lambda x: [([('id', 'c')], value(x, backend))]
    if form == 'two':
        q.values(c=b)
        model = [row(a), row(b)]
    elif form == 'three':
        q.values(c=b).values(c=a)
        model = [row(a), row(b), row(a)]
    elif form == 'copy':
        q = q.copy().values(c=b)
        model = [row(a), row(b)]
    else:
        d = {'c': b}
        q.values(d)
        d['c'] = 'changed'
        q.values(d)
        model = [row(a), row(b), row('changed')]
    aligned(ctx, q, backend, model)


def h_row_sub(ctx, backend):
    """Rows next to the other parts of the statement."""
    sp = ctx.sp
    sp.configure(backend)
    v = ctx.int('v')
    table = ctx.choose('table', ('t', 'd.t'))
    q = sp.insert_into(table)
    exp = [([('id', 'c')], num(v)), ([('id', 'd')], words('(SELECT "x" FROM "s")'))]
    q.values(c=v, d=sp.select('x').from_('s'))
    if ctx.flag('second'):
        q.values(d=sp.max('y'))
        aligned(ctx, q, backend, [exp, [([('id', 'd')], words('MAX("y")'))]], name(table))
    else:
        aligned(ctx, q, backend, [exp], name(table))


# ---------------------------------------------------------------- C09

def target_query(sp, target):
    """-> (query, method, leading arguments, expected head)"""
    if target == 'update':
        sp.configure('sql')
        q = sp.update('t').where(id=1)
        return q, q.set, (), words('UPDATE "t" SET'), words('WHERE "id" = 1'), 'sql'
    sp.configure(target)
    q = sp.insert_into('t').values(id=1)
    if target == 'mysql':
        return q, q.on_duplicate_key_update, (), words('INSERT INTO "t" ("id") VALUES (1) ON DUPLICATE KEY UPDATE'), [], target
    return (q, q.on_duplicate_key_update, ('id',),
            words('INSERT INTO "t" ("id") VALUES (1) ON CONFLICT ("id") DO UPDATE'), [], target)


def assigned(ctx, q, dialect, head, tail, expected, ordered=True):
    toks = no_set(tokens(render(ctx, q), dialect))
    ctx.check(toks[:len(head)] == head and (not tail or toks[-len(tail):] == tail), 'statement is malformed')
    got = logic.split(toks[len(head):len(toks) - len(tail)], ('op', ','))
    got, want = dedupe(got), dedupe(expected)
    if ordered:
        ctx.check(got == want, 'assignment is lost, altered or moved')
    else:
        ctx.check(len(got) == len(want) and all(x in got for x in want), 'assignment is lost or altered')


def dedupe(items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return out


def h_assign(ctx, target, style, n):
    sp = ctx.sp
    q, method, before, head, tail, dialect = target_query(sp, target)
    pairs, exp = [], []
    for i in range(n):
        kind = ctx.choose('kind%d' % i, KINDS)
        v, t = datum(ctx, sp, kind, 'v%d' % i, dialect)
        c = 'ab'[i] if i < 2 else ctx.choose('column%d' % i, ('a', 'b', 'c'))
        pairs.append((c, v))
        exp.append([('id', c), ('op', '=')] + t)
    how = ctx.choose('calls', ('one', 'each', 'reverse'))
    if how == 'reverse':
        pairs.reverse()
        exp.reverse()
    if how == 'one':
        if len(set(c for c, _ in pairs)) < len(pairs):
            ctx.assume(style in ('pairs', 'list'))
        give(method, pairs, style, before)
    else:
        for p in pairs:
            give(method, [p], style, before)
    assigned(ctx, q, dialect, head, tail, exp, how != 'one' or style in ('pairs', 'list'))


def h_assign_names(ctx, target, hi):
    """Two assignments to columns of arbitrary names, possibly the same column."""
    sp = ctx.sp
    q, method, before, head, tail, dialect = target_query(sp, target)
    exp = []
    for i in range(2):
        n = ctx.str('n%d' % i, 1, hi, 'plain')
        v = ctx.int('v%d' % i)
        method(*(before + ({n: v},)))
        exp.append([('id', n), ('op', '=')] + num(v))
    assigned(ctx, q, dialect, head, tail, exp)


def h_assign_related(ctx, target, style):
    """Assigned columns and values which may be those of other parts of the statement."""
    sp = ctx.sp
    dialect = 'sql' if target == 'update' else target
    sp.configure(dialect)
    table, other, key, n = [ctx.str(x, 1, 1, 'plain') for x in ('table', 'other', 'key', 'n')]
    ctx.assume(n != 'o')
    v, w, x = ctx.int('v'), ctx.int('w'), ctx.int('x')
    mark = QUOTE[dialect]
    written = ctx.choose('written', ('as they are', 'assigned quoted', 'key quoted', 'both quoted'))
    said, skey = n, key
    if written in ('assigned quoted', 'both quoted'):
        said = mark + n + mark
    if written in ('key quoted', 'both quoted'):
        skey = mark + key + mark
    pairs = [(said, w), ('o', x)]
    exp = [[('id', n), ('op', '=')] + num(w), [('id', 'o'), ('op', '=')] + num(x)]
    if target == 'update':
        q = sp.update(table).where(other, v)
        head, tail = expect('UPDATE ? SET', [('id', table)]), expect('WHERE ? = ?', [('id', other)], num(v))
        give(q.set, pairs, style)
    else:
        q = sp.insert_into(table).values({other: v})
        head, tail = expect('INSERT INTO ? (?) VALUES (?)', [('id', table)], [('id', other)], num(v)), []
        if target == 'mysql':
            give(q.on_duplicate_key_update, pairs, style)
            head += words('ON DUPLICATE KEY UPDATE')
        else:
            give(q.on_duplicate_key_update, pairs, style, (skey,))
            head += expect('ON CONFLICT (?) DO UPDATE', [('id', key)])
    assigned(ctx, q, dialect, head, tail, exp, style in ('pairs', 'list'))


def h_assign_self(ctx, target):
    """Columns set to columns, texts or numbers which may look like the column itself."""
    sp = ctx.sp
    q, method, before, head, tail, dialect = target_query(sp, target)
    n = ctx.str('n', 1, 1, 'plain')
    m = ctx.str('m', 1, 1, 'plain')
    kind = ctx.choose('kind', ('R', 'text', 'V', 'quoted', 'number', 'C', 'dotted', 'back', 'function'))
    v, t = {
        'R': lambda: (sp.R(m), [('id', m)]),
        'text': lambda: (m, [('str', m)]),
        'V': lambda: (sp.V(m), [('str', m)]),
        'quoted': lambda: ('"%s"' % m if dialect != 'mysql' else '`%s`' % m, None),
        'number': lambda: (5, num(5)),
        'C': lambda: (sp.C('z'), words('z')),
        'dotted': lambda: (sp.R('t.' + m), words('"t".') + [('id', m)]),
        'back': lambda: (sp.R(m), [('id', m)]),
        'function': lambda: (sp.concat(m, 'x'), expect('CONCAT(?, "x")', [('id', m)])),
    }[kind]()
    if kind == 'quoted':
        t = value(v, dialect)
    exp = [words('"o" = 1'), [('id', n), ('op', '=')] + t]
    method(*(before + ({'o': 1},)))
    style = ctx.choose('style', STYLES)
    give(method, [(n, v)], style, before)
    if kind == 'back':
        give(method, [(m, sp.R(n))], style, before)
        exp.append([('id', m), ('op', '='), ('id', n)])
    assigned(ctx, q, dialect, head, tail, exp)


def h_assign_types(ctx, target):
    """Assignments of look-alike values are different."""
    sp = ctx.sp
    q, method, before, head, tail, dialect = target_query(sp, target)
    pool = (1, True, '1', None, '', 0, False, 1.0, decimal.Decimal('1'), 'NULL', '1.0', b'1')
    exp = []
    for label in 'xy':
        v = ctx.choose(label, pool)
        how = ctx.choose(label + 'how', ('plain', 'V', 'C'))
        if how == 'C':
            v, t = sp.C('1'), words('1')
        else:
            t = value(v, dialect)
            v = sp.V(v) if how == 'V' else v
        method(*(before + ({'c': v},)))
        exp.append(words('"c" =') + t)
    assigned(ctx, q, dialect, head, tail, exp)


def h_assign_many(ctx, target, counts):
    sp = ctx.sp
    q, method, before, head, tail, dialect = target_query(sp, target)
    n = ctx.choose('n', counts)
    style = ctx.choose('style', STYLES + ('calls',))
    pairs = [('c%03d' % i, i) for i in range(n)]
    if style == 'calls':
        for p in pairs:
            give(method, [p], 'dict', before)
    else:
        give(method, pairs, style, before)
    assigned(ctx, q, dialect, head, tail, [[('id', c), ('op', '=')] + num(v) for c, v in pairs])


def h_assign_custom(ctx, target):
    """Custom SQL as a whole assignment, references and sub-queries as values."""
    sp = ctx.sp
    q, method, before, head, tail, dialect = target_query(sp, target)
    exp = []
    for label in 'xy':
        kind = ctx.choose(label, ('custom', 'R', 'sub', 'function', 'int'))
        if kind == 'custom':
            method(*(before + (sp.C('x = x + 1'),)))
            exp.append(words('x = x + 1'))
        elif kind == 'R':
            method(*(before + ({'c': sp.R('d.e')},)))
            exp.append(words('"c" = "d"."e"'))
        elif kind == 'sub':
            method(*(before + ({'c': sp.select('i').from_('s')},)))
            exp.append(words('"c" = (SELECT "i" FROM "s")'))
        elif kind == 'function':
            method(*(before + ({'c': sp.concat('a', 'b')},)))
            exp.append(words('"c" = CONCAT("a", "b")'))
        else:
            v = ctx.int(label + 'v')
            method(*(before + ({'c': v},)))
            exp.append(words('"c" =') + num(v))
    assigned(ctx, q, dialect, head, tail, exp)


def h_update_shape(ctx, backend):
    """Assignments next to joins, conditions and options."""
    sp = ctx.sp
    sp.configure(backend)
    v, w = ctx.int('v'), ctx.int('w')
    q = sp.update('t')
    ops = [('set', lambda: q.set(a=v)), ('where', lambda: q.where(c=w)), ('join', lambda: q.join('u').on('t.x', 'u.y')),
           ('ignore', lambda: q.ignore()), ('set2', lambda: q.set(b=w))]
    left = [0, 1, 2, 3, 4]
    while left:
        i = ctx.choose('next%d' % len(left), left if len(left) > 2 else left[:1] if not left[1:] else left)
        ops[i][1]()
        left = [x for x in left if x != i]
    toks = tokens(render(ctx, q), backend)
    e1 = expect('UPDATE IGNORE "t" JOIN "u" ON "t"."x" = "u"."y" SET "a" = ?, "b" = ? WHERE "c" = ?', num(v), num(w), num(w))
    e2 = expect('UPDATE IGNORE "t" JOIN "u" ON "t"."x" = "u"."y" SET "b" = ?, "a" = ? WHERE "c" = ?', num(w), num(v), num(w))
    ctx.check(toks == e1 or toks == e2, 'UPDATE is malformed')
