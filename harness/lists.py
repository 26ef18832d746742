"""C24 (columns and tables), C25 (export to a file), C26 (chaining and ways of rendering)."""
from .base import *
from . import catalog
from .catalog import Vals, names_of, steps

BOUNDS = {
    'C24': ['histories of 3 (thorough: 4) calls, each with 1-2 columns or tables of one ordinary symbolic character with or without an alias of one '
            'ordinary symbolic character, an unbounded symbolic int, a function or a sub-select, in every argument style',
            'up to 40 columns and tables (and every integer constant of the source, +1, up to 300)', 'all four databases'],
    'C25': ['histories of 4 (thorough: 5) calls of the four methods, each text 0-1 ordinary symbolic characters, the last one 0-1 (thorough 0-2) arbitrary ones', 'all four databases'],
    'C26': ['statements, conditions and functions built by 2 (thorough: 3) steps of %d kinds over symbolic names, texts and ints, rendered in 7 ways',
            'all four databases'],
}
ASSUMPTIONS = {
    'C24': ['an empty string as alias is outside the claim', 'a function or sub-select used twice may be listed once or twice'],
    'C25': ['INTO OUTFILE is syntax of MySQL; other databases get the same text'],
    'C26': ['setting an attribute is not a building method'],
}
BOUNDS['C26'][0] %= sum(len(steps(k, 'mysql')) for k in catalog.KINDS)


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'C24':
        for b in BACKENDS:
            full = deep or b == 'mysql'
            for first in COLUMN_STYLES:
                out.append((prop, 'h_columns', {'backend': b, 'first': first, 'n': 4 if deep else 3 if full else 2}, 900 if deep else 60))
            for st in TABLE_STYLES:
                for first in UPDATE_TABLES if st == 'update' else TABLE_FORMS:
                    n = 4 if deep and st in ('select', 'update') else 3 if deep or b == 'mysql' and st in ('select', 'update') else 2
                    out.append((prop, 'h_tables', {'backend': b, 'statement': st, 'n': n, 'first': first}, 900 if deep else 60))
            out.append((prop, 'h_star', {'backend': b}, 60))
            out.append((prop, 'h_count', {'backend': b, 'counts': harvest.counts(SRC, (1, 2, 5, 12, 40), 300)}, 60))
            out.append((prop, 'h_targets', {'backend': b}, 60))
    elif prop == 'C25':
        for b in BACKENDS:
            for first in EXPORT:
                out.append((prop, 'h_export', {'backend': b, 'first': first, 'n': 5 if deep else 4 if b == 'mysql' else 3, 'hi': 2 if deep else 1}, 900 if deep else 120))
    else:
        for b in BACKENDS:
            for kind in catalog.KINDS:
                if not deep and b not in ('mysql', 'postgresql') and kind != 'insert':
                    continue
                for s in names_of(kind, b):
                    out.append((prop, 'h_chain', {'backend': b, 'kind': kind, 'first': s, 'n': 3 if deep else 2}, 900 if deep else 60))
            for kind in SINGLE:
                out.append((prop, 'h_ways', {'backend': b, 'kind': kind}, 60))
            for kind in EDGES:
                n = 3 if deep else 2 if b == 'mysql' else 1
                for part in range(4 if kind == 'select' and n > 1 else 1):
                    out.append((prop, 'h_edges', {'backend': b, 'kind': kind, 'n': n, 'part': part}, 900 if deep else 60))
            if deep or b in ('mysql', 'postgresql'):
                out.append((prop, 'h_ways_long', {'backend': b, 'counts': harvest.counts(SRC, (1, 2, 5, 12, 40, 120, 300), 600)}, 300 if deep else 60))
    return out


# ---------------------------------------------------------------- C24

LATER = ('plain', 'pair', 'int')
COLUMN_STYLES = ('plain', 'pair', 'list', 'dict', 'kwds', 'two', 'int', 'function', 'sub', 'none alias')


def alias_tokens(n, a):
    return [('id', n), ('word', 'AS'), ('id', a)]


def add(model, item):
    if item not in model:
        model.append(item)


def one_column(ctx, i, style):
    """-> (args, kwds, items)"""
    sp = ctx.sp
    if style == 'int':
        v = ctx.int('v%d' % i, 0)
        return (v,), {}, [num(v)]
    n = ctx.str('n%d' % i, 1, 1, 'plain')
    if style == 'plain':
        return (n,), {}, [[('id', n)]]
    if style == 'none alias':
        return ((n, None),), {}, [[('id', n)]]
    if style == 'function':
        return (sp.max(n),), {}, [words('MAX(') + [('id', n)] + words(')')]
    if style == 'sub':
        return ((sp.select(n), 'al'),), {}, [words('(SELECT') + [('id', n)] + words(') AS "al"')]
    if style == 'two':
        m = ctx.str('m%d' % i, 1, 1, 'plain')
        a = ctx.str('a%d' % i, 1, 1, 'plain')
        return (n, (m, a)), {}, [[('id', n)], alias_tokens(m, a)]
    a = ctx.str('a%d' % i, 1, 1, 'plain')
    items = [alias_tokens(n, a)]
    if style == 'pair':
        return ((n, a),), {}, items
    if style == 'list':
        return ([n, a],), {}, items
    if style == 'dict':
        return ({n: a},), {}, items
    return (), {n: a}, items


def h_columns(ctx, backend, first, n):
    """Columns of SELECT over a history of calls."""
    sp = ctx.sp
    sp.configure(backend)
    model = []
    q = None
    fancy = 0
    for i in range(n):
        style = first if i == 0 else ctx.choose('style%d' % i, COLUMN_STYLES if i == 1 or n > 3 else LATER)
        if style in ('function', 'sub'):
            fancy += 1
            if fancy > 1:
                return
        args, kwds, items = one_column(ctx, i, style)
        if q is None:
            q = sp.select(*args, **kwds)
        else:
            q.columns(*args, **kwds)
        for x in items:
            add(model, x)
    q.from_('t')
    got = tokens(render(ctx, q), backend)
    ctx.check(got == expect('SELECT ? FROM "t"', comma(model)), 'column is lost, added, altered or moved')


TABLE_STYLES = ('select', 'select_from', 'update', 'delete', 'delete_from')
TABLE_SHAPE = {'select': 'SELECT "c" FROM ? WHERE "k" = 1', 'select_from': 'SELECT * FROM ? WHERE "k" = 1',
               'update': 'UPDATE ? SET "s" = 1 WHERE "k" = 1',
               'delete': 'DELETE "x" FROM ? WHERE "k" = 1', 'delete_from': 'DELETE FROM ? WHERE "k" = 1'}


UPDATE_TABLES = ('plain', 'pair', 'none', 'sub')
TABLE_FORMS = ('plain', 'pair', 'dict', 'kwds', 'two', 'table', 'table alias', 'none', 'sub', 'tables')


def one_table(ctx, i, statement, deep=False, first=None):
    """-> (call, items); the call takes a method of the statement that accepts tables"""
    sp = ctx.sp
    n = ctx.str('n%d' % i, 1, 1, 'plain')
    if first:
        style = first
    elif i > 1 and not deep:
        style = ctx.choose('style%d' % i, ('plain', 'pair'))
    elif statement == 'update':
        style = ctx.choose('style%d' % i, UPDATE_TABLES)
    else:
        style = ctx.choose('style%d' % i, TABLE_FORMS)
    plain = [('id', n)]
    if style == 'plain':
        return lambda f, q: f(n), [plain]
    if style == 'none':
        return lambda f, q: f((n, None)), [plain]
    if style == 'table':
        return lambda f, q: q.from_table(n), [plain]
    if style == 'sub':
        return lambda f, q: f((sp.select(n), 'al')), [words('(SELECT') + plain + words(') AS "al"')]
    a = ctx.str('a%d' % i, 1, 1, 'plain')
    if style in ('two', 'tables'):
        m = ctx.str('m%d' % i, 1, 1, 'plain')
        if style == 'tables':
            return lambda f, q: q.from_tables((n, a), m), [alias_tokens(n, a), [('id', m)]]
        return lambda f, q: f(m, (n, a)), [[('id', m)], alias_tokens(n, a)]
    items = [alias_tokens(n, a)]
    if style == 'pair':
        return lambda f, q: f((n, a)), items
    if style == 'dict':
        return lambda f, q: f({n: a}), items
    if style == 'kwds':
        return lambda f, q: f(**{n: a}), items
    return lambda f, q: q.from_table(n, a), items


def h_tables(ctx, backend, statement, n, first):
    """Tables of a statement over a history of calls."""
    sp = ctx.sp
    sp.configure(backend)
    model = []
    call, items = one_table(ctx, 0, statement, first=first)
    subs = 0
    if statement == 'select_from':
        call0 = sp.select_from
    elif statement == 'delete_from':
        call0 = sp.delete_from
    else:
        call0 = None
    if call0 is None:
        q = sp.select('c') if statement == 'select' else sp.delete('x') if statement == 'delete' else None
        if q is None:
            q = call(sp.update, None)
        else:
            call(q.from_, q)
    else:
        # from_table and from_tables are methods of an existing statement
        q = (sp.select_from() if statement == 'select_from' else sp.delete_from())
        made = call(call0, q)
        q = made
    for x in items:
        add(model, x)
        subs += x[0] == ('op', '(')
    for i in range(1, n):
        call, items = one_table(ctx, i, statement, n > 3)
        if items[0][0] == ('op', '('):
            subs += 1
            if subs > 1:
                return
        call(q.table if statement == 'update' else q.from_, q)
        for x in items:
            add(model, x)
    if statement == 'update':
        q.set(s=1)
    q.where(k=1)
    got = tokens(render(ctx, q), backend)
    ctx.check(got == expect(TABLE_SHAPE[statement], comma(model)), 'table is lost, added, altered or moved')


def h_star(ctx, backend):
    """No columns at all, and * next to others."""
    sp = ctx.sp
    sp.configure(backend)
    form = ctx.choose('form', ('none', 'empty call', 'star', 'star first', 'star last', 'table star', 'select_from columns'))
    n = ctx.str('n', 1, 2, 'plain')
    if form == 'none':
        q, e = sp.select().from_(n), 'SELECT * FROM ?'
    elif form == 'empty call':
        q, e = sp.select().columns().from_(n).columns(), 'SELECT * FROM ?'
    elif form == 'star':
        q, e = sp.select('*').from_(n).columns(), 'SELECT * FROM ?'
    elif form == 'star first':
        q, e = sp.select('*', n), 'SELECT *, ?'
    elif form == 'star last':
        q, e = sp.select(n).columns('*'), 'SELECT ?, *'
    elif form == 'table star':
        q, e = sp.select(n + '.*', 'c').from_(n), 'SELECT ?.*, "c" FROM ?'
    else:
        q, e = sp.select_from('t').columns(n), 'SELECT ? FROM "t"'
    same(ctx, q, backend, fill(e, [('id', n)]), 'columns differ from what was asked for')


def h_count(ctx, backend, counts):
    """Many columns and tables."""
    sp = ctx.sp
    sp.configure(backend)
    k = ctx.choose('count', counts)
    what = ctx.choose('what', ('columns', 'tables', 'one by one', 'aliases'))
    pos = ctx.choose('pos', ('first', 'middle', 'last'))
    at = {'first': 0, 'middle': k // 2, 'last': k - 1}[pos]
    n = ctx.str('n', 1, 1, 'plain')
    names = ['x%d' % i for i in range(k)]
    names[at] = n
    if what == 'columns':
        q, e = sp.select(*names), 'SELECT ?'
    elif what == 'tables':
        q, e = sp.select_from(*names), 'SELECT * FROM ?'
    elif what == 'aliases':
        q, e = sp.select(*[('c', x) for x in names]), 'SELECT ?'
    else:
        q, e = sp.select(names[0]), 'SELECT ?'
        for x in names[1:]:
            q.columns(x)
    items = [[('id', x)] for x in names]
    if what == 'aliases':
        items = [[('id', 'c'), ('word', 'AS')] + x for x in items]
    same(ctx, q, backend, expect(e, comma(items)), 'one of many columns or tables is lost, altered or moved')


def h_targets(ctx, backend):
    """DELETE a, b FROM ... and tables of INSERT."""
    sp = ctx.sp
    sp.configure(backend)
    a = ctx.str('a', 1, 1, 'plain')
    b = ctx.str('b', 1, 1, 'plain')
    form = ctx.choose('form', ('delete two', 'delete later', 'delete same as from', 'insert', 'into', 'delete none'))
    targets = [[('id', a)]]
    add(targets, [('id', b)])
    if form == 'delete two':
        q, e = sp.delete(a, b).from_('t').where(k=1), expect('DELETE ? FROM "t" WHERE "k" = 1', comma(targets))
    elif form == 'delete later':
        q, e = sp.delete_from('t').where(k=1).delete(a).delete(b), expect('DELETE ? FROM "t" WHERE "k" = 1', comma(targets))
    elif form == 'delete same as from':
        q = sp.delete(a).from_(a, b).where(k=1)
        e = expect('DELETE ? FROM ? WHERE "k" = 1', [('id', a)], comma(targets))
    elif form == 'delete none':
        q, e = sp.delete().from_(a).where(k=1), expect('DELETE FROM ? WHERE "k" = 1', [('id', a)])
    elif form == 'insert':
        q, e = sp.insert_into(a).values(k=1), expect('INSERT INTO ? ("k") VALUES (1)', [('id', a)])
    else:
        q, e = sp.insert().values(k=1).into(a), expect('INSERT INTO ? ("k") VALUES (1)', [('id', a)])
    same(ctx, q, backend, e, 'table is lost, added, altered or moved')


# ---------------------------------------------------------------- C25

EXPORT = ('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by')
PIECES = {'fields_terminated_by': 'FIELDS TERMINATED BY ?', 'lines_terminated_by': 'LINES TERMINATED BY ?',
          'optionally_enclosed_by': 'OPTIONALLY ENCLOSED BY ?'}


def h_export(ctx, backend, first, n, hi):
    sp = ctx.sp
    sp.configure(backend)
    q = sp.select_from('t')
    around = ctx.choose('around', ('', 'limit', 'lock'))
    if around == 'limit':
        q.limit(5)
    elif around == 'lock':
        q.for_update()
    last = {}
    for i in range(n):
        m = first if i == 0 else ctx.choose('m%d' % i, EXPORT)
        lo = 0 if m != 'into_outfile' else 1
        v = ctx.str('v%d' % i, lo, hi) if i == n - 1 else ctx.str('v%d' % i, lo, 1, 'plain')
        getattr(q, m)(v)
        last[m] = v
    got = tokens(render(ctx, q), backend)
    head = words('SELECT * FROM "t"') + (words('LIMIT 5') if around == 'limit' else [])
    tail = words('FOR UPDATE') if around == 'lock' else []
    if 'into_outfile' not in last:
        ctx.check(got == head + tail, 'export without a file')
        ctx.reached('no file')
        return
    head = head + words('INTO OUTFILE') + string_value(last['into_outfile'], backend)
    pieces = {m: expect(PIECES[m], string_value(last[m], backend)) for m in PIECES if m in last}
    f = pieces.get('fields_terminated_by', [])
    e = pieces.get('optionally_enclosed_by', [])
    l = pieces.get('lines_terminated_by', [])
    # as MySQL demands: FIELDS [TERMINATED BY ..] [OPTIONALLY ENCLOSED BY ..] LINES ..
    right = (f or (words('FIELDS') if e else [])) + e + l
    known = f + l + e
    body = got[len(head):len(got) - len(tail)]
    ctx.check(got[:len(head)] == head and (not tail or got[-len(tail):] == tail) and (body == right or body == known),
              'export differs from the last calls')
    if e:
        ctx.check(body == right, 'OPTIONALLY ENCLOSED BY out of its place', finding='outfile-enclosed-place')
    ctx.reached(' '.join(sorted(last)))


# ---------------------------------------------------------------- C26

WAYS = ('str', 'tosql', 'format', 'percent', 'f', 'repr', 'again')


def by(q, way):
    if way in ('str', 'again'):
        return str(q)
    if way == 'tosql':
        return q.tosql()
    if way == 'format':
        return '{}'.format(q)
    if way == 'percent':
        return '%s' % q
    if way == 'f':
        return f'{q}'
    return repr(q)


def check_ways(ctx, q):
    sql = render(ctx, q)
    for way in WAYS:
        text = by(q, way)
        if way == 'repr':
            ctx.check(text == '<' + type(q).__name__ + ': ' + sql + '>', 'repr shows another text')
        else:
            ctx.check(text == sql, 'another text by %s' % way)
    return sql


def h_chain(ctx, backend, kind, first, n):
    """Each call returns the object it was called on, so chained and separate calls build the same."""
    sp = ctx.sp
    sp.configure(backend)
    q = catalog.new(sp, kind)
    every = steps(kind, backend)
    for i in range(n):
        step = first if i == 0 else ctx.choose('step%d' % i, names_of(kind, backend))
        if step == 'expr':
            return
        try:
            back = every[step](sp, q, Vals(ctx, 's%d' % i, fixed=i > (0 if n < 3 else 1)))
        except sp.exceptions.InvalidQueryException:
            if not step.startswith('on'):
                raise
            continue
        ctx.check(back is q, 'a building method does not return the object it was called on (%s)' % step)
    check_ways(ctx, q)


SINGLE = ('max', 'avg', 'concat', 'convert', 'C', 'V', 'V int', 'R', 'exists', 'not', 'or', 'and', 'union', 'union all', 'value list', 'empty select', 'copy')


def h_ways(ctx, backend, kind):
    sp = ctx.sp
    sp.configure(backend)
    s = ctx.str('s', 1, 2)
    v = ctx.int('v')
    f = ctx.flag('f')
    if kind == 'max':
        q = sp.max(s)
        ctx.check(q.distinct(f) is q, 'distinct does not return the function')
    elif kind == 'avg':
        q = sp.avg(s) if f else sp.avg_distinct(s)
    elif kind == 'concat':
        q = sp.concat('a', sp.V(s))
    elif kind == 'convert':
        q = sp.convert(s)
        ctx.check(q.to('signed') is q, 'to() does not return the function')
    elif kind == 'C':
        q = sp.C(s)
    elif kind == 'V':
        q = sp.V(s)
    elif kind == 'V int':
        q = sp.V(v if f else None)
    elif kind == 'R':
        q = sp.R(s)
    elif kind == 'exists':
        q = sp.exists(sp.select(sp.V(s)))
    elif kind == 'not':
        q = sp.Not(a=s, b=v)
    elif kind == 'or':
        q = sp.Q(a=s) | sp.Q(b=v, c=f)
    elif kind == 'and':
        q = sp.Q(a=s) & (sp.Q(b=v) | sp.Q(c=1))
    elif kind == 'union':
        q = sp.select(sp.V(s)) | sp.select(sp.V(v)).limit(1)
    elif kind == 'union all':
        q = sp.select(sp.V(s)) & (sp.select(sp.V(v)) | sp.select('x'))
    elif kind == 'value list':
        q = sp.V([s, v, None])
    elif kind == 'empty select':
        q = sp.select()
    else:
        q = sp.select(s).where(a=v).copy()
    check_ways(ctx, q)


EDGES = {
    'select': lambda sp: sp.select_from('t').join('u'),
    'update': lambda sp: sp.update('t').set(a=1).allow_update_all(),
    'delete': lambda sp: sp.delete_from('t').allow_delete_all(),
    'insert': lambda sp: sp.insert_into('t').values(a=1),
    'Q': lambda sp: sp.Q(a=1),
    'functions': None,
}
NOTHING = (((), {}), (([],), {}), (({},), {}), ((None,), {}), (('',), {}), ((0,), {}), ((None, None), {}), ((False,), {}), ((True,), {}), ((1,), {}), ((2, 3), {}),
           ((0, 0), {}), ((1, None), {}), (('x',), {}), (('x', 'y'), {}), ((('x', 'y'),), {}), ((('x', None),), {}), ((), {'x': 1}), ((), {'x': None}), ((), {'x': 'desc'}))
SELECT_METHODS = ('columns', 'from_', 'from_table', 'from_tables', 'join', 'inner_join', 'left_join', 'right_join', 'full_join', 'on', 'where', 'having', 'group_by',
                  'order_by', 'limit', 'offset', 'into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by', 'sql_cache',
                  'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result', 'sql_buffer_result', 'sql_calc_found_rows',
                  'straight_join', 'high_priority', 'for_update')
METHODS = {
    'select': SELECT_METHODS,
    'update': ('table', 'set', 'where', 'join', 'inner_join', 'left_join', 'right_join', 'full_join', 'on', 'allow_update_all', 'forbid_update_all', 'ignore'),
    'delete': ('delete', 'from_', 'from_table', 'from_tables', 'join', 'inner_join', 'left_join', 'right_join', 'full_join', 'on', 'where', 'allow_delete_all',
               'forbid_delete_all', 'ignore'),
    'insert': ('into', 'values', 'on_duplicate_key_update', 'ignore'),
    'Q': ('where',),
}


def h_edges(ctx, backend, kind, n, part=0):
    """Whatever is passed - nothing, None, an empty collection, zero, a switch - a method which accepts it returns the object it was called on."""
    sp = ctx.sp
    sp.configure(backend)
    if kind == 'functions':
        form = ctx.choose('form', ('max', 'concat', 'convert', 'group_concat'))
        f = {'max': lambda: sp.max('a'), 'concat': lambda: sp.concat('a', 'b'), 'convert': lambda: sp.convert('a', 'signed'),
             'group_concat': lambda: sp.group_concat('a')}[form]()
        calls = {'max': ('distinct',), 'concat': ('columns',), 'convert': ('to', 'column'), 'group_concat': ('order_by', 'separator', 'columns')}[form]
        q, known = f, calls
    else:
        q, known = EDGES[kind](sp), METHODS[kind]
    for i in range(n):
        name = ctx.choose('method%d' % i, known[part::4] if i == 0 and kind == 'select' and n > 1 else known) if i == 0 or n > 2 else name
        method = getattr(q, name, None)
        if method is None:
            return
        args, kwds = ctx.choose('args%d' % i, NOTHING if n < 3 or i == 1 else NOTHING[:3])
        try:
            back = method(*args, **kwds)
        except Exception:
            continue
        ctx.check(back is q, 'a building method does not return the object it was called on (%s)' % name)
    v = ctx.int('v', 0)
    if kind == 'select':
        ctx.check(q.limit(v) is q and q.offset(v) is q, 'a building method does not return the object it was called on (limit)')
    ctx.observe(name)


def h_ways_long(ctx, backend, counts):
    """The text is whole in each way, however long it is."""
    sp = ctx.sp
    sp.configure(backend)
    s = ctx.str('s', 1, 1)
    v = ctx.int('v')
    kind = ctx.choose('kind', ('columns', 'where', 'values', 'name', 'text', 'in'))
    k = ctx.choose('count', harvest.counts(SRC, list(counts) + [1000, 5000], 20000) if kind == 'text' else counts)
    if kind == 'columns':
        q = sp.select(*['c%d' % i for i in range(k)]).columns(s)
    elif kind == 'where':
        q = sp.update('t').set(a=s)
        for i in range(k):
            q.where('c', i)
    elif kind == 'values':
        q = sp.insert_into('t')
        for i in range(k):
            q.values(a=i, b=s)
    elif kind == 'name':
        q = sp.select(s).from_('n' * k)
    elif kind == 'text':
        q = sp.delete_from('t').where(a=s, b='x' * k)
    else:
        q = sp.Q(a=[v] + ['y'] * k)
    check_ways(ctx, q)
