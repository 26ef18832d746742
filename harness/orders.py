"""C12 (ORDER BY, GROUP BY), C13 (LIMIT, OFFSET), C14 (options)."""
from .base import *

BOUNDS = {
    'C12': ['3 items (thorough: 4) with columns of 1 ordinary symbolic character or unbounded symbolic ints as positions, each '
            'ascending, descending or without direction, given by calls, arguments, tuples, lists or dictionaries to ORDER BY, '
            'GROUP BY and the ORDER BY of GROUP_CONCAT',
            'directions written in every combination of letter case',
            'up to 40 items (and every integer constant of the source, +1, up to 300)'],
    'C13': ['histories of 3 calls (thorough: 5) of limit and offset with unbounded non-negative symbolic ints or None, in any order'],
    'C14': ['histories of 3 calls (thorough: 4) of the 12 options of SELECT with an unbounded symbolic int, True or False as switch; '
            'IGNORE of INSERT, UPDATE and DELETE; all four databases'],
}
ASSUMPTIONS = {
    'C12': ['ascending direction may be left out of the text', 'a column written once with and once without quotes is outside the claim'],
    'C13': ['negative numbers are outside the claim'],
    'C14': ['the order of the options is free', 'switching off an option while an alternative to it (DISTINCT and ALL, SQL_CACHE and '
            'SQL_NO_CACHE) is on is outside the claim'],
}


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'C12':
        for clause in ('order', 'group', 'concat'):
            for b in (('sql', 'mysql', 'postgresql', 'sqlite') if deep else ('mysql',)):
                for first in DIRS:
                    out.append((prop, 'h_order', {'clause': clause, 'backend': b, 'n': 4 if deep else 3, 'first': list(first)},
                                1200 if deep else 60))
            for style in STYLES:
                out.append((prop, 'h_style', {'clause': clause, 'style': style}, 60))
            out.append((prop, 'h_case', {'clause': clause}, 60))
            out.append((prop, 'h_order_many', {'clause': clause, 'counts': harvest.counts(SRC, (1, 3, 12, 40), 300)}, 60))
            out.append((prop, 'h_order_names', {'clause': clause, 'hi': 3 if deep else 2}, 300 if deep else 60))
            out.append((prop, 'h_order_ints', {'clause': clause, 'n': 3 if deep else 2}, 60))
        out.append((prop, 'h_both', {}, 60))
    elif prop == 'C13':
        for b in BACKENDS:
            for first in CALLS:
                out.append((prop, 'h_limit', {'backend': b, 'n': 5 if deep else (3 if b != 'sql' else 4), 'first': first}, 900 if deep else 60))
    else:
        for b in BACKENDS:
            for first in OPTIONS:
                out.append((prop, 'h_options', {'backend': b, 'first': first, 'n': 4 if deep else (3 if b == 'mysql' else 2)},
                            900 if deep else 60))
            for st in ('insert', 'update', 'delete'):
                out.append((prop, 'h_ignore', {'backend': b, 'statement': st}, 60))
        out.append((prop, 'h_all_options', {}, 60))
    return out


# ---------------------------------------------------------------- C12

DIRS = ((), ('asc',), ('DESC',), (None,))
STYLES = ('args', 'tuples', 'lists', 'dict', 'kwds', 'calls')


def start(sp, clause):
    """-> (query, method)"""
    if clause == 'concat':
        g = sp.group_concat('z')
        return sp.select(g).from_('t'), g.order_by
    q = sp.select('z').from_('t')
    return q, (q.order_by if clause == 'order' else q.group_by)


SHAPE = {'order': 'SELECT "z" FROM "t" ORDER BY ?', 'group': 'SELECT "z" FROM "t" GROUP BY ?',
         'concat': 'SELECT GROUP_CONCAT("z" ORDER BY ?) FROM "t"'}


def record(model, column, direction):
    desc = direction is not None and direction.upper() == 'DESC'
    for item in model:
        if item[0] == column:
            item[1] = desc
            return
    model.append([column, desc])


def check_order(ctx, q, clause, backend, model):
    got = tokens(render(ctx, q), backend)
    # an explicit ASC says the same as nothing
    got = [t for t in got if t != ('word', 'ASC')]
    want = comma([[c] + ([('word', 'DESC')] if d else []) for c, d in model])
    ctx.check(got == expect(SHAPE[clause], want), 'sort item is lost, altered or moved')


def h_order(ctx, clause, backend, n, first):
    sp = ctx.sp
    sp.configure(backend)
    q, method = start(sp, clause)
    model = []
    for i in range(n):
        c = ctx.str('c%d' % i, 1, 1, 'plain')
        d = tuple(first) if i == 0 else ctx.choose('d%d' % i, DIRS)
        if d:
            method((c, d[0]))
        else:
            method(c)
        record(model, ('id', c), d[0] if d else None)
    check_order(ctx, q, clause, backend, model)


def h_style(ctx, clause, style):
    sp = ctx.sp
    sp.configure('sql')
    q, method = start(sp, clause)
    c, d = ctx.str('c', 1, 2, 'plain'), ctx.str('d', 1, 2, 'plain')
    x, y = ctx.choose('x', ('asc', 'desc', None)), ctx.choose('y', ('ASC', 'DESC', None))
    if style == 'args':
        method(c, (d, y))
        x = None
    elif style == 'tuples':
        method((c, x), (d, y))
    elif style == 'lists':
        method([c, x], [d, y])
    elif style == 'calls':
        method((c, x))
        method((d, y))
    elif clause == 'concat' and style == 'kwds':
        return
    else:
        ctx.assume(c != d)
        if style == 'dict':
            method({d: y, c: x})
        else:
            method(**{d: y, c: x})
        if not c < d:
            # dictionaries come sorted or in their order; only the content is claimed here
            c, d, x, y = d, c, y, x
        got = [t for t in tokens(render(ctx, q), 'sql') if t != ('word', 'ASC')]
        pieces = [[('id', n)] + ([('word', 'DESC')] if s and s.upper() == 'DESC' else []) for n, s in ((c, x), (d, y))]
        ctx.check(got in (expect(SHAPE[clause], comma(pieces)), expect(SHAPE[clause], comma(pieces[::-1]))),
                  'sort item is lost or altered')
        return
    model = []
    record(model, ('id', c), x)
    record(model, ('id', d), y)
    check_order(ctx, q, clause, 'sql', model)


def h_case(ctx, clause):
    """The direction is recognised in any letter case."""
    sp = ctx.sp
    sp.configure('sql')
    q, method = start(sp, clause)
    word = ctx.choose('word', ('asc', 'desc'))
    d = ''.join(ch.upper() if ctx.flag('up%d' % i) else ch for i, ch in enumerate(word))
    c = ctx.str('c', 1, 2, 'plain')
    method((c, d))
    model = []
    record(model, ('id', c), d)
    check_order(ctx, q, clause, 'sql', model)


def h_order_many(ctx, clause, counts):
    sp = ctx.sp
    sp.configure('mysql')
    q, method = start(sp, clause)
    n = ctx.choose('n', counts)
    style = ctx.choose('style', ('calls', 'args', 'one direction'))
    c = ctx.str('c', 1, 1, 'plain')
    items = [(c + 'x%d' % i, 'desc' if i % 3 == 0 or style == 'one direction' else 'asc') for i in range(n)]
    if style == 'calls':
        for it in items:
            method(it)
    else:
        method(*items)
    model = []
    for name_, d in items:
        record(model, ('id', name_), d)
    again = ctx.choose('again', ('no', 'first', 'middle', 'last', 'all'))
    for i in {'no': (), 'first': (0,), 'middle': (n // 2,), 'last': (n - 1,), 'all': range(n)}[again]:
        method((items[i][0], 'asc' if items[i][1] == 'desc' else 'desc'))
        record(model, ('id', items[i][0]), 'asc' if items[i][1] == 'desc' else 'desc')
    check_order(ctx, q, clause, 'mysql', model)


NAMED = ((32, 33), (35, 41), (43, 45), (47, 95), (97, 126), (0xe0, 0xff))


def h_order_names(ctx, clause, hi):
    """Two names which may differ in any character."""
    sp = ctx.sp
    sp.configure('sql')
    q, method = start(sp, clause)
    model = []
    for i in range(2):
        c = ctx.str('c%d' % i, 1, hi, NAMED)
        d = ctx.choose('d%d' % i, ('asc', 'desc'))
        method((c, d))
        record(model, ('id', c), d)
    check_order(ctx, q, clause, 'sql', model)


def h_order_ints(ctx, clause, n):
    """Positions of columns; a number and a column of the same text are different."""
    sp = ctx.sp
    sp.configure('sql')
    q, method = start(sp, clause)
    model = []
    for i in range(n):
        kind = ctx.choose('kind%d' % i, ('int', 'str', 'fixed', 'fixed text'))
        d = ctx.choose('d%d' % i, (None, 'desc'))
        if kind == 'int':
            c = ctx.int('v%d' % i, 0)
        elif kind == 'str':
            c = ctx.str('c%d' % i, 1, 1, 'plain')
        else:
            c = 1 if kind == 'fixed' else '1'
        method((c, d))
        record(model, ('num', str(c)) if isinstance(c, int) else ('id', c), d)
    check_order(ctx, q, clause, 'sql', model)


def h_both(ctx):
    """ORDER BY, GROUP BY and the order of GROUP_CONCAT do not influence each other."""
    sp = ctx.sp
    sp.configure('mysql')
    g = sp.group_concat('z')
    q = sp.select(g).from_('t')
    models = {'order': [], 'group': [], 'concat': []}
    methods = {'order': q.order_by, 'group': q.group_by, 'concat': g.order_by}
    for i in range(3):
        which = ctx.choose('which%d' % i, ('order', 'group', 'concat'))
        c = ctx.choose('c%d' % i, ('a', 'b'))
        d = ctx.choose('d%d' % i, ('asc', 'desc'))
        methods[which]((c, d))
        record(models[which], ('id', c), d)
    got = [t for t in tokens(render(ctx, q), 'mysql') if t != ('word', 'ASC')]

    def part(which, head):
        m = models[which]
        return words(head) + comma([[c] + ([('word', 'DESC')] if d else []) for c, d in m]) if m else []
    ctx.check(got == expect('SELECT GROUP_CONCAT("z" ?) FROM "t" ? ?', part('concat', 'ORDER BY'), part('group', 'GROUP BY'),
                            part('order', 'ORDER BY')), 'sort item is lost or in another clause')


# ---------------------------------------------------------------- C13

CALLS = ('limit', 'limit offset', 'limit none', 'offset', 'offset none', 'limit kw')


def h_limit(ctx, backend, n, first):
    sp = ctx.sp
    sp.configure(backend)
    q = sp.select_from('t')
    limit = offset = None
    for i in range(n):
        call = first if i == 0 else ctx.choose('call%d' % i, CALLS)
        a = ctx.int('a%d' % i, 0) if call.startswith('limit') and call != 'limit none' or call == 'offset' else None
        if call == 'limit':
            q.limit(a)
            limit = a
        elif call in ('limit offset', 'limit kw'):
            b = ctx.int('b%d' % i, 0)
            if call == 'limit kw':
                q.limit(limit=a, offset=b)
            else:
                q.limit(a, b)
            limit, offset = a, b
        elif call == 'limit none':
            q.limit(None)
            limit = offset = None
        elif call == 'offset':
            q.offset(a)
            offset = a
        else:
            q.offset(None)
            offset = None
    got = tokens(render(ctx, q), backend)
    want = words('SELECT * FROM "t"')
    if limit is not None:
        want = want + words('LIMIT') + num(limit)
    if offset is not None and offset != 0:
        want = want + words('OFFSET') + num(offset)
    ctx.check(got == want, 'LIMIT or OFFSET is wrong')


# ---------------------------------------------------------------- C14

OPTIONS = ('sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result', 'sql_buffer_result',
           'sql_calc_found_rows', 'straight_join', 'high_priority', 'for_update')
GROUPS = ({'sql_cache', 'sql_no_cache'}, {'all', 'distinct', 'distinctrow'})


def siblings(option):
    for g in GROUPS:
        if option in g:
            return g - {option}
    return set()


def switch(ctx, label, more=True):
    """-> (arguments, is it on)"""
    kind = ctx.choose(label, ('none', 'True', 'False', 'int', 'kw') + (('other',) if more else ()))
    if kind == 'none':
        return (), {}, True
    if kind == 'int':
        v = ctx.int(label + '.v')
        return (v,), {}, v != 0
    if kind == 'other':
        v = ctx.choose(label + '.o', (None, '', 'x', [], 0.5))
        return (v,), {}, bool(v)
    if kind == 'kw':
        v = ctx.flag(label + '.f')
        return (), {'allow': v}, v
    return (kind == 'True',), {}, kind == 'True'


def check_options(ctx, q, backend, on):
    got = tokens(render(ctx, q), backend)
    tail = words('"a" FROM "t"') + (words('FOR UPDATE') if 'for_update' in on else [])
    ctx.check(got[:1] == [('word', 'SELECT')] and got[-len(tail):] == tail, 'SELECT is malformed')
    options = got[1:-len(tail)]
    want = [('word', o.upper()) for o in OPTIONS if o in on and o != 'for_update']
    ctx.check(sorted(options) == sorted(want), 'options are wrong')


def h_options(ctx, backend, first, n):
    sp = ctx.sp
    sp.configure(backend)
    q = sp.select('a').from_('t')
    on = set()
    for i in range(n):
        o = first if i == 0 else ctx.choose('o%d' % i, OPTIONS)
        if n == 2:
            args, kwds, state = switch(ctx, 's%d' % i, i == n - 1)
        elif i == n - 1:
            v = ctx.int('v')
            args, kwds, state = (v,), {}, v != 0
        else:
            state = ctx.flag('s%d' % i)
            args, kwds = (() if state else (False,)), {}
        ctx.assume(state or not siblings(o) & on)
        getattr(q, o)(*args, **kwds)
        on.discard(o)
        if state:
            on -= siblings(o)
            on.add(o)
    check_options(ctx, q, backend, on)


def h_all_options(ctx):
    """Every combination of options at once."""
    sp = ctx.sp
    sp.configure('mysql')
    q = sp.select('a').from_('t')
    on = set()
    for label, group in (('cache', ('sql_cache', 'sql_no_cache')), ('dup', ('all', 'distinct', 'distinctrow'))):
        o = ctx.choose(label, (None,) + group)
        if o:
            getattr(q, o)()
            on.add(o)
    for o in OPTIONS[5:]:
        if ctx.flag(o):
            getattr(q, o)()
            on.add(o)
    check_options(ctx, q, 'mysql', on)


def h_ignore(ctx, backend, statement):
    sp = ctx.sp
    sp.configure(backend)
    v = ctx.int('v')
    if statement == 'insert':
        q, shape = sp.insert_into('t').values(a=v), 'INSERT ? INTO "t" ("a") VALUES (?)'
    elif statement == 'update':
        q, shape = sp.update('t').set(a=v).where(b=1), 'UPDATE ? "t" SET "a" = ? WHERE "b" = 1'
    else:
        q, shape = sp.delete_from('t').where(a=v), 'DELETE ? FROM "t" WHERE "a" = ?'
    on = False
    for i in range(3):
        if ctx.flag('call%d' % i):
            args, kwds, on = switch(ctx, 's%d' % i, i == 2)
            q.ignore(*args, **kwds)
    same(ctx, q, backend, expect(shape, words('IGNORE') if on else [], num(v)), 'option IGNORE is wrong')
