"""C10 (ways to pass arguments are equivalent) and C22 (unusable arguments are refused)."""
import collections
import datetime
import decimal

from symx import logic

from .base import *

BOUNDS = {
    'C10': ['up to 3 pairs; names of one letter (symbolic, so in every order and possibly repeated) or fixed; values '
            'unbounded symbolic int, None or string; 12 methods; kwds, dict, OrderedDict, pairs, list of pairs, separate calls and their mixtures',
            'dictionaries in every insertion order of up to 4 fixed keys; 30 pairs at once'],
    'C22': ['every argument position against a pool of 20 values of unsupported types; tuples of 0-5 items',
            'refused calls: 20 methods with a bad argument alone, first, in the middle or last, in pairs, lists, dictionaries, named or beside Q; names of 4, symbolic values'],
}
ASSUMPTIONS = {
    'C10': ['keys of one dictionary are strings', 'an argument named self cannot be passed to a method in Python'],
    'C22': ['None or empty text, list or dictionary as table are ignored by design, count() of a false value is COUNT(*); arguments offering tosql() are taken as SQL; '
            'subclasses of supported types and objects imitating them are outside the claim'],
}


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'C10':
        for m in METHODS:
            out.append((prop, 'h_styles', {'method': m, 'n': 2 if not deep else 3}, 600 if deep else 60))
            out.append((prop, 'h_symbolic', {'method': m}, 60))
            out.append((prop, 'h_order', {'method': m}, 60))
            out.append((prop, 'h_both', {'method': m}, 60))
            out.append((prop, 'h_many', {'method': m, 'counts': harvest.counts(SRC, (1, 4, 12, 30), 300)}, 60))
            out.append((prop, 'h_keywords', {'method': m, 'names': [x for x in harvest.parameters(SRC) + KEYWORDS if x not in ('self', 'sp')]}, 60))
        out.append((prop, 'h_singles', {}, 60))
        out.append((prop, 'h_single_mix', {}, 60))
        out.append((prop, 'h_tables', {}, 60))
        out.append((prop, 'h_joins', {}, 60))
        out.append((prop, 'h_entry', {}, 60))
    else:
        for place in BAD:
            out.append((prop, 'h_bad', {'place': place}, 60))
        for m in METHODS:
            out.append((prop, 'h_tuples', {'method': m}, 60))
        out.append((prop, 'h_relation_types', {}, 60))
        out.append((prop, 'h_values', {}, 60))
        out.append((prop, 'h_misc', {}, 60))
        for kind, method, sort in STAYS:
            out.append((prop, 'h_stays', {'kind': kind, 'method': method, 'sort': sort}, 60))
        out.append((prop, 'h_still_usable', {}, 60))
    return out


def sep(method):
    return ('word', 'AND') if method in ('where', 'having', 'on', 'Q', 'Not', 'update_where', 'delete_where') else ('op', ',')


# method -> (database, callable taking arguments -> query, clause in front of the pairs, relation between the two halves)
METHODS = {
    'where': ('sql', lambda sp, *a, **k: sp.select_from('t').where(*a, **k), 'SELECT * FROM "t" WHERE'),
    'having': ('sql', lambda sp, *a, **k: sp.select_from('t').having(*a, **k), 'SELECT * FROM "t" HAVING'),
    'on': ('sql', lambda sp, *a, **k: sp.select_from('t').join('u').on(*a, **k), 'SELECT * FROM "t" JOIN "u" ON'),
    'Q': ('sql', lambda sp, *a, **k: sp.select_from('t').where(sp.Q(*a, **k)), 'SELECT * FROM "t" WHERE'),
    'update_where': ('sql', lambda sp, *a, **k: sp.update('t').set(s=1).where(*a, **k), 'UPDATE "t" SET "s" = 1 WHERE'),
    'delete_where': ('sql', lambda sp, *a, **k: sp.delete_from('t').where(*a, **k), 'DELETE FROM "t" WHERE'),
    'set': ('sql', lambda sp, *a, **k: sp.update('t').set(*a, **k).allow_update_all(), 'UPDATE "t" SET'),
    'upsert': ('mysql', lambda sp, *a, **k: sp.insert_into('t').values(i=1).on_duplicate_key_update(*a, **k),
               'INSERT INTO "t" ("i") VALUES (1) ON DUPLICATE KEY UPDATE'),
    'columns': ('sql', lambda sp, *a, **k: sp.select(*a, **k), 'SELECT'),
    'columns_method': ('sql', lambda sp, *a, **k: sp.select().columns(*a, **k), 'SELECT'),
    'from_': ('sql', lambda sp, *a, **k: sp.select('x').from_(*a, **k), 'SELECT "x" FROM'),
    'from_tables': ('sql', lambda sp, *a, **k: sp.select('x').from_tables(*a, **k), 'SELECT "x" FROM'),
    'delete_from': ('sql', lambda sp, *a, **k: sp.delete_from(*a, **k).allow_delete_all(), 'DELETE FROM'),
    'order_by': ('sql', lambda sp, *a, **k: sp.select_from('t').order_by(*a, **k), 'SELECT * FROM "t" ORDER BY'),
    'group_by': ('sql', lambda sp, *a, **k: sp.select_from('t').group_by(*a, **k), 'SELECT * FROM "t" GROUP BY'),
}
ALIAS = ('columns', 'columns_method', 'from_', 'from_tables', 'delete_from')
ORDER = ('order_by', 'group_by')
PAIR_ONLY = ('where', 'having', 'on', 'Q', 'update_where', 'delete_where', 'set', 'upsert')


def second(ctx, method, label):
    """A value for the second half of a pair, and what has to follow the name."""
    if method in ALIAS:
        v = ctx.choose(label, ('x', 'y', None))
        return v, ([('word', 'AS'), ('id', v)] if v else [])
    if method in ORDER:
        v = ctx.choose(label, ('asc', 'desc', 'DESC', None))
        return v, ([('word', 'DESC')] if v in ('desc', 'DESC') else [])
    v = ctx.int(label)
    return v, [('op', '='), ('num', str(v))]


def pieces(ctx, method, query):
    dialect, _, head = METHODS[method]
    toks = tokens(render(ctx, query), dialect)
    head = words(head)
    ctx.check(toks[:len(head)] == head, 'statement is malformed')
    return logic.split(toks[len(head):], sep(method))


def unique(items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return out


def by_name(pairs):
    return sorted(pairs, key=lambda p: p[0])


def styles_for(method, n):
    out = ['kwds', 'dict', 'ordered', 'pairs', 'calls']
    if method in PAIR_ONLY:
        out.append('list')
        if n == 1:
            out.append('two')
            out.remove('pairs')
    return tuple(out)


def call(sp, method, pairs, style):
    fn = METHODS[method][1]
    if style == 'kwds':
        return fn(sp, **dict(pairs))
    if style == 'dict':
        return fn(sp, dict(pairs))
    if style == 'ordered':
        return fn(sp, collections.OrderedDict(pairs))
    if style == 'list':
        return fn(sp, [tuple(p) for p in pairs])
    if style == 'two':
        return fn(sp, pairs[0][0], pairs[0][1])
    if style == 'calls':
        q = fn(sp, dict(pairs[:1]))
        for p in pairs[1:]:
            again(sp, method, q, p)
        return q
    return fn(sp, *[tuple(p) for p in pairs])


def again(sp, method, q, pair):
    if method in ('where', 'update_where', 'delete_where'):
        q.where({pair[0]: pair[1]})
    elif method == 'having':
        q.having({pair[0]: pair[1]})
    elif method == 'on':
        q.on({pair[0]: pair[1]})
    elif method == 'Q':
        q.where(sp.Q({pair[0]: pair[1]}))
    elif method == 'set':
        q.set({pair[0]: pair[1]})
    elif method == 'upsert':
        q.on_duplicate_key_update({pair[0]: pair[1]})
    elif method in ('columns', 'columns_method'):
        q.columns(pair)
    elif method in ('from_', 'from_tables', 'delete_from'):
        q.from_(pair)
    elif method == 'order_by':
        q.order_by(pair)
    else:
        q.group_by(pair)


def prepared(ctx, sp, method, pairs):
    if method in ('columns', 'columns_method', 'from_', 'from_tables', 'delete_from', 'order_by', 'group_by'):
        return pairs
    return pairs


def h_styles(ctx, method, n):
    """Distinct names: every style gives the same pairs; the order is that of the call, or by name for dictionaries."""
    sp = ctx.sp
    sp.configure(METHODS[method][0])
    k = ctx.choose('n', tuple(range(1, n + 1)))
    names = ctx.choose('names', (('a', 'b', 'c'), ('c', 'a', 'b'), ('b', 'B', 'a_'), ('a.b', 'a', '_')))[:k]
    pairs, exp = [], []
    for i, x in enumerate(names):
        v, t = second(ctx, method, 'v%d' % i)
        pairs.append((x, v))
        exp.append((x, name(x) + t))
    style = ctx.choose('style', styles_for(method, k))
    got = pieces(ctx, method, call(sp, method, pairs, style))
    if style in ('kwds', 'dict'):
        exp = by_name(exp)
    ctx.check(got == [t for _, t in exp], 'arguments are lost, altered or reordered (%s)' % style)
    ctx.reached(style)


def h_symbolic(ctx, method):
    """Names with symbolic letters: dictionaries come out sorted by name, pairs in the order given."""
    sp = ctx.sp
    sp.configure(METHODS[method][0])
    a, b = ctx.str('a', 1, 2, 'letter'), ctx.str('b', 1, 1, 'letter')
    va, ta = second(ctx, method, 'va')
    vb, tb = second(ctx, method, 'vb')
    ctx.assume(a != b)
    style = ctx.choose('style', ('dict', 'kwds', 'pairs', 'ordered'))
    if style == 'dict':
        q = METHODS[method][1](sp, {a: va, b: vb})
    elif style == 'kwds':
        q = METHODS[method][1](sp, **{a: va, b: vb})
    elif style == 'ordered':
        q = METHODS[method][1](sp, collections.OrderedDict([(a, va), (b, vb)]))
    else:
        q = METHODS[method][1](sp, (a, va), (b, vb))
    exp = [[('id', a)] + ta, [('id', b)] + tb]
    if style in ('dict', 'kwds') and b < a:
        exp.reverse()
    ctx.check(pieces(ctx, method, q) == exp, 'arguments are lost, altered or reordered (%s)' % style)


def h_order(ctx, method):
    """The insertion order of a dictionary does not matter."""
    sp = ctx.sp
    sp.configure(METHODS[method][0])
    left = ['d', 'a', 'c', 'b']
    order = []
    while left:
        x = ctx.choose('next%d' % len(left), left)
        order.append(x)
        left = [y for y in left if y != x]
    second_half = {'a': 'x', 'b': 'y', 'c': 'z', 'd': 'w'} if method in ALIAS else \
        {'a': 'asc', 'b': 'desc', 'c': 'asc', 'd': 'desc'} if method in ORDER else {'a': 1, 'b': 2, 'c': 3, 'd': 4}
    pairs = [(x, second_half[x]) for x in order]
    style = ctx.choose('style', ('dict', 'kwds'))
    got = render(ctx, call(sp, method, pairs, style))
    want = render(ctx, call(sp, method, sorted(pairs), style))
    ctx.check(got == want, 'insertion order of a dictionary changes the query')


def h_both(ctx, method):
    """Positional and named arguments in one call: nothing is dropped."""
    sp = ctx.sp
    sp.configure(METHODS[method][0])
    fn = METHODS[method][1]
    va, ta = second(ctx, method, 'va')
    vb, tb = second(ctx, method, 'vb')
    style = ctx.choose('style', ('dict', 'pairs', 'ordered', 'list', 'two'))
    if method not in PAIR_ONLY and style in ('list', 'two'):
        style = 'pairs'
    if style == 'dict':
        q = fn(sp, {'a': va}, b=vb)
    elif style == 'ordered':
        q = fn(sp, collections.OrderedDict([('a', va)]), b=vb)
    elif style == 'list' or method in PAIR_ONLY and style == 'pairs':
        q = fn(sp, [('a', va)], b=vb)
    elif style == 'two':
        q = fn(sp, 'a', va, b=vb)
    else:
        q = fn(sp, ('a', va), b=vb)
    got = pieces(ctx, method, q)
    want = [words('"a"') + ta, words('"b"') + tb]
    ctx.check(len(got) == 2 and all(x in got for x in want), 'arguments of a mixed call are lost or altered (%s)' % style)


def h_many(ctx, method, counts):
    sp = ctx.sp
    sp.configure(METHODS[method][0])
    n = ctx.choose('n', counts)
    style = ctx.choose('style', styles_for(method, n))
    v = 'x' if method in ALIAS else 'desc' if method in ORDER else 5
    t = words('AS "x"') if method in ALIAS else words('DESC') if method in ORDER else words('= 5')
    pairs = [('c%05d' % i, v) for i in range(n)]
    given = pairs
    if style in ('dict', 'kwds') and n > 1:
        # in which order a dictionary was filled does not matter
        turn = ctx.choose('filled', ('up', 'down', 'from the middle'))
        given = pairs[::-1] if turn == 'down' else pairs[n // 2:] + pairs[:n // 2] if turn == 'from the middle' else pairs
    got = pieces(ctx, method, call(sp, method, given, style))
    ctx.check(got == [[('id', c)] + t for c, _ in pairs], 'some of many arguments are lost, altered or reordered')


KEYWORDS = ['from', 'class', 'None', 'limit', 'order', 'a b', 'a.b', '*', 'format', 'key', 'keys', 'items', 'dict', 'list', 'default', 'alias', 'name', 'x-y', '1']


def h_keywords(ctx, method, names):
    """Named arguments whose names mean something to Python or to the library."""
    sp = ctx.sp
    sp.configure(METHODS[method][0])
    n = ctx.choose('name', names)
    other = ctx.str('other', 1, 1, 'plain')
    ctx.assume(other != n)
    form = ctx.choose('form', ('alone', 'beside', 'with pair', 'with dict'))
    if method == 'upsert' and form == 'with pair':
        return
    v, t = second(ctx, method, 'v')
    if form == 'alone':
        args, kwds = (), {n: v}
    elif form == 'beside':
        args, kwds = (), {n: v, other: v}
    elif form == 'with pair':
        args, kwds = ([(other, v)] if method in PAIR_ONLY else (other, v),), {n: v}
    else:
        args, kwds = ({other: v},), {n: v}
    got = pieces(ctx, method, METHODS[method][1](sp, *args, **kwds))
    want = [name(n) + t] + ([[('id', other)] + t] if form != 'alone' else [])
    ctx.check(len(got) == len(want) and all(x in got for x in want), 'named argument is lost or altered')


def h_singles(ctx):
    """Plain names, and names next to pairs."""
    sp = ctx.sp
    method = ctx.choose('method', ALIAS + ORDER)
    sp.configure(METHODS[method][0])
    fn = METHODS[method][1]
    a, b = ctx.str('a', 1, 1, 'plain'), ctx.str('b', 1, 2, 'plain')
    ctx.assume(a != b)
    form = ctx.choose('form', ('two', 'pair first', 'pair second', 'one-tuple', 'list'))
    v, t = second(ctx, method, 'v')
    ta, tb = [('id', a)], [('id', b)]
    if form == 'two':
        q, e = fn(sp, a, b), [ta, tb]
    elif form == 'pair first':
        q, e = fn(sp, (a, v), b), [ta + t, tb]
    elif form == 'pair second':
        q, e = fn(sp, a, (b, v)), [ta, tb + t]
    elif form == 'one-tuple':
        q, e = fn(sp, (a,), b), [ta, tb]
    else:
        q, e = fn(sp, [a, v], (b, v)), [ta + t, tb + t]
    ctx.check(pieces(ctx, method, q) == e, 'arguments are lost, altered or reordered (%s)' % form)


def h_single_mix(ctx):
    """Names together with named arguments."""
    sp = ctx.sp
    method = ctx.choose('method', ALIAS + ORDER)
    sp.configure(METHODS[method][0])
    fn = METHODS[method][1]
    v, t = second(ctx, method, 'v')
    w, u = second(ctx, method, 'w')
    form = ctx.choose('form', ('one', 'two', 'pair'))
    if form == 'one':
        q, e = fn(sp, 'k', b=v), ['"k"']
    elif form == 'two':
        q, e = fn(sp, 'k', 'l', b=v), ['"k"', '"l"']
    else:
        q, e = fn(sp, 'k', ('l', None), b=v), ['"k"', '"l"']
    e = [words(x) for x in e] + [words('"b"') + t]
    ctx.check(pieces(ctx, method, q) == e, 'arguments of a mixed call are lost, altered or reordered (%s)' % form)


def h_tables(ctx):
    """Ways to give a table with an alias."""
    sp = ctx.sp
    sp.configure('sql')
    a = ctx.str('a', 1, 2, 'plain')
    alias = ctx.choose('alias', ('x', None))
    t = [('id', a)] + (words('AS "x"') if alias else [])
    kind = ctx.choose('kind', ('select', 'delete'))
    form = ctx.choose('form', ('from_', 'from_table', 'from_tables', 'dict', 'select_from', 'kwds'))
    if kind == 'select':
        q = sp.select('c')
        head = 'SELECT "c" FROM'
    else:
        q = sp.delete().allow_delete_all()
        head = 'DELETE FROM'
    if form == 'from_':
        q.from_((a, alias))
    elif form == 'from_table':
        if alias is None and ctx.flag('default'):
            q.from_table(a)
        else:
            q.from_table(a, alias)
    elif form == 'from_tables':
        q.from_tables((a, alias))
    elif form == 'dict':
        q.from_({a: alias})
    elif form == 'kwds':
        q.from_(**{a: alias})
    else:
        q = sp.select_from((a, alias)) if kind == 'select' else sp.delete_from((a, alias)).allow_delete_all()
        head = head.replace('"c"', '*')
    same(ctx, q, 'sql', words(head) + t, 'table or its alias is altered (%s)' % form)


def h_joins(ctx):
    sp = ctx.sp
    sp.configure('postgresql')
    a = ctx.str('a', 1, 2, 'plain')
    alias = ctx.choose('alias', ('x', None))
    kind, text = ctx.choose('kind', (('join', 'JOIN'), ('inner_join', 'JOIN'), ('left_join', 'LEFT JOIN'),
                                     ('right_join', 'RIGHT JOIN'), ('full_join', 'FULL JOIN')))
    form = ctx.choose('form', ('tuple', 'list', 'dict', 'name'))
    arg = (a, alias) if form == 'tuple' else [a, alias] if form == 'list' else {a: alias} if form == 'dict' else a
    q = sp.select_from('t')
    getattr(q, kind)(arg)
    t = [('id', a)] + (words('AS "x"') if alias and form != 'name' else [])
    same(ctx, q, 'postgresql', words('SELECT * FROM "t" ' + text) + t, 'joined table or its alias is altered (%s)' % form)


def h_entry(ctx):
    """Shortcut functions are the long forms."""
    sp = ctx.sp
    sp.configure('sql')
    n = ctx.str('n', 1, 1)
    v = ctx.int('v')
    kind = ctx.choose('kind', ('select', 'select_from', 'insert', 'delete', 'update', 'delete tables', 'Q', 'count', 'V', 'C', 'R'))
    if kind == 'select':
        a, b = sp.select(n, x='y'), sp.select().columns(n).columns(x='y')
    elif kind == 'select_from':
        a, b = sp.select_from(n, x='y'), sp.select().from_(n).from_(x='y')
    elif kind == 'insert':
        a, b = sp.insert_into(n).values(c=v), sp.insert().into(n).values(('c', v), ('c', v))
    elif kind == 'delete':
        a, b = sp.delete_from(n, x='y').where(c=v), sp.delete().from_(n, x='y').where(c=v)
    elif kind == 'delete tables':
        a, b = sp.delete(n).from_('t').where(c=v), sp.delete().delete(n).from_('t').where(c=v)
    elif kind == 'update':
        a, b = sp.update(n).set(c=v).where(c=v), sp.update(None).table(n).set(c=v).where(c=v)
    elif kind == 'Q':
        a, b = sp.select_from('t').where(sp.Q(n, v)), sp.select_from('t').where(n, v)
    elif kind == 'count':
        a, b = sp.select(sp.count_distinct(n)), sp.select(sp.count(n).distinct())
    elif kind == 'V':
        a, b = sp.select(sp.V(n)), sp.select(sp.sqlvalue(n))
    elif kind == 'C':
        a, b = sp.select(sp.C(n)), sp.select(sp.customsql(n))
    else:
        a, b = sp.select(sp.R(n)), sp.select(sp.sqlreference(n))
    ctx.check(render(ctx, a) == render(ctx, b), 'shortcut differs from the long form (%s)' % kind)


# ---------------------------------------------------------------- C22

class Thing:
    pass


def bad_pool():
    return {
        'object': Thing(), 'class': Thing, 'dict': {'a': 1}, 'set': {1}, 'frozenset': frozenset([1]), 'bytes': b'x', 'bytearray': bytearray(b'x'),
        'complex': 1j, 'time': datetime.time(1, 2), 'timedelta': datetime.timedelta(1), 'function': bad_pool,
        'list': ['a'], 'tuple': ('a', 'b', 'c'), 'true': True, 'false': False, 'float': 1.5, 'decimal': decimal.Decimal('1'),
        'date': datetime.date(2012, 5, 25), 'int': 5, 'none': None, 'str': 'x', 'range': range(2), 'ellipsis': ..., 'zero': 0,
        'empty set': set(), 'empty frozenset': frozenset(), 'empty bytes': b'', 'empty bytearray': bytearray(), 'empty complex': 0j,
        'empty timedelta': datetime.timedelta(0), 'empty time': datetime.time(0), 'empty float': 0.0, 'empty decimal': decimal.Decimal(0), 'empty range': range(0),
    }


def with_empty(kinds):
    """Also values of the same types which are false."""
    return tuple(kinds) + tuple('empty ' + k for k in kinds if 'empty ' + k in bad_pool())


# place -> (call, kinds of values that are refused)
NAMELIKE = ('object', 'class', 'set', 'frozenset', 'bytes', 'bytearray', 'complex', 'time', 'timedelta', 'function', 'true',
            'false', 'float', 'decimal', 'date', 'range', 'ellipsis')
BAD = {
    'column': (lambda sp, x: sp.select(x), NAMELIKE + ('none',)),
    'second column': (lambda sp, x: sp.select('a', x), NAMELIKE + ('none',)),
    'column in pair': (lambda sp, x: sp.select((x, 'a')), NAMELIKE + ('list', 'tuple', 'dict', 'none')),
    'column alias': (lambda sp, x: sp.select(('a', x)), NAMELIKE + ('list', 'tuple', 'dict', 'int', 'zero')),
    'column alias kwds': (lambda sp, x: sp.select(a=x), NAMELIKE + ('list', 'tuple', 'dict', 'int', 'zero')),
    'table': (lambda sp, x: sp.select_from(x), NAMELIKE + ('int', 'zero')),
    'table in pair': (lambda sp, x: sp.select_from((x, 'a')), NAMELIKE + ('int', 'list', 'tuple', 'dict', 'none', 'zero')),
    'table alias': (lambda sp, x: sp.select_from(('t', x)), NAMELIKE + ('int', 'list', 'tuple', 'dict', 'zero')),
    'from_table': (lambda sp, x: sp.select('a').from_table(x), NAMELIKE + ('int', 'list', 'tuple', 'dict', 'none', 'zero')),
    'join': (lambda sp, x: sp.select_from('t').join(x), NAMELIKE + ('int', 'none', 'list', 'tuple', 'zero')),
    'left join': (lambda sp, x: sp.select_from('t').left_join(x), NAMELIKE + ('int', 'none', 'list', 'tuple', 'zero')),
    'join in pair': (lambda sp, x: sp.select_from('t').right_join((x, 'a')),
                     NAMELIKE + ('int', 'none', 'list', 'tuple', 'dict', 'zero')),
    'join alias': (lambda sp, x: sp.select_from('t').join(('u', x)), NAMELIKE + ('int', 'list', 'tuple', 'dict', 'zero')),
    'where column': (lambda sp, x: sp.select_from('t').where(x, 1), NAMELIKE + ('int', 'none', 'dict', 'zero')),
    'where value': (lambda sp, x: sp.select_from('t').where('c', x),
                    ('object', 'class', 'set', 'frozenset', 'bytes', 'bytearray', 'complex', 'time', 'timedelta', 'function', 'dict', 'ellipsis')),
    'having value': (lambda sp, x: sp.select_from('t').having(c=x),
                     ('object', 'class', 'set', 'frozenset', 'bytes', 'bytearray', 'complex', 'time', 'timedelta', 'function', 'dict', 'ellipsis')),
    'on value': (lambda sp, x: sp.select_from('t').join('u').on('c', x),
                 ('object', 'class', 'set', 'frozenset', 'bytes', 'bytearray', 'complex', 'time', 'timedelta', 'function', 'dict', 'ellipsis')),
    'insert column': (lambda sp, x: sp.insert_into('t').values(x, 1), NAMELIKE + ('int', 'none', 'dict', 'zero')),
    'insert value': (lambda sp, x: sp.insert_into('t').values(c=x),
                     ('object', 'class', 'set', 'frozenset', 'bytearray', 'complex', 'time', 'timedelta', 'function', 'dict', 'list', 'tuple', 'range', 'ellipsis')),
    'insert table': (lambda sp, x: sp.insert_into(x), NAMELIKE + ('int', 'zero')),
    'set column': (lambda sp, x: sp.update('t').set(x, 1), NAMELIKE + ('int', 'none', 'dict', 'zero')),
    'set value': (lambda sp, x: sp.update('t').set('c', x),
                  ('object', 'class', 'set', 'frozenset', 'bytearray', 'complex', 'time', 'timedelta', 'function', 'dict', 'list', 'tuple', 'range', 'ellipsis')),
    'update table': (lambda sp, x: sp.update(x), NAMELIKE + ('int', 'zero')),
    'delete table': (lambda sp, x: sp.delete_from(x), NAMELIKE + ('int', 'zero')),
    'order column': (lambda sp, x: sp.select_from('t').order_by(x), NAMELIKE + ('none',)),
    'order direction': (lambda sp, x: sp.select_from('t').order_by(('a', x)),
                        NAMELIKE + ('list', 'tuple', 'dict', 'int', 'str', 'zero')),
    'group column': (lambda sp, x: sp.select_from('t').group_by(x), NAMELIKE + ('none',)),
    'group direction': (lambda sp, x: sp.select_from('t').group_by(a=x), NAMELIKE + ('list', 'tuple', 'dict', 'int', 'str', 'zero')),
    'limit': (lambda sp, x: sp.select_from('t').limit(x), NAMELIKE + ('list', 'tuple', 'dict', 'str')),
    'offset': (lambda sp, x: sp.select_from('t').limit(1).offset(x), NAMELIKE + ('list', 'tuple', 'dict', 'str')),
    'none limit offset': (lambda sp, x: sp.select_from('t').limit(None, x), NAMELIKE + ('list', 'tuple', 'dict', 'str')),
    'second table': (lambda sp, x: sp.select_from('t', x), NAMELIKE + ('int', 'zero')),
    'into': (lambda sp, x: sp.insert().into(x), NAMELIKE + ('int', 'zero')),
    'delete what': (lambda sp, x: sp.delete('t', x).from_('t').where(a=1), NAMELIKE + ('int', 'zero')),
    'delete later': (lambda sp, x: sp.delete('t').delete(x).from_('t').where(a=1), NAMELIKE + ('int', 'zero')),
    'update later': (lambda sp, x: sp.update('t').table(x).set(a=1).where(a=1), NAMELIKE + ('int', 'zero')),
    'limit offset': (lambda sp, x: sp.select_from('t').limit(1, x), NAMELIKE + ('list', 'tuple', 'dict', 'str')),
    'outfile': (lambda sp, x: sp.select_from('t').into_outfile(x), NAMELIKE + ('list', 'tuple', 'dict', 'int', 'none', 'zero')),
    'outfile fields': (lambda sp, x: sp.select_from('t').into_outfile('f').fields_terminated_by(x),
                       NAMELIKE + ('list', 'tuple', 'dict', 'int', 'none', 'zero')),
    'outfile lines': (lambda sp, x: sp.select_from('t').into_outfile('f').lines_terminated_by(x),
                      NAMELIKE + ('list', 'tuple', 'dict', 'int', 'none', 'zero')),
    'outfile enclosed': (lambda sp, x: sp.select_from('t').into_outfile('f').optionally_enclosed_by(x),
                         NAMELIKE + ('list', 'tuple', 'dict', 'int', 'none', 'zero')),
    'V': (lambda sp, x: sp.select(sp.V(x)), ('object', 'class', 'bytearray', 'complex', 'time', 'timedelta', 'function', 'dict', 'ellipsis')),
    'R': (lambda sp, x: sp.select(sp.R(x)), NAMELIKE + ('dict', 'list', 'tuple', 'none')),
    'concat': (lambda sp, x: sp.select(sp.concat('a', x)), NAMELIKE + ('none',)),
    'group_concat order': (lambda sp, x: sp.select(sp.group_concat('a').order_by(x)), NAMELIKE + ('none',)),
    'separator': (lambda sp, x: sp.select(sp.group_concat('a').separator(x)), ('object', 'class', 'complex', 'time', 'function', 'dict', 'ellipsis')),
    'avg': (lambda sp, x: sp.select(sp.avg(x)), NAMELIKE + ('none', 'dict')),
    'max': (lambda sp, x: sp.select(sp.max_distinct(x)), NAMELIKE + ('none', 'dict')),
    'count': (lambda sp, x: sp.select(sp.count(x)), tuple(k for k in NAMELIKE if k != 'false') + ('dict',)),
    'convert': (lambda sp, x: sp.select(sp.convert(x, 'int')), NAMELIKE + ('none', 'dict')),
    'union': (lambda sp, x: sp.select('a') | x, NAMELIKE + ('none', 'dict', 'int', 'str', 'list', 'tuple', 'zero')),
    'union all': (lambda sp, x: sp.select('a') & x, NAMELIKE + ('none', 'dict', 'int', 'str', 'list', 'tuple', 'zero')),
    'Q column': (lambda sp, x: sp.select_from('t').where(sp.Q(x, 1)), NAMELIKE + ('int', 'none', 'dict', 'zero')),
    'Not value': (lambda sp, x: sp.select_from('t').where(sp.Not(c=x)),
                  ('object', 'class', 'set', 'bytes', 'complex', 'time', 'function', 'dict', 'ellipsis')),
    'mysql upsert value': (lambda sp, x: sp.insert_into('t').values(a=1).on_duplicate_key_update(c=x),
                           ('object', 'class', 'set', 'complex', 'time', 'function', 'dict', 'list', 'tuple', 'range', 'ellipsis')),
}


def h_bad(ctx, place):
    sp = ctx.sp
    sp.configure('mysql' if place.startswith('mysql') else 'sql')
    fn, kinds = BAD[place]
    kind = ctx.choose('kind', kinds if place == 'count' else with_empty(kinds))
    x = bad_pool()[kind]
    ok = raises(ctx, lambda: ctx.observe(str(fn(sp, x))), sp.exceptions.InvalidArgumentException)
    ctx.check(ok, '%s of type %s is accepted' % (place, kind))


def h_tuples(ctx, method):
    """Pairs with too few or too many items."""
    sp = ctx.sp
    sp.configure(METHODS[method][0])
    fn = METHODS[method][1]
    low = 2 if method in PAIR_ONLY else 1
    n = ctx.choose('n', (0, 1, 3, 4, 5))
    ctx.assume(not low <= n <= 2)
    item = tuple('abcde'[:n]) if ctx.flag('tuple') else list('abcde'[:n])
    if method in ORDER:
        item = item[:1] + type(item)(['desc'] * (n - 1)) if n else item
    if n == 0 and method in PAIR_ONLY and ctx.flag('flat list'):
        # a list of names (or of a name and a value) is no list of pairs
        inner = ctx.choose('inner', (('a', 'b'), ('ab', 'cd'), ('a', 1), ('a',), ('a', 'b', 'c'), (1, 2)))
        ctx.assume(inner[0] != 'ab')  # two texts of two characters are read as two pairs
        x = tuple(inner) if ctx.flag('as tuple') else list(inner)
        ctx.check(raises(ctx, lambda: ctx.observe(str(fn(sp, x))), sp.exceptions.InvalidArgumentException), 'flat list is accepted')
        return
    if n > 2:
        surplus = ctx.choose('surplus', ('text', None, '', 0, False, 'same'))
        if surplus != 'text':
            item = item[:2] + type(item)([item[1] if surplus == 'same' else surplus] * (n - 2))
    form = ctx.choose('form', ('alone', 'first', 'second', 'list', 'flat'))
    good = ('k', 'desc') if method in ORDER else ('k', 'x') if method in ALIAS else ('k', 1)
    exc = sp.exceptions.InvalidArgumentException
    if method in ('from_', 'from_tables', 'delete_from'):
        ctx.assume(n > 0)
    if form == 'alone':
        # a single list is the list of pairs where lists are accepted
        ctx.assume(method not in PAIR_ONLY)
        act = lambda: fn(sp, item)
    elif form == 'first':
        act = lambda: fn(sp, item, good)
    elif form == 'second':
        act = lambda: fn(sp, good, item)
    elif form == 'list':
        ctx.assume(method in PAIR_ONLY)
        act = lambda: fn(sp, [good, item])
    else:
        ctx.assume(method in PAIR_ONLY and n > 0)
        act = lambda: fn(sp, *item)
    ctx.check(raises(ctx, lambda: ctx.observe(str(act())), exc), 'tuple of %d items is accepted' % n)


def h_relation_types(ctx):
    sp = ctx.sp
    sp.configure('sql')
    rel = ctx.choose('rel', ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP', 'IS', 'IS_NOT', 'IN', 'NOT_IN'))
    other = ('object', 'class', 'dict', 'set', 'bytes', 'complex', 'time', 'function', 'ellipsis')
    if rel in ('EQ', 'NE'):
        kinds = other + ('none', 'list', 'tuple', 'range')
    elif rel in ('GT', 'GE', 'LT', 'LE'):
        kinds = other + ('none', 'list', 'tuple', 'range', 'true', 'false')
    elif rel in ('LIKE', 'NOT_LIKE', 'REGEXP'):
        kinds = other + ('none', 'list', 'tuple', 'range', 'true', 'int', 'float', 'decimal', 'date', 'zero')
    elif rel in ('IS', 'IS_NOT'):
        kinds = other + ('list', 'tuple', 'range', 'int', 'float', 'decimal', 'date', 'str', 'zero')
    else:
        kinds = ('object', 'class', 'bytes', 'complex', 'time', 'function', 'str', 'int', 'none', 'true', 'float', 'decimal', 'date', 'ellipsis')
    x = bad_pool()[ctx.choose('kind', kinds)]
    ok = raises(ctx, lambda: ctx.observe(str(sp.select_from('t').where('c', getattr(sp.relations, rel)(x)))),
                sp.exceptions.InvalidArgumentException)
    ctx.check(ok, 'relation %s accepts %s' % (rel, type(x).__name__))


def h_values(ctx):
    """Unsupported items inside lists."""
    sp = ctx.sp
    sp.configure('sql')
    x = bad_pool()[ctx.choose('kind', ('object', 'class', 'complex', 'time', 'timedelta', 'function', 'dict', 'ellipsis'))]
    items = ctx.choose('place', (0, 1, 2))
    items = [[x], [1, x], [x, 'a']][items]
    form = ctx.choose('form', ('list', 'tuple', 'IN', 'NOT_IN', 'V'))
    if form == 'list':
        act = lambda: sp.select_from('t').where('c', items)
    elif form == 'tuple':
        act = lambda: sp.select_from('t').where('c', tuple(items))
    elif form == 'V':
        act = lambda: sp.select(sp.V(items))
    else:
        act = lambda: sp.select_from('t').where('c', getattr(sp.relations, form)(items))
    ctx.check(raises(ctx, lambda: ctx.observe(str(act())), sp.exceptions.InvalidArgumentException),
              'unsupported item of a list is accepted')


def h_misc(ctx):
    """Calls that make no sense."""
    sp = ctx.sp
    e = sp.exceptions
    sp.configure('sql')
    kind = ctx.choose('kind', ('join nothing', 'on nothing', 'on no join', 'on dict', 'where one', 'where three', 'order direction',
                               'set one', 'empty concat', 'union type', 'full join', 'update join nothing', 'delete join nothing',
                               'pg target', 'order symbolic', 'values one', 'join long tuple', 'join big dict', 'bad backend', 'Q and'))
    exc = e.InvalidArgumentException
    if kind == 'join nothing':
        act, exc = (lambda: sp.select('a').join('u')), e.InvalidQueryException
    elif kind == 'on nothing':
        act, exc = (lambda: sp.select('a').on('a', 'b')), e.InvalidQueryException
    elif kind == 'on no join':
        act, exc = (lambda: sp.select_from('t').on('a', 'b')), e.InvalidQueryException
    elif kind == 'on dict':
        act, exc = (lambda: sp.delete_from('t').on({'a': 'b'})), e.InvalidQueryException
    elif kind == 'where one':
        act = lambda: sp.select_from('t').where(ctx.str('s', 0, 2))
    elif kind == 'where three':
        act = lambda: sp.select_from('t').where('a', 1, 2)
    elif kind == 'order direction':
        act = lambda: sp.select_from('t').order_by(('a', ctx.choose('d', ('', 'up', 'asc ', 'descend', 'DESC,', 'a sc'))))
    elif kind == 'order symbolic':
        d = ctx.str('d', 0, 4, 'ascii')
        up = d.upper()
        ctx.assume(up != 'ASC' and up != 'DESC')
        act = lambda: sp.select_from('t').order_by(('a', d))
    elif kind == 'set one':
        act = lambda: sp.update('t').set('a')
    elif kind == 'values one':
        act = lambda: sp.insert_into('t').values('a')
    elif kind == 'empty concat':
        act = lambda: sp.select(ctx.choose('f', (sp.concat, sp.group_concat))())
    elif kind == 'union type':
        act = lambda: sp.select_from('t').where(a=1) | 'x'
    elif kind == 'full join':
        b = ctx.choose('b', ('sql', 'mysql', 'sqlite'))
        sp.configure(b)
        act, exc = (lambda: sp.select_from('t').full_join('u')), e.InvalidQueryException
    elif kind == 'update join nothing':
        act, exc = (lambda: sp.update(None).join('u')), e.InvalidQueryException
    elif kind == 'delete join nothing':
        act, exc = (lambda: sp.delete().left_join('u')), e.InvalidQueryException
    elif kind == 'pg target':
        sp.configure('postgresql')
        act, exc = (lambda: sp.insert_into('t').values(a=1).on_duplicate_key_update(a=1)), e.InvalidQueryException
    elif kind == 'join long tuple':
        act = lambda: sp.select_from('t').join(ctx.choose('x', (('a', 'b', 'c'), ('a',), (), ['a', 'b', 'c'])))
    elif kind == 'join big dict':
        act = lambda: sp.select_from('t').join(ctx.choose('x', ({'a': 'b', 'c': 'd'}, {})))
    elif kind == 'bad backend':
        act, exc = (lambda: sp.configure(ctx.choose('b', ('', 'my', 'sqlite3', 'postgres', 'mysql ', 'oracle', None, 1)))), Exception
    else:
        act, exc = (lambda: sp.Q(a=1) & ctx.choose('x', (1, 'a', None, {'a': 1}))), TypeError
    ok = False
    try:
        r = act()
        if kind != 'bad backend':
            ctx.observe(str(r))
    except exc:
        ok = True
    ctx.check(ok, 'call that makes no sense is accepted (%s)' % kind)


def stay_base(sp, kind):
    if kind == 'select':
        return sp.select('a').from_('t').join('u').on('t.a', 'u.b').where(c=1).group_by('g').having(h=1).order_by('d').limit(5)
    if kind == 'insert':
        return sp.insert_into('t').values(a=1)
    if kind == 'update':
        return sp.update('t').join('u').on('t.a', 'u.b').set(a=1).where(c=1)
    if kind == 'group_concat':
        return sp.group_concat('a').order_by('d').separator('-')
    if kind == 'Q':
        return sp.Q(a=1)
    return sp.delete('t').from_('t').left_join('u').on('t.a', 'u.b').where(c=1)


# statement, method, sort of argument
STAYS = (
    ('select', 'columns', 'alias'), ('select', 'from_', 'alias'), ('select', 'from_tables', 'alias'), ('select', 'where', 'pair'),
    ('select', 'having', 'pair'), ('select', 'on', 'pair'), ('select', 'order_by', 'order'), ('select', 'group_by', 'order'),
    ('insert', 'values', 'pair'), ('insert', 'on_duplicate_key_update', 'pair'), ('insert', 'pg', 'pair'),
    ('update', 'set', 'pair'), ('update', 'where', 'pair'), ('update', 'on', 'pair'),
    ('delete', 'from_', 'alias'), ('delete', 'where', 'pair'), ('delete', 'on', 'pair'), ('delete', 'from_tables', 'alias'),
    ('group_concat', 'order_by', 'order'), ('Q', 'where', 'pair'),
)


def h_stays(ctx, kind, method, sort):
    """A call of which one argument is refused leaves the statement as it was, wherever the argument is."""
    sp = ctx.sp
    sp.configure('mysql' if method == 'on_duplicate_key_update' else 'postgresql' if method == 'pg' else 'sql')
    q = stay_base(sp, kind)
    twin = stay_base(sp, kind)
    if method in ('on_duplicate_key_update', 'pg') and ctx.flag('used'):
        for x in (q, twin):
            x.on_duplicate_key_update(*((('k',) if method == 'pg' else ()) + ({'z': 5},)))
    before = str(q)
    name = ctx.choose('name', ('a', 'd', 'g', 'n'))
    n = ctx.int('n')
    good = {'alias': (name, 'x'), 'pair': (name, n), 'order': (name, 'desc')}[sort]
    bad = ctx.choose('bad', ('name', 'second', 'long', 'short'))
    if bad == 'name':
        bad = (Thing(), good[1])
    elif bad == 'second':
        bad = ('m', Thing())
    elif bad == 'long':
        bad = ('m', good[1], 1)
    else:
        ctx.assume(sort == 'pair')
        bad = ('m',)
    form = ctx.choose('form', ('only', 'last', 'first', 'middle', 'kwds', 'dict', 'list', 'Q'))
    args, kwds = (), {}
    if form == 'only':
        args = (bad,)
    elif form == 'last':
        args = (good, bad)
    elif form == 'first':
        args = (bad, good)
    elif form == 'middle':
        args = (good, bad, good)
    elif form == 'kwds':
        ctx.assume(len(bad) == 2 and bad[0] == 'm' and kind != 'group_concat')
        args = (good,) + ((good,) if sort == 'pair' else ())
        kwds = {'m': bad[1]}
    elif form == 'dict':
        ctx.assume(len(bad) == 2 and kind != 'group_concat' and bad[0] == 'm')
        args = ({name: good[1], bad[0]: bad[1]},)
    elif form == 'list':
        ctx.assume(sort == 'pair')
        args = ([good, bad],)
    else:
        ctx.assume(method in ('where', 'having', 'on') and len(bad) == 2 and bad[0] == 'm')
        args = (sp.Q(good[0], good[1]),)
        kwds = {'m': bad[1]}
    if method == 'pg':
        args = ('l',) + args
    call = getattr(q, 'on_duplicate_key_update' if method == 'pg' else method)
    ok = raises(ctx, lambda: call(*args, **kwds), sp.exceptions.InvalidArgumentException)
    ctx.check(ok, 'bad argument is accepted')
    ctx.check(render(ctx, q) == before, 'refused call changes the statement (%s)' % method)
    ctx.check(bool(q == twin), 'statement is not equal to itself after a refused call (%s)' % method)
    if kind != 'group_concat':
        # goes on as if the call had never been
        for x in (q, twin):
            if kind in ('insert',):
                x.values(e=n)
            elif kind == 'Q':
                x.where('e', n)
            else:
                x.where('e', n)
        ctx.check(render(ctx, q) == render(ctx, twin), 'refused call shows later (%s)' % method)


def h_still_usable(ctx):
    """A refused argument leaves the query as it was: methods with single arguments."""
    sp = ctx.sp
    sp.configure('sql')
    kind = ctx.choose('kind', ('limit', 'offset', 'join', 'join pair', 'limit offset', 'limit None offset', 'outfile', 'fields', 'lines', 'enclosed',
                               'full join', 'from_table', 'update table', 'into', 'delete', 'set', 'Union', 'on'))
    before_limit = ctx.flag('limited')
    n, m = ctx.int('n'), ctx.int('m')
    ctx.assume(n >= 0)
    ctx.assume(m > 0)

    def build():
        if kind == 'update table':
            return sp.update('t').set(a=1).where(c=1)
        if kind == 'into':
            return sp.insert_into('t').values(a=1)
        if kind == 'delete':
            return sp.delete('t').from_('t').where(c=1)
        x = sp.select('a').from_('t').left_join('u').on('t.a', 'u.b').where(c=1).into_outfile('f').fields_terminated_by('a')
        x.lines_terminated_by('b').optionally_enclosed_by('c')
        return x.limit(n, m) if before_limit else x
    q = build()
    before = str(q)
    bad = Thing()
    acts = {
        'limit': lambda: q.limit('5'), 'offset': lambda: q.offset('5'), 'join': lambda: q.join(bad), 'join pair': lambda: q.left_join(('x', bad)),
        'limit offset': lambda: q.limit(m, '5'), 'limit None offset': lambda: q.limit(bad, m), 'outfile': lambda: q.into_outfile(5),
        'fields': lambda: q.fields_terminated_by(bad), 'lines': lambda: q.lines_terminated_by(5), 'enclosed': lambda: q.optionally_enclosed_by(None),
        'full join': lambda: q.full_join('x'), 'from_table': lambda: q.from_table('x', 5), 'update table': lambda: q.table(bad),
        'into': lambda: q.into(('x', bad)), 'delete': lambda: q.delete('x', bad), 'set': lambda: q.having('x', bad),
        'Union': lambda: q | bad, 'on': lambda: q.on('x', bad),
    }
    ctx.check(raises(ctx, acts[kind], sp.exceptions.InvalidArgumentException), 'bad argument is accepted (%s)' % kind)
    ctx.check(render(ctx, q) == before, 'refused argument changes the query (%s)' % kind)
    twin = build()
    for x in (q, twin):
        if kind in ('update table', 'delete'):
            x.where(z=n)
        elif kind == 'into':
            x.values(z=n)
        else:
            x.on('a', 'z').offset(m).join('v')
    ctx.check(render(ctx, q) == render(ctx, twin), 'refused argument shows later (%s)' % kind)
