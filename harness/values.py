"""C01 (string values are data) and C03 (other values are faithful)."""
import datetime
import decimal

from .base import *
from .positions import VALUES

# positions explored with longer arbitrary strings
DEEP = ('where_pair', 'insert', 'update', 'LIKE', 'IN_list', 'separator', 'outfile', 'select_V')
TWO = ('conditions', 'insert', 'update', 'in', 'rows')

BOUNDS = {
    'C01': [
        'strings of 0-2 arbitrary Unicode characters (no lone surrogates) at each of the value positions, 0-3 at the '
        'most used ones; thorough: 0-3 everywhere and 0-4 at the most used ones',
        'strings of every length 0-24 and of larger sample lengths up to 300 (plus each integer constant found in the '
        'source, +-1) over the characters without special meaning, all characters symbolic',
        'about 200 texts which look special (a fixed list and the string constants of the source), alone or with one arbitrary '
        'character before or after; a quoted name with 1-2 (thorough 1-3) arbitrary characters after, before or between two of them',
        'three arbitrary characters surrounded by up to 6 ordinary symbolic characters on each side',
        'one string of 1 (thorough 1-2) arbitrary characters rendered under one database, then another, then the first again',
        'two strings of 0-1 (thorough 0-2) arbitrary characters in one query',
        'all four databases',
    ],
    'C03': [
        'int: unbounded symbolic integer; bytes: 0-4 symbolic bytes and sample lengths up to 70; bool and None: all; '
        'float, Decimal, date, datetime: opaque values backed by a list of 14/12/5/9 samples; '
        'lists, tuples and ranges of 1-3 of these; one value rendered under one database, then another, then the first again',
        'all four databases',
    ],
}
ASSUMPTIONS = {
    'C01': ['the reference lexers of symx/lexer.py describe how the databases read literals (MySQL default sql_mode, '
            'PostgreSQL standard_conforming_strings=on)',
            'strings are str itself, not a subclass; lone surrogates are outside the bounds'],
    'C03': ['nan and infinities, subclasses of int/float and third-party number types are outside the claim',
            'five decimal places is the documented precision of floats and decimals'],
}


def tasks(prop, tier):
    out = []
    if prop == 'C01':
        deep = tier == 'thorough'
        lengths = harvest.lengths(SRC)
        for pos, (_, _, backends) in VALUES.items():
            for b in backends:
                hi = (4 if deep else 3) if pos in DEEP else (3 if deep else 2)
                out.append((prop, 'h_string', {'pos': pos, 'backend': b, 'hi': hi}, 600 if deep else 60))
                if deep or pos in ('where_pair', 'insert'):
                    ls = lengths
                elif pos in DEEP:
                    ls = [x for x in lengths if x not in harvest.BASE or x <= 20]
                else:
                    ls = [0, 7, 12, 24, 33]
                out.append((prop, 'h_long', {'pos': pos, 'backend': b, 'lengths': ls}, 600 if deep else 60))
        texts = harvest.strings(SRC)
        for b in BACKENDS:
            for pos in DEEP:
                out.append((prop, 'h_text', {'pos': pos, 'backend': b, 'texts': texts, 'around': deep or pos == 'where_pair'}, 300 if deep else 60))
                out.append((prop, 'h_reflike', {'pos': pos, 'backend': b, 'hi': 3 if deep else 2}, 300 if deep else 60))
                out.append((prop, 'h_inside', {'pos': pos, 'backend': b, 'n': 3 if deep else 2}, 300 if deep else 40))
            for pos in DEEP:
                for then in BACKENDS:
                    if then != b and b in VALUES[pos][2] and then in VALUES[pos][2]:
                        out.append((prop, 'h_switch', {'pos': pos, 'first': b, 'then': then, 'hi': 2 if deep else 1, 'again': 'back'}, 60))
                        if deep or pos == 'where_pair':
                            out.append((prop, 'h_switch', {'pos': pos, 'first': b, 'then': then, 'hi': 1, 'again': 'fresh'}, 60))
            for kind in TWO:
                out.append((prop, 'h_two', {'kind': kind, 'backend': b, 'hi': 2 if deep else 1}, 300 if deep else 40))
    else:
        for b in BACKENDS:
            for kind in KINDS:
                for group in ('insert', 'update', 'where', 'value', 'nested', 'in'):
                    if (kind == 'null' and group == 'in') or (kind == 'bytes' and group in ('where', 'in')):
                        continue
                    out.append((prop, 'h_value', {'backend': b, 'kind': kind, 'group': group}, 60))
            out.append((prop, 'h_value_list', {'backend': b, 'hi': 3 if tier == 'thorough' else 2}, 300))
            out.append((prop, 'h_range', {'backend': b}, 60))
            out.append((prop, 'h_number_name', {'backend': b}, 60))
            out.append((prop, 'h_mixed', {'backend': b}, 60))
            for then in BACKENDS:
                if then != b:
                    out.append((prop, 'h_value_switch', {'first': b, 'then': then}, 60))
    return out


def place(ctx, pos, backend, v):
    build, template, _ = VALUES[pos]
    ctx.sp.configure(backend)
    same(ctx, build(ctx.sp, v), backend, fill(template, string_value(v, backend)),
         'string value is not rendered as one literal with the same content (%s)' % pos)
    ctx.reached(pos)


def h_string(ctx, pos, backend, hi):
    place(ctx, pos, backend, ctx.str('v', 0, hi))


def h_long(ctx, pos, backend, lengths):
    n = ctx.choose('length', lengths)
    place(ctx, pos, backend, ctx.str('v', n, n, 'plain'))


def h_inside(ctx, pos, backend, n):
    before = ctx.choose('before', (0, 3, 6))
    after = ctx.choose('after', (0, 1, 6))
    v = ctx.str('b', before, before, 'plain') + ctx.str('v', n, n) + ctx.str('a', after, after, 'plain')
    place(ctx, pos, backend, v)


def h_text(ctx, pos, backend, texts, around):
    """Texts which look special, alone or with one more character."""
    v = ctx.choose('text', texts)
    if around:
        form = ctx.choose('form', ('alone', 'before', 'after'))
        if form == 'before':
            v = ctx.str('c', 1, 1) + v
        elif form == 'after':
            v = v + ctx.str('c', 1, 1)
    place(ctx, pos, backend, v)


def h_reflike(ctx, pos, backend, hi):
    """Almost references: something in identifier quotes and a tail (or head)."""
    q = QUOTE[backend]
    form = ctx.choose('form', ('tail', 'head', 'two', 'other', 'parts', 'quoted parts'))
    if form == 'tail':
        v = q + 'a' + q + ctx.str('t', 1, hi)
    elif form == 'head':
        v = ctx.str('h', 1, hi) + q + 'a' + q
    elif form == 'two':
        v = q + 'a' + q + ctx.str('m', 1, hi) + q + 'b' + q
    elif form == 'other':
        o = '"' if q == '`' else '`'
        v = o + 'a' + o + ctx.str('t', 0, 1)
    else:
        n = ctx.choose('parts', (3, 4, 5))
        parts = [q + 'a' + q] + ([q + 'b' + q] * (n - 1) if form == 'quoted parts' else ['b'] * (n - 1))
        at = ctx.choose('at', (1, n - 1))
        v = '.'.join(parts[:at]) + ctx.str('m', 1, 1) + '.'.join(parts[at:])
    place(ctx, pos, backend, v)


def h_switch(ctx, pos, first, then, hi, again):
    """The same text (or an equal one) under one database, then under another; what was built last is right for the last."""
    build, template, backends = VALUES[pos]
    v = ctx.str('v', 1, hi)
    w = v
    if again == 'fresh':
        w = ctx.str('w', 1, hi)
        ctx.assume(w == v)
    place(ctx, pos, first, v)
    place(ctx, pos, then, w)
    if again == 'back':
        place(ctx, pos, first, v)


def h_two(ctx, kind, backend, hi):
    sp = ctx.sp
    sp.configure(backend)
    v = ctx.str('v', 0, hi)
    w = ctx.str('w', 0, hi)
    a, b = string_value(v, backend), string_value(w, backend)
    if kind == 'conditions':
        q = sp.select_from('t').where('c', v).where('d', sp.relations.LIKE(w)).having('e', v)
        e = expect('SELECT * FROM "t" WHERE "c" = ? AND "d" LIKE ? HAVING "e" = ?', a, b, a)
    elif kind == 'insert':
        q = sp.insert_into('t').values(c=v, d=w)
        e = expect('INSERT INTO "t" ("c", "d") VALUES (?, ?)', a, b)
    elif kind == 'rows':
        q = sp.insert_into('t').values(c=v, d=1).values(c=w, d=2)
        e = expect('INSERT INTO "t" ("c", "d") VALUES (?, 1), (?, 2)', a, b)
    elif kind == 'update':
        q = sp.update('t').set(c=v).where(d=w)
        e = expect('UPDATE "t" SET "c" = ? WHERE "d" = ?', a, b)
    else:
        q = sp.select_from('t').where('c', sp.relations.IN([v, 'x', w]))
        e = expect('SELECT * FROM "t" WHERE "c" IN (?, \'x\', ?)', a, b)
    same(ctx, q, backend, e, 'string values are not rendered as literals with the same content (%s)' % kind)


FLOATS = (0.0, 1.0, -1.0, 0.5, -1.25, 123456.789, 0.000004, 0.00001, 1e16, 1e22, -99999.999996, 3.1415926, 2.5, 1e-9)
DECIMALS = tuple(decimal.Decimal(x) for x in (
    '0', '1', '-1', '0.5', '1.23456', '12345678901234567890.12345', '-0.00001', '1E+3', '100', '0.10', '1e-9', '7.50',
    '1234567890123456789012345678901234567890.5', '-98765432109876543210987654321098765.43215', '0.' + '3' * 50, '1E+40', '-7E-40'))
DATES = (datetime.date(2012, 5, 25), datetime.date(1, 1, 1), datetime.date(9999, 12, 31), datetime.date(1999, 10, 9),
         datetime.date(2000, 2, 29))
DATETIMES = (datetime.datetime(2012, 5, 25, 16, 20, 30), datetime.datetime(2012, 5, 25), datetime.datetime(1, 1, 1),
             datetime.datetime(2012, 5, 25, 16, 20), datetime.datetime(2012, 5, 25, 16, 20, 30, 123456),
             datetime.datetime(2012, 5, 25, 0, 0, 0, 1), datetime.datetime(2012, 5, 25, 16, 20, 30, 120000),
             datetime.datetime(2012, 5, 25, 1, 2, 3, tzinfo=datetime.timezone.utc),
             datetime.datetime(2012, 5, 25, 1, 2, 3, 5, tzinfo=datetime.timezone(datetime.timedelta(hours=-5, minutes=-30))))
KINDS = ('int', 'bool', 'null', 'bytes', 'float', 'decimal', 'date', 'datetime')


def any_value(ctx, kind, label='v'):
    if kind == 'int':
        return ctx.int(label)
    if kind == 'bool':
        return ctx.flag(label)
    if kind == 'null':
        return None
    if kind == 'bytes':
        n = ctx.choose(label + '.n', (0, 1, 2, 3, 4, 8, 16, 33, 70))
        return ctx.bytes(label, n, n)
    if kind == 'float':
        return ctx.opaque(ctx.choose(label, FLOATS))
    if kind == 'decimal':
        return ctx.opaque(ctx.choose(label, DECIMALS))
    if kind == 'date':
        return ctx.opaque(ctx.choose(label, DATES))
    return ctx.opaque(ctx.choose(label, DATETIMES))


def h_value(ctx, backend, kind, group):
    sp = ctx.sp
    sp.configure(backend)
    v = any_value(ctx, kind)
    t = value(v, backend)
    r = sp.relations
    if group == 'insert':
        style = ctx.choose('style', ('kwds', 'dict', 'pair', 'rows', 'V'))
        if style == 'kwds':
            q, e = sp.insert_into('t').values(c=v), expect('INSERT INTO "t" ("c") VALUES (?)', t)
        elif style == 'dict':
            q, e = sp.insert_into('t').values({'c': v, 'd': 'x'}), expect('INSERT INTO "t" ("c", "d") VALUES (?, \'x\')', t)
        elif style == 'pair':
            q, e = sp.insert_into('t').values('c', v), expect('INSERT INTO "t" ("c") VALUES (?)', t)
        elif style == 'rows':
            q = sp.insert_into('t').values(c=v).values(c=5, d=v)
            e = expect('INSERT INTO "t" ("c", "d") VALUES (?, NULL), (5, ?)', t, t)
        else:
            q, e = sp.insert_into('t').values(c=sp.V(v)), expect('INSERT INTO "t" ("c") VALUES (?)', t)
    elif group == 'update':
        style = ctx.choose('style', ('kwds', 'pair', 'upsert'))
        if style == 'kwds':
            q, e = sp.update('t').set(c=v, d=2).where(id=1), expect('UPDATE "t" SET "c" = ?, "d" = 2 WHERE "id" = 1', t)
        elif style == 'pair':
            q, e = sp.update('t').set('c', v).allow_update_all(), expect('UPDATE "t" SET "c" = ?', t)
        else:
            q = sp.insert_into('t').values(id=1)
            if backend == 'mysql':
                q.on_duplicate_key_update(c=v)
                e = expect('INSERT INTO "t" ("id") VALUES (1) ON DUPLICATE KEY UPDATE "c" = ?', t)
            elif backend == 'postgresql':
                q.on_duplicate_key_update('id', c=v)
                e = expect('INSERT INTO "t" ("id") VALUES (1) ON CONFLICT ("id") DO UPDATE "c" = ?', t)
            else:
                e = expect('INSERT INTO "t" ("id") VALUES (1)')
    elif group == 'where':
        if kind == 'null':
            rel, text = ctx.choose('rel', ((None, 'IS'), (r.IS, 'IS'), (r.IS_NOT, 'IS NOT')))
        elif kind == 'bool':
            rel, text = ctx.choose('rel', ((None, '='), (r.EQ, '='), (r.NE, '!='), (r.IS, 'IS'), (r.IS_NOT, 'IS NOT')))
        else:
            rel, text = ctx.choose('rel', ((None, '='), (r.EQ, '='), (r.NE, '!='), (r.GT, '>'), (r.GE, '>='),
                                           (r.LT, '<'), (r.LE, '<=')))
        x = v if rel is None else rel(v)
        style = ctx.choose('style', ('pair', 'kwds', 'having', 'Q', 'on', 'update', 'delete'))
        if style == 'pair':
            q, e = sp.select_from('t').where('c', x), 'SELECT * FROM "t" WHERE "c" %s ?'
        elif style == 'kwds':
            q, e = sp.select_from('t').where(c=x), 'SELECT * FROM "t" WHERE "c" %s ?'
        elif style == 'having':
            q, e = sp.select_from('t').having('c', x), 'SELECT * FROM "t" HAVING "c" %s ?'
        elif style == 'Q':
            q, e = sp.select_from('t').where(sp.Q(a=1) | sp.Q('c', x)), 'SELECT * FROM "t" WHERE ("a" = 1 OR "c" %s ?)'
        elif style == 'on':
            q, e = sp.select_from('t').join('u').on('u.c', x), 'SELECT * FROM "t" JOIN "u" ON "u"."c" %s ?'
        elif style == 'update':
            q, e = sp.update('t').set(a=1).where(c=x), 'UPDATE "t" SET "a" = 1 WHERE "c" %s ?'
        else:
            q, e = sp.delete_from('t').where(c=x), 'DELETE FROM "t" WHERE "c" %s ?'
        e = expect(e % text, t)
    elif group == 'value':
        style = ctx.choose('style', ('select', 'alias', 'concat', 'where', 'max'))
        if style == 'select':
            q, e = sp.select(sp.V(v)), expect('SELECT ?', t)
        elif style == 'alias':
            q, e = sp.select((sp.V(v), 'x'), 'y'), expect('SELECT ? AS "x", "y"', t)
        elif style == 'concat':
            q, e = sp.select(sp.concat('a', sp.V(v))), expect('SELECT CONCAT("a", ?)', t)
        elif style == 'where':
            q = sp.select_from('t').where('c', sp.relations.EQ(sp.V(v)))
            e = expect('SELECT * FROM "t" WHERE "c" = ?', t)
        else:
            q, e = sp.select(sp.max(sp.V(v))), expect('SELECT MAX(?)', t)
    elif group == 'nested':
        sub = sp.select('id').from_('u').where('c', sp.relations.EQ(sp.V(v)))
        style = ctx.choose('style', ('from', 'in', 'union'))
        if style == 'from':
            q, e = sp.select_from((sub, 'x')), expect('SELECT * FROM (SELECT "id" FROM "u" WHERE "c" = ?) AS "x"', t)
        elif style == 'in':
            q = sp.select_from('t').where('id', sp.relations.IN(sub))
            e = expect('SELECT * FROM "t" WHERE "id" IN (SELECT "id" FROM "u" WHERE "c" = ?)', t)
        else:
            q, e = sub | sp.select('a'), expect('SELECT "id" FROM "u" WHERE "c" = ? UNION SELECT "a"', t)
    else:
        rel, text = ctx.choose('rel', ((r.IN, 'IN'), (r.NOT_IN, 'NOT IN'), (None, 'IN')))
        style = ctx.choose('style', ('one', 'two', 'args', 'tuple'))
        if style == 'one':
            x, e = [v], '(?)'
        elif style == 'two':
            x, e = [v, 'x', v], '(?, \'x\', ?)'
        elif style == 'args' and rel is not None:
            x, e = rel('x', v), '(\'x\', ?)'
        else:
            x, e = (v, 3), '(?, 3)'
        if style != 'args' and rel is not None:
            x = rel(x)
        q, e = sp.select_from('t').where('c', x), fill('SELECT * FROM "t" WHERE "c" %s %s' % (text, e), t)
    same(ctx, q, backend, e, '%s value is not rendered as that value (%s)' % (kind, group))
    ctx.reached(kind + ' ' + group)


def h_value_list(ctx, backend, hi):
    """Lists of values of mixed types."""
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.choose('n', tuple(range(1, hi + 1)))
    items = []
    for i in range(n):
        kind = ctx.choose('kind%d' % i, ('int', 'bool', 'float', 'date', 'str', 'bytes'))
        if kind == 'str':
            items.append(ctx.str('v%d' % i, 0, 1))
        elif kind in ('float', 'date'):
            items.append(ctx.opaque(0.5 if kind == 'float' else DATES[0]))
        elif kind == 'bytes':
            items.append(ctx.bytes('v%d' % i, 1, 1))
        else:
            items.append(any_value(ctx, kind, 'v%d' % i))
    e = value(items, backend)
    style = ctx.choose('style', ('list', 'tuple', 'V', 'Vtuple'))
    if style == 'list':
        q, e = sp.select_from('t').where('c', list(items)), expect('SELECT * FROM "t" WHERE "c" IN ?', e)
    elif style == 'tuple':
        q, e = sp.select_from('t').where('c', tuple(items)), expect('SELECT * FROM "t" WHERE "c" IN ?', e)
    elif style == 'V':
        q, e = sp.select(sp.V(list(items))), expect('SELECT ?', e)
    else:
        q, e = sp.select(sp.V(tuple(items))), expect('SELECT ?', e)
    same(ctx, q, backend, e, 'list of values is not rendered item by item')


def h_range(ctx, backend):
    sp = ctx.sp
    sp.configure(backend)
    start, stop, step = ctx.choose('range', ((0, 1, 1), (0, 3, 1), (1, 4, 1), (-2, 3, 2), (5, 0, -2), (10, 11, 1)))
    kind = ctx.choose('kind', ('range', 'generator', 'IN', 'V', 'NOT_IN', 'set', 'frozenset'))
    items = list(range(start, stop, step))
    e = value(items, backend)
    t = 'SELECT * FROM "t" WHERE "c" IN ?'
    if kind == 'range':
        q = sp.select_from('t').where('c', range(start, stop, step))
    elif kind == 'generator':
        q = sp.select_from('t').where('c', (i for i in items))
    elif kind == 'IN':
        q = sp.select_from('t').where('c', sp.relations.IN(range(start, stop, step)))
    elif kind == 'NOT_IN':
        q, t = sp.select_from('t').where('c', sp.relations.NOT_IN(i for i in items)), 'SELECT * FROM "t" WHERE "c" NOT IN ?'
    elif kind == 'V':
        q, t = sp.select(sp.V(range(start, stop, step))), 'SELECT ?'
    else:
        only = items[0]
        x = {only} if kind == 'set' else frozenset([only])
        q, t, e = sp.select(sp.V(x)), 'SELECT ?', value([only], backend)
    same(ctx, q, backend, expect(t, e), 'range of values is not rendered item by item')


def h_number_name(ctx, backend):
    """Integers where a column is expected."""
    sp = ctx.sp
    sp.configure(backend)
    v = ctx.int('v')
    t = [('num', str(v))]
    style = ctx.choose('style', ('column', 'order', 'group', 'R', 'alias', 'count'))
    if style == 'column':
        q, e = sp.select('a', v), 'SELECT "a", ?'
    elif style == 'order':
        q, e = sp.select_from('t').order_by((v, 'desc')), 'SELECT * FROM "t" ORDER BY ? DESC'
    elif style == 'group':
        q, e = sp.select_from('t').group_by(v), 'SELECT * FROM "t" GROUP BY ?'
    elif style == 'alias':
        q, e = sp.select((v, 'x')), 'SELECT ? AS "x"'
    elif style == 'count':
        ctx.assume(v != 0)
        q, e = sp.select(sp.count(v)), 'SELECT COUNT(?)'
    else:
        q, e = sp.select(sp.R(v)), 'SELECT ?'
    same(ctx, q, backend, expect(e, t), 'integer is not rendered as that integer (%s)' % style)


def h_mixed(ctx, backend):
    """Equal-looking values of different types keep their own rendering next to each other."""
    sp = ctx.sp
    sp.configure(backend)
    pool = (1, True, 1.0, '1', decimal.Decimal('1'), 0, False, '0', None, 'None', '', b'1', 'True')
    a = ctx.choose('a', pool)
    b = ctx.choose('b', pool)
    style = ctx.choose('style', ('insert', 'rows', 'update'))
    ta, tb = value(a, backend), value(b, backend)
    if style == 'insert':
        q, e = sp.insert_into('t').values(c=a, d=b), expect('INSERT INTO "t" ("c", "d") VALUES (?, ?)', ta, tb)
    elif style == 'rows':
        q = sp.insert_into('t').values(c=a).values(c=b)
        e = expect('INSERT INTO "t" ("c") VALUES (?), (?)', ta, tb)
    else:
        q = sp.update('t').set(c=a).set(d=b).allow_update_all()
        e = expect('UPDATE "t" SET "c" = ?, "d" = ?', ta, tb)
    same(ctx, q, backend, e, 'values of different types are mixed up')


def h_value_switch(ctx, first, then):
    """A value under one database, then under another, and back."""
    sp = ctx.sp
    kind = ctx.choose('kind', ('int', 'bool', 'bytes', 'null', 'float', 'decimal', 'date', 'datetime'))
    v = any_value(ctx, kind, 'v')
    style = ctx.choose('style', ('insert', 'update', 'select', 'list', 'where'))
    if style == 'list' and kind == 'null' or style == 'where' and kind in ('null', 'bytes'):
        return
    for b in (first, then, first):
        sp.configure(b)
        if style == 'insert':
            q, e = sp.insert_into('t').values(c=v), 'INSERT INTO "t" ("c") VALUES (?)'
        elif style == 'update':
            q, e = sp.update('t').set(c=v).allow_update_all(), 'UPDATE "t" SET "c" = ?'
        elif style == 'select':
            q, e = sp.select(sp.V(v)), 'SELECT ?'
        elif style == 'list':
            q, e = sp.select(sp.V([v, v])), 'SELECT (?, ?)'
        else:
            q, e = sp.select_from('t').where('c', v), 'SELECT * FROM "t" WHERE "c" = ?'
        same(ctx, q, b, fill(e, value(v, b)), '%s value is not rendered for the configured database' % kind)
    ctx.reached(kind)
