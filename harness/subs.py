"""Instances of subclasses (and standard variants of the containers) mean what instances of the base type mean: C01, C02, C03, C10."""
import collections
import datetime
import decimal
import enum

from .base import *
from .positions import VALUES, NAMES

BOUNDS = {
    'C01': ['instances of a subclass of str of 0-1 arbitrary characters at every place'],
    'C02': ['instances of a subclass of str of 1-2 ordinary characters at every place'],
    'C03': ['instances of subclasses of int, float, Decimal, date, datetime, bytes, tuple and list'],
    'C10': ['defaultdict, Counter, subclasses of dict, OrderedDict, list and tuple, and named tuples, with 1-2 symbolic names and values'],
}
ASSUMPTIONS = {p: ['subclasses do not redefine methods of the base type (an enumeration of strings prints as its member)'] for p in BOUNDS}


class Text(str):
    pass


class Whole(int):
    pass


class Real(float):
    pass


class Dec(decimal.Decimal):
    pass


class Day(datetime.date):
    pass


class Moment(datetime.datetime):
    pass


class Raw(bytes):
    pass


class Items(list):
    pass


class Fixed(tuple):
    pass


class Map(dict):
    pass


class Ordered(collections.OrderedDict):
    pass


class Level(enum.IntEnum):
    HIGH = 5


Pair = collections.namedtuple('Pair', 'name value')


def tasks(prop, tier):
    out = []
    for b in BACKENDS:
        if prop == 'C01':
            for group in range(4):
                out.append((prop, 'h_sub_text', {'backend': b, 'group': group}, 60))
        elif prop == 'C02':
            for group in range(4):
                out.append((prop, 'h_sub_name', {'backend': b, 'group': group}, 60))
        elif prop == 'C03':
            out.append((prop, 'h_sub_value', {'backend': b}, 60))
        elif prop == 'C10':
            out.append((prop, 'h_sub_container', {'backend': b}, 60))
    return out


def h_sub_text(ctx, backend, group):
    ctx.sp.configure(backend)
    pos = ctx.choose('pos', [p for p in sorted(VALUES) if backend in VALUES[p][2]][group::4])
    build, template, _ = VALUES[pos]
    v = ctx.str('v', 0, 1)
    same(ctx, build(ctx.sp, Text(v)), backend, fill(template, string_value(v, backend)),
         'instance of a subclass of str is not rendered as one literal with the same content (%s)' % pos)


def h_sub_name(ctx, backend, group):
    ctx.sp.configure(backend)
    pos = ctx.choose('pos', [p for p in sorted(NAMES) if backend in NAMES[p][2]][group::4])
    build, template, _ = NAMES[pos]
    v = ctx.str('v', 1, 2, 'plain')
    same(ctx, build(ctx.sp, Text(v)), backend, fill(template, [('id', v)]),
         'instance of a subclass of str is not rendered as the name (%s)' % pos)


SCALARS = ((Whole(-7), -7), (Level.HIGH, 5), (Real(-2.5), -2.5), (Dec('10.125'), decimal.Decimal('10.125')), (Day(2011, 2, 3), datetime.date(2011, 2, 3)),
           (Moment(2011, 2, 3, 4, 5, 6, 7), datetime.datetime(2011, 2, 3, 4, 5, 6, 7)), (Raw(b"a'\x00"), b"a'\x00"),
           (Moment(2011, 2, 3, 4, 5, 6, tzinfo=datetime.timezone.utc), datetime.datetime(2011, 2, 3, 4, 5, 6, tzinfo=datetime.timezone.utc)))
LISTS = ((Items([3, 1]), [3, 1]), (Fixed((3, 1)), [3, 1]), (Pair(3, 1), [3, 1]))


def h_sub_value(ctx, backend):
    sp = ctx.sp
    sp.configure(backend)
    style = ctx.choose('style', ('insert', 'update', 'V', 'where', 'EQ', 'GE', 'IN', 'list', 'NOT_IN list', 'V list', 'having', 'column'))
    r = sp.relations
    if style.endswith('list') and style != 'list':
        v, base = ctx.choose('list', LISTS)
        t = value(base, backend)
        if style == 'V list':
            q, e = sp.select(sp.V(v)), expect('SELECT ?', t)
        else:
            q, e = sp.select_from('t').where('c', r.NOT_IN(v)), expect('SELECT * FROM "t" WHERE "c" NOT IN ?', t)
        same(ctx, q, backend, e, 'instance of a subclass is not rendered as the list')
        return
    v, base = ctx.choose('v', SCALARS)
    t = value(base, backend)
    ctx.assume(not isinstance(base, bytes) or style in ('insert', 'update', 'V'))
    ctx.assume(type(base) is int or style != 'column')
    if style == 'insert':
        q, e = sp.insert_into('t').values(c=v), 'INSERT INTO "t" ("c") VALUES (?)'
    elif style == 'update':
        q, e = sp.update('t').set(c=v).where(d=1), 'UPDATE "t" SET "c" = ? WHERE "d" = 1'
    elif style == 'V':
        q, e = sp.select(sp.V(v)), 'SELECT ?'
    elif style == 'where':
        q, e = sp.select_from('t').where('c', v), 'SELECT * FROM "t" WHERE "c" = ?'
    elif style == 'having':
        q, e = sp.select_from('t').having(c=v), 'SELECT * FROM "t" HAVING "c" = ?'
    elif style == 'EQ':
        q, e = sp.select_from('t').where('c', r.EQ(v)), 'SELECT * FROM "t" WHERE "c" = ?'
    elif style == 'GE':
        q, e = sp.select_from('t').where('c', r.GE(v)), 'SELECT * FROM "t" WHERE "c" >= ?'
    elif style == 'IN':
        q, e = sp.select_from('t').where('c', r.IN(v, 2)), 'SELECT * FROM "t" WHERE "c" IN (?, 2)'
    elif style == 'column':
        q, e = sp.select(v).from_('t').order_by(v).limit(5), 'SELECT ? FROM "t" ORDER BY ? LIMIT 5'
        same(ctx, q, backend, expect(e, t, t), 'instance of a subclass is not rendered as the value')
        return
    else:
        q, e = sp.select_from('t').where('c', [v, 2]), 'SELECT * FROM "t" WHERE "c" IN (?, 2)'
    same(ctx, q, backend, expect(e, t), 'instance of a subclass is not rendered as the value')


def h_sub_container(ctx, backend):
    sp = ctx.sp
    sp.configure(backend)
    n, m = ctx.str('n', 1, 1, 'plain'), ctx.str('m', 1, 1, 'plain')
    ctx.assume(n < m)
    v, w = ctx.int('v'), ctx.int('w')
    pairs = [(n, v), (m, w)]
    form = ctx.choose('form', ('defaultdict', 'map', 'counter', 'ordered', 'items', 'fixed', 'pairs', 'pair items'))
    if form == 'defaultdict':
        arg = collections.defaultdict(int)
        for a, b in pairs:
            arg[a] = b
    elif form == 'map':
        arg = Map(pairs)
    elif form == 'counter':
        arg = collections.Counter()
        for a, b in pairs:
            arg[a] = b
    elif form == 'ordered':
        pairs = pairs[::-1]
        arg = Ordered(pairs)
    elif form == 'items':
        arg = Items(pairs)
    elif form == 'fixed':
        arg = Fixed(pairs)
    elif form == 'pairs':
        arg = [Pair(a, b) for a, b in pairs]
    else:
        arg = [Items(p) for p in pairs]
    use = ctx.choose('use', ('where', 'having', 'on', 'set', 'values', 'Q', 'Not'))
    cond = []
    for a, b in pairs:
        cond.append([('id', a), ('op', '='), ('num', str(b))])
    both = cond[0] + words('AND') + cond[1]
    if use == 'where':
        q, e = sp.select_from('t').where(arg), words('SELECT * FROM "t" WHERE') + both
    elif use == 'having':
        q, e = sp.select_from('t').having(arg), words('SELECT * FROM "t" HAVING') + both
    elif use == 'on':
        q, e = sp.select_from('t').join('u').on(arg), words('SELECT * FROM "t" JOIN "u" ON') + both
    elif use == 'set':
        q, e = sp.update('t').set(arg).allow_update_all(), words('UPDATE "t" SET') + cond[0] + words(',') + cond[1]
    elif use == 'Q':
        q, e = sp.select_from('t').where(sp.Q(arg)), words('SELECT * FROM "t" WHERE') + both
    elif use == 'Not':
        q, e = sp.select_from('t').where(sp.Not(arg)), words('SELECT * FROM "t" WHERE NOT(') + both + words(')')
    else:
        q = sp.insert_into('t').values(arg)
        e = expect('INSERT INTO "t" (?, ?) VALUES (?, ?)', [('id', n)], [('id', m)], num(v), num(w))
    same(ctx, q, backend, e, 'arguments are lost or changed (%s)' % form)
