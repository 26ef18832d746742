"""C23: custom SQL, explicit values and explicit references are rendered as such wherever they are used."""
from .base import *

BOUNDS = {
    'C23': ['custom SQL of 1-2 (thorough: 1-3) arbitrary characters and samples up to 300 with two arbitrary characters, explicit strings of 0-2 arbitrary '
            'characters, explicit unbounded ints, references of 1-2 ordinary characters, aggregate functions, in each of %d places',
            'all pairs of plain name, custom SQL, explicit value and reference with independent symbolic texts in the same clause'],
}
ASSUMPTIONS = {
    'C23': ['white space at the very ends of a statement has no meaning', 'custom SQL as LIMIT, OFFSET, direction, whole row of INSERT or plain join is not supported by the library'],
}

# place -> (databases, statement)
PLACES = {
    'column': lambda sp, x: sp.select(x),
    'second column': lambda sp, x: sp.select('a', x, 'b'),
    'column alias': lambda sp, x: sp.select((x, 'al')),
    'column list': lambda sp, x: sp.select([x, 'al'], 'c'),
    'column dict': lambda sp, x: sp.select({x: 'al'}),
    'columns()': lambda sp, x: sp.select('a').columns(x),
    'from': lambda sp, x: sp.select_from(x),
    'from alias': lambda sp, x: sp.select('c').from_((x, 'al')),
    'from_table': lambda sp, x: sp.select('c').from_table(x, 'al'),
    'join': lambda sp, x: sp.select_from('t').join((x, 'al')).on('a', 'b'),
    'left join dict': lambda sp, x: sp.select_from('t').left_join({x: 'al'}),
    'on value': lambda sp, x: sp.select_from('t').join('u').on('a', x),
    'on relation': lambda sp, x: sp.select_from('t').join('u').on('a', sp.relations.GE(x)),
    'on column': lambda sp, x: sp.select_from('t').right_join('u').on(x, 'a'),
    'where column': lambda sp, x: sp.select_from('t').where(x, 1),
    'where value': lambda sp, x: sp.select_from('t').where('a', x),
    'where kwd': lambda sp, x: sp.select_from('t').where(a=x, b=1),
    'where dict': lambda sp, x: sp.select_from('t').where({'a': x}).where(c=2),
    'where list of pairs': lambda sp, x: sp.select_from('t').where([('a', x), ('b', 2)]),
    'where GT': lambda sp, x: sp.select_from('t').where('a', sp.relations.GT(x)),
    'where NE': lambda sp, x: sp.select_from('t').where('a', sp.relations.NE(x)),
    'where LE': lambda sp, x: sp.select_from('t').where('a', sp.relations.LE(x)),
    'where LIKE': lambda sp, x: sp.select_from('t').where('a', sp.relations.LIKE(x)),
    'where NOT LIKE': lambda sp, x: sp.select_from('t').where('a', sp.relations.NOT_LIKE(x)),
    'where REGEXP': lambda sp, x: sp.select_from('t').where('a', sp.relations.REGEXP(x)),
    'where list': lambda sp, x: sp.select_from('t').where('a', [1, x, None]),
    'where IN': lambda sp, x: sp.select_from('t').where('a', sp.relations.IN(x, 'y')),
    'where NOT IN': lambda sp, x: sp.select_from('t').where('a', sp.relations.NOT_IN([x, None])),
    'Q': lambda sp, x: sp.select_from('t').where(sp.Q(a=x) | sp.Q(b=1)),
    'Not': lambda sp, x: sp.select_from('t').where(sp.Not(a=x)),
    'having': lambda sp, x: sp.select_from('t').having('a', x),
    'having column': lambda sp, x: sp.select_from('t').having(x, sp.relations.LT(3)),
    'group': lambda sp, x: sp.select_from('t').group_by('a', x),
    'group desc': lambda sp, x: sp.select_from('t').group_by((x, 'desc')),
    'order': lambda sp, x: sp.select_from('t').order_by(x, 'a'),
    'order desc': lambda sp, x: sp.select_from('t').order_by((x, 'DESC')),
    'order dict': lambda sp, x: sp.select_from('t').order_by({x: 'desc'}),
    'outfile': lambda sp, x: sp.select_from('t').into_outfile(x),
    'outfile fields': lambda sp, x: sp.select_from('t').into_outfile('f').fields_terminated_by(x).lines_terminated_by('n'),
    'outfile lines': lambda sp, x: sp.select_from('t').into_outfile('f').lines_terminated_by(x),
    'outfile enclosed': lambda sp, x: sp.select_from('t').into_outfile('f').optionally_enclosed_by(x),
    'set': lambda sp, x: sp.update('t').set('a', x).where('b', 1),
    'set kwd': lambda sp, x: sp.update('t').set(a=x, c=1).where('b', 1),
    'set column': lambda sp, x: sp.update('t').set(x, 1).where('b', 1),
    'update table': lambda sp, x: sp.update(x).set('a', 1).where('b', 1),
    'update where': lambda sp, x: sp.update('t').set('a', 1).where('b', x),
    'insert': lambda sp, x: sp.insert_into('t').values(a=x),
    'insert rows': lambda sp, x: sp.insert_into('t').values({'a': 1, 'b': x}).values(a=2),
    'insert table': lambda sp, x: sp.insert_into(x).values(a=1),
    'delete table': lambda sp, x: sp.delete_from(x).where(a=1),
    'delete tables': lambda sp, x: sp.delete(x).from_('t').where(a=1),
    'delete where': lambda sp, x: sp.delete_from('t').where('a', x),
    'count': lambda sp, x: sp.select(sp.count(x)),
    'count distinct': lambda sp, x: sp.select(sp.count_distinct([x, 'a'])),
    'max': lambda sp, x: sp.select((sp.max(x), 'al')),
    'concat': lambda sp, x: sp.select(sp.concat('a', x, 'b')),
    'group_concat': lambda sp, x: sp.select(sp.group_concat(x)),
    'group_concat order': lambda sp, x: sp.select(sp.group_concat('a').order_by((x, 'desc'))),
    'separator': lambda sp, x: sp.select(sp.group_concat('a').separator(x)),
    'convert': lambda sp, x: sp.select(sp.convert(x, 'unsigned')),
    'V': lambda sp, x: sp.select(sp.V(x)),
    'R': lambda sp, x: sp.select(sp.R(x)),
    'V list': lambda sp, x: sp.select(sp.V([x, 1])),
    'exists': lambda sp, x: sp.select_from('t').where(sp.exists(x)),
    'sub': lambda sp, x: sp.select((sp.select(x), 'al')),
    'union': lambda sp, x: sp.select('a') | sp.select(x),
    'alias': lambda sp, x: sp.select(('a', x)),
}
# whole clauses, only for custom SQL
WHOLE = {
    'on': lambda sp, x: sp.select_from('t').join('u').on(x),
    'where': lambda sp, x: sp.select_from('t').where(x),
    'where and': lambda sp, x: sp.select_from('t').where(a=1).where(x).where(b=1),
    'having': lambda sp, x: sp.select_from('t').having(x).order_by('a'),
    'Q or': lambda sp, x: sp.select_from('t').where(sp.Q(x) | sp.Q(a=1)),
    'Not': lambda sp, x: sp.select_from('t').where(sp.Not(x)),
    'set': lambda sp, x: sp.update('t').set(x).where(a=1),
    'set more': lambda sp, x: sp.update('t').set(b=1).set(x).where(a=1),
    'delete': lambda sp, x: sp.delete_from('t').where(x),
    'union operand': lambda sp, x: sp.select('a') | x,
    'C': lambda sp, x: sp.select(sp.C(x)),
}
UPSERT = {
    'mysql': {'duplicate': lambda sp, x: sp.insert_into('t').values(a=1).on_duplicate_key_update('a', x),
              'duplicate kwd': lambda sp, x: sp.insert_into('t').values(a=1).on_duplicate_key_update(a=x, b=1)},
    'postgresql': {'conflict': lambda sp, x: sp.insert_into('t').values(a=1).on_duplicate_key_update('k', {'a': x})},
    'sql': {}, 'sqlite': {},
}
WHOLE_UPSERT = {
    'mysql': {'duplicate whole': lambda sp, x: sp.insert_into('t').values(a=1).on_duplicate_key_update(x)},
    'postgresql': {'conflict whole': lambda sp, x: sp.insert_into('t').values(a=1).on_duplicate_key_update('k', x)},
    'sql': {}, 'sqlite': {},
}
BOUNDS['C23'][0] %= len(PLACES) + len(WHOLE) + 4
MARK = 'RAWMARK'


def places(backend, whole):
    out = dict(PLACES, **UPSERT[backend])
    if whole:
        out.update(('whole ' + k, f) for k, f in WHOLE.items())
        out.update(WHOLE_UPSERT[backend])
    return out


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    lengths = [x for x in harvest.lengths(SRC) if 2 < x <= 300 and (deep or x not in harvest.BASE or x in (5, 10, 20, 64, 257))]
    for b in BACKENDS:
        for kind in ('C', 'V', 'int', 'R', 'function'):
            for group in range(4):
                if deep or b in ('sql', 'mysql') or kind in ('C', 'V') or group == 0:
                    out.append((prop, 'h_place', {'backend': b, 'kind': kind, 'group': group, 'hi': 3 if deep and kind == 'C' else 2 if deep else 1},
                                600 if deep else 60))
        out.append((prop, 'h_long', {'backend': b, 'lengths': lengths}, 300 if deep else 60))
        for clause in CLAUSES:
            if deep or b in ('sql', 'postgresql'):
                out.append((prop, 'h_pair', {'backend': b, 'clause': clause, 'hi': 2 if deep else 1}, 300 if deep else 60))
    texts = harvest.strings(SRC)
    for i in range(0, len(texts), 40):
        out.append((prop, 'h_text', {'texts': texts[i:i + 40]}, 60))
    return out


def compare(ctx, sp, backend, f, x, kind, content):
    """The statement differs from the one with a marker only in the marked place."""
    got = render(ctx, f(sp, x))
    want = str(f(sp, sp.C(MARK)))
    if kind == 'C':
        ctx.check(got.strip() == want.replace(MARK, content).strip(), 'custom SQL is not rendered as it is')
        return
    toks = []
    for t in tokens(want, backend):
        if t == ('word', MARK):
            toks.extend(content)
        else:
            toks.append(t)
    ctx.check(tokens(got, backend) == toks, 'explicit value or reference is rendered as something else')


def make(ctx, sp, kind, label, hi, backend):
    if kind == 'C':
        s = ctx.str(label, 1, hi)
        return sp.C(s), s
    if kind == 'V':
        s = ctx.str(label, 0, hi)
        return sp.V(s), string_value(s, backend)
    if kind == 'int':
        i = ctx.int(label)
        return sp.V(i), num(i)
    n = ctx.str(label, 1, hi, 'plain')
    if kind == 'R':
        return sp.R(n), [('id', n)]
    return sp.count(n), words('COUNT(') + [('id', n)] + words(')')


def h_place(ctx, backend, kind, group, hi):
    sp = ctx.sp
    sp.configure(backend)
    options = places(backend, kind == 'C')
    name = ctx.choose('place', tuple(options)[group::4])
    x, content = make(ctx, sp, kind, 'x', hi, backend)
    if name == 'R' and kind in ('V', 'int'):
        # value inside of a reference has no meaning
        ctx.assume(False)
    if kind == 'C' and name in ('sub', 'union', 'whole union operand'):
        # end of an inner statement
        ctx.assume(content.strip() == content)
    compare(ctx, sp, backend, options[name], x, kind, content)


def h_long(ctx, backend, lengths):
    sp = ctx.sp
    sp.configure(backend)
    k = ctx.choose('length', tuple(lengths))
    name = ctx.choose('place', ('column', 'where value', 'whole where', 'set', 'insert', 'order', 'whole set', 'from', 'count', 'where column'))
    s = 'b' * (k // 2) + ctx.str('s', 2, 2) + 'e' * (k - 2 - k // 2)
    compare(ctx, sp, backend, places(backend, True)[name], sp.C(s), 'C', s)


def h_text(ctx, texts):
    sp = ctx.sp
    sp.configure(ctx.choose('backend', BACKENDS))
    s = ctx.choose('text', tuple(texts))
    ctx.assume(s.strip() != '')
    name = ctx.choose('place', ('column', 'where value', 'whole where', 'set', 'insert', 'from', 'where list', 'order'))
    compare(ctx, sp, 'sql', places('sql', True)[name], sp.C(s), 'C', s)


CLAUSES = ('columns', 'from', 'where column', 'where value', 'having', 'group', 'order', 'set', 'list', 'concat', 'count', 'on', 'where whole')
KINDS = ('name', 'C', 'V', 'R', 'int')


def h_pair(ctx, backend, clause, hi):
    """Two items of one clause: only identical ones may be merged."""
    sp = ctx.sp
    sp.configure(backend)
    made = []
    for label in 'xy':
        kind = ctx.choose(label + '.kind', KINDS)
        if clause in ('where value', 'set', 'list', 'on') and kind == 'name':
            ctx.assume(False)
        if clause == 'where whole':
            ctx.assume(kind == 'C')
        if kind == 'int':
            i = ctx.int(label)
            made.append((kind, i, sp.V(i), num(i)))
            continue
        if kind == 'C':
            n = ctx.choose(label, ('k', 'K', 'kk', QUOTE[backend] + 'k' + QUOTE[backend], "'k'"))
            made.append((kind, n, sp.C(n), lex(n, backend)))
            continue
        n = ctx.str(label, 1, hi, 'letter')
        if kind == 'name':
            made.append((kind, n, n, [('id', n)]))
        elif kind == 'R':
            made.append((kind, n, sp.R(n), [('id', n)]))
        else:
            made.append((kind, n, sp.V(n), [('str', n)]))
    (k1, c1, x, tx), (k2, c2, y, ty) = made
    identical = k1 == k2 and c1 == c2
    if clause == 'columns':
        q, head, one, mid = sp.select(x, y), 'SELECT', '?', ','
    elif clause == 'from':
        q, head, one, mid = sp.select_from(x, y), 'SELECT * FROM', '?', ','
    elif clause == 'where column':
        q, head, one, mid = sp.select_from('t').where(x, 1).where(y, 1), 'SELECT * FROM "t" WHERE', '? = 1', ' AND '
    elif clause == 'where value':
        q, head, one, mid = sp.select_from('t').where('c', x).where('c', y), 'SELECT * FROM "t" WHERE', '"c" = ?', ' AND '
    elif clause == 'where whole':
        q, head, one, mid = sp.select_from('t').where(x).where(y), 'SELECT * FROM "t" WHERE', '?', ' AND '
    elif clause == 'having':
        q, head, one, mid = sp.select_from('t').having(x, 1).having(y, 1), 'SELECT * FROM "t" HAVING', '? = 1', ' AND '
    elif clause == 'group':
        q, head, one, mid = sp.select_from('t').group_by(x, y), 'SELECT * FROM "t" GROUP BY', '?', ','
    elif clause == 'order':
        q, head, one, mid = sp.select_from('t').order_by(x, (y, 'asc')), 'SELECT * FROM "t" ORDER BY', '?', ','
    elif clause == 'set':
        q, head, one, mid = sp.update('t').allow_update_all().set('c', x).set('c', y), 'UPDATE "t" SET', '"c" = ?', ','
    elif clause == 'on':
        q, head, one, mid = sp.select_from('t').join('u').on('c', x).on('c', y), 'SELECT * FROM "t" JOIN "u" ON', '"c" = ?', ' AND '
    elif clause == 'list':
        q, head, one, mid = sp.select_from('t').where('c', [x, y]), 'SELECT * FROM "t" WHERE "c" IN', '?', ','
    elif clause == 'concat':
        q, head, one, mid = sp.select(sp.concat(x, y)), 'SELECT CONCAT', '?', ','
    else:
        q, head, one, mid = sp.select(sp.count([x, y])), 'SELECT COUNT', '?', ','
    got = tokens(render(ctx, q), backend)
    a, b = expect(one, tx), expect(one, ty)
    both = a + words(mid) + b
    if clause in ('list', 'concat', 'count'):
        ctx.check(got == words(head + '(') + both + words(')'), 'item is lost or altered')
    else:
        ok = got == words(head) + both or identical and got == words(head) + a
        ctx.check(ok, 'item is lost or altered')
