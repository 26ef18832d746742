"""Longer names and values (every character symbolic) in scenarios of most properties: nothing may depend on what a name or text is."""
from symx import logic

from .base import *

BOUNDS = {p: ['names and texts of every length 1-14, samples up to 64 and each integer constant of the source +-1 up to 64, over characters without '
              'special meaning, all characters symbolic, in fixed scenarios of this property']
          for p in ('C05', 'C08', 'C09', 'C10', 'C11', 'C12', 'C15', 'C16', 'C17', 'C18', 'C20', 'C21', 'C24', 'C04', 'C06', 'C07', 'C19', 'C23', 'C25', 'C26')}
ASSUMPTIONS = {}


def tasks(prop, tier):
    lengths = [x for x in harvest.lengths(SRC) if 0 < x <= 64 and (x <= 14 or x in (20, 33, 64) or x not in harvest.BASE)]
    if tier == 'thorough':
        lengths = [x for x in harvest.lengths(SRC) if 0 < x <= 300]
    out = []
    for i, (p, _) in enumerate(SCENES):
        if p == prop:
            for kind in ('name', 'value'):
                out.append((prop, 'h_long', {'scene': i, 'kind': kind, 'lengths': lengths}, 300 if tier == 'thorough' else 60))
                out.append((prop, 'h_long', {'scene': i, 'kind': kind, 'lengths': lengths, 'twins': True}, 300 if tier == 'thorough' else 60))
    return out


def h_long(ctx, scene, kind, lengths, twins=False):
    ctx.o, ctx.y = 'o', 'y'
    ctx.sp.configure('sql')
    k = ctx.choose('length', lengths)
    s = ctx.str('s', k, k, 'plain')
    if kind == 'name':
        n, v = s, 'w'
        ctx.assume(n != 'o')
    else:
        n, v = 'k', s
        ctx.assume(v != 'y')
    if twins:
        # two names (or texts) which differ only at the end, or only at the beginning
        p, q = ctx.choose('ends', (('p', 'q'), ('q', 'p'), ('x1', 'x')))
        where = ctx.flag('front')
        x, y = (p + s, q + s) if where else (s + p, s + q)
        if kind == 'name':
            n, ctx.o = x, y
        else:
            v, ctx.y = x, y
    prop, fn = SCENES[scene]
    fn(ctx, ctx.sp, n, v, [('id', n)], [('str', v)])


def is_(ctx, q, template, *args):
    same(ctx, q, 'sql', twin(ctx, template, *args), 'statement is altered')


def twin(ctx, template, *args):
    """expect() with the names o and the texts y of this run"""
    return [('id', ctx.o) if t == ('id', 'o') else ('str', ctx.y) if t == ('str', 'y') else ('id', ctx.y) if t == ('id', 'y') else t
            for t in expect(template, *args)]


def s_conditions(ctx, sp, n, v, tn, tv):
    q = sp.select_from('t').where(n, v).where(n, ctx.y).where(n, sp.relations.NE(v)).having(n, v).having(ctx.o, v).where(ctx.o, v)
    is_(ctx, q, 'SELECT * FROM "t" WHERE ? = ? AND ? = \'y\' AND ? != ? AND "o" = ? HAVING ? = ? AND "o" = ?', tn, tv, tn, tn, tv, tv, tn, tv, tv)


def s_on(ctx, sp, n, v, tn, tv):
    q = sp.select_from('t').left_join('u').on(n, ctx.o).on(n, sp.relations.NE(ctx.o)).on(n, sp.V(v)).on(ctx.o, sp.V(ctx.y))
    is_(ctx, q, 'SELECT * FROM "t" LEFT JOIN "u" ON ? = "o" AND ? != "o" AND ? = ? AND "o" = \'y\'', tn, tn, tn, tv)


def s_write_conditions(ctx, sp, n, v, tn, tv):
    if ctx.flag('update'):
        q = sp.update('t').set(a=1).where(n, v).where(ctx.o, ctx.y).where(n, ctx.y)
        is_(ctx, q, 'UPDATE "t" SET "a" = 1 WHERE ? = ? AND "o" = \'y\' AND ? = \'y\'', tn, tv, tn)
    else:
        q = sp.delete_from('t').where(n, [v, ctx.y]).where(ctx.o, sp.relations.LIKE(v)).where(n, None)
        is_(ctx, q, 'DELETE FROM "t" WHERE ? IN (?, \'y\') AND "o" LIKE ? AND ? IS NULL', tn, tv, tv, tn)


def s_insert(ctx, sp, n, v, tn, tv):
    q = sp.insert_into('t').values({n: v, ctx.o: 1}).values({n: ctx.y}).values({ctx.o: v})
    got = tokens(render(ctx, q), 'sql')
    a = twin(ctx, 'INSERT INTO "t" (?, "o") VALUES (?, 1), (\'y\', NULL), (NULL, ?)', tn, tv, tv)
    b = twin(ctx, 'INSERT INTO "t" ("o", ?) VALUES (1, ?), (NULL, \'y\'), (?, NULL)', tn, tv, tv)
    ctx.check(got == a or got == b, 'inserted value is altered or in another column')


def s_update(ctx, sp, n, v, tn, tv):
    q = sp.update('t').set(n, v).set(ctx.o, v).set(n, ctx.y).set(n, 5).allow_update_all()
    is_(ctx, q, 'UPDATE "t" SET ? = ?, "o" = ?, ? = \'y\', ? = 5', tn, tv, tv, tn, tn)


def s_upsert(ctx, sp, n, v, tn, tv):
    if ctx.flag('pg'):
        sp.configure('postgresql')
        q = sp.insert_into('t').values(a=1).on_duplicate_key_update(n, (ctx.o, v), (n, v), (n, ctx.y))
        same(ctx, q, 'postgresql', twin(ctx, 'INSERT INTO "t" ("a") VALUES (1) ON CONFLICT (?) DO UPDATE "o" = ?, ? = ?, ? = \'y\'', tn, tv, tn, tv, tn),
             'assignment is altered')
    else:
        sp.configure('mysql')
        q = sp.insert_into('t').values(a=1).on_duplicate_key_update((ctx.o, v), (n, v), (n, ctx.y))
        same(ctx, q, 'mysql', twin(ctx, 'INSERT INTO "t" ("a") VALUES (1) ON DUPLICATE KEY UPDATE "o" = ?, ? = ?, ? = \'y\'', tv, tn, tv, tn),
             'assignment is altered')


def s_styles(ctx, sp, n, v, tn, tv):
    texts = [render(ctx, sp.select_from('t').where(*a, **k)) for a, k in (
        ((n, v), {}), (({n: v},), {}), (([(n, v)],), {}), (((n, v), (n, v)), {}), (([[n, v]],), {}), ((), {n: v}))]
    for t in texts[1:]:
        ctx.check(t == texts[0], 'argument styles differ')
    cols = [render(ctx, x) for x in (sp.select((n, v)), sp.select([n, v]), sp.select({n: v}), sp.select(**{n: v}), sp.select().columns((n, v)))]
    for t in cols[1:]:
        ctx.check(t == cols[0], 'argument styles differ')
    same(ctx, sp.select((n, v)), 'sql', expect('SELECT ? AS ?', tn, [('id', v)]), 'column is altered')


def s_joins(ctx, sp, n, v, tn, tv):
    q = sp.select_from(n).left_join((n, 'x')).on('a', n).join(n).on(ctx.o, 'a').from_(ctx.o).right_join(ctx.o).on(n, sp.V(v)).left_join((ctx.o, v))
    is_(ctx, q, 'SELECT * FROM ? LEFT JOIN ? AS "x" ON "a" = ? JOIN ? ON "o" = "a", "o" RIGHT JOIN "o" ON ? = ? LEFT JOIN "o" AS ?',
        tn, tn, tn, tn, tn, tv, [('id', v)])


def s_orders(ctx, sp, n, v, tn, tv):
    q = sp.select_from('t').order_by(n, ctx.o, (n, 'desc')).group_by((n, 'DESC'), ctx.o, n)
    is_(ctx, q, 'SELECT * FROM "t" GROUP BY ?, "o" ORDER BY ? DESC, "o"', tn, tn)


def s_has(ctx, sp, n, v, tn, tv):
    word = ctx.str('w', 1, 1, 'word')
    q = sp.select('z').from_('t').where('c' + word, 'x' + v)
    ctx.observe(str(q))
    ctx.check(not q.has('having') and q.has('where') and not q.has('order_by'), 'has() is wrong')
    ctx.check(q.has('where', 'c' + word), 'has() does not find the column')
    is_(ctx, q, 'SELECT "z" FROM "t" WHERE ? = ?', [('id', 'c' + word)], [('str', 'x' + v)])


def s_render(ctx, sp, n, v, tn, tv):
    def build(peek):
        q = sp.select(n, ctx.o)
        for step in (lambda: q.from_(n), lambda: q.join((n, 'x')), lambda: q.on(n, ctx.o), lambda: q.where(n, v), lambda: q.where(ctx.o, [v, None]),
                     lambda: q.order_by(n), lambda: q.order_by((n, 'desc')), lambda: q.limit(5)):
            step()
            if peek:
                str(q), repr(q), q == q.copy(), q.has('where'), hash(q)
        return render(ctx, q)
    a, b = build(False), build(True)
    ctx.check(a == b, 'inspected statement renders differently')


def s_copy(ctx, sp, n, v, tn, tv):
    def base():
        return sp.select(n).from_(n).join('u').on(n, ctx.o).where(n, v).order_by(n)
    q = base()
    c = q.copy()
    c.where(ctx.o, v).order_by((n, 'desc')).on(ctx.o, sp.V(v)).columns(ctx.o)
    ctx.check(render(ctx, q) == render(ctx, base()), 'change of the copy shows in the original')
    d = base().where(ctx.o, v).order_by((n, 'desc')).on(ctx.o, sp.V(v)).columns(ctx.o)
    ctx.check(render(ctx, c) == render(ctx, d), 'copy renders differently')


def s_equal(ctx, sp, n, v, tn, tv):
    def base(name, val):
        return sp.select(name).from_('t').where(name, val).order_by(name).into_outfile(val)
    ctx.check(bool(base(n, v) == base(n, v)), 'same statements are not equal')
    ctx.check(not base(n, v) == base(n, ctx.y if v != 'w' else 'yy'), 'statements with different values are equal')
    ctx.check(not base(n, v) == base(ctx.o, v), 'statements with different names are equal')
    ctx.check(not base(n, v) != base(n, v), '!= disagrees')
    ctx.check(bool(sp.update('t').set(n, v) == sp.update('t').set(n, v)), 'same statements are not equal')
    ctx.check(not sp.update('t').set(n, v) == sp.update('t').set(n, sp.R(v)), 'value and reference are equal')
    ctx.check(not sp.Q(n, v) == sp.Q(ctx.o, v), 'different conditions are equal')
    ctx.check(bool(sp.Q(n, v) == sp.Q(n, v)), 'same conditions are not equal')


def s_functions(ctx, sp, n, v, tn, tv):
    q = sp.select(sp.count(n), (sp.avg_distinct(n), 'x'), sp.concat(n, ctx.o, n, sp.V(v)), sp.group_concat(n, ctx.o).order_by(n).separator(v),
                  sp.convert(n, 'int'))
    is_(ctx, q, 'SELECT COUNT(?), AVG(DISTINCT ?) AS "x", CONCAT(?, "o", ?, ?), GROUP_CONCAT(?, "o" ORDER BY ? SEPARATOR ?), CONVERT(?, INT)',
        tn, tn, tn, tn, tv, tn, tn, tv, tn)


def s_subselects(ctx, sp, n, v, tn, tv):
    sub = sp.select(n).from_(n).where(n, v)
    t = words('SELECT') + tn + words('FROM') + tn + words('WHERE') + tn + words('=') + tv
    q = sp.select_from((sub, 'x')).where('a', sp.relations.IN(sub)).where(sp.exists(sub))
    is_(ctx, q, 'SELECT * FROM (?) AS "x" WHERE "a" IN (?) AND EXISTS(?)', t, t, t)
    is_(ctx, (sub | sp.select(n)) & sub, '? UNION SELECT ? UNION ALL ?', t, tn, t)


def s_dictionaries(ctx, sp, n, v, tn, tv):
    """The order in which a dictionary was filled does not matter."""
    one, two = [(n, v), (ctx.o, ctx.y)], [(ctx.o, ctx.y), (n, v)]
    for make in (lambda d: sp.select_from('t').where(d), lambda d: sp.select_from('t').having(**d), lambda d: sp.update('t').allow_update_all().set(d),
                 lambda d: sp.insert_into('t').values(d), lambda d: sp.select(d), lambda d: sp.select_from(d), lambda d: sp.Q(**d)):
        ctx.check(render(ctx, make(dict(one))) == render(ctx, make(dict(two))), 'insertion order of a dictionary matters')


def s_lists(ctx, sp, n, v, tn, tv):
    q = sp.select(n, ctx.o, (n, v), (n, ctx.y), (ctx.o, v), n).from_(n, ctx.o, (n, v), (n, ctx.y)).from_(n)
    a = [('id', v)]
    is_(ctx, q, 'SELECT ?, "o", ? AS ?, ? AS "y", "o" AS ? FROM ?, "o", ? AS ?, ? AS "y"', tn, tn, a, tn, a, tn, tn, a, tn)


def s_boolean(ctx, sp, n, v, tn, tv):
    """Read with the precedence of SQL, the text means the expression."""
    o, y = [('id', ctx.o)], [('str', ctx.y)]
    atoms = [tn + words('=') + tv, o + words('=') + y, tn + words('=') + y, o + words('!=') + tv]

    def key(toks):
        for i, a in enumerate(atoms):
            if list(toks) == a:
                return i
        return 'other'
    a, b, c, d = [('atom', i) for i in range(4)]
    Q = sp.Q
    w, x, z, u = Q(n, v), Q(ctx.o, ctx.y), Q({n: ctx.y}), Q(ctx.o, sp.relations.NE(v))
    form = ctx.choose('form', (0, 1, 2, 3))
    e, f = (((w | x) & (z | u), ('and', [('or', [a, b]), ('or', [c, d])])),
            (w | x & z | u, ('or', [a, ('and', [b, c]), d])),
            (sp.Not(w | x), ('not', ('or', [a, b]))),
            (Q(w | z, x) | u, ('or', [('and', [('or', [a, c]), b]), d])))[form]
    q = sp.select_from('t').where(e)
    if form != 1:
        q.where(n, v)
        f = ('and', [f, a])
    cond = logic.where_of(tokens(render(ctx, q), 'sql'), 'WHERE')
    ctx.check(cond is not None, 'condition is missing')
    try:
        ok = logic.equivalent(logic.parse(cond, key), f)
    except logic.ParseError:
        ok = False
    ctx.check(ok, 'rendered condition is not equivalent to the expression')


def s_members(ctx, sp, n, v, tn, tv):
    r = sp.relations
    q = sp.select_from('t').where(n, [v, None, ctx.y]).where(ctx.o, r.NOT_IN(ctx.y, v)).where(n, r.NOT_IN([None, v])).where(ctx.o, r.IN(x for x in (v, ctx.y)))
    is_(ctx, q, 'SELECT * FROM "t" WHERE (? IN (?, \'y\') OR ? IS NULL) AND "o" NOT IN (\'y\', ?) AND (? NOT IN (?) AND ? IS NOT NULL) AND "o" IN (?, \'y\')',
        tn, tv, tn, tv, tn, tv, tn, tv)


def s_dialects(ctx, sp, n, v, tn, tv):
    """The same statement in all databases, apart from the spelling of its tokens."""
    b = ctx.choose('backend', BACKENDS)
    q = sp.select(n, (ctx.o, n)).from_(n).left_join(ctx.o).on(n, ctx.o).where(n, v).where(ctx.o, sp.relations.LIKE(v)).where(n, True).order_by(n).limit(3)
    sp.configure(b)
    e = twin(ctx, 'SELECT ?, "o" AS ? FROM ? LEFT JOIN "o" ON ? = "o" WHERE ? = ? AND "o" LIKE ? AND ? = ? ORDER BY ? LIMIT 3',
             tn, tn, tn, tn, tn, tv, tv, tn, value(True, b), tn)
    same(ctx, q, b, e, 'statement depends on the database')
    same(ctx, sp.insert_into(n).values({n: v}), b, expect('INSERT INTO ? (?) VALUES (?)', tn, tn, tv), 'statement depends on the database')


def s_kinds(ctx, sp, n, v, tn, tv):
    """Explicit values, references and custom SQL of the same text next to each other."""
    q = sp.select(n, sp.V(v), sp.R(n), sp.C('raw')).from_('t').where(n, sp.R(ctx.o)).where(ctx.o, sp.V(v)).where(sp.R(n), sp.V(ctx.y)).where(n, sp.C('raw'))
    got = tokens(render(ctx, q), 'sql')
    tail = twin(ctx, 'FROM "t" WHERE ? = "o" AND "o" = ? AND ? = \'y\' AND ? = raw', tn, tv, tn, tn)
    ctx.check(got == expect('SELECT ?, ?, ?, raw', tn, tv, tn) + tail, 'value, reference or custom SQL is altered or merged')
    is_(ctx, sp.update('t').set(n, sp.R(ctx.o)).set(n, sp.V(ctx.y)).set(ctx.o, sp.V(v)).where(k=1),
        'UPDATE "t" SET ? = "o", ? = \'y\', "o" = ? WHERE "k" = 1', tn, tn, tv)


def s_outfile(ctx, sp, n, v, tn, tv):
    q = sp.select(n).from_(n).into_outfile(v).fields_terminated_by(ctx.y).lines_terminated_by(v)
    is_(ctx, q, 'SELECT ? FROM ? INTO OUTFILE ? FIELDS TERMINATED BY \'y\' LINES TERMINATED BY ?', tn, tn, tv, tv)
    is_(ctx, q.into_outfile(ctx.y).lines_terminated_by(ctx.y), 'SELECT ? FROM ? INTO OUTFILE \'y\' FIELDS TERMINATED BY \'y\' LINES TERMINATED BY \'y\'', tn, tn)
    q = sp.select(n).from_(n).fields_terminated_by(v).optionally_enclosed_by(ctx.y).into_outfile(v)
    is_(ctx, q, 'SELECT ? FROM ? INTO OUTFILE ? FIELDS TERMINATED BY ? OPTIONALLY ENCLOSED BY \'y\'', tn, tn, tv, tv)


def s_text(ctx, sp, n, v, tn, tv):
    q = sp.select(n).from_(n)
    ctx.check(q.where(n, v) is q and q.order_by(n) is q, 'method does not return its object')
    for x in (q, sp.update(n).set(n, v).where(n, v), sp.delete_from(n).where(ctx.o, v), sp.insert_into(n).values({n: v, 'z': ctx.y}), sp.Q(n, v), sp.concat(n, sp.V(v))):
        t = render(ctx, x)
        ctx.check('{}'.format(x) == t and '%s' % x == t and x.tosql() == t and str(x) == t, 'ways of rendering differ')
        ctx.check(t in repr(x), 'repr() does not show the text')


def s_guard(ctx, sp, n, v, tn, tv):
    exc = sp.exceptions.ConfirmUpdateAllException, sp.exceptions.ConfirmDeleteAllException
    ctx.check(raises(ctx, lambda: str(sp.delete_from(n)), exc[1]), 'DELETE of all rows is rendered')
    ctx.check(raises(ctx, lambda: str(sp.update(n).set(n, v)), exc[0]), 'UPDATE of all rows is rendered')
    ctx.check(raises(ctx, lambda: str(sp.delete(n).from_(n).left_join(ctx.o).on(n, sp.V(v))), exc[1]), 'DELETE of all rows is rendered')
    is_(ctx, sp.delete_from(n).where(n, v), 'DELETE FROM ? WHERE ? = ?', tn, tn, tv)
    is_(ctx, sp.update(n).set(n, v).where(ctx.o, v), 'UPDATE ? SET ? = ? WHERE "o" = ?', tn, tn, tv, tv)


SCENES = (
    ('C06', s_boolean), ('C07', s_members), ('C19', s_dialects), ('C23', s_kinds), ('C25', s_outfile), ('C26', s_text), ('C04', s_guard),
    ('C05', s_conditions), ('C05', s_on), ('C05', s_write_conditions), ('C08', s_insert), ('C09', s_update), ('C09', s_upsert), ('C10', s_styles),
    ('C11', s_joins), ('C12', s_orders), ('C15', s_has), ('C16', s_render), ('C17', s_copy), ('C18', s_equal), ('C20', s_functions),
    ('C21', s_subselects), ('C10', s_dictionaries), ('C24', s_lists),
)
