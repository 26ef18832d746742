"""C11: tables and joins."""
from .base import *
from .conds import sides

BOUNDS = {
    'C11': ['2 joins (thorough: 3) of every type to tables and aliases of 1 ordinary symbolic character each, with no condition, '
            'conditions between two columns, with an unbounded symbolic int or two conditions, in SELECT, UPDATE and DELETE',
            'histories of 4 calls (thorough: 5) of from_, join and on with symbolic table names',
            'up to 40 joins (and every integer constant of the source, +1, up to 300)', 'all four databases'],
}
ASSUMPTIONS = {
    'C11': ['a join repeated with the same table, alias and conditions may be given once; together with an inner join it becomes '
            'an inner join; the order of a left and a right join of the very same table and condition is left open',
            'a full join repeated as a join of another type with the same condition is outside the claim'],
}

METHODS = {'join': 'JOIN', 'inner_join': 'JOIN', 'left_join': 'LEFT JOIN', 'right_join': 'RIGHT JOIN', 'full_join': 'FULL JOIN'}
STATEMENTS = ('select', 'update', 'delete')
SHAPE = {'select': 'SELECT * FROM ?', 'update': 'UPDATE ? SET "s" = 1 WHERE "k" = 1', 'delete': 'DELETE FROM ? WHERE "k" = 1'}


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    for b in BACKENDS:
        for st in STATEMENTS:
            if not deep and (b, st) not in (('sql', 'select'), ('mysql', 'update'), ('postgresql', 'select'), ('sqlite', 'delete')):
                continue
            for m in METHODS:
                if m == 'full_join' and (b != 'postgresql' or st != 'select'):
                    continue
                if not deep and (b == 'postgresql' and m not in ('join', 'full_join') or m == 'inner_join' and st != 'select'):
                    continue
                out.append((prop, 'h_joins', {'backend': b, 'statement': st, 'first': m, 'n': 3 if deep else 2}, 1200 if deep else 60))
        if deep or b == 'mysql':
            for m in ('inner_join', 'left_join', 'right_join'):
                out.append((prop, 'h_repeat', {'backend': b, 'first': m}, 100))
        out.append((prop, 'h_many', {'backend': b, 'counts': harvest.counts(SRC, (1, 3, 12, 40), 300)}, 60))
        if deep or b in ('sql', 'postgresql'):
            out.append((prop, 'h_far', {'backend': b, 'counts': harvest.counts(SRC, (2, 3, 4, 7, 20), 40)}, 60))
        for first in OPS:
            out.append((prop, 'h_history', {'backend': b, 'n': 5 if deep else 4, 'first': first}, 900 if deep else 60))
        out.append((prop, 'h_forms', {'backend': b, 'hi': 2 if deep else 1}, 60))
    return out


def start(sp, statement):
    if statement == 'select':
        return sp.select_from('t')
    if statement == 'update':
        return sp.update('t').set(s=1).where(k=1)
    return sp.delete_from('t').where(k=1)


def joined_table(ctx, label):
    """-> (argument of join, tokens)"""
    n = ctx.str(label, 1, 1, 'plain')
    form = ctx.choose(label + '.form', ('str', 'tuple', 'dict'))
    if form == 'str':
        return n, [('id', n)]
    a = ctx.str(label + '.alias', 1, 1, 'plain')
    toks = [('id', n), ('word', 'AS'), ('id', a)]
    return ((n, a) if form == 'tuple' else {n: a}), toks


def conditions(ctx, q, label):
    kind = ctx.choose(label, ('none', 'columns', 'int', 'two'))
    out = []
    if kind in ('columns', 'two'):
        q.on('t.x', 'y')
        out.append(name('t.x') + words('=') + name('y'))
    if kind in ('int', 'two'):
        v = ctx.int(label + '.v')
        q.on('z', v)
        out.append(name('z') + words('=') + num(v))
    return out


def show_join(join):
    typ, table, ons = join
    out = words(typ) + table
    if ons:
        out = out + [('word', 'ON')] + joined(ons, 'AND')
    return out


def minimize(joins):
    """Joins as they have to come out."""
    groups = []
    for typ, table, ons in joins:
        for g in groups:
            if g[1] == table and g[2] == ons:
                g[0].append(typ)
                break
        else:
            groups.append(([typ], table, ons))
    out = []
    for types, table, ons in groups:
        kinds = sorted(set(types))
        if len(kinds) == 1 or 'JOIN' in kinds:
            out.append([('JOIN' if 'JOIN' in kinds else kinds[0], table, ons)])
        else:
            out.append([(t, table, ons) for t in types])
    return out


def check_tables(ctx, q, backend, statement, tables):
    """tables: list of (tokens, joins)"""
    got = tokens(render(ctx, q), backend)
    variants = [[]]
    for i, (toks, joins) in enumerate(tables):
        groups = minimize(joins)
        rendered = [[show_join(j) for j in g] for g in groups]
        bodies = [[]]
        for g in rendered:
            if len(g) < 2:
                orders = [g]
            else:
                # more joins of one table and condition: which of them come first is open
                seen = []
                for x in g:
                    if x not in seen:
                        seen.append(x)
                orders = [g, seen, seen[::-1]]
            bodies = [b + sum(o, []) for b in bodies for o in orders]
        sep = [('op', ',')] if i else []
        variants = [v + sep + toks + b for v in variants for b in bodies]
    ctx.check(any(got == expect(SHAPE[statement], v) for v in variants),
              'table or join is lost, altered, moved or has other conditions')


def h_joins(ctx, backend, statement, first, n):
    sp = ctx.sp
    sp.configure(backend)
    q = start(sp, statement)
    joins = []
    for i in range(n):
        if i == 0:
            m = first
        elif backend == 'postgresql' and statement == 'select':
            m = ctx.choose('m%d' % i, ('inner_join', 'left_join', 'right_join', 'full_join'))
        else:
            m = ctx.choose('m%d' % i, ('inner_join', 'left_join', 'right_join'))
        arg, toks = joined_table(ctx, 'n%d' % i)
        getattr(q, m)(arg)
        ons = conditions(ctx, q, 'on%d' % i)
        for typ, table, other in joins:
            if 'FULL JOIN' in (typ, METHODS[m]) and typ != METHODS[m]:
                ctx.assume(table != toks or other != ons)
        joins.append((METHODS[m], toks, ons))
    check_tables(ctx, q, backend, statement, [([('id', 't')], joins)])
    ctx.reached(first)


def h_repeat(ctx, backend, first):
    """The same table joined more times among other joins."""
    sp = ctx.sp
    sp.configure(backend)
    q = sp.select_from('t')
    joins = []
    for i in range(3):
        m = first if i == 0 else ctx.choose('m%d' % i, ('inner_join', 'left_join', 'right_join'))
        t = ctx.choose('t%d' % i, ('u', 'w'))
        getattr(q, m)(t)
        kind = ctx.choose('on%d' % i, ('x', 'y', 'swapped'))
        if kind == 'swapped':
            q.on('u.b', 't.x')
            ons = [sides(name('u.b') + words('=') + name('t.x'))]
        else:
            q.on('t.' + kind, 'u.b')
            ons = [sides(name('t.' + kind) + words('=') + name('u.b'))]
        joins.append((METHODS[m], name(t), ons))
    got = tokens(render(ctx, q), backend)
    head = words('SELECT * FROM "t"')
    ctx.check(got[:len(head)] == head, 'table is lost')
    found = []
    cur = None
    for t in got[len(head):]:
        if t[0] == 'word' and t[1] in ('LEFT', 'RIGHT', 'JOIN', 'FULL') and not (cur and cur[-1][1] in ('LEFT', 'RIGHT', 'FULL')):
            cur = []
            found.append(cur)
        ctx.check(cur is not None, 'join is malformed')
        cur.append(t)
    flat = []
    for f in found:
        at = f.index(('word', 'ON')) if ('word', 'ON') in f else len(f)
        flat.append((f[:at], sides(f[at + 1:])))
    groups = minimize(joins)
    want = [[(words(typ) + table, ons[0]) for typ, table, ons in g] for g in groups]
    i = 0
    for g in want:
        if len(g) == 1:
            ctx.check(i < len(flat) and flat[i] == g[0], 'join is lost, altered or moved')
            i += 1
        else:
            rest = [x for x in g]
            while i < len(flat) and flat[i] in rest:
                i += 1
            ctx.check(all(x in flat for x in g), 'join is lost')
    ctx.check(i == len(flat), 'there are more joins than expected')


def h_many(ctx, backend, counts):
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.choose('n', counts)
    kind = ctx.choose('kind', ('inner', 'mixed', 'alias', 'tables'))
    v = ctx.int('v')
    q = sp.select_from('t')
    joins = []
    if kind == 'tables':
        q.from_(*['x%d' % i for i in range(n)])
        check_tables(ctx, q, backend, 'select', [([('id', 't')], [])] + [([('id', 'x%d' % i)], []) for i in range(n)])
        return
    for i in range(n):
        m = ('inner_join', 'left_join', 'right_join')[i % 3 if kind == 'mixed' else 0]
        table = 'u' if kind == 'alias' else 'u%d' % i
        toks = [('id', table)]
        arg = table
        if kind == 'alias':
            arg = (table, 'a%d' % i)
            toks = toks + words('AS') + [('id', 'a%d' % i)]
        getattr(q, m)(arg).on('t.id', 'u%d.id' % i).on('k', v)
        joins.append((METHODS[m], toks, [name('t.id') + words('=') + name('u%d.id' % i), name('k') + words('=') + num(v)]))
    check_tables(ctx, q, backend, 'select', [([('id', 't')], joins)])


def h_far(ctx, backend, counts):
    """A join repeated after many others is the same join as the one at the beginning."""
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.choose('n', counts)
    kind = ctx.choose('kind', ('left_join', 'right_join', 'full_join' if backend == 'postgresql' else 'left_join', 'inner_join'))
    q = sp.select_from('t')
    joins = []
    v = ctx.int('v')
    which = ctx.choose('which', ('first', 'middle', 'last'))
    k = {'first': 0, 'middle': n // 2, 'last': n - 1}[which]
    same_ = ctx.flag('same')
    for i in list(range(n)) + [k]:
        again = len(joins) == n
        w = 7 if not same_ and again else v
        getattr(q, kind)('u%d' % i).on('t.id', 'u%d.id' % i).on('k', w)
        joins.append((METHODS[kind], [('id', 'u%d' % i)], [name('t.id') + words('=') + name('u%d.id' % i), name('k') + words('=') + num(w)]))
    check_tables(ctx, q, backend, 'select', [([('id', 't')], joins)])


OPS = ('from', 'from alias', 'join', 'left alias', 'on', 'on int')


def h_history(ctx, backend, n, first):
    """Any order of from_, join and on: joins belong to the last table, conditions to the last join."""
    sp = ctx.sp
    sp.configure(backend)
    q = sp.select()
    tables = []
    names = []
    for i in range(n):
        op = first if i == 0 else ctx.choose('op%d' % i, OPS)
        allowed = op.startswith('from') or tables and (not op.startswith('on') or tables[-1][1])
        nm = 'n%d' % i
        if op.startswith('on'):
            v = ctx.int('v%d' % i) if op == 'on int' else 'z.b'
            act = lambda: q.on('c%d' % i, v)
        elif op == 'from':
            nm = ctx.str('s%d' % i, 1, 1, 'plain')
            act = lambda: q.from_(nm)
        elif op == 'from alias':
            act = lambda: q.from_table(nm, 'al')
        elif op == 'join':
            nm = ctx.str('s%d' % i, 1, 1, 'plain')
            act = lambda: q.join(nm)
        else:
            act = lambda: q.left_join({nm: 'al'})
        if not allowed:
            ctx.check(raises(ctx, act, sp.exceptions.InvalidQueryException), 'join or condition of nothing is accepted')
            continue
        act()
        if op.startswith('from'):
            toks = [('id', nm)] if op == 'from' else [('id', nm)] + words('AS "al"')
            ctx.assume(all(toks != t or not joins for t, joins in tables))
            if all(toks != t for t, _ in tables):
                tables.append((toks, []))
        elif op in ('join', 'left alias'):
            toks = [('id', nm)] if op == 'join' else [('id', nm)] + words('AS "al"')
            tables[-1][1].append(('JOIN' if op == 'join' else 'LEFT JOIN', toks, []))
        else:
            tables[-1][1][-1][2].append(name('c%d' % i) + words('=') + (num(v) if op == 'on int' else name('z.b')))
    ctx.assume(tables)
    check_tables(ctx, q, backend, 'select', tables)


def h_forms(ctx, backend, hi):
    """Arguments of joins given in every form mean the same join."""
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.str('n', 1, hi, 'plain')
    a = ctx.str('a', 1, hi, 'plain')
    st = ctx.choose('statement', STATEMENTS)
    m = ctx.choose('m', tuple(x for x in METHODS if x != 'full_join' or backend == 'postgresql' and st == 'select'))
    form = ctx.choose('form', ('tuple', 'list', 'dict', 'dotted', 'sub'))
    q = start(sp, st)
    if form == 'dotted':
        getattr(q, m)(n + '.' + a)
        toks = [('id', n), ('op', '.'), ('id', a)]
    elif form == 'sub':
        getattr(q, m)((sp.select_from('s').where(x=1), a))
        toks = words('(SELECT * FROM "s" WHERE "x" = 1) AS') + [('id', a)]
    else:
        getattr(q, m)({'tuple': (n, a), 'list': [n, a], 'dict': {n: a}}[form])
        toks = [('id', n), ('word', 'AS'), ('id', a)]
    rel, text = ctx.choose('rel', (('EQ', '='), ('NE', '!='), ('GT', '>'), ('GE', '>='), ('LT', '<'), ('LE', '<=')))
    style = ctx.choose('style', ('args', 'dict', 'kwds'))
    value_ = getattr(sp.relations, rel)('t.id')
    if style == 'args':
        q.on('c', value_)
    elif style == 'dict':
        q.on({'c': value_})
    else:
        q.on(c=value_)
    check_tables(ctx, q, backend, st, [([('id', 't')], [(METHODS[m], toks, [name('c') + words(text) + name('t.id')])])])
