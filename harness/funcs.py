"""C20 (functions) and C21 (sub-selects and unions)."""
from .base import *

BOUNDS = {
    'C20': ['AVG, COUNT, MAX, MIN, SUM with 1-3 columns of 1-2 ordinary or 1 arbitrary symbolic characters, histories of 3 switches of DISTINCT; '
            'CONCAT and GROUP_CONCAT of 1-3 arguments with orders and separators of 0-2 arbitrary characters; CONVERT with types of '
            'lower-case letters; every function as column, aliased column, sort item and nested'],
    'C21': ['17 places of a sub-select, its content with a symbolic name and int, nested up to three deep',
            'unions of up to 4 (thorough: 5) selects in every bracketing and with every choice of operators, with or without their '
            'own ORDER BY and LIMIT; of 5 and 6 (thorough: 7) plain selects'],
}
ASSUMPTIONS = {
    'C20': [],
    'C21': ['unions of one kind may be written without brackets (a UNION (b UNION c) is a UNION b UNION c)',
            'FOR UPDATE and INTO OUTFILE inside operands of a union are outside the claim'],
}


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'C20':
        for b in BACKENDS:
            for f in FUNCS:
                out.append((prop, 'h_aggregate', {'backend': b, 'func': f, 'hi': 2 if deep else 1}, 300 if deep else 60))
            for f in ('concat', 'group_concat'):
                out.append((prop, 'h_concat', {'backend': b, 'func': f, 'n': 4 if deep else 3}, 300 if deep else 60))
            out.append((prop, 'h_group_concat', {'backend': b, 'hi': 3 if deep else 2}, 300 if deep else 60))
            out.append((prop, 'h_convert', {'backend': b}, 60))
            out.append((prop, 'h_use', {'backend': b}, 60))
            out.append((prop, 'h_func_many', {'backend': b, 'counts': harvest.counts(SRC, (1, 3, 12, 40), 300)}, 60))
            out.append((prop, 'h_func_name', {'backend': b}, 60))
            out.append((prop, 'h_func_nested', {'backend': b, 'n': 3 if deep else 2}, 300 if deep else 60))
        return out
    for b in BACKENDS:
        for place in PLACES:
            out.append((prop, 'h_sub', {'backend': b, 'place': place}, 60))
        out.append((prop, 'h_nested', {'backend': b, 'n': 3 if deep else 2}, 600 if deep else 60))
    for n in (2, 3, 4, 5) if deep else (2, 3, 4):
        for shape in range(len(shapes(n))):
            out.append((prop, 'h_union', {'n': n, 'shape': shape, 'tails': n < 4 or deep}, 900 if deep else 60))
    for n in (5, 6, 7) if deep else (5, 6):
        for shape in range(len(shapes(n))):
            out.append((prop, 'h_union', {'n': n, 'shape': shape, 'tails': None}, 900 if deep else 60))
    for b in BACKENDS:
        out.append((prop, 'h_union_text', {'backend': b}, 60))
    out.append((prop, 'h_union_many', {'counts': harvest.counts(SRC, (2, 5, 12), 60)}, 60))
    return out


# ---------------------------------------------------------------- C20

FUNCS = ('avg', 'count', 'max', 'min', 'sum')


def h_aggregate(ctx, backend, func, hi):
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.choose('n', (0, 1, 2, 3) if func == 'count' else (1, 2, 3))
    cols = [ctx.str('c%d' % i, 1, hi, 'plain') for i in range(n)]
    made = ctx.choose('made', ('plain', 'distinct'))
    fn = getattr(sp, func if made == 'plain' else func + '_distinct')
    form = ctx.choose('form', ('list', 'tuple', 'one', 'dotted', 'star', 'star list')) if n == 1 else ctx.choose('form', ('list', 'tuple')) if n else 'none'
    toks = comma([[('id', c)] for c in cols])
    if n == 0:
        f = fn()
        toks = words('*')
    elif form == 'one':
        f = fn(cols[0])
    elif form == 'star':
        f = fn(cols[0] + '.*')
        toks = toks + words('.*')
    elif form == 'star list':
        f = fn(['x', cols[0] + '.*'])
        toks = words('"x",') + toks + words('.*')
    elif form == 'dotted':
        f = fn('tt.' + cols[0])
        toks = words('"tt".') + toks
    else:
        f = fn(list(cols) if form == 'list' else tuple(cols))
    distinct = made == 'distinct'
    for i in range(2):
        call = ctx.choose('call%d' % i, ('none', 'on', 'off', 'other') if i == 1 else ('none', 'on', 'off'))
        if call == 'other':
            x = ctx.choose('other', (1, 0, None, '', 'x', True, [], 0.0))
            f.distinct(x)
            distinct = bool(x)
        if call == 'on':
            f.distinct()
            distinct = True
        elif call == 'off':
            f.distinct(False)
            distinct = False
    same(ctx, sp.select(f), backend, expect('SELECT %s(? ?)' % func.upper(), words('DISTINCT') if distinct else [], toks),
         'function loses or alters an argument')


def h_func_name(ctx, backend):
    """Any characters in the name of the column."""
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.str('n', 1, 1)
    ctx.assume(n != '.')
    func = ctx.choose('func', FUNCS + ('concat', 'group_concat', 'convert'))
    toks = name_tokens([(False, n)])
    if func == 'convert':
        same(ctx, sp.select(sp.convert(n, 'signed')), backend, expect('SELECT CONVERT(?, SIGNED)', toks), 'column of a function is altered')
    else:
        same(ctx, sp.select(getattr(sp, func)(n)), backend, expect('SELECT %s(?)' % func.upper(), toks), 'column of a function is altered')


def argument(ctx, sp, label):
    kind = ctx.choose(label, ('column', 'alias', 'value', 'function', 'custom', 'reference', 'int value'))
    if kind == 'column':
        c = ctx.str(label + '.c', 1, 1, 'plain')
        return c, [('id', c)]
    if kind == 'alias':
        return 'x.y', name('x.y')
    if kind == 'value':
        s = ctx.str(label + '.s', 0, 1, 'plain')
        return sp.V(s), lit(s)
    if kind == 'function':
        return sp.max('m'), words('MAX("m")')
    if kind == 'custom':
        return sp.C('raw'), words('raw')
    if kind == 'reference':
        return sp.R('r'), words('"r"')
    v = ctx.int(label + '.v')
    return sp.V(v), num(v)


def h_concat(ctx, backend, func, n):
    """All arguments in their order, repeated ones too."""
    sp = ctx.sp
    sp.configure(backend)
    k = ctx.choose('n', tuple(range(1, n + 1)))
    args, toks = [], []
    for i in range(k):
        a, t = argument(ctx, sp, 'a%d' % i)
        args.append(a)
        toks.append(t)
    same(ctx, sp.select(getattr(sp, func)(*args)), backend, expect('SELECT %s(?)' % func.upper(), comma(toks)),
         'function loses or alters an argument')


def h_group_concat(ctx, backend, hi):
    sp = ctx.sp
    sp.configure(backend)
    count = ctx.choose('columns', (2, 1, 3, 6))
    f = sp.group_concat(*'abdefg'[:count])
    order = []
    sep = None
    for i in range(3 if count == 2 else 2):
        op = ctx.choose('op%d' % i, ('stop', 'order', 'desc', 'two', 'separator'))
        if op == 'stop':
            break
        if op == 'separator':
            sep = ctx.str('s%d' % i, 0, hi if i == 0 and count == 2 else 1, 'any' if i == 0 and count == 2 else 'plain')
            f.separator(sep)
            continue
        c = 'c%d' % i
        if op == 'order':
            f.order_by(c)
            order.append([('id', c)])
        elif op == 'desc':
            f.order_by((c, 'desc'))
            order.append([('id', c)] + words('DESC'))
        else:
            f.order_by(c, (c + 'x', 'DESC'))
            order.append([('id', c)])
            order.append([('id', c + 'x')] + words('DESC'))
    want = words('SELECT GROUP_CONCAT(') + comma([[('id', x)] for x in 'abdefg'[:count]])
    if order:
        want = want + words('ORDER BY') + comma(order)
    if sep is not None:
        want = want + words('SEPARATOR') + string_value(sep, backend)
    same(ctx, sp.select(f), backend, want + words(')'), 'GROUP_CONCAT loses or alters its order or separator')


def h_convert(ctx, backend):
    sp = ctx.sp
    sp.configure(backend)
    c = ctx.str('c', 1, 2, 'plain')
    t = ctx.choose('t', ('unsigned', 'Signed', 'CHAR', 'decimal(10, 2)', 'date'))
    how = ctx.choose('how', ('argument', 'to', 'again', 'keyword'))
    if how == 'argument':
        f = sp.convert(c, t)
    elif how == 'keyword':
        f = sp.convert(c, type_=t)
    elif how == 'to':
        f = sp.convert(c).to(t)
    else:
        f = sp.convert(c, 'binary').to(t)
    same(ctx, sp.select(f), backend, expect('SELECT CONVERT(?, ?)', [('id', c)], words(t)), 'CONVERT is wrong')


def h_use(ctx, backend):
    """Functions in every place where they can be used."""
    sp = ctx.sp
    sp.configure(backend)
    c = ctx.str('c', 1, 1, 'plain')
    kind = ctx.choose('kind', ('count', 'sum', 'concat', 'group_concat', 'convert', 'distinct'))
    f, toks = {
        'count': lambda: (sp.count(c), expect('COUNT(?)', [('id', c)])),
        'sum': lambda: (sp.sum([c, 'z']), expect('SUM(?, "z")', [('id', c)])),
        'distinct': lambda: (sp.avg_distinct(c), expect('AVG(DISTINCT ?)', [('id', c)])),
        'concat': lambda: (sp.concat(c, sp.V('-')), expect("CONCAT(?, '-')", [('id', c)])),
        'group_concat': lambda: (sp.group_concat(c).order_by('o').separator(','),
                                 expect("GROUP_CONCAT(? ORDER BY \"o\" SEPARATOR ',')", [('id', c)])),
        'convert': lambda: (sp.convert(c, 'signed'), expect('CONVERT(?, SIGNED)', [('id', c)])),
    }[kind]()
    where = ctx.choose('where', ('column', 'alias', 'alias dict', 'columns', 'order', 'order desc', 'group', 'having', 'where', 'where value',
                                 'nested', 'set', 'twice', 'insert'))
    if where == 'column':
        q, want = sp.select(f), expect('SELECT ?', toks)
    elif where == 'alias':
        q, want = sp.select((f, 'al')), expect('SELECT ? AS "al"', toks)
    elif where == 'alias dict':
        q, want = sp.select({f: 'al'}), expect('SELECT ? AS "al"', toks)
    elif where == 'columns':
        q, want = sp.select('a', f).columns(sp.count('z')), expect('SELECT "a", ?, COUNT("z")', toks)
        ctx.assume(not (kind == 'count' and c == 'z'))
    elif where == 'order':
        q, want = sp.select('a').order_by(f), expect('SELECT "a" ORDER BY ?', toks)
    elif where == 'order desc':
        q, want = sp.select('a').order_by((f, 'desc'), 'b'), expect('SELECT "a" ORDER BY ? DESC, "b"', toks)
    elif where == 'group':
        q, want = sp.select('a').group_by(f), expect('SELECT "a" GROUP BY ?', toks)
    elif where == 'having':
        q, want = sp.select('a').having(f, sp.relations.GT(1)), expect('SELECT "a" HAVING ? > 1', toks)
    elif where == 'where':
        q, want = sp.select('a').where(f, 'x'), expect("SELECT \"a\" WHERE ? = 'x'", toks)
    elif where == 'where value':
        q, want = sp.select('a').where('b', f), expect('SELECT "a" WHERE "b" = ?', toks)
    elif where == 'nested':
        q, want = sp.select(sp.max(f)), expect('SELECT MAX(?)', toks)
    elif where == 'set':
        q, want = sp.update('t').set('a', f).where(k=1), expect('UPDATE "t" SET "a" = ? WHERE "k" = 1', toks)
    elif where == 'insert':
        q, want = sp.insert_into('t').values(a=f), expect('INSERT INTO "t" ("a") VALUES (?)', toks)
    else:
        q, want = sp.select((f, 'x'), (f, 'y')), expect('SELECT ? AS "x", ? AS "y"', toks, toks)
    same(ctx, q, backend, want, 'function is altered where it is used')


def outer(sp, kind, f, toks):
    if kind in FUNCS:
        return getattr(sp, kind)(f), expect('%s(?)' % kind.upper(), toks)
    if kind == 'distinct':
        return sp.count_distinct(f), expect('COUNT(DISTINCT ?)', toks)
    if kind == 'sum distinct':
        return sp.sum(f).distinct(), expect('SUM(DISTINCT ?)', toks)
    if kind == 'two':
        return sp.max([f, 'z']), expect('MAX(?, "z")', toks)
    if kind == 'concat':
        return sp.concat('x', f, f), expect('CONCAT("x", ?, ?)', toks, toks)
    if kind == 'group_concat':
        return sp.group_concat(f).order_by((f, 'desc')).separator('-'), expect("GROUP_CONCAT(? ORDER BY ? DESC SEPARATOR '-')", toks, toks)
    return sp.convert(f, 'char'), expect('CONVERT(?, CHAR)', toks)


OUTER = FUNCS + ('distinct', 'sum distinct', 'two', 'concat', 'group_concat', 'convert')


def h_func_nested(ctx, backend, n):
    """Functions of functions, of the same ones too."""
    sp = ctx.sp
    sp.configure(backend)
    c = ctx.str('c', 1, 1, 'plain')
    f, toks = c, [('id', c)]
    for i in range(n):
        f, toks = outer(sp, ctx.choose('f%d' % i, OUTER), f, toks)
    same(ctx, sp.select(f), backend, expect('SELECT ?', toks), 'function is altered inside another one')


def h_func_many(ctx, backend, counts):
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.choose('n', counts)
    c = ctx.str('c', 1, 1, 'plain')
    cols = [c + 'x%d' % i for i in range(n)]
    toks = comma([[('id', x)] for x in cols])
    func = ctx.choose('func', ('count', 'sum', 'concat', 'group_concat', 'order'))
    if func in ('count', 'sum'):
        f, want = getattr(sp, func)(cols), expect('SELECT %s(?)' % func.upper(), toks)
    elif func == 'order':
        f, want = sp.group_concat('g').order_by(*cols), expect('SELECT GROUP_CONCAT("g" ORDER BY ?)', toks)
    else:
        f, want = getattr(sp, func)(*cols), expect('SELECT %s(?)' % func.upper(), toks)
    same(ctx, sp.select(f), backend, want, 'function loses or alters an argument')


# ---------------------------------------------------------------- C21

PLACES = ('column', 'column alias', 'from', 'from_table', 'join', 'left dict', 'where', 'where relation', 'where in', 'where not in', 'exists', 'not exists',
          'having', 'on', 'set', 'insert', 'value', 'reference', 'function', 'Q', 'delete', 'list item', 'order')


def inside(ctx, sp, backend):
    """-> (sub-select or union, its tokens)"""
    n = ctx.str('n', 1, 1, 'plain')
    v = ctx.int('v')
    kind = ctx.choose('kind', ('select', 'order', 'union', 'union all', 'nothing', 'text', 'bracketed'))
    if kind == 'nothing':
        return sp.select(n), expect('SELECT ?', [('id', n)])
    if kind == 'text':
        s = ctx.str('s', 1, 1)
        return sp.select(n).where('w', s), expect('SELECT ? WHERE "w" = ?', [('id', n)], string_value(s, backend))
    q = sp.select(n).from_('s').where('k', v)
    toks = expect('SELECT ? FROM "s" WHERE "k" = ?', [('id', n)], num(v))
    if kind == 'order':
        return q.order_by('o').limit(3), toks + words('ORDER BY "o" LIMIT 3')
    if kind == 'union':
        return q | sp.select('u').from_('x'), toks + words('UNION SELECT "u" FROM "x"')
    if kind == 'bracketed':
        return (q.limit(3) | sp.select('u').from_('x').limit(5)), words('(') + toks + words('LIMIT 3) UNION (SELECT "u" FROM "x" LIMIT 5)')
    if kind == 'union all':
        return q & sp.select('u').from_('x'), toks + words('UNION ALL SELECT "u" FROM "x"')
    return q, toks


def h_sub(ctx, backend, place):
    sp = ctx.sp
    sp.configure(backend)
    s, inner = inside(ctx, sp, backend)
    toks = words('(') + inner + words(')')
    r = sp.relations
    if place == 'column':
        q, want = sp.select(s), expect('SELECT ?', toks)
    elif place == 'column alias':
        q, want = sp.select('a', (s, 'al')), expect('SELECT "a", ? AS "al"', toks)
    elif place == 'from':
        q, want = sp.select('a').from_('t', (s, 'al')), expect('SELECT "a" FROM "t", ? AS "al"', toks)
    elif place == 'from_table':
        q, want = sp.select('a').from_table(s, 'al'), expect('SELECT "a" FROM ? AS "al"', toks)
    elif place == 'join':
        q, want = sp.select_from('t').join((s, 'al')).on('a', 'al.b'), expect('SELECT * FROM "t" JOIN ? AS "al" ON "a" = "al"."b"', toks)
    elif place == 'left dict':
        q, want = sp.select_from('t').left_join({s: 'al'}), expect('SELECT * FROM "t" LEFT JOIN ? AS "al"', toks)
    elif place == 'where':
        q, want = sp.select_from('t').where('a', s), expect('SELECT * FROM "t" WHERE "a" = ?', toks)
    elif place == 'where relation':
        q, want = sp.select_from('t').where(a=r.GE(s)), expect('SELECT * FROM "t" WHERE "a" >= ?', toks)
    elif place == 'where in':
        q, want = sp.select_from('t').where('a', r.IN(s)), expect('SELECT * FROM "t" WHERE "a" IN ?', toks)
    elif place == 'where not in':
        q, want = sp.select_from('t').where('a', r.NOT_IN(s)), expect('SELECT * FROM "t" WHERE "a" NOT IN ?', toks)
    elif place == 'exists':
        q, want = sp.select_from('t').where(sp.exists(s)).where(b=1), expect('SELECT * FROM "t" WHERE EXISTS ? AND "b" = 1', toks)
    elif place == 'not exists':
        q, want = sp.select_from('t').where(sp.Not(sp.exists(s))), expect('SELECT * FROM "t" WHERE NOT(EXISTS ?)', toks)
    elif place == 'having':
        q, want = sp.select_from('t').having('a', s), expect('SELECT * FROM "t" HAVING "a" = ?', toks)
    elif place == 'on':
        q, want = sp.select_from('t').join('u').on('a', s), expect('SELECT * FROM "t" JOIN "u" ON "a" = ?', toks)
    elif place == 'set':
        q, want = sp.update('t').set(a=s).where(b=1), expect('UPDATE "t" SET "a" = ? WHERE "b" = 1', toks)
    elif place == 'insert':
        q, want = sp.insert_into('t').values(a=s), expect('INSERT INTO "t" ("a") VALUES (?)', toks)
    elif place == 'value':
        q, want = sp.select((sp.V(s), 'al')), expect('SELECT ? AS "al"', toks)
    elif place == 'reference':
        q, want = sp.select((sp.R(s), 'al')), expect('SELECT ? AS "al"', toks)
    elif place == 'function':
        q, want = sp.select(sp.max(s)), expect('SELECT MAX(?)', toks)
        got = tokens(render(ctx, q), backend)
        ctx.check(got in (want, expect('SELECT MAX ?', toks)), 'sub-select of a function is altered')
        return
    elif place == 'Q':
        q, want = sp.select_from('t').where(sp.Q(a=s) | sp.Q(b=1)), expect('SELECT * FROM "t" WHERE ("a" = ? OR "b" = 1)', toks)
    elif place == 'delete':
        q, want = sp.delete_from('t').where('a', r.IN(s)), expect('DELETE FROM "t" WHERE "a" IN ?', toks)
    elif place == 'list item':
        q, want = sp.select_from('t').where('a', [1, s]), expect('SELECT * FROM "t" WHERE "a" IN (1, ?)', toks)
    else:
        q, want = sp.select('a').order_by((s, 'desc')), expect('SELECT "a" ORDER BY ? DESC', toks)
    same(ctx, q, backend, want, 'sub-select is altered or without brackets')
    ctx.check(tokens(str(s), backend) == inner, 'sub-select is changed')


def h_nested(ctx, backend, n):
    sp = ctx.sp
    sp.configure(backend)
    v = ctx.int('v')
    q, toks = sp.select('a').from_('t').where('b', v), expect('SELECT "a" FROM "t" WHERE "b" = ?', num(v))
    for i in range(n):
        how = ctx.choose('how%d' % i, ('from', 'where', 'column', 'exists', 'join', 'union'))
        if how == 'from':
            q, toks = sp.select('x').from_((q, 'f%d' % i)), words('SELECT "x" FROM (') + toks + words(') AS') + [('id', 'f%d' % i)]
        elif how == 'where':
            q, toks = sp.select('x').from_('t').where('w', q), words('SELECT "x" FROM "t" WHERE "w" = (') + toks + words(')')
        elif how == 'column':
            q, toks = sp.select((q, 'c')), words('SELECT (') + toks + words(') AS "c"')
        elif how == 'exists':
            q, toks = sp.select('x').where(sp.exists(q)), words('SELECT "x" WHERE EXISTS(') + toks + words(')')
        elif how == 'join':
            q, toks = sp.select_from('t').join((q, 'j')).on('j.a', v), words('SELECT * FROM "t" JOIN (') + toks + words(') AS "j" ON "j"."a" =') + num(v)
        else:
            q, toks = q | sp.select('x'), toks + words('UNION SELECT "x"')
    same(ctx, q, backend, toks, 'sub-select is altered or without brackets')


def shapes(n):
    """Binary trees with n leaves."""
    if n == 1:
        return [0]
    out = []
    for k in range(1, n):
        for left in shapes(k):
            for right in shapes(n - k):
                out.append((left, right))
    return out


def flatten(op, left, right):
    parts = []
    for x in (left, right):
        if x[0] == op:
            parts.extend(x[1])
        else:
            parts.append(x)
    return (op, parts)


def read_union(toks):
    """Left-associative reading; -> tree of ('UNION'|'UNION ALL', [...]) and ('leaf', tokens), or None."""
    pieces, ops = [[]], []
    depth = 0
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == ('op', '('):
            depth += 1
        elif t == ('op', ')'):
            depth -= 1
        if depth == 0 and t == ('word', 'UNION'):
            if i + 1 < len(toks) and toks[i + 1] == ('word', 'ALL'):
                ops.append('UNION ALL')
                i += 1
            else:
                ops.append('UNION')
            pieces.append([])
        else:
            pieces[-1].append(t)
        i += 1
    trees = []
    for p in pieces:
        if p[:1] == [('op', '(')] and p[-1:] == [('op', ')')]:
            x = read_union(p[1:-1])
        else:
            x = ('leaf', p)
            # an unbracketed ORDER BY or LIMIT would belong to the whole union
            depth = 0
            for t in p:
                if t == ('op', '('):
                    depth += 1
                elif t == ('op', ')'):
                    depth -= 1
                elif len(pieces) > 1 and depth == 0 and t in (('word', 'ORDER'), ('word', 'LIMIT'), ('word', 'OFFSET')):
                    return ('bad', [])
        if x is None:
            return None
        trees.append(x)
    acc = trees[0]
    for op, x in zip(ops, trees[1:]):
        acc = flatten(op, acc, x)
    return acc


def h_union(ctx, n, shape, tails):
    sp = ctx.sp
    sp.configure('sql')
    counter = [0]

    def leaf():
        i = counter[0]
        counter[0] += 1
        tail = ctx.choose('tail%d' % i, ('none', 'order', 'limit', 'offset', 'limit 0', 'limit both', 'switched off') if tails else
                          ('none',) if tails is None else ('none', 'order' if i % 2 else 'limit'))
        v = ctx.int('v%d' % i)
        q = sp.select('c%d' % i).from_('t').where('k', v)
        toks = words('SELECT "c%d" FROM "t" WHERE "k" =' % i) + num(v)
        if tail == 'order':
            q.order_by('o')
            toks = toks + words('ORDER BY "o"')
        elif tail == 'limit':
            q.limit(2)
            toks = toks + words('LIMIT 2')
        elif tail == 'limit 0':
            q.limit(0)
            toks = toks + words('LIMIT 0')
        elif tail == 'limit both':
            w = ctx.int('w%d' % i, 1)
            q.limit(w, w)
            toks = toks + words('LIMIT') + num(w) + words('OFFSET') + num(w)
        elif tail == 'switched off':
            q.limit(5).limit(None).offset(7).offset(None)
        elif tail == 'offset':
            q.offset(2)
            toks = toks + words('OFFSET 2')
        return q, ('leaf', toks)

    def tree(s):
        if s == 0:
            return leaf()
        a, x = tree(s[0])
        b, y = tree(s[1])
        if ctx.flag('op%d' % counter[0] + str(s)):
            return a & b, flatten('UNION ALL', x, y)
        return a | b, flatten('UNION', x, y)
    q, want = tree(shapes(n)[shape])
    got = read_union(tokens(render(ctx, q), 'sql'))
    ctx.check(got == want, 'union is read as another one')


def h_union_text(ctx, backend):
    """Content of operands does not disturb the union."""
    sp = ctx.sp
    sp.configure(backend)
    s = ctx.str('s', 0, 2)
    n = ctx.str('n', 1, 1, 'plain')
    op = ctx.flag('all')
    a = sp.select(n).from_('t').where('a', s)
    b = sp.select('b').from_(n)
    q = a & b if op else a | b
    same(ctx, q, backend, expect('SELECT ? FROM "t" WHERE "a" = ? UNION ? SELECT "b" FROM ?', [('id', n)], string_value(s, backend),
                                 words('ALL') if op else [], [('id', n)]), 'union is altered')


def h_union_many(ctx, counts):
    sp = ctx.sp
    sp.configure('mysql')
    n = ctx.choose('n', counts)
    pattern = ctx.choose('pattern', ('and', 'or', 'mixed', 'right'))
    q = sp.select('c0')
    toks = words('SELECT "c0"')
    tree = ('leaf', toks)
    for i in range(1, n):
        x = sp.select('c%d' % i)
        y = ('leaf', words('SELECT "c%d"' % i))
        every = pattern == 'and' or pattern in ('mixed', 'right') and i % 2
        if pattern == 'right':
            q = x & q if every else x | q
            tree = flatten('UNION ALL' if every else 'UNION', y, tree)
        else:
            q = q & x if every else q | x
            tree = flatten('UNION ALL' if every else 'UNION', tree, y)
    ctx.check(read_union(tokens(render(ctx, q), 'mysql')) == tree, 'union is read as another one')
