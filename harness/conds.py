"""C05 (no condition is lost), C06 (boolean structure), C07 (IN and NULL)."""
import decimal

from symx import logic

from .base import *

BOUNDS = {
    'C05': ['2 conditions (thorough: 3) of 24 kinds each with symbolic values (unbounded int, 0-1 arbitrary characters) and '
            'columns of 1 arbitrary character or a fixed one, in WHERE, HAVING and ON of SELECT, WHERE of UPDATE and DELETE, given by '
            'separate calls or one call',
            'all pairs of relations on the same column and value', 'every comparison under both of its names with every type of value',
            'up to 40 (and every integer constant of the source, +1, up to 300) different conditions at once'],
    'C06': ['expressions of & and | over up to 4 operands (thorough: 5) in every shape, operands with one or two '
            'conditions, negations and brackets; up to three arguments of where/having; '
            'values with arbitrary strings of 0-4 characters at one operand',
            'equivalence for all truth assignments decided by z3'],
    'C07': ['lists of 0-3 items (thorough: 4), each NULL, an unbounded int, a string of 0-1 arbitrary characters or (up to '
            '2 items) a bool, Decimal or custom SQL, '
            'given as list, tuple, generator, arguments, by IN, NOT IN or by default; up to 60 items of one kind'],
}
ASSUMPTIONS = {
    'C05': ['two conditions with the same rendered text may be merged; join conditions which only swap their sides '
            '(a.x = b.y and b.y = a.x) are the same condition'],
    'C06': ['empty Q() operands of & and | are outside the claim'],
    'C07': ['whether the refusal of an empty list comes when the condition is added or when the query is rendered is left open'],
}

CONNECT = ('word', 'AND')


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'C05':
        for clause in ('where', 'having', 'on', 'update', 'delete'):
            for first in KINDS:
                if clause == 'on' and first in ('not', 'exists'):
                    continue
                out.append((prop, 'h_pair', {'clause': clause, 'first': first, 'n': 2 if not deep else 3,
                                             'backend': 'mysql' if first == 'str' else 'sql'}, 600 if deep else 60))
            out.append((prop, 'h_relations', {'clause': clause}, 60))
            out.append((prop, 'h_spelled', {'clause': clause}, 60))
            out.append((prop, 'h_columns', {'clause': clause}, 60))
            out.append((prop, 'h_many', {'clause': clause, 'counts': harvest.counts(SRC, (1, 2, 5, 12, 40), 300)}, 120))
        for numbers in ((False, False), (False, True), (True, False), (True, True)):
            out.append((prop, 'h_on_sides', {'hi': 2 if deep else 1, 'numbers': numbers}, 120))
        for b in BACKENDS:
            out.append((prop, 'h_clauses', {'backend': b}, 60))
            out.append((prop, 'h_lists', {'backend': b}, 60))
            out.append((prop, 'h_types', {'backend': b}, 60))
    elif prop == 'C06':
        for n in ((1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5)):
            for shape in range(SHAPES[n]):
                for use in (USES if n < 4 else ('where', 'and where', 'having')):
                    out.append((prop, 'h_tree', {'n': n, 'shape': shape, 'use': use}, 900 if deep else 100))
        for k in (0, 1, 2, 3, 4, 6):
            out.append((prop, 'h_text', {'k': k}, 60))
        for use in SHARED_USES:
            for first in range(len(SHARED)):
                out.append((prop, 'h_shared', {'use': use, 'first': first, 'pool': len(SHARED) if deep else 3 if use == 'three' else 4}, 900 if deep else 100))
        out.append((prop, 'h_args', {}, 60))
        out.append((prop, 'h_chain', {}, 60))
        out.append((prop, 'h_not', {}, 60))
    else:
        for b in BACKENDS:
            for form in FORMS:
                out.append((prop, 'h_in', {'backend': b, 'form': form, 'hi': 4 if deep else (3 if b == 'sql' else 2)},
                            900 if deep else 60))
            out.append((prop, 'h_in_many', {'backend': b, 'counts': harvest.counts(SRC, (1, 5, 20, 60), 1100)}, 60))
            out.append((prop, 'h_in_empty', {'backend': b}, 60))
            out.append((prop, 'h_in_text', {'backend': b, 'texts': harvest.strings(SRC)}, 60))
            out.append((prop, 'h_in_other', {'backend': b}, 60))
    return out


# ---------------------------------------------------------------- C05

KINDS = ('int', 'str', 'null', 'bool', 'float', 'decimal', 'list', 'EQ', 'NE', 'GT', 'LE', 'LIKE', 'NOT_IN', 'IS_NOT', 'IN_null',
         'V', 'R', 'custom', 'custom_value', 'Q', 'Q_or', 'not', 'exists', 'sub')


def condition(ctx, kind, label, dialect, clause):
    """-> (arguments of where, expected tokens)"""
    sp = ctx.sp
    r = sp.relations
    col = ctx.choose(label + '.col', ('a', 'b'))
    c = [('id', col)]
    if kind == 'int':
        v = ctx.int(label)
        return (col, v), c + expect('= ?', value(v, dialect))
    if kind == 'str':
        v = ctx.str(label, 0, 1)
        if clause == 'on':
            ctx.assume(len(v) == 1 and v != '.')
            return (col, v), c + expect('= ?', name_tokens([(False, v)]))
        return (col, v), c + expect('= ?', value(v, dialect))
    if kind == 'null':
        return (col, None), c + expect('IS NULL')
    if kind == 'bool':
        v = ctx.flag(label)
        return (col, v), c + expect('= ?', value(v, dialect))
    if kind == 'float':
        v = ctx.choose(label, (1.0, 0.0, 0.5))
        return (col, v), c + expect('= ?', value(v, dialect))
    if kind == 'decimal':
        v = ctx.choose(label, (decimal.Decimal('1'), decimal.Decimal('0.5')))
        return (col, v), c + expect('= ?', value(v, dialect))
    if kind == 'list':
        v = [ctx.int(label), 2]
        return (col, v), c + expect('IN ?', value(v, dialect))
    if kind in ('EQ', 'NE', 'GT', 'LE'):
        v = ctx.int(label)
        op = {'EQ': '=', 'NE': '!=', 'GT': '>', 'LE': '<='}[kind]
        return (col, getattr(r, kind)(v)), c + expect(op + ' ?', value(v, dialect))
    if kind == 'LIKE':
        v = ctx.str(label, 1, 1, 'plain')
        if clause == 'on':
            return (col, r.LIKE(v)), c + expect('LIKE ?', [('id', v)])
        return (col, r.LIKE(v)), c + expect('LIKE ?', value(v, dialect))
    if kind == 'NOT_IN':
        v = [1, ctx.int(label)]
        return (col, r.NOT_IN(v)), c + expect('NOT IN ?', value(v, dialect))
    if kind == 'IS_NOT':
        v = ctx.choose(label, (None, True, False))
        return (col, r.IS_NOT(v)), c + expect('IS NOT ?', value(v, dialect))
    if kind == 'IN_null':
        v = ctx.int(label)
        return (col, r.IN([v, None])), expect('(? IN (?) OR ? IS NULL)', c, value(v, dialect), c)
    if kind == 'V':
        v = ctx.int(label)
        return (col, sp.V(v)), c + expect('= ?', value(v, dialect))
    if kind == 'R':
        v = ctx.choose(label, ('a', 'x.y'))
        return (col, sp.R(v)), c + expect('= ?', name(v))
    if kind == 'custom':
        v = ctx.choose(label, ('1', 'x'))
        return (sp.C(v),), words(v)
    if kind == 'custom_value':
        v = ctx.choose(label, ('1', 'x'))
        return (col, sp.C(v)), c + expect('= ?', words(v))
    if kind == 'Q':
        v = ctx.int(label)
        return (sp.Q(col, v),), c + expect('= ?', value(v, dialect))
    if kind == 'Q_or':
        v = ctx.int(label)
        return (sp.Q(col, v) | sp.Q(z=1),), expect('(? = ? OR "z" = 1)', c, value(v, dialect))
    if kind == 'not':
        v = ctx.int(label)
        return (sp.Not(col, v),), expect('NOT(? = ?)', c, value(v, dialect))
    if kind == 'exists':
        v = ctx.int(label)
        return (sp.exists(sp.select_from('s').where(col, v)),), expect(
            'EXISTS(SELECT * FROM "s" WHERE ? = ?)', c, value(v, dialect))
    v = ctx.int(label)
    return (col, sp.select_from('s').where('x', v)), c + expect('= (SELECT * FROM "s" WHERE "x" = ?)', value(v, dialect))


def start(sp, clause):
    if clause == 'update':
        return sp.update('t').set(s=1)
    if clause == 'delete':
        return sp.delete_from('t')
    if clause == 'on':
        return sp.select_from('t').join('u')
    return sp.select_from('t')


HEAD = {'where': 'SELECT * FROM "t" WHERE', 'having': 'SELECT * FROM "t" HAVING', 'on': 'SELECT * FROM "t" JOIN "u" ON',
        'update': 'UPDATE "t" SET "s" = 1 WHERE', 'delete': 'DELETE FROM "t" WHERE'}


def adder(q, clause):
    return q.having if clause == 'having' else q.on if clause == 'on' else q.where


def dedupe(items, key=None):
    out, keys = [], []
    for x in items:
        k = key(x) if key else x
        if k not in keys:
            keys.append(k)
            out.append(x)
    return out


def all_there(ctx, q, clause, dialect, expected, key=None, what='condition is lost, altered or moved'):
    sql = render(ctx, q)
    got = tokens(sql, dialect)
    head = words(HEAD[clause])
    ctx.check(got[:len(head)] == head, 'clause is missing')
    conds = logic.split(got[len(head):], CONNECT)
    ctx.check(dedupe(conds, key) == dedupe(expected, key), what)


def h_pair(ctx, clause, first, n, backend):
    sp = ctx.sp
    sp.configure(backend)
    q = start(sp, clause)
    expected = []
    for i in range(n):
        kind = first if i == 0 else ctx.choose('kind%d' % i, KINDS)
        ctx.assume(not (clause == 'on' and kind in ('not', 'exists')))
        args, toks = condition(ctx, kind, 'v%d' % i, backend, clause)
        adder(q, clause)(*args)
        expected.append(toks)
    all_there(ctx, q, clause, backend, expected, sides if clause == 'on' else None)
    ctx.reached(first)


def sides(toks):
    """Join conditions on two columns: independent of the side."""
    for i, t in enumerate(toks):
        if t[0] == 'op' and t[1] in MIRROR and i < len(toks) - 1:
            left, right = toks[:i], toks[i + 1:]
            if all(x[0] == 'id' or x == ('op', '.') for x in left + right):
                other = right + [('op', MIRROR[t[1]])] + left
                return min(toks, other)
    return toks


MIRROR = {'=': '=', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
RELATIONS = (('EQ', '='), ('NE', '!='), ('GT', '>'), ('GE', '>='), ('LT', '<'), ('LE', '<='), ('LIKE', 'LIKE'),
             ('NOT_LIKE', 'NOT LIKE'), ('REGEXP', 'REGEXP'), ('IN', 'IN'), ('NOT_IN', 'NOT IN'), ('IS', 'IS'), ('IS_NOT', 'IS NOT'))


def h_relations(ctx, clause):
    """Conditions that differ only in the relation are different."""
    sp = ctx.sp
    sp.configure('sql')
    q = start(sp, clause)
    v = ctx.str('v', 1, 2, 'plain')
    expected = []
    for label in 'xy':
        rel, text = ctx.choose(label, RELATIONS)
        cls = getattr(sp.relations, rel)
        if rel in ('IN', 'NOT_IN'):
            x, t = cls([v]), '(?)'
            t = expect(t, lit(v))
        elif rel in ('IS', 'IS_NOT'):
            x, t = cls(None), words('NULL')
        else:
            x, t = cls(v), ([('id', v)] if clause == 'on' else lit(v))
        adder(q, clause)('c', x)
        expected.append(words('"c" ' + text) + t)
    all_there(ctx, q, clause, 'sql', expected, sides if clause == 'on' else None)


LONG = (('EQUAL_TO', 'EQ'), ('NOT_EQUAL_TO', 'NE'), ('GRATHER_THAN', 'GT'), ('GRATHER_THAN_OR_EQUAL_TO', 'GE'),
        ('LESS_THAN', 'LT'), ('LESS_THAN_OR_EQUAL_TO', 'LE'))
MOMENT = datetime.datetime(2019, 12, 31, 23, 59, 58, 7)


def h_spelled(ctx, clause):
    """Every comparison, under both of its names, with every type of value it takes."""
    sp = ctx.sp
    sp.configure('sql')
    q = start(sp, clause)
    long, short = ctx.choose('relation', LONG)
    op = dict(RELATIONS)[short]
    cls = getattr(sp.relations, ctx.choose('spelling', (long, short)))
    kind = ctx.choose('type', ('int', 'str', 'float', 'decimal', 'date', 'datetime', 'bool', 'custom', 'value', 'reference', 'sub', 'function'))
    ctx.assume(kind != 'bool' or short in ('EQ', 'NE'))
    if kind == 'int':
        v = ctx.int('v')
    elif kind == 'str':
        v = ctx.str('v', 1, 2, 'plain')
    elif kind == 'bool':
        v = ctx.flag('v')
    elif kind == 'custom':
        v, toks = sp.C('x + 1'), words('x + 1')
    elif kind == 'value':
        x = ctx.str('v', 0, 2, 'plain')
        v, toks = sp.V(x), lit(x)
    elif kind == 'reference':
        x = ctx.str('v', 1, 2, 'plain')
        v, toks = sp.R(x), [('id', x)]
    elif kind == 'sub':
        x = ctx.int('v')
        v, toks = sp.select_from('s').where('x', x), expect('(SELECT * FROM "s" WHERE "x" = ?)', num(x))
    elif kind == 'function':
        v, toks = sp.count('x'), words('COUNT("x")')
    else:
        v = {'float': 0.5, 'decimal': decimal.Decimal('2.25'), 'date': datetime.date(2019, 12, 31), 'datetime': MOMENT}[kind]
    if kind in ('int', 'str', 'bool', 'float', 'decimal', 'date', 'datetime'):
        toks = [('id', v)] if kind == 'str' and clause == 'on' else value(v, 'sql')
    adder(q, clause)('c', cls(v))
    all_there(ctx, q, clause, 'sql', [words('"c" ' + op) + toks], what='relation is lost or altered')


def h_columns(ctx, clause):
    """Conditions on different columns with the same value are different."""
    sp = ctx.sp
    sp.configure('sql')
    q = start(sp, clause)
    n, m = ctx.str('n', 1, 2, 'plain'), ctx.str('m', 1, 2, 'plain')
    v = ctx.int('v')
    style = ctx.choose('style', ('calls', 'pairs', 'list'))
    if style == 'calls':
        adder(q, clause)(n, v)
        adder(q, clause)(m, v)
    elif style == 'pairs':
        adder(q, clause)((n, v), (m, v))
    else:
        adder(q, clause)([(n, v), (m, v)])
    all_there(ctx, q, clause, 'sql', [[('id', x), ('op', '='), ('num', str(v))] for x in (n, m)])


def h_many(ctx, clause, counts):
    sp = ctx.sp
    sp.configure('mysql')
    q = start(sp, clause)
    n = ctx.choose('n', counts)
    style = ctx.choose('style', ('calls', 'dict', 'pairs', 'same column', 'Q', 'kwds'))
    pairs = [('c' if style == 'same column' else 'c%03d' % i, i) for i in range(n)]
    if style in ('calls', 'same column'):
        for c, v in pairs:
            adder(q, clause)(c, v)
    elif style == 'dict':
        adder(q, clause)(dict(pairs))
    elif style == 'kwds':
        adder(q, clause)(**dict(pairs))
    elif style == 'pairs':
        adder(q, clause)(pairs)
    else:
        for c, v in pairs:
            adder(q, clause)(sp.Q(c, v))
    all_there(ctx, q, clause, 'mysql', [[('id', c), ('op', '='), ('num', str(v))] for c, v in pairs])


def h_on_sides(ctx, hi, numbers):
    """Join conditions with columns (or a number, which may look like a name) on the right; only mirrored columns are the same."""
    sp = ctx.sp
    sp.configure('sql')
    q = sp.select_from('t').join('u')
    expected = []
    names = []
    for i in range(2):
        pool = tuple(names)
        side = []
        for j in range(2):
            new = ctx.int('n%d%d' % (i, j), 0) if j and numbers[i] else ctx.str('n%d%d' % (i, j), 1, hi, 'plain')
            side.append(new)
        names.extend(side)
        rel, text = ctx.choose('rel%d' % i, RELATIONS[:6])
        plain = rel == 'EQ' and ctx.flag('plain%d' % i)
        q.on(side[0], side[1] if plain else getattr(sp.relations, rel)(side[1]))
        expected.append([('id', side[0])] + words(text) + (num(side[1]) if numbers[i] else [('id', side[1])]))
    all_there(ctx, q, 'on', 'sql', expected, sides)


def h_clauses(ctx, backend):
    """Each clause keeps its own conditions, whatever the others contain."""
    sp = ctx.sp
    sp.configure(backend)
    q = sp.select_from('t').join('u').left_join('w')
    v, w = ctx.int('v'), ctx.int('w')
    order = ctx.choose('order', ('wh', 'hw'))
    for c in order:
        if c == 'w':
            q.where('a', v)
        else:
            q.having('a', w)
    q.on('a', v)
    q.where('b', None)
    if ctx.flag('again'):
        q.where('a', v)
        q.having('a', w)
        q.on('a', v)
    same(ctx, q, backend, expect(
        'SELECT * FROM "t" JOIN "u" LEFT JOIN "w" ON "a" = ? WHERE "a" = ? AND "b" IS NULL HAVING "a" = ?'
        if order == 'wh' or True else '', num(v), num(v), num(w)), 'condition is lost or in the wrong clause')


def h_lists(ctx, backend):
    """Lists with other items, order or count are different conditions."""
    sp = ctx.sp
    sp.configure(backend)
    q = sp.select_from('t')
    pool = ([1, 2], [2, 1], [1], [1, 2, 3], (1, 2), [1, True], [True, 2], ['1', 2], [1, None], [None, 1, 2], ['1', '2'], ['12'],
            [1.0, 2], [12], ['1, 2'])
    expected = []
    for label in 'xy':
        x = ctx.choose(label, pool)
        rel, text = ctx.choose(label + 'r', ((None, 'IN'), (sp.relations.IN, 'IN'), (sp.relations.NOT_IN, 'NOT IN')))
        q.where('c', x if rel is None else rel(x))
        items = [i for i in x if i is not None]
        toks = words('"c" ' + text) + value(items, backend)
        if len(items) != len(x):
            toks = expect('(? OR "c" IS NULL)' if text == 'IN' else '(? AND "c" IS NOT NULL)', toks)
        expected.append(toks)
    all_there(ctx, q, 'where', backend, expected)


def h_types(ctx, backend):
    """Values that Python takes for equal, or that look alike, are different conditions."""
    sp = ctx.sp
    sp.configure(backend)
    pool = (1, True, 1.0, '1', decimal.Decimal('1'), 0, False, '0', 0.0, '', None, 'None', 'NULL', 'a', 'A', 'a ', ' a', '1.0',
            '(1)', 'null')
    q = sp.select_from('t')
    expected = []
    for label in 'xy':
        x = ctx.choose(label, pool)
        how = ctx.choose(label + 'how', ('plain', 'V', 'C'))
        toks = value(x, backend)
        if how == 'V':
            arg = sp.V(x)
        elif how == 'C':
            arg, toks = sp.C('a'), words('a')
        else:
            arg = x
        rel = 'IS' if x is None and how != 'C' and how == 'plain' else '='
        if x is None and how == 'V':
            rel = 'IS'
        q.where('c', arg)
        expected.append(words('"c" ' + rel) + toks)
    all_there(ctx, q, 'where', backend, expected)


# ---------------------------------------------------------------- C06

def shapes(n):
    """All binary trees with n leaves."""
    if n == 1:
        return [None]
    out = []
    for k in range(1, n):
        for left in shapes(k):
            for right in shapes(n - k):
                out.append((left, right))
    return out


SHAPES = {n: len(shapes(n)) for n in range(1, 6)}
LEAVES = ('one', 'two', 'pairs', 'nested', 'Qs')


def leaf(ctx, sp, i, few):
    kind = ctx.choose('leaf%d' % i, LEAVES[:2] if few else LEAVES)
    a, b = 'a%d' % i, 'b%d' % i
    fa, fb = ('atom', (a, '=')), ('atom', (b, '='))
    if kind == 'one':
        return sp.Q(a, 1), fa
    if kind == 'two':
        return sp.Q(**{a: 1, b: 2}), ('and', [fa, fb])
    if kind == 'pairs':
        return sp.Q([(a, 1), (b, 'x')]), ('and', [fa, fb])
    if kind == 'nested':
        return sp.Q(sp.Q(a, 1) | sp.Q(b, 2)), ('or', [fa, fb])
    return sp.Q(sp.Q(a, 1), sp.Q(b, 2)), ('and', [fa, fb])


def tree(ctx, sp, shape, counter, few):
    if shape is None:
        counter[0] += 1
        return leaf(ctx, sp, counter[0], few)
    left, lf = tree(ctx, sp, shape[0], counter, few)
    right, rf = tree(ctx, sp, shape[1], counter, few)
    op = ctx.choose('op%d' % len(counter), ('and', 'or'))
    counter.append(0)
    return (left & right if op == 'and' else left | right), (op, [lf, rf])


def equivalent(ctx, q, dialect, formula, start='WHERE'):
    sql = render(ctx, q)
    toks = tokens(sql, dialect)
    cond = logic.where_of(toks, start)
    ctx.check(cond is not None, 'condition is missing')
    try:
        f = logic.parse(cond, logic.column_key)
        ok = logic.equivalent(f, formula)
    except logic.ParseError:
        ok = False
    ctx.check(ok, 'rendered condition is not equivalent to the expression')


USES = ('where', 'having', 'where and', 'and where', 'on', 'update', 'delete', 'not')


def h_tree(ctx, n, shape, use):
    sp = ctx.sp
    sp.configure('sql')
    expr, f = tree(ctx, sp, shapes(n)[shape], [0], n > 3)
    z = ('atom', ('z', '='))
    if use == 'where':
        q = sp.select_from('t').where(expr)
    elif use == 'having':
        q = sp.select_from('t').having(expr)
    elif use == 'where and':
        q, f = sp.select_from('t').where(expr).where(z=1), ('and', [f, z])
    elif use == 'and where':
        q, f = sp.select_from('t').where(z=1).where(expr), ('and', [z, f])
    elif use == 'on':
        q, f = sp.select_from('t').join('u').on('z', 1).on(expr), ('and', [z, f])
    elif use == 'update':
        q = sp.update('t').set(s=1).where(expr)
    elif use == 'delete':
        q = sp.delete_from('t').where(expr)
    else:
        q, f = sp.select_from('t').where(sp.Not(expr)), ('not', f)
    equivalent(ctx, q, 'sql', f, 'HAVING' if use == 'having' else 'ON' if use == 'on' else 'WHERE')


def h_text(ctx, k):
    """Brackets do not depend on what the values look like."""
    sp = ctx.sp
    sp.configure('sql')
    v = ctx.str('v', k, k, 'plain' if k > 4 else SPACED)
    a, b, c = sp.Q(a1=v), sp.Q(b1=1), sp.Q(c1=2, d1=v)
    fa, fb, fc = ('atom', ('a1', '=')), ('atom', ('b1', '=')), ('and', [('atom', ('c1', '=')), ('atom', ('d1', '='))])
    form = ctx.choose('form', ('a|b&c', 'a&b|c', 'a|(b&c)', 'a&(b|c)', 'c|a', 'a&c'))
    if form == 'a|b&c':
        e, f = (a | b) & c, ('and', [('or', [fa, fb]), fc])
    elif form == 'a&b|c':
        e, f = (a & b) | c, ('or', [('and', [fa, fb]), fc])
    elif form == 'a|(b&c)':
        e, f = a | (b & c), ('or', [fa, ('and', [fb, fc])])
    elif form == 'a&(b|c)':
        e, f = a & (b | c), ('and', [fa, ('or', [fb, fc])])
    elif form == 'c|a':
        e, f = c | a, ('or', [fc, fa])
    else:
        e, f = a & c, ('and', [fa, fc])
    equivalent(ctx, sp.select_from('t').where(e), 'sql', f)


SPACED = ((32, 33), (35, 38), (40, 45), (47, 91), (93, 95), (97, 126))


def atom(column, rel, val):
    return ('atom', (('id', column), ('op', rel), val))


# Conditions which look alike
SHARED = (
    (lambda sp: sp.Q(a=1), atom('a', '=', ('num', '1'))),
    (lambda sp: sp.Q(a=sp.relations.NE(1)), atom('a', '!=', ('num', '1'))),
    (lambda sp: sp.Q(b=1), atom('b', '=', ('num', '1'))),
    (lambda sp: sp.Q(a=1, b=1), ('and', [atom('a', '=', ('num', '1')), atom('b', '=', ('num', '1'))])),
    (lambda sp: sp.Q(a='1'), atom('a', '=', ('str', '1'))),
    (lambda sp: sp.Q(sp.Not(a=1)), ('not', atom('a', '=', ('num', '1')))),
    (lambda sp: sp.Q(sp.Q(b=1) | sp.Q(a=1)), ('or', [atom('b', '=', ('num', '1')), atom('a', '=', ('num', '1'))])),
)
SHARED_USES = ('args', 'calls', 'and', 'or', 'Q', 'not', 'three', 'same', 'own and', 'own or', 'and own', 'or own', 'inner', 'twice')


def full_key(toks):
    return tuple(tuple(t) for t in toks)


def h_shared(ctx, use, first, pool):
    """Several combinations of conditions which are equal, or nearly so, in one clause."""
    sp = ctx.sp
    sp.configure('sql')

    def one(label, index=None):
        make, f = SHARED[index] if index is not None else ctx.choose(label, SHARED[:pool])
        return make(sp), f

    def two(label, index=None):
        a, fa = one(label + 'a', index)
        b, fb = one(label + 'b')
        op = ctx.choose(label + 'op', ('and', 'or'))
        return (a & b if op == 'and' else a | b), (op, [fa, fb])

    if use in ('own and', 'own or', 'and own', 'or own', 'inner', 'twice'):
        # one object on both sides
        a, fa = one('', first)
        b, fb = one('b')
        op = ctx.choose('op', ('and', 'or', 'rand', 'ror'))
        x = {'and': lambda: a & b, 'or': lambda: a | b, 'rand': lambda: b & a, 'ror': lambda: b | a}[op]()
        fx = (op.lstrip('r'), [fa, fb])
        e, f = {'own and': lambda: (a & x, ('and', [fa, fx])), 'own or': lambda: (a | x, ('or', [fa, fx])),
                'and own': lambda: (x & a, ('and', [fx, fa])), 'or own': lambda: (x | a, ('or', [fx, fa])),
                'inner': lambda: (x & (x | a), ('and', [fx, ('or', [fx, fa])])),
                'twice': lambda: ((x | b) & (a | x), ('and', [('or', [fx, fb]), ('or', [fa, fx])]))}[use]()
        q = sp.select_from('t').where(e)
        if ctx.flag('more'):
            q.where(b)
            f = ('and', [f, fb])
        equal_formula(ctx, q, 'WHERE', f)
        return
    x, fx = two('x', first)
    clause = 'having' if use in ('calls', 'Q') else 'where'
    q = sp.select_from('t')
    add = getattr(q, clause)
    if use == 'same':
        y, fy = one('y')
        add(x, y, x & y, x | y, y | x)
        f = ('and', [fx, fy])
    else:
        y, fy = two('y')
        if use == 'args':
            add(x, y)
            f = ('and', [fx, fy])
        elif use == 'calls':
            add(x)
            add(y)
            f = ('and', [fx, fy])
        elif use == 'and':
            add(x & y)
            f = ('and', [fx, fy])
        elif use == 'or':
            add(x | y)
            f = ('or', [fx, fy])
        elif use == 'Q':
            add(sp.Q(x, y) | sp.Q(c=1))
            f = ('or', [('and', [fx, fy]), atom('c', '=', ('num', '1'))])
        elif use == 'not':
            add(sp.Not(x, y))
            f = ('not', ('and', [fx, fy]))
        else:
            z, fz = one('z')
            add((x & z) | y)
            f = ('or', [('and', [fx, fz]), fy])
    equal_formula(ctx, q, 'HAVING' if clause == 'having' else 'WHERE', f)


def equal_formula(ctx, q, start, f):
    cond = logic.where_of(tokens(render(ctx, q), 'sql'), start)
    ctx.check(cond is not None, 'condition is missing')
    try:
        ok = logic.equivalent(logic.parse(cond, full_key), f)
    except logic.ParseError:
        ok = False
    ctx.check(ok, 'rendered condition is not equivalent to the expression')


def h_args(ctx):
    """Several arguments of one call."""
    sp = ctx.sp
    sp.configure('sql')
    clause = ctx.choose('clause', ('where', 'having', 'Q'))
    args, parts = [], []
    for i in range(ctx.choose('n', (1, 2, 3))):
        kind = ctx.choose('kind%d' % i, ('or', 'and', 'one', 'two'))
        a, b = 'a%d' % i, 'b%d' % i
        fa, fb = ('atom', (a, '=')), ('atom', (b, '='))
        if kind == 'or':
            args.append(sp.Q(a, 1) | sp.Q(b, 2))
            parts.append(('or', [fa, fb]))
        elif kind == 'and':
            args.append(sp.Q(a, 1) & sp.Q(b, 2))
            parts.append(('and', [fa, fb]))
        elif kind == 'one':
            args.append(sp.Q(a, 1))
            parts.append(fa)
        else:
            args.append(sp.Q(**{a: 1, b: 1}))
            parts.append(('and', [fa, fb]))
    kwds = {}
    if ctx.flag('kwds'):
        kwds['k'] = 1
        parts.append(('atom', ('k', '=')))
    if ctx.flag('empty'):
        args.append(sp.Q())
    if clause == 'Q':
        q = sp.select_from('t').where(sp.Q(*args, **kwds) | sp.Q(z=1))
        f = ('or', [('and', parts), ('atom', ('z', '='))])
    else:
        q = sp.select_from('t')
        getattr(q, clause)(*args, **kwds)
        f = ('and', parts)
    equivalent(ctx, q, 'sql', f, 'HAVING' if clause == 'having' else 'WHERE')


def h_chain(ctx):
    """Long chains, and one object used in several expressions."""
    sp = ctx.sp
    sp.configure('sql')
    n = ctx.choose('n', (2, 5, 9, 20))
    op = ctx.choose('op', ('and', 'or', 'mixed'))
    e, f = sp.Q('c0', 1), ('atom', ('c0', '='))
    left = ctx.flag('left')
    for i in range(1, n):
        x, fx = sp.Q('c%d' % i, 1), ('atom', ('c%d' % i, '='))
        kind = op if op != 'mixed' else ('and' if i % 2 else 'or')
        if left:
            e, f = (e & x if kind == 'and' else e | x), (kind, [f, fx])
        else:
            e, f = (x & e if kind == 'and' else x | e), (kind, [fx, f])
    other = e | sp.Q(z=1)
    again = e & e
    equivalent(ctx, sp.select_from('t').where(e), 'sql', f)
    equivalent(ctx, sp.select_from('t').where(other), 'sql', ('or', [f, ('atom', ('z', '='))]))
    equivalent(ctx, sp.select_from('t').where(again), 'sql', f)
    equivalent(ctx, sp.select_from('t').having(e).having(other), 'sql',
               ('and', [f, ('or', [f, ('atom', ('z', '='))])]), 'HAVING')


def h_not(ctx):
    sp = ctx.sp
    sp.configure('sql')
    fa, fb, fc = (('atom', (x, '=')) for x in ('a', 'b', 'c'))
    form = ctx.choose('form', ('one', 'two', 'or', 'and', 'not not', 'and not', 'pair', 'having', 'with where'))
    start = 'WHERE'
    if form == 'one':
        q, f = sp.select_from('t').where(sp.Not(a=1)), ('not', fa)
    elif form == 'two':
        q, f = sp.select_from('t').where(sp.Not(a=1, b=2)), ('not', ('and', [fa, fb]))
    elif form == 'or':
        q, f = sp.select_from('t').where(sp.Not(sp.Q(a=1) | sp.Q(b=2))), ('not', ('or', [fa, fb]))
    elif form == 'and':
        q, f = sp.select_from('t').where(sp.Not(sp.Q(a=1) & sp.Q(b=2, c=3))), ('not', ('and', [fa, fb, fc]))
    elif form == 'not not':
        q, f = sp.select_from('t').where(sp.Not(sp.Not(a=1))), fa
    elif form == 'and not':
        q, f = sp.select_from('t').where(a=1).where(sp.Not(b=2)).where(c=3), ('and', [fa, ('not', fb), fc])
    elif form == 'pair':
        q, f = sp.select_from('t').where(sp.Not('a', 1)), ('not', fa)
    elif form == 'having':
        q, f, start = sp.select_from('t').having(sp.Not({'a': 1, 'b': 2})), ('not', ('and', [fa, fb])), 'HAVING'
    else:
        q, f = sp.select_from('t').where(sp.Q(sp.Not(a=1)) | sp.Q(b=2)), ('or', [('not', fa), fb])
    equivalent(ctx, q, 'sql', f, start)


# ---------------------------------------------------------------- C07

FORMS = ('list', 'tuple', 'generator', 'IN list', 'IN tuple', 'IN args', 'IN generator', 'NOT_IN list', 'NOT_IN args',
         'NOT_IN tuple', 'NOT_IN generator')


def in_value(sp, form, items):
    if form == 'list':
        return list(items)
    if form == 'tuple':
        return tuple(items)
    if form == 'generator':
        return (x for x in items)
    cls = sp.relations.NOT_IN if form.startswith('NOT') else sp.relations.IN
    how = form.split(' ')[1]
    if how == 'list':
        return cls(list(items))
    if how == 'tuple':
        return cls(tuple(items))
    if how == 'generator':
        return cls(x for x in items)
    return cls(*items) if len(items) > 1 else cls(list(items))


def in_tokens(form, items, dialect, column):
    rest = [x for x in items if x is not None]
    negative = form.startswith('NOT')
    if len(rest) == len(items):
        return column + words('NOT IN' if negative else 'IN') + in_list(rest, dialect)
    if not rest:
        return column + words('IS NOT NULL' if negative else 'IS NULL')
    if negative:
        return expect('(? NOT IN ? AND ? IS NOT NULL)', column, in_list(rest, dialect), column)
    return expect('(? IN ? OR ? IS NULL)', column, in_list(rest, dialect), column)


def in_list(items, dialect):
    return [('op', '(')] + comma([words('now') if hasattr(x, 'tosql') else value(x, dialect) for x in items]) + [('op', ')')]


def h_in(ctx, backend, form, hi):
    sp = ctx.sp
    sp.configure(backend)
    items = []
    n = ctx.choose('n', tuple(range(1, hi + 1)))
    for i in range(n):
        kind = ctx.choose('kind%d' % i, ('null', 'int', 'str') if n > 2 else
                          ('null', 'int', 'str', 'bool', 'decimal', 'custom'))
        if kind == 'null':
            items.append(None)
        elif kind == 'int':
            items.append(ctx.int('v%d' % i))
        elif kind == 'str':
            items.append(ctx.str('v%d' % i, 0, 1))
        elif kind == 'bool':
            items.append(ctx.flag('v%d' % i))
        elif kind == 'decimal':
            items.append(decimal.Decimal('0'))
        else:
            items.append(sp.C('now'))
    clause = ctx.choose('clause', ('where', 'having', 'on', 'Q') if n < 2 or (n < 3 and backend == 'sql') else ('where',))
    x = in_value(sp, form, items)
    toks = in_tokens(form, items, backend, words('"c"'))
    if clause == 'where':
        q, e = sp.select_from('t').where('c', x).where('d', 1), expect('SELECT * FROM "t" WHERE ? AND "d" = 1', toks)
    elif clause == 'having':
        q, e = sp.select_from('t').having(c=x), expect('SELECT * FROM "t" HAVING ?', toks)
    elif clause == 'on':
        q, e = sp.select_from('t').join('u').on({'c': x}), expect('SELECT * FROM "t" JOIN "u" ON ?', toks)
    else:
        q, e = sp.select_from('t').where(sp.Q('d', 1) | sp.Q(c=x)), expect('SELECT * FROM "t" WHERE ("d" = 1 OR ?)', toks)
    same(ctx, q, backend, e, 'list is not rendered as its items and the test for NULL')
    if n < 3:
        same(ctx, q, backend, e, 'list is not rendered in the same way again')


def h_in_many(ctx, backend, counts):
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.choose('n', counts)
    form = ctx.choose('form', FORMS)
    items = list(range(n))
    null = ctx.choose('null', ('no', 'first', 'last', 'middle'))
    if null == 'first':
        items.insert(0, None)
    elif null == 'last':
        items.append(None)
    elif null == 'middle':
        items.insert(n // 2, None)
    q = sp.select_from('t').where('c', in_value(sp, form, items))
    same(ctx, q, backend, expect('SELECT * FROM "t" WHERE ?', in_tokens(form, items, backend, words('"c"'))),
         'long list is not rendered as its items and the test for NULL')


def h_in_text(ctx, backend, texts):
    """Items which look special are items like any other."""
    sp = ctx.sp
    sp.configure(backend)
    s = ctx.choose('text', texts)
    form = ctx.choose('form', ('list', 'IN generator', 'NOT_IN args'))
    items = [[s, 'x'], [None, s], [5, s, None]][ctx.choose('items', (0, 1, 2))]
    q = sp.select_from('t').where('c', in_value(sp, form, items))
    same(ctx, q, backend, expect('SELECT * FROM "t" WHERE ?', in_tokens(form, items, backend, words('"c"'))),
         'list is not rendered as its items and the test for NULL')


def h_in_empty(ctx, backend):
    sp = ctx.sp
    sp.configure(backend)
    exc = sp.exceptions.InvalidArgumentException
    kind = ctx.choose('kind', ('list', 'tuple', 'generator', 'range', 'IN', 'IN list', 'IN tuple', 'IN generator', 'NOT_IN',
                               'NOT_IN list', 'NOT_IN generator', 'V', 'V tuple', 'V generator'))
    r = sp.relations

    def make():
        if kind == 'list':
            x = []
        elif kind == 'tuple':
            x = ()
        elif kind == 'generator':
            x = (i for i in ())
        elif kind == 'range':
            x = range(0)
        elif kind == 'V':
            x = sp.V([])
        elif kind == 'V tuple':
            x = sp.V(())
        elif kind == 'V generator':
            x = sp.V(i for i in ())
        else:
            cls = r.NOT_IN if kind.startswith('NOT') else r.IN
            if kind.endswith('list'):
                x = cls([])
            elif kind.endswith('tuple'):
                x = cls(())
            elif kind.endswith('generator'):
                x = cls(i for i in ())
            else:
                x = cls()
        where = clause
        if where == 'where':
            q = sp.select_from('t').where('c', x)
        elif where == 'having':
            q = sp.select_from('t').where(d=1).having(c=x)
        elif where == 'delete':
            q = sp.delete_from('t').where('c', x)
        elif where == 'update':
            q = sp.update('t').set(a=1).where(c=x)
        else:
            q = sp.select_from('t').where(sp.Q(c=x) | sp.Q(a=1))
        return ctx.observe(str(q))
    clause = ctx.choose('clause', ('where', 'having', 'delete', 'update', 'Q'))
    ctx.check(raises(ctx, make, exc), 'empty list is accepted')


def h_in_other(ctx, backend):
    """IN with a sub-query or custom SQL."""
    sp = ctx.sp
    sp.configure(backend)
    cls, text = ctx.choose('rel', ((sp.relations.IN, 'IN'), (sp.relations.NOT_IN, 'NOT IN')))
    kind = ctx.choose('kind', ('select', 'union', 'custom'))
    if kind == 'select':
        x, t = sp.select('i').from_('s'), '(SELECT "i" FROM "s")'
    elif kind == 'union':
        x, t = sp.select('i') | sp.select('j'), '(SELECT "i" UNION SELECT "j")'
    else:
        x, t = sp.C('(1, 2)'), '(1, 2)'
    same(ctx, sp.select_from('t').where('c', cls(x)), backend, words('SELECT * FROM "t" WHERE "c" %s %s' % (text, t)),
         'sub-query of IN is altered')
