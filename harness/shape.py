"""C15 (order of clauses, has), C16 (rendering is pure), C17 (independence), C18 (equality)."""
import collections
import copy

from .base import *
from . import catalog
from .catalog import Vals, build, apply, new, names_of

BOUNDS = {
    'C15': ['every order of up to 4 (thorough: 5) of the clauses of SELECT, of all clauses of UPDATE, DELETE and INSERT, each with a '
            'symbolic name of 1 ordinary character or an unbounded int',
            'has() for every clause, present or not, with symbolic words of 1-2 ordinary characters; all four databases'],
    'C16': ['every one of 41 SELECT, 15 UPDATE, 12 DELETE and 6-8 INSERT steps, Q objects and functions, pairs of them (thorough: triples), '
            'over symbolic names and unbounded ints, rendered, compared, asked and copied between the steps',
            'list, tuple, dictionary, set, generator and object arguments of every method'],
    'C17': ['all pairs of those steps, one before the copy and one after it on either side; two statements built alternately',
            'objects shared by two statements'],
    'C18': ['all pairs of those steps with independent symbolic values; values of every type in the same place'],
}
ASSUMPTIONS = {
    'C15': ['the words has() searches for are judged as whole words'],
    'C16': ['one-shot iterators other than generators are outside the claim'],
    'C17': ['a statement used inside another one is shared, not copied (changing it later changes both)'],
    'C18': ['values which differ in Python but render the same text (1.0 and 1.000001, a and "a") may be unequal'],
}


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'C15':
        for b in BACKENDS:
            for first in CLAUSES:
                if deep or b == 'sql':
                    out.append((prop, 'h_clause_order', {'backend': b, 'first': first, 'n': 5 if deep else 4}, 1500 if deep else 60))
            out.append((prop, 'h_presence', {'backend': b}, 60))
            for st in ('update', 'delete', 'insert'):
                out.append((prop, 'h_other_order', {'backend': b, 'statement': st}, 60))
        for clause in HAS:
            out.append((prop, 'h_has', {'clause': clause, 'hi': 2 if deep else 1}, 300 if deep else 60))
            if clause != 'limit':
                out.append((prop, 'h_has_many', {'clause': clause, 'counts': harvest.counts(SRC, (1, 2, 12, 60), 300)}, 60))
                out.append((prop, 'h_has_literal', {'clause': clause}, 60))
                out.append((prop, 'h_has_edges', {'clause': clause, 'hi': 2 if deep else 1}, 300 if deep else 60))
        out.append((prop, 'h_has_options', {}, 60))
        out.append((prop, 'h_has_others', {}, 60))
        for b in BACKENDS:
            out.append((prop, 'h_has_rest', {'backend': b}, 60))
        return out
    for b in (BACKENDS if deep else ('sql', 'mysql') if prop == 'C18' else ('mysql', 'postgresql', 'sqlite')):
        for kind in catalog.KINDS:
            if not deep and b != 'mysql' and kind != 'insert' and (prop != 'C18' or kind not in ('update', 'Q')):
                continue
            if kind == 'insert' and not deep and b == 'sql':
                continue
            for s in names_of(kind, b):
                if prop == 'C16':
                    out.append((prop, 'h_render', {'backend': b, 'kind': kind, 'first': s, 'n': 3 if deep else 2}, 900 if deep else 60))
                    out.append((prop, 'h_render', {'backend': b, 'kind': kind, 'first': s, 'n': 1}, 60))
                    if kind in ('select', 'update', 'delete', 'insert'):
                        out.append((prop, 'h_asked', {'backend': b, 'kind': kind, 'first': s}, 60))
                    out.append((prop, 'h_compare', {'backend': b, 'kind': kind, 'first': s}, 60))
                elif prop == 'C17':
                    out.append((prop, 'h_copy', {'backend': b, 'kind': kind, 'first': s}, 600 if deep else 60))
                    if deep or kind != 'select' or s in ('where or', 'on', 'column', 'join', 'order', 'limit', 'distinct', 'outfile'):
                        out.append((prop, 'h_separate', {'backend': b, 'kind': kind, 'first': s}, 600 if deep else 60))
                else:
                    out.append((prop, 'h_equal', {'backend': b, 'kind': kind, 'first': s}, 600 if deep else 60))
    if prop == 'C16':
        for b in BACKENDS:
            out.append((prop, 'h_arguments', {'backend': b}, 120))
            out.append((prop, 'h_all', {'backend': b}, 60))
            out.append((prop, 'h_generators', {'backend': b}, 60))
            for left in OPERANDS:
                if deep or b in ('mysql', 'postgresql'):
                    out.append((prop, 'h_operands', {'backend': b, 'left': left}, 120))
    elif prop == 'C17':
        for b in BACKENDS:
            out.append((prop, 'h_shared', {'backend': b}, 120))
            out.append((prop, 'h_operators', {'backend': b}, 60))
            out.append((prop, 'h_fresh', {'backend': b}, 60))
            out.append((prop, 'h_copy_nested', {'backend': b}, 60))
    else:
        for b in BACKENDS:
            for where in PLACES:
                out.append((prop, 'h_equal_values', {'backend': b, 'where': where, 'alpha': 'any' if deep or where == 'where' else 'plain'}, 120))
            out.append((prop, 'h_equal_lists', {'backend': b}, 60))
            out.append((prop, 'h_equal_union', {'backend': b}, 60))
            out.append((prop, 'h_equal_many', {'backend': b, 'counts': harvest.counts(SRC, (1, 2, 3, 4, 12), 40)}, 60))
            for g in MINIMAL if deep or b in ('mysql', 'postgresql') else ():
                out.append((prop, 'h_equal_minimal', {'backend': b, 'group': g}, 120))
            if deep or b == 'mysql':
                for st in OPTIONS:
                    out.append((prop, 'h_equal_options', {'backend': b, 'statement': st}, 60))
            if deep or b in ('mysql', 'postgresql'):
                for where in TYPED:
                    out.append((prop, 'h_equal_types', {'backend': b, 'where': where}, 60))
    return out


# ---------------------------------------------------------------- C15

CLAUSES = ('columns', 'from', 'join', 'where', 'group', 'having', 'order', 'limit', 'outfile', 'options', 'lock')
SEQUENCE = ('options', 'columns', 'from', 'join', 'where', 'group', 'having', 'order', 'limit', 'outfile', 'lock')


def do_clause(ctx, sp, q, clause):
    """Apply the clause; -> its tokens"""
    if clause == 'columns':
        n = ctx.str('c', 1, 1, 'plain')
        q.columns(n)
        return [('id', n)]
    if clause == 'from':
        n = ctx.str('t', 1, 1, 'plain')
        q.from_(n)
        return words('FROM') + [('id', n)]
    if clause == 'join':
        n = ctx.str('j', 1, 1, 'plain')
        q.left_join(n).on('a', 'b')
        return words('LEFT JOIN') + [('id', n)] + words('ON "a" = "b"')
    if clause == 'where':
        v = ctx.int('w')
        q.where('w', v)
        return words('WHERE "w" =') + num(v)
    if clause == 'group':
        n = ctx.str('g', 1, 1, 'plain')
        q.group_by(n)
        return words('GROUP BY') + [('id', n)]
    if clause == 'having':
        v = ctx.int('h')
        q.having('h', v)
        return words('HAVING "h" =') + num(v)
    if clause == 'order':
        n = ctx.str('o', 1, 1, 'plain')
        q.order_by((n, 'desc'))
        return words('ORDER BY') + [('id', n)] + words('DESC')
    if clause == 'limit':
        v = ctx.int('l', 0)
        q.limit(v, 5)
        return words('LIMIT') + num(v) + words('OFFSET 5')
    if clause == 'outfile':
        n = ctx.str('f', 1, 1, 'plain')
        q.into_outfile(n)
        return words('INTO OUTFILE') + lit(n)
    if clause == 'options':
        q.distinct()
        return words('DISTINCT')
    q.for_update()
    return words('FOR UPDATE')


def h_clause_order(ctx, backend, first, n):
    sp = ctx.sp
    sp.configure(backend)
    q = sp.select()
    done = {}
    for i in range(n):
        left = [c for c in CLAUSES if c not in done]
        if i == 0:
            clause = first
        else:
            clause = ctx.choose('clause%d' % i, tuple(left) + ('stop',))
        if clause == 'stop':
            break
        if clause == 'join' and 'from' not in done:
            ctx.assume(False)
        done[clause] = do_clause(ctx, sp, q, clause)
    want = words('SELECT')
    for c in SEQUENCE:
        if c == 'columns' and c not in done:
            want = want + words('*')
        want = want + done.get(c, [])
    same(ctx, q, backend, want, 'clause is lost, repeated or misplaced')


def h_presence(ctx, backend):
    """Any subset of the clauses, in their usual order."""
    sp = ctx.sp
    sp.configure(backend)
    q = sp.select_from('t')
    want = words('SELECT')
    if ctx.flag('options'):
        want = want + do_clause(ctx, sp, q, 'options')
    want = want + words('* FROM "t"')
    for c in ('where', 'group', 'having', 'order', 'limit', 'outfile', 'lock'):
        if ctx.flag(c):
            want = want + do_clause(ctx, sp, q, c)
    same(ctx, q, backend, want, 'clause is lost, repeated or misplaced')


def h_other_order(ctx, backend, statement):
    sp = ctx.sp
    sp.configure(backend)
    parts = {}
    if statement == 'update':
        ops = ('set', 'where', 'ignore', 'join', 'table')
        q = sp.update(None)
    elif statement == 'delete':
        ops = ('from', 'where', 'ignore', 'join', 'tables')
        q = sp.delete()
    else:
        ops = ('into', 'values', 'ignore') + (('upsert',) if backend != 'sql' else ())
        q = sp.insert()
    done = []
    for i in range(len(ops)):
        left = tuple(o for o in ops if o not in done)
        op = ctx.choose('op%d' % i, left)
        done.append(op)
        if op == 'join':
            ctx.assume('table' in done or 'from' in done)
            n = ctx.str('j', 1, 1, 'plain')
            q.join(n).on('x', 'y')
            parts[op] = words('JOIN') + [('id', n)] + words('ON "x" = "y"')
        elif op in ('table', 'from', 'into'):
            n = ctx.str('t', 1, 1, 'plain')
            {'table': getattr(q, 'table', None), 'from': getattr(q, 'from_', None), 'into': getattr(q, 'into', None)}[op](n)
            parts[op] = [('id', n)]
        elif op == 'tables':
            q.delete('d')
            parts[op] = words('"d"')
        elif op == 'set':
            v = ctx.int('v')
            q.set(s=v)
            parts[op] = words('"s" =') + num(v)
        elif op == 'where':
            v = ctx.int('w')
            q.where(w=v)
            parts[op] = words('WHERE "w" =') + num(v)
        elif op == 'values':
            v = ctx.int('v')
            q.values(c=v)
            parts[op] = expect('("c") VALUES (?)', num(v))
        elif op == 'ignore':
            q.ignore()
            parts[op] = words('IGNORE')
        elif backend == 'mysql':
            q.on_duplicate_key_update(c=1)
            parts[op] = words('ON DUPLICATE KEY UPDATE "c" = 1')
        elif backend == 'postgresql':
            q.on_duplicate_key_update('k', {'c': 1})
            parts[op] = words('ON CONFLICT ("k") DO UPDATE "c" = 1')
        else:
            q.on_duplicate_key_update()
            parts[op] = []
    p = parts
    if statement == 'update':
        want = words('UPDATE') + p['ignore'] + p['table'] + p['join'] + words('SET') + p['set'] + p['where']
    elif statement == 'delete':
        want = words('DELETE') + p['ignore'] + p['tables'] + words('FROM') + p['from'] + p['join'] + p['where']
    else:
        want = words('REPLACE' if backend == 'sqlite' else 'INSERT') + p['ignore'] + words('INTO') + p['into'] + p['values'] + p.get('upsert', [])
    same(ctx, q, backend, want, 'clause is lost, repeated or misplaced')


HAS = ('columns', 'tables', 'where', 'group_by', 'having', 'order_by', 'limit', 'into_outfile')


def put(ctx, q, clause, word):
    if clause == 'columns':
        q.columns(word)
    elif clause == 'tables':
        q.from_(word)
    elif clause == 'where':
        q.where(word, 1)
    elif clause == 'having':
        q.having(word, 1)
    elif clause == 'group_by':
        q.group_by(word)
    elif clause == 'order_by':
        q.order_by(word)
    elif clause == 'limit':
        q.limit(5)
    else:
        q.into_outfile(word)


def h_has(ctx, clause, hi):
    """has(clause) and has(clause, word) against what was put in."""
    sp = ctx.sp
    sp.configure('sql')
    q = sp.select()
    present = []
    for c in HAS:
        if c == clause or c in ('where', 'columns', 'order_by'):
            if ctx.flag('put.' + c):
                if c == clause:
                    n = ctx.str('n', 1, hi, 'lower')
                put(ctx, q, c, n if c == clause else 'zz')
                present.append(c)
    if ctx.flag('rendered'):
        str(q)
    for c in HAS:
        # without columns it selects everything
        ctx.check(ctx.observe(bool(q.has(c))) == (c in present or c == 'columns'), 'has() is wrong about %s' % c)
    if clause in present and clause != 'limit':
        ctx.check(ctx.observe(bool(q.has(clause, n))) is True, 'has() does not find a word which is there')
        w = ctx.str('w', 1, hi, 'lower')
        reserved = ('by', 'as', 'is', 'in', 'or', 'on')
        ctx.assume(all(w != r for r in reserved))
        ctx.check(ctx.observe(bool(q.has(clause, w))) == (w == n), 'has() is wrong about a word')
        ctx.check(ctx.observe(bool(q.has(clause, n + 'q'))) is False, 'has() finds part of a word')
    elif clause == 'limit' and 'limit' in present:
        ctx.check(q.has('limit', 5) and not q.has('limit', 6), 'has() is wrong about the number')
    else:
        ctx.check(ctx.observe(bool(q.has(clause, ctx.str('w', 1, hi, 'lower')))) is False, 'has() finds a word in nothing')


def h_has_edges(ctx, clause, hi):
    """A word is found exactly when no letter, digit or underscore touches it."""
    sp = ctx.sp
    sp.configure('sql')
    q = sp.select()
    before = ctx.str('before', 0, hi, 'plain')
    after = ctx.str('after', 0, hi, 'plain')
    ctx.assume(before != '' or after != '')
    put(ctx, q, clause, before + 'wxw' + after)
    found = ctx.observe(bool(q.has(clause, 'wxw')))
    inside = (before != '' and (before[-1].isalnum() or before[-1] == '_')) or (after != '' and (after[0].isalnum() or after[0] == '_'))
    ctx.check(found == (not inside), 'has() is wrong about a part of a name')
    ctx.check(ctx.observe(bool(q.has(clause, 'xw'))) is False, 'has() finds part of a word')
    ctx.check(ctx.observe(bool(q.has(clause, 'wx'))) is False, 'has() finds part of a word')


def h_has_literal(ctx, clause):
    """No character of the word asked for stands for another one."""
    sp = ctx.sp
    sp.configure('sql')
    q = sp.select()
    x, y = ctx.str('x', 1, 1, 'plain'), ctx.str('y', 0, 2, ASCII)
    put(ctx, q, clause, 'a' + x + 'b')
    ctx.check(ctx.observe(bool(q.has(clause, 'a' + y + 'b'))) == (x == y), 'has() is wrong about a word')


ASCII = ((33, 126),)


def h_has_many(ctx, clause, counts):
    """Every one of many words is found, wherever it is."""
    sp = ctx.sp
    sp.configure('sql')
    q = sp.select()
    n = ctx.choose('n', counts)
    for i in range(n):
        put(ctx, q, clause, 'column%03d' % i)
    at = ctx.choose('at', sorted({0, n // 2, n - 1}))
    if clause == 'into_outfile':
        at = n - 1
    ctx.check(ctx.observe(bool(q.has(clause, 'column%03d' % at))), 'has() does not find a word which is there')
    ctx.check(not ctx.observe(bool(q.has(clause, 'column%03d' % n))), 'has() finds a word which is not there')


def h_has_options(ctx):
    sp = ctx.sp
    sp.configure('mysql')
    q = sp.select_from('t')
    names = ('distinct', 'distinctrow', 'all', 'sql_cache', 'sql_no_cache', 'straight_join', 'high_priority', 'sql_big_result')
    o = ctx.choose('o', names)
    p = ctx.choose('p', ('none',) + names)
    getattr(q, o)()
    on = {o}
    if p != 'none' and p != o:
        getattr(q, p)()
        for group in ({'distinct', 'distinctrow', 'all'}, {'sql_cache', 'sql_no_cache'}):
            if p in group:
                on -= group
        on.add(p)
    for x in names:
        ctx.check(ctx.observe(bool(q.has('select_options', x))) == (x in on), 'has() is wrong about option %s' % x)
        ctx.check(ctx.observe(bool(q.has(x))) == (x in on), 'has() is wrong about option %s' % x)
    ctx.check(q.has('select_options') is True and not sp.select_from('t').has('select_options'), 'has() is wrong about options')
    ctx.check(not q.has('nonsense') and not q.has('where'), 'has() is wrong about an unknown clause')


def h_has_others(ctx):
    sp = ctx.sp
    sp.configure('mysql')
    st = ctx.choose('statement', ('update', 'delete', 'insert'))
    n = ctx.str('n', 1, 2, 'lower')
    ctx.assume(n != 'is' and n != 'in')
    w = ctx.str('w', 1, 2, 'lower')
    ctx.assume(w != 'is' and w != 'in')
    f = ctx.flag('put')
    if st == 'insert':
        q = sp.insert_into('t').values(a=1)
        clause = 'on_duplicate_key_update'
        if f:
            q.on_duplicate_key_update(n, 1)
        ctx.check(q.has('values') and not sp.insert_into('t').has('values'), 'has() is wrong about values')
        ctx.check(q.has('tables', 't') and not q.has('tables', 'tt'), 'has() is wrong about tables')
    else:
        q = sp.update('t').set(s=1) if st == 'update' else sp.delete_from('t')
        clause = 'where'
        if f:
            q.where(n, 1)
    ctx.check(ctx.observe(bool(q.has(clause))) == f, 'has() is wrong about %s' % clause)
    ctx.check(ctx.observe(bool(q.has(clause, w))) == (f and w == n), 'has() is wrong about a word')


def h_has_rest(ctx, backend):
    """has() of the clauses which are not lists of names in SELECT, and of those of other statements."""
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.str('n', 1, 2, 'lower')
    w = ctx.str('w', 1, 2, 'lower')
    ctx.assume(all(x != r for x in (n, w) for r in ('is', 'in', 'as', 'on', 'by', 'a', 't', 'u', 'zz')))
    there = ctx.flag('put')
    what = ctx.choose('clause', ('for update', 'set', 'update table', 'update join', 'update ignore', 'delete tables', 'delete from', 'delete join',
                                 'delete ignore', 'insert table', 'insert column', 'insert value', 'insert ignore', 'select join', 'outfile', 'limit'))

    def asked(clause, word, expected):
        ctx.check(ctx.observe(bool(q.has(clause, word))) == expected, 'has() is wrong about a word of %s' % clause)

    def isset(clause, expected):
        ctx.check(ctx.observe(bool(q.has(clause))) == expected, 'has() is wrong about %s' % clause)

    if what == 'for update':
        q = sp.select_from('t')
        q.for_update(there)
        isset('select_for_update', there)
        asked('select_for_update', 'update', there)
        asked('select_for_update', 'for_update', there)
        asked('select_for_update', w, False)
        asked('select_for_update', ctx.choose('word', ('copy', '_for_update', 'has', 'is_set', 'delete', 'tosql')), False)
        return
    if what == 'limit':
        q = sp.select_from('t')
        i, j = ctx.choose('i', (1, 7, 12)), ctx.choose('j', (1, 2, 7, 12, 112))
        if there:
            q.limit(i)
            if ctx.flag('offset'):
                q.offset(50)
                asked('limit', 50, True)
        isset('limit', there)
        asked('limit', j, there and i == j)
        return
    if what.endswith('ignore'):
        st = what.split()[0]
        q = sp.update('t').set(a=1) if st == 'update' else sp.delete_from('t') if st == 'delete' else sp.insert_into('t').values(a=1)
        q.ignore(there)
        clause = st + '_options'
        isset(clause, there)
        asked(clause, 'ignore', there)
        asked(clause, w, False)
        return
    always = False
    if what == 'set':
        q = sp.update('t')
        clause = 'values'
        put_ = lambda: q.set(n, 1)
    elif what in ('update table', 'insert table'):
        q = sp.update('t').set(a=1) if what.startswith('update') else sp.insert().values(a=1)
        clause = 'tables'
        if what == 'update table':
            always = True
            put_ = lambda: q.table(n)
        else:
            put_ = lambda: q.into(n)
    elif what in ('update join', 'delete join', 'select join'):
        q = sp.update('t').set(a=1) if what.startswith('update') else sp.delete_from('t') if what.startswith('delete') else sp.select_from('t')
        clause = 'references' if what.startswith('delete') else 'tables'
        always = True
        if ctx.flag('by condition'):
            put_ = lambda: q.join('u').on(n, 'zz')
        else:
            put_ = lambda: q.join(n)
    elif what == 'delete tables':
        q = sp.delete()
        clause = 'tables'
        put_ = lambda: q.delete(n)
    elif what == 'delete from':
        q = sp.delete()
        clause = 'references'
        put_ = lambda: q.from_(n)
    elif what == 'outfile':
        q = sp.select_from('t')
        clause = 'into_outfile'
        put_ = lambda: q.into_outfile(n)
    elif what == 'insert column':
        q = sp.insert_into('t')
        clause = 'values'
        put_ = lambda: q.values({n: 1})
    else:
        q = sp.insert_into('t')
        clause = 'values'
        put_ = lambda: q.values(a=n)
    if there:
        put_()
    isset(clause, there or always)
    asked(clause, n, there)
    asked(clause, w, there and w == n)


# ---------------------------------------------------------------- C16

def text(q):
    """Rendered text; the exception if it cannot be rendered."""
    try:
        return str(q)
    except Exception as exc:
        return type(exc).__name__


PARTS = ('where', 'tables', 'columns', 'values', 'having', 'group_by', 'order_by', 'limit', 'into_outfile', 'select_options', 'references', 'joins')


def peek(ctx, sp, q, how):
    if how == 'str':
        str(q)
    elif how == 'repr':
        repr(q)
    elif how == 'tosql':
        q.tosql()
    elif how == 'eq':
        q == q.copy()
        q != 'x'
    elif how == 'has':
        if hasattr(q, 'join') or hasattr(q, 'into'):
            for c in PARTS:
                try:
                    q.has(c)
                except TypeError:
                    break
    elif how == 'hash':
        if hasattr(q, 'where') and hasattr(q, 'join'):
            hash(q)
            {q: 1}
    elif how == 'copy':
        copy.copy(q)
        q.copy()
    elif how == 'sort':
        sorted([q, q])
    elif how == 'format':
        '{}'.format(q)
        '%s' % q
    else:
        if hasattr(q, 'from_') and hasattr(q, 'columns'):
            str(sp.select_from((q, 'x')))
            str(q | q)
        else:
            str(q)


PEEKS = ('str', 'repr', 'tosql', 'eq', 'has', 'hash', 'copy', 'format', 'nested')


def h_render(ctx, backend, kind, first, n):
    sp = ctx.sp
    sp.configure(backend)
    plan = []
    q = new(sp, kind)
    how = ctx.choose('how', PEEKS if n == 1 or kind != 'select' else ('str', 'eq', 'nested'))
    for i in range(n):
        step = first if i == 0 else ctx.choose('step%d' % i, names_of(kind, backend))
        v = Vals(ctx, 's%d' % i, fixed=i > 0)
        plan.append((step, v))
        apply(sp, kind, backend, q, step, v)
        peek(ctx, sp, q, how)
    a = text(q)
    b = text(q)
    c = text(build(sp, kind, backend, plan))
    ctx.observe([a, b, c])
    ctx.check(a == b, 'second rendering differs')
    ctx.check(b == c, 'query which was rendered while it was being built differs')


def h_asked(ctx, backend, kind, first):
    """Searching a statement for words, found or not, changes nothing."""
    sp = ctx.sp
    sp.configure(backend)
    plan = [(first, Vals(ctx, 'a', fixed=True)), (ctx.choose('second', names_of(kind, backend)), Vals(ctx, 'b', fixed=True))]
    q = build(sp, kind, backend, plan)
    for word in ctx.choose('words', (('missing',), ('c', 't', 'raw', 'x', 'a', 'k'), ('t', 'missing', 't'))):
        for part in PARTS:
            try:
                q.has(part, word)
                q.has(part)
            except Exception:
                continue
    if ctx.flag('more'):
        plan.append((first, Vals(ctx, 'c', fixed=True)))
        apply(sp, kind, backend, q, *plan[-1])
    a, b = text(q), text(build(sp, kind, backend, plan))
    ctx.observe([a, b])
    ctx.check(a == b, 'searching a statement changes it')


def h_compare(ctx, backend, kind, first):
    """Comparing with another statement changes neither."""
    sp = ctx.sp
    sp.configure(backend)
    second = ctx.choose('second', names_of(kind, backend) + ('nothing',))
    v, w = Vals(ctx, 'a'), Vals(ctx, 'b', fixed=first != second)
    p = [(first, v)]
    r = [] if second == 'nothing' else [(second, w)]
    x, y = build(sp, kind, backend, p), build(sp, kind, backend, r)
    if ctx.flag('turned'):
        y == x
        y != x
    else:
        x == y
        x != y
        x in [y, x]
    a, b = text(x), text(y)
    c, d = text(build(sp, kind, backend, p)), text(build(sp, kind, backend, r))
    ctx.observe([a, b, c, d])
    ctx.check(a == c and b == d, 'comparing statements changes one of them')


def h_all(ctx, backend):
    """One statement with everything, rendered repeatedly under changing databases."""
    sp = ctx.sp
    sp.configure(backend)
    q = new(sp, 'select')
    for step in names_of('select', backend):
        apply(sp, 'select', backend, q, step, Vals(ctx, step, True))
    a = str(q)
    other = ctx.choose('other', BACKENDS)
    sp.configure(other)
    b = str(q)
    sp.configure(backend)
    c = str(q)
    ctx.observe([a, b, c])
    ctx.check(a == c, 'rendering for another database changes the query')
    if other == backend:
        ctx.check(a == b, 'second rendering differs')


def snapshot(x):
    if isinstance(x, dict):
        return (type(x).__name__, [(snapshot(k), snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(y) for y in x])
    if hasattr(x, 'relation') and hasattr(x, 'value'):
        return ('relation', type(x).__name__, snapshot(x.value))
    if hasattr(x, 'tosql'):
        return ('sql', str(x))
    return (type(x).__name__, x)


OD = collections.OrderedDict


def h_arguments(ctx, backend):
    """Arguments are not changed, and changing them later has no effect on what was rendered... by value."""
    sp = ctx.sp
    sp.configure(backend)
    i = ctx.int('i')
    n = ctx.str('n', 1, 1, 'plain')
    r = sp.relations
    sub = lambda: sp.select('x').from_('s').where(k=i)
    cond = lambda: sp.Q(a=i) | sp.Q(b=n)
    cases = {
        'columns tuple': lambda q: [(q.columns, [(n, 'z')])],
        'columns list': lambda q: [(q.columns, [[n, 'z'], 'y'])],
        'columns dict': lambda q: [(q.columns, [{n: 'z', 'k': 'l'}])],
        'from': lambda q: [(q.from_, [[n, 'z']])],
        'from dict': lambda q: [(q.from_, [{n: 'z'}])],
        'join list': lambda q: [(q.join, [[n, 'z']])],
        'join dict': lambda q: [(q.left_join, [{n: 'z'}])],
        'where list': lambda q: [(q.where, [[('a', i), ['b', [i, None, 2]]]])],
        'where dict': lambda q: [(q.where, [{'b': [3, 1, None], n: i, 'c': None}])],
        'where in': lambda q: [(q.where, ['a', r.IN([i, None])])],
        'where not in': lambda q: [(q.where, ['a', r.NOT_IN([None, n, i])])],
        'where list value': lambda q: [(q.where, ['a', [i, None, n]])],
        'where Q': lambda q: [(q.where, [sp.Q(a=i)]), (q.where, [cond(), sp.Q(c=1)])],
        'having Q': lambda q: [(q.having, [sp.Q({'a': [i, None]})])],
        'where sub': lambda q: [(q.where, ['a', sub()])],
        'exists': lambda q: [(q.where, [sp.exists(sub())])],
        'order': lambda q: [(q.order_by, [[n, 'desc'], ('b', None)])],
        'order dict': lambda q: [(q.order_by, [{n: 'desc', 'b': 'asc'}])],
        'group': lambda q: [(q.group_by, [[n, 'desc']])],
        'on': lambda q: [(q.join, ['u']), (q.on, [{'a': 'b', 'c': i}])],
        'columns function': lambda q: [(q.columns, [(sp.avg([n, 'b']), 'al')])],
        'columns concat': lambda q: [(q.columns, [sp.group_concat(n, ['b', 'c']).order_by(['d', 'desc'])])],
        'columns sub': lambda q: [(q.columns, [(sub(), 'al')])],
        'columns ordered': lambda q: [(q.columns, [OD([(n, 'z'), ('k', 'l')])])],
        'from ordered': lambda q: [(q.from_, [OD([(n, 'z'), ('k', 'l')])])],
        'join ordered': lambda q: [(q.join, [OD([(n, 'z')])])],
        'where ordered': lambda q: [(q.where, [OD([(n, [3, None]), ('a', i)])])],
        'having ordered': lambda q: [(q.having, [OD([(n, i), ('a', None)])])],
        'on ordered': lambda q: [(q.join, ['u']), (q.on, [OD([(n, i), ('a', 'b')])])],
        'order ordered': lambda q: [(q.order_by, [OD([(n, 'desc'), ('b', 'asc')])])],
        'group ordered': lambda q: [(q.group_by, [OD([(n, 'desc'), ('b', 'asc')])])],
        'where lists': lambda q: [(q.where, ['a', [[i, 2], [3]][0]]), (q.where, [('b', [i]), ('c', (1, None))])],
        'many tuples': lambda q: [(q.columns, [('a', 'b'), ('c', 'd'), [n, 'e']])],
    }
    other = {
        'insert dict': lambda: (sp.insert_into('t').values, [{n: i, 'b': None}]),
        'insert list': lambda: (sp.insert_into('t').values, [[[n, i], ('b', 'x')]]),
        'update dict': lambda: (sp.update('t').where(k=1).set, [{n: i, 'b': None}]),
        'update list': lambda: (sp.update('t').where(k=1).set, [[[n, i], ('b', 'x')]]),
        'delete where': lambda: (sp.delete_from('t').where, [{n: [i, None]}]),
        'delete tables': lambda: (sp.delete('a').where(k=1).from_, [{n: 'z'}]),
        'Q dict': lambda: (sp.Q().where, [{n: [i, None]}]),
        'Not': lambda: (sp.Not, [{n: [i, None]}]),
        'concat': lambda: (sp.concat, [[n, 'b'], 'c']),
        'count list': lambda: (sp.count, [[n, 'b']]),
        'V list': lambda: (sp.V, [[n, i, None]]),
        'insert ordered': lambda: (sp.insert_into('t').values, [OD([(n, i), ('b', None)])]),
        'update ordered': lambda: (sp.update('t').where(k=1).set, [OD([(n, i), ('b', None)])]),
        'update lists': lambda: (sp.update('t').where(k=1).set, [(n, i), ['b', sub()]]),
        'upsert': lambda: (sp.insert_into('t').values(a=1).on_duplicate_key_update,
                           (['k'] if backend == 'postgresql' else []) + ([{n: i, 'b': None}] if backend in ('mysql', 'postgresql') else [])),
        'upsert ordered': lambda: (sp.insert_into('t').values(a=1).on_duplicate_key_update,
                                   (['k'] if backend == 'postgresql' else []) + ([OD([(n, i), ('b', None)])] if backend in ('mysql', 'postgresql') else [])),
        'update tables': lambda: (sp.update('t').set(a=1).where(k=1).join, [{n: 'z'}]),
        'delete ordered': lambda: (sp.delete_from('t').where, [OD([(n, [i, None])])]),
        'Q list': lambda: (sp.Q().where, [[[n, [i, None]], ('c', 1)]]),
        'group_concat order': lambda: (sp.group_concat('a').order_by, [[n, 'desc'], ['b', 'desc']]),
        'group_concat ordered': lambda: (sp.group_concat('a').order_by, [OD([(n, 'desc'), ('c', 'asc')])]),
        'tables list': lambda: (sp.delete('a', 'b').where(k=1).from_, [[n, 'z'], 'c']),
    }
    kind = ctx.choose('kind', tuple(cases) + tuple(other))
    if kind in cases:
        q = sp.select_from('t')
        calls = cases[kind](q)
    else:
        q = None
        calls = [other[kind]()]
    for method, args in calls:
        before = [snapshot(a) for a in args]
        res = method(*args)
        ctx.check([snapshot(a) for a in args] == before, 'argument is changed by the call')
        t = str(res)
        ctx.check([snapshot(a) for a in args] == before, 'argument is changed by rendering')
        u = str(res)
        ctx.observe([t, u])
        ctx.check(t == u, 'second rendering differs')
        if q is not None:
            q.where('later', 1).order_by('later').columns('later').group_by('later')
            ctx.check([snapshot(a) for a in args] == before, 'argument is changed by later calls')


def h_generators(ctx, backend):
    sp = ctx.sp
    sp.configure(backend)
    i = ctx.int('i')
    form = ctx.choose('form', ('where', 'IN', 'NOT_IN', 'V', 'null', 'Q', 'on', 'range', 'having', 'order', 'concat'))
    items = [i, 2]
    gen = (x for x in (items + [None] if form == 'null' else items))
    q = sp.select_from('t').join('u')
    want = words('SELECT * FROM "t" JOIN "u"')
    if form == 'where':
        q.where('a', gen)
        tail = expect('WHERE "a" IN (?, 2)', num(i))
    elif form in ('IN', 'NOT_IN'):
        q.where('a', getattr(sp.relations, form)(gen))
        tail = expect('WHERE "a" %s (?, 2)' % form.replace('_', ' '), num(i))
    elif form == 'V':
        q.where('a', sp.relations.IN(list(gen)))
        tail = expect('WHERE "a" IN (?, 2)', num(i))
    elif form == 'null':
        q.where('a', gen)
        tail = expect('WHERE ("a" IN (?, 2) OR "a" IS NULL)', num(i))
    elif form == 'Q':
        q.where(sp.Q(a=gen))
        tail = expect('WHERE "a" IN (?, 2)', num(i))
    elif form == 'on':
        q.on('a', gen)
        tail = expect('ON "a" IN (?, 2)', num(i))
    elif form == 'range':
        q.where('a', range(2, 5))
        tail = words('WHERE "a" IN (2, 3, 4)')
    elif form == 'having':
        q.having(a=gen)
        tail = expect('HAVING "a" IN (?, 2)', num(i))
    elif form == 'order':
        q.order_by(*(x for x in ('m', 'n')))
        tail = words('ORDER BY "m", "n"')
    else:
        q.columns(sp.concat(*(x for x in ('m', 'n'))))
        want = words('SELECT CONCAT("m", "n") FROM "t" JOIN "u"')
        tail = []
    for _ in range(3):
        same(ctx, q, backend, want + tail, 'generator is not rendered the same every time')
    c = q.copy()
    ctx.check(c == q, 'copy differs')
    same(ctx, c, backend, want + tail, 'generator is lost in the copy')


OPERANDS = ('empty', 'one', 'two', 'three', 'list', 'custom', 'and', 'or', 'not', 'nested', 'select', 'union', 'sorted')


def operand(sp, kind, i, n):
    if kind == 'empty':
        return sp.Q()
    if kind == 'one':
        return sp.Q(n, i)
    if kind == 'two':
        return sp.Q(n, i).where('k2', 2)
    if kind == 'three':
        return sp.Q(n, i).where('k2', 2).where('k3', sp.relations.GT(3))
    if kind == 'list':
        return sp.Q({n: [i, None]})
    if kind == 'custom':
        return sp.Q(sp.C('raw'))
    if kind == 'and':
        return sp.Q(n, i) & sp.Q(k2=2)
    if kind == 'or':
        return sp.Q(n, i) | sp.Q(k2=2)
    if kind == 'not':
        return sp.Not(n, i)
    if kind == 'nested':
        return sp.Q(sp.Q(n, i) | sp.Q(k2=2)).where('k3', 3)
    if kind == 'union':
        return sp.select(n).from_('s').where('k', i) | sp.select('x')
    q = sp.select(n).from_('s').where('k', i)
    return q.order_by('o').limit(3) if kind == 'sorted' else q


def h_operands(ctx, backend, left):
    """Using two objects together leaves both as they were."""
    sp = ctx.sp
    sp.configure(backend)
    selects = ('select', 'union', 'sorted')
    right = ctx.choose('right', selects if left in selects else tuple(k for k in OPERANDS if k not in selects))
    i, j = ctx.int('i'), ctx.int('j')
    n, m = ctx.str('n', 1, 1, 'plain'), ctx.str('m', 1, 1, 'plain')
    how = ctx.choose('how', ('and', 'or', 'same', 'eq', 'used', 'used where'))
    if 'empty' in (left, right):
        ctx.assume(how in ('eq', 'used'))
    if 'not' in (left, right):
        # a negation is used through where()
        ctx.assume(how in ('eq', 'used', 'used where'))
    a, b = operand(sp, left, i, n), operand(sp, right, j, m)
    ta, tb = text(a), text(b)
    rendered = ctx.flag('rendered')
    made = []
    if how in ('and', 'or'):
        made = [a & b if how == 'and' else a | b]
        made.append(made[0] & b if how == 'or' else made[0] | b)
    elif how == 'same':
        made = [a & a, a | a, b & a]
    elif how == 'eq':
        a == b, b == a, a != b
    elif left in selects:
        if how == 'used':
            made = [sp.select((a, 'x')).where('c', b).where(sp.exists(a))]
        else:
            made = [sp.select_from((a, 'x')).join((b, 'y')).on('x.a', 'y.b').where('c', sp.relations.IN(a))]
    elif how == 'used':
        made = [sp.select_from('t').where(a).where(b).having(b), sp.Q(a, b), sp.Not(a)]
    else:
        made = [sp.update('t').set(z=1).where(a, b).where('l', 1)]
        if 'not' not in (left, right):
            made[0].where(a | b)
        made[0].where(a)
    if rendered:
        for x in made:
            text(x)
    ctx.observe([ta, tb])
    ctx.check(text(a) == ta and text(b) == tb, 'object is changed by using it')
    x, y = operand(sp, left, i, n), operand(sp, right, j, m)
    ctx.check(a == x and b == y, 'object is changed by using it')
    if hasattr(a, 'where'):
        a.where('later', 1)
        x.where('later', 1)
        ctx.check(text(a) == text(x), 'object cannot be built further')


# ---------------------------------------------------------------- C17

def h_copy(ctx, backend, kind, first):
    sp = ctx.sp
    sp.configure(backend)
    v, w = Vals(ctx, 'a'), Vals(ctx, 'b', fixed=True)
    second = ctx.choose('second', names_of(kind, backend))
    side = ctx.choose('side', ('copy', 'original'))
    q = build(sp, kind, backend, [(first, v)])
    if ctx.flag('rendered'):
        text(q)
    c = q.copy()
    ctx.check(type(c) is type(q) and c is not q, 'copy is not a copy')
    before = text(q)
    ctx.check(text(c) == before, 'copy renders differently')
    changed, kept = (c, q) if side == 'copy' else (q, c)
    apply(sp, kind, backend, changed, second, w)
    want = text(build(sp, kind, backend, [(first, v), (second, w)]))
    ctx.observe([before, want])
    ctx.check(text(changed) == want, 'the changed one is not what it should be')
    ctx.check(text(kept) == before, 'change of one changes the other')


def h_separate(ctx, backend, kind, first):
    """Two statements built alternately."""
    sp = ctx.sp
    sp.configure(backend)
    v, w = Vals(ctx, 'a'), Vals(ctx, 'b', fixed=True)
    second = ctx.choose('second', names_of(kind, backend))
    plain = text(new(sp, kind))
    a = text(build(sp, kind, backend, [(first, v)]))
    b = text(build(sp, kind, backend, [(second, w)]))
    ab = text(build(sp, kind, backend, [(first, v), (second, w)]))
    x, y = new(sp, kind), new(sp, kind)
    apply(sp, kind, backend, x, first, v)
    apply(sp, kind, backend, y, second, w)
    ctx.observe([plain, a, b, ab, text(x), text(y)])
    ctx.check(text(x) == a and text(y) == b, 'statement depends on another one')
    apply(sp, kind, backend, x, second, w)
    ctx.check(text(x) == ab and text(y) == b, 'statement depends on another one')
    ctx.check(text(new(sp, kind)) == plain, 'new statement is not empty')


def h_fresh(ctx, backend):
    """Whatever was built before, a new statement starts empty."""
    sp = ctx.sp
    sp.configure(backend)
    i = ctx.int('i')
    kind = ctx.choose('kind', ('select', 'update', 'delete', 'insert'))
    for k in ('select', 'update', 'delete', 'insert'):
        q = new(sp, k)
        for s in names_of(k, backend):
            apply(sp, k, backend, q, s, Vals(ctx, s, True))
        text(q)
    e = sp.exceptions
    if kind == 'select':
        same(ctx, sp.select(), backend, words('SELECT *'), 'new statement is not empty')
        same(ctx, sp.select_from('t').where(a=i), backend, expect('SELECT * FROM "t" WHERE "a" = ?', num(i)), 'new statement is not empty')
        ctx.check(raises(ctx, lambda: sp.select().join('x'), e.InvalidQueryException), 'new statement has tables')
    elif kind == 'update':
        same(ctx, sp.update('t').set(a=i).where(b=1), backend, expect('UPDATE "t" SET "a" = ? WHERE "b" = 1', num(i)), 'new statement is not empty')
        ctx.check(raises(ctx, lambda: str(sp.update('t').set(a=i)), e.ConfirmUpdateAllException), 'new statement is allowed to update all')
    elif kind == 'delete':
        same(ctx, sp.delete_from('t').where(a=i), backend, expect('DELETE FROM "t" WHERE "a" = ?', num(i)), 'new statement is not empty')
        ctx.check(raises(ctx, lambda: str(sp.delete_from('t')), e.ConfirmDeleteAllException), 'new statement is allowed to delete all')
    else:
        same(ctx, sp.insert_into('t').values(a=i), backend, expect('INSERT INTO "t" ("a") VALUES (?)', num(i)), 'new statement is not empty')


def h_shared(ctx, backend):
    """Objects passed to two statements."""
    sp = ctx.sp
    sp.configure(backend)
    i = ctx.int('i')
    kind = ctx.choose('kind', ('Q', 'Q two', 'or', 'relation', 'function', 'concat', 'custom', 'sub', 'list', 'dict', 'V', 'not', 'Q in or', 'having'))
    make = {
        'Q': lambda: sp.Q(a=i), 'Q two': lambda: sp.Q(a=i, b=1), 'or': lambda: sp.Q(a=i) | sp.Q(b=1),
        'relation': lambda: sp.relations.GT(i), 'function': lambda: sp.count('a'), 'concat': lambda: sp.group_concat('a').separator('-'),
        'custom': lambda: sp.C('raw'), 'sub': lambda: sp.select('x').from_('s').where(a=i), 'list': lambda: [i, None],
        'dict': lambda: {'a': i, 'b': [1, None]}, 'V': lambda: sp.V(i), 'not': lambda: sp.Not(a=i), 'Q in or': lambda: sp.Q(a=i),
        'having': lambda: sp.Q(a=i),
    }[kind]

    def use(q, x):
        if kind in ('Q', 'Q two', 'or', 'custom', 'dict', 'not'):
            return q.where(x)
        if kind == 'Q in or':
            return q.where(x | sp.Q(z=1))
        if kind == 'having':
            return q.having(x)
        if kind in ('relation', 'list', 'V', 'sub'):
            return q.where('c', x)
        return q.columns(x)
    x = make()
    q1, q2 = sp.select_from('t'), sp.select_from('t')
    use(q1, x)
    more = ctx.choose('more', ('where', 'where Q', 'again', 'columns'))

    def extend(q, y):
        if more == 'where':
            q.where('m', 1).where('a', 9).having('m', 2)
        elif more == 'where Q':
            q.where(sp.Q(m=1))
            q.where(sp.Q(n=1) & sp.Q(o=1))
        elif more == 'again':
            use(q, y)
        else:
            q.columns('k', sp.avg('k'))
    extend(q1, x)
    use(q2, x)
    w1, w2 = sp.select_from('t'), sp.select_from('t')
    y1, y2 = make(), make()
    use(w1, y1)
    extend(w1, y1)
    use(w2, y2)
    ctx.observe([str(q1), str(q2)])
    if more != 'again':
        ctx.check(str(q1) == str(w1), 'statement changes by sharing an object')
    ctx.check(str(q2) == str(w2), 'statement changes by sharing an object')


def h_operators(ctx, backend):
    """& and | make new objects and keep their operands."""
    sp = ctx.sp
    sp.configure(backend)
    i, j = ctx.int('i'), ctx.int('j')
    kind = ctx.choose('kind', ('Q', 'select'))
    op = ctx.choose('op', ('and', 'or'))
    if kind == 'Q':
        make = [lambda: sp.Q(a=i), lambda: sp.Q(b=j, c=1), lambda: sp.Q(d=1)]
    else:
        make = [lambda: sp.select('a').from_('t').where(x=i), lambda: sp.select('b').from_('u').where(y=j).limit(1), lambda: sp.select('d')]
    a, b, c = [m() for m in make]
    texts = [str(x) for x in (a, b, c)]
    r = a & b if op == 'and' else a | b
    t = str(r)
    ctx.observe(t)
    ctx.check([str(x) for x in (a, b, c)] == texts, 'operator changes its operands')
    op2 = ctx.choose('op2', ('and', 'or'))
    right = ctx.flag('right')
    s = (c & r if op2 == 'and' else c | r) if right else (r & c if op2 == 'and' else r | c)
    u = str(s)
    ctx.check(str(r) == t and [str(x) for x in (a, b, c)] == texts, 'operator changes its operands')
    d = s.copy()
    ctx.check(str(d) == u, 'copy renders differently')
    if kind == 'select':
        a.where('later', 1)
        b.where('later', 1)
        c.where('later', 1)
        ctx.check(str(d) == u, 'copy shares a part with the original')


def h_copy_nested(ctx, backend):
    """A copy shares nothing with the original, however deep."""
    sp = ctx.sp
    sp.configure(backend)
    i = ctx.int('i')
    inner = sp.select('x').from_('s').where(k=i)
    cond = sp.Q(a=i)
    func = sp.group_concat('g')
    items = [i, 1]
    where = ctx.choose('where', ('column', 'from', 'join', 'where', 'in', 'exists', 'Q', 'or', 'function', 'list'))
    q = sp.select_from('t')
    if where == 'column':
        q.columns((inner, 'al'))
    elif where == 'from':
        q.from_((inner, 'al'))
    elif where == 'join':
        q.join((inner, 'al'))
    elif where == 'where':
        q.where('c', inner)
    elif where == 'in':
        q.where('c', sp.relations.IN(inner))
    elif where == 'exists':
        q.where(sp.exists(inner))
    elif where == 'Q':
        q.where(cond)
    elif where == 'or':
        q.where(cond | sp.Q(z=1))
    elif where == 'function':
        q.columns(func)
    else:
        q.where('c', items)
    c = q.copy()
    t = str(c)
    ctx.observe(t)
    ctx.check(str(q) == t, 'copy renders differently')
    inner.where('later', 1)
    cond.where('later', 1)
    func.order_by('later')
    items.append(5)
    ctx.check(str(c) == t, 'copy shares a part with the original')


# ---------------------------------------------------------------- C18

def h_equal(ctx, backend, kind, first):
    sp = ctx.sp
    sp.configure(backend)
    second = ctx.choose('second', names_of(kind, backend) + ('nothing',))
    v, w = Vals(ctx, 'a'), Vals(ctx, 'b', fixed=first != second)
    p = [(first, v)]
    r = [] if second == 'nothing' else [(second, w)]
    x, y = build(sp, kind, backend, p), build(sp, kind, backend, r)
    z = build(sp, kind, backend, p)
    ctx.observe([text(x), text(y)])
    ctx.check(x == x and x == z and z == x and not x != z, 'the same statement is not equal')
    eq = bool(x == y)
    ctx.check(eq == bool(y == x) and eq == (not x != y), 'equality is not symmetric')
    alike = text(x) == text(y)
    if eq:
        ctx.check(alike, 'different statements are equal')
    elif first == second:
        ctx.check(not alike, 'the same statements are not equal')
    ctx.check(x == x.copy(), 'copy is not equal')


PLACES = ('where', 'GT', 'list', 'set', 'insert', 'upsert', 'column', 'on', 'having', 'Q', 'Not')


def place(sp, where, v, backend):
    if where == 'where':
        return sp.select_from('t').where('a', v)
    if where == 'GT':
        return sp.select_from('t').where('a', sp.relations.NE(v))
    if where == 'list':
        return sp.select_from('t').where('a', [v, 'z'])
    if where == 'set':
        return sp.update('t').where(k=1).set('a', v)
    if where == 'insert':
        return sp.insert_into('t').values({'a': v, 'b': 1})
    if where == 'upsert':
        if backend == 'mysql':
            return sp.insert_into('t').values(a=1).on_duplicate_key_update(a=v)
        if backend == 'postgresql':
            return sp.insert_into('t').values(a=1).on_duplicate_key_update('k', {'a': v})
        return sp.insert_into('t').values(a=v)
    if where == 'column':
        return sp.select(sp.V(v))
    if where == 'on':
        return sp.select_from('t').join('u').on('a', sp.V(v))
    if where == 'having':
        return sp.select_from('t').having({'a': v})
    if where == 'Q':
        return sp.Q(a=v) | sp.Q(b=1)
    return sp.select_from('t').where(sp.Not(a=v))


def h_equal_values(ctx, backend, where, alpha):
    """Strings and ints in the same place."""
    sp = ctx.sp
    sp.configure(backend)
    kind = ctx.choose('kind', ('text', 'int', 'mixed'))
    if kind == 'text':
        v, w = ctx.str('v', 0, 1, alpha), ctx.str('w', 0, 1, alpha)
    elif kind == 'int':
        v, w = ctx.int('v'), ctx.int('w')
    else:
        v, w = ctx.str('v', 0, 1, alpha), ctx.int('w')
    x, y = place(sp, where, v, backend), place(sp, where, w, backend)
    ctx.observe([str(x), str(y)])
    ctx.check(bool(x == y) == (str(x) == str(y)), 'equality does not agree with the text')


POOL = (None, True, False, 0, 1, 2, 0.0, 1.0, 0.5, '', '0', '1', 'a', "'", 'None', 'NULL', 'true', b'', b'a', b'1', decimal.Decimal('1'),
        datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5), '2020-01-02')


TYPED = ('where', 'set', 'insert', 'upsert', 'list', 'Q', 'having')


def h_equal_types(ctx, backend, where):
    """Values of different types in the same place: equal only with the same text."""
    sp = ctx.sp
    sp.configure(backend)
    pool = tuple(v for v in POOL if not isinstance(v, bytes)) if where not in ('set', 'insert', 'upsert') else POOL
    i = ctx.choose('i', tuple(range(len(pool))))
    j = ctx.choose('j', tuple(range(i, len(pool))))
    x, y = place(sp, where, pool[i], backend), place(sp, where, pool[j], backend)
    ctx.observe([str(x), str(y)])
    eq = bool(x == y)
    ctx.check(eq == bool(y == x), 'equality is not symmetric')
    if i == j:
        ctx.check(eq, 'the same statements are not equal')
    elif eq:
        ctx.check(str(x) == str(y), 'different statements are equal')


def h_equal_lists(ctx, backend):
    sp = ctx.sp
    sp.configure(backend)
    made = []
    for label in 'xy':
        n = ctx.choose(label + '.n', (1, 2))
        items = [ctx.int('%s%d' % (label, k)) for k in range(n)]
        form = ctx.choose(label + '.form', ('list', 'tuple', 'IN', 'NOT_IN', 'one null'))
        if form == 'tuple':
            items = tuple(items)
        elif form == 'one null':
            items = items + [None]
        elif form in ('IN', 'NOT_IN'):
            items = getattr(sp.relations, form)(items)
        made.append((form, sp.select_from('t').where('a', items)))
    (f, x), (g, y) = made
    ctx.observe([str(x), str(y)])
    eq = bool(x == y)
    if eq:
        ctx.check(str(x) == str(y), 'different statements are equal')
    elif f == g:
        ctx.check(str(x) != str(y), 'the same statements are not equal')


OPTIONS = {
    'select': ('all', 'distinct', 'distinctrow', 'sql_cache', 'sql_no_cache', 'high_priority', 'straight_join', 'sql_big_result',
               'sql_small_result', 'sql_buffer_result', 'sql_calc_found_rows', 'for_update'),
    'update': ('ignore', 'allow_update_all', 'forbid_update_all'),
    'delete': ('ignore', 'allow_delete_all', 'forbid_delete_all'),
    'insert': ('ignore',),
}


def h_equal_options(ctx, backend, statement):
    """Statements which differ only in options."""
    sp = ctx.sp
    sp.configure(backend)
    made = []
    for label in 'xy':
        q = {'select': sp.select_from('t'), 'update': sp.update('t').set(a=1).where(b=1), 'delete': sp.delete_from('t').where(b=1),
             'insert': sp.insert_into('t').values(a=1)}[statement]
        done = []
        o = ctx.choose(label, ('none',) + OPTIONS[statement])
        if o != 'none':
            if ctx.flag(label + '.off'):
                ctx.assume('allow' not in o and 'forbid' not in o)
                getattr(q, o)(False)
                done.append((o, False))
            else:
                getattr(q, o)()
                done.append((o, True))
        made.append((done, q))
    (f, x), (g, y) = made
    ctx.observe([str(x), str(y)])
    eq = bool(x == y)
    ctx.check(eq == bool(y == x), 'equality is not symmetric')
    if eq:
        ctx.check(str(x) == str(y), 'statements which differ in options are equal')
    elif f == g:
        ctx.check(False, 'the same statements are not equal')


def minimal(sp, backend, i, n):
    """Groups of statements (or conditions, functions) which differ from each other in one thing."""
    r = sp.relations
    s = lambda: sp.select('c').from_('t')
    joins = ['join', 'inner_join', 'left_join', 'right_join'] + (['full_join'] if backend == 'postgresql' else [])
    out = {
        'joins': lambda: [s()] + [getattr(s(), j)(n) for j in joins if j != 'inner_join'] + [s().join((n, 'x')), s().join(n).join(n + 'z')],
        'join conditions': lambda: [s().left_join('u')] + [s().left_join('u').on(*a) for a in (('a', n), ('a', i), ('a', sp.V(n)), ('a', r.NE(n)), ('b', n), ('a', None))]
        + [s().left_join('u').on('a', n).on('b', n), s().left_join('u').on('b', n).on('a', n)],
        'relations': lambda: [s().where('a', getattr(r, x)(n)) for x in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP')]
        + [s().where('a', r.IN(n, i)), s().where('a', r.NOT_IN(n, i)), s().where('a', None), s().where('a', r.IS_NOT(None))],
        'clauses': lambda: [s(), s().where('a', i), s().having('a', i), s().join('u').on('a', i)],
        'order': lambda: [s(), s().order_by(n), s().order_by((n, 'desc')), s().group_by(n), s().group_by((n, 'desc')), s().order_by(n, 'z1'), s().order_by('z1', n)],
        'aliases': lambda: [sp.select(n), sp.select((n, 'x')), sp.select((n, 'y')), sp.select(n, 'x'), sp.select(sp.V(n)), sp.select_from(n), sp.select_from((n, 'x')),
                    sp.select_from((n, 'y')), sp.select('x').from_(n)],
        'functions': lambda: [sp.select(x) for x in (sp.count(n), sp.count_distinct(n), sp.max(n), sp.min(n), sp.avg(n), sp.sum(n), sp.max_distinct(n),
                                             sp.concat(n, 'a'), sp.concat('a', n), sp.group_concat(n, 'a'), sp.group_concat(n, 'a').separator('s'),
                                             sp.group_concat(n, 'a').separator('t'), sp.group_concat(n, 'a').order_by('o'),
                                             sp.group_concat(n, 'a').order_by(('o', 'desc')), sp.convert(n, 'int'), sp.convert(n, 'char'))],
        'conditions': lambda: [sp.Q('a', i), sp.Not('a', i), sp.Q('a', i) | sp.Q('b', i), sp.Q('a', i) & sp.Q('b', i), sp.Q('b', i) | sp.Q('a', i),
                       sp.Q('a', i, ) | sp.Q('b', None), sp.exists(sp.select(n)), sp.Not(sp.exists(sp.select(n)))],
        'used conditions': lambda: [s().where(x) for x in (sp.Q('a', i), sp.Not('a', i), sp.Q('a', i) | sp.Q('b', i), sp.Q('a', i) & sp.Q('b', i),
                                                   sp.Q('b', i) | sp.Q('a', i), sp.exists(sp.select(n)), sp.exists(sp.select((n, 'x'))))],
        'limits': lambda: [s(), s().limit(1), s().limit(1, 2), s().limit(2, 1), s().limit(0), s().offset(1), s().limit(2)],
        'outfile': lambda: [s(), s().into_outfile(n), s().into_outfile(n).fields_terminated_by('a'), s().into_outfile(n).lines_terminated_by('a'),
                    s().into_outfile(n).fields_terminated_by('b'), s().into_outfile(n).optionally_enclosed_by('a'), s().into_outfile(n + 'z')],
        'deletes': lambda: [sp.delete_from(n).where(a=1), sp.delete(n).from_(n).where(a=1), sp.delete_from((n, 'x')).where(a=1), sp.delete_from(n).where(a=1).ignore(),
                    sp.delete_from(n).where(a=2), sp.delete('z1').from_(n).where(a=1), sp.delete_from(n).where(a=1).join('u'),
                    sp.delete_from(n).where(a=1).left_join('u')],
        'updates': lambda: [sp.update(n).set(a=1).where(b=1), sp.update({n: 'x'}).set(a=1).where(b=1), sp.update(n).set(a=2).where(b=1), sp.update(n).set(b=1).where(b=1),
                    sp.update(n).set(a=1).where(b=2), sp.update(n).set(a=1).where(b=1).ignore(), sp.update(n).set(a=1).where(b=1).join('u'),
                    sp.update(n).set(a=1).where(b=1).right_join('u'), sp.update(n).set(a=1, c=1).where(b=1), sp.update(n).set(c=1).set(a=1).where(b=1)],
        'inserts': lambda: [sp.insert_into(n).values(a=1), sp.insert_into(n).values(a=1).values(a=1), sp.insert_into(n).values(b=1), sp.insert_into(n).values(a=2),
                    sp.insert_into(n).values(a=1).ignore(), sp.insert_into(n + 'z').values(a=1), sp.insert_into(n).values(a=1, b=2),
                    sp.insert_into(n).values(a=2, b=1), sp.insert_into(n).values(a=1).values(b=2), sp.insert_into(n).values(b=2).values(a=1),
                    sp.insert_into(n).values(a=None), sp.insert_into(n).values(a=1).values(a=2), sp.insert_into(n).values(a=2).values(a=1)],
        'unions': lambda: [sp.select(n) | sp.select('b'), sp.select(n) & sp.select('b'), (sp.select(n) | sp.select('b')) | sp.select('c'),
                   (sp.select(n) | sp.select('b')) & sp.select('c'), sp.select(n) | (sp.select('b') & sp.select('c')),
                   sp.select(n) & (sp.select('b') & sp.select('c')) & sp.select('d')],
        'subselects': lambda: [s().where('a', sp.select(n)), s().where('a', r.IN(sp.select(n))), s().where('a', r.NOT_IN(sp.select(n))), s().where('a', sp.select(n).limit(1)),
                       s().where('a', n), s().columns((sp.select(n), 'x')), s().from_((sp.select(n), 'x')), s().columns((sp.select(n), 'y'))],
        'lists': lambda: [s().where('a', x) for x in ([i], [i, 'z1'], ['z1', i], [i, None], i, [i, i], r.NOT_IN([i]), r.NOT_IN([i, None]))],
        'for update': lambda: [s(), s().for_update(), s().distinct(), s().sql_cache(), s().sql_no_cache(), s().distinct().for_update()],
    }
    if backend in ('mysql', 'postgresql'):
        k = ('k',) if backend == 'postgresql' else ()
        q = lambda: sp.insert_into('t').values(a=1)
        out['upserts'] = lambda: [q(), q().on_duplicate_key_update(*k, **{'a': 1}), q().on_duplicate_key_update(*k, **{'a': 2}), q().on_duplicate_key_update(*k, **{'b': 1})] + (
                [q().on_duplicate_key_update('l', a=1)] if k else [])
    return out


MINIMAL = ('joins', 'join conditions', 'relations', 'clauses', 'order', 'aliases', 'functions', 'conditions', 'used conditions', 'limits', 'outfile', 'deletes',
           'updates', 'inserts', 'unions', 'subselects', 'lists', 'for update', 'upserts')


def h_equal_minimal(ctx, backend, group):
    sp = ctx.sp
    sp.configure(backend)
    i, n = ctx.int('i', 3), ctx.str('n', 1, 1, 'plain')
    make = minimal(sp, backend, i, n).get(group)
    ctx.assume(make)
    items, again = make(), make()
    a = ctx.choose('a', tuple(range(len(items))))
    b = ctx.choose('b', tuple(range(a + 1)))
    x, y = items[a], again[b]
    if ctx.flag('turned'):
        x, y = y, x
    eq = bool(x == y)
    ctx.check(bool(x != y) == (not eq), '!= disagrees with ==')
    tx, ty = text(x), text(y)
    ctx.observe([eq, tx, ty])
    if a == b:
        ctx.check(eq and tx == ty, 'the same statements are not equal')
    elif tx != ty:
        ctx.check(not eq, 'different statements are equal')


def h_equal_union(ctx, backend):
    sp = ctx.sp
    sp.configure(backend)
    made = []
    for label in 'xy':
        i = ctx.int(label)
        a = sp.select_from('t').where('a', i)
        b = sp.select_from('u').where('b', 1)
        op = ctx.choose(label + '.op', ('and', 'or'))
        if ctx.flag(label + '.swap'):
            a, b = b, a
        u = a & b if op == 'and' else a | b
        third = ctx.choose(label + '.third', ('none', 'or', 'right or'))
        if third == 'or':
            u = u | sp.select_from('w')
        elif third == 'right or':
            u = sp.select_from('w') | u
        made.append(u)
    x, y = made
    ctx.observe([str(x), str(y)])
    eq = bool(x == y)
    ctx.check(eq == bool(y == x), 'equality is not symmetric')
    if eq:
        ctx.check(str(x) == str(y), 'different unions are equal')
    ctx.check(x == x.copy() and not x == sp.select_from('t').where('a', 1), 'copy of a union is not equal')


MANY = {
    'columns': lambda sp, q, i, v: q.columns('c%d' % i if v is None else v),
    'tables': lambda sp, q, i, v: q.from_('t%d' % i if v is None else v),
    'joins': lambda sp, q, i, v: q.join('j%d' % i if v is None else v).on('a', 'b'),
    'on': lambda sp, q, i, v: q.on('n%d' % i, 5 if v is None else sp.V(v)),
    'where': lambda sp, q, i, v: q.where('w%d' % i, 5 if v is None else v),
    'having': lambda sp, q, i, v: q.having('h%d' % i, 5 if v is None else v),
    'group': lambda sp, q, i, v: q.group_by('g%d' % i if v is None else v),
    'order': lambda sp, q, i, v: q.order_by('o%d' % i if v is None else (v, 'desc')),
    'in': lambda sp, q, i, v: q.where('w', [('i%d' % j) for j in range(i)] + (['x'] if v is None else [v])),
    'concat': lambda sp, q, i, v: q.columns(sp.concat(*(['i%d' % j for j in range(i)] + (['x'] if v is None else [v])))),
    'union': None,
}


def h_equal_many(ctx, backend, counts):
    """Statements of many parts which differ in one of them, or in none."""
    sp = ctx.sp
    sp.configure(backend)
    n = ctx.choose('n', counts)
    what = ctx.choose('what', tuple(MANY))
    at = ctx.choose('at', sorted({0, n // 2, n - 1}))
    v, w = ctx.str('v', 1, 1, 'plain'), ctx.str('w', 1, 1, 'plain')

    def make(x, count=n):
        if what == 'union':
            q = sp.select('z')
            for i in range(count):
                q = q | sp.select('c%d' % i if i != at or x is None else x)
            return q
        q = sp.select('z').from_('t').left_join('u').on('k', 'l')
        for i in range(count):
            MANY[what](sp, q, i, x if i == at else None)
        return q
    a, b = make(v), make(w)
    equal = bool(a == b)
    texts = ctx.observe([str(a), str(b)])
    ctx.check(equal == (v == w), 'equality does not agree with what the statements render')
    ctx.check((texts[0] == texts[1]) == (v == w), 'different statements render the same')
    ctx.check(bool(b == a) == equal and bool(a != b) == (not equal), 'comparison is not symmetric')
    ctx.check(bool(make(None) == make(None)), 'same statements are not equal')
    more = make(None, n + 1)
    ctx.check(not make(None) == more and not more == make(None), 'statement is equal to one with another part')
