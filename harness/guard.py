"""C04: UPDATE and DELETE without a condition are refused unless allowed."""
from .base import *
from . import catalog

BOUNDS = {
    'C04': ['histories of up to 3 operations (thorough: 4) over the 19 operations of OPS on UPDATE and DELETE, with '
            'symbolic condition values (unbounded int, strings of 0-1 arbitrary characters) and every way to render; '
            'histories of up to 2 (thorough: 3) on each of the other databases',
            'one operation repeated up to 12 times',
            'statements begun in 8 ways (several tables, targets, joins, subqueries as tables), then up to 2 (thorough: 3; one less in the other databases) further '
            'calls that build other clauses than WHERE, with symbolic names and numbers'],
}
ASSUMPTIONS = {
    'C04': ['an empty custom SQL condition (C(\'\')) is outside the claim'],
}

OPS = ('where_int', 'where_str', 'where_null', 'where_list', 'where_Q', 'where_not', 'where_custom', 'where_exists',
       'where_nothing', 'where_empty_dict', 'where_empty_list', 'where_empty_Q', 'allow', 'forbid', 'copy', 'render',
       'ignore', 'join', 'again')
RENDER = ('str', 'tosql', 'format', 'percent', 'repr', 'copy')


def tasks(prop, tier):
    out = []
    deep = tier == 'thorough'
    for kind in ('update', 'delete'):
        for b in BACKENDS:
            n = 3 if b == 'sql' else 2
            n += deep
            for op in OPS:
                out.append((prop, 'h_history', {'kind': kind, 'backend': b, 'first': op, 'n': n}, 900 if deep else 120))
        for b in BACKENDS:
            out.append((prop, 'h_plain', {'kind': kind, 'backend': b}, 60))
        out.append((prop, 'h_repeat', {'kind': kind, 'backend': 'mysql'}, 60))
        for b in BACKENDS:
            out.append((prop, 'h_built', {'kind': kind, 'backend': b, 'n': (2 if b == 'sql' else 1) + deep}, 600 if deep else 60))
    return out


class Model:
    def __init__(self, sp, kind):
        self.sp = sp
        self.kind = kind
        self.allowed = False
        self.conditions = 0
        self.q = sp.update('t').set(a=1) if kind == 'update' else sp.delete_from('t')

    def guard(self):
        exc = self.sp.exceptions
        return exc.ConfirmUpdateAllException if self.kind == 'update' else exc.ConfirmDeleteAllException

    def apply(self, ctx, op, label):
        sp, q = self.sp, self.q
        if op == 'where_int':
            r = q.where('c', ctx.int(label) if label else 0)
            self.conditions += 1
        elif op == 'where_str':
            r = q.where(c=ctx.str(label, 0, 1) if label else '')
            self.conditions += 1
        elif op == 'where_null':
            r = q.where({'c': None})
            self.conditions += 1
        elif op == 'where_list':
            r = q.where('c', [ctx.int(label) if label else 1, None])
            self.conditions += 1
        elif op == 'where_Q':
            r = q.where(sp.Q(c=0) | sp.Q(d=''))
            self.conditions += 1
        elif op == 'where_not':
            r = q.where(sp.Not(c=False))
            self.conditions += 1
        elif op == 'where_custom':
            r = q.where(sp.C('1'))
            self.conditions += 1
        elif op == 'where_exists':
            r = q.where(sp.exists(sp.select(1)))
            self.conditions += 1
        elif op == 'where_nothing':
            r = q.where()
        elif op == 'where_empty_dict':
            r = q.where({})
        elif op == 'where_empty_list':
            r = q.where([])
        elif op == 'where_empty_Q':
            r = q.where(sp.Q())
        elif op == 'allow':
            r = q.allow_update_all() if self.kind == 'update' else q.allow_delete_all()
            self.allowed = True
        elif op == 'forbid':
            r = q.forbid_update_all() if self.kind == 'update' else q.forbid_delete_all()
            self.allowed = False
        elif op == 'copy':
            r = self.q = q.copy()
        elif op == 'render':
            r = q
            self.outcome(ctx, 'str')
        elif op == 'ignore':
            r = q.ignore()
        elif op == 'join':
            r = q.join('u').on('t.a', 'u.a')
        else:
            r = q.set(b=2) if self.kind == 'update' else q.from_('x')
        ctx.check(r is self.q, 'method does not return the query')

    def outcome(self, ctx, how):
        q = self.q
        sql = None
        try:
            if how == 'str':
                sql = str(q)
            elif how == 'tosql':
                sql = q.tosql()
            elif how == 'format':
                sql = '{}'.format(q)
            elif how == 'percent':
                sql = '%s' % q
            elif how == 'repr':
                sql = repr(q)
            else:
                sql = str(q.copy())
        except self.guard():
            pass
        ctx.observe(sql)
        must = self.conditions or self.allowed
        ctx.check((sql is not None) == bool(must),
                  '%s %s although %d conditions were given and all rows are %sallowed' % (
                      self.kind.upper(), 'is refused' if sql is None else 'is rendered', self.conditions,
                      '' if self.allowed else 'not '))
        if sql is not None and how != 'repr':
            has = ('word', 'WHERE') in tokens(sql, self.backend)
            ctx.check(has == bool(self.conditions), 'WHERE is %s' % ('missing' if self.conditions else 'superfluous'))
        ctx.reached('rendered' if sql is not None else 'refused')


def h_history(ctx, kind, backend, first, n):
    ctx.sp.configure(backend)
    m = Model(ctx.sp, kind)
    m.backend = backend
    m.apply(ctx, first, 'v0')
    for i in range(1, n):
        op = ctx.choose('op%d' % i, OPS + ('end',))
        if op == 'end':
            break
        m.apply(ctx, op, 'v%d' % i if i < 2 else None)
    m.outcome(ctx, 'str')


def h_plain(ctx, kind, backend):
    """Every way to render a query in every state."""
    ctx.sp.configure(backend)
    m = Model(ctx.sp, kind)
    m.backend = backend
    state = ctx.choose('state', ('nothing', 'allowed', 'forbidden', 'condition', 'both'))
    if state in ('allowed', 'forbidden', 'both'):
        m.apply(ctx, 'allow', 'a')
    if state == 'forbidden':
        m.apply(ctx, 'forbid', 'a')
    if state in ('condition', 'both'):
        m.apply(ctx, ctx.choose('condition', ('where_int', 'where_str', 'where_null')), 'c')
    how = ctx.choose('how', RENDER)
    m.outcome(ctx, how)
    m.outcome(ctx, 'str')
    m.outcome(ctx, how)


def h_repeat(ctx, kind, backend):
    ctx.sp.configure(backend)
    m = Model(ctx.sp, kind)
    m.backend = backend
    op = ctx.choose('op', OPS)
    for i in range(ctx.choose('times', (2, 3, 5, 12))):
        m.apply(ctx, op, None)
        m.outcome(ctx, 'str')


BUILT = {
    'update': (
        lambda sp, v: sp.update('t').set(a=1),
        lambda sp, v: sp.update(v.name('t')).table('u').set(a=1),
        lambda sp, v: sp.update('t').table('u').table(('w', 'x')).set(a=v.int('i'), b=2),
        lambda sp, v: sp.update(('t', v.name('t'))).set(a=None),
        lambda sp, v: sp.update('t').join('u').on('t.a', 'u.a').set('t.a', sp.R('u.b')),
        lambda sp, v: sp.update('t').left_join('u').on('a', v.int('i')).right_join('w').on('a', 'b').set(a=1),
        lambda sp, v: sp.update('t').set(sp.C('a = a + 1')),
        lambda sp, v: sp.update('t').set(a=sp.select('x').from_('s').where('k', v.int('i'))),
    ),
    'delete': (
        lambda sp, v: sp.delete_from('t'),
        lambda sp, v: sp.delete_from(v.name('t'), 'u'),
        lambda sp, v: sp.delete('t').from_('t', 'u', ('w', 'x')),
        lambda sp, v: sp.delete('t', v.name('t')).from_('t'),
        lambda sp, v: sp.delete('t').from_('t').join('u').on('t.a', 'u.a'),
        lambda sp, v: sp.delete_from('t').left_join('u').on('a', v.int('i')).right_join('w').on('a', 'b'),
        lambda sp, v: sp.delete().from_(('t', 'x')),
        lambda sp, v: sp.delete('t').from_('t').join((sp.select('x').from_('s').where('k', v.int('i')), 'sq')).on('a', 'b'),
    ),
}


def h_built(ctx, kind, backend, n):
    """No clause but WHERE makes up for a missing condition."""
    sp = ctx.sp
    sp.configure(backend)
    m = Model(sp, kind)
    m.backend = backend
    begin = ctx.choose('begin', tuple(range(8)))
    v = catalog.Vals(ctx, 'b')
    m.q = BUILT[kind][begin](sp, v)
    plain = tuple(s for s in catalog.names_of(kind, backend) if not s.startswith('where') and s != 'allow') + ('end',)
    for i in range(n):
        step = ctx.choose('step%d' % i, plain)
        if step == 'end':
            break
        catalog.apply(sp, kind, backend, m.q, step, catalog.Vals(ctx, 'v', fixed=i > 0))
    refused = raises(ctx, lambda: str(m.q), m.guard())
    ctx.check(refused, '%s without condition is rendered' % kind.upper())
    ctx.reached('built')
    how = ctx.choose('then', ('where', 'allow'))
    if how == 'where':
        m.q.where('w', v.int('w'))
    else:
        m.apply(ctx, 'allow', None)
    sql = render(ctx, m.q)
    got = tokens(sql, backend)
    ctx.check((expect('WHERE "w" = ?', num(v.int('w'))) == got[-4:]) if how == 'where' else got[-4:-3] != [('word', 'WHERE')],
              'condition is not the one given')
