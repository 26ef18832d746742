"""
Statements and single building steps over symbolic values, shared by the harnesses about whole queries (C15-C19).
A step is a function (sp, query, v) where v gives symbolic names, ints and texts.
"""
from .base import *


class Vals:
    """Symbolic values by name; the same name gives the same value again."""

    def __init__(self, ctx, prefix, fixed=False):
        self.ctx = ctx
        self.prefix = prefix
        self.cache = {}
        self.fixed = fixed

    def get(self, kind, key):
        k = (kind, key)
        if k not in self.cache:
            label = '%s.%s' % (self.prefix, key)
            if self.fixed:
                v = key if kind in ('name', 'text') else 7
            elif kind == 'name':
                v = self.ctx.str(label, 1, 1, 'plain')
            elif kind == 'text':
                v = self.ctx.str(label, 1, 1, 'plain')
            else:
                v = self.ctx.int(label, 0)
            self.cache[k] = v
        return self.cache[k]

    def name(self, key):
        return self.get('name', key)

    def text(self, key):
        return self.get('text', key)

    def int(self, key):
        return self.get('int', key)


def sub(sp, v):
    return sp.select('x').from_('s').where('k', v.int('k'))


SELECT = {
    'column': lambda sp, q, v: q.columns(v.name('c')),
    'column alias': lambda sp, q, v: q.columns((v.name('c'), v.name('al'))),
    'column dict': lambda sp, q, v: q.columns({'c1': v.name('al')}),
    'column function': lambda sp, q, v: q.columns((sp.count(v.name('c')).distinct(), 'n')),
    'column concat': lambda sp, q, v: q.columns(sp.group_concat(v.name('c')).order_by(('o', 'desc')).separator(v.text('s'))),
    'column value': lambda sp, q, v: q.columns(sp.V(v.text('s'))),
    'column sub': lambda sp, q, v: q.columns((sub(sp, v), 'sq')),
    'table': lambda sp, q, v: q.from_(v.name('t')),
    'table alias': lambda sp, q, v: q.from_table(v.name('t'), 'ta'),
    'table sub': lambda sp, q, v: q.from_((sub(sp, v), 'st')),
    'join': lambda sp, q, v: q.join(v.name('t')),
    'left join': lambda sp, q, v: q.left_join((v.name('t'), 'jl')).on('jl.a', 'b'),
    'right join': lambda sp, q, v: q.right_join({'r': v.name('al')}).on('a', v.int('i')),
    'on': lambda sp, q, v: q.on('m', v.int('i')),
    'on column': lambda sp, q, v: q.on(v.name('c'), 't.z'),
    'where int': lambda sp, q, v: q.where('w', v.int('i')),
    'where text': lambda sp, q, v: q.where(v.name('c'), v.text('s')),
    'where dict': lambda sp, q, v: q.where({'d': v.int('i'), 'e': None}),
    'where list': lambda sp, q, v: q.where('w', [v.int('i'), None, 'x']),
    'where or': lambda sp, q, v: q.where(sp.Q(a=v.int('i')) | sp.Q(b=v.text('s'))),
    'where not': lambda sp, q, v: q.where(sp.Not(w=v.int('i'))),
    'where relation': lambda sp, q, v: q.where('w', sp.relations.GE(v.int('i'))),
    'where like': lambda sp, q, v: q.where(w=sp.relations.LIKE(v.text('s'))),
    'where sub': lambda sp, q, v: q.where('w', sp.relations.IN(sub(sp, v))),
    'where exists': lambda sp, q, v: q.where(sp.exists(sub(sp, v))),
    'where custom': lambda sp, q, v: q.where(sp.C('raw')),
    'where reference': lambda sp, q, v: q.where('w', sp.R(v.name('c'))),
    'group': lambda sp, q, v: q.group_by(v.name('c')),
    'having': lambda sp, q, v: q.having('h', sp.relations.LT(v.int('i'))),
    'order': lambda sp, q, v: q.order_by((v.name('c'), 'desc')),
    'order more': lambda sp, q, v: q.order_by('o1', ('o2', 'desc'), v.name('c')),
    'limit': lambda sp, q, v: q.limit(v.int('i')),
    'limit offset': lambda sp, q, v: q.limit(v.int('i'), 3),
    'offset': lambda sp, q, v: q.offset(v.int('i')),
    'outfile': lambda sp, q, v: q.into_outfile(v.text('f')),
    'outfile fields': lambda sp, q, v: q.into_outfile('f').fields_terminated_by(v.text('f')),
    'outfile lines': lambda sp, q, v: q.into_outfile('f').lines_terminated_by(v.text('l')).optionally_enclosed_by(v.text('e')),
    'distinct': lambda sp, q, v: q.distinct(v.int('i')),
    'no cache': lambda sp, q, v: q.sql_no_cache(),
    'priority': lambda sp, q, v: q.high_priority(),
    'for update': lambda sp, q, v: q.for_update(),
}

UPDATE = {
    'set int': lambda sp, q, v: q.set('s', v.int('i')),
    'set text': lambda sp, q, v: q.set({v.name('c'): v.text('s')}),
    'set null': lambda sp, q, v: q.set(n=None, m=True),
    'set custom': lambda sp, q, v: q.set(sp.C('raw')),
    'set sub': lambda sp, q, v: q.set('sq', sub(sp, v)),
    'table': lambda sp, q, v: q.table(v.name('t')),
    'join': lambda sp, q, v: q.join(v.name('t')),
    'left join': lambda sp, q, v: q.left_join((v.name('t'), 'jl')).on('jl.a', 'b'),
    'on': lambda sp, q, v: q.on('m', v.int('i')),
    'where int': lambda sp, q, v: q.where('w', v.int('i')),
    'where dict': lambda sp, q, v: q.where({'d': v.int('i'), 'e': None}),
    'where list': lambda sp, q, v: q.where('w', [v.int('i'), 'x']),
    'where or': lambda sp, q, v: q.where(sp.Q(a=v.int('i')) | sp.Q(b=v.text('s'))),
    'ignore': lambda sp, q, v: q.ignore(v.int('i')),
    'allow': lambda sp, q, v: q.allow_update_all(),
}

DELETE = {
    'delete': lambda sp, q, v: q.delete(v.name('t')),
    'table': lambda sp, q, v: q.from_(v.name('t')),
    'table alias': lambda sp, q, v: q.from_table(v.name('t'), 'ta'),
    'join': lambda sp, q, v: q.join(v.name('t')),
    'left join': lambda sp, q, v: q.left_join((v.name('t'), 'jl')).on('jl.a', 'b'),
    'on': lambda sp, q, v: q.on('m', v.int('i')),
    'where int': lambda sp, q, v: q.where('w', v.int('i')),
    'where dict': lambda sp, q, v: q.where({'d': v.int('i'), 'e': None}),
    'where not': lambda sp, q, v: q.where(sp.Not(w=v.int('i'))),
    'where or': lambda sp, q, v: q.where(sp.Q(a=v.int('i')) | sp.Q(b=v.text('s'))),
    'ignore': lambda sp, q, v: q.ignore(v.int('i')),
    'allow': lambda sp, q, v: q.allow_delete_all(),
}

INSERT = {
    'values': lambda sp, q, v: q.values(a=v.int('i')),
    'values name': lambda sp, q, v: q.values({v.name('c'): v.text('s')}),
    'values pairs': lambda sp, q, v: q.values(('a', v.int('i')), ('b', None)),
    'values sub': lambda sp, q, v: q.values('sq', sub(sp, v)),
    'ignore': lambda sp, q, v: q.ignore(v.int('i')),
}
# only for the databases which have it
UPSERT = {
    'mysql': {'duplicate': lambda sp, q, v: q.on_duplicate_key_update(a=v.int('i')),
              'duplicate name': lambda sp, q, v: q.on_duplicate_key_update({v.name('c'): v.text('s')})},
    'postgresql': {'conflict': lambda sp, q, v: q.on_duplicate_key_update('id', {'a': v.int('i')})},
    'sqlite': {'replace': lambda sp, q, v: q.on_duplicate_key_update()},
    'sql': {},
}

Q = {
    'int': lambda sp, q, v: q.where('a', v.int('i')),
    'text': lambda sp, q, v: q.where(v.name('c'), v.text('s')),
    'list': lambda sp, q, v: q.where('w', [v.int('i'), 'x', None]),
    'or': lambda sp, q, v: q.where(sp.Q(a=v.int('i')) | sp.Q(b=v.text('s'))),
    'custom': lambda sp, q, v: q.where(sp.C('raw')),
    'not': lambda sp, q, v: q.where(sp.Not(w=v.int('i'))),
}

GROUP_CONCAT = {
    'order': lambda sp, q, v: q.order_by((v.name('c'), 'desc')),
    'order more': lambda sp, q, v: q.order_by('o1', v.name('c')),
    'separator': lambda sp, q, v: q.separator(v.text('s')),
}

COUNT = {
    'distinct': lambda sp, q, v: q.distinct(),
    'not distinct': lambda sp, q, v: q.distinct(False),
    'expr': lambda sp, q, v: setattr(q, 'expr', v.name('c')),
}


def new(sp, kind):
    if kind == 'select':
        return sp.select('c0').from_('t').join('j').on('j.x', 'y')
    if kind == 'select bare':
        return sp.select_from('t')
    if kind == 'update':
        return sp.update('t').set(s0=1).join('j').on('j.x', 'y').where('w0', 1)
    if kind == 'delete':
        return sp.delete('t').from_('t').join('j').on('j.x', 'y').where('w0', 1)
    if kind == 'insert':
        return sp.insert_into('t').values(a=1)
    if kind == 'Q':
        return sp.Q(q0=1)
    if kind == 'group_concat':
        return sp.group_concat('g0')
    return sp.count('n0')


def steps(kind, backend):
    if kind in ('select', 'select bare'):
        out = SELECT
        if kind == 'select bare':
            out = {k: s for k, s in out.items() if not k.startswith('on')}
        return out
    if kind == 'insert':
        return dict(INSERT, **UPSERT[backend])
    return {'update': UPDATE, 'delete': DELETE, 'Q': Q, 'group_concat': GROUP_CONCAT, 'count': COUNT}[kind]


def names_of(kind, backend):
    return tuple(steps(kind, backend))


KINDS = ('select', 'update', 'delete', 'insert', 'Q', 'group_concat', 'count')


def apply(sp, kind, backend, q, step, v):
    try:
        steps(kind, backend)[step](sp, q, v)
    except sp.exceptions.InvalidQueryException:
        # condition of a join while the last table has none; nothing is done
        if not step.startswith('on'):
            raise
    return q


def build(sp, kind, backend, plan):
    """plan: list of (step, values)"""
    q = new(sp, kind)
    for step, v in plan:
        apply(sp, kind, backend, q, step, v)
    return q
