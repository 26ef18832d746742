"""
No call changes a clause it does not set: a statement built by a step of this property together with steps which set other clauses
(one, or all of them but one), in either order, has in each clause exactly what it has when only the step of that clause is made.
"""
from .base import *
from . import catalog
from .catalog import Vals
from .orders import OPTIONS

# property -> kinds of statements and prefixes of names of steps (see catalog) it is about
OWN = {
    'C05': (('select', ('where', 'having', 'on')), ('update', ('where', 'on')), ('delete', ('where', 'on'))),
    'C06': (('select', ('where or', 'where not')), ('update', ('where or',)), ('delete', ('where or', 'where not'))),
    'C07': (('select', ('where list',)), ('update', ('where list',))),
    'C08': (('insert', ('values',)),),
    'C09': (('update', ('set',)), ('insert', ('duplicate', 'conflict'))),
    'C11': (('select', ('join', 'left', 'right', 'on')), ('update', ('join', 'left', 'on')), ('delete', ('join', 'left', 'on'))),
    'C12': (('select', ('group', 'order')),),
    'C13': (('select', ('limit', 'offset')),),
    'C14': (('select', ('option',)), ('update', ('ignore',)), ('delete', ('ignore',)), ('insert', ('ignore',))),
    'C20': (('select', ('column function', 'column concat', 'function')), ('update', ('set function',))),
    'C21': (('select', ('column sub', 'table sub', 'where sub', 'where exists')), ('update', ('set sub',)), ('insert', ('values sub',))),
    'C23': (('select', ('where custom', 'where reference', 'column value', 'custom')), ('update', ('set custom', 'set reference')),
            ('delete', ('where custom',))),
    'C24': (('select', ('column', 'table')), ('update', ('table',)), ('delete', ('delete', 'table')), ('insert', ('into',))),
    'C25': (('select', ('outfile',)),),
}
BOUNDS = {p: ['a step of this property beside each step that sets another clause (and beside all of them, with one left out), before or after it, over one-character '
              'symbolic names and texts and unbounded symbolic ints, on a statement without and with other clauses; all four databases'] for p in OWN}
ASSUMPTIONS = {}

MORE = {
    'select': dict({'option ' + o: (lambda sp, q, v, o=o: getattr(q, o)()) for o in OPTIONS},
                   **{'limit none': lambda sp, q, v: q.limit(None), 'function having': lambda sp, q, v: q.having('h', sp.max(v.name('c'))),
                      'function order': lambda sp, q, v: q.order_by((sp.sum_distinct(v.name('c')), 'desc')),
                      'custom column': lambda sp, q, v: q.columns(sp.C('raw')),
                      'custom order': lambda sp, q, v: q.order_by(sp.C('raw')),
                      'custom having': lambda sp, q, v: q.having(sp.C('raw')),
                      'having or': lambda sp, q, v: q.having(sp.Q(a=v.int('i')) | sp.Q(b=v.text('s')))}),
    'update': {'set function': lambda sp, q, v: q.set('f', sp.concat(v.name('c'), sp.V(v.text('s')))),
               'set reference': lambda sp, q, v: q.set('f', sp.R(v.name('c'))),
               'set value': lambda sp, q, v: q.set(v.name('c'), sp.V(v.int('i')))},
    'delete': {'where custom': lambda sp, q, v: q.where(sp.C('raw'))},
    'insert': {'into': lambda sp, q, v: q.into(v.name('t')), 'values reference': lambda sp, q, v: q.values(a=sp.R(v.name('c')))},
}


def steps_of(kind, backend):
    out = {k: s for k, s in catalog.steps(kind, backend).items() if k != 'allow'}
    out.update(MORE[kind])
    return out


def clause_of(kind, step):
    for prefix, clause in CLAUSES[kind]:
        if step.startswith(prefix):
            return clause
    raise KeyError(step)


TABLES = tuple((p, 'tables') for p in ('table', 'join', 'left', 'right', 'on'))
CLAUSES = {
    'select': (('option for_update', 'lock'), ('for update', 'lock'), ('option', 'options'), ('distinct', 'options'), ('no cache', 'options'),
               ('priority', 'options'), ('column', 'columns'), ('custom column', 'columns'), ('custom order', 'order'), ('custom having', 'having'),
               ('function having', 'having'), ('function order', 'order'), ('where', 'where'), ('group', 'group'), ('having', 'having'),
               ('order', 'order'), ('limit', 'limit'), ('offset', 'limit'), ('outfile', 'outfile')) + TABLES,
    'update': (('set', 'values'), ('where', 'where'), ('ignore', 'options')) + TABLES,
    'delete': (('delete', 'targets'), ('where', 'where'), ('ignore', 'options')) + TABLES,
    'insert': (('values', 'rows'), ('into', 'tables'), ('ignore', 'options'), ('duplicate', 'upsert'), ('conflict', 'upsert'), ('replace', 'head')),
}
MARKS = {
    'select': {'FROM': 'tables', 'WHERE': 'where', 'GROUP': 'group', 'HAVING': 'having', 'ORDER': 'order', 'LIMIT': 'limit', 'OFFSET': 'limit',
               'INTO': 'outfile', 'FOR': 'lock'},
    'update': {'SET': 'values', 'WHERE': 'where'},
    'delete': {'FROM': 'tables', 'WHERE': 'where'},
    'insert': {'INTO': 'tables', 'ON': 'upsert'},
}
REST = {'select': 'columns', 'update': 'tables', 'delete': 'targets', 'insert': 'tables'}
OPTION_WORDS = {o.upper() for o in OPTIONS} | {'IGNORE'}


def clauses(ctx, toks, kind):
    """Tokens of a statement by clauses; None if a clause comes twice."""
    out = {'head': toks[:1]}
    at, depth, options = None, 0, True
    for t in toks[1:]:
        word = t[1] if t[0] == 'word' else None
        if options and word in OPTION_WORDS:
            out.setdefault('options', []).append(t)
            continue
        options = False
        name = MARKS[kind].get(word) if word and depth == 0 else None
        if kind == 'insert' and t == ('op', '(') and depth == 0 and at == 'tables':
            name = 'rows'
        if name and name != at:
            if name in out:
                return None
            at = name
        elif at is None:
            at = REST[kind]
        out.setdefault(at, []).append(t)
        if t[0] == 'op':
            depth += (t[1] == '(') - (t[1] == ')')
    if 'options' in out:
        out['options'] = sorted(out['options'])
    return out


BASES = {
    'select': {'bare': lambda sp: sp.select_from('t').join('u'), 'rich': lambda sp: sp.select('c0').from_('t0').left_join('j0').on('j0.x', 'y0')},
    'update': {'bare': lambda sp: sp.update('t').join('u').set('s0', 1).allow_update_all(),
               'rich': lambda sp: sp.update('t').join('j0').on('j0.x', 'y').set('s0', 1).where('w0', 1)},
    'delete': {'bare': lambda sp: sp.delete_from('t').join('u').allow_delete_all(), 'rich': lambda sp: sp.delete('d0').from_('t').join('j0').on('j0.x', 'y').where('w0', 1)},
    'insert': {'bare': lambda sp: sp.insert_into('t'), 'rich': lambda sp: sp.insert_into('t').values(a=1)},
}


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    for b in BACKENDS:
        for kind, prefixes in OWN[prop]:
            if not deep and b in ('sql', 'sqlite') and kind != 'insert':
                continue
            for step in steps_of(kind, b):
                if not step.startswith(prefixes):
                    continue
                if not deep and b == 'postgresql' and kind == 'select' and not step.split()[-1] in ('int', 'list', 'or', 'sub', 'like', 'distinct', 'alias', 'order'):
                    continue
                for mode in ('pair', 'rest'):
                    out.append((prop, 'h_frame', {'backend': b, 'kind': kind, 'step': step, 'mode': mode}, 300 if deep else 60))
    return out


def h_frame(ctx, backend, kind, step, mode):
    sp = ctx.sp
    sp.configure(backend)
    every = steps_of(kind, backend)
    mine = clause_of(kind, step)
    new = BASES[kind][ctx.choose('base', tuple(BASES[kind]))]
    others = tuple(s for s in every if clause_of(kind, s) != mine)
    if mode == 'pair':
        chosen = [ctx.choose('other', others)]
        plan = chosen + [step] if ctx.flag('after') else [step] + chosen
    else:
        # one step for each other clause, without one of them
        pick = {}
        for s in others:
            pick.setdefault(clause_of(kind, s), s)
        left = ctx.choose('left', ('none',) + tuple(pick))
        chosen = [s for c, s in pick.items() if c != left]
        k = {'first': 0, 'middle': len(chosen) // 2, 'last': len(chosen)}[ctx.choose('at', ('first', 'middle', 'last'))]
        plan = chosen[:k] + [step] + chosen[k:]
    vals = {s: Vals(ctx, s, fixed=mode == 'rest' and s != step) for s in plan}

    def build(names):
        q = new(sp)
        for s in names:
            every[s](sp, q, vals[s])
        return q

    q = build(plan)
    got = clauses(ctx, tokens(render(ctx, q), backend), kind)
    ctx.check(got is not None, 'a clause comes twice')
    base = clauses(ctx, tokens(str(build([])), backend), kind)
    want = dict(base)
    for s in plan:
        alone = clauses(ctx, tokens(str(build([s])), backend), kind)
        c = clause_of(kind, s)
        if c in alone:
            want[c] = alone[c]
        else:
            want.pop(c, None)
    ctx.check(set(got) == set(want), 'a clause is lost or added by a call which sets another one')
    for c in want:
        ctx.check(got[c] == want[c], 'a call changes a clause it does not set (%s)' % c)
