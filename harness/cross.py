"""
Whole statements in which every name and value is symbolic, so that any name of one clause may be the name (or the text) of
another: what one clause contains never influences another (C05, C08, C09, C11, C12, C13, C15, C20, C21, C24).
"""
from .base import *

BOUNDS = {p: ['whole statements of 9 forms with 6-14 names of one ordinary symbolic character and texts or unbounded ints, any of which may coincide, '
              'built in one of several orders; all four databases']
          for p in ('C05', 'C08', 'C09', 'C11', 'C12', 'C13', 'C15', 'C20', 'C21', 'C24')}
ASSUMPTIONS = {}
FORMS = {
    'C05': ('select', 'select joined', 'select nested', 'update', 'delete'),
    'C08': ('insert', 'insert rows'),
    'C09': ('update', 'update joined', 'upsert'),
    'C11': ('select joined', 'update joined', 'delete joined'),
    'C12': ('select', 'select joined', 'select function'),
    'C13': ('select', 'select nested'),
    'C15': ('select', 'select joined', 'update joined', 'delete joined', 'upsert', 'insert rows'),
    'C20': ('select function',),
    'C21': ('select nested', 'union'),
    'C24': ('select', 'select joined', 'update joined', 'delete joined', 'insert'),
}


def tasks(prop, tier):
    out = []
    for b in BACKENDS:
        for form in FORMS[prop]:
            for values in ('int', 'str'):
                out.append((prop, 'h_cross', {'backend': b, 'form': form, 'values': values}, 300 if tier == 'thorough' else 60))
    return out


class Names:
    def __init__(self, ctx, backend, values):
        self.ctx, self.backend, self.kind = ctx, backend, values
        self.names, self.values = {}, {}

    def __getattr__(self, label):
        """n.x is the name x, n.v_x the value x"""
        if label.startswith('v_'):
            if label not in self.values:
                self.values[label] = self.ctx.int(label) if self.kind == 'int' else self.ctx.str(label, 1, 1, 'plain')
            return self.values[label]
        if label not in self.names:
            self.names[label] = self.ctx.str(label, 1, 1, 'plain')
        return self.names[label]

    def sql(self, template):
        """Template with $name for identifiers and %name for values"""
        out, rest = [], template
        for word in template.split():
            if word[0] == '$':
                out.append(('id', getattr(self, word[1:])))
            elif word[0] == '%' and len(word) > 1:
                out.extend(value(getattr(self, 'v_' + word[1:]), self.backend))
            else:
                out.extend(words(word))
        return out


def run(ctx, steps):
    """Calls in the given order or backwards."""
    for step in (steps[::-1] if ctx.flag('backwards') else steps):
        step()


def h_cross(ctx, backend, form, values):
    sp = ctx.sp
    sp.configure(backend)
    n = Names(ctx, backend, values)
    peek = ctx.flag('peek')
    if form == 'select':
        q = sp.select()
        run(ctx, [lambda: q.columns((n.a, n.b), n.c), lambda: q.from_((n.t, n.u)), lambda: q.where(n.w, n.v_w), lambda: q.group_by(n.g),
                  lambda: q.having(n.h, n.v_h), lambda: q.order_by((n.o, 'desc')), lambda: q.limit(3, 4)])
        e = n.sql('SELECT $a AS $b , $c FROM $t AS $u WHERE $w = %w GROUP BY $g HAVING $h = %h ORDER BY $o DESC LIMIT 3 OFFSET 4')
    elif form == 'select joined':
        q = sp.select(n.c).from_(n.t)
        run(ctx, [lambda: q.join((n.j, n.k)).on(n.x, n.y), lambda: q.where({n.w: n.v_w}), lambda: q.group_by({n.g: 'desc'}), lambda: q.order_by(n.o)])
        e = n.sql('SELECT $c FROM $t JOIN $j AS $k ON $x = $y WHERE $w = %w GROUP BY $g DESC ORDER BY $o')
    elif form == 'select nested':
        s = sp.select(n.a).from_(n.s).where(n.x, n.v_x).limit(1)
        q = sp.select(n.c, (s, n.b)).from_(n.t)
        run(ctx, [lambda: q.where(n.w, n.v_w), lambda: q.where(sp.Q(n.y, n.v_y) | sp.Q(n.z, n.v_z)), lambda: q.order_by(n.o)])
        one, two = '$w = %w', '( $y = %y OR $z = %z )'
        toks = tokens(render(ctx, q), backend)
        sub = '( SELECT $a FROM $s WHERE $x = %x LIMIT 1 )'
        want = [n.sql('SELECT $c , %s AS $b FROM $t WHERE %s AND %s ORDER BY $o' % (sub, x, y)) for x, y in ((one, two), (two, one))]
        # identical alternatives may be one
        if n.y == n.z and n.v_y == n.v_z:
            return
        ctx.check(toks in want, 'one part of the statement changes another')
        return
    elif form == 'select function':
        f = sp.group_concat(n.a, n.b).order_by((n.o, 'desc')).separator('s')
        q = sp.select((f, n.c), (sp.count(n.d).distinct(), n.f)).from_(n.t)
        run(ctx, [lambda: q.group_by(n.g), lambda: q.order_by(n.p, (sp.max(n.m), 'desc')), lambda: q.where(n.w, n.v_w)])
        e = n.sql("SELECT GROUP_CONCAT( $a , $b ORDER BY $o DESC SEPARATOR 's' ) AS $c , COUNT( DISTINCT $d ) AS $f FROM $t "
                  "WHERE $w = %w GROUP BY $g ORDER BY $p , MAX( $m ) DESC")
        ctx.assume(n.a != n.b)
    elif form == 'union':
        one = sp.select(n.a).from_(n.t).where(n.w, n.v_w)
        two = sp.select(n.b).from_(n.u).where(n.x, n.v_x)
        op, text = ctx.choose('op', (('|', 'UNION'), ('&', 'UNION ALL')))
        q = one | two if op == '|' else one & two
        e = n.sql('SELECT $a FROM $t WHERE $w = %%w %s SELECT $b FROM $u WHERE $x = %%x' % text)
    elif form == 'update':
        q = sp.update(n.t)
        run(ctx, [lambda: q.set({n.a: n.v_a}), lambda: q.where(n.w, n.v_w)])
        e = n.sql('UPDATE $t SET $a = %a WHERE $w = %w')
    elif form == 'update joined':
        q = sp.update({n.t: n.u})
        run(ctx, [lambda: q.set(n.a, n.v_a), lambda: q.left_join((n.j, n.k)).on(n.x, n.y), lambda: q.where([(n.w, n.v_w)])])
        e = n.sql('UPDATE $t AS $u LEFT JOIN $j AS $k ON $x = $y SET $a = %a WHERE $w = %w')
    elif form == 'delete':
        q = sp.delete_from(n.t).where(n.w, n.v_w)
        e = n.sql('DELETE FROM $t WHERE $w = %w')
    elif form == 'delete joined':
        q = sp.delete(n.d).from_((n.t, n.u))
        run(ctx, [lambda: q.inner_join(n.j).on(n.x, n.y), lambda: q.where(n.w, n.v_w)])
        e = n.sql('DELETE $d FROM $t AS $u JOIN $j ON $x = $y WHERE $w = %w')
    elif form == 'insert':
        q = sp.insert_into(n.t).values({n.a: n.v_a})
        e = n.sql('INSERT INTO $t ( $a ) VALUES ( %a )')
    elif form == 'insert rows':
        ctx.assume(n.a < n.b)
        q = sp.insert_into(n.t).values({n.a: n.v_a, n.b: n.v_b}).values({n.b: n.v_c}).values({n.a: n.v_d})
        e = n.sql('INSERT INTO $t ( $a , $b ) VALUES ( %a , %b ) , ( NULL , %c ) , ( %d , NULL )')
    else:
        q = sp.insert_into(n.t)
        if backend == 'mysql':
            run(ctx, [lambda: q.values(n.a, n.v_a), lambda: q.on_duplicate_key_update(n.b, n.v_b)])
            e = n.sql('INSERT INTO $t ( $a ) VALUES ( %a ) ON DUPLICATE KEY UPDATE $b = %b')
        elif backend == 'postgresql':
            run(ctx, [lambda: q.values(n.a, n.v_a), lambda: q.on_duplicate_key_update(n.k, {n.b: n.v_b})])
            e = n.sql('INSERT INTO $t ( $a ) VALUES ( %a ) ON CONFLICT ( $k ) DO UPDATE $b = %b')
        else:
            q.values(n.a, n.v_a)
            e = n.sql('INSERT INTO $t ( $a ) VALUES ( %a )')
    if peek:
        str(q)
    same(ctx, q, backend, e, 'one part of the statement changes another')
