"""
Every place where the public API takes a value or a name, with the SQL that has to come out:
name -> (builder, template, backends).  In templates names are in double quotes and ? is the datum.
"""

ALL = ('sql', 'mysql', 'postgresql', 'sqlite')
MY = ('mysql',)
PG = ('postgresql',)

VALUES = {
    # conditions: argument styles
    'where_pair': (lambda sp, v: sp.select_from('t').where('c', v), 'SELECT * FROM "t" WHERE "c" = ?', ALL),
    'where_kwds': (lambda sp, v: sp.select_from('t').where(c=v), 'SELECT * FROM "t" WHERE "c" = ?', ALL),
    'where_dict': (lambda sp, v: sp.select_from('t').where({'c': v}), 'SELECT * FROM "t" WHERE "c" = ?', ALL),
    'where_tuple': (lambda sp, v: sp.select_from('t').where(('c', v), ('d', v)),
                    'SELECT * FROM "t" WHERE "c" = ? AND "d" = ?', ALL),
    'where_list': (lambda sp, v: sp.select_from('t').where([('c', 1), ['d', v]]),
                   'SELECT * FROM "t" WHERE "c" = 1 AND "d" = ?', ALL),
    # conditions: relations
    'EQ': (lambda sp, v: sp.select_from('t').where('c', sp.relations.EQ(v)), 'SELECT * FROM "t" WHERE "c" = ?', ALL),
    'NE': (lambda sp, v: sp.select_from('t').where('c', sp.relations.NE(v)), 'SELECT * FROM "t" WHERE "c" != ?', ALL),
    'GT': (lambda sp, v: sp.select_from('t').where('c', sp.relations.GT(v)), 'SELECT * FROM "t" WHERE "c" > ?', ALL),
    'GE': (lambda sp, v: sp.select_from('t').where('c', sp.relations.GE(v)), 'SELECT * FROM "t" WHERE "c" >= ?', ALL),
    'LT': (lambda sp, v: sp.select_from('t').where('c', sp.relations.LT(v)), 'SELECT * FROM "t" WHERE "c" < ?', ALL),
    'LE': (lambda sp, v: sp.select_from('t').where('c', sp.relations.LE(v)), 'SELECT * FROM "t" WHERE "c" <= ?', ALL),
    'LIKE': (lambda sp, v: sp.select_from('t').where('c', sp.relations.LIKE(v)),
             'SELECT * FROM "t" WHERE "c" LIKE ?', ALL),
    'NOT_LIKE': (lambda sp, v: sp.select_from('t').where('c', sp.relations.NOT_LIKE(v)),
                 'SELECT * FROM "t" WHERE "c" NOT LIKE ?', ALL),
    'REGEXP': (lambda sp, v: sp.select_from('t').where('c', sp.relations.REGEXP(v)),
               'SELECT * FROM "t" WHERE "c" REGEXP ?', ALL),
    'IN_list': (lambda sp, v: sp.select_from('t').where('c', sp.relations.IN([v])),
                'SELECT * FROM "t" WHERE "c" IN (?)', ALL),
    'IN_args': (lambda sp, v: sp.select_from('t').where('c', sp.relations.IN('x', v, 7)),
                'SELECT * FROM "t" WHERE "c" IN (\'x\', ?, 7)', ALL),
    'IN_null': (lambda sp, v: sp.select_from('t').where('c', sp.relations.IN([None, v])),
                'SELECT * FROM "t" WHERE ("c" IN (?) OR "c" IS NULL)', ALL),
    'NOT_IN': (lambda sp, v: sp.select_from('t').where('c', sp.relations.NOT_IN((v, 'y'))),
               'SELECT * FROM "t" WHERE "c" NOT IN (?, \'y\')', ALL),
    'default_list': (lambda sp, v: sp.select_from('t').where('c', [v, v]), 'SELECT * FROM "t" WHERE "c" IN (?, ?)', ALL),
    'default_tuple': (lambda sp, v: sp.select_from('t').where(c=('x', v)),
                      'SELECT * FROM "t" WHERE "c" IN (\'x\', ?)', ALL),
    'having': (lambda sp, v: sp.select_from('t').having('c', v), 'SELECT * FROM "t" HAVING "c" = ?', ALL),
    'having_rel': (lambda sp, v: sp.select_from('t').having(c=sp.relations.GE(v)),
                   'SELECT * FROM "t" HAVING "c" >= ?', ALL),
    'on_value': (lambda sp, v: sp.select_from('t').join('u').on('u.c', sp.V(v)),
                 'SELECT * FROM "t" JOIN "u" ON "u"."c" = ?', ALL),
    'on_relation': (lambda sp, v: sp.select_from('t').left_join('u').on('u.c', sp.relations.NE(sp.V(v))),
                    'SELECT * FROM "t" LEFT JOIN "u" ON "u"."c" != ?', ALL),
    'Q_or': (lambda sp, v: sp.select_from('t').where(sp.Q(c=v) | sp.Q('d', v)),
             'SELECT * FROM "t" WHERE ("c" = ? OR "d" = ?)', ALL),
    'Q_and': (lambda sp, v: sp.select_from('t').where(sp.Q(c=1, d=v) & sp.Q(e=v)),
              'SELECT * FROM "t" WHERE (("c" = 1 AND "d" = ?) AND "e" = ?)', ALL),
    'Not': (lambda sp, v: sp.select_from('t').where(sp.Not(c=v)), 'SELECT * FROM "t" WHERE NOT("c" = ?)', ALL),
    'V_in_where': (lambda sp, v: sp.select_from('t').where('c', sp.V(v)), 'SELECT * FROM "t" WHERE "c" = ?', ALL),
    'V_in_LIKE': (lambda sp, v: sp.select_from('t').where('c', sp.relations.LIKE(sp.V(v))),
                  'SELECT * FROM "t" WHERE "c" LIKE ?', ALL),
    # statements that write
    'insert': (lambda sp, v: sp.insert_into('t').values(c=v), 'INSERT INTO "t" ("c") VALUES (?)', ALL),
    'insert_dict': (lambda sp, v: sp.insert_into('t').values({'c': v, 'a': 1}),
                    'INSERT INTO "t" ("a", "c") VALUES (1, ?)', ALL),
    'insert_pairs': (lambda sp, v: sp.insert_into('t').values(('c', v), ('d', 'x')),
                     'INSERT INTO "t" ("c", "d") VALUES (?, \'x\')', ALL),
    'insert_rows': (lambda sp, v: sp.insert_into('t').values(c='x').values(d=v).values(c=v),
                    'INSERT INTO "t" ("c", "d") VALUES (\'x\', NULL), (NULL, ?), (?, NULL)', ALL),
    'insert_V': (lambda sp, v: sp.insert_into('t').values(c=sp.V(v)), 'INSERT INTO "t" ("c") VALUES (?)', ALL),
    'update': (lambda sp, v: sp.update('t').set(c=v).where(id=1), 'UPDATE "t" SET "c" = ? WHERE "id" = 1', ALL),
    'update_pair': (lambda sp, v: sp.update('t').set('c', v).set(d=v).allow_update_all(),
                    'UPDATE "t" SET "c" = ?, "d" = ?', ALL),
    'update_where': (lambda sp, v: sp.update('t').set(c=1).where(d=v), 'UPDATE "t" SET "c" = 1 WHERE "d" = ?', ALL),
    'update_V': (lambda sp, v: sp.update('t').set(c=sp.V(v)).where(id=1), 'UPDATE "t" SET "c" = ? WHERE "id" = 1', ALL),
    'delete_where': (lambda sp, v: sp.delete_from('t').where(c=v), 'DELETE FROM "t" WHERE "c" = ?', ALL),
    'mysql_upsert': (lambda sp, v: sp.insert_into('t').values(id=1).on_duplicate_key_update(c=v, d=2),
                     'INSERT INTO "t" ("id") VALUES (1) ON DUPLICATE KEY UPDATE "c" = ?, "d" = 2', MY),
    'pg_upsert': (lambda sp, v: sp.insert_into('t').values(id=1).on_duplicate_key_update('id', c=v, d=2),
                  'INSERT INTO "t" ("id") VALUES (1) ON CONFLICT ("id") DO UPDATE "c" = ?, "d" = 2', PG),
    # explicit values in columns and functions
    'select_V': (lambda sp, v: sp.select(sp.V(v), 'a'), 'SELECT ?, "a"', ALL),
    'select_V_alias': (lambda sp, v: sp.select((sp.V(v), 'a')), 'SELECT ? AS "a"', ALL),
    'concat_V': (lambda sp, v: sp.select(sp.concat('a', sp.V(v))), 'SELECT CONCAT("a", ?)', ALL),
    'max_V': (lambda sp, v: sp.select(sp.max(sp.V(v))), 'SELECT MAX(?)', ALL),
    'count_V': (lambda sp, v: sp.select(sp.count_distinct(sp.V(v))), 'SELECT COUNT(DISTINCT ?)', ALL),
    'convert_V': (lambda sp, v: sp.select(sp.convert(sp.V(v), 'signed')), 'SELECT CONVERT(?, SIGNED)', ALL),
    'order_V': (lambda sp, v: sp.select_from('t').order_by((sp.V(v), 'desc')), 'SELECT * FROM "t" ORDER BY ? DESC', ALL),
    'group_V': (lambda sp, v: sp.select_from('t').group_by(sp.V(v)), 'SELECT * FROM "t" GROUP BY ?', ALL),
    'separator': (lambda sp, v: sp.select(sp.group_concat('a').separator(v)),
                  'SELECT GROUP_CONCAT("a" SEPARATOR ?)', ALL),
    'separator_order': (lambda sp, v: sp.select(sp.group_concat('a').order_by('b').separator(v)),
                        'SELECT GROUP_CONCAT("a" ORDER BY "b" SEPARATOR ?)', ALL),
    # INTO OUTFILE
    'outfile': (lambda sp, v: sp.select_from('t').into_outfile(v), 'SELECT * FROM "t" INTO OUTFILE ?', ALL),
    'outfile_fields': (lambda sp, v: sp.select_from('t').into_outfile('f').fields_terminated_by(v),
                       'SELECT * FROM "t" INTO OUTFILE \'f\' FIELDS TERMINATED BY ?', ALL),
    'outfile_lines': (lambda sp, v: sp.select_from('t').into_outfile('f').lines_terminated_by(v),
                      'SELECT * FROM "t" INTO OUTFILE \'f\' LINES TERMINATED BY ?', ALL),
    'outfile_enclosed': (lambda sp, v: sp.select_from('t').into_outfile('f').optionally_enclosed_by(v),
                         'SELECT * FROM "t" INTO OUTFILE \'f\' OPTIONALLY ENCLOSED BY ?', ALL),
    # nested queries
    'sub_from': (lambda sp, v: sp.select_from((sp.select_from('t').where(c=v), 'x')),
                 'SELECT * FROM (SELECT * FROM "t" WHERE "c" = ?) AS "x"', ALL),
    'sub_IN': (lambda sp, v: sp.select_from('u').where('id', sp.relations.IN(sp.select('id').from_('t').where(c=v))),
               'SELECT * FROM "u" WHERE "id" IN (SELECT "id" FROM "t" WHERE "c" = ?)', ALL),
    'sub_exists': (lambda sp, v: sp.select_from('u').where(sp.exists(sp.select('id').from_('t').where(c=v))),
                   'SELECT * FROM "u" WHERE EXISTS(SELECT "id" FROM "t" WHERE "c" = ?)', ALL),
    'sub_column': (lambda sp, v: sp.select((sp.select('id').from_('t').where(c=v), 'x')),
                   'SELECT (SELECT "id" FROM "t" WHERE "c" = ?) AS "x"', ALL),
    'sub_insert': (lambda sp, v: sp.insert_into('u').values(a=sp.select('id').from_('t').where(c=v)),
                   'INSERT INTO "u" ("a") VALUES ((SELECT "id" FROM "t" WHERE "c" = ?))', ALL),
    'union': (lambda sp, v: sp.select_from('t').where(c=v) | sp.select_from('u').where(d=v),
              'SELECT * FROM "t" WHERE "c" = ? UNION SELECT * FROM "u" WHERE "d" = ?', ALL),
}

NAMES = {
    'column': (lambda sp, n: sp.select(n).from_('t'), 'SELECT ? FROM "t"', ALL),
    'columns': (lambda sp, n: sp.select('sibling', n).from_('t'), 'SELECT "sibling", ? FROM "t"', ALL),
    'column_alias': (lambda sp, n: sp.select(('a', n)).from_('t'), 'SELECT "a" AS ? FROM "t"', ALL),
    'column_kwds': (lambda sp, n: sp.select({'a': n, 'b': 'c'}).from_('t'), 'SELECT "a" AS ?, "b" AS "c" FROM "t"', ALL),
    'column_dict_key': (lambda sp, n: sp.select({n: 'z'}).from_('t'), 'SELECT ? AS "z" FROM "t"', ALL),
    'columns_method': (lambda sp, n: sp.select('sibling').columns(n), 'SELECT "sibling", ?', ALL),
    'table': (lambda sp, n: sp.select_from(n), 'SELECT * FROM ?', ALL),
    'table_second': (lambda sp, n: sp.select_from('sibling', n), 'SELECT * FROM "sibling", ?', ALL),
    'table_alias': (lambda sp, n: sp.select_from(('t', n)), 'SELECT * FROM "t" AS ?', ALL),
    'from_table': (lambda sp, n: sp.select('a').from_table(n, 'x'), 'SELECT "a" FROM ? AS "x"', ALL),
    'from_table_alias': (lambda sp, n: sp.select('a').from_table('t', n), 'SELECT "a" FROM "t" AS ?', ALL),
    'from_tables': (lambda sp, n: sp.select('a').from_tables('t', (n, 'y')), 'SELECT "a" FROM "t", ? AS "y"', ALL),
    'from_kwds': (lambda sp, n: sp.select('a').from_({n: 'y'}), 'SELECT "a" FROM ? AS "y"', ALL),
    'sub_alias': (lambda sp, n: sp.select_from((sp.select('a').from_('t'), n)),
                  'SELECT * FROM (SELECT "a" FROM "t") AS ?', ALL),
    'join': (lambda sp, n: sp.select_from('t').join(n), 'SELECT * FROM "t" JOIN ?', ALL),
    'inner_join_pair': (lambda sp, n: sp.select_from('t').inner_join((n, 'x')), 'SELECT * FROM "t" JOIN ? AS "x"', ALL),
    'left_join_alias': (lambda sp, n: sp.select_from('t').left_join(('u', n)), 'SELECT * FROM "t" LEFT JOIN "u" AS ?', ALL),
    'right_join_dict': (lambda sp, n: sp.select_from('t').right_join({n: 'x'}),
                        'SELECT * FROM "t" RIGHT JOIN ? AS "x"', ALL),
    'join_dict_alias': (lambda sp, n: sp.select_from('t').join({'u': n}), 'SELECT * FROM "t" JOIN "u" AS ?', ALL),
    'full_join': (lambda sp, n: sp.select_from('t').full_join(n), 'SELECT * FROM "t" FULL JOIN ?', PG),
    'on_left': (lambda sp, n: sp.select_from('t').join('u').on(n, 't.id'),
                'SELECT * FROM "t" JOIN "u" ON ? = "t"."id"', ALL),
    'on_right': (lambda sp, n: sp.select_from('t').join('u').on('u.id', n),
                 'SELECT * FROM "t" JOIN "u" ON "u"."id" = ?', ALL),
    'on_right_rel': (lambda sp, n: sp.select_from('t').join('u').on('u.id', sp.relations.GT(n)),
                     'SELECT * FROM "t" JOIN "u" ON "u"."id" > ?', ALL),
    'on_dict': (lambda sp, n: sp.select_from('t').join('u').on({n: 't.id'}),
                'SELECT * FROM "t" JOIN "u" ON ? = "t"."id"', ALL),
    'where': (lambda sp, n: sp.select_from('t').where(n, 1), 'SELECT * FROM "t" WHERE ? = 1', ALL),
    'where_dict': (lambda sp, n: sp.select_from('t').where({n: 'x'}), 'SELECT * FROM "t" WHERE ? = \'x\'', ALL),
    'where_tuple': (lambda sp, n: sp.select_from('t').where(('a', 1), (n, 2)),
                    'SELECT * FROM "t" WHERE "a" = 1 AND ? = 2', ALL),
    'where_null': (lambda sp, n: sp.select_from('t').where(n, None), 'SELECT * FROM "t" WHERE ? IS NULL', ALL),
    'where_in': (lambda sp, n: sp.select_from('t').where(n, [1, 2]), 'SELECT * FROM "t" WHERE ? IN (1, 2)', ALL),
    'where_in_null': (lambda sp, n: sp.select_from('t').where(n, [1, None]),
                      'SELECT * FROM "t" WHERE (? IN (1) OR ? IS NULL)', ALL),
    'where_not_in_null': (lambda sp, n: sp.select_from('t').where(n, sp.relations.NOT_IN(1, None)),
                          'SELECT * FROM "t" WHERE (? NOT IN (1) AND ? IS NOT NULL)', ALL),
    'where_only_null': (lambda sp, n: sp.select_from('t').where(n, sp.relations.NOT_IN([None])),
                        'SELECT * FROM "t" WHERE ? IS NOT NULL', ALL),
    'where_like': (lambda sp, n: sp.select_from('t').where(n, sp.relations.LIKE('x')),
                   'SELECT * FROM "t" WHERE ? LIKE \'x\'', ALL),
    'where_R': (lambda sp, n: sp.select_from('t').where('a', sp.R(n)), 'SELECT * FROM "t" WHERE "a" = ?', ALL),
    'where_R_rel': (lambda sp, n: sp.select_from('t').where('a', sp.relations.NE(sp.R(n))),
                    'SELECT * FROM "t" WHERE "a" != ?', ALL),
    'where_R_column': (lambda sp, n: sp.select_from('t').where(sp.R(n), 1), 'SELECT * FROM "t" WHERE ? = 1', ALL),
    'where_sub': (lambda sp, n: sp.select_from('t').where(n, sp.select('a').from_('u')),
                  'SELECT * FROM "t" WHERE ? = (SELECT "a" FROM "u")', ALL),
    'Q': (lambda sp, n: sp.select_from('t').where(sp.Q(n, 1) | sp.Q(b=2)), 'SELECT * FROM "t" WHERE (? = 1 OR "b" = 2)', ALL),
    'Not': (lambda sp, n: sp.select_from('t').where(sp.Not({n: 1})), 'SELECT * FROM "t" WHERE NOT(? = 1)', ALL),
    'having': (lambda sp, n: sp.select_from('t').having(n, 1), 'SELECT * FROM "t" HAVING ? = 1', ALL),
    'group_by': (lambda sp, n: sp.select_from('t').group_by(n), 'SELECT * FROM "t" GROUP BY ?', ALL),
    'group_by_desc': (lambda sp, n: sp.select_from('t').group_by((n, 'desc')),
                      'SELECT * FROM "t" GROUP BY ? DESC', ALL),
    'order_by': (lambda sp, n: sp.select_from('t').order_by(n), 'SELECT * FROM "t" ORDER BY ?', ALL),
    'order_by_desc': (lambda sp, n: sp.select_from('t').order_by((n, 'DESC')), 'SELECT * FROM "t" ORDER BY ? DESC', ALL),
    'order_by_dict': (lambda sp, n: sp.select_from('t').order_by({n: 'asc'}), 'SELECT * FROM "t" ORDER BY ?', ALL),
    'insert_table': (lambda sp, n: sp.insert_into(n).values(a=1), 'INSERT INTO ? ("a") VALUES (1)', ALL),
    'insert_into': (lambda sp, n: sp.insert().into(n).values(a=1), 'INSERT INTO ? ("a") VALUES (1)', ALL),
    'insert_column': (lambda sp, n: sp.insert_into('t').values({n: 5}), 'INSERT INTO "t" (?) VALUES (5)', ALL),
    'insert_column_pair': (lambda sp, n: sp.insert_into('t').values(n, 5), 'INSERT INTO "t" (?) VALUES (5)', ALL),
    'insert_R': (lambda sp, n: sp.insert_into('t').values(a=sp.R(n)), 'INSERT INTO "t" ("a") VALUES (?)', ALL),
    'update_table': (lambda sp, n: sp.update(n).set(a=1).where(b=2), 'UPDATE ? SET "a" = 1 WHERE "b" = 2', ALL),
    'update_column': (lambda sp, n: sp.update('t').set({n: 1}).where(b=2), 'UPDATE "t" SET ? = 1 WHERE "b" = 2', ALL),
    'update_column_pair': (lambda sp, n: sp.update('t').set(n, 1).where(b=2), 'UPDATE "t" SET ? = 1 WHERE "b" = 2', ALL),
    'update_R': (lambda sp, n: sp.update('t').set(a=sp.R(n)).where(b=2), 'UPDATE "t" SET "a" = ? WHERE "b" = 2', ALL),
    'update_join': (lambda sp, n: sp.update('t').left_join(n).on('t.a', 'u.b').set(a=1).where(b=2),
                    'UPDATE "t" LEFT JOIN ? ON "t"."a" = "u"."b" SET "a" = 1 WHERE "b" = 2', ALL),
    'update_where': (lambda sp, n: sp.update('t').set(a=1).where(n, 2), 'UPDATE "t" SET "a" = 1 WHERE ? = 2', ALL),
    'delete_from': (lambda sp, n: sp.delete_from(n).where(a=1), 'DELETE FROM ? WHERE "a" = 1', ALL),
    'delete_alias': (lambda sp, n: sp.delete_from(('t', n)).where(a=1), 'DELETE FROM "t" AS ? WHERE "a" = 1', ALL),
    'delete_tables': (lambda sp, n: sp.delete(n).from_('t').join('u').on('t.a', 'u.b').where(a=1),
                      'DELETE ? FROM "t" JOIN "u" ON "t"."a" = "u"."b" WHERE "a" = 1', ALL),
    'delete_where': (lambda sp, n: sp.delete_from('t').where(n, 1), 'DELETE FROM "t" WHERE ? = 1', ALL),
    'mysql_upsert': (lambda sp, n: sp.insert_into('t').values(id=1).on_duplicate_key_update({n: 2}),
                     'INSERT INTO "t" ("id") VALUES (1) ON DUPLICATE KEY UPDATE ? = 2', MY),
    'pg_upsert': (lambda sp, n: sp.insert_into('t').values(id=1).on_duplicate_key_update('id', {n: 2}),
                  'INSERT INTO "t" ("id") VALUES (1) ON CONFLICT ("id") DO UPDATE ? = 2', PG),
    'pg_target': (lambda sp, n: sp.insert_into('t').values(id=1).on_duplicate_key_update(n, a=2),
                  'INSERT INTO "t" ("id") VALUES (1) ON CONFLICT (?) DO UPDATE "a" = 2', PG),
    'avg': (lambda sp, n: sp.select(sp.avg(n)), 'SELECT AVG(?)', ALL),
    'count': (lambda sp, n: sp.select(sp.count(n)), 'SELECT COUNT(?)', ALL),
    'count_distinct': (lambda sp, n: sp.select(sp.count_distinct(n)), 'SELECT COUNT(DISTINCT ?)', ALL),
    'count_list': (lambda sp, n: sp.select(sp.count_distinct(('a', n))), 'SELECT COUNT(DISTINCT "a", ?)', ALL),
    'max': (lambda sp, n: sp.select(sp.max(n)), 'SELECT MAX(?)', ALL),
    'min': (lambda sp, n: sp.select(sp.min_distinct(n)), 'SELECT MIN(DISTINCT ?)', ALL),
    'sum': (lambda sp, n: sp.select(sp.sum(n)), 'SELECT SUM(?)', ALL),
    'concat': (lambda sp, n: sp.select(sp.concat(n, 'b')), 'SELECT CONCAT(?, "b")', ALL),
    'group_concat': (lambda sp, n: sp.select(sp.group_concat('a', n)), 'SELECT GROUP_CONCAT("a", ?)', ALL),
    'group_concat_order': (lambda sp, n: sp.select(sp.group_concat('a').order_by((n, 'desc'))),
                           'SELECT GROUP_CONCAT("a" ORDER BY ? DESC)', ALL),
    'convert': (lambda sp, n: sp.select(sp.convert(n, 'unsigned')), 'SELECT CONVERT(?, UNSIGNED)', ALL),
    'select_R': (lambda sp, n: sp.select(sp.R(n)), 'SELECT ?', ALL),
    'order_R': (lambda sp, n: sp.select_from('t').order_by(sp.R(n)), 'SELECT * FROM "t" ORDER BY ?', ALL),
    'union': (lambda sp, n: sp.select(n).from_('t') & sp.select(n).from_('u'),
              'SELECT ? FROM "t" UNION ALL SELECT ? FROM "u"', ALL),
}
