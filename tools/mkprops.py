"""Writes properties.jsonl and MANIFEST.json (committed; run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=('str(query)', 'query.tosql()')):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': ['sqlpuzzle/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'sqlpuzzle/' + w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'A string used as a value always reaches the database as exactly that string',
     'Wherever a string is accepted as a value (conditions, assignments, inserted rows, lists, relations, separators, file names, explicit values), '
     'the rendered statement contains one string literal which the configured database reads back as exactly that string, so no content of the string '
     'can end the literal or add SQL. The only exception is a value which as a whole (apart from surrounding whitespace) is a reference in the '
     'identifier quotes of that database, which is rendered as that reference.',
     ['inputs', 'configurations'], 'all strings, all places that take a value, all four databases',
     'Tests render a handful of fixed strings; injection needs one particular combination of quotes, backslashes, newlines or length at one place in one dialect.',
     ['_common/sqlvalue.py', '_backends/sql.py', '_backends/postgresql.py', '_backends/sqlite.py', '_queryparts/conditions.py', '_queryparts/values.py'],
     [('escaping of string literals', '_common/sqlvalue.py:_escape_value'), ('string or reference', '_common/sqlvalue.py:SqlValue._string'),
      ('recognition of quoted references', '_backends/sql.py:SqlBackend.is_reference')])
prop('C02', 'A name of a table, column or alias stays inside its quoted identifiers',
     'Every name passed as table, column, alias or reference is rendered only as identifiers in the quotes of the configured database, joined by dots, '
     'which the database reads back as exactly the parts of the name (parts may be quoted in the argument, then dots and doubled quotes belong to the part; '
     'an unquoted asterisk stays an asterisk). No content of the name can end the identifier or add SQL.',
     ['inputs', 'configurations'], 'all non-empty names, all places that take a name, all four databases',
     'Tests use ordinary names; the quoting must hold for every character, position and combination of parts.',
     ['_backends/sql.py', '_common/sqlvalue.py', '_queryparts/columns.py', '_queryparts/tables.py', '_queryparts/order.py', '_queryparts/functions.py'],
     [('quoting of references', '_backends/sql.py:SqlBackend.reference'), ('references by default', '_common/sqlvalue.py:SqlReference')])
prop('C03', 'Numbers, booleans, bytes, dates and NULL are rendered faithfully',
     'Integers are rendered with all their digits and sign, floats and decimals rounded to five decimal places, booleans, bytes and None as the '
     'literal of the configured database for exactly that value, dates and datetimes as quoted ISO text including microseconds and offset. '
     'Lists, tuples and ranges are rendered as bracketed lists of their items in their order, in every place which takes such value. An instance of a subclass of these types (or of str) which redefines nothing is rendered like the value of the base type.',
     ['inputs', 'configurations'], 'all integers, booleans, byte strings, None; floats, decimals and dates by type; nested in lists; all databases',
     'Tests check one or two numbers of each type; a type mixed up with another one (bool and int, date and datetime) or a boundary value is not among them.',
     ['_common/sqlvalue.py', '_backends/sql.py', '_backends/postgresql.py'],
     [('choice of the conversion by type', '_common/sqlvalue.py:SqlValue._get_convert_method'), ('booleans and bytes per database', '_backends/postgresql.py')])
prop('C04', 'UPDATE and DELETE without condition are refused unless explicitly allowed',
     'An UPDATE or DELETE statement renders without a WHERE clause only if the last of the calls that allow or forbid changing all rows allowed it; '
     'otherwise every way of rendering raises the confirmation exception. With at least one condition it always renders, and the rendered statement '
     'contains the WHERE clause.',
     ['histories', 'inputs', 'configurations'], 'all histories of calls of an UPDATE or DELETE, whatever the conditions contain',
     'Tests check the empty statement; the guard has to hold after any sequence of conditions, joins, options, copies and empty arguments.',
     ['_queries/update.py', '_queries/delete.py', '_queryparts/conditions.py', '_queryparts/queryparts.py'],
     [('guard', '_queries/update.py:Update.__str__'), ('guard', '_queries/delete.py:Delete.__str__'), ('is there a condition', '_queryparts/queryparts.py:QueryParts.is_set')])
prop('C05', 'No condition is lost, altered or moved to another clause',
     'Every condition added to WHERE, HAVING or a join is rendered in that clause with its column, relation and value, in the order of the calls '
     'and joined by AND, whatever other conditions the statement has. Only a condition rendered identically to an earlier one of the same clause '
     '(for joins also with its two columns swapped together with the relation) may be left out.',
     ['inputs', 'histories'], 'all sequences of conditions of every kind in every clause',
     'Tests add a few fixed conditions; a condition swallowed as duplicate of another one needs two particular values, types or relations.',
     ['_queryparts/conditions.py', '_queryparts/queryparts.py', '_queryparts/tables.py', '_queryparts/having.py', 'relations.py', '_common/utils.py'],
     [('merging of duplicates', '_queryparts/queryparts.py:QueryParts.append_unique_part'), ('equality of conditions', '_queryparts/conditions.py:Condition.__eq__'),
      ('equality of join conditions', '_queryparts/tables.py:OnCondition.__eq__')])
prop('C06', 'Combined conditions keep their boolean meaning',
     'For every expression built of conditions by and, or and negation, the rendered condition is, read with the precedence of SQL, equivalent '
     'to that expression, also when it is combined with further conditions of the clause. No condition of the expression is dropped or changed.',
     ['inputs'], 'all expressions over any number of operands, each with any number of conditions, and all truth values of the conditions',
     'Tests check few expressions of two or three operands by text.',
     ['_queryparts/conditions.py', '_queryparts/where.py'],
     [('brackets', '_queryparts/conditions.py:ConditionsOfConditions.__str__'), ('negation', '_queryparts/conditions.py:Not')])
prop('C07', 'Lists in conditions treat NULL as a member and are never empty',
     'A condition with a list (by default, IN or NOT IN) matches exactly the items of the list including None: rows with NULL match IN of a list with None, '
     'and NOT IN of a list never uses NULL inside of the SQL list, but the explicit check for (not) NULL. All other items are in the SQL list in their order, '
     'and an empty list is refused instead of rendered.',
     ['inputs'], 'all lists, tuples, ranges and generators of any length with None anywhere',
     'Tests check lists with one None at one place.',
     ['relations.py', '_common/sqlvalue.py', '_queryparts/conditions.py'],
     [('split to NULL and the rest', 'relations.py:IN'), ('empty list', '_common/sqlvalue.py:SqlValue._list')])
prop('C08', 'Every inserted value lands in its column and row',
     'INSERT names every column used by any row exactly once, has one row of values per call in the order of the calls, and in each row the value at '
     'the position of a column is the value given for that column, or NULL when the row does not have it. This holds for any number of rows with any columns given in any style.',
     ['inputs', 'histories'], 'all sequences of rows with any sets of columns and values',
     'Tests check two or three rows; misalignment needs particular sets, orders or values (NULL, false, repeated).',
     ['_queryparts/values.py', '_queries/insert.py', '_common/argsparser.py'],
     [('union of columns', '_queryparts/values.py:MultipleValues.all_columns'), ('values by columns', '_queryparts/values.py:Values.values')])
prop('C09', 'Every assignment of UPDATE and of an upsert is kept',
     'Each assignment given to an UPDATE or to an upsert is rendered with its column and value, in the order of the calls, exactly once; '
     'only an assignment identical to an earlier one may be left out. No other assignment appears.',
     ['inputs', 'histories'], 'all sequences of assignments in every argument style',
     'Tests check one to three assignments of fixed values.',
     ['_queryparts/values.py', '_queryparts/onduplicatekeyupdate.py', '_queryparts/onconflictdoupdate.py', '_queries/update.py'],
     [('assignments', '_queryparts/values.py:Values.set')])
prop('C10', 'All argument styles mean the same and no argument is ignored',
     'Positional arguments, pairs, lists of pairs, dictionaries, named arguments and separate calls with the same names and values give the same statement, '
     'and a call which mixes them uses all of them. The insertion order of plain dictionaries and named arguments does not matter, the order of ordered dictionaries is kept.',
     ['inputs'], 'all names and values, all methods which take pairs, all orders of keys',
     'Tests check single styles on fixed names.',
     ['_common/argsparser.py', '_queryparts/columns.py', '_queryparts/tables.py', '_queryparts/order.py', '_queryparts/values.py', '_queryparts/conditions.py'],
     [('parsing of arguments', '_common/argsparser.py:Parser')])
prop('C11', 'Joins keep their table, type, conditions and place',
     'Each join is rendered after the table it was called on, in the order of the calls, with its type, table, alias and exactly the conditions given after it. '
     'Only joins of the same table and alias with the same conditions are merged, at the place of the first one: into one of the same type, or into an inner join if one of them is inner.',
     ['inputs', 'histories'], 'all sequences of tables, joins of every type and join conditions in SELECT, UPDATE and DELETE',
     'Tests check pairs of joins of fixed tables.',
     ['_queryparts/tables.py'], [('merging of joins', '_queryparts/tables.py:Table._minimize_joins'), ('conditions of the last join', '_queryparts/tables.py:Table.on')])
prop('C12', 'ORDER BY and GROUP BY keep their items, order and directions',
     'Every column or position passed to ORDER BY, GROUP BY or the order of a concatenation appears exactly once, in the order of its first use, with the direction of its last use '
     '(ascending if none was given). Directions are recognised in any letter case, and the clauses do not influence each other.',
     ['inputs', 'histories'], 'all sequences of columns and positions with directions in every argument style',
     'Tests check two fixed columns.',
     ['_queryparts/order.py', '_queryparts/orderby.py', '_queryparts/groupby.py'], [('one item per column', '_queryparts/order.py:Orders.order')])
prop('C13', 'LIMIT and OFFSET reflect the last calls',
     'The rendered LIMIT and OFFSET are the numbers of the last calls that set them: a limit without offset keeps the earlier offset, a limit of None removes both, an offset of None or 0 removes the offset. '
     'Numbers, including a limit of 0, are rendered exactly.',
     ['inputs', 'histories'], 'all sequences of calls with all non-negative integers and None',
     'Tests check short fixed sequences.',
     ['_queryparts/limit.py', '_queries/select.py'], [('state of limit and offset', '_queryparts/limit.py:Limit')])
prop('C14', 'Options of statements are rendered exactly when switched on',
     'Each option of SELECT, INSERT, UPDATE and DELETE appears once when its last call switched it on and not at all otherwise, independently of other options; '
     'of mutually exclusive options (all, distinct, distinctrow; cache, no cache) only the last one switched on appears.',
     ['histories', 'inputs'], 'all sequences of switching options on and off, by any truth value',
     'Tests switch on single options.',
     ['_queries/options.py', '_queries/selectoptions.py', '_queries/insert.py', '_queries/update.py', '_queries/delete.py'],
     [('options', '_queries/options.py:Options.__str__'), ('switches', '_queries/selectoptions.py:SelectOptions')])
prop('C15', 'Clauses come once, in the order of SQL, and has() tells the truth',
     'Whatever the order of the calls that build a statement, the rendered text has exactly the clauses which were set, each once and in the order required by SQL. '
     'Asking whether a clause is set, and whether it contains a given word, agrees with the rendered clause.',
     ['histories', 'inputs'], 'all orders of calls and subsets of clauses; all words',
     'Tests call the methods in the usual order.',
     ['_queries/query.py', '_queries/select.py', '_queries/insert.py', '_queries/update.py', '_queries/delete.py', '_queryparts/queryparts.py'],
     [('templates', '_queries/query.py:Query.__str__'), ('search', '_queryparts/queryparts.py:has')], ('str(query)', 'query.has()'))
prop('C16', 'Rendering and inspecting a statement never changes anything',
     'Rendering, printing, comparing, hashing, searching, copying or nesting a statement, any number of times and at any moment, changes neither what it renders then or later nor how it can be built further. '
     'Arguments passed to any method (lists, dictionaries, conditions, statements) are not modified, and values given as generators render the same every time.',
     ['histories', 'inputs'], 'all statements and all moments of inspection while they are built',
     'Tests render each statement once at its end.',
     ['_queries/query.py', '_queryparts/tables.py', '_queryparts/conditions.py', '_common/sqlvalue.py', 'relations.py'],
     [('joins are minimized only for output', '_queryparts/tables.py:Table._minimize_joins'), ('generators are kept as lists', '_common/sqlvalue.py:SqlValue.__init__')])
prop('C17', 'Copies and separate statements are independent',
     'A copy renders the same as the original, and later changes of either (or of objects the original was built from) do not show in the other. '
     'Statements built separately, even alternately or from shared conditions and values, do not influence each other, and a new statement always starts empty.',
     ['histories', 'inputs'], 'all pairs of building steps before and after copying, on every kind of statement, condition and function',
     'Tests copy one or two statements.',
     ['_common/object.py', '_queries/query.py', '_queryparts/queryparts.py', '_queries/options.py'],
     [('deep copy', '_common/object.py:Object.copy'), ('parts created per instance', '_queries/query.py:Query.__init__')])
prop('C18', 'Equality of statements agrees with what they render',
     'Two statements (or conditions) which compare equal render the same text, and two statements built by the same calls with equal values compare equal. '
     'Statements which differ in any clause, name, value, value type that renders differently, relation, direction or option compare unequal; comparison is symmetric.',
     ['inputs', 'histories'], 'all pairs of statements which differ in one step or in the values of a step',
     'Tests compare few fixed pairs.',
     ['_queries/query.py', '_queryparts/queryparts.py', '_queryparts/conditions.py', '_queryparts/values.py', '_queryparts/tables.py', '_queryparts/limit.py',
      '_queryparts/intooutfile.py', '_queries/options.py', '_queries/union.py', '_common/utils.py'],
     [('equality of parts', '_queries/query.py:Query.__eq__'), ('same for the database', '_common/utils.py:is_same')], ('==', '!=', 'str(query)'))
prop('C19', 'Each database gets its own dialect, decided when the text is rendered',
     'Identifier quotes, boolean and byte literals and string escapes are those of the database configured at the moment of rendering, and apart from them the statement is the same in all databases. '
     'A full join is accepted only for PostgreSQL; an upsert is ON DUPLICATE KEY UPDATE in MySQL, ON CONFLICT (column) DO UPDATE in PostgreSQL and REPLACE in SQLite, where assignments are refused. '
     'Databases are recognised in any letter case, and an unknown one is refused without changing the configuration.',
     ['configurations', 'histories', 'inputs'], 'all four databases, all switches between them, all statements',
     'Tests run most statements under one database.',
     ['_backends/__init__.py', '_backends/sql.py', '_backends/mysql.py', '_backends/postgresql.py', '_backends/sqlite.py', '_queries/insert.py', '_queryparts/tables.py'],
     [('current database', '_backends/__init__.py:get_backend'), ('upsert', '_queries/insert.py:Insert.on_duplicate_key_update'), ('full join', '_queryparts/tables.py:Tables.full_join')],
     ('str(query)', 'configure()'))
prop('C20', 'Functions keep all their arguments, DISTINCT, order, separator and type',
     'AVG, COUNT, MAX, MIN, SUM, CONCAT, GROUP_CONCAT and CONVERT are rendered with all their arguments in the given order (repeated ones too), with DISTINCT exactly when it was switched on last, '
     'and with the given order, separator (even an empty one) and type. This holds wherever a function can be used: as column, with alias, in conditions, sorting, assignments or inside another function.',
     ['inputs', 'histories'], 'all arguments and all sequences of the calls which configure a function',
     'Tests check few fixed arguments.',
     ['_queryparts/functions.py', '__init__.py'], [('arguments', '_queryparts/functions.py:Function._get_expr_as_string'), ('concatenation', '_queryparts/functions.py:GroupConcat')])
prop('C21', 'Sub-selects are always bracketed and unions keep operands and operators',
     'A SELECT or union used inside another statement, wherever it is accepted, is rendered in brackets and exactly as it renders alone. '
     'A union lists its operands in order with their operators, and read from left to right with its brackets it means the expression it was built from; an operand with its own ORDER BY or LIMIT is bracketed.',
     ['inputs', 'programs'], 'all nestings of statements and all unions of any number of operands and operators',
     'Tests check one level of nesting and two or three operands.',
     ['_queries/union.py', '_queries/select.py', '_common/sqlvalue.py', '_queryparts/where.py', '_queryparts/tables.py'],
     [('brackets of sub-selects', '_common/sqlvalue.py:SqlValue._subselect'), ('brackets in unions', '_queries/union.py:Union._format_query')])
prop('C22', 'Unsupported arguments are refused, not rendered',
     'An argument of an unsupported type (as column, table, alias, condition, value, relation value, list item, order, direction, limit, offset or file name), a pair with too few or too many items, '
     'or a call which makes no sense at that moment raises an exception of the library instead of being rendered or ignored. The statement stays as it was before the refused call.',
     ['inputs', 'histories'], 'all methods against values of all unsupported kinds',
     'Tests check few types at few places.',
     ['_common/utils.py', '_common/argsparser.py', '_common/sqlvalue.py', 'relations.py', '_queryparts/order.py', '_queryparts/limit.py'],
     [('types of arguments', '_common/utils.py:check_type_decorator'), ('counts of items', '_common/argsparser.py:Parser._create_batch'),
      ('types of values', '_common/sqlvalue.py:SqlValue._undefined')], ('exceptions',))
prop('C23', 'Custom SQL, explicit values and explicit references stay what they are',
     'Custom SQL is rendered exactly as it was given, once, in the place where it was passed; an explicit value is rendered as a literal of that value and an explicit reference as an '
     'identifier, whatever the place would do with a plain argument. The rest of the statement does not depend on them, and a plain name, custom SQL, a value and a reference of the '
     'same text are different things which are never merged with each other.',
     ['inputs', 'configurations'], 'all texts of custom SQL, all explicit values and references, all places that take them, all databases',
     'Tests pass a few fixed snippets to a few methods; escaping, formatting (percent signs, braces) or merging of look-alikes needs a particular text at a particular place.',
     ['_common/customsql.py', '_common/sqlvalue.py', '_common/utils.py', '_common/object.py', '_queryparts/queryparts.py', '_queryparts/conditions.py'],
     [('objects which are SQL already', '_common/sqlvalue.py:SqlValue._raw'), ('custom SQL as a whole clause', '_queryparts/queryparts.py:append_custom_sql_decorator'),
      ('are two arguments the same', '_common/utils.py:is_same')])

prop('C24', 'A statement has exactly the columns and tables it was given',
     'Every column passed to SELECT and every table passed to SELECT, UPDATE, DELETE or INSERT, at creation or by later calls in any argument style, is listed with its own alias, in the order of '
     'first use. Only a column or table repeated with the same alias is listed once; those which differ in name, alias or kind are all listed, and nothing else is. SELECT without columns selects *.',
     ['inputs', 'histories'], 'all sequences of calls with all names and aliases',
     'Tests list two or three fixed columns; losing one needs particular names, aliases or call orders.',
     ['_queryparts/columns.py', '_queryparts/tables.py', '_queries/select.py', '_queries/delete.py', '_queries/update.py', '_queries/insert.py'],
     [('list of columns', '_queryparts/columns.py:Columns.columns'), ('list of tables', '_queryparts/tables.py:Tables.set')])
prop('C25', 'INTO OUTFILE keeps the file and the separators of the last calls',
     'A SELECT exports exactly when a file was given: the clause has the name of the last such call, and the texts terminating fields, terminating lines and enclosing values exactly when '
     'they were set (even to an empty text), each with the text of its last call, whatever the order of the calls. Without a file nothing of it is rendered.',
     ['inputs', 'histories'], 'all texts and all sequences of the four calls',
     'Tests set each text once, always after the file and never to an empty text.',
     ['_queryparts/intooutfile.py', '_queries/select.py'],
     [('state of the export', '_queryparts/intooutfile.py:IntoOutfile')])
prop('C26', 'Chaining never matters and every way of rendering gives the same text',
     'Every method which builds a statement, a condition or a function returns the object it was called on, so that chaining the calls or making them one by one gives the same. str(), tosql(), '
     'formatting and repeated rendering give one and the same text, and repr() shows that text.',
     ['inputs', 'histories'], 'all statements, conditions and functions, all building methods with all arguments',
     'Tests chain a few methods with ordinary arguments; an early return or a special case of one method needs particular arguments.',
     ['_common/object.py', '_queries/query.py', '_queries/select.py', '_queries/update.py', '_queries/delete.py', '_queries/insert.py', '_queryparts/functions.py', '_queryparts/conditions.py'],
     [('ways of rendering', '_common/object.py:Object'), ('building methods', '_queries/select.py:Select')], ('str(query)', 'query.tosql()', 'repr(query)'))

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')

import sys
sys.path.insert(0, V)
NOTE = ('Every path of the listed functions of /repo over the stated symbolic inputs is executed from the current source; branches and the '
        'assertion are decided by z3 for all values within the bounds; every completed path is validated against the unmodified code, counterexamples are replayed on it. '
        'Trusted: the rewriting engine (validated per path), z3, the reference lexers of the four dialects. Bounds are listed in the evidence.')
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                 'technique': 'bounded symbolic execution of the real source, decided by z3', 'level': 'model_checking', 'level_note': NOTE} for p in P],
     'not_applicable': []}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
