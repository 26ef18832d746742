"""
Shared vocabulary of the harnesses: expected SQL is written as token streams, independent of
how the library builds text.
"""
import binascii
import datetime
import decimal
import types

from symx.lexer import lex, LexError, split_name, name_tokens, quoted_reference, QUOTE
from symx import lexer, harvest
from symx.driver import REPO

SRC = REPO + '/sqlpuzzle'
BACKENDS = ('sql', 'mysql', 'postgresql', 'sqlite')


def strip(s):
    return s.strip()


def words(text):
    """Tokens of a fixed piece of SQL (names in double quotes)."""
    return lex(text, 'sql')


def lit(v):
    return [('str', v)]


def num(v):
    return [('num', str(v))]


def name(text):
    """Tokens of a plain dotted name without quoting."""
    out = []
    for part in text.split('.'):
        if out:
            out.append(('op', '.'))
        out.append(('op', '*') if part == '*' else ('id', part))
    return out


def string_value(v, dialect):
    """Tokens a string used as a value must become."""
    parts = quoted_reference(v, QUOTE[dialect], strip)
    if parts is not None:
        return name_tokens(parts)
    return [('str', v)]


def value(v, dialect):
    """Tokens of a Python value of any supported type."""
    if v is None:
        return [('word', 'NULL')]
    if isinstance(v, bool):
        if dialect == 'postgresql':
            return [('word', 'TRUE' if v else 'FALSE')]
        return [('num', '1' if v else '0')]
    if isinstance(v, str):
        return string_value(v, dialect)
    if isinstance(v, int):
        return [('num', str(v))]
    if isinstance(v, (float, decimal.Decimal)):
        return [('num', '{:.5f}'.format(v))]
    if isinstance(v, bytes):
        digits = binascii.hexlify(v).decode('ascii')
        if dialect == 'postgresql':
            return [('str', '\\x' + digits)]
        return [('hex', digits)]
    if isinstance(v, (datetime.date, datetime.datetime)):
        return [('str', v.isoformat())]
    if isinstance(v, (list, tuple, range)):
        return [('op', '(')] + comma([value(x, dialect) for x in v]) + [('op', ')')]
    raise RuntimeError('no oracle for %r' % type(v))


def expect(template, *args):
    """Tokens of template, each ? replaced by the next argument (a token list)."""
    out = []
    args = list(args)
    pieces = template.split('?')
    for i, piece in enumerate(pieces):
        out.extend(words(piece))
        if i < len(pieces) - 1:
            out.extend(args.pop(0))
    if args:
        raise RuntimeError('unused arguments')
    return out


def fill(template, tokens):
    """Every ? of the template replaced by the same tokens."""
    out = []
    pieces = template.split('?')
    for i, piece in enumerate(pieces):
        if i:
            out.extend(tokens)
        out.extend(words(piece))
    return out


def tokens(sql, dialect):
    """Tokens of rendered SQL; a text that does not lex is a failure of the property."""
    try:
        return lex(sql, dialect)
    except LexError as exc:
        return [('bad', str(exc))]


def no_set(toks):
    """PostgreSQL's upsert with or without the keyword SET (whether it has to be there: C19)."""
    out = []
    for t in toks:
        if t == ('word', 'SET') and len(out) >= 2 and out[-2:] == [('word', 'DO'), ('word', 'UPDATE')]:
            continue
        out.append(t)
    return out


def render(ctx, query):
    return ctx.observe(str(query))


def show(toks):
    return ' '.join('%s' % (t[1] if t[0] != 'str' else repr(t[1]),) for t in toks)


def same(ctx, query, dialect, expected, what):
    """The rendered text consists of exactly the expected tokens."""
    sql = render(ctx, query)
    got = no_set(tokens(sql, dialect))
    ctx.check(got == expected, what)
    return sql


def comma(lists):
    out = []
    for i, x in enumerate(lists):
        if i:
            out.append(('op', ','))
        out.extend(x)
    return out


def joined(lists, word):
    out = []
    for i, x in enumerate(lists):
        if i:
            out.append(('word', word))
        out.extend(x)
    return out


def raises(ctx, fn, *classes):
    """fn() has to be refused with one of the exceptions."""
    try:
        fn()
    except classes:
        return True
    return False


def peek_on(sp):
    """From now on, every method that builds a statement or its part is followed by rendering."""
    patched = []
    objects = (sp.select('a'), sp.insert(), sp.update('a'), sp.delete(), sp.Q(), sp.count('a'), sp.avg('a'), sp.group_concat('a'),
               sp.convert('a', 'b'))
    for obj in objects:
        cls = type(obj)
        for attr in dir(cls):
            orig = getattr(cls, attr)
            if attr[0] == '_' or attr in ('tosql', 'copy', 'has') or not isinstance(orig, types.FunctionType):
                continue
            patched.append((cls, attr, attr in vars(cls), orig))
            setattr(cls, attr, peeked(orig))
    return patched


def peek_off(patched):
    for cls, attr, own, orig in reversed(patched):
        if own:
            setattr(cls, attr, orig)
        else:
            delattr(cls, attr)


def peeked(orig):
    def method(self, *args, **kwds):
        res = orig(self, *args, **kwds)
        try:
            str(self)
        except Exception:
            pass
        return res
    return method
