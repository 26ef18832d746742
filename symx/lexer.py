"""
Reference lexers of the four dialects, written from the databases' manuals, independent
of the library.  They accept text with symbolic characters (forking where a decision
depends on one) as well as concrete text.

Token kinds: ('id', name) ('str', text) ('hex', digits) ('num', text) ('word', TEXT) ('op', text)
"""
from .core import E, PUA0, PUA1, NeedConcrete

QUOTE = {'sql': '"', 'mysql': '`', 'postgresql': '"', 'sqlite': '"'}
BACKSLASH = {'sql': True, 'mysql': True, 'postgresql': False, 'sqlite': False}
MYSQL_ESC = {'0': '\0', 'b': '\b', 'n': '\n', 'r': '\r', 't': '\t', 'Z': '\x1a'}
PG_ESC = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
OPS2 = ('!=', '<=', '>=', '<>')
OPS1 = '=<>(),.*+-/%'
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_'
DIGITS = '0123456789'
HEX = '0123456789abcdefABCDEF'


class LexError(Exception):
    pass


def issym(ch):
    return PUA0 <= ord(ch) <= PUA1


def is_(ch, c):
    """ch == c for a one-character constant c."""
    if not issym(ch):
        return ch == c
    return E.test_in(ch, ((ord(c), ord(c)),))


_SETS = {}


def among(ch, chars):
    if not issym(ch):
        return ch in chars
    iv = _SETS.get(chars)
    if iv is None:
        from .core import iv_chars
        iv = _SETS[chars] = iv_chars(chars)
    return E.test_in(ch, iv)


def token_kind(ch):
    if issym(ch):
        return E.entry(ch).kind
    return None


def lex(sql, dialect):
    """List of tokens; raises LexError on text that is not a well-formed token stream."""
    out = []
    i = 0
    n = len(sql)
    q = QUOTE[dialect]
    while i < n:
        ch = sql[i]
        kind = token_kind(ch)
        if kind == 'int' or kind == 'opq':
            # the rendering of a number/date outside any literal
            out.append(('num', ch))
            i += 1
            continue
        if is_(ch, ' '):
            i += 1
            continue
        if is_(ch, "'"):
            text, i = string(sql, i, BACKSLASH[dialect], MYSQL_ESC)
            out.append(('str', text))
            continue
        if is_(ch, q):
            text, i = ident(sql, i, q)
            out.append(('id', text))
            continue
        if issym(ch):
            u = E.unique(ch)
            if u is not None:
                sql = sql[:i] + u + sql[i + 1:]
                continue
        if not issym(ch) and ch in LETTERS or (issym(ch) and among(ch, LETTERS)):
            j = i
            while j < n and token_kind(sql[j]) in (None, 'char') and among(sql[j], LETTERS + DIGITS):
                if issym(sql[j]):
                    u = E.unique(sql[j])
                    if u is None:
                        raise LexError('data in the position of a keyword')
                    sql = sql[:j] + u + sql[j + 1:]
                j += 1
            word = sql[i:j]
            if j < n and j == i + 1 and is_(sql[j], "'") and not issym(ch):
                if word in ('E', 'e') and dialect == 'postgresql':
                    text, i = string(sql, j, True, PG_ESC)
                    out.append(('str', text))
                    continue
                if word in ('x', 'X') and dialect != 'postgresql':
                    i = j + 1
                    j = i
                    while j < n and not is_(sql[j], "'"):
                        if not among(sql[j], HEX):
                            raise LexError('hex literal')
                        j += 1
                    if j >= n:
                        raise LexError('unterminated hex literal')
                    if (j - i) % 2:
                        raise LexError('odd hex literal')
                    out.append(('hex', sql[i:j]))
                    i = j + 1
                    continue
            if any(issym(c) for c in word):
                raise LexError('data in the position of a keyword')
            out.append(('word', word.upper()))
            i = j
            continue
        if among(ch, DIGITS):
            j = i
            while j < n and token_kind(sql[j]) in (None, 'char') and among(sql[j], DIGITS + '.'):
                j += 1
            out.append(('num', sql[i:j]))
            i = j
            continue
        if issym(ch):
            raise LexError('data outside a literal or identifier')
        if ch == '-' and i + 1 < n and (sql[i + 1] in DIGITS):
            j = i + 1
            while j < n and sql[j] in DIGITS + '.':
                j += 1
            out.append(('num', sql[i:j]))
            i = j
            continue
        if sql[i:i + 2] in OPS2:
            out.append(('op', sql[i:i + 2]))
            i += 2
            continue
        if sql[i:i + 2] in ('--', '/*'):
            raise LexError('comment')
        if ch in OPS1:
            out.append(('op', ch))
            i += 1
            continue
        raise LexError('unexpected character %r' % ch)
    return out


def string(sql, i, backslash, escapes):
    n = len(sql)
    i += 1
    out = []
    while i < n:
        ch = sql[i]
        if token_kind(ch) in ('int', 'opq'):
            out.append(ch)
            i += 1
            continue
        if is_(ch, "'"):
            if i + 1 < n and token_kind(sql[i + 1]) in (None, 'char') and is_(sql[i + 1], "'"):
                out.append("'")
                i += 2
                continue
            return ''.join(out), i + 1
        if backslash and is_(ch, '\\'):
            if i + 1 >= n:
                break
            nx = sql[i + 1]
            if issym(nx):
                for k in escapes:
                    if is_(nx, k):
                        out.append(escapes[k])
                        break
                else:
                    if escapes is PG_ESC and among(nx, 'xuU01234567'):
                        raise LexError('numeric escape')
                    if escapes is MYSQL_ESC and among(nx, '%_'):
                        out.append('\\')
                    out.append(nx)
                i += 2
                continue
            if nx in escapes:
                out.append(escapes[nx])
            elif escapes is PG_ESC and nx in 'xuU01234567':
                raise LexError('numeric escape')
            elif escapes is MYSQL_ESC and nx in '%_':
                out.append('\\' + nx)
            else:
                out.append(nx)
            i += 2
            continue
        out.append(ch)
        i += 1
    raise LexError('unterminated string literal')


def ident(sql, i, q):
    n = len(sql)
    i += 1
    out = []
    while i < n:
        ch = sql[i]
        if token_kind(ch) in ('int', 'opq'):
            out.append(ch)
            i += 1
            continue
        if is_(ch, q):
            if i + 1 < n and token_kind(sql[i + 1]) in (None, 'char') and is_(sql[i + 1], q):
                out.append(q)
                i += 2
                continue
            if not out:
                raise LexError('empty identifier')
            return ''.join(out), i + 1
        out.append(ch)
        i += 1
    raise LexError('unterminated identifier')


def split_name(name, q):
    """
    Parts of a well-formed dotted name: each part is a non-empty run without dots and
    quote characters, or a quoted non-empty text (quote characters doubled inside).
    None when the name is not well-formed.  Returns [(quoted?, text)].
    """
    parts = []
    i = 0
    n = len(name)
    while True:
        if i < n and is_(name[i], q):
            try:
                text, i = ident(name, i, q)
            except LexError:
                return None
            parts.append((True, text))
        else:
            j = i
            while j < n and not is_(name[j], '.'):
                if is_(name[j], q):
                    return None
                j += 1
            if j == i:
                return None
            parts.append((False, name[i:j]))
            i = j
        if i == n:
            return parts
        if not is_(name[i], '.'):
            return None
        i += 1


def name_tokens(parts):
    out = []
    for quoted, text in parts:
        if out:
            out.append(('op', '.'))
        if not quoted and len(text) == 1 and is_(text, '*'):
            out.append(('op', '*'))
        else:
            out.append(('id', text))
    return out


def quoted_reference(value, q, strip):
    """
    Parts when the whole string is a quoted reference ("t" / "t"."c" / "d"."t".c): the first part
    quoted, the others quoted or a bare word without spaces; at most three parts.
    """
    value = strip(value)
    if not value or not is_(value[0], q):
        return None
    parts = split_name(value, q)
    if parts is None or len(parts) > 3:
        return None
    for quoted, text in parts:
        if not quoted:
            for ch in text:
                if is_(ch, ' '):
                    return None
    return parts
