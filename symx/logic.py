"""
Boolean reading of a condition in SQL (NOT > AND > OR, brackets) and equivalence by z3.
Formulas: ('and'|'or', [..]), ('not', f), ('atom', key).
"""
import z3

from .lexer import issym


class ParseError(Exception):
    pass


def parse(toks, key):
    """Formula of a token list; key(tokens of an atom) -> hashable."""
    f, i = _or(toks, 0, key)
    if i != len(toks):
        raise ParseError('trailing tokens')
    return f


def _is(toks, i, kind, text):
    return i < len(toks) and toks[i][0] == kind and toks[i][1] == text


def _or(toks, i, key):
    f, i = _and(toks, i, key)
    out = [f]
    while _is(toks, i, 'word', 'OR'):
        f, i = _and(toks, i + 1, key)
        out.append(f)
    return (out[0] if len(out) == 1 else ('or', out)), i


def _and(toks, i, key):
    f, i = _unary(toks, i, key)
    out = [f]
    while _is(toks, i, 'word', 'AND'):
        f, i = _unary(toks, i + 1, key)
        out.append(f)
    return (out[0] if len(out) == 1 else ('and', out)), i


def _unary(toks, i, key):
    if _is(toks, i, 'word', 'NOT'):
        f, i = _unary(toks, i + 1, key)
        return ('not', f), i
    if _is(toks, i, 'op', '('):
        f, j = _or(toks, i + 1, key)
        if not _is(toks, j, 'op', ')'):
            raise ParseError('unbalanced bracket')
        return f, j + 1
    j = i
    depth = 0
    while j < len(toks):
        t = toks[j]
        if t[0] == 'op' and t[1] == '(':
            depth += 1
        elif t[0] == 'op' and t[1] == ')':
            if not depth:
                break
            depth -= 1
        elif depth == 0 and t[0] == 'word' and t[1] in ('AND', 'OR'):
            break
        j += 1
    if j == i:
        raise ParseError('missing condition')
    return ('atom', key(toks[i:j])), j


def term(f, names):
    if f[0] == 'atom':
        return names.setdefault(f[1], z3.Bool('a%d' % len(names)))
    if f[0] == 'not':
        return z3.Not(term(f[1], names))
    parts = [term(x, names) for x in f[1]]
    if f[0] == 'and':
        return z3.And(*parts)
    return z3.Or(*parts)


STATS = {'queries': 0}


def atoms(f, out=None):
    out = set() if out is None else out
    if f[0] == 'atom':
        out.add(f[1])
    elif f[0] == 'not':
        atoms(f[1], out)
    else:
        for x in f[1]:
            atoms(x, out)
    return out


def equivalent(f, g):
    """For every truth assignment of the atoms f and g agree, and they mention the same atoms."""
    if atoms(f) != atoms(g):
        return False
    names = {}
    s = z3.Solver()
    a, b = term(f, names), term(g, names)
    s.add(a != b)
    STATS['queries'] += 1
    return s.check() == z3.unsat


def column_key(toks):
    """Atom key: the column in front and the relation, whatever the value is."""
    out = []
    for kind, text in toks:
        if kind in ('str', 'num', 'hex'):
            break
        if issym(text[0]):
            return ('?',)
        out.append(text)
    return tuple(out)


def where_of(toks, start='WHERE', stop=('GROUP', 'HAVING', 'ORDER', 'LIMIT', 'SET')):
    """Tokens between the first top-level start keyword and the next clause."""
    depth = 0
    out = None
    for t in toks:
        if t == ('op', '('):
            depth += 1
        elif t == ('op', ')'):
            depth -= 1
        if out is None:
            if depth == 0 and t == ('word', start):
                out = []
            continue
        if depth == 0 and t[0] == 'word' and t[1] in stop:
            break
        out.append(t)
    return out


def split(toks, word):
    """Pieces of a token list at top-level occurrences of the keyword (or comma)."""
    out = [[]]
    depth = 0
    for t in toks:
        if t == ('op', '('):
            depth += 1
        elif t == ('op', ')'):
            depth -= 1
        if depth == 0 and t == word:
            out.append([])
        else:
            out[-1].append(t)
    return out
