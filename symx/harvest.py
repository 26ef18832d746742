"""
Sizes worth covering, read from the current source: every integer constant and the length of every
string constant of the library (an input-size threshold in the code shows up here).
"""
import ast
import os
import warnings

BASE = list(range(0, 25)) + [31, 32, 33, 40, 63, 64, 65, 70, 80, 100, 127, 128, 129, 255, 256, 257, 300]


def constants(root):
    ints, strings = set(), set()
    for dirpath, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '__')))
        for name in sorted(files):
            if not name.endswith('.py'):
                continue
            with open(os.path.join(dirpath, name), encoding='utf-8') as f:
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(f.read())
                except SyntaxError:
                    continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    if isinstance(node.value, bool):
                        continue
                    if isinstance(node.value, int):
                        ints.add(node.value)
                    elif isinstance(node.value, str):
                        strings.add(node.value)
    return ints, strings


WORDS = ['NULL', 'null', 'None', 'DEFAULT', 'TRUE', 'false', '1', '0', '-1', '1.5', 'NOW()', 'now()', 'CURRENT_TIMESTAMP', '*', '%', '%s', '%(a)s', '?',
         ':a', '{}', '{0}', '{a}', "''", "'a'", "\\'", '\\', '\\\\', '\\n', '--', '/*', ';', '@a', '$1', '(1)', '(SELECT 1)', 'SELECT 1', 'x\'00\'',
         "E'a'", '0x1F', ' a', 'a ', ' ', '\t', '\r\n', '\n', '\x00', '\x1a', '\x7f', '\u2028', '\u2019', '\u0131', '\ufb03', '\U0001f600', 'a.b', 'a.b.c.d',
         '"a"', '`a`', '"a".b', '`a`.`b`', '[a]', 'AS', 'a AS b', 'DESC', 'a desc', 'COUNT(*)', '.', '..', '.a', 'a.', '""', '``', '"a"b', 'a"b"', '`a"', '2012-05-25']


def strings(root, cap=40):
    """Texts worth trying: a fixed list and the string constants of the source."""
    _, found = constants(root)
    out = list(WORDS)
    for x in sorted(found):
        if 0 < len(x) <= cap and x not in out and not any(0xd800 <= ord(c) <= 0xdfff or 0xf0000 <= ord(c) for c in x):
            out.append(x)
    return out


def lengths(root, cap=1100):
    ints, _ = constants(root)
    out = set(BASE)
    for n in ints:
        for k in (n - 1, n, n + 1):
            if 0 <= k <= cap:
                out.add(k)
    return sorted(out)


def counts(root, base, cap):
    """Numbers of items (columns, rows, conditions, ...) to try."""
    ints, _ = constants(root)
    out = set(base)
    for n in ints:
        for k in (n, n + 1):
            if 0 < k <= cap:
                out.add(k)
    return sorted(out)


def parameters(root):
    """Names of all parameters of all functions, with the names of attributes: arguments passed by name may collide with them."""
    out = set()
    for dirpath, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '__')))
        for name in sorted(files):
            if not name.endswith('.py'):
                continue
            with open(os.path.join(dirpath, name), encoding='utf-8') as f:
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(f.read())
                except SyntaxError:
                    continue
            for node in ast.walk(tree):
                if isinstance(node, ast.arg):
                    out.add(node.arg)
    return sorted(out)
