"""
Self-test of the engine (not a property of the library): the rewritten operations must
agree with CPython.  Every path is validated against the native run; mismatches must be 0.
"""
import collections
import functools
import itertools
import operator
import re

OPS = [
    lambda s, t: s.replace("'", "''"), lambda s, t: s.replace('ab', 'x'), lambda s, t: s.replace('', '-'),
    lambda s, t: s.replace('a', '', 1), lambda s, t: s.split('.'), lambda s, t: s.split(), lambda s, t: s.split(None, 1),
    lambda s, t: s.rsplit('.', 1), lambda s, t: s.split('.', 1), lambda s, t: s.partition('.'),
    lambda s, t: s.rpartition('.'), lambda s, t: s.strip(), lambda s, t: s.lstrip('."'), lambda s, t: s.rstrip(),
    lambda s, t: s.strip('ab'), lambda s, t: s.startswith('"'), lambda s, t: s.startswith(('a', '"b')),
    lambda s, t: s.endswith('"'), lambda s, t: s.find('b'), lambda s, t: s.rfind('b'), lambda s, t: s.count('a'),
    lambda s, t: s.upper(), lambda s, t: s.lower(), lambda s, t: s.isdigit(), lambda s, t: s.isalnum(),
    lambda s, t: s.isspace(), lambda s, t: s.isidentifier(), lambda s, t: s.splitlines(), lambda s, t: s.isprintable(),
    lambda s, t: s.translate({ord('a'): 'xx', ord('"'): None}), lambda s, t: repr(s), lambda s, t: '%r' % s,
    lambda s, t: '{!r}|{:>5}|{}'.format(s, s, t), lambda s, t: f'{s!r}{t:<4}{s}', lambda s, t: s % () if '%' not in s else '',
    lambda s, t: s == t, lambda s, t: s < t, lambda s, t: s in t, lambda s, t: t in ('a', 'ab', s),
    lambda s, t: sorted([s, t, 'b', '']), lambda s, t: max(s, t, 'ab'), lambda s, t: min([s, t]),
    lambda s, t: sorted([(s, 1), (t, 0)]), lambda s, t: len({s, t, 'a'}), lambda s, t: {s: 1, t: 2},
    lambda s, t: {'a': 1, s: 2}.get(t, 0), lambda s, t: dict([(s, 1), (t, 2)]) == {t: 2}, lambda s, t: [s, t].index(t),
    lambda s, t: [s, 'a', t].count('a'), lambda s, t: list(collections.OrderedDict([(s, 0), (t, 1)])),
    lambda s, t: sorted(set([s, t, 'b'])), lambda s, t: s[::-1], lambda s, t: s[1:] + t[:1], lambda s, t: s * 2,
    lambda s, t: re.sub(r"['\\]", lambda m: '\\' + m.group(), s), lambda s, t: re.sub(r'(a)(b?)', r'<\2\1>', s),
    lambda s, t: re.split(r'"([^"]+)"|\.', s), lambda s, t: re.split('a*', s), lambda s, t: re.findall(r'\w+', s),
    lambda s, t: bool(re.match(r'^"([^"]|"")+"(\.("([^"]|"")+"|[^". ]+)){0,2}$', s)),
    lambda s, t: [m.span() for m in re.finditer(r'[^a]|a$', s)], lambda s, t: re.escape(s),
    lambda s, t: bool(re.search(re.escape(s), t)), lambda s, t: bool(re.fullmatch('(a|"|ab)*', s)),
    lambda s, t: bool(re.search(r'\bA', s, re.I)), lambda s, t: bool(re.match(r'(?=a)..(?<!b)', s, re.S)),
    lambda s, t: re.sub('x*', '-', s), lambda s, t: re.sub(r'\s', '', s, count=1),
    lambda s, t: ', '.join(c for c in s if c != 'a'), lambda s, t: list(map(str.upper, s)),
    lambda s, t: [ord(c) for c in s], lambda s, t: functools.reduce(lambda a, b: b + a, s, ''),
    lambda s, t: [k for k, g in itertools.groupby(s)], lambda s, t: s.casefold() == t.casefold(),
    lambda s, t: 'a' <= s < 'b', lambda s, t: s != t and not s == 'ab', lambda s, t: (s, t) == (t, s),
    lambda s, t: operator.eq(s, t), lambda s, t: s.removeprefix('a'), lambda s, t: s.removesuffix('b'),
    lambda s, t: '%s-%d-%5s' % (s, 3, t), lambda s, t: s.zfill(4), lambda s, t: s.center(5, '*'),
    lambda s, t: bool({s} & {t}), lambda s, t: sorted({s} - {t}), lambda s, t: s.capitalize(),
    lambda s, t: ''.join(sorted(s)), lambda s, t: list(dict.fromkeys([s, t, s])), lambda s, t: s.expandtabs(3),
    lambda s, t: hash(s) == hash(t), lambda s, t: collections.Counter([s, t])[s], lambda s, t: s.title(),
    lambda s, t: s.join(['x', t, 'y']), lambda s, t: {**{s: 1}, **{t: 2}}, lambda s, t: [c.isupper() for c in s],
    lambda s, t: (s or 'z', t and 'q'), lambda s, t: s.encode('utf-8').hex(), lambda s, t: s.format(1) if '{' not in s and '}' not in s else '',
    lambda s, t: (s + '%d') % 3 if '%' not in s else 0, lambda s, t: all(c in 'ab' for c in s),
]


def tasks(prop, tier):
    return [(prop, 'h_op', {'i': i}, 30) for i in range(len(OPS))] + \
        [(prop, 'h_int', {}, 30), (prop, 'h_state', {}, 10)]


def h_op(ctx, i):
    s = ctx.str('s', 0, 3)
    t = ctx.str('t', 0, 1 if i % 2 else 2)
    r = OPS[i](s, t)
    if isinstance(r, dict):
        r = list(r.items())
    ctx.observe(r)


def h_int(ctx):
    n = ctx.int('n')
    m = ctx.int('m')
    ctx.observe('{:d} {} %d'.format(n, m) % n)
    ctx.observe([n == m, n < 5, n + m > 3, bool(n), isinstance(n, bool), type(n) is int, int(n) == n])
    ctx.observe(str(n) == '12')
    ctx.observe({1: 'a', n: 'b'}.get(m, 'c'))
    ctx.observe(len(str(n)) > 1)
    ctx.observe(('x%s' % n).replace('-', '~'))


def h_state(ctx):
    s = ctx.str('s', 1, 1)
    ctx.observe(_cached(s))


@functools.lru_cache(maxsize=None)
def _cached(s):
    return s == 'a'
