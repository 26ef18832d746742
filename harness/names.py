"""C02: names stay inside quoted identifiers."""
from .base import *
from .positions import NAMES

KINDS = ['any', 'quoted', 'star', 'plain', 'quoted plain']
DEEP = ('column', 'table', 'where', 'insert_column', 'update_column', 'order_by', 'on_right', 'table_alias')

BOUNDS = {
    'C02': [
        'names of 1-2 arbitrary Unicode characters at each of the name positions, 1-3 at the most used ones '
        '(thorough: 1-3 and 1-4)',
        'names of every length 1-24 and larger sample lengths up to 300 (plus each integer constant found in the source, '
        '+-1) over the characters without special meaning, all characters symbolic',
        'about 200 texts which look special (a fixed list and the string constants of the source) at the most used places, alone or with '
        'one arbitrary character before or after',
        'two- and three-part dotted names, parts quoted or not, each part with up to 2 arbitrary or 6 ordinary characters',
        'names of up to 12 parts (and every integer constant of the source up to 40) at the most used places',
        'one name of 1 (thorough 1-2) arbitrary characters, alone or with a second part, rendered under one database, then another with '
        'other quotes, then the first again',
        'all four databases',
    ],
}
ASSUMPTIONS = {
    'C02': ['a name that is not a well-formed dotted name (empty parts, unbalanced quotes) must only be confined: at its '
            'place nothing but identifiers, dots and * may appear',
            'names given as plain str; empty names are outside the claim'],
}


def tasks(prop, tier):
    out = []
    deep = tier == 'thorough'
    lengths = [x for x in harvest.lengths(SRC) if x]
    for pos, (_, _, backends) in NAMES.items():
        for b in backends:
            hi = (4 if deep else 3) if pos in DEEP else (3 if deep else 2)
            out.append((prop, 'h_name', {'pos': pos, 'backend': b, 'hi': hi}, 600 if deep else 60))
            if deep or pos in ('column', 'where'):
                ls = lengths
            elif pos in DEEP:
                ls = [x for x in lengths if x not in harvest.BASE or x <= 20]
            else:
                ls = [7, 12, 24, 33]
            out.append((prop, 'h_long', {'pos': pos, 'backend': b, 'lengths': ls}, 600 if deep else 60))
            out.append((prop, 'h_dotted', {'pos': pos, 'backend': b, 'hi': 2 if deep and pos in DEEP else 1,
                                           'parts': [2, 3] if deep or pos in ('column', 'table') else [2],
                                           'kinds': KINDS if deep or pos in DEEP else KINDS[:3]}, 600 if deep else 60))
            if not deep and pos not in DEEP:
                out.append((prop, 'h_dotted', {'pos': pos, 'backend': b, 'hi': 1, 'parts': [3], 'kinds': ['plain']}, 60))
    for pos in NAMES:
        if deep or pos in DEEP:
            for b in NAMES[pos][2]:
                out.append((prop, 'h_parts', {'pos': pos, 'backend': b, 'counts': [x for x in harvest.counts(SRC, (2, 3, 4, 5, 6, 12), 40) if x > 1]}, 60))
    texts = [x for x in harvest.strings(SRC)]
    for b in BACKENDS:
        for pos in NAMES:
            if b in NAMES[pos][2] and (deep or pos in DEEP):
                for then in BACKENDS:
                    if then != b and then in NAMES[pos][2] and QUOTE[then] != QUOTE[b]:
                        out.append((prop, 'h_switch', {'pos': pos, 'first': b, 'then': then, 'hi': 2 if deep else 1}, 60))
                out.append((prop, 'h_text', {'pos': pos, 'backend': b, 'texts': texts, 'around': deep or pos == 'where'}, 300 if deep else 60))
    return out


def confined(got, template):
    """Only identifiers, dots and asterisks at the places of the name, the rest as expected."""
    k = template.count('?')
    fixed = len(fill(template, []))
    if len(got) < fixed or (len(got) - fixed) % k:
        return False
    m = (len(got) - fixed) // k
    first = len(words(template.split('?')[0]))
    part = got[first:first + m]
    for kind, text in part:
        if kind != 'id' and not (kind == 'op' and text in ('.', '*')):
            return False
    return got == fill(template, part)


def place(ctx, pos, backend, n):
    build, template, _ = NAMES[pos]
    ctx.sp.configure(backend)
    got = no_set(tokens(render(ctx, build(ctx.sp, n)), backend))
    parts = split_name(n, QUOTE[backend])
    if parts is not None:
        ctx.check(got == fill(template, name_tokens(parts)),
                  'name is not rendered as the quoted identifiers of its parts (%s)' % pos)
    else:
        ctx.check(confined(got, template), 'name is not confined to quoted identifiers (%s)' % pos)
        ctx.reached('malformed')
    ctx.reached(pos)


def h_name(ctx, pos, backend, hi):
    place(ctx, pos, backend, ctx.str('n', 1, hi))


def h_switch(ctx, pos, first, then, hi):
    """The same name under one database, then under another, and back."""
    n = ctx.str('n', 1, hi) + ctx.choose('tail', ('', '.b'))
    for b in (first, then, first):
        place(ctx, pos, b, n)


def h_long(ctx, pos, backend, lengths):
    k = ctx.choose('length', lengths)
    n = ctx.str('n', k, k, 'plain')
    ctx.assume(n != 'sibling')
    place(ctx, pos, backend, n)


def h_text(ctx, pos, backend, texts, around):
    """Texts which look special, alone or with one more character."""
    n = ctx.choose('text', texts)
    ctx.assume(n != 'sibling')
    if around:
        form = ctx.choose('form', ('alone', 'before', 'after'))
        if form == 'before':
            n = ctx.str('c', 1, 1) + n
        elif form == 'after':
            n = n + ctx.str('c', 1, 1)
    place(ctx, pos, backend, n)


def h_dotted(ctx, pos, backend, hi, parts, kinds):
    q = QUOTE[backend]
    out = []
    for i in range(ctx.choose('parts', parts)):
        kind = ctx.choose('kind%d' % i, kinds)
        if kind == 'any':
            out.append(ctx.str('p%d' % i, 1, hi))
        elif kind == 'quoted':
            out.append(q + ctx.str('p%d' % i, 1, hi) + q)
        elif kind == 'plain':
            out.append(ctx.str('p%d' % i, 6, 6, 'plain'))
        elif kind == 'quoted plain':
            out.append(q + ctx.str('p%d' % i, 3, 3, 'plain') + '.' + ctx.str('r%d' % i, 2, 2, 'plain') + q)
        else:
            out.append('*')
    place(ctx, pos, backend, '.'.join(out))


def h_parts(ctx, pos, backend, counts):
    """Many parts: none is lost."""
    q = QUOTE[backend]
    first, last = ctx.str('first', 1, 1, 'plain'), ctx.str('last', 1, 1, 'plain')
    n = ctx.choose('n', counts)
    parts = [first] + ['p%d' % i for i in range(n - 2)] + [last]
    if ctx.flag('quoted'):
        parts = [q + p + '.' + q for p in parts]
    place(ctx, pos, backend, '.'.join(parts))
