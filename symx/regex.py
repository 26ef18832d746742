"""
Symbolic `re`: a backtracking matcher over the parse tree produced by CPython's own
regular expression parser, with the same search order as sre.  Character tests
against symbolic characters fork the path.
"""
import re
import re._parser as sre_parse
import re._constants as C

from .core import E, is_sym, iv_norm, iv_not, char_table, MAXCP, NeedConcrete, PUA0, PUA1

_CACHE = {}


class Unsupported(Exception):
    pass


def _category(cat):
    name = str(cat)
    neg = 'NOT_' in name
    base = name.replace('CATEGORY_', '').replace('UNI_', '').replace('LOC_', '').replace('NOT_', '')
    table = {'DIGIT': 'isdecimal', 'SPACE': 'isspace', 'WORD': 'word'}.get(base)
    if table is None:
        raise Unsupported('category %s' % name)
    ivs = char_table(table)
    return iv_not(ivs) if neg else ivs


_ASCII_CAT = {
    'isdecimal': ((48, 57),),
    'isspace': ((9, 13), (32, 32)),
    'word': iv_norm([(48, 57), (65, 90), (95, 95), (97, 122)]),
}


class Node:
    """Compiled pattern: list of operations interpreted by Matcher."""


def cat_intervals(cat, flags):
    name = str(cat)
    neg = 'NOT_' in name
    base = name.split('_')[-1]
    table = {'DIGIT': 'isdecimal', 'SPACE': 'isspace', 'WORD': 'word'}.get(base)
    if table is None:
        raise Unsupported('category %s' % name)
    ivs = _ASCII_CAT[table] if flags & re.ASCII else char_table(table)
    return iv_not(ivs) if neg else ivs


def lit_intervals(cp, flags):
    if flags & re.IGNORECASE:
        ch = chr(cp)
        alts = {ch, ch.lower(), ch.upper()}
        if len(ch.upper()) != 1 or cp > 127:
            raise Unsupported('ignorecase non-ascii')
        out = [(ord(c), ord(c)) for c in alts]
        if not flags & re.ASCII:
            extra = {'s': 0x17f, 'S': 0x17f, 'k': 0x212a, 'K': 0x212a, 'i': 0x130, 'I': 0x130}
            if ch in 'sSkK':
                out.append((extra[ch], extra[ch]))
            if ch in 'iI':
                out.append((0x130, 0x130))
                out.append((0x131, 0x131))
        return iv_norm(out)
    return ((cp, cp),)


def in_test(items, flags):
    """-> (intervals, symbolic literal chars, negate)"""
    negate = False
    ivs = []
    syms = []
    for op, av in items:
        if op is C.NEGATE:
            negate = True
        elif op is C.LITERAL:
            if PUA0 <= av <= PUA1:
                syms.append(chr(av))
            else:
                ivs.extend(lit_intervals(av, flags))
        elif op is C.RANGE:
            lo, hi = av
            if PUA0 <= lo <= PUA1 or PUA0 <= hi <= PUA1:
                raise Unsupported('symbolic range')
            if flags & re.IGNORECASE:
                if hi > 127:
                    raise Unsupported('ignorecase range')
                for cp in range(lo, hi + 1):
                    ivs.extend(lit_intervals(cp, flags))
            else:
                ivs.append((lo, min(hi, MAXCP)))
        elif op is C.CATEGORY:
            ivs.extend(cat_intervals(av, flags))
        else:
            raise Unsupported('set item %s' % op)
    ivs = iv_norm(ivs)
    if negate and not syms:
        return iv_not(ivs), (), False
    return ivs, tuple(syms), negate


def test_char(ch, ivs, syms, negate):
    if not syms:
        return E.test_in(ch, ivs)
    hit = E.test_in(ch, ivs) if ivs else False
    if not hit:
        for s in syms:
            if E.branch(E.eq_ch(ch, s)):
                hit = True
                break
    return hit != negate


class M:
    """Backtracking interpreter in continuation-passing style."""

    def __init__(self, text, flags, ngroups, end=None):
        self.s = text
        self.n = len(text) if end is None else min(end, len(text))
        self.flags = flags
        self.ng = ngroups

    def run(self, seq, i, pos, groups, k):
        """Match seq[i:] at pos; k(pos, groups) is the continuation."""
        if i >= len(seq):
            return k(pos, groups)
        op, av = seq[i]

        def nxt(p, g):
            return self.run(seq, i + 1, p, g, k)

        flags = self.flags
        if op is C.LITERAL or op is C.NOT_LITERAL:
            if pos >= self.n:
                return None
            if PUA0 <= av <= PUA1:
                hit = E.branch(E.eq_ch(self.s[pos], chr(av)))
            else:
                hit = E.test_in(self.s[pos], lit_intervals(av, flags))
            if hit != (op is C.LITERAL):
                return None
            return nxt(pos + 1, groups)
        if op is C.ANY:
            if pos >= self.n:
                return None
            if not flags & re.DOTALL and E.test_in(self.s[pos], ((10, 10),)):
                return None
            return nxt(pos + 1, groups)
        if op is C.IN:
            if pos >= self.n:
                return None
            ivs, syms, neg = in_test(av, flags)
            if not test_char(self.s[pos], ivs, syms, neg):
                return None
            return nxt(pos + 1, groups)
        if op is C.AT:
            if not self.at(av, pos):
                return None
            return nxt(pos, groups)
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                saved = self.flags
                inner_flags = (self.flags | add) & ~rem

                def after(p, g):
                    cur = self.flags
                    self.flags = saved
                    try:
                        if gid is not None:
                            g = dict(g)
                            g[gid] = (pos, p)
                        return nxt(p, g)
                    finally:
                        self.flags = cur
                self.flags = inner_flags
                try:
                    return self.run(list(sub), 0, pos, groups, after)
                finally:
                    self.flags = saved

            def close(p, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                    g['last'] = gid
                return nxt(p, g)
            return self.run(list(sub), 0, pos, groups, close)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, pos, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            return self.repeat(list(sub), lo, hi, op is C.MAX_REPEAT, pos, groups, nxt)
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            count, p, g = 0, pos, groups
            while hi is C.MAXREPEAT or count < hi:
                r = self.run(sub, 0, p, g, lambda pp, gg: (pp, gg))
                if r is None or (r[0] == p and count >= lo):
                    break
                p, g = r
                count += 1
            if count < lo:
                return None
            return nxt(p, g)
        if op is C.ATOMIC_GROUP:
            r = self.run(list(av), 0, pos, groups, lambda p, g: (p, g))
            if r is None:
                return None
            return nxt(*r)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported('lookbehind width')
                start = pos - lo
                r = None
                if start >= 0:
                    r = self.run(list(sub), 0, start, groups, lambda p, g: (p, g) if p == pos else None)
            else:
                r = self.run(list(sub), 0, pos, groups, lambda p, g: (p, g))
            if op is C.ASSERT:
                if r is None:
                    return None
                return nxt(pos, r[1])
            if r is not None:
                return None
            return nxt(pos, groups)
        if op is C.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            for off in range(b - a):
                if pos + off >= self.n:
                    return None
                if not E.branch(E.eq_ch(self.s[a + off], self.s[pos + off])):
                    return None
            return nxt(pos + b - a, groups)
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            sub = yes if gid in groups else no
            return self.run(list(sub) if sub else [], 0, pos, groups, nxt)
        raise Unsupported('regex op %s' % op)

    def repeat(self, sub, lo, hi, greedy, pos, groups, k):
        maxrep = hi is C.MAXREPEAT or hi == C.MAXREPEAT

        def go(count, p, g):
            def more():
                if not maxrep and count >= hi:
                    return None

                def step(pp, gg):
                    if pp == p and count >= lo:
                        return None      # an empty iteration cannot help
                    return go(count + 1, pp, gg)
                return self.run(sub, 0, p, g, step)
            if count < lo:
                return more()
            if greedy:
                r = more()
                if r is not None:
                    return r
                return k(p, g)
            r = k(p, g)
            if r is not None:
                return r
            return more()
        return go(0, pos, groups)

    def is_word(self, pos):
        ivs = _ASCII_CAT['word'] if self.flags & re.ASCII else char_table('word')
        return 0 <= pos < self.n and E.test_in(self.s[pos], ivs)

    def at(self, where, pos):
        multi = self.flags & re.MULTILINE
        if where is C.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(multi) and E.test_in(self.s[pos - 1], ((10, 10),))
        if where is C.AT_BEGINNING_STRING:
            return pos == 0
        if where is C.AT_END:
            if pos == self.n:
                return True
            if multi:
                return E.test_in(self.s[pos], ((10, 10),))
            return pos == self.n - 1 and E.test_in(self.s[pos], ((10, 10),))
        if where is C.AT_END_STRING:
            return pos == self.n
        if where in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            if self.n == 0:
                return False        # Python <= 3.13: no boundaries in an empty string
            hit = self.is_word(pos - 1) != self.is_word(pos)
            return hit == (where is C.AT_BOUNDARY)
        raise Unsupported('at %s' % where)


class SymMatch:
    """Stand-in of re.Match."""

    def __init__(self, pat, string, span, groups, pos, endpos):
        self.re = pat
        self.string = string
        self._span = span
        self._g = groups
        self.pos = pos
        self.endpos = endpos

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if g < 0 or g > self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return self._span
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return self._g.get('last')

    def __bool__(self):
        return True

    def expand(self, template):
        return expand(template, self)


METAS = '.^$*+?{}[]\\|()'


def parse(pattern, flags):
    key = (pattern, flags)
    if key not in _CACHE:
        p = sre_parse.parse(pattern, flags)
        _CACHE[key] = (list(p), p.state.flags, p.state.groups - 1, dict(p.state.groupdict))
    return _CACHE[key]


class PatInfo:
    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.seq, self.flags, self.groups, self.groupindex = parse(pattern, flags)


def prepare(pattern, flags=0):
    """-> PatInfo; symbolic characters of the pattern become literals or concrete metas."""
    if isinstance(pattern, re.Pattern):
        return PatInfo(pattern.pattern, pattern.flags & ~re.UNICODE if isinstance(pattern.pattern, str) else 0)
    if isinstance(pattern, PatInfo):
        return pattern
    if is_sym(pattern):
        pattern = E.detoken(pattern)
        out = []
        for i, ch in enumerate(pattern):
            if PUA0 <= ord(ch) <= PUA1:
                from .core import iv_chars
                if i and out and out[-1] == '\\' and (len(out) < 2 or out[-2] != '\\'):
                    # an escaped symbolic character: literal unless alphanumeric
                    if E.test_in(ch, iv_norm([(48, 57), (65, 90), (97, 122)])):
                        out.append(E.concretize_entry(ord(ch) - PUA0))
                    else:
                        out.append(ch)
                elif E.test_in(ch, iv_chars(METAS + ('-^]' if '[' in pattern else ''))):
                    out.append(E.concretize_entry(ord(ch) - PUA0))
                else:
                    out.append(ch)
            else:
                out.append(ch)
        pattern = ''.join(out)
    return PatInfo(pattern, flags)


def do_match(info, text, pos=0, endpos=None, mode='match', must_advance=False):
    n = len(text) if endpos is None else min(endpos, len(text))
    m = M(text, info.flags, info.groups, n)
    starts = range(pos, n + 1) if mode == 'search' else [pos]
    for st in starts:
        if st > n:
            break

        def final(p, g, st=st):
            if mode == 'fullmatch' and p != n:
                return None
            if must_advance and st == pos and p == pos:
                return None
            return (p, g)
        r = m.run(info.seq, 0, st, {}, final)
        if r is not None:
            return SymMatch(info, text, (st, r[0]), r[1], pos, n)
    return None


def iter_matches(info, text, pos=0, endpos=None):
    n = len(text) if endpos is None else min(endpos, len(text))
    must = False
    while pos <= n:
        m = do_match(info, text, pos, endpos, 'search', must)
        if m is None:
            return
        yield m
        must = m.end() == m.start()
        pos = m.end()


def split(info, text, maxsplit=0):
    out = []
    last = 0
    count = 0
    for m in iter_matches(info, text):
        out.append(text[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        count += 1
        if maxsplit and count >= maxsplit:
            break
    out.append(text[last:])
    return out


def findall(info, text, *a):
    out = []
    for m in iter_matches(info, text, *a):
        if info.groups == 0:
            out.append(m.group())
        elif info.groups == 1:
            out.append(m.groups('')[0])
        else:
            out.append(m.groups(''))
    return out


def expand(template, m):
    if '\\' not in template:
        return template
    parts = sre_parse.parse_template(template, re.compile(m.re.pattern, m.re.flags & ~re.UNICODE)
                                     if not is_sym(m.re.pattern) else _Fake(m.re))
    out = []
    if isinstance(parts, tuple):          # pre-3.12 layout
        raise Unsupported('template layout')
    for p in parts:
        if isinstance(p, int):
            out.append(m._one(p, ''))
        else:
            out.append(p)
    return ''.join(out)


class _Fake:
    def __init__(self, info):
        self.groups = info.groups
        self.groupindex = info.groupindex


def subn(info, repl, text, count=0, caller=None):
    out = []
    last = 0
    n = 0
    for m in iter_matches(info, text):
        out.append(text[last:m.start()])
        if callable(repl):
            out.append(caller(repl, m) if caller else repl(m))
        else:
            out.append(expand(repl, m))
        last = m.end()
        n += 1
        if count and n >= count:
            break
    out.append(text[last:])
    return ''.join(out), n


def escape(text):
    from .core import iv_chars
    special = iv_chars('()[]{}?*+-|^$\\.&~# \t\n\r\v\f')
    out = []
    for ch in text:
        if PUA0 <= ord(ch) <= PUA1:
            if E.test_in(ch, special):
                out.append('\\' + ch)
            else:
                out.append(ch)
        else:
            out.append(re.escape(ch))
    return ''.join(out)
