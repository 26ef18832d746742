"""
Path exploration and symbolic values.

A symbolic character is a real Python character from plane 15 (U+F0000..U+FFFFD):
code point U+F0000+i stands for entry i of the current path's character table.
A symbolic string is therefore a real `str` of known length: length, slicing,
concatenation, formatting, joining, `type()` and `isinstance()` are executed by
CPython itself and are exact.  Everything that *inspects* characters is
intercepted by the rewritten source (see rewrite.py / runtime.py) and turned into
Z3 terms over the table; truth tests on such terms fork the path.

Entries of the table:
  char  - one character, a Z3 Int term (its code point)
  int   - the decimal rendering of a Z3 Int term (any number of digits)
  opq   - the rendering of an opaque value (float/Decimal/date) with a known
          alphabet
"""
import datetime
import decimal
import os
import re
import sys
import time

import z3

PUA0 = 0xF0000
PUA1 = 0xFFFFD
MAXCP = PUA0 - 1
SYM_RE = re.compile('[\U000F0000-\U000FFFFD]')

SAMPLE_INTS = (0, 1, -1, 7, 10, 12345678901234567890, -10 ** 25)
DIGITS = frozenset('0123456789-')
FLOATCH = frozenset('0123456789-.')
DATECH = frozenset('0123456789-:.T+')


class EngineSignal(BaseException):
    """Base of the exceptions that steer exploration."""


class PathEnd(EngineSignal):
    """The path is finished early (assumption not met)."""


class PathViolation(EngineSignal):
    def __init__(self, message, model_inputs=None, tag=None):
        super().__init__(message)
        self.message = message
        self.inputs = model_inputs
        self.tag = tag


class Inconclusive(EngineSignal):
    """Solver unknown, budget exhausted, or an operation that cannot be modelled."""


class NeedConcrete(EngineSignal):
    """Raised when an opaque token would have to be inspected character-wise."""
    def __init__(self, idx):
        super().__init__(idx)
        self.idx = idx


# ---------------------------------------------------------------- intervals

def iv_norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_not(ivs, lo0=0, hi0=MAXCP):
    out = []
    cur = lo0
    for lo, hi in ivs:
        if lo > cur:
            out.append((cur, lo - 1))
        cur = max(cur, hi + 1)
    if cur <= hi0:
        out.append((cur, hi0))
    return tuple(out)


def iv_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_chars(chars):
    return iv_norm([(ord(c), ord(c)) for c in chars])


def iv_has(ivs, cp):
    for lo, hi in ivs:
        if lo <= cp <= hi:
            return True
    return False


_TABLES = {}
_ALL = None


def char_table(name):
    """Interval table of a str predicate, computed from the interpreter itself."""
    if name not in _TABLES:
        pattern = {'word': r'\w+', 'isspace': r'\s+', 'isdecimal': r'\d+'}.get(name)
        if pattern:
            global _ALL
            if _ALL is None:
                _ALL = ''.join(map(chr, range(0, MAXCP + 1)))
            _TABLES[name] = tuple((m.start(), m.end() - 1) for m in re.finditer(pattern, _ALL))
            return _TABLES[name]
        if name == 'upper_same':
            def pred(ch):
                return ch.upper() == ch
        elif name == 'lower_same':
            def pred(ch):
                return ch.lower() == ch
        elif name == 'idcont':
            def pred(ch):
                return ('a' + ch).isidentifier()
        elif name == 'linebreak':
            def pred(ch):
                return len(('a' + ch + 'b').splitlines()) == 2
        else:
            pred = getattr(str, name)
        out = []
        start = None
        for cp in range(0, MAXCP + 1):
            if pred(chr(cp)):
                if start is None:
                    start = cp
            elif start is not None:
                out.append((start, cp - 1))
                start = None
        if start is not None:
            out.append((start, MAXCP))
        _TABLES[name] = tuple(out)
    return _TABLES[name]


ANY = ((0, 0xD7FF), (0xE000, MAXCP))
ALPHABETS = {
    'any': ANY,
    'ascii': ((0, 127),),
    'word': iv_norm([(48, 57), (65, 90), (95, 95), (97, 122)]),
    'lower': ((97, 122),),
    'letter': iv_norm([(65, 90), (97, 122)]),
    'print': ((32, 126),),
    # no character with a meaning inside literals, identifiers or format strings
    'safe': iv_and(((33, 126),), iv_not(iv_chars('\'"`\\.'))),
}
# any character without a meaning for the library: no quotes, backslash, newline, dot or white space
ALPHABETS['plain'] = iv_and(ANY, iv_not(iv_norm(
    list(iv_chars('\'"`\\.*\n\r\0\x1a')) + [(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a),
                                        (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)])))

# Characters tried first when an operation that cannot be modelled forces a
# symbolic character to become concrete.
INTERESTING = "'\\\"`\n.a *%{}sd;-0Z(,\t\0\u00e9\r_\x1a"


class Entry:
    __slots__ = ('kind', 'term', 'alpha', 'src', 'dom', 'unary')

    def __init__(self, kind, term, alpha=None, src=None, dom=None):
        self.kind = kind
        self.term = term
        self.alpha = alpha
        self.src = src
        self.dom = dom


class Decision:
    __slots__ = ('value', 'alts', 'pushed', 'terms')

    def __init__(self, value, alts, pushed):
        self.value = value
        self.alts = alts        # remaining alternative values
        self.pushed = pushed


def _caller():
    f = sys._getframe(2)
    out = []
    while f is not None and len(out) < 3:
        name = f.f_code.co_filename
        if 'sqlpuzzle' in name or '/harness/' in name:
            out.append('%s:%d' % (os.path.basename(name), f.f_lineno))
        f = f.f_back
    return ' < '.join(out)


class Stats:
    FIELDS = ('paths', 'branches', 'decisions', 'queries', 'assert_queries', 'solver_s', 'checks',
              'validated', 'mismatches', 'incomplete', 'infeasible', 'concretized')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.functions = set()
        self.incomplete_reasons = {}
        self.samples = []

    def asdict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['functions'] = sorted(self.functions)
        d['incomplete_reasons'] = dict(self.incomplete_reasons)
        d['samples'] = self.samples
        return d


class Engine:
    def __init__(self):
        self.stats = Stats()
        self.active = False
        self.functions = set()
        self.set_orders = True
        self.used_set_order = False
        self._ivcache = {}
        self.expanded = {}
        self.digit_counts = (1, 2, 20)

    def note(self, reason):
        self.stats.incomplete_reasons[reason] = self.stats.incomplete_reasons.get(reason, 0) + 1

    # ------------------------------------------------------------ solver
    def begin(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.stack = []
        self.incomplete = False

    def reset_path(self):
        self.entries = []
        self.expanded = {}
        self.pos = 0
        self.inputs = []         # (label, kind, payload) in order
        self.cache = {}
        self.keep = []
        self.incomplete = False
        self.intern = []
        self.doms = {}
        self.ivc = {}
        self.observed = []
        self.varnames = {}
        self.used_set_order = False

    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive('solver unknown: ' + self.solver.reason_unknown())
        return r == z3.sat

    def fresh_name(self, label):
        n = self.varnames.get(label, 0)
        self.varnames[label] = n + 1
        return label if n == 0 else '%s!%d' % (label, n)

    def assert_now(self, term):
        """Add a constraint to the path (deterministic: replayed prefixes skip it)."""
        if self.pos < len(self.stack):
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(term)
        self.stack.append(Decision(True, (), True))
        self.pos += 1

    def branch(self, term):
        """Decide a Z3 Bool on the current path, forking when both sides are feasible."""
        if term is True or term is False:
            return term
        self.stats.branches += 1
        tid = term.get_id()
        hit = self.cache.get(tid)
        if hit is not None:
            return hit
        self.keep.append(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        if self.pos < len(self.stack):
            val = self.stack[self.pos].value
            self.pos += 1
            self.cache[tid] = val
            return val
        neg = z3.Not(term)
        self.solver.push()
        self.solver.add(term)
        can_true = self._check()
        if not can_true:
            self.solver.pop()
            self.stack.append(Decision(False, (), False))
            val = False
        else:
            self.solver.pop()
            self.solver.push()
            self.solver.add(neg)
            can_false = self._check()
            self.solver.pop()
            if can_false:
                self.solver.push()
                self.solver.add(term)
                self.stack.append(Decision(True, (False,), True))
                self.stack[-1].terms = (term, neg)
                self.stats.decisions += 1
            else:
                self.stack.append(Decision(True, (), False))
            val = True
        self.pos += 1
        self.cache[tid] = val
        return val

    def choose(self, label, n):
        """A fresh symbolic selector in 0..n-1 (every value feasible)."""
        var = z3.Int(self.fresh_name(label))
        if n <= 1:
            return 0
        if self.pos < len(self.stack):
            val = self.stack[self.pos].value
            self.pos += 1
            return val
        self.solver.push()
        self.solver.add(var == 0)
        d = Decision(0, tuple(range(1, n)), True)
        d.terms = [var == i for i in range(n)]
        self.stack.append(d)
        self.stats.decisions += 1
        self.pos += 1
        return 0

    def backtrack(self):
        """Move to the next unexplored path; False when the tree is exhausted."""
        while self.stack:
            d = self.stack[-1]
            if d.pushed:
                self.solver.pop()
            if d.alts:
                d.value, d.alts = d.alts[0], d.alts[1:]
                if d.value is False:
                    term = d.terms[1]
                else:
                    term = d.terms[d.value]
                self.solver.push()
                self.solver.add(term)
                return True
            self.stack.pop()
        return False

    # ------------------------------------------------------------ characters
    def add_entry(self, entry):
        if len(self.entries) >= PUA1 - PUA0:
            raise Inconclusive('character table full')
        self.entries.append(entry)
        return chr(PUA0 + len(self.entries) - 1)

    def entry(self, ch):
        return self.entries[ord(ch) - PUA0]

    def new_char(self, name, dom):
        var = z3.Int(name)
        ch = self.add_entry(Entry('char', var, dom=dom))
        self.assert_now(z3.And(var >= dom[0][0], var <= dom[-1][1], self.in_term(var, dom)))
        self.doms[len(self.entries) - 1] = dom
        return ch

    def char_of_term(self, term, dom=None):
        term = z3.simplify(term) if not isinstance(term, int) else term
        if isinstance(term, int):
            return chr(term)
        if z3.is_int_value(term):
            return chr(term.as_long())
        return self.add_entry(Entry('char', term, dom=dom))

    def in_term(self, term, ivs):
        """Z3 term: term lies in the union of the intervals."""
        if not ivs:
            return z3.BoolVal(False)
        neg = iv_not(ivs)
        use, negate = (ivs, False)
        if len(neg) < len(ivs):
            use, negate = (neg, True)
        parts = []
        for lo, hi in use:
            if lo == hi:
                parts.append(term == lo)
            elif lo <= 0:
                parts.append(term <= hi)
            elif hi >= MAXCP:
                parts.append(term >= lo)
            else:
                parts.append(z3.And(term >= lo, term <= hi))
        if not parts:
            res = z3.BoolVal(False)
        elif len(parts) == 1:
            res = parts[0]
        else:
            res = z3.Or(*parts)
        return z3.Not(res) if negate else res

    def char_in(self, ch, ivs):
        """bool or Z3 Bool: character ch belongs to the interval set."""
        cp = ord(ch)
        if not PUA0 <= cp <= PUA1:
            return iv_has(ivs, cp)
        e = self.entries[cp - PUA0]
        if e.kind != 'char':
            ins = [iv_has(ivs, ord(a)) for a in e.alpha]
            if not any(ins):
                return False
            raise NeedConcrete(cp - PUA0)
        ivc = self.ivc.get(cp)
        if ivc is None:
            ivc = self.ivc[cp] = {}
        t = ivc.get(ivs)
        if t is None:
            dom = self.doms.get(cp - PUA0)
            if dom is not None:
                if not iv_and(dom, ivs):
                    t = False
                elif not iv_and(dom, iv_not(ivs)):
                    t = True
            if t is None:
                t = self.in_term(e.term, ivs)
            ivc[ivs] = t
        return t

    def test_in(self, ch, ivs):
        """Forking membership test that keeps the unary domain of ch up to date."""
        t = self.char_in(ch, ivs)
        if t is True or t is False:
            return t
        val = self.branch(t)
        self.narrow(ch, ivs if val else iv_not(ivs))
        return val

    def narrow(self, ch, ivs):
        idx = ord(ch) - PUA0
        dom = self.doms.get(idx)
        if dom is not None:
            self.doms[idx] = iv_and(dom, ivs)
            self.ivc.pop(idx + PUA0, None)

    def eq_ch(self, a, b):
        if a == b:
            return True
        ca, cb = ord(a), ord(b)
        sa, sb = PUA0 <= ca <= PUA1, PUA0 <= cb <= PUA1
        if not sa and not sb:
            return False
        if sa and not sb:
            return self.char_in(a, ((cb, cb),))
        if sb and not sa:
            return self.char_in(b, ((ca, ca),))
        ea, eb = self.entry(a), self.entry(b)
        if ea.kind != 'char':
            raise NeedConcrete(ca - PUA0)
        if eb.kind != 'char':
            raise NeedConcrete(cb - PUA0)
        return ea.term == eb.term

    def conj(self, parts):
        out = []
        for p in parts:
            if p is False:
                return False
            if p is True:
                continue
            out.append(p)
        if not out:
            return True
        if len(out) == 1:
            return out[0]
        return z3.And(*out)

    # ------------------------------------------------------------ concretisation
    def unique(self, ch):
        """The character ch has to be under the path condition, or None."""
        e = self.entry(ch)
        if e.kind != 'char':
            return None
        if not self._check():
            return None
        v = self._long(self.solver.model(), e.term)
        if self._check(e.term != v):
            return None
        return chr(v)

    def concretize_entry(self, idx):
        """Return concrete text for table entry idx, forking over interesting values."""
        e = self.entries[idx]
        self.stats.concretized += 1
        if e.kind == 'opq':
            return e.src[0](e.src[1])
        if e.kind == 'char':
            ch = chr(PUA0 + idx)
            for c in INTERESTING:
                if self.test_in(ch, ((ord(c), ord(c)),)):
                    return c
            cp = self.pin(e.term)
            return chr(cp)
        for v in SAMPLE_INTS:
            if self.branch(e.term == v):
                return str(v)
        return str(self.pin(e.term))

    def expand(self, idx):
        """Text of the number of table entry idx as symbolic digits, forking over its sign and count of digits."""
        if idx in self.expanded:
            return self.expanded[idx]
        e = self.entries[idx]
        self.stats.concretized += 1
        negative = self.branch(e.term < 0)
        a = -e.term if negative else e.term
        for k in self.digit_counts:
            if negative and k not in self.digit_counts[:1] + self.digit_counts[-1:]:
                continue
            low = 0 if k == 1 and not negative else 10 ** (k - 1)
            if self.branch(z3.And(a >= low, a < 10 ** k)):
                chars = [self.add_entry(Entry('char', 48 + (a / 10 ** i) % 10 if i else 48 + a % 10, dom=((48, 57),))) for i in range(k - 1, -1, -1)]
                break
        else:
            chars = [str(self.pin(a))]
        self.expanded[idx] = ('-' if negative else '') + ''.join(chars)
        return self.expanded[idx]

    def pin(self, term):
        """Fix a term to one model value; the path is then no longer exhaustive."""
        if not self.incomplete:
            self.note('value fixed in %s' % _caller())
        self.incomplete = True
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            self.pos += 1
            return d.value
        if not self._check():
            raise PathEnd()
        val = self.solver.model().eval(term, model_completion=True).as_long()
        self.solver.push()
        self.solver.add(term == val)
        self.stack.append(Decision(val, (), True))
        self.pos += 1
        return val

    def concretize_str(self, s):
        if not SYM_RE.search(s):
            return s
        memo = {}
        out = []
        for ch in s:
            cp = ord(ch)
            if PUA0 <= cp <= PUA1:
                if cp not in memo:
                    memo[cp] = self.concretize_entry(cp - PUA0)
                out.append(memo[cp])
            else:
                out.append(ch)
        return ''.join(out)

    def detoken(self, s):
        """Replace opaque tokens (not chars) of s by concrete text."""
        out = []
        for ch in s:
            cp = ord(ch)
            if PUA0 <= cp <= PUA1 and self.entries[cp - PUA0].kind == 'int':
                out.append(self.expand(cp - PUA0))
            elif PUA0 <= cp <= PUA1 and self.entries[cp - PUA0].kind != 'char':
                out.append(self.concretize_entry(cp - PUA0))
            else:
                out.append(ch)
        return ''.join(out)

    def has_token(self, s):
        for ch in SYM_RE.findall(s):
            if self.entry(ch).kind != 'char':
                return True
        return False

    # ------------------------------------------------------------ models
    def model_inputs(self, extra=None, pretty=False):
        """Concrete values of every harness input under a model of the path (+ extra)."""
        pushed = 0
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
            pushed += 1
        try:
            if not self._check():
                return None
            if pretty:
                for label, kind, payload in self.inputs:
                    if kind == 'str':
                        for t in payload:
                            for pref in (ALPHABETS['lower'], ALPHABETS['print'], ((0, 0xFF),)):
                                c = self.in_term(t, pref)
                                self.solver.push()
                                self.solver.add(c)
                                if self._check():
                                    pushed += 1
                                    break
                                self.solver.pop()
                    elif kind == 'int':
                        for c in (z3.And(payload >= -99, payload <= 99),):
                            self.solver.push()
                            self.solver.add(c)
                            if self._check():
                                pushed += 1
                            else:
                                self.solver.pop()
                self._check()
            m = self.solver.model()
            self.last_model = m
            out = []
            for label, kind, payload in self.inputs:
                if kind == 'str':
                    out.append((label, kind, ''.join(chr(self._long(m, t)) for t in payload)))
                elif kind == 'int':
                    out.append((label, kind, self._long(m, payload)))
                elif kind == 'bytes':
                    out.append((label, kind, [self._long(m, h) * 16 + self._long(m, l) for h, l in payload]))
                else:
                    out.append((label, kind, payload))
            return out
        finally:
            for _ in range(pushed):
                self.solver.pop()

    def _long(self, m, t):
        if isinstance(t, int):
            return t
        return m.eval(t, model_completion=True).as_long()

    def eval_str(self, s, m):
        """Concrete text of a symbolic string under model m."""
        def rep(mo):
            e = self.entry(mo.group())
            if e.kind == 'char':
                return chr(self._long(m, e.term))
            if e.kind == 'int':
                return str(self._long(m, e.term))
            return e.src[0](e.src[1])
        return SYM_RE.sub(rep, s)


E = Engine()


def is_sym(s):
    return SYM_RE.search(s) is not None


# ---------------------------------------------------------------- symbolic booleans / numbers

class SymBool:
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    def __bool__(self):
        return E.branch(self.term)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __eq__(self, other):
        return bool(self) == other

    def __ne__(self, other):
        return bool(self) != other

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, other):
        return int(bool(self)) + other
    __radd__ = __add__

    def __and__(self, other):
        return bool(self) & other
    __rand__ = __and__

    def __or__(self, other):
        return bool(self) | other
    __ror__ = __or__

    def __repr__(self):
        return 'SymBool(%s)' % self.term

    def __deepcopy__(self, memo):
        return self


def mkbool(t):
    if t is True or t is False:
        return t
    return SymBool(t)


def term_of(v):
    return v.term if isinstance(v, SymInt) else z3.IntVal(int(v))


class SymInt(int):
    """An arbitrary (unbounded) Python int."""

    def __new__(cls, term):
        if isinstance(term, int):
            return term
        if z3.is_int_value(term):
            return term.as_long()
        self = int.__new__(cls, 7919191919)
        self.term = term
        return self

    @property
    def __class__(self):
        return int

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Inconclusive('pickling of a symbolic int')

    def token(self):
        for i, e in enumerate(E.entries):
            if e.kind == 'int' and e.term.eq(self.term):
                return chr(PUA0 + i)
        return E.add_entry(Entry('int', self.term, alpha=DIGITS))

    def concrete(self):
        for v in SAMPLE_INTS:
            if E.branch(self.term == v):
                return v
        E.stats.concretized += 1
        return E.pin(self.term)

    def __str__(self):
        return self.token()

    def __repr__(self):
        return self.token()

    def __format__(self, spec):
        if spec in ('', 'd'):
            return self.token()
        return format(self.concrete(), spec)

    def __bool__(self):
        return E.branch(self.term != 0)

    def __hash__(self):
        return 7919191919

    def _cmp(self, other, op):
        if isinstance(other, SymBool):
            other = bool(other)
        if isinstance(other, int):
            return mkbool(z3_simplify(op(self.term, term_of(other))))
        if isinstance(other, float):
            return op(self.concrete(), other)
        if isinstance(other, decimal.Decimal):
            return op(self.concrete(), other)
        return NotImplemented

    def __eq__(self, other):
        if isinstance(other, (float, decimal.Decimal)) and not isinstance(other, int):
            if isinstance(other, Opaque):
                return False
            if other == int(other):
                return self == int(other)
            return False
        return self._cmp(other, lambda a, b: a == b)

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return SymBool(z3.Not(r.term))
        return not r

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    def _arith(self, other, op, swap=False):
        if isinstance(other, SymBool):
            other = int(other)
        if isinstance(other, int):
            a, b = self.term, term_of(other)
            return SymInt(z3.simplify(op(b, a) if swap else op(a, b)))
        if isinstance(other, (str, bytes, list, tuple)):
            return op(other, self.concrete()) if swap else op(self.concrete(), other)
        if isinstance(other, (float, decimal.Decimal)):
            return op(other, self.concrete()) if swap else op(self.concrete(), other)
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: a * b, True)

    def __neg__(self):
        return SymInt(z3.simplify(-self.term))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if E.branch(self.term >= 0) else -self

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.term / o)
        return self.concrete() // o

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.term % o)
        return self.concrete() % o

    def __int__(self):
        return self

    def __trunc__(self):
        return self

    def __index__(self):
        return self.concrete()

    def __truediv__(self, o):
        return self.concrete() / o

    def __rtruediv__(self, o):
        return o / self.concrete()

    def __rfloordiv__(self, o):
        return o // self.concrete()

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % self.concrete()

    def __divmod__(self, o):
        return divmod(self.concrete(), o)

    def __pow__(self, o, m=None):
        return pow(self.concrete(), o, m)

    def __and__(self, o):
        return self.concrete() & o
    __rand__ = __and__

    def __or__(self, o):
        return self.concrete() | o
    __ror__ = __or__

    def __xor__(self, o):
        return self.concrete() ^ o
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self.concrete() << o

    def __rshift__(self, o):
        return self.concrete() >> o

    def __invert__(self):
        return SymInt(z3.simplify(-self.term - 1))

    def __float__(self):
        return float(self.concrete())

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.concrete().bit_length()

    def to_bytes(self, *a, **k):
        return self.concrete().to_bytes(*a, **k)


def z3_simplify(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


class Opaque:
    """Mixin of values whose text is an opaque token: float, Decimal, date, datetime."""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _token(self, alpha, fn):
        for i, e in enumerate(E.entries):
            if e.kind == 'opq' and e.term == (id(self), fn.__name__):
                return chr(PUA0 + i)
        return E.add_entry(Entry('opq', (id(self), fn.__name__), alpha=alpha, src=(fn, self.concrete())))


def fmt5f(v):
    return '{:.5f}'.format(v)


def fmtiso(v):
    return v.isoformat()


class SymFloat(Opaque, float):
    @property
    def __class__(self):
        return float

    def concrete(self):
        return float.__add__(self, 0.0)

    def __format__(self, spec):
        if spec in ('.5f', '.5F', '0.5f'):
            return self._token(FLOATCH, fmt5f)
        return format(self.concrete(), spec)

    def __reduce_ex__(self, p):
        return (float, (self.concrete(),))


class SymDecimal(Opaque, decimal.Decimal):
    @property
    def __class__(self):
        return decimal.Decimal

    def concrete(self):
        return decimal.Decimal(decimal.Decimal.__str__(self))

    def __format__(self, spec, *a):
        if spec in ('.5f', '.5F', '0.5f'):
            return self._token(FLOATCH, fmt5f)
        return format(self.concrete(), spec)

    def __reduce_ex__(self, p):
        return (decimal.Decimal, (str(self.concrete()),))


class SymDate(Opaque, datetime.date):
    @property
    def __class__(self):
        return datetime.date

    def concrete(self):
        return datetime.date(self.year, self.month, self.day)

    def isoformat(self):
        return self._token(DATECH, fmtiso)

    def __str__(self):
        return self._token(DATECH, fmtiso)


class SymDateTime(Opaque, datetime.datetime):
    @property
    def __class__(self):
        return datetime.datetime

    def concrete(self):
        return datetime.datetime(self.year, self.month, self.day, self.hour, self.minute, self.second,
                                 self.microsecond, self.tzinfo)

    def isoformat(self, *args, **kwds):
        if args or kwds:
            return self.concrete().isoformat(*args, **kwds)
        return self._token(DATECH, fmtiso)


class SymBytes(bytes):
    """Bytes of known length; every byte is a pair of nibble terms."""

    def __new__(cls, nibbles):
        self = bytes.__new__(cls, b'\xa7' * len(nibbles))
        self.nib = list(nibbles)
        return self

    @property
    def __class__(self):
        return bytes

    def __deepcopy__(self, memo):
        return self

    @staticmethod
    def digit(n):
        if isinstance(n, int):
            return '0123456789abcdef'[n]
        return E.char_of_term(z3.If(n < 10, n + 48, n + 87))

    def hex(self, *args):
        if args:
            return self.concrete().hex(*args)
        return ''.join(self.digit(h) + self.digit(l) for h, l in self.nib)

    def concrete(self):
        out = []
        for h, l in self.nib:
            t = h * 16 + l
            if isinstance(t, int):
                out.append(t)
                continue
            for v in (0, 39, 92, 255, 0x0a, 0x9f):
                if E.branch(t == v):
                    out.append(v)
                    break
            else:
                E.stats.concretized += 1
                out.append(E.pin(t))
        return bytes(out)

    def __iter__(self):
        return iter([SymInt(z3.simplify(h * 16 + l)) if not isinstance(h * 16 + l, int) else h * 16 + l
                     for h, l in self.nib])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.nib[i])
        return list(self)[i]

    def decode(self, *a, **k):
        return self.concrete().decode(*a, **k)

    def __add__(self, o):
        if isinstance(o, SymBytes):
            return SymBytes(self.nib + o.nib)
        return SymBytes(self.nib + [(b >> 4, b & 15) for b in o])

    def __radd__(self, o):
        return SymBytes([(b >> 4, b & 15) for b in o] + self.nib)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        other = o.nib if isinstance(o, SymBytes) else [(b >> 4, b & 15) for b in o]
        if len(other) != len(self.nib):
            return False
        parts = []
        for (h, l), (h2, l2) in zip(self.nib, other):
            for a, b in ((h, h2), (l, l2)):
                if isinstance(a, int) and isinstance(b, int):
                    if a != b:
                        return False
                else:
                    parts.append(z3_simplify(a == b))
        return mkbool(E.conj(parts))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not r

    def __hash__(self):
        return 7919

    def __repr__(self):
        return repr(self.concrete())

    def __reduce_ex__(self, p):
        raise Inconclusive('pickling of symbolic bytes')


class HexBytes(SymBytes):
    """ASCII bytes obtained by hexlify(): keeps the digits as characters."""

    def __new__(cls, text):
        self = bytes.__new__(cls, b'\xa8' * len(text))
        self.text = text
        self.nib = None
        return self

    def decode(self, encoding='utf-8', errors='strict'):
        return self.text

    def concrete(self):
        return E.concretize_str(self.text).encode('ascii')

    def __iter__(self):
        return iter(self.concrete())

    def __getitem__(self, i):
        if isinstance(i, slice):
            return HexBytes(self.text[i])
        return self.concrete()[i]

    def upper(self):
        return self.concrete().upper()

    def __add__(self, o):
        return self.concrete() + o

    def __radd__(self, o):
        return o + self.concrete()

    def __eq__(self, o):
        return self.concrete() == o
