"""
Runs harnesses: explores every path of a harness over symbolic inputs, validates each
path against the unmodified code, replays counterexamples, and writes evidence.
"""
import base64
import datetime
import decimal
import importlib
import json
import multiprocessing
import os
import random
import re
import subprocess
import sys
import time
import traceback

import z3

from . import core, rewrite, runtime
from . import harvest
from .core import E, Stats, EngineSignal, PathEnd, PathViolation, Inconclusive, NeedConcrete

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
# counts of digits to tell apart where the text of a symbolic number is looked into
E.digit_counts = tuple(sorted({1, 2, 20} | {k for n in harvest.constants(REPO + '/sqlpuzzle')[0] if 5 < n < 40 for k in (n, n + 1)}))
ROOTS = {'sqlpuzzle': REPO, 'harness': VERIF}
LEAK = re.compile(r'\\U000f[0-9a-f]{4}', re.I)
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')


class CheckFailed(Exception):
    """A property check failed in a concrete run."""

    def __init__(self, message):
        super().__init__(message)
        self.message = message


class NatEnd(BaseException):
    pass


def load_known():
    with open(KNOWN_FILE) as f:
        data = json.load(f)
    return {(x['property'], x['key']): x for x in data['known']}


class BaseCtx:
    prop = None
    known = {}

    def __init__(self):
        self.tags = set()
        self.hits = []
        self.observed = []

    @property
    def sp(self):
        return sys.modules['sqlpuzzle']

    def mod(self, name):
        return importlib.import_module(name)

    def reached(self, tag):
        self.tags.add(tag)

    def observe(self, value):
        self.observed.append(value)
        return value

    def _finding(self, finding):
        if finding and (self.prop, finding) in self.known:
            self.hits.append(finding)
            return True
        return False


class SymCtx(BaseCtx):
    symbolic = True

    def _len(self, label, lo, hi):
        if lo == hi:
            return lo
        n = lo + E.choose(label + '.len', hi - lo + 1)
        E.inputs.append((label + '.len', 'raw', n))
        return n

    def str(self, label, lo=0, hi=3, alpha='any'):
        n = self._len(label, lo, hi)
        dom = core.ALPHABETS[alpha] if isinstance(alpha, str) else alpha
        chars = []
        terms = []
        for i in range(n):
            ch = E.new_char(E.fresh_name('%s[%d]' % (label, i)), dom)
            chars.append(ch)
            terms.append(E.entry(ch).term)
        E.inputs.append((label, 'str', terms))
        return ''.join(chars)

    def int(self, label, lo=None, hi=None):
        v = z3.Int(E.fresh_name(label))
        if lo is not None:
            E.assert_now(v >= lo)
        if hi is not None:
            E.assert_now(v <= hi)
        E.inputs.append((label, 'int', v))
        return core.SymInt(v)

    def bytes(self, label, lo=0, hi=3):
        n = self._len(label, lo, hi)
        nib = []
        for i in range(n):
            pair = []
            for part in 'hl':
                t = z3.Int(E.fresh_name('%s[%d]%s' % (label, i, part)))
                E.assert_now(z3.And(t >= 0, t <= 15))
                pair.append(t)
            nib.append(tuple(pair))
        E.inputs.append((label, 'bytes', nib))
        return core.SymBytes(nib)

    def choose(self, label, options):
        i = E.choose(label, len(options))
        E.inputs.append((label, 'raw', i))
        return options[i]

    def flag(self, label):
        return self.choose(label, (False, True))

    def opaque(self, value):
        """A float/Decimal/date whose rendering is treated as an uninterpreted text."""
        if isinstance(value, datetime.datetime):
            return core.SymDateTime(value.year, value.month, value.day, value.hour, value.minute, value.second,
                                    value.microsecond, value.tzinfo)
        if isinstance(value, datetime.date):
            return core.SymDate(value.year, value.month, value.day)
        if isinstance(value, float):
            return core.SymFloat(value)
        if isinstance(value, decimal.Decimal):
            return core.SymDecimal(value)
        return value

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def check(self, cond, msg='', finding=None):
        E.stats.checks += 1
        if not cond:
            if self._finding(finding):
                return False
            raise PathViolation(msg)
        return True


class NatCtx(BaseCtx):
    symbolic = False

    def __init__(self, inputs):
        super().__init__()
        self.queue = list(inputs)
        self.pos = 0

    def _next(self, label, kind):
        lab, k, val = self.queue[self.pos]
        if lab != label or k != kind:
            raise Desync('expected %s/%s, recorded %s/%s' % (label, kind, lab, k))
        self.pos += 1
        return val

    def _len(self, label, lo, hi):
        if lo == hi:
            return lo
        return self._next(label + '.len', 'raw')

    def str(self, label, lo=0, hi=3, alpha='any'):
        self._len(label, lo, hi)
        return self._next(label, 'str')

    def int(self, label, lo=None, hi=None):
        return self._next(label, 'int')

    def bytes(self, label, lo=0, hi=3):
        self._len(label, lo, hi)
        return bytes(self._next(label, 'bytes'))

    def choose(self, label, options):
        return options[self._next(label, 'raw')]

    def flag(self, label):
        return self.choose(label, (False, True))

    def opaque(self, value):
        return value

    def assume(self, cond):
        if not cond:
            raise NatEnd()

    def check(self, cond, msg='', finding=None):
        if not cond:
            if self._finding(finding):
                return False
            raise CheckFailed(msg)
        return True


class Desync(Exception):
    pass


SYM = None
NAT = None


def setup(modules):
    """Load the program and the harness modules, rewritten and native."""
    global SYM, NAT
    sys.dont_write_bytecode = True
    SYM = rewrite.World('sym', ROOTS)
    NAT = rewrite.World('nat', ROOTS)
    names = ['sqlpuzzle'] + ['harness.' + m for m in modules]
    NAT.load(names)
    SYM.load(names)


def setup_native(modules):
    global NAT
    sys.dont_write_bytecode = True
    NAT = rewrite.World('nat', ROOTS)
    NAT.load(['sqlpuzzle'] + ['harness.' + m for m in modules])


def call(ctx, module, func, params):
    """Run the harness; with _peek every statement is also rendered after each call that builds it."""
    fn = getattr(sys.modules['harness.' + module], func)
    params = dict(params)
    if not params.pop('_peek', False):
        return fn(ctx, **params)
    base = sys.modules['harness.base']
    patched = base.peek_on(ctx.sp)
    try:
        return fn(ctx, **params)
    finally:
        base.peek_off(patched)


def run_native(prop, module, func, params, inputs, known):
    """-> (status, message, ctx); status: ok | violation | ended | desync"""
    NAT.activate()
    ctx = NatCtx(inputs)
    ctx.prop = prop
    ctx.known = known
    try:
        call(ctx, module, func, params)
        status, msg = 'ok', ''
    except CheckFailed as exc:
        status, msg = 'violation', exc.message
    except NatEnd:
        status, msg = 'ended', ''
    except (Desync, IndexError) as exc:
        if isinstance(exc, IndexError) and ctx.pos < len(ctx.queue):
            status, msg = 'violation', 'unexpected exception: ' + _exc(exc)
        else:
            status, msg = 'desync', str(exc)
    except Exception as exc:      # the library raised where the harness does not expect it
        status, msg = 'violation', 'unexpected exception: ' + _exc(exc)
    NAT.restore()
    return status, msg, ctx


def _exc(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in reversed(tb):
        if 'sqlpuzzle' in fr.filename or 'harness' in fr.filename:
            where = ' at %s:%s' % (os.path.basename(fr.filename), fr.lineno)
            break
    try:
        text = '%s: %s' % (type(exc).__name__, exc)
    except BaseException:
        text = type(exc).__name__
    return text[:300] + where


def render(v, model):
    if isinstance(v, str):
        return E.eval_str(str.__str__(v), model)
    if isinstance(v, core.SymInt):
        return E._long(model, v.term)
    if isinstance(v, (list, tuple)):
        return [render(x, model) for x in v]
    if isinstance(v, core.Opaque):
        return v.concrete()
    return v


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


class TaskResult(dict):
    pass


def run_task(job):
    prop, module, func, params, budget, known, seed, validate = job
    E.stats = Stats()
    E.functions = E.stats.functions
    E.begin()
    res = {'task': func, 'params': params, 'violation': None, 'tags': {}, 'known': {}, 'spurious': [],
           'truncated': False, 'mismatch_samples': []}
    t0 = time.time()
    E.deadline = t0 + budget * 3
    random.seed(seed)
    while True:
        if time.time() - t0 > budget:
            res['truncated'] = True
            break
        out = one_path(prop, module, func, params, known, res, validate)
        if out is not None:
            res['violation'] = out
            break
        if not E.backtrack():
            break
    res['stats'] = E.stats.asdict()
    res['wall'] = time.time() - t0
    return res


def one_path(prop, module, func, params, known, res, validate):
    E.reset_path()
    SYM.activate()
    ctx = SymCtx()
    ctx.prop = prop
    ctx.known = known
    cand = None
    complete = True
    try:
        call(ctx, module, func, params)
    except PathEnd:
        complete = False
        E.stats.infeasible += 1
    except PathViolation as exc:
        cand = exc.message
    except (Inconclusive, NeedConcrete) as exc:
        E.stats.incomplete += 1
        E.note('%s: %s' % (type(exc).__name__, str(exc)[:80]))
        complete = False
        cand = 'inconclusive'
    except RecursionError:
        E.stats.incomplete += 1
        E.note('recursion limit')
        complete = False
    except Exception as exc:
        cand = 'unexpected exception: ' + _exc(exc)
    finally:
        SYM.restore()
    E.stats.paths += 1
    if E.incomplete:
        E.stats.incomplete += 1
    for t in ctx.tags:
        res['tags'][t] = res['tags'].get(t, 0) + 1
    if cand is not None:
        v = confirm(prop, module, func, params, known, cand)
        if v is not None:
            return v
        if cand != 'inconclusive':
            res['spurious'].append({'message': cand, 'inputs': jsonable(E.model_inputs())})
            E.stats.mismatches += 1
        return None
    if not complete:
        return None
    for h in ctx.hits:
        res['known'][h] = res['known'].get(h, 0) + 1
    if validate:
        try:
            inputs = E.model_inputs()
        except Inconclusive:
            E.stats.incomplete += 1
            return None
        if inputs is None:
            E.note('infeasible path')
            return None
        model = E.last_model
        want = [render(v, model) for v in ctx.observed]
        status, msg, nctx = run_native(prop, module, func, params, inputs, known)
        if status == 'violation':
            return {'message': msg, 'inputs': jsonable(inputs), 'found_by': 'validation of a solver model',
                    'module': module, 'func': func, 'params': params, 'seeds': [0]}
        got = [norm(v) for v in nctx.observed]
        if status == 'ok' and (got == norm(want) or E.used_set_order):
            E.stats.validated += 1
            if len(E.stats.samples) < 2:
                E.stats.samples.append({'inputs': jsonable(inputs), 'observed': jsonable(got)})
        else:
            E.stats.mismatches += 1
            if len(res['mismatch_samples']) < 3:
                res['mismatch_samples'].append({'status': status, 'msg': msg, 'inputs': jsonable(inputs),
                                                'symbolic': jsonable(want), 'native': jsonable(got)})
    return None


def confirm(prop, module, func, params, known, message):
    """Replay a candidate natively under a pretty and a plain model."""
    tried = []
    for pretty in (True, False):
        try:
            inputs = E.model_inputs(pretty=pretty)
        except Inconclusive:
            continue
        if inputs is None or inputs in tried:
            continue
        tried.append(inputs)
        status, msg, _ = run_native(prop, module, func, params, inputs, known)
        if status == 'violation':
            return {'message': msg, 'inputs': jsonable(inputs), 'found_by': 'solver', 'module': module, 'func': func,
                    'params': params, 'seeds': [0]}
    if E.used_set_order and tried:
        v = {'message': message, 'inputs': jsonable(tried[0]), 'found_by': 'solver', 'module': module, 'func': func,
             'params': params, 'seeds': list(range(1, 24))}
        # the order of a set is only controllable through the hash seed of a fresh interpreter
        path = os.path.join('/tmp', 'symx-replay-%d.json' % os.getpid())
        v['property'] = prop
        with open(path, 'w') as f:
            json.dump(v, f)
        try:
            for seed in v['seeds']:
                env = dict(os.environ, PYTHONHASHSEED=str(seed))
                r = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), '--inner', path], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode == 1:
                    v['seeds'] = [seed]
                    return v
        finally:
            os.unlink(path)
    return None


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, bytes):
        return {'bytes': list(x)}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)
