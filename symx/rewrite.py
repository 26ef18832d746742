"""
Loads Python modules from source in two variants:

  sym - the source is parsed, every value-inspecting operation is redirected to the
        symbolic runtime, and the result is compiled and executed;
  nat - the unmodified source (used to validate every explored path and to replay
        counterexamples).

The sources are read from disk on every run; nothing is cached between runs.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
import warnings

from . import runtime

CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
       ast.In: 'in_', ast.NotIn: 'not_in'}
CHAIN = dict(CMP)
CHAIN.update({ast.Is: 'is', ast.IsNot: 'is_not'})
BIN = {ast.Mod: '%', ast.BitOr: '|', ast.BitAnd: '&', ast.Sub: '-', ast.BitXor: '^'}
NOCALL = frozenset(('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', 'breakpoint', '__import__', 'isinstance',
                    'hasattr', 'issubclass', 'callable', 'id', 'property', 'staticmethod', 'classmethod'))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.scope = [modname]
        self.functions = []

    def sx(self, name, *args, keywords=()):
        return ast.Call(
            func=ast.Attribute(value=ast.Name(id='__sx__', ctx=ast.Load()), attr=name, ctx=ast.Load()),
            args=list(args), keywords=list(keywords))

    # --- scopes
    def _function(self, node):
        self.scope.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        if node.returns is not None:
            node.returns = self.visit(node.returns)
        node.body = [self._stmt(s) for s in node.body]
        name = '.'.join(self.scope)
        self.functions.append(name)
        enter = ast.Expr(self.sx('enter', ast.Constant(name)))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, enter)
        self.scope.pop()
        return node

    def _stmt(self, s):
        return self.visit(s)

    visit_FunctionDef = _function

    def visit_AsyncFunctionDef(self, node):
        return self._function(node)

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    # --- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = type(node.ops[0])
            if op in CMP:
                return self.sx(CMP[op], node.left, node.comparators[0])
            return node
        rest = []
        for op, right in zip(node.ops, node.comparators):
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=right)
            rest.append(ast.Tuple(elts=[ast.Constant(CHAIN[type(op)]), lam], ctx=ast.Load()))
        return self.sx('chain', node.left, *rest)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            return node
        return ast.Call(
            func=ast.Attribute(value=ast.Name(id='__sx__', ctx=ast.Load()), attr='call', ctx=ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = BIN.get(type(node.op))
        if op is None:
            return node
        return self.sx('binop', ast.Constant(op), node.left, node.right)

    def visit_AugAssign(self, node):
        op = BIN.get(type(node.op))
        if op is not None and isinstance(node.target, ast.Name):
            value = self.visit(node.value)
            load = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.Assign(targets=[node.target], value=self.sx('binop', ast.Constant(op), load, value))
        self.generic_visit(node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                sl = node.slice
                none = ast.Constant(None)
                return self.sx('getitem', node.value,
                               ast.Call(func=ast.Name(id='__sx_slice__', ctx=ast.Load()),
                                        args=[sl.lower or none, sl.upper or none, sl.step or none], keywords=[]))
            return self.sx('getitem', node.value, node.slice)
        node.value = self.sx('loc', node.value)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self.sx('mkdict_display', *items)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return self.sx('mkdict', ast.GeneratorExp(elt=pair, generators=node.generators))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.sx('mkset', ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.sx('mkset', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self.sx('it', node.iter)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self.sx('it', node.iter)
        return node

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.conversion in (-1, 115) and node.format_spec is None:
            conv = ast.Constant(None)
            spec = ast.Constant('')
        else:
            conv = ast.Constant({-1: None, 115: 's', 114: 'r', 97: 'a'}[node.conversion])
            spec = node.format_spec or ast.Constant('')
        return ast.FormattedValue(value=self.sx('fmtval', node.value, conv, spec), conversion=-1, format_spec=None)

    def visit_Match(self, node):
        self.generic_visit(node)
        node.subject = self.sx('subject', node.subject)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException')
        if broad:
            node.body.insert(0, ast.Expr(self.sx('guard')))
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node


def rewrite(source, path, modname):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(source, path)
        rw = Rewriter(modname)
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True), rw.functions


class Loader(importlib.abc.Loader):
    def __init__(self, world, path, is_pkg):
        self.world = world
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        code = self.world.code(name, self.path)
        if self.world.mode == 'sym':
            module.__dict__['__sx__'] = runtime.RT
            module.__dict__['__sx_slice__'] = slice
        exec(code, module.__dict__)


class World(importlib.abc.MetaPathFinder):
    """One set of modules (symbolic or native) loaded from the given roots."""

    def __init__(self, mode, roots):
        self.mode = mode
        self.roots = roots             # {top-level package: directory containing it}
        self.codes = {}
        self.modules = {}
        self.functions = []
        self.snapshot = None

    def code(self, name, path):
        if name not in self.codes:
            with open(path, encoding='utf-8') as f:
                source = f.read()
            if self.mode == 'sym':
                code, funcs = rewrite(source, path, name)
                self.functions.extend(funcs)
            else:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    code = compile(source, path, 'exec', dont_inherit=True)
            self.codes[name] = code
        return self.codes[name]

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots or ACTIVE[0] is not self:
            return None
        base = os.path.join(self.roots[top], *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            file, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            file, pkg = base + '.py', False
        else:
            return None
        spec = importlib.util.spec_from_loader(fullname, Loader(self, file, pkg), is_package=pkg, origin=file)
        if pkg:
            spec.submodule_search_locations = [base]
        return spec

    def activate(self):
        if ACTIVE[0] is self:
            return
        if ACTIVE[0] is not None:
            ACTIVE[0].collect()
        for name in [n for n in sys.modules if n.split('.')[0] in self.roots]:
            del sys.modules[name]
        sys.modules.update(self.modules)
        ACTIVE[0] = self
        if self not in sys.meta_path:
            sys.meta_path.insert(0, self)

    def collect(self):
        self.modules = {n: m for n, m in sys.modules.items() if n.split('.')[0] in self.roots}

    def load(self, names):
        self.activate()
        for n in names:
            importlib.import_module(n)
        self.collect()
        self.snapshot = State(self)

    def restore(self):
        return self.snapshot.restore()


ACTIVE = [None]


class State:
    """
    Snapshot of every mutable object reachable from the modules of a world, so that each
    path starts from the state right after import.
    """

    def __init__(self, world):
        self.world = world
        self.holders = []
        self.lru = []
        seen = set()
        todo = list(world.modules.values())
        tops = tuple(world.roots)
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, types.ModuleType):
                if o.__name__.split('.')[0] not in tops:
                    continue
                d = o.__dict__
                self.holders.append(('dict', d, dict(d)))
                todo.extend(d.values())
            elif isinstance(o, type):
                if o.__module__.split('.')[0] not in tops:
                    continue
                d = {k: v for k, v in o.__dict__.items() if k not in ('__dict__', '__weakref__', '__doc__', '__abstractmethods__')}
                self.holders.append(('class', o, d))
                todo.extend(d.values())
                todo.extend(o.__bases__)
            elif isinstance(o, types.FunctionType):
                if (o.__module__ or '').split('.')[0] not in tops:
                    continue
                todo.extend(o.__defaults__ or ())
                todo.extend((o.__kwdefaults__ or {}).values())
                if o.__dict__:
                    todo.extend(o.__dict__.values())
                self.holders.append(('dict', o.__dict__, dict(o.__dict__)))
                for c in o.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                        self.holders.append(('cell', c, c.cell_contents))
                    except ValueError:
                        pass
            elif isinstance(o, (staticmethod, classmethod)):
                todo.append(o.__func__)
            elif isinstance(o, property):
                todo.extend(x for x in (o.fget, o.fset, o.fdel) if x)
            elif isinstance(o, runtime._LRU):
                self.lru.append(o)
                todo.append(o.__wrapped__)
            elif isinstance(o, dict):
                self.holders.append(('dict', o, dict(o)))
                todo.extend(o.values())
                todo.extend(o.keys())
            elif isinstance(o, list):
                self.holders.append(('list', o, list(o)))
                todo.extend(list.__iter__(o))
            elif isinstance(o, set):
                self.holders.append(('set', o, set(o)))
            elif isinstance(o, (tuple, frozenset)):
                todo.extend(o)
            elif type(o).__module__.split('.')[0] in tops and hasattr(o, '__dict__'):
                self.holders.append(('dict', o.__dict__, dict(o.__dict__)))
                todo.extend(o.__dict__.values())

    def restore(self):
        """Restore; returns True if something had changed."""
        dirty = False
        for kind, o, saved in self.holders:
            if kind == 'dict':
                if len(o) != len(saved) or any(o.get(k, o) is not v for k, v in saved.items()):
                    dirty = True
                    dict.clear(o)
                    dict.update(o, saved)
            elif kind == 'class':
                cur = o.__dict__
                for k, v in saved.items():
                    if cur.get(k, o) is not v:
                        dirty = True
                        type.__setattr__(o, k, v)
                for k in [k for k in cur if k not in saved and k not in (
                        '__dict__', '__weakref__', '__doc__', '__abstractmethods__', '__annotations__')]:
                    dirty = True
                    type.__delattr__(o, k)
            elif kind == 'list':
                if list.__len__(o) != len(saved) or any(a is not b for a, b in zip(list.__iter__(o), saved)):
                    dirty = True
                    list.clear(o)
                    list.extend(o, saved)
            elif kind == 'set':
                if o != saved:
                    dirty = True
                    o.clear()
                    o.update(saved)
            elif kind == 'cell':
                try:
                    changed = o.cell_contents is not saved
                except ValueError:
                    changed = True
                if changed:
                    dirty = True
                    o.cell_contents = saved
        for f in self.lru:
            f.cache_clear()
        return dirty
