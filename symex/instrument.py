"""Loads an instrumented copy of /repo's current source.

The source files are re-read and re-written (AST) on every run: calls,
membership/identity tests, subscripts, f-strings, %-formatting and set displays
go through hooks that understand symbolic operands.  Everything else is the
code exactly as Python would run it.
"""
import ast
import builtins
import importlib
import importlib.util
import os
import sys
import types

HOOK = '__sx__'


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []

    def hook(self, name, args, keywords=(), node=None):
        c = ast.Call(
            func=ast.Attribute(value=ast.Name(id=HOOK, ctx=ast.Load()),
                               attr=name, ctx=ast.Load()),
            args=list(args), keywords=list(keywords))
        return ast.copy_location(c, node) if node is not None else c

    # -- calls
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in (
                'super', 'locals', 'globals', '__class__') and not node.args:
            return node
        self.generic_visit(node)
        return self.hook('call', [node.func] + node.args, node.keywords, node)

    def _deco(self, node):
        node.decorator_list = [
            self.hook('deco', [self.visit(d)], node=d)
            for d in node.decorator_list]

    def visit_FunctionDef(self, node):
        self._deco(node)
        self.scope.append(node.name)
        decos, node.decorator_list = node.decorator_list, []
        returns, node.returns = node.returns, None
        self.generic_visit(node)
        node.decorator_list = decos
        node.returns = returns
        qual = '%s.%s' % (self.modname, '.'.join(self.scope))
        enter = ast.Expr(self.hook('enter', [ast.Constant(qual)]))
        at = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                node.body[0].value, ast.Constant):
            at = 1
        node.body.insert(at, ast.copy_location(enter, node.body[0]))
        self.scope.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self._deco(node)
        self.scope.append(node.name)
        decos, node.decorator_list = node.decorator_list, []
        self.generic_visit(node)
        node.decorator_list = decos
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        # annotations are not executed symbolically
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    # -- comparisons
    def visit_Compare(self, node):
        self.generic_visit(node)
        special = (ast.In, ast.NotIn, ast.Is, ast.IsNot)
        if not any(isinstance(o, special) for o in node.ops):
            if len(node.ops) == 1 and isinstance(node.ops[0],
                                                 (ast.Eq, ast.NotEq)):
                return self.hook(
                    'eq' if isinstance(node.ops[0], ast.Eq) else 'ne',
                    [node.left, node.comparators[0]], node=node)
            return node
        if len(node.ops) == 1:
            name = {ast.In: 'in_', ast.NotIn: 'not_in', ast.Is: 'is_',
                    ast.IsNot: 'is_not'}[type(node.ops[0])]
            return self.hook(name, [node.left, node.comparators[0]],
                             node=node)
        names = ast.Constant(tuple(type(o).__name__ for o in node.ops))
        # a chain containing in/is: operands are evaluated lazily
        thunks = [ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                               kw_defaults=[], defaults=[]), body=c)
            for c in node.comparators]
        return self.hook('chain', [names, node.left] + thunks, node=node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.hook('not_', [node.operand], node=node)
        return node

    # -- subscripts
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.hook('getitem', [node.value, _slice_expr(node.slice)],
                             node=node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and self._keyed(node.targets[0]):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self.hook(
                'setitem', [node.value, t.value, t.slice], node=node)), node)
        return node

    @staticmethod
    def _keyed(t):
        return isinstance(t, ast.Subscript) and not isinstance(
            t.slice, (ast.Slice, ast.Constant)) and not (
                isinstance(t.slice, ast.Tuple) and any(
                    isinstance(e, ast.Slice) for e in t.slice.elts))

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self._keyed(node.target):
            t = node.target
            return ast.copy_location(ast.Expr(self.hook(
                'augitem', [ast.Constant(type(node.op).__name__), t.value,
                            t.slice, node.value], node=node)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and self._keyed(node.targets[0]):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self.hook(
                'delitem', [t.value, t.slice], node=node)), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        if any(k is None for k in node.keys):
            return node
        return self.hook('dict_', [ast.List(elts=[
            ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)], ctx=ast.Load())],
            node=node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value],
                                        ctx=ast.Load()),
                          generators=node.generators)
        return self.hook('dict_', [ast.copy_location(lc, node)], node=node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec \
                    else ast.Constant('')
                parts.append(ast.Tuple(elts=[
                    self.visit(v.value), ast.Constant(v.conversion), spec],
                    ctx=ast.Load()))
        return self.hook('fstr', parts, node=node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.hook('mod', [node.left, node.right], node=node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.hook('set_', [ast.List(elts=node.elts, ctx=ast.Load())],
                         node=node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return self.hook('set_', [ast.copy_location(lc, node)], node=node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        bare = node.type is None or (
            isinstance(node.type, ast.Name) and
            node.type.id == 'BaseException')
        if bare:
            node.body.insert(0, ast.copy_location(
                ast.Expr(self.hook('reraise', [])), node.body[0]))
        return node

    # -- match statements, as if/elif over rt.match
    def visit_Match(self, node):
        self.nmatch = getattr(self, 'nmatch', 0) + 1
        subj, binds = '__sxm%d' % self.nmatch, '__sxb%d' % self.nmatch
        first = ast.Assign(targets=[ast.Name(id=subj, ctx=ast.Store())],
                           value=self.visit(node.subject))
        out, tail = [ast.copy_location(first, node)], None
        for case in node.cases:
            names = []
            pat = self._pattern(case.pattern, names)
            test = [ast.Compare(
                left=ast.NamedExpr(
                    target=ast.Name(id=binds, ctx=ast.Store()),
                    value=self.hook('match', [
                        ast.Name(id=subj, ctx=ast.Load()), pat])),
                ops=[ast.IsNot()], comparators=[ast.Constant(None)])]
            if names:
                test.append(ast.Tuple(elts=[ast.NamedExpr(
                    target=ast.Name(id=n, ctx=ast.Store()),
                    value=ast.Subscript(
                        value=ast.Name(id=binds, ctx=ast.Load()),
                        slice=ast.Constant(n), ctx=ast.Load()))
                    for n in names], ctx=ast.Load()))
            if case.guard is not None:
                test.append(self.visit(case.guard))
            body = []
            for stmt in case.body:
                r = self.visit(stmt)
                body.extend(r if isinstance(r, list) else [r])
            br = ast.copy_location(ast.If(
                test=ast.BoolOp(op=ast.And(), values=test)
                if len(test) > 1 else test[0], body=body, orelse=[]),
                case.pattern)
            (out if tail is None else tail.orelse).append(br)
            tail = br
        return out

    def _pattern(self, p, names):
        def tup(kind, *xs):
            return ast.Tuple(elts=[ast.Constant(kind), *xs], ctx=ast.Load())

        def many(ps):
            return ast.Tuple(elts=[self._pattern(q, names) for q in ps],
                             ctx=ast.Load())
        if isinstance(p, ast.MatchValue):
            return tup('value', self.visit(p.value))
        if isinstance(p, ast.MatchSingleton):
            return tup('single', ast.Constant(p.value))
        if isinstance(p, ast.MatchSequence):
            return tup('seq', many(p.patterns))
        if isinstance(p, ast.MatchStar):
            if p.name:
                names.append(p.name)
            return tup('star', ast.Constant(p.name))
        if isinstance(p, ast.MatchMapping):
            if p.rest:
                names.append(p.rest)
            return tup('map', ast.Tuple(
                elts=[self.visit(k) for k in p.keys], ctx=ast.Load()),
                many(p.patterns), ast.Constant(p.rest))
        if isinstance(p, ast.MatchClass):
            return tup('class', self.visit(p.cls), many(p.patterns),
                       ast.Constant(tuple(p.kwd_attrs)), many(p.kwd_patterns))
        if isinstance(p, ast.MatchAs):
            inner = ast.Constant(None) if p.pattern is None else \
                self._pattern(p.pattern, names)
            if p.name:
                names.append(p.name)
            return tup('as', inner, ast.Constant(p.name))
        if isinstance(p, ast.MatchOr):
            found = []
            alts = []
            for q in p.patterns:
                mine = []
                alts.append(self._pattern(q, mine))
                found = mine
            names.extend(found)
            return tup('or', ast.Tuple(elts=alts, ctx=ast.Load()))
        raise NotImplementedError(type(p).__name__)


def _slice_expr(s):
    if isinstance(s, ast.Slice):
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id=HOOK, ctx=ast.Load()),
                               attr='slice', ctx=ast.Load()),
            args=[x if x is not None else ast.Constant(None)
                  for x in (s.lower, s.upper, s.step)], keywords=[]), s)
    if isinstance(s, ast.Tuple):
        return ast.copy_location(ast.Tuple(
            elts=[_slice_expr(e) for e in s.elts], ctx=ast.Load()), s)
    return s


class Loader:
    """Holds instrumented modules under their own names, outside sys.modules."""

    def __init__(self, rt, root='/repo', package='webauthn_rp',
                 stdlib=('urllib.parse', 'base64')):
        self.rt = rt
        self.root = root
        self.package = package
        self.stdlib = stdlib
        self.mods = {}
        self.files = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self._import

    def _is_ours(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            name = base + '.' + name if name else base
        if not self._is_ours(name):
            return importlib.__import__(name, globals, locals, fromlist, 0)
        mod = self.load(name)
        if fromlist:
            for f in fromlist:
                if f == '*' or hasattr(mod, f):
                    continue
                try:
                    setattr(mod, f, self.load(name + '.' + f))
                except ImportError:
                    pass
            return mod
        return self.load(name.split('.')[0])

    def _path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, is_pkg = self._path(name)
        if not os.path.exists(path):
            raise ImportError('no module %s' % name, name=name)
        mod = self._exec(name, path, is_pkg)
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            setattr(self.mods[parent], child, mod)
        return mod

    def _exec(self, name, path, is_pkg=False, register=True):
        with open(path, 'rb') as f:
            src = f.read()
        self.files[path] = src
        tree = ast.parse(src, path)
        future = [n for n in tree.body if isinstance(n, ast.ImportFrom)
                  and n.module == '__future__']
        rw = Rewriter(name)
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec', dont_inherit=True)
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name if is_pkg else name.rpartition('.')[0]
        if is_pkg:
            mod.__path__ = [os.path.dirname(path)]
        mod.__dict__['__builtins__'] = self.builtins
        mod.__dict__[HOOK] = self.rt
        if register:
            self.mods[name] = mod
        try:
            exec(code, mod.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return mod

    def load_stdlib(self):
        out = {}
        for name in self.stdlib:
            real = importlib.import_module(name)
            out[name] = (real, self._exec('sxstd.' + name, real.__file__))
        return out
