"""Mechanical extraction of the verified text: every module of /repo/sippy (and the
contract files) is parsed from its current source on every run and compiled with
calls, membership tests, dict displays, f-strings and % rerouted through the
verifier.  Nothing else is changed and nothing is dropped."""
import ast
import importlib.abc
import importlib.util
import os
import sys

NAME = '_pyvc_'
BLOCKS = {}     # id -> (file, line, function, kind)
FUNCS = {}      # id -> (file, qualname, line, nstmts)
SOURCES = {}


class T(ast.NodeTransformer):
    def __init__(self, fn, track):
        self.fn = fn
        self.track = track
        self.q = []

    def h(self, attr, node):
        return ast.copy_location(ast.Attribute(ast.Name(NAME, ast.Load()), attr, ast.Load()), node)

    def mk(self, attr, args, node):
        return ast.copy_location(ast.Call(self.h(attr, node), args, []), node)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals', 'vars', 'eval', 'exec'):
            return n
        return ast.copy_location(ast.Call(self.h('call', n), [n.func] + n.args, n.keywords), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self.mk('contains', [n.comparators[0], n.left], n)
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
            return r
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self.mk('mod', [n.left, n.right], n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(k is not None for k in n.keys):
            prs = [ast.copy_location(ast.Tuple([k, v], ast.Load()), n) for k, v in zip(n.keys, n.values)]
            return self.mk('mkdict', [ast.copy_location(ast.List(prs, ast.Load()), n)], n)
        return self.mk('mkdict', [n], n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        lst = ast.copy_location(ast.ListComp(ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n), n.generators), n)
        return self.mk('mkdict', [lst], n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return self.mk('mkset', [ast.copy_location(ast.List(n.elts, ast.Load()), n)], n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self.mk('mkset', [ast.copy_location(ast.ListComp(n.elt, n.generators), n)], n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            v = self.mk('mod', [ast.copy_location(ast.Name(n.target.id, ast.Load()), n), n.value], n)
            return ast.copy_location(ast.Assign([n.target], v), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                t = ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load())
                parts.append(t)
        lst = ast.List(parts, ast.Load())
        r = self.mk('fstr', [lst], n)
        ast.fix_missing_locations(r)
        return r

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n

    def stmt(self, attr, k, node):
        s = ast.Expr(self.mk(attr, [ast.Constant(k)], node))
        ast.copy_location(s, node)
        ast.fix_missing_locations(s)
        return s

    def block(self, body, node, kind):
        if not self.track or not body:
            return body
        k = len(BLOCKS)
        BLOCKS[k] = (self.fn, body[0].lineno, '.'.join(self.q), kind)
        return [self.stmt('blk', k, body[0])] + body

    def visit_FunctionDef(self, n):
        deco = n.decorator_list
        n.decorator_list = []
        self.q.append(n.name)
        ret, n.returns = n.returns, None
        n.args = self.visit(n.args)
        n.body = [self.visit(s) for s in n.body]
        n.returns = ret
        if self.track:
            k = len(FUNCS)
            FUNCS[k] = (self.fn, '.'.join(self.q), n.lineno, len(n.body))
            doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
            n.body = doc + [self.stmt('enter', k, n)] + n.body[len(doc):]
        self.q.pop()
        n.decorator_list = deco
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        self.q.append(n.name)
        n.body = [self.visit(s) for s in n.body]
        self.q.pop()
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.block([self.visit(s) for s in n.body], n, 'if')
        elif_ = len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)
        n.orelse = [self.visit(s) for s in n.orelse]
        if n.orelse and not elif_:
            n.orelse = self.block(n.orelse, n, 'else')
        return n

    def visit_For(self, n):
        n.target = self.visit(n.target)
        n.iter = self.mk('iter', [self.visit(n.iter)], n.iter)
        n.body = self.block([self.visit(s) for s in n.body], n, 'for')
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    def visit_While(self, n):
        n.test = self.visit(n.test)
        n.body = [self.visit(s) for s in n.body]
        tick = self.stmt('tick', 0, n.body[0])
        n.body = [tick] + self.block(n.body, n, 'while')
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    def visit_ExceptHandler(self, n):
        n.body = self.block([self.visit(s) for s in n.body], n, 'except')
        g = ast.Expr(self.mk('guard', [], n))
        ast.copy_location(g, n)
        ast.fix_missing_locations(g)
        n.body = [g] + n.body
        if n.type is not None:
            n.type = self.visit(n.type)
        return n

    def visit_Constant(self, n):
        return n


def compile_source(src, filename, track):
    tree = ast.parse(src, filename)
    t = T(filename, track)
    tree.body = [t.visit(s) for s in tree.body]
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg, track, hooks):
        self.path = path
        self.is_pkg = is_pkg
        self.track = track
        self.hooks = hooks

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        SOURCES[self.path] = src
        module.__dict__[NAME] = self.hooks
        code = compile_source(src, self.path, self.track)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, hooks):
        self.roots = roots   # package name -> (dir of package, track)
        self.hooks = hooks

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base, track = self.roots[top]
        rel = name.split('.')[1:]
        p = os.path.join(base, *rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            ld = Loader(f, True, track, self.hooks)
            return importlib.util.spec_from_file_location(name, f, loader=ld, submodule_search_locations=[p])
        if os.path.isdir(p):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        if os.path.exists(p + '.py'):
            ld = Loader(p + '.py', False, track, self.hooks)
            return importlib.util.spec_from_file_location(name, p + '.py', loader=ld)
        return None


# modules of the standard library whose own text is verified along with the code that uses them
STDLIB = ('configparser',)


def install(repo, verif, hooks):
    roots = {'sippy': (os.path.join(repo, 'sippy'), True), 'contracts': (os.path.join(verif, 'contracts'), False)}
    for m in STDLIB:
        roots[m] = (os.path.join(os.path.dirname(os.__file__), m), False)
        sys.modules.pop(m, None)
    sys.meta_path.insert(0, Finder(roots, hooks))
