"""Loads the project (every module of the gemlog package, the compiled reader, setup.py)."""
import ast
import os

REPO = os.environ.get('GEMCHECK_REPO', '/repo')


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (an anchor vanished, a construct is not understood)."""


class Normal(ast.NodeTransformer):
    """`while True: if not c: break; ...` is `while c: ...`; a while loop that counts an index up by one,
    and uses it nowhere else, is a for loop over the range."""

    def _function(self, n):
        self.generic_visit(n)
        for b in list(ast.walk(n)):
            for field in ('body', 'orelse', 'finalbody'):
                blk = getattr(b, field, None)
                if isinstance(blk, list) and len(blk) > 1:
                    self._counted(n, blk)
        return n

    visit_FunctionDef = _function

    def _counted(self, func, blk):
        for k, w in enumerate(blk):
            t = w.test if isinstance(w, ast.While) and not w.orelse else None
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
                continue
            i, bound = t.left.id, t.comparators[0]
            steps = [j for j, x in enumerate(w.body) if self._step(x, i)]
            init = [j for j, x in enumerate(blk[:k]) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
                    and x.targets[0].id == i and isinstance(x.value, ast.Constant)]
            if len(steps) != 1 or len(init) != 1 or len(w.body) < 2:
                continue
            step, init = w.body[steps[0]], blk[init[0]]
            names = lambda xs: [y for x in xs for y in ast.walk(x) if isinstance(y, ast.Name)]
            mine = [y for y in names([w]) + names([init]) if y.id == i]
            if len([y for y in names([func]) if y.id == i]) != len(mine) or \
                    len([y for y in names(w.body) if y.id == i and isinstance(y.ctx, ast.Store)]) != 1 or \
                    any(y.id == i for y in names(w.body[steps[0] + 1:])):
                continue
            if any(isinstance(y, ast.Continue) for x in w.body[:steps[0]] for y in ast.walk(x)):
                continue
            used = {y.id for y in names([bound])} - {'len'}
            if any(isinstance(y, (ast.Attribute, ast.Await)) for y in ast.walk(bound)) or \
                    any(y.id in used and isinstance(y.ctx, (ast.Store, ast.Del)) for y in names(w.body)) or \
                    any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id in used and
                        y.attr in ('append', 'pop', 'remove', 'insert', 'extend', 'clear') for x in w.body for y in ast.walk(x)) or \
                    any(isinstance(y, ast.Delete) for x in w.body for y in ast.walk(x)):
                continue
            args = [bound] if init.value.value == 0 else [init.value, bound]
            rng = ast.Call(ast.Name('range', ast.Load()), args, [])
            f = ast.For(ast.Name(i, ast.Store()), rng, [x for x in w.body if x is not step], [])
            ast.copy_location(f, w)
            for y in (rng, rng.func, f.target):
                ast.copy_location(y, w)
            blk[k] = f
            blk[blk.index(init)] = ast.copy_location(ast.Pass(), init)

    @staticmethod
    def _step(x, i):
        one = lambda v: isinstance(v, ast.Constant) and v.value == 1 and v.value is not True
        if isinstance(x, ast.AugAssign):
            return isinstance(x.target, ast.Name) and x.target.id == i and isinstance(x.op, ast.Add) and one(x.value)
        return isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == i and \
            isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add) and isinstance(x.value.left, ast.Name) and \
            x.value.left.id == i and one(x.value.right)

    def visit_While(self, n):
        self.generic_visit(n)
        while isinstance(n.test, ast.Constant) and n.test.value and not n.orelse and len(n.body) > 1 and isinstance(n.body[0], ast.If) and \
                not n.body[0].orelse and len(n.body[0].body) == 1 and isinstance(n.body[0].body[0], ast.Break):
            t = n.body[0].test
            n.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
            n.body = n.body[1:]
        return n


class Module:
    def __init__(self, name, path, tree, kind='py', src=''):
        self.name, self.path, self.tree, self.kind, self.src = name, path, tree, kind, src
        self.ctypes = {}

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class FuncInfo:
    def __init__(self, module, node, qual, closure=None, cls=None):
        self.module, self.node, self.qual = module, node, qual
        self.closure, self.cls = closure, cls
        self.defaults = None
        self.kwdefaults = None

    @property
    def where(self):
        return f'{self.module.rel}:{self.node.lineno}'

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class Project:
    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.overlay = overlay or {}
        self.modules = {}
        pk = os.path.join(self.repo, 'gemlog')
        if not os.path.isdir(pk):
            raise AnalysisBroken('package directory gemlog not found')
        for d, dirs, files in os.walk(pk):
            dirs[:] = [x for x in sorted(dirs) if x not in ('__pycache__', 'data', 'build')]
            for f in sorted(files):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel.rsplit('.', 1)[0].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                if f.endswith('.py') or f.endswith('.pyx'):
                    src = self.overlay.get(rel)
                    if src is None:
                        with open(p, encoding='utf-8') as fh:
                            src = fh.read()
                if f.endswith('.py'):
                    try:
                        tree = Normal().visit(ast.parse(src, p))
                    except SyntaxError as e:
                        raise AnalysisBroken(f'{rel} does not parse: {e}')
                    self.modules[name] = Module(name, p, tree, 'py', src)
                elif f.endswith('.pyx'):
                    from . import pyx
                    m = Module(name, p, None, 'pyx', src)
                    pyx.load_into(m)
                    self.modules[name] = m

    def func_nodes(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n

    def count_functions(self):
        return sum(1 for _ in self.func_nodes())
