"""C16: programs, exports, documented calls and every name used exist."""
import ast
import builtins
import importlib
import inspect
import os
import re
import textwrap

from . import rule

PKG = 'gemlog'
G_PROG = 'every program starts an existing function that needs no arguments'
G_EXP = 'every name imported from the package exists'
G_DOC = 'every documented call is of an existing function that takes those arguments'
G_NAME = 'every name used is defined'
G_ORDER = 'no variable is used where it cannot have a value'
G_ATTR = 'every attribute of a module of the package exists'
G_EXT = 'every function of another library that is used exists'
G_CALL = 'calls of functions of the package fit their parameters'
G_ECALL = 'calls of functions of other libraries fit their parameters'
GUARDS = {'AttributeError', 'NameError', 'ImportError', 'ModuleNotFoundError'}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def bound_by(stmts, out=None):
    """Names bound by statements of one scope (anywhere in them)."""
    out = set() if out is None else out
    for s in stmts:
        for n in scope_walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name.split('.')[0]))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                out.add(n.rest)
    return out


COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def scope_walk(n):
    """Nodes of one scope: bodies of nested functions and classes and targets of comprehensions are left out."""
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        kids = n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]
    elif isinstance(n, ast.Lambda):
        kids = n.args.defaults + [d for d in n.args.kw_defaults if d]
    elif isinstance(n, ast.ClassDef):
        kids = n.decorator_list + n.bases + [k.value for k in n.keywords]
    elif isinstance(n, COMP):
        kids = [n.generators[0].iter]
        for w in ast.walk(n):
            if isinstance(w, ast.NamedExpr):
                kids.append(w.target)
    else:
        kids = list(ast.iter_child_nodes(n))
    for k in kids:
        yield from scope_walk(k)


class Scope:
    def __init__(self, mod, node, parent):
        self.mod, self.node, self.parent = mod, node, parent
        self.globals = set()
        self.nonlocals = set()
        if isinstance(node, COMP):
            self.names = {n.id for g in node.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            self.body = []
            return
        self.body = node.body if isinstance(node.body, list) else [node.body]
        self.names = bound_by(self.body)
        if isinstance(node, FUNC):
            a = node.args
            self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            self.names |= self.params
        for s in self.body:
            for n in scope_walk(s):
                if isinstance(n, ast.Global):
                    self.globals |= set(n.names)
                elif isinstance(n, ast.Nonlocal):
                    self.nonlocals |= set(n.names)
        self.names -= self.globals | self.nonlocals

    def resolve(self, name):
        """The scope that binds a name, or None."""
        s, first = self, True
        while s is not None:
            if name in s.globals:
                while s.parent is not None:
                    s = s.parent
                return s if name in s.names else None
            if name in s.names and (first or not isinstance(s.node, ast.ClassDef)):
                return s
            first = first and isinstance(s.node, COMP)
            s = s.parent
        return None


def imports_of(scope):
    """{local name: dotted target} of import statements of a scope; only names bound by nothing else."""
    out, other = {}, set()
    for s in scope.body:
        for n in scope_walk(s):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        out.setdefault(a.asname, set()).add(a.name)
                    else:
                        out.setdefault(a.name.split('.')[0], set()).add(a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = scope.mod.name.split('.')
                    if not scope.mod.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    out.setdefault(a.asname or a.name, set()).add(base + ':' + a.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                other.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                other.add(n.name)
    return {k: next(iter(v)) for k, v in out.items() if len(v) == 1 and k not in other and k not in getattr(scope, 'params', ())}


class Unbound:
    """Uses of local variables that no path can have assigned (possibly-assigned sets, joined by union)."""

    def __init__(self, scope):
        self.scope, self.bad = scope, []
        self.locals = scope.names - getattr(scope, 'params', set())
        self.brk, self.cont, self.raised = [], [], []

    def run(self):
        self.block(self.scope.body, frozenset())
        return self.bad

    def loads(self, e, st):
        """Check an expression, return the state with its walrus targets."""
        if e is None or st is None:
            return st
        new = set()
        for n in scope_walk(e):
            if isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
                new.add(n.target.id)
        for n in scope_walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in st and n.id not in new:
                self.bad.append(n)
        return st | new

    def store(self, t, st):
        if st is None:
            return st
        out = set()
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
        self.loads(t, st)
        return st | out

    @staticmethod
    def join(a, b):
        return b if a is None else a if b is None else a | b

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
            if st is not None:
                for r in self.raised:
                    r.append(st)
        return st

    def stmt(self, s, st):
        J = self.join
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.loads(d, st)
            return st | {s.name}
        if isinstance(s, ast.Assign):
            st = self.loads(s.value, st)
            for t in s.targets:
                st = self.store(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.locals and s.target.id not in st:
                self.bad.append(s.target)
            return self.store(s.target, self.loads(s.value, st))
        if isinstance(s, ast.AnnAssign):
            return self.store(s.target, self.loads(s.value, st)) if s.value is not None else st
        if isinstance(s, (ast.Expr, ast.Return, ast.Assert, ast.Raise, ast.Delete)):
            for v in ast.iter_child_nodes(s):
                if not isinstance(v, ast.expr_context):
                    st = self.loads(v, st)
            if isinstance(s, ast.Delete):
                return st - {n.id for t in s.targets for n in [t] if isinstance(n, ast.Name)}
            return None if isinstance(s, (ast.Return, ast.Raise)) else st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {a.asname or a.name.split('.')[0] for a in s.names}
        if isinstance(s, ast.If):
            st = self.loads(s.test, st)
            return J(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                st = self.loads(s.test, st)
                head = st
            else:
                st = self.loads(s.iter, st)
                head = self.store(s.target, st)
            self.brk.append([])
            self.cont.append([])
            mark = len(self.bad)
            end = self.block(s.body, head)
            for x in self.cont[-1]:
                end = J(end, x)
            again = J(head, end)
            del self.bad[mark:]
            self.brk[-1], self.cont[-1] = [], []
            end = self.block(s.body, again)
            if isinstance(s, ast.While):
                self.loads(s.test, J(again, end))
            for x in self.cont.pop():
                end = J(end, x)
            out = J(st, end)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                out = None
            out = self.block(s.orelse, out) if out is not None else None
            for x in self.brk.pop():
                out = J(out, x)
            return out
        if isinstance(s, ast.Break):
            if self.brk:
                self.brk[-1].append(st)
            return None
        if isinstance(s, ast.Continue):
            if self.cont:
                self.cont[-1].append(st)
            return None
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            acc = [st]
            self.raised.append(acc)
            end = self.block(s.body, st)
            self.raised.pop()
            # whatever the body binds may be bound when a handler starts
            inh = frozenset().union(*acc) if acc else st
            end = self.block(s.orelse, end) if end is not None else None
            for h in s.handlers:
                hs = self.loads(h.type, inh)
                hs = hs | ({h.name} if h.name else set())
                he = self.block(h.body, hs)
                if he is not None and h.name:
                    he = he - {h.name}
                end = J(end, he)
            if s.finalbody:
                f = self.block(s.finalbody, J(end, inh))
                end = None if end is None or f is None else J(end, f)
            return end
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.loads(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.store(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, getattr(ast, 'Match', ())):
            st = self.loads(s.subject, st)
            out = st
            for c in s.cases:
                out = J(out, self.block(c.body, st | bound_by([c.pattern])))
            return out
        return st


def site(mod, n):
    return f'{mod.rel}:{getattr(n, "lineno", 0)}'


def module_names(m):
    """Names a module of the package has once it is imported; None if that cannot be told."""
    out = bound_by(m.tree.body)
    if any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree)) or '__getattr__' in out:
        return None
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set()
    return out | {'__name__', '__file__', '__doc__', '__path__', '__package__', '__spec__', '__dict__', '__loader__'}


def package_attr(P, dotted, name):
    """Whether module `dotted` of the package has an attribute: True, False or None."""
    m = P.modules.get(dotted)
    if m is None:
        return None
    names = module_names(m)
    if names is None or name in names:
        return True if names is not None else None
    if dotted + '.' + name in P.modules:
        return True
    return False


def external(dotted, rest):
    """(object or None, first missing part or None) of an attribute chain of another library."""
    try:
        obj = importlib.import_module(dotted)
    except Exception:
        return None, None
    path = dotted
    for r in rest:
        path += '.' + r
        try:
            obj = getattr(obj, r)
            continue
        except AttributeError:
            pass
        except Exception:
            return None, None
        if not inspect.ismodule(obj):
            return (None, r) if inspect.isclass(obj) else (None, None)
        try:
            obj = importlib.import_module(path)
        except ModuleNotFoundError:
            return None, r
        except Exception:
            return None, None
    return obj, None


def fits(args, call):
    """None if a call fits the parameters (ast.arguments), else what does not."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    pos = [a.arg for a in args.posonlyargs + args.args]
    kwo = [a.arg for a in args.kwonlyargs]
    for k in call.keywords:
        if k.arg is not None and args.kwarg is None and k.arg not in pos + kwo:
            return f'there is no parameter {k.arg}'
    if star:
        return None
    if args.vararg is None and len(call.args) > len(pos):
        return f'{len(call.args)} arguments for {len(pos)} parameters'
    given = set(pos[:len(call.args)])
    kws = {k.arg for k in call.keywords}
    if given & kws:
        return f'{sorted(given & kws)[0]} is given twice'
    need = pos[:len(pos) - len(args.defaults)] + [a for a, d in zip(kwo, args.kw_defaults) if d is None]
    miss = [x for x in need if x not in given | kws]
    return f'{miss[0]} is not given' if miss else None


def fits_external(obj, call):
    if hasattr(obj, '__wrapped__') or hasattr(obj, '__deprecated__') or not callable(obj):
        return None
    if inspect.isclass(obj) and (type(obj) is not type or getattr(obj.__init__, '__wrapped__', None) is not None or issubclass(obj, BaseException)):
        return None
    try:
        sig = inspect.signature(obj)
    except (ValueError, TypeError):
        return None
    ps = list(sig.parameters.values())
    names = {p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
    if not any(p.kind == p.VAR_KEYWORD for p in ps):
        for k in call.keywords:
            if k.arg is not None and k.arg not in names:
                return f'there is no parameter {k.arg}'
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    if not any(p.kind == p.VAR_POSITIONAL for p in ps):
        if len(call.args) > len(pos):
            return f'{len(call.args)} arguments for {len(pos)} parameters'
        given = {p.name for p in pos[:len(call.args)]} | {k.arg for k in call.keywords}
        miss = [p.name for p in ps if p.default is p.empty and p.name not in given and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
        if miss:
            return f'{miss[0]} is not given'
    return None


class Walk:
    """Every scope of a module, with the handlers around each node."""

    def __init__(self, c, P, mod):
        self.c, self.P, self.mod = c, P, mod
        self.imps = {}

    def top(self):
        s = Scope(self.mod, self.mod.tree, None)
        s.names |= {'__file__', '__name__', '__doc__', '__path__', '__builtins__', '__package__', '__spec__'}
        s.names |= {g for n in ast.walk(self.mod.tree) if isinstance(n, ast.Global) for g in n.names}
        self.visit_body(s, self.mod.tree.body, (), '')

    def target(self, scope, name):
        s = scope.resolve(name)
        if s is None or isinstance(s.node, COMP):
            return None
        if id(s) not in self.imps:
            self.imps[id(s)] = imports_of(s)
        t = self.imps[id(s)].get(name)
        if t is None and s.parent is None and name in s.names:
            return self.mod.name + ':' + name
        return t

    def visit_body(self, scope, body, guards, where):
        for s in body:
            self.visit(scope, s, guards, where)

    def visit(self, scope, n, guards, where):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(n, 'decorator_list', []) + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(scope, d, guards, where)
            inner = Scope(self.mod, n, scope)
            w = where + ('.' if where else '') + getattr(n, 'name', '<lambda>')
            if not isinstance(n, ast.Lambda):
                done = set()
                for x in Unbound(inner).run():
                    if x.id not in done:
                        done.add(x.id)
                        self.c.ob(G_ORDER, False, f'{self.mod.name}.{w}: {x.id}', f'{x.id} has no value here on any path', site(self.mod, x))
                self.c.ob(G_ORDER, True)
            self.visit_body(inner, inner.body, guards, w)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(scope, d, guards, where)
            self.visit_body(Scope(self.mod, n, scope), n.body, guards, where + ('.' if where else '') + n.name)
            return
        if isinstance(n, COMP):
            inner = Scope(self.mod, n, scope)
            for i, g in enumerate(n.generators):
                self.visit(scope if i == 0 else inner, g.iter, guards, where)
                for x in g.ifs:
                    self.visit(inner, x, guards, where)
                self.visit(inner, g.target, guards, where)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(inner, x, guards, where)
            return
        if isinstance(n, ast.Try):
            names = set()
            for h in n.handlers:
                for t in ast.walk(h.type) if h.type is not None else ():
                    if isinstance(t, (ast.Name, ast.Attribute)):
                        names.add(t.id if isinstance(t, ast.Name) else t.attr)
            g = guards + ((True,) if names & GUARDS else ())
            self.visit_body(scope, n.body, g, where)
            for part in (n.orelse, n.finalbody):
                self.visit_body(scope, part, guards, where)
            for h in n.handlers:
                if h.type is not None:
                    self.visit(scope, h.type, guards, where)
                self.visit_body(scope, h.body, guards, where)
            return
        if isinstance(n, ast.ImportFrom):
            self.imported(n, guards, where)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if not guards:
                self.c.ob(G_NAME, scope.resolve(n.id) is not None or hasattr(builtins, n.id), f'{self.mod.name}.{where}: {n.id}', f'{n.id} is not defined', site(self.mod, n))
            return
        if isinstance(n, ast.Call):
            self.call(scope, n, guards, where)
        if isinstance(n, ast.Attribute):
            self.attribute(scope, n, guards, where)
            base = n
            while isinstance(base, ast.Attribute):
                base = base.value
            self.visit(scope, base, guards, where)
            return
        for k in ast.iter_child_nodes(n):
            self.visit(scope, k, guards, where)

    def chain(self, n):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        return (n.id, parts[::-1]) if isinstance(n, ast.Name) else (None, None)

    def imported(self, n, guards, where):
        if guards:
            return
        base = n.module or ''
        if n.level:
            parts = self.mod.name.split('.')
            if not self.mod.path.endswith('__init__.py'):
                parts = parts[:-1]
            base = '.'.join(parts[:len(parts) - (n.level - 1)] + ([n.module] if n.module else []))
        if base.split('.')[0] != PKG:
            return
        self.c.ob(G_EXP, base in self.P.modules, f'{self.mod.name}: {base}', f'there is no module {base}', site(self.mod, n))
        if base not in self.P.modules:
            return
        for a in n.names:
            if a.name != '*':
                self.c.ob(G_EXP, package_attr(self.P, base, a.name) is not False, f'{self.mod.name}: {base}.{a.name}', f'{base} has no {a.name}', site(self.mod, n))

    def attribute(self, scope, n, guards, where):
        root, parts = self.chain(n)
        if root is None or guards:
            return
        t = self.target(scope, root)
        if t is None or t.startswith(self.mod.name + ':'):
            return
        if ':' in t:
            b, x = t.split(':')
            if b.split('.')[0] == PKG:
                if b + '.' + x not in self.P.modules:
                    return
                t = b + '.' + x
            else:
                t, parts = b, [x] + parts
        if any(isinstance(s, ast.Constant) and s.value == parts[-1] for s in ast.walk(scope.node)):       # hasattr, getattr
            return
        if t.split('.')[0] == PKG:
            cur = t
            for p in parts:
                if cur + '.' + p in self.P.modules and p not in (module_names(self.P.modules[cur]) or ()):
                    cur += '.' + p
                    continue
                ok = package_attr(self.P, cur, p)
                if ok is None:
                    return
                if not ok:
                    ok = isinstance(n.ctx, ast.Store) and p == parts[-1] or self.assigned_here(scope, cur, p, n)
                self.c.ob(G_ATTR, ok, f'{self.mod.name}.{where}: {cur}.{p}', f'{cur} has no {p} when it is imported', site(self.mod, n))
                return
            return
        if isinstance(n.ctx, ast.Load) and t.split('.')[0] in LIBS:
            obj, miss = external(t, parts)
            if miss is not None:
                self.c.ob(G_EXT, False, f'{self.mod.name}.{where}: {t}.{".".join(parts)}', f'{t} has no {".".join(parts)}', site(self.mod, n))
            elif obj is not None:
                self.c.ob(G_EXT, True)

    def assigned_here(self, scope, mod, name, n):
        """Whether the function gives the module that attribute before it uses it."""
        f = scope
        while f.parent is not None and not isinstance(f.node, FUNC):
            f = f.parent
        for s in f.body:
            for x in scope_walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name and x.lineno <= n.lineno:
                    r, p = self.chain(x)
                    if r is not None and p == [name] and self.target(scope, r) == mod:
                        return True
        return False

    def call(self, scope, n, guards, where):
        root, parts = self.chain(n.func)
        if root is None:
            return
        t = self.target(scope, root)
        if t is None:
            return
        if ':' in t:
            b, x = t.split(':')
            full = (b, [x] + parts)
        else:
            full = (t, parts)
        b, parts = full
        if b.split('.')[0] == PKG:
            f = definition(self.P, b, parts)
            if f is not None:
                bad = fits(f[1].args, n)
                self.c.ob(G_CALL, bad is None, f'{self.mod.name}.{where}: {f[0]}', bad or '', site(self.mod, n))
        elif b.split('.')[0] in LIBS and not guards:
            obj, miss = external(b, parts)
            if obj is not None:
                bad = fits_external(obj, n)
                self.c.ob(G_ECALL, bad is None, f'{self.mod.name}.{where}: {b}.{".".join(parts)}', bad or '', site(self.mod, n))


LIBS = {'numpy', 'pandas', 'scipy', 'obspy', 'os', 'glob', 'sys', 're', 'shutil', 'pathlib', 'logging', 'getopt', 'platform', 'time', 'warnings', 'argparse', 'traceback', 'concurrent', 'datetime', 'math', 'csv', 'json', 'itertools', 'functools', 'io', 'struct', 'tempfile', 'multiprocessing'}


def definition(P, mod, parts, depth=0):
    """(name, FunctionDef) of a dotted name of the package, following imports."""
    m = P.modules.get(mod)
    if m is None or not parts or depth > 6:
        return None
    if len(parts) > 1:
        return definition(P, mod + '.' + parts[0], parts[1:], depth) if mod + '.' + parts[0] in P.modules else None
    name = parts[0]
    found = [s for s in m.tree.body if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name]
    stores = [s for s in m.tree.body for n in scope_walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name]
    if stores:
        return None
    if found:
        f = found[-1]
        return (mod + '.' + name, f) if not f.decorator_list and len(found) == 1 else None
    s = Scope(m, m.tree, None)
    t = imports_of(s).get(name)
    if t and ':' in t and t.split('.')[0].split(':')[0] == PKG:
        b, x = t.split(':')
        return definition(P, b, [x], depth + 1)
    return None


def programs(repo):
    """[(program, module, function)] named in setup.py."""
    p = os.path.join(repo, 'setup.py')
    if not os.path.exists(p):
        return []
    out = []
    with open(p, encoding='utf-8') as fh:
        tree = ast.parse(fh.read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            m = re.fullmatch(r'\s*([\w.-]+)\s*=\s*([\w.]+)\s*:\s*([\w.]+)\s*', n.value)
            if m:
                out.append(m.groups())
    return out


def documented(repo):
    """[(document, call or None, dotted name)] of code shown in the documentation."""
    for d, dirs, files in os.walk(repo):
        dirs[:] = [x for x in dirs if x not in ('.git', 'node_modules', 'tests', 'build')]
        for f in sorted(files):
            if not f.endswith(('.md', '.rst')):
                continue
            with open(os.path.join(d, f), encoding='utf-8', errors='replace') as fh:
                text = fh.read()
            for blk in re.findall(r'```[^\n`]*\n(.*?)```', text, re.S):
                try:
                    tree = ast.parse(textwrap.dedent(blk))
                except (SyntaxError, ValueError):
                    continue
                yield os.path.relpath(os.path.join(d, f), repo), tree


@rule('C16')
def c16(c):
    """Scopes, imports and definite absence of a value are computed from the syntax trees of all modules (the compiled reader included); attributes and parameters of other
    libraries are looked up in the versions installed."""
    P = c.ctx.project
    for m in P.modules.values():
        if m.kind == 'py':
            Walk(c, P, m).top()
    for prog, mod, fn in programs(P.repo):
        ok = mod in P.modules
        c.ob(G_PROG, ok, f'{prog}: {mod}', f'the program {prog} starts {mod}, which does not exist', 'setup.py')
        if not ok:
            continue
        has = package_attr(P, mod, fn.split('.')[0])
        c.ob(G_PROG, has is not False, f'{prog}: {mod}:{fn}', f'the program {prog} starts {fn}, which {mod} does not have', 'setup.py')
        f = definition(P, mod, [fn])
        if f is not None:
            bad = fits(f[1].args, ast.Call(func=ast.Name(id=fn), args=[], keywords=[]))
            c.ob(G_PROG, bad is None, f'{prog}: arguments', f'the program {prog} calls {fn} without arguments, but {bad}', 'setup.py')
    for doc, tree in documented(P.repo):
        names = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] == PKG:
                        names[a.asname or PKG] = a.name if a.asname else PKG
            elif isinstance(n, ast.ImportFrom) and (n.module or '').split('.')[0] == PKG and n.module in P.modules:
                for a in n.names:
                    c.ob(G_DOC, package_attr(P, n.module, a.name) is not False, f'{doc}: {n.module}.{a.name}', 'does not exist', doc)
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and (n.value.id in names or n.value.id == PKG):
                mod = names.get(n.value.id, PKG)
                c.ob(G_DOC, package_attr(P, mod, n.attr) is not False, f'{doc}: {mod}.{n.attr}', 'does not exist', doc)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and (n.func.value.id in names or n.func.value.id == PKG):
                f = definition(P, names.get(n.func.value.id, PKG), [n.func.attr])
                if f is not None:
                    bad = fits(f[1].args, n)
                    c.ob(G_DOC, bad is None, f'{doc}: call of {n.func.attr}', bad or '', doc)
    c.need(G_PROG, 4, 'programs in setup.py')
    c.need(G_NAME, 200, 'names')
    c.need(G_CALL, 20, 'calls within the package')
