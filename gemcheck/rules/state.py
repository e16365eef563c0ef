"""C28: calls leave nothing behind but their results and their output files, and do not depend on the order of listings."""
import ast

from . import rule
from .exists import Scope, definition, imports_of, scope_walk, site

PKG = 'gemlog'
NONE = frozenset()
U = ('unordered',)
DEPTH = 3


def inside(v):
    """Origins of a container of v."""
    return frozenset((o[0], o[1], o[2] + 1) for o in v if o != U and o[2] < DEPTH)


def part(v):
    """Origins of a part of v."""
    return frozenset((o[0], o[1], max(o[2] - 1, 0)) for o in v if o != U)

# methods that change their receiver whatever they are used for
MUTATE = {'append', 'extend', 'insert', 'clear', 'setdefault', 'popitem', 'detrend', 'taper', 'trim', 'remove_response', 'remove_sensitivity', 'decimate', 'normalize',
          'simulate', 'attach_response', 'fill', 'itemset', 'byteswap', 'setflags', 'setfield', 'partition_inplace', 'sort_values_inplace', 'discard', 'intersection_update',
          'difference_update', 'symmetric_difference_update', 'appendleft', 'popleft', 'rotate'}
# methods that change their receiver if their result is not used (those of other types return a new object)
MUTATE_STMT = MUTATE | {'sort', 'reverse', 'remove', 'pop', 'add', 'update', 'filter', 'merge', 'interpolate', 'resample', 'differentiate', 'integrate', 'rotate', 'resize',
                        'put', 'insert', 'verify', 'trigger', 'cutout', '_cleanup'}
# methods whose result shares data with their receiver
SHARE = {'select', 'slice', 'split', 'view', 'ravel', 'reshape', 'transpose', 'squeeze', 'swapaxes', 'to_numpy', 'get', 'items', 'values', 'iterrows', 'itertuples', '__iter__'}
INPLACE_RETURNS = {'detrend', 'taper', 'trim', 'decimate', 'normalize', 'simulate', 'merge', 'filter', 'interpolate', 'resample', 'sort', 'remove_response'}
SHARE_FN = {'builtins.enumerate', 'builtins.zip', 'builtins.reversed', 'builtins.iter', 'builtins.next', 'builtins.filter', 'numpy.asarray', 'numpy.atleast_1d', 'numpy.ravel', 'numpy.reshape',
            'numpy.squeeze', 'numpy.asanyarray', 'numpy.transpose', 'obspy.Stream', 'obspy.core.Stream', 'builtins.map', 'builtins.getattr', 'builtins.vars'}
# an element of the list is the element of its argument
SHARE_ELEMENTS = {'builtins.list', 'builtins.sorted', 'builtins.tuple', 'builtins.dict', 'builtins.max', 'builtins.min'}
MUTATE_FN = {'numpy.put': (0,), 'numpy.copyto': (0,), 'numpy.place': (0,), 'numpy.putmask': (0,), 'numpy.fill_diagonal': (0,), 'numpy.random.shuffle': (0,), 'random.shuffle': (0,),
             'heapq.heappush': (0,), 'heapq.heappop': (0,), 'heapq.heapify': (0,), 'bisect.insort': (0,), 'builtins.setattr': (0,), 'builtins.delattr': (0,)}
PROCESS = {
    'os.chdir': 'the working directory', 'os.fchdir': 'the working directory', 'os.putenv': 'the environment', 'os.unsetenv': 'the environment', 'os.umask': 'the file mode mask',
    'locale.setlocale': 'the locale', 'numpy.seterr': 'the handling of numeric errors', 'numpy.seterrcall': 'the handling of numeric errors', 'numpy.set_printoptions': 'number formats',
    'numpy.random.seed': 'the random state', 'random.seed': 'the random state', 'pandas.set_option': 'options of pandas', 'pandas.reset_option': 'options of pandas',
    'sys.setrecursionlimit': 'the recursion limit', 'signal.signal': 'signal handlers', 'socket.setdefaulttimeout': 'timeouts', 'matplotlib.pyplot.switch_backend': 'the plotting backend',
    'matplotlib.use': 'the plotting backend', 'time.tzset': 'the time zone', 'gc.disable': 'the garbage collector', 'os.nice': 'the priority', 'warnings.filterwarnings': 'the warning filters',
    'warnings.simplefilter': 'the warning filters', 'warnings.resetwarnings': 'the warning filters', 'logging.disable': 'logging', 'numpy.set_string_function': 'number formats',
    'decimal.setcontext': 'decimal arithmetic', 'multiprocessing.set_start_method': 'how processes start', 'pandas.options': 'options of pandas'}
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}
EXT_STATE = ('os.environ', 'sys.path', 'sys.argv', 'sys.modules', 'sys.stdout', 'sys.stderr', 'matplotlib.rcParams', 'matplotlib.pyplot.rcParams', 'pandas.options', 'warnings.filters',
             'obspy.core', 'numpy')
LISTING = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk'}
KEEP_ORDER = {'numpy.array', 'numpy.asarray', 'pandas.Series', 'pandas.Index', 'pandas.DataFrame', 'pandas.concat', 'numpy.concatenate', 'numpy.hstack', 'itertools.chain', 'itertools.islice'}
REDUCE = {'mean', 'median', 'min', 'max', 'sum', 'std', 'nanmean', 'nanmedian', 'nanmin', 'nanmax'}
LISTING_M = {'iterdir', 'rglob'}
RANDOM = ('numpy.random.', 'random.', 'secrets.', 'uuid.uuid')
G_ARG = 'objects given by the caller are not changed'
G_GLOB = 'nothing is kept from one call to the next'
G_PROC = 'settings of the process are not changed'
G_ORD = 'results do not depend on the order of a listing'
G_RAND = 'results do not depend on random numbers'


class Summary:
    def __init__(self):
        self.mut = {}          # parameter -> (site, path)
        self.glob = {}         # global -> (site, path)
        self.ret = frozenset()
        self.fx = False        # writes files or prints: the order of calls matters

    def key(self):
        return (frozenset(self.mut), frozenset(self.glob), self.ret, self.fx)


class Program:
    def __init__(self, P):
        self.P = P
        self.funcs, self.sum, self.mods = {}, {}, {}
        for m in P.modules.values():
            if m.kind != 'py':
                continue
            self.mods[m.name] = Scope(m, m.tree, None)
            for n in m.tree.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs[m.name + '.' + n.name] = (m, n)
                elif isinstance(n, ast.ClassDef):
                    for k in n.body:
                        if isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            self.funcs[f'{m.name}.{n.name}.{k.name}'] = (m, k)
        for q in self.funcs:
            self.sum[q] = Summary()
        self.imps = {m: imports_of(s) for m, s in self.mods.items()}

    def solve(self):
        for _ in range(12):
            changed = False
            for q, (m, n) in self.funcs.items():
                k = self.sum[q].key()
                w = Walk(self, m, n, q)
                w.run()
                self.sum[q] = w.out
                changed |= w.out.key() != k
            if not changed:
                return True
        return False


class Walk:
    """One function: for each variable the parameters and module variables whose objects it may share, and whether it is in the order of a listing."""

    def __init__(self, prog, mod, fn, qual):
        self.prog, self.mod, self.fn, self.qual = prog, mod, fn, qual
        self.scope = Scope(mod, fn, prog.mods[mod.name])
        self.imps = dict(prog.imps[mod.name])
        local = imports_of(self.scope)
        for k in self.scope.names:
            self.imps.pop(k, None)
        self.imps.update(local)
        self.out = Summary()
        self.calls, self.order, self.process, self.random = 0, [], [], []
        self.nparams = 0
        self.quiet_warn = 0
        self.brk = []

    def run(self):
        env = {}
        a = self.fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            env[x.arg] = frozenset({('p', x.arg, 0)})
            self.nparams += 1
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = NONE
        self.block(self.fn.body, env)
        for d in self.fn.decorator_list:
            t = self.dotted(d.func if isinstance(d, ast.Call) else d)
            if t in CACHES:
                self.out.glob['results of ' + self.qual] = (site(self.mod, d), self.qual)

    # -- values
    def dotted(self, e):
        """Full name of an expression that is a function or object of a library or of the package."""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        n = e.id
        if n in self.imps:
            base = self.imps[n].replace(':', '.')
        elif self.scope.resolve(n) is None:
            base = 'builtins.' + n
        elif n not in self.scope.names and n in self.prog.mods[self.mod.name].names:
            base = self.mod.name + '.' + n
        else:
            return None
        return '.'.join([base] + parts[::-1])

    def gvar(self, n):
        """Origin of a name that is a variable of the module."""
        if n in self.scope.names or n in self.imps:
            return None
        s = self.prog.mods[self.mod.name]
        if n in s.names or n in self.scope.globals:
            if any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == n for x in self.mod.tree.body):
                return None
            return ('g', self.mod.name + '.' + n, 0)
        return None

    def val(self, e, env):
        """Origins of an expression; checks the effects in it."""
        if e is None:
            return NONE
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            g = self.gvar(e.id)
            return frozenset({g}) if g else NONE
        if isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Attribute):
            b = self.val(e.value, env)
            t = self.dotted(e)
            if t is not None and t.startswith(PKG + '.') and t not in self.prog.funcs:
                m, _, v = t.rpartition('.')
                if m in self.prog.mods and v in self.prog.mods[m].names and v not in self.prog.imps[m]:
                    return frozenset({('g', t, 0)})
            return part(b)
        if isinstance(e, ast.Subscript):
            b = self.val(e.value, env)
            self.val(e.slice, env)
            if U in b and not self.chosen_by_where(e) and isinstance(e.slice, (ast.Constant, ast.UnaryOp)) and isinstance(getattr(e.slice, 'value', getattr(getattr(e.slice, 'operand', None), 'value', None)), int):
                self.order.append((e, 'the element taken depends on it'))
            if isinstance(e.slice, (ast.Compare, ast.BoolOp, ast.List, ast.ListComp, ast.Call, ast.BinOp)) and not isinstance(e.slice, ast.Name):
                return b & {U}
            if isinstance(e.value, ast.Attribute) and e.value.attr in ('iloc', 'loc'):
                return NONE
            return part(b) if not isinstance(e.slice, ast.Slice) else b
        if isinstance(e, ast.IfExp):
            self.val(e.test, env)
            return self.val(e.body, env) | self.val(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.val(v, env) for v in e.values])
        if isinstance(e, (ast.List, ast.Tuple)):
            return frozenset().union(*[self.val(v.value, env) if isinstance(v, ast.Starred) else inside(self.val(v, env)) for v in e.elts]) if e.elts else NONE
        if isinstance(e, ast.Set):
            for v in e.elts:
                self.val(v, env)
            return frozenset({U})
        if isinstance(e, ast.Dict):
            for k in e.keys:
                self.val(k, env)
            return frozenset().union(*[inside(self.val(v, env)) if k is not None else self.val(v, env) for k, v in zip(e.keys, e.values)]) if e.values else NONE
        if isinstance(e, ast.Starred):
            return self.val(e.value, env)
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = dict(env)
            o = NONE
            for g in e.generators:
                it = self.val(g.iter, inner)
                o |= it & {U}
                self.element(g.target, g.iter, it, inner)
                for c in g.ifs:
                    self.val(c, inner)
            r = NONE
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                r = self.val(x, inner)
            return inside(r) | ({U} if isinstance(e, ast.SetComp) else o)
        if isinstance(e, ast.Call):
            return self.call(e, env, False)
        if isinstance(e, ast.Lambda):
            inner = dict(env)
            for x in e.args.args:
                inner[x.arg] = NONE
            self.val(e.body, inner)
            return NONE
        if isinstance(e, ast.BinOp):
            a, b = self.val(e.left, env), self.val(e.right, env)
            return (a | b) & {U} if isinstance(e.op, ast.Add) else NONE
        for k in ast.iter_child_nodes(e):
            if isinstance(k, ast.expr):
                self.val(k, env)
        return NONE

    def mutated(self, origins, node, what=None):
        for o in origins:
            if o[2]:
                continue
            if o[0] == 'p':
                self.out.mut.setdefault(o[1], (site(self.mod, node), what or self.qual))
            elif o[0] == 'g':
                self.out.glob.setdefault(o[1], (site(self.mod, node), what or self.qual))

    def call(self, e, env, stmt):
        self.calls += 1
        f = e.func
        kw = {k.arg: k.value for k in e.keywords if k.arg is not None}
        args = [self.val(a, env) for a in e.args]
        kvals = {k.arg: self.val(k.value, env) for k in e.keywords}
        t = self.dotted(f)
        recv = NONE
        if t is not None and (t in self.prog.funcs or definition(self.prog.P, *split(t, self.prog))):
            q = t if t in self.prog.funcs else definition(self.prog.P, *split(t, self.prog))[0]
            return self.package(e, q, args, kvals, env)
        if isinstance(f, ast.Attribute):
            if t is None or f.value is not None and self.is_variable(f.value, env):
                return self.method(e, f, args, kw, env, stmt)
        elif isinstance(f, ast.Name) and f.id in env:
            return NONE
        else:
            if not isinstance(f, ast.Name):
                self.val(f, env)
        if t is None:
            return NONE
        if t in ('builtins.print', 'builtins.open'):
            self.out.fx |= t == 'builtins.open'
        if t in PROCESS and not (t.startswith('warnings.') and self.quiet_warn):
            self.process.append((e, PROCESS[t]))
        if any(t.startswith(r) for r in RANDOM) and not t.endswith('.seed'):
            self.random.append((e, t))
        for i in MUTATE_FN.get(t, ()):
            if i < len(args):
                self.mutated(args[i] - {U}, e)
        if 'out' in kvals:
            self.mutated(kvals['out'] - {U}, e)
        if t in LISTING:
            return frozenset({U})
        if t in ('builtins.set', 'builtins.frozenset'):
            return frozenset({U})
        if t in ('builtins.sorted', 'numpy.sort', 'numpy.unique', 'builtins.max', 'builtins.min', 'builtins.sum', 'builtins.len', 'numpy.min', 'numpy.max', 'numpy.any', 'numpy.all', 'numpy.isin'):
            if t == 'builtins.sorted' and 'key' in kw:
                return frozenset().union(*args) if args else NONE
            return frozenset().union(*args) - {U} if args and t in SHARE_ELEMENTS else NONE
        every = frozenset().union(*args) if args else NONE
        if t in SHARE_FN or t in SHARE_ELEMENTS:
            return every
        if t.startswith('builtins.') and t.split('.')[1] in ('str', 'int', 'float', 'bool', 'repr', 'isinstance', 'type', 'hash', 'id', 'range', 'abs', 'any', 'all', 'hasattr'):
            return NONE
        return every & {U} if t in KEEP_ORDER else NONE

    @staticmethod
    def chosen_by_where(e):
        return isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr in ('where', 'nonzero')

    def is_variable(self, e, env):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return isinstance(e, ast.Name) and (e.id in env or self.gvar(e.id) is not None) or not isinstance(e, ast.Name)

    def method(self, e, f, args, kw, env, stmt):
        recv = self.val(f.value, env)
        n = f.attr
        every = frozenset().union(*args) if args else NONE
        if kw.get('inplace') is not None and isinstance(kw['inplace'], ast.Constant) and kw['inplace'].value:
            self.mutated(recv - {U}, e)
        if n in ('sort',) and isinstance(f.value, ast.Name) and stmt and U in recv:
            env[f.value.id] = recv - {U} if 'key' not in kw else recv
        if n in MUTATE or stmt and n in MUTATE_STMT:
            self.mutated(recv - {U}, e)
            if n in ('append', 'extend', 'insert', 'add', 'update') and isinstance(f.value, ast.Name) and f.value.id in env:
                # elements of other objects
                env[f.value.id] = env[f.value.id] | (every if n in ('extend', 'update') else inside(every))
        if n in ('to_csv', 'write', 'writelines', 'savefig', 'to_json', 'to_pickle', 'tofile'):
            self.out.fx = True
        if n in LISTING_M or n == 'glob' and len(args) == 1:
            return frozenset({U})
        if n in SHARE or n in INPLACE_RETURNS:
            return recv
        if n in ('copy', 'deepcopy', 'tolist', 'astype', 'difference', 'union', 'intersection', 'keys'):
            return recv & {U} | (frozenset({U}) if n in ('difference', 'union', 'intersection') else NONE)
        return NONE

    def package(self, e, q, args, kvals, env):
        s = self.prog.sum.get(q)
        if s is None:
            return NONE
        node = self.prog.funcs[q][1]
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        given = dict(zip(pos, args))
        given.update({k: v for k, v in kvals.items() if k is not None})
        for p, (where, what) in s.mut.items():
            if p in given:
                self.mutated(given[p] - {U}, e, f'{self.qual} -> {what} ({where})')
            else:
                # the default object of the parameter is changed: it outlives the call
                d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)).get(p)
                if isinstance(d, (ast.List, ast.Dict, ast.Set)):
                    self.out.glob.setdefault(f'the default of {p} of {q}', (site(self.mod, e), f'{self.qual} -> {what} ({where})'))
        for g, (where, what) in s.glob.items():
            self.out.glob.setdefault(g, (where, what if '->' in what else f'{self.qual} -> {what}'))
        self.out.fx |= s.fx
        r = NONE
        for o in s.ret:
            if o == U:
                r |= {U}
            elif o[0] == 'p':
                g = given.get(o[1], NONE)
                for _ in range(o[2]):
                    g = inside(g)
                r |= g
            else:
                r |= {o}
        return r

    # -- statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in self.scope.globals:
                self.out.glob.setdefault(self.mod.name + '.' + t.id, (site(self.mod, t), self.qual))
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, part(v), env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            d = self.dotted(t) if isinstance(t, ast.Attribute) else self.dotted(t.value)
            if d is not None and not self.is_variable(t.value, env):
                if d.startswith(PKG + '.') and d not in self.prog.funcs:
                    self.out.glob.setdefault(d, (site(self.mod, t), self.qual))
                elif d.startswith(PKG + '.'):
                    self.out.glob.setdefault('attributes of ' + d, (site(self.mod, t), self.qual))
                elif d.startswith('numpy.') or any(d.startswith(x) for x in EXT_STATE):
                    self.process.append((t, d))
                else:
                    self.process.append((t, d))
                return
            b = self.val(t.value, env)
            if isinstance(t, ast.Subscript):
                self.val(t.slice, env)
            self.mutated(b - {U}, t)

    def element(self, target, it, v, env):
        """Bind the variable of a loop over `it`."""
        if isinstance(it, ast.Call) and isinstance(target, (ast.Tuple, ast.List)):
            d = self.dotted(it.func)
            if d == 'builtins.enumerate' and len(target.elts) == 2 and it.args:
                self.bind(target.elts[0], NONE, env)
                return self.element(target.elts[1], it.args[0], self.val(it.args[0], env), env)
            if d == 'builtins.zip' and len(target.elts) == len(it.args):
                for x, y in zip(target.elts, it.args):
                    self.element(x, y, self.val(y, env), env)
                return
            if isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'iterrows') and len(target.elts) == 2:
                self.bind(target.elts[0], NONE, env)
                return self.bind(target.elts[1], part(v) if it.func.attr == 'items' else NONE, env)
        self.bind(target, part(v), env)

    @staticmethod
    def join(a, b):
        if a is None or b is None:
            return b if a is None else a
        return {k: a.get(k, NONE) | b.get(k, NONE) for k in set(a) | set(b)}

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        J = self.join
        if isinstance(s, ast.Assign):
            v = self.val(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    vs = [self.val(x, env) for x in s.value.elts]
                    for x, y in zip(t.elts, vs):
                        self.bind(x, y, env)
                else:
                    self.bind(t, v, env)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.val(s.value, env), env)
            return env
        if isinstance(s, ast.AugAssign):
            v = self.val(s.value, env)
            if isinstance(s.target, ast.Name):
                n = s.target.id
                old = self.val(s.target, env)
                if n in self.scope.globals:
                    self.out.glob.setdefault(self.mod.name + '.' + n, (site(self.mod, s), self.qual))
                if isinstance(s.op, ast.Add) and (isinstance(s.value, (ast.List, ast.ListComp)) or isinstance(s.value, ast.Call) and
                                                  self.dotted(s.value.func) in ('builtins.list', 'builtins.sorted', 'glob.glob', 'os.listdir', 'obspy.read', 'obspy.Stream')):
                    self.mutated(old - {U}, s)
                # numbers are rebound, arrays are changed: an array if it is reduced on the right
                for y in ast.walk(s.value):
                    if isinstance(y, ast.Call) and (isinstance(y.func, ast.Attribute) and (
                            isinstance(y.func.value, ast.Name) and y.func.value.id == n and y.func.attr in REDUCE or
                            y.func.attr in REDUCE and y.args and isinstance(y.args[0], ast.Name) and y.args[0].id == n)) or \
                            isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == n:
                        self.mutated(old - {U}, s)
                env[n] = old | v if isinstance(s.op, ast.Add) else old
            else:
                self.bind(s.target, v, env)
            return env
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Call):
                self.call(s.value, env, True)
            else:
                self.val(s.value, env)
            return env
        if isinstance(s, ast.Return):
            self.out.ret |= self.val(s.value, env)
            return None
        if isinstance(s, ast.Raise):
            self.val(s.exc, env)
            return None
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.bind(t, NONE, env)
            return env
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inner = dict(env)
            for x in s.args.args + s.args.kwonlyargs:
                inner[x.arg] = NONE
            keep = self.out.ret
            self.block(s.body, inner)
            self.out.ret = keep
            env[s.name] = NONE
            return env
        if isinstance(s, ast.If):
            self.val(s.test, env)
            return J(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            out = None
            self.brk.append([])
            start = env
            for _ in range(3):
                e2 = dict(start)
                if isinstance(s, ast.While):
                    self.val(s.test, e2)
                    it = NONE
                else:
                    it = self.val(s.iter, e2)
                    self.element(s.target, s.iter, it, e2)
                before = {k: v for k, v in e2.items()}
                n0, fx0 = len(self.order), self.out.fx
                self.out.fx = False
                end = self.block(s.body, e2)
                fx = self.out.fx
                self.out.fx |= fx0
                end = J(end, None)
                if U in it and end is not None:
                    # what the loop collects is in the order of the listing
                    for x in s.body:
                        for y in ast.walk(x):
                            n = None
                            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('append', 'extend', 'insert') and isinstance(y.func.value, ast.Name):
                                n = y.func.value.id
                            elif isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and isinstance(y.op, ast.Add) and not isinstance(y.value, ast.Constant):
                                n = y.target.id
                            elif isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name) and \
                                    any(isinstance(z, ast.Name) and z.id == y.targets[0].id for z in ast.walk(y.value)) and isinstance(y.value, (ast.Call, ast.BinOp)):
                                n = y.targets[0].id
                            if n is not None and n in end:
                                end[n] = end[n] | {U}
                    if fx:
                        self.order.append((s, 'files are written in that order'))
                start = J(dict(start), end)
            self.brk.pop()
            out = start
            return self.block(s.orelse, out) if s.orelse and out is not None else out
        if isinstance(s, (ast.Break, ast.Continue)):
            return env
        if isinstance(s, ast.Try):
            b = self.block(s.body, dict(env))
            mid = J(dict(env), b)
            end = self.block(s.orelse, b) if b is not None else None
            for h in s.handlers:
                end = J(end, self.block(h.body, dict(mid)))
            if s.finalbody:
                f = self.block(s.finalbody, end if end is not None else dict(mid))
                end = f if end is not None else None
            return end
        if isinstance(s, (ast.With, ast.AsyncWith)):
            w = False
            for i in s.items:
                v = self.val(i.context_expr, env)
                if isinstance(i.context_expr, ast.Call) and self.dotted(i.context_expr.func) == 'warnings.catch_warnings':
                    w = True
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            self.quiet_warn += w
            env = self.block(s.body, env)
            self.quiet_warn -= w
            return env
        if isinstance(s, ast.Assert):
            self.val(s.test, env)
            return env
        return env


def split(t, prog):
    m, _, n = t.rpartition('.')
    return (m, [n]) if m in prog.P.modules else ('', [])


# functions users call beside those exported by the package, and the arguments that are worked on in place by their documentation: (function, position)
ALSO = ('gemlog.core.write_wav', 'gemlog.core.get_bitweight_info', 'gemlog.xcorr.xcorr_all', 'gemlog.xcorr.loop_through_days', 'gemlog.xcorr.invert_for_slowness', 'gemlog.xcorr.get_coordinates')
IN_PLACE = {('gemlog.gem_network.deconvolve_gem_response', 0), ('gemlog.xcorr.invert_for_slowness', 0)}


def exported(P):
    out = []
    m = P.modules.get(PKG)
    for n in m.tree.body if m is not None else ():
        if isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                d = definition(P, n.module or '', [a.name])
                if d is not None and d[0] not in out:
                    out.append(d[0])
    return out


def is_program(q):
    n = q.rsplit('.', 1)[1]
    return n == 'main' or n.endswith('_terminal')


@rule('C28')
def c28(c):
    """For each variable, the parameters and module variables whose objects it may share are computed through all functions and their calls (fixpoint of summaries);
    writes to those objects, to module variables and process settings, and uses of listings in the order they come in, are judged."""
    P = c.ctx.project
    prog = Program(P)
    if not prog.solve():
        c.undecided(G_ARG, 'summaries of the functions did not settle')
        return
    public = [q for q in exported(P) + [q for q in ALSO if q in prog.funcs] if q in prog.funcs]
    for q, (m, n) in sorted(prog.funcs.items()):
        w = Walk(prog, m, n, q)
        w.run()
        s = w.out
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        dflt = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        if q in public:
            for i, p in enumerate(pos + [x.arg for x in a.kwonlyargs]):
                if (q, i) in IN_PLACE:
                    continue
                where, what = s.mut.get(p, ('', ''))
                c.ob(G_ARG, p not in s.mut, f'{q}: argument {i + 1}', f'the object given as {p} is changed ({what})', where)
        for p, d in dflt.items():
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set'):
                where, what = s.mut.get(p, ('', ''))
                c.ob(G_GLOB, p not in s.mut, f'{q}: default of {p}', f'the default of {p} is one object for all calls and is changed ({what})', where)
        own = {g: v for g, v in s.glob.items() if '->' not in v[1] and not (g.endswith('._debug') and (is_program(q) or q not in public and any(is_program(f'{m.name}.{x.name}') for x in m.tree.body if isinstance(x, ast.FunctionDef))))}
        c.ob(G_GLOB, not own, f'{q}: {", ".join(sorted(own))}', 'changed by a call and seen by later ones', next(iter(own.values()))[0] if own else '')
        for x, what in w.process:
            c.ob(G_PROC, False, f'{q}: {what}', f'{what} changed', site(m, x))
        c.ob(G_PROC, True)
        for x, what in w.order:
            c.ob(G_ORD, False, f'{q}: {ast.unparse(x).splitlines()[0]}', f'a listing of files or set of unspecified order is used without sorting it: {what}', site(m, x))
        if q in public:
            c.ob(G_ORD, U not in s.ret, f'{q}: result', 'the result is in the unspecified order of a listing or set', f'{m.rel}:{n.lineno}')
        for x, what in w.random:
            c.ob(G_RAND, False, f'{q}: {what}', 'a random number is used', site(m, x))
        c.ob(G_RAND, True)
    # what importing the package does
    for name, m in P.modules.items():
        if m.kind != 'py':
            continue
        fake = ast.FunctionDef(name='<module>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[
            s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and not (isinstance(s, ast.If) and '__name__' in ast.dump(s.test))],
            decorator_list=[], lineno=1)
        w = Walk(prog, m, fake, name + '.<import>')
        w.run()
        for x, what in w.process:
            c.ob(G_PROC, False, f'import {name}: {what}', f'{what} changed on import', site(m, x))
        c.ob(G_PROC, True)
    c.need(G_ARG, 30, 'arguments of exported functions')
    c.need(G_GLOB, 40, 'functions')
