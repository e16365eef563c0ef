"""Abstract interpreter: one pass over the syntax tree of an entry point, with project callees inlined,
that builds a gated value graph (terms.py) and the ordered list of effects (external calls, stores,
raises) with the conditions under which they happen.

No project code is executed.  Loops are summarised (loop-carried variables become Mu terms, heap
objects changed in the body are opened) unless their iterable is a literal collection; branches are
joined with Phi terms; exception handlers start from any intermediate state of their try body.
"""
import ast
import re
import sys

from .loader import Project, FuncInfo, AnalysisBroken
from .terms import *

sys.setrecursionlimit(20000)

MAX_UNROLL = 48
MAX_DEPTH = 24


class Dead(Exception):
    """Control does not continue past this point."""


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env=None, heap=None, pc=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)


class Frame:
    def __init__(self, fi, caller=None):
        self.fi, self.caller = fi, caller
        self.returns = []
        self.loops = []      # stack of dicts breaks/continues
        self.globals_decl = set()


class Event:
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'val', 'pc', 'loops', 'tries', 'site', 'func', 'stack',
                 'order', 'heap', 'extra', 'ref')

    def __repr__(self):
        s = f'{self.site} {self.kind} {self.name or ""}'
        if self.recv is not None:
            s += f' on {show(self.recv, 4)}'
        if self.args:
            s += ' (' + ', '.join(show(a, 4) for a in self.args) + ')'
        if self.kw:
            s += ' {' + ', '.join(f'{k}={show(v, 4)}' for k, v in self.kw.items()) + '}'
        return s

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        return default


class ListC:
    __slots__ = ('items', 'open', 'comp')

    def __init__(self, items, open=False, comp=None):
        # comp = (loop, value): a list that one loop filled with exactly one value per round
        self.items, self.open, self.comp = tuple(items), open, comp

    def __eq__(self, o):
        return isinstance(o, ListC) and self.items == o.items and self.open == o.open


class DictC:
    __slots__ = ('d', 'open')

    def __init__(self, d, open=False):
        self.d, self.open = d, open

    def __eq__(self, o):
        return isinstance(o, DictC) and self.d == o.d and self.open == o.open


PURE_STR = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'join', 'startswith', 'endswith',
            'zfill', 'title', 'capitalize', 'format', 'find', 'count', 'encode', 'decode', 'isdigit', 'rsplit',
            'splitlines', 'partition', 'casefold', 'rjust', 'ljust', 'index'}


class Interp:
    def __init__(self, project):
        self.p = project
        self.events = []
        self.order = 0
        self.fninfo = {}
        self.clsinfo = {}
        self.modenvs = {}
        self.modbusy = set()
        self.gheap = {}
        self.loops = {}
        self.tries_info = {}
        self.trystack = []
        self.loopstack = []
        self.callstack = []
        self.ctx = ()
        self.record = True
        self.param_over = {}
        self.call_over = {}       # qualified project function -> constant term returned instead of inlining
        self.no_inline = set()
        self.allocs = {}
        self.fn_entered = set()
        self.trytrack = []
        self.cur_site = ('', 0)
        self.steps = 0
        self.step_limit = 3000000
        self._facts = {}

    # ------------------------------------------------------------------ modules
    def module_env(self, name):
        if name in self.modenvs:
            return self.modenvs[name]
        m = self.p.modules[name]
        st = State()
        self.modenvs[name] = st.env
        self.modbusy.add(name)
        fi = FuncInfo(m, ast.parse('def _m(): pass').body[0], name)
        fi.node.lineno = 1
        fr = Frame(fi)
        saved = (self.events, self.trystack, self.loopstack, self.callstack, self.ctx, self.trytrack)
        self.events, self.trystack, self.loopstack, self.callstack, self.trytrack = [], [], [], [], []
        self.ctx = ('mod', name)
        try:
            out = self.block(m.tree.body, st, fr)
        finally:
            self.modbusy.discard(name)
            mev = self.events
            self.events, self.trystack, self.loopstack, self.callstack, self.ctx, self.trytrack = saved
        if out is not None:
            self.modenvs[name].update(out.env)
            self.gheap.update(out.heap)
        self.modevents = getattr(self, 'modevents', {})
        self.modevents[name] = mev
        return self.modenvs[name]

    def modattr(self, mod, attr):
        m = self.p.modules.get(mod)
        if m is not None:
            env = self.module_env(mod)
            if attr in env:
                v = env[attr]
                if v.op == 'ModAttr':
                    v = self.modattr(*v.a) if (v.a[0], v.a[1]) != (mod, attr) else UNDEF
                return v
            if f'{mod}.{attr}' in self.p.modules:
                return mk('Mod', f'{mod}.{attr}')
            if mod in self.modbusy:
                return mk('ModAttr', mod, attr)
            # defined in a branch that the interpreter did not take to its end?
            return mk('Missing', mod, attr)
        return Ext(f'{mod}.{attr}')

    # ------------------------------------------------------------------ running entry points
    def find(self, qual):
        """The FuncInfo of module.function (or module.Class.method)."""
        mod, _, fn = qual.rpartition('.')
        v = self.modattr(mod, fn)
        if v.op != 'Fn':
            raise AnalysisBroken(f'entry point {qual} not found')
        return self.fninfo[v]

    def fn_term(self, qual):
        mod, _, fn = qual.rpartition('.')
        v = self.modattr(mod, fn)
        if v.op != 'Fn':
            raise AnalysisBroken(f'entry point {qual} not found')
        return v

    def run(self, qual, **consts):
        """Analyse one entry point; its parameters are symbols (Param name) unless given as terms."""
        ft = self.fn_term(qual)
        fi = self.fninfo[ft]
        self.events = []
        self.order = 0
        self.trystack, self.loopstack, self.callstack, self.trytrack = [], [], [], []
        self.ctx = ('root', qual)
        st = State({}, {}, ())
        args = {}
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            args[x.arg] = consts.get(x.arg, mk('Param', x.arg))
        if a.vararg:
            args[a.vararg.arg] = mk('Param', '*' + a.vararg.arg)
        if a.kwarg:
            args[a.kwarg.arg] = mk('Param', '**' + a.kwarg.arg)
        for k in consts:
            if k not in args:
                raise AnalysisBroken(f'{qual} has no parameter {k}')
        res = Result()
        res.interp = self
        res.fi = fi
        fr = Frame(fi)
        st.env = dict(args)
        try:
            out = self.block(fi.node.body, st, fr)
        except Dead:
            out = None
        if out is not None:
            fr.returns.append((out, NONE, fi.node))
        res.returns = [(s.pc, self.deep(v, s), n) for s, v, n in fr.returns]
        res.finals = [s for s, v, n in fr.returns]
        if fr.returns:
            merged, val = self.merge_returns([(s, v) for s, v, n in fr.returns], ())
            res.value = self.deep(val, merged)
            res.raw = val
            res.state = merged
        else:
            res.value = None
            res.state = None
            res.raw = None
        res.events = self.events
        res.loops = self.loops
        return res

    # ------------------------------------------------------------------ helpers
    def site(self, node):
        fi = self.callstack[-1] if self.callstack else None
        return self.cur_site

    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisBroken('analysis step limit exceeded')

    def key(self, node, tag=''):
        """Stable identity of a construct in its inlining context."""
        return (self.ctx, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), type(node).__name__, tag)

    _keyids = {}

    def kid(self, node, tag=''):
        k = self.key(node, tag)
        i = self._keyids.get(k)
        if i is None:
            i = len(self._keyids) + 1
            self._keyids[k] = i
        return i

    def emit(self, st, kind, name=None, recv=None, args=(), kw=None, val=None, node=None, fr=None, extra=None, raw=False):
        e = Event()
        e.kind, e.name = kind, name
        e.ref = recv if recv is not None and recv.op == 'Ref' else None
        if raw:
            e.recv, e.args, e.kw = recv, tuple(args), dict(kw or {})
        else:
            e.recv = self.deep(recv, st) if recv is not None else None
            e.args = tuple(self.deep(x, st) for x in args)
            e.kw = {k: self.deep(v, st) for k, v in (kw or {}).items()}
        e.val = val
        e.pc = st.pc
        e.loops = tuple(self.loopstack)
        e.tries = tuple(self.trystack)
        mod = fr.fi.module.rel if fr is not None else '?'
        e.site = f'{mod}:{getattr(node, "lineno", 0)}'
        e.func = fr.fi.qual if fr is not None else '?'
        e.stack = tuple(self.callstack)
        e.order = self.order
        self.order += 1
        e.extra = extra
        e.heap = None
        self.events.append(e)
        return e

    def newref(self, st, node, content, tag=''):
        r = mk('Ref', self.kid(node, tag))
        st.heap[r.id] = content
        for k in [('ov', r.id)]:
            st.heap.pop(k, None)
        self.refs = getattr(self, 'refs', {})
        self.refs[r.id] = (r, node)
        self.first_items = getattr(self, 'first_items', {})
        self.first_items[r.id] = content.items if isinstance(content, ListC) else ()
        return r

    def content(self, t, st):
        if t.op == 'Ref':
            c = st.heap.get(t.id)
            if c is None:
                c = self.gheap.get(t.id)
            return c
        return None

    def overlay(self, t, st):
        o = st.heap.get(('ov', t.id))
        if o is None:
            o = self.gheap.get(('ov', t.id))
        return o

    def set_overlay(self, t, key, val, st):
        o = dict(self.overlay(t, st) or {})
        o[key] = val
        st.heap[('ov', t.id)] = o

    # snapshot of a term: literal containers and recorded stores become part of the value
    def deep(self, t, st, memo=None, depth=0):
        if memo is None:
            memo = {}
        return self._deep(t, st, memo)

    _plain = {}

    def _deep(self, t, st, memo):
        if isinstance(t, tuple):
            return tuple(self._deep(x, st, memo) for x in t)
        if not isinstance(t, T):
            return t
        # values were closed when they were built; only references still need their current contents
        if t.op not in ('Ref', 'Tuple', 'List', 'Phi', 'Items', 'Star', 'Enum', 'Zip') and not self.overlay(t, st):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        memo[t.id] = t  # cycles
        if t.op == 'Ref':
            c = self.content(t, st)
            if isinstance(c, ListC):
                items = tuple(self._deep(x, st, memo) for x in c.items)
                r = mk('List', *items) if not c.open else mk('OpenList', t, *items)
            elif isinstance(c, DictC):
                items = tuple((self._deep(k, st, memo), self._deep(v, st, memo)) for k, v in c.d.items())
                r = mk('Dict', *items) if not c.open else mk('OpenDict', t, *items)
            else:
                r = t
        elif t.op == 'Phi':
            x, y = self._deep(t.a[1], st, memo), self._deep(t.a[2], st, memo)
            r = t if x is t.a[1] and y is t.a[2] else Phi(t.a[0], x, y)
        elif t.op in ('Tuple', 'List', 'Items', 'Star', 'Enum', 'Zip'):
            a = tuple(self._deep(x, st, memo) for x in t.a)
            r = t if all(x is y for x, y in zip(a, t.a)) else mk(t.op, *a)
        else:
            r = t
        ov = self.overlay(t, st)
        if ov:
            items = tuple(((k if isinstance(k, str) else self._deep(k, st, memo)), self._deep(v, st, memo))
                          for k, v in sorted(ov.items(), key=lambda kv: str(kv[0] if isinstance(kv[0], str) else kv[0].id)))
            r = mk('Upd', r, *items)
        memo[t.id] = r
        return r

    # ------------------------------------------------------------------ joins
    def merge(self, a, b, base, cond=None):
        """Join two states whose pcs both extend base."""
        if a is None:
            return b
        if b is None:
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ea, eb = a.pc[n:], b.pc[n:]
        ca, cb = And(*ea), And(*eb)
        if cond is None:
            cond = ca
            if len(ea) != 1 and len(eb) == 1:
                cond = Not(cb)
        pc = a.pc[:n]
        j = Or(ca, cb)
        if j is not TRUE:
            pc = pc + ((j.a if j.op == 'And' else (j,)))
        env = {}
        ae, be = a.env, b.env
        for k in ae.keys() | be.keys():
            x, y = ae.get(k, UNDEF), be.get(k, UNDEF)
            env[k] = x if x is y else Phi(cond, x, y)
        heap = dict(a.heap)
        for k, y in b.heap.items():
            x = heap.get(k)
            if x is None:
                if isinstance(k, tuple):     # overlay only on b's side
                    base_t = None
                    heap[k] = self.merge_ov({}, y, cond)
                else:
                    heap[k] = y
            elif x is not y and x != y:
                heap[k] = self.merge_content(x, y, cond)
        for k, x in a.heap.items():
            if isinstance(k, tuple) and k not in b.heap:
                heap[k] = self.merge_ov(x, {}, cond)
        return State(env, heap, pc)

    def merge_ov(self, x, y, cond):
        r = {}
        for k in list(x) + [k for k in y if k not in x]:
            u, v = x.get(k), y.get(k)
            if u is None:
                u = mk('Old', k if isinstance(k, str) else k)
            if v is None:
                v = mk('Old', k if isinstance(k, str) else k)
            r[k] = Phi(cond, u, v)
        return r

    def merge_content(self, x, y, cond):
        if isinstance(x, dict) and isinstance(y, dict):
            return self.merge_ov(x, y, cond)
        if isinstance(x, ListC) and isinstance(y, ListC):
            if len(x.items) == len(y.items):
                return ListC([Phi(cond, u, v) for u, v in zip(x.items, y.items)], x.open or y.open)
            n = min(len(x.items), len(y.items))
            pre = []
            for u, v in zip(x.items, y.items):
                if u is not v:
                    break
                pre.append(u)
            return ListC(pre, True)
        if isinstance(x, DictC) and isinstance(y, DictC):
            d = {}
            op = x.open or y.open
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                u, v = x.d.get(k, UNDEF), y.d.get(k, UNDEF)
                d[k] = Phi(cond, u, v)
            return DictC(d, op)
        return x

    def merge_returns(self, rets, base):
        st, val = rets[0]
        for s2, v2 in rets[1:]:
            n = 0
            while n < len(st.pc) and n < len(s2.pc) and st.pc[n] is s2.pc[n]:
                n += 1
            ea, eb = st.pc[n:], s2.pc[n:]
            ca, cb = And(*ea), And(*eb)
            cond = ca
            if len(ea) != 1 and len(eb) == 1:
                cond = Not(cb)
            val = Phi(cond, val, v2)
            st = self.merge(st, s2, base, cond)
        return st, val

    def assume(self, st, cond):
        if cond.op == 'Const':
            return st
        new = [c for c in (cond.a if cond.op == 'And' else (cond,)) if not any(c is x for x in st.pc)]
        st.pc = st.pc + tuple(new)
        return st

    def known(self, st, c):
        """Simplify a condition by the facts known on this path."""
        if c.op == 'Const':
            return c
        facts = self._facts.get(st.pc)
        if facts is None:
            facts = {}
            for x in st.pc:
                facts[x.id] = TRUE
                facts[Not(x).id] = FALSE
            self._facts = {st.pc: facts}
        if c.id in facts:
            return facts[c.id]
        if c.op in ('And', 'Or'):
            parts = [facts.get(x.id, x) for x in c.a]
            return And(*parts) if c.op == 'And' else Or(*parts)
        if c.op == 'Not' and c.a[0].id in facts:
            return Not(facts[c.a[0].id])
        return c

    def truth(self, t, st):
        if t.op == 'Const':
            try:
                return Const(bool(t.a[0]))
            except Exception:
                return t
        if t.op in ('Cmp', 'Not', 'And', 'Or', 'Exc', 'Brk'):
            return self.known(st, t)
        if t.op == 'Ref':
            c = self.content(t, st)
            if isinstance(c, ListC) and not c.open:
                return Const(bool(c.items))
            if isinstance(c, DictC) and not c.open:
                return Const(bool(c.d))
            return Cmp('!=', mk('Call', 'builtins.len', (self.deep(t, st),), ()), Const(0))
        if t.op in ('Tuple', 'List'):
            return Const(bool(t.a))
        if t.op == 'StrCat' and nonempty_str(t):
            return TRUE
        if t.op in ('Fn', 'Mod', 'Cls'):
            return TRUE
        if t.op == 'Phi':
            a, b = self.truth(t.a[1], st), self.truth(t.a[2], st)
            if a.op == 'Const' or b.op == 'Const':
                return self.known(st, Phi(t.a[0], a, b))
        return self.known(st, mk('Cmp', '==', mk('Bool', t), TRUE))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        self.tick()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(f'{fr.fi.module.rel}:{s.lineno}: statement {type(s).__name__} not understood')
        try:
            return m(s, st, fr)
        except Dead:
            return None

    def s_Pass(self, s, st, fr):
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, fr)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            top = a.name.split('.')[0]
            if a.asname:
                v = mk('Mod', a.name) if a.name in self.p.modules else Ext(a.name)
                st.env[a.asname] = v
            else:
                st.env[top] = mk('Mod', top) if top in self.p.modules else Ext(top)
        return st

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ''
        if s.level:
            base = fr.fi.module.name.split('.')
            if not fr.fi.module.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == '*':
                if mod in self.p.modules:
                    st.env.update({k: v for k, v in self.module_env(mod).items() if not k.startswith('_')})
                continue
            if mod in self.p.modules:
                v = self.modattr(mod, a.name)
                self.emit(st, 'importname', f'{mod}.{a.name}', node=s, fr=fr, extra=v)
            else:
                v = Ext(f'{mod}.{a.name}')
            st.env[a.asname or a.name] = v
        return st

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.mkfn(s, st, fr, f'{fr.fi.qual}.{s.name}')
        for d in s.decorator_list:
            try:
                self.ev(d, st, fr)
            except Dead:
                pass
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def mkfn(self, s, st, fr, qual, cls=None):
        t = mk('Fn', qual, self.kid(s))
        fi = FuncInfo(fr.fi.module, s, qual, closure=None, cls=cls)
        if self.callstack or fr.fi.qual not in self.p.modules:
            fi.closure = st.env
        fi.defaults = [self.ev(d, st, fr) for d in s.args.defaults]
        fi.kwdefaults = [self.ev(d, st, fr) if d is not None else None for d in s.args.kw_defaults]
        self.fninfo[t] = fi
        return t

    def s_ClassDef(self, s, st, fr):
        qual = f'{fr.fi.qual}.{s.name}'
        bases = [self.ev(b, st, fr) for b in s.bases]
        t = mk('Cls', qual)
        sub = State(dict(st.env), st.heap, st.pc)
        cfi = FuncInfo(fr.fi.module, s, qual)
        methods = {}
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                methods[b.name] = self.mkfn(b, st, fr, f'{qual}.{b.name}', cls=t)
            elif isinstance(b, ast.Assign):
                v = self.ev(b.value, st, fr)
                for g in b.targets:
                    if isinstance(g, ast.Name):
                        methods[g.id] = v
        self.clsinfo[t] = (s, bases, methods, fr.fi.module)
        st.env[s.name] = t
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append((st, v, s))
        return None

    def s_Raise(self, s, st, fr):
        exc = self.ev(s.exc, st, fr) if s.exc is not None else None
        if s.cause is not None:
            self.ev(s.cause, st, fr)
        self.emit(st, 'raise', self.exc_name(exc, fr) if exc is not None else None, recv=exc, node=s, fr=fr,
                  extra=getattr(self, 'handling', None))
        return None

    def exc_name(self, t, fr=None):
        if t is None:
            return None
        if t.op == 'Cls':
            return t.a[0]
        if t.op == 'Obj':
            return t.a[0]
        if t.op == 'Ext':
            return t.a[0]
        if t.op in ('Call',):
            return t.a[0]
        return '?'

    def s_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        if is_const(c, True):
            return st
        d = st.copy()
        self.assume(d, Not(c))
        self.emit(d, 'raise', 'builtins.AssertionError', node=s, fr=fr)
        if is_const(c, False):
            return None
        return self.assume(st, c)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                base = self.ev(t.value, st, fr)
                key = self.evkey(t, st, fr)
                c = self.content(base, st)
                if isinstance(c, DictC) and isinstance(key, T) and key in c.d:
                    d = dict(c.d)
                    d.pop(key)
                    st.heap[base.id] = DictC(d, c.open)
                self.emit(st, 'del', recv=base, args=(key,) if isinstance(key, T) else (Const(key),), node=t, fr=fr)
        return st

    def s_Global(self, s, st, fr):
        fr.globals_decl.update(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        tgt = s.target
        op = self.opname(s.op)
        if isinstance(tgt, ast.Name):
            cur = self.load_name(tgt.id, st, fr)
            v = self.ev(s.value, st, fr)
            c = self.content(cur, st)
            if isinstance(c, ListC) and op == '+':
                cv = self.content(v, st)
                if isinstance(cv, ListC):
                    st.heap[cur.id] = ListC(c.items + cv.items, c.open or cv.open)
                else:
                    st.heap[cur.id] = ListC(c.items, True)
                self.emit(st, 'extend', recv=cur, args=(v,), node=s, fr=fr, raw=True)
                return st
            if op in '|&' and op:
                r = self.binop(op, cur, v, st)
            else:
                r = self.binop(op, cur, v, st)
            if cur.op not in ('Const', 'StrCat', 'Fmt', 'Tuple'):
                self.emit(st, 'aug', op, recv=cur, args=(v,), node=s, fr=fr)
            self.setvar(tgt.id, r, st, fr, s)
            return st
        base = self.ev(tgt.value, st, fr)
        key = self.evkey(tgt, st, fr)
        cur = self.getfield(base, key, st, fr, tgt) if isinstance(key, str) else self.index(base, key, st, fr, tgt)
        v = self.ev(s.value, st, fr)
        r = self.binop(op, cur, v, st)
        self.store(base, key, r, st, fr, s, aug=(op, v))
        return st

    def evkey(self, tgt, st, fr):
        if isinstance(tgt, ast.Attribute):
            return tgt.attr
        return self.ev(tgt.slice, st, fr)

    def setvar(self, name, v, st, fr, node):
        if name in fr.globals_decl:
            self.emit(st, 'setglobal', f'{fr.fi.module.name}.{name}', args=(v,), node=node, fr=fr)
        st.env[name] = v
        for tr in self.trytrack:
            tr['vars'].setdefault((id(fr), name), []).append(v)

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.as_items(v, st)
                k = star[0]
                if items is not None:
                    n_after = len(elts) - k - 1
                    for i in range(k):
                        self.assign(elts[i], items[i], st, fr, node)
                    mid = items[k:len(items) - n_after]
                    self.assign(elts[k].value, self.newref(st, elts[k], ListC(mid)), st, fr, node)
                    for i in range(n_after):
                        self.assign(elts[k + 1 + i], items[len(items) - n_after + i], st, fr, node)
                else:
                    for i, e in enumerate(elts):
                        self.assign(e.value if isinstance(e, ast.Starred) else e, mk('Unk', self.kid(e)), st, fr, node)
                return
            for i, e in enumerate(elts):
                self.assign(e, self.index(v, Const(i), st, fr, node), st, fr, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            self.store(base, t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            key = self.ev(t.slice, st, fr)
            self.store(base, key, v, st, fr, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)
        else:
            raise AnalysisBroken(f'{fr.fi.module.rel}:{node.lineno}: assignment target not understood')

    def store(self, base, key, v, st, fr, node, aug=None, weak=None):
        if base.op == 'Phi' and weak is None and (self.content(base.a[1], st) is not None or self.content(base.a[2], st) is not None):
            for side, c in ((base.a[1], base.a[0]), (base.a[2], Not(base.a[0]))):
                d0 = self.content(side, st)
                if isinstance(d0, DictC) and not isinstance(key, str) and not d0.open and self.deep(key, st) not in d0.d:
                    old = v          # a new key on that side
                else:
                    old = self.getfield(side, key, st, fr, node) if isinstance(key, str) else self.index(side, key, st, fr, node)
                self.store(side, key, Phi(c, v, old), st, fr, node, aug=aug, weak=True)
            return
        c = self.content(base, st)
        kind = 'setattr' if isinstance(key, str) else 'setitem'
        self.emit(st, kind, key if isinstance(key, str) else None, recv=base,
                  args=((key, v) if not isinstance(key, str) else (Const(key), v)), node=node, fr=fr,
                  extra={'aug': aug, 'rawbase': base, 'rawval': v})
        for tr in self.trytrack:
            tr['heap'].add(base.id if c is not None else ('ov', base.id))
        if base.op == 'Mod' and isinstance(key, str):
            self.emit(st, 'setglobal', f'{base.a[0]}.{key}', args=(v,), node=node, fr=fr)
            return
        if isinstance(c, DictC) and not isinstance(key, str):
            k = self.deep(key, st)
            if k.op in ('Const', 'StrCat', 'Tuple'):
                d = dict(c.d)
                if k.op != 'Const' and any(x.op != 'Const' or True for x in d) and k not in d:
                    d[k] = v
                else:
                    d[k] = v
                st.heap[base.id] = DictC(d, c.open)
            else:
                d = dict(c.d)
                d[k] = v
                st.heap[base.id] = DictC(d, True)
            return
        if isinstance(c, ListC) and not isinstance(key, str):
            if is_const(key) and isinstance(key.a[0], int) and not c.open and -len(c.items) <= key.a[0] < len(c.items):
                it = list(c.items)
                it[key.a[0]] = v
                st.heap[base.id] = ListC(it, False)
            else:
                st.heap[base.id] = ListC(c.items, True)
            return
        # an external object: remember the store
        if isinstance(key, T) and base.op == 'Fld' and base.a[1] in ('loc', 'iloc', 'at', 'iat'):
            df = base.a[0]
            cols = key.a[1] if key.op == 'Tuple' and len(key.a) == 2 else None
            if cols is not None and is_const(cols) and isinstance(cols.a[0], str):
                old = self.getfield(df, cols.a[0], st, fr, node)
                self.set_overlay(df, cols.a[0], mk('RowUpd', old, self.deep(key.a[0], st), self.deep(v, st)), st)
            else:
                self.set_overlay(df, f'@{base.a[1]}{self.order}', mk('RowUpd', NONE, self.deep(key, st), self.deep(v, st)), st)
            return
        if isinstance(key, T):
            k = self.deep(key, st)
            if is_const(k) and isinstance(k.a[0], str):
                k = k.a[0]
        else:
            k = key
        self.set_overlay(base, k, v, st)

    def s_If(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        c = self.truth(c, st)
        if is_const(c, True):
            return self.block(s.body, st, fr)
        if is_const(c, False):
            return self.block(s.orelse, st, fr)
        base = st.pc
        a = st.copy()
        self.assume(a, c)
        b = st.copy()
        self.assume(b, Not(c))
        ra = self.block(s.body, a, fr)
        rb = self.block(s.orelse, b, fr)
        return self.merge(ra, rb, base, c if (ra is not None and rb is not None) else None)

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)
        out = None
        base = st.pc
        cur = st
        for c in s.cases:
            if cur is None:
                break
            cond = self.pattern(c.pattern, subj, cur, fr)
            if c.guard is not None:
                cond = And(cond, self.truth(self.ev(c.guard, cur, fr), cur))
            cond = self.known(cur, cond)
            if is_const(cond, False):
                continue
            a = cur.copy()
            self.assume(a, cond)
            r = self.block(c.body, a, fr)
            out = self.merge(out, r, base) if out is not None else r
            if is_const(cond, True):
                cur = None
                break
            self.assume(cur, Not(cond))
        return self.merge(out, cur, base) if out is not None else cur

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return Cmp('==', subj, self.ev(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            return Cmp('is', subj, Const(p.value))
        if isinstance(p, ast.MatchOr):
            return Or(*[self.pattern(x, subj, st, fr) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, subj, st, fr)
            if p.name:
                self.setvar(p.name, subj, st, fr, p)
            return c
        return mk('Cmp', '==', mk('Unk', self.kid(p)), TRUE)

    def s_With(self, s, st, fr):
        opened = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            self.emit(st, 'with', recv=v, node=it.context_expr, fr=fr)
            opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr, s)
        self.withstack = getattr(self, 'withstack', [])
        self.withstack.append(opened)
        out = self.block(s.body, st, fr)
        self.withstack.pop()
        return out

    s_AsyncWith = s_With

    # ---- loops
    def s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['breaks'].append((st, s))
        return None

    def s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['continues'].append((st, s))
        return None

    def iter_items(self, it, st):
        """Concrete element list when the iterable is a literal collection."""
        if it.op == 'Items':
            return list(it.a)
        if it.op in ('Tuple', 'List', 'Set'):
            return list(it.a)
        if it.op == 'Dict':
            return [k for k, _ in it.a]
        c = self.content(it, st)
        if isinstance(c, ListC) and not c.open:
            return list(c.items)
        if isinstance(c, DictC) and not c.open:
            return list(c.d)
        if it.op == 'Const' and isinstance(it.a[0], (tuple, range)):
            return [Const(x) for x in it.a[0]]
        if it.op == 'Const' and isinstance(it.a[0], str) and len(it.a[0]) <= 40:
            return [Const(x) for x in it.a[0]]
        return None

    as_items = iter_items

    def elem(self, it, lid, node, st, fr, handed=False):
        """The element of a symbolic iterable in the current iteration of loop lid."""
        idx = mk('Idx', lid)
        if it.op == 'Enum':
            i = idx if is_const(it.a[1], 0) else Bin('+', idx, it.a[1])
            return mk('Tuple', i, self.elem(it.a[0], lid, node, st, fr))
        if it.op == 'Zip':
            return mk('Tuple', *[self.elem(x, lid, node, st, fr) for x in it.a])
        if it.op == 'Range':
            lo, hi, stp = it.a
            v = idx if is_const(stp, 1) else Bin('*', idx, stp)
            return v if is_const(lo, 0) else Bin('+', lo, v)
        if it.op == 'Reversed':
            return mk('Index', it, idx)
        if it.op == 'Upd':
            return mk('Index', it.a[0], idx)
        if it.op == 'DItems':
            k = mk('Key', it.a[0], idx)
            return mk('Tuple', k, mk('Index', it.a[0], k))
        if it.op == 'DKeys':
            return mk('Key', it.a[0], idx)
        if it.op == 'DValues':
            return mk('Index', it.a[0], mk('Key', it.a[0], idx))
        c = self.content(it, st)
        if handed and isinstance(c, ListC) and c.comp:
            # filled by one loop, one value per round: rename that loop's index to this one's
            lid0, v, cond = c.comp
            if cond is TRUE:
                return subst(v, {mk('Idx', lid0).id: idx})
            return mk('Index', mk('Comp', 'list', v, ((lid0, self.loops[lid0]['iter']),), cond), idx)
        if it.op == 'Comp' and it.a[0] in ('list', 'gen') and len(it.a[2]) == 1 and it.a[3] is TRUE:
            # [f(y) for y in Y][i] is f(Y[i]): rename the comprehension index to this loop's
            inner = it.a[2][0][0]
            return subst(it.a[1], {mk('Idx', inner).id: idx})
        return self.index(it, idx, st, fr, node)

    def assigned_names(self, stmts):
        names = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == '__addr__' and \
                        isinstance(n.args[0], ast.Name):
                    names.add(n.args[0].id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    pass
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('fgets',)
               for s in stmts for n in ast.walk(s)):
            for s in stmts:
                for n in ast.walk(s):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'fgets' and \
                            n.args and isinstance(n.args[0], ast.Name):
                        names.add(n.args[0].id)
        return names

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        items = self.iter_items(it, st)
        if items is None and it.op == 'Enum':
            sub = self.iter_items(it.a[0], st)
            if sub is not None and is_const(it.a[1]):
                items = [mk('Tuple', Const(i + it.a[1].a[0]), x) for i, x in enumerate(sub)]
        if items is None and it.op == 'Zip':
            subs = [self.iter_items(x, st) for x in it.a]
            if all(x is not None for x in subs):
                items = [mk('Tuple', *row) for row in zip(*subs)]
        if items is None and it.op == 'Range' and all(is_const(x) for x in it.a):
            r = range(*[x.a[0] for x in it.a])
            if len(r) <= MAX_UNROLL:
                items = [Const(i) for i in r]
        if items is not None and len(items) <= MAX_UNROLL:
            return self.unroll(s, items, st, fr)
        return self.symloop(s, it, st, fr)

    s_AsyncFor = s_For

    def unroll(self, s, items, st, fr):
        base = st.pc
        fr.loops.append({'breaks': [], 'continues': [], 'unrolled': True})
        ctx = self.ctx
        broken = None
        cur = st
        for i, x in enumerate(items):
            if cur is None:
                break
            self.ctx = ctx + (('u', s.lineno, s.col_offset, i),)
            self.assign(s.target, x, cur, fr, s)
            fr.loops[-1]['continues'] = []
            cur = self.block(s.body, cur, fr)
            for c, _ in fr.loops[-1]['continues']:
                cur = self.merge(cur, c, base)
        self.ctx = ctx
        lp = fr.loops.pop()
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, fr)
        for b, _ in lp['breaks']:
            cur = self.merge(cur, b, base)
        return cur

    def s_While(self, s, st, fr):
        return self.symloop(s, None, st, fr)

    def symloop(self, s, it, st, fr):
        lid = self.kid(s, 'loop')
        is_for = it is not None
        base = st.pc
        names = self.assigned_names(s.body) | (self.assigned_names([ast.Expr(s.target)]) if is_for else set())
        if not is_for:
            names |= {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names = {n for n in names if n not in fr.globals_decl}
        carried = {n: st.env.get(n, UNDEF) for n in names}
        havoc = set()
        info = None
        for pas in range(3):
            ev0, order0 = len(self.events), self.order
            nret = len(fr.returns)
            head = st.copy()
            for n in carried:
                head.env[n] = mk('Mu', n, lid)
            for k in havoc:
                self.havoc_obj(k, head, lid)
            heap_head = dict(head.heap)
            loop = {'breaks': [], 'continues': [], 'unrolled': False}
            fr.loops.append(loop)
            info = {'id': lid, 'kind': 'for' if is_for else 'while', 'iter': self.deep(it, st) if is_for else None,
                    'site': f'{fr.fi.module.rel}:{s.lineno}', 'func': fr.fi.qual, 'node': s, 'init': dict(carried),
                    'next': {}, 'pc': base}
            self.loops[lid] = info
            self.loopstack.append(lid)
            entry = head.copy()
            dead_test = False
            if is_for:
                body_st = head.copy()
                try:
                    self.assign(s.target, self.elem(it, lid, s, body_st, fr), body_st, fr, s)
                except Dead:
                    body_st = None
                cond = None
                exit_st = entry
            else:
                try:
                    cond = self.truth(self.ev(s.test, head, fr), head)
                    body_st = head.copy()
                    exit_st = head.copy()
                    if is_const(cond, False):
                        body_st = None
                    elif is_const(cond, True):
                        exit_st = None
                    else:
                        self.assume(body_st, cond)
                        self.assume(exit_st, Not(cond))
                except Dead:
                    cond, body_st, exit_st = None, None, None
            info['cond'] = cond
            out = self.block(s.body, body_st, fr) if body_st is not None else None
            body_events = (ev0, len(self.events))
            self.loopstack.pop()
            fr.loops.pop()
            back = out
            for c, _ in loop['continues']:
                back = self.merge(back, c, base)
            if not is_for and back is not None:
                pass
            # what changed around the loop
            new_havoc = set()
            if back is not None:
                for k, v in back.heap.items():
                    h0 = heap_head.get(k)
                    if h0 is None:
                        h0 = self.gheap.get(k)
                    if h0 is None and not isinstance(k, tuple):
                        continue          # allocated in the body
                    if h0 is None and isinstance(k, tuple):
                        # store on an object; only if the object exists outside the loop
                        if not self.loop_local(k[1], lid):
                            new_havoc.add(k)
                        continue
                    if v is not h0 and v != h0:
                        new_havoc.add(k)
            for b, _ in loop['breaks']:
                pass
            inv = set()
            for n in list(carried):
                nxt = back.env.get(n, UNDEF) if back is not None else None
                mu = mk('Mu', n, lid)
                info['next'][n] = nxt
                if nxt is None or nxt is mu or (nxt is carried[n] and nxt is not UNDEF):
                    inv.add(n)
            more = not new_havoc <= havoc
            if (more or inv) and pas < 2:
                havoc |= new_havoc
                for n in inv:
                    carried.pop(n)
                # undo this pass
                del self.events[ev0:]
                self.order = order0
                del fr.returns[nret:]
                if not more and not inv:
                    break
                continue
            break
        info['breaks'] = [(And(*b.pc[len(base):]), n) for b, n in loop['breaks']]
        info['back'] = back
        info['has_break'] = bool(loop['breaks'])
        info['body_events'] = body_events
        for k in havoc:
            # entries of dictionaries carried around the loop
            c0, c1 = st.heap.get(k), back.heap.get(k) if back is not None else None
            if isinstance(c0, DictC) and isinstance(c1, DictC):
                for kk, v in c0.d.items():
                    info['init'][f'@{k}.{kk.id}'] = v
                    info['next'][f'@{k}.{kk.id}'] = c1.d.get(kk)
        # after the loop
        res = exit_st
        if res is not None:
            if back is not None:
                # objects changed by the body keep their abstract state
                for k in back.heap:
                    if k not in res.heap and not isinstance(k, tuple):
                        res.heap[k] = back.heap[k]
                    elif isinstance(k, tuple) and k not in res.heap:
                        res.heap[k] = back.heap[k]
                if is_for:
                    self.filled(st, res, lid, body_events, base)
                # variables first bound in the body
                for n in names:
                    if n not in carried and n not in res.env and n in back.env:
                        res.env[n] = back.env[n]
            if s.orelse:
                res = self.block(s.orelse, res, fr)
        for i, (b, n) in enumerate(loop['breaks']):
            # keep the path facts of the break: they hold after the loop when it was left here
            if res is None:
                res = b
            else:
                res = self.merge(b, res, base, mk('Brk', lid, i))
                # facts: left by this break -> its facts; else -> exit facts  (joined by merge through Or)
        return res

    def filled(self, st, res, lid, span, base):
        """Lists that were empty before the loop and got exactly one value in every round of it."""
        added = {}
        for e in self.events[span[0]:span[1]]:
            if e.recv is not None and e.recv.op == 'Ref':
                added.setdefault(e.recv.id, []).append(e)
        for k, evs in added.items():
            c0, c1 = st.heap.get(k), res.heap.get(k)
            if not (isinstance(c0, ListC) and not c0.items and not c0.open and isinstance(c1, ListC)):
                continue
            e = evs[0]
            if len(evs) != 1 or e.kind != 'append' or e.pc[:len(base)] != base or e.loops[-1:] != (lid,) or e.tries != tuple(self.trystack):
                continue
            v = e.extra.get('now', ()) if isinstance(e.extra, dict) else ()
            cond = And(*e.pc[len(base):])
            if len(v) != 1 or any(x.op == 'Mu' and lid in x.a for t in (v[0], cond) for x in walk(t)):
                continue
            res.heap[k] = ListC(c1.items, True, (lid, v[0], cond))

    def loop_local(self, tid, lid):
        t = BYID.get(tid)
        return t is not None and lid in t.lids

    def havoc_obj(self, k, st, lid):
        c = st.heap.get(k)
        if c is None:
            c = self.gheap.get(k)
        if isinstance(k, tuple):
            ov = c or {}
            st.heap[k] = {kk: mk('Mu', f'@{k[1]}.{kk if isinstance(kk, str) else kk.id}', lid) for kk in ov}
            return
        if isinstance(c, ListC):
            st.heap[k] = ListC((), True)
        elif isinstance(c, DictC):
            st.heap[k] = DictC({kk: mk('Mu', f'@{k}.{kk.id}', lid) for kk in c.d}, True)

    # ---- try
    def s_Try(self, s, st, fr):
        tid = self.kid(s, 'try')
        base = st.pc
        handlers = []
        for h in s.handlers:
            handlers.append(self.handler_types(h, st, fr))
        self.tries_info[tid] = {'handlers': handlers, 'node': s, 'site': f'{fr.fi.module.rel}:{s.lineno}', 'func': fr.fi.qual,
                                'nodes': s.handlers}
        before = st.copy()
        track = {'vars': {}, 'heap': set()}
        self.trytrack.append(track)
        self.trystack.append((tid, 'body'))
        ret0 = len(fr.returns)
        lp = fr.loops[-1] if fr.loops else None
        br0 = (len(lp['breaks']), len(lp['continues'])) if lp else (0, 0)
        self.emit(st, 'try-begin', node=s, fr=fr, extra=tid, raw=True)
        ev0 = len(self.events)
        out = self.block(s.body, st, fr)
        self.trystack.pop()
        self.trytrack.pop()
        # a handler may start from any intermediate state of the body
        hstate = before.copy()
        for (fid, n), vals in track['vars'].items():
            if fid != id(fr):
                continue
            alts = [before.env.get(n, UNDEF)]
            for v in vals:
                if v not in alts:
                    alts.append(v)
            if len(alts) > 1:
                hstate.env[n] = mk('Alt', tid, n, *alts)
            # propagate to outer tries
        for tr in self.trytrack:
            for k, v in track['vars'].items():
                tr['vars'].setdefault(k, []).extend(v)
            tr['heap'] |= track['heap']
        final_heap = out.heap if out is not None else None
        for k in track['heap']:
            if final_heap is not None and k in final_heap:
                x, y = hstate.heap.get(k), final_heap[k]
                if x is None:
                    x = self.gheap.get(k)
                if x is None:
                    hstate.heap[k] = y if not isinstance(k, tuple) else self.merge_ov({}, y, mk('Exc', tid, -1))
                elif x != y:
                    hstate.heap[k] = self.merge_content(x, y, mk('Exc', tid, -1))
        if final_heap is not None:
            for k, y in final_heap.items():
                if k not in hstate.heap:
                    hstate.heap[k] = y
        handler_outs = []
        if out is not None and s.orelse:
            self.trystack.append((tid, 'else'))
            out = self.block(s.orelse, out, fr)
            self.trystack.pop()
        can_raise = self.body_can_raise(s)
        for i, h in enumerate(s.handlers):
            if not can_raise:
                continue
            hs = hstate.copy()
            g = mk('Exc', tid, i)
            self.assume(hs, g)
            if h.name:
                hs.env[h.name] = mk('ExcVal', tid, i)
            old = getattr(self, 'handling', None)
            self.handling = (tid, i)
            self.trystack.append((tid, ('h', i)))
            n_cont = len(lp['continues']) + len(lp['breaks']) if lp is not None else 0
            n_ret = len(fr.returns)
            self.emit(hs, 'handler', node=h, fr=fr, extra=(tid, i, handlers[i]), raw=True)
            ho = self.block(h.body, hs, fr)
            self.trystack.pop()
            self.handling = old
            self.tries_info[tid].setdefault('falls', {})[i] = ho is not None
            self.tries_info[tid].setdefault('returns', {})[i] = len(fr.returns) > n_ret
            self.tries_info[tid].setdefault('completes', {})[i] = ho is not None or len(fr.returns) > n_ret or (
                lp is not None and len(lp['continues']) + len(lp['breaks']) > n_cont)
            handler_outs.append((g, ho))
        res = out
        for g, ho in handler_outs:
            if ho is None:
                continue
            if res is None:
                res = ho
            else:
                res = self.merge(ho, res, base, g)
        if s.finalbody:
            # abrupt exits run the final block too
            self.trystack.append((tid, 'finally'))
            for i in range(ret0, len(fr.returns)):
                rs, rv, rn = fr.returns[i]
                r2 = self.block(s.finalbody, rs.copy(), fr)
                if r2 is not None:
                    fr.returns[i] = (r2, rv, rn)
            if lp is not None:
                for key, n0 in (('breaks', br0[0]), ('continues', br0[1])):
                    for i in range(n0, len(lp[key])):
                        bs, bn = lp[key][i]
                        r2 = self.block(s.finalbody, bs.copy(), fr)
                        if r2 is not None:
                            lp[key][i] = (r2, bn)
            if res is None:
                fs = hstate.copy()
                self.assume(fs, mk('Exc', tid, 'esc'))
                self.block(s.finalbody, fs, fr)
            else:
                res = self.block(s.finalbody, res, fr)
            self.trystack.pop()
        self.emit(res if res is not None else hstate, 'try-end', node=s, fr=fr, extra=tid, raw=True)
        return res

    s_TryStar = s_Try

    def body_can_raise(self, s):
        for x in s.body:
            for n in ast.walk(x):
                if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Raise, ast.Assert, ast.Import,
                                  ast.ImportFrom, ast.Name, ast.For)):
                    return True
        return False

    def handler_types(self, h, st, fr):
        if h.type is None:
            return ('*',)
        t = self.ev(h.type, st.copy(), fr)
        items = self.iter_items(t, st) if t.op in ('Tuple', 'Ref', 'List') else [t]
        out = []
        for x in items or [t]:
            out.append(x.a[0] if x.op in ('Cls', 'Ext') else '?')
        return tuple(out)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f'{fr.fi.module.rel}:{e.lineno}: expression {type(e).__name__} not understood')
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return Const(e.value)

    def e_Name(self, e, st, fr):
        return self.load_name(e.id, st, fr)

    def load_name(self, name, st, fr):
        if name in fr.globals_decl and fr.fi.module.name in self.p.modules:
            v = self.modattr(fr.fi.module.name, name)
            return v
        v = st.env.get(name)
        if v is not None:
            if v.op == 'ModAttr':
                v = self.modattr(*v.a)
            return v
        c = fr.fi.closure
        if c is not None and name in c:
            return c[name]
        env = self.modenvs.get(fr.fi.module.name)
        if env is None and fr.fi.module.name in self.p.modules:
            env = self.module_env(fr.fi.module.name)
        if env is not None and name in env:
            v = env[name]
            if v.op == 'ModAttr':
                v = self.modattr(*v.a)
            return v
        if (fr.fi.node.name if hasattr(fr.fi.node, 'name') else '', name) in fr.fi.module.ctypes:
            return mk('CVar', fr.fi.qual, name)
        return Ext('builtins.' + name)

    def e_Attribute(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        return self.getfield(base, e.attr, st, fr, e)

    def getfield(self, base, name, st, fr, node):
        if base.op == 'Mod':
            return self.modattr(base.a[0], name)
        if base.op == 'Ext':
            return Ext(f'{base.a[0]}.{name}')
        if base.op == 'Obj':
            o = self.overlay(base, st)
            if o and name in o:
                return o[name]
            m = self.class_attr(base.a[0], name)
            if m is not None:
                return m if m.op != 'Fn' else mk('Bound', base, m)
        ov = self.overlay(base, st)
        if ov and name in ov:
            return self.resolve_old(ov[name], base, name)
        if base.op == 'Upd':
            for k, v in base.a[1:]:
                if k == name:
                    return v
            return self.getfield(base.a[0], name, st, fr, node)
        if base.op == 'Phi':
            sub = [self.overlay(x, st) for x in base.a[1:]] + [x for x in base.a[1:] if x.op == 'Upd']
            if any(s and (not isinstance(s, dict) or name in s) for s in sub):
                return Phi(base.a[0], self.getfield(base.a[1], name, st, fr, node), self.getfield(base.a[2], name, st, fr, node))
        return mk('Fld', base, name)

    def resolve_old(self, v, base, key):
        if not v.old:
            return v
        old = mk('Fld', base, key) if isinstance(key, str) else mk('Index', base, key)
        m = {x.id: old for x in walk(v) if x.op == 'Old'}
        return subst(v, m)

    def class_attr(self, qual, name):
        for t, (node, bases, methods, mod) in self.clsinfo.items():
            if t.a[0] == qual:
                if name in methods:
                    return methods[name]
                for b in bases:
                    if b.op == 'Cls':
                        r = self.class_attr(b.a[0], name)
                        if r is not None:
                            return r
        return None

    def e_Subscript(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        key = self.ev(e.slice, st, fr)
        return self.index(base, key, st, fr, e)

    def e_Slice(self, e, st, fr):
        f = lambda x: self.ev(x, st, fr) if x is not None else NONE
        return mk('Slice', f(e.lower), f(e.upper), f(e.step))

    def index(self, base, key, st, fr, node):
        c = self.content(base, st)
        if c is not None and key.op == 'Ref':
            key = self.deep(key, st)
        if isinstance(c, DictC):
            k = self.deep(key, st)
            if k in c.d:
                return c.d[k]
            if k.op == 'Const' and not c.open and all(x.op == 'Const' for x in c.d):
                self.emit(st, 'keyerror', recv=base, args=(k,), node=node, fr=fr, raw=True)
                raise Dead()
            if not c.open and k.op == 'Phi':
                a, b = self.phi_index(base, k, st, fr, node)
                if a is not None:
                    return Phi(k.a[0], a, b)
            return mk('Index', self.deep(base, st) if not c.open else base, k)
        if isinstance(c, ListC):
            if is_const(key) and isinstance(key.a[0], int) and not c.open:
                i = key.a[0]
                if -len(c.items) <= i < len(c.items):
                    return c.items[i]
                raise Dead()
            if key.op == 'Slice' and not c.open:
                try:
                    sl = slice(*[cval(x) for x in key.a])
                    if all(is_const(x) for x in key.a):
                        return self.newref(st, node, ListC(c.items[sl]), 'slice')
                except Exception:
                    pass
            return mk('Index', self.deep(base, st) if not c.open else base, key)
        if base.op in ('Tuple', 'List') and is_const(key) and isinstance(key.a[0], int):
            if -len(base.a) <= key.a[0] < len(base.a):
                return base.a[key.a[0]]
            raise Dead()
        if base.op in ('Tuple', 'List') and key.op == 'Slice' and all(is_const(x) for x in key.a):
            return mk(base.op, *base.a[slice(*[cval(x) for x in key.a])])
        if base.op == 'Dict':
            k = self.deep(key, st)
            for kk, v in base.a:
                if kk is k:
                    return v
            if k.op == 'Const' and all(x.op == 'Const' for x, _ in base.a):
                raise Dead()
        if base.op == 'OpenDict':
            k = self.deep(key, st)
            for kk, v in base.a[1:]:
                if kk is k:
                    return v
        if base.op == 'Const' and is_const(key):
            try:
                return Const(base.a[0][key.a[0]])
            except (IndexError, KeyError):
                raise Dead()
            except Exception:
                pass
        if base.op == 'Const' and isinstance(base.a[0], (str, tuple)) and key.op == 'Slice' and all(is_const(x) for x in key.a):
            return Const(base.a[0][slice(*[cval(x) for x in key.a])])
        key = self.deep(key, st)
        if is_const(key) and isinstance(key.a[0], str):
            name = key.a[0]
            ov = self.overlay(base, st)
            if ov and name in ov:
                return self.resolve_old(ov[name], base, name)
            if base.op == 'Upd' or base.op == 'Phi':
                r = self.getfield(base, name, st, fr, node)
                if base.op == 'Upd' or r.op != 'Fld' or r.a[0] is not base:
                    return r
        else:
            ov = self.overlay(base, st)
            if ov and key in ov:
                return self.resolve_old(ov[key], base, key)
        if base.op == 'Phi' and any(self.content(x, st) is not None or x.op in ('Tuple', 'Dict', 'List', 'OpenDict', 'Phi') for x in base.a[1:]):
            try:
                a = self.index(base.a[1], key, st, fr, node)
            except Dead:
                a = None
            try:
                b = self.index(base.a[2], key, st, fr, node)
            except Dead:
                b = None
            if a is None and b is None:
                raise Dead()
            if a is None:
                return b
            if b is None:
                return a
            return Phi(base.a[0], a, b)
        if base.op == 'Alt' and any(self.content(x, st) is not None or x.op in ('Tuple', 'Dict') for x in base.a[2:]):
            outs = []
            for x in base.a[2:]:
                if x is UNDEF:
                    continue
                try:
                    outs.append(self.index(x, key, st, fr, node))
                except Dead:
                    pass
            if outs:
                return outs[0] if len(set(outs)) == 1 else mk('Alt', base.a[0], base.a[1], *outs)
        if is_const(key) and isinstance(key.a[0], str) and base.op not in ('Const',):
            return mk('Fld', base, key.a[0])
        if base.op in ('Comp',) and key.op == 'Idx':
            return self.elem(base, key.a[0], node, st, fr) if base.a[3] is TRUE and len(base.a[2]) == 1 else mk('Index', base, key)
        if key.op not in ('Const', 'Idx', 'Mu'):
            # a selection of rows or columns is a copy of the current contents
            base = self.view(base, st)
        return mk('Index', base, key)

    def view(self, base, st):
        if base.op == 'Fld' and base.a[1] in ('loc', 'iloc', 'values', 'at', 'iat'):
            inner = self.deep(base.a[0], st)
            return base if inner is base.a[0] else mk('Fld', inner, base.a[1])
        return self.deep(base, st)

    def phi_index(self, base, k, st, fr, node):
        try:
            return self.index(base, k.a[1], st, fr, node), self.index(base, k.a[2], st, fr, node)
        except Dead:
            return None, None

    def opname(self, op):
        return {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
                ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}[type(op)]

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        op = self.opname(e.op)
        if op == '%' and (is_const(a) and isinstance(a.a[0], str)):
            return self.percent(a.a[0], b, st)
        if op == '+':
            ca, cb = self.content(a, st), self.content(b, st)
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return self.newref(st, e, ListC(ca.items + cb.items, ca.open or cb.open), 'cat')
        if op == '*':
            ca = self.content(a, st)
            if isinstance(ca, ListC) and is_const(b) and isinstance(b.a[0], int) and b.a[0] < 64 and not ca.open:
                return self.newref(st, e, ListC(ca.items * b.a[0]), 'mul')
        return self.binop(op, a, b, st)

    def binop(self, op, a, b, st):
        if op in ('&', '|'):
            x = a if boolish(a) else None
            y = b if boolish(b) else None
            if x is not None or y is not None:
                f = And if op == '&' else Or
                return f(a if x is not None else mk('Cmp', '==', mk('Bool', a), TRUE),
                         b if y is not None else mk('Cmp', '==', mk('Bool', b), TRUE))
        return Bin(op, self.deep(a, st), self.deep(b, st))

    def percent(self, fmt, b, st):
        c = self.content(b, st)
        args = list(b.a) if b.op == 'Tuple' else [b]
        out, pos, k = [], 0, 0
        for m in re.finditer(r'%(\(\w+\))?([-+ #0]*\d*(?:\.\d+)?)([diouxXeEfFgGcrs%])', fmt):
            if m.start() > pos:
                out.append(Const(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(3) == '%':
                out.append(Const('%'))
                continue
            if m.group(1):
                v = self.index(b, Const(m.group(1)[1:-1]), st, None, None)
            elif k < len(args):
                v = args[k]
                k += 1
            else:
                raise Dead()
            spec = m.group(2) + m.group(3)
            out.append(self.fmtval(v, '' if spec == 's' or spec == 'd' and False else spec if spec != 's' else ''))
        if pos < len(fmt):
            out.append(Const(fmt[pos:]))
        return StrCat(*out)

    def fmtval(self, v, spec):
        if spec in ('', 's'):
            return v if strish(v) else mk('Fmt', v, '') if not is_const(v) else Const(str(v.a[0]))
        m = re.fullmatch(r'0?(\d+)d?', spec)
        if is_const(v):
            try:
                return Const(format(v.a[0], spec))
            except Exception:
                pass
        if m and spec.startswith('0'):
            return mk('Fmt', v, f'0{int(m.group(1))}d')
        return mk('Fmt', v, spec)

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            if is_const(v) and isinstance(v.a[0], (int, float)):
                return Const(-v.a[0])
            if v.op == 'Ext' and v.a[0] in ('numpy.inf',):
                return Const(float('-inf'))
            return mk('Neg', v)
        if isinstance(e.op, ast.Invert):
            if boolish(v):
                return Not(v)
            return mk('Inv', v)
        return v

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        saved = st.pc
        vals = []
        truths = []
        for i, x in enumerate(e.values):
            try:
                v = self.ev(x, st, fr)
            except Dead:
                if i == 0:
                    raise
                v = mk('Unk', self.kid(x))
            c = self.truth(v, st)
            vals.append(v)
            truths.append(c)
            if is_const(c, not isand):
                break
            if i < len(e.values) - 1:
                st.pc = saved + tuple(t for t in [And(*[tt if isand else Not(tt) for tt in truths])] if t.op != 'Const')
        st.pc = saved
        if all(boolish(v) for v in vals):
            return And(*truths) if isand else Or(*truths)
        # value semantics: a or b  ->  phi(a ? a : b)
        r = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(truths[:-1])):
            r = Phi(c, r, v) if isand else Phi(c, v, r)
        if r.op == 'Phi' and not strish(r):
            t = And(*truths) if isand else Or(*truths)
            if any(boolish(v) for v in vals):
                return t
        return r

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = []
        names = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in',
                 ast.NotIn: 'notin', ast.Is: 'is', ast.IsNot: 'isnot'}
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, fr)
            o = names[type(op)]
            l, r = self.deep(left, st), self.deep(right, st)
            if o in ('in', 'notin'):
                if r.op in ('DKeys',):
                    r = r.a[0]
                if r.op in ('Dict',) and all(k.op == 'Const' for k, _ in r.a) and l.op == 'Const':
                    hit = any(k is l for k, _ in r.a)
                    out.append(Const(hit == (o == 'in')))
                    left = right
                    continue
                if r.op == 'OpenDict' and l.op == 'Const' and any(k is l for k, _ in r.a[1:]):
                    out.append(Const(o == 'in'))
                    left = right
                    continue
                if r.op == 'Call' and r.a[0] in ('builtins.set', 'builtins.list', 'builtins.tuple', 'numpy.array') and len(r.a[1]) == 1:
                    r = r.a[1][0]
            t = Cmp(o, l, r)
            out.append(t)
            left = right
        return self.known(st, And(*out)) if len(out) > 1 else self.known(st, out[0])

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.ev(e.test, st, fr), st)
        if is_const(c, True):
            return self.ev(e.body, st, fr)
        if is_const(c, False):
            return self.ev(e.orelse, st, fr)
        saved = st.pc
        st.pc = saved + (c,)
        try:
            a = self.ev(e.body, st, fr)
        except Dead:
            a = None
        st.pc = saved + (Not(c),)
        try:
            b = self.ev(e.orelse, st, fr)
        except Dead:
            b = None
        st.pc = saved
        if a is None and b is None:
            raise Dead()
        if a is None:
            return b
        if b is None:
            return a
        return Phi(c, a, b)

    def e_Tuple(self, e, st, fr):
        return mk('Tuple', *self.elts(e.elts, st, fr))

    def elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                items = self.iter_items(v, st)
                if items is None:
                    out.append(mk('Star', v))
                else:
                    out.extend(items)
            else:
                out.append(self.ev(x, st, fr))
        return out

    def e_List(self, e, st, fr):
        items = self.elts(e.elts, st, fr)
        return self.newref(st, e, ListC([x for x in items if x.op != 'Star'], any(x.op == 'Star' for x in items)))

    def e_Set(self, e, st, fr):
        return mk('Set', *self.elts(e.elts, st, fr))

    def e_Dict(self, e, st, fr):
        d, op = {}, False
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fr)
            if k is None:
                c = self.content(vv, st)
                if isinstance(c, DictC):
                    d.update(c.d)
                    op |= c.open
                else:
                    op = True
                continue
            kk = self.deep(self.ev(k, st, fr), st)
            d[kk] = vv
        return self.newref(st, e, DictC(d, op))

    def e_Starred(self, e, st, fr):
        return mk('Star', self.ev(e.value, st, fr))

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            parts.append(self.ev(v, st, fr))
        return StrCat(*parts)

    def e_FormattedValue(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        spec = ''
        if e.format_spec is not None:
            sp = self.ev(e.format_spec, st, fr)
            spec = cval(sp, '?')
        if v.op == 'Ref':
            v = self.deep(v, st)
        return self.fmtval(v, spec)

    def e_Lambda(self, e, st, fr):
        t = mk('Fn', f'{fr.fi.qual}.<lambda>', self.kid(e))
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(e.body)], decorator_list=[], returns=None, type_params=[])
        ast.copy_location(node, e)
        ast.copy_location(node.body[0], e.body)
        fi = FuncInfo(fr.fi.module, node, f'{fr.fi.qual}.<lambda>', closure=st.env)
        fi.defaults = [self.ev(d, st, fr) for d in e.args.defaults]
        fi.kwdefaults = []
        self.fninfo[t] = fi
        return t

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.setvar(e.target.id, v, st, fr, e)
        return v

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        if e.value is not None:
            v = self.ev(e.value, st, fr)
            self.emit(st, 'yield', args=(v,), node=e, fr=fr)
        return mk('Unk', self.kid(e))

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.emit(st, 'yield', args=(v,), node=e, fr=fr)
        return mk('Unk', self.kid(e))

    # ---- comprehensions
    def e_ListComp(self, e, st, fr):
        return self.comp('list', e, st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp('gen', e, st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp('set', e, st, fr)

    def e_DictComp(self, e, st, fr):
        return self.comp('dict', e, st, fr)

    def comp(self, kind, e, st, fr):
        inner = State(dict(st.env), st.heap, st.pc)
        # concrete unrolling of one generator
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.ev(g.iter, inner, fr)
            items = self.iter_items(it, inner)
            if items is None and it.op == 'Enum':
                sub = self.iter_items(it.a[0], inner)
                if sub is not None and is_const(it.a[1]):
                    items = [mk('Tuple', Const(i + it.a[1].a[0]), x) for i, x in enumerate(sub)]
            if items is None and it.op == 'Zip':
                subs = [self.iter_items(x, inner) for x in it.a]
                if all(x is not None for x in subs):
                    items = [mk('Tuple', *row) for row in zip(*subs)]
            if items is None and it.op == 'Range' and all(is_const(x) for x in it.a):
                r = range(*[x.a[0] for x in it.a])
                if len(r) <= MAX_UNROLL:
                    items = [Const(i) for i in r]
            if items is not None and len(items) <= MAX_UNROLL:
                out = []
                ok = True
                ctx = self.ctx
                for i, x in enumerate(items):
                    self.ctx = ctx + (('u', e.lineno, e.col_offset, i),)
                    self.assign(g.target, x, inner, fr, e)
                    cs = [self.truth(self.ev(c, inner, fr), inner) for c in g.ifs]
                    c = And(*cs) if cs else TRUE
                    if is_const(c, False):
                        continue
                    if not is_const(c, True):
                        ok = False
                        break
                    if kind == 'dict':
                        out.append((self.deep(self.ev(e.key, inner, fr), inner), self.ev(e.value, inner, fr)))
                    else:
                        out.append(self.ev(e.elt, inner, fr))
                self.ctx = ctx
                st.heap = inner.heap
                if ok:
                    if kind == 'dict':
                        return self.newref(st, e, DictC(dict(out)))
                    if kind == 'set':
                        return mk('Set', *out)
                    return self.newref(st, e, ListC(out))
        lids = []
        conds = []
        pushed = 0
        saved = inner.pc
        for i, g in enumerate(e.generators):
            it = self.ev(g.iter, inner, fr)
            lid = self.kid(e, f'comp{i}')
            self.loops[lid] = {'id': lid, 'kind': 'comp', 'iter': self.deep(it, inner), 'site': f'{fr.fi.module.rel}:{e.lineno}',
                               'func': fr.fi.qual, 'node': e, 'init': {}, 'next': {}, 'pc': st.pc, 'cond': None, 'breaks': [],
                               'back': None}
            self.loopstack.append(lid)
            pushed += 1
            self.assign(g.target, self.elem(it, lid, e, inner, fr), inner, fr, e)
            for c in g.ifs:
                t = self.truth(self.ev(c, inner, fr), inner)
                conds.append(t)
                self.assume(inner, t)
            lids.append((lid, self.deep(it, inner)))
        try:
            if kind == 'dict':
                elt = mk('Tuple', self.ev(e.key, inner, fr), self.ev(e.value, inner, fr))
            else:
                elt = self.ev(e.elt, inner, fr)
        except Dead:
            elt = mk('Unk', self.kid(e))
        elt = self.deep(elt, inner)
        for _ in range(pushed):
            self.loopstack.pop()
        st.heap = inner.heap
        return mk('Comp', kind, elt, tuple(lids), And(*conds) if conds else TRUE)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # C out-parameters
        if isinstance(e.func, ast.Name) and e.func.id == '__addr__':
            return mk('Addr', Const(ast.unparse(e.args[0])))
        if isinstance(e.func, ast.Name) and e.func.id == '__sizeof__':
            return mk('Sizeof', Const(ast.unparse(e.args[0])))
        recv = None
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, st, fr)
            name = e.func.attr
            if recv.op in ('Mod', 'Ext'):
                f = self.getfield(recv, name, st, fr, e)
                recv = None
            elif recv.op == 'Obj' and self.class_attr(recv.a[0], name) is not None:
                f = mk('Bound', recv, self.class_attr(recv.a[0], name))
                recv = None
            elif recv.op == 'Super':
                f = None
            else:
                f = None
        else:
            f = self.ev(e.func, st, fr)
        args, kw, star = [], {}, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                items = self.iter_items(v, st)
                if items is None:
                    args.append(mk('Star', v))
                    star = True
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                c = self.content(v, st)
                if isinstance(c, DictC) and not c.open:
                    for kk, vv in c.d.items():
                        if is_const(kk) and isinstance(kk.a[0], str):
                            kw[kk.a[0]] = vv
                elif v.op == 'Dict':
                    for kk, vv in v.a:
                        kw[cval(kk)] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        if recv is not None:
            return self.method(recv, name, args, kw, e, st, fr)
        return self.call(f, args, kw, e, st, fr)

    def call(self, f, args, kw, e, st, fr):
        if f.op == 'Fn':
            return self.inline(f, args, kw, e, st, fr)
        if f.op == 'Bound':
            return self.inline(f.a[1], [f.a[0]] + args, kw, e, st, fr)
        if f.op == 'Cls':
            return self.instantiate(f, args, kw, e, st, fr)
        if f.op == 'Ext':
            return self.extcall(f.a[0], args, kw, e, st, fr)
        if f.op == 'Phi':
            c = f.a[0]
            outs = []
            base = st.pc
            for side, cc in ((f.a[1], c), (f.a[2], Not(c))):
                s2 = st.copy()
                self.assume(s2, cc)
                try:
                    v = self.call(side, list(args), dict(kw), e, s2, fr)
                    outs.append((s2, v))
                except Dead:
                    pass
            if not outs:
                raise Dead()
            m, v = self.merge_returns(outs, base)
            st.env, st.heap, st.pc = m.env, m.heap, m.pc
            return v
        if f.op == 'Alt':
            for x in f.a[2:]:
                if x.op in ('Fn',):
                    return self.call(x, args, kw, e, st, fr)
        if f.op == 'Missing':
            self.emit(st, 'missing', '.'.join(f.a), node=e, fr=fr)
        # unknown callee
        for x in args + list(kw.values()):
            if x.op == 'Fn':
                self.callback(x, e, st, fr)
        dargs = tuple(self.deep(x, st) for x in args)
        dkw = tuple(sorted((k, self.deep(v, st)) for k, v in kw.items()))
        val = mk('CallV', self.deep(f, st), dargs, dkw)
        self.emit(st, 'callv', recv=f, args=args, kw=kw, node=e, fr=fr, val=val)
        return val

    def callback(self, fn, e, st, fr, argterms=None):
        """A project function handed to external code: analyse it once on opaque arguments."""
        fi = self.fninfo.get(fn)
        if fi is None or any(x is fi for x in [c[0] for c in self.callstack]):
            return None
        n = len(fi.node.args.posonlyargs + fi.node.args.args)
        if argterms is None:
            argterms = [mk('CbArg', self.kid(e), i) for i in range(n - len(fi.defaults or []))]
        s2 = st.copy()
        try:
            v = self.inline(fn, argterms, {}, e, s2, fr)
        except Dead:
            v = None
        st.heap = s2.heap
        return v

    def instantiate(self, cls, args, kw, e, st, fr):
        q = cls.a[0]
        obj = mk('Obj', q, self.kid(e), tuple(self.deep(x, st) for x in args) if self.is_exc(cls) else ())
        init = self.class_attr(q, '__init__')
        if init is not None and init.op == 'Fn':
            self.inline(init, [obj] + args, kw, e, st, fr)
        else:
            self.emit(st, 'new', q, args=args, kw=kw, node=e, fr=fr, val=obj)
        return obj

    def is_exc(self, cls):
        i = self.clsinfo.get(cls)
        if i is None:
            return False
        for b in i[1]:
            if b.op == 'Ext' and (b.a[0].endswith('Exception') or b.a[0].endswith('Error')):
                return True
            if b.op == 'Cls' and self.is_exc(b):
                return True
        return False

    def inline(self, f, args, kw, e, st, fr):
        fi = self.fninfo.get(f)
        if fi is None:
            return mk('CallV', f, tuple(args), ())
        q = fi.qual
        # arguments given by name stand at their place
        names, args, kw = fi.params(), list(args), dict(kw)
        while len(args) < len(names) and names[len(args)] in kw and not any(x.op == 'Star' for x in args):
            args.append(kw.pop(names[len(args)]))
        self.fn_entered.add(q)
        if q in self.call_over:
            v = self.call_over[q]
            v = v(args, kw, st) if callable(v) else v
            self.emit(st, 'pcall', q, args=args, kw=kw, node=e, fr=fr, val=v)
            return v
        depth = len(self.callstack)
        rec = any(c[0] is fi or (c[0].node is fi.node) for c in self.callstack) or (depth == 0 and False)
        if (rec or (fr.fi.node is fi.node)) or depth > MAX_DEPTH or q in self.no_inline:
            dargs = tuple(self.deep(x, st) for x in args)
            dkw = tuple(sorted((k, self.deep(v, st)) for k, v in kw.items()))
            val = mk('Rec', q, dargs, dkw)
            self.emit(st, 'pcall', q, args=args, kw=kw, node=e, fr=fr, val=val)
            return val
        env = self.bind(fi, args, kw, e, st, fr)
        self.emit(st, 'enter', q, args=args, kw=kw, node=e, fr=fr, extra={k: self.deep(v, st) for k, v in env.items()})
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fi.node) if n is not fi.node):
            gen = True
        else:
            gen = False
        nfr = Frame(fi, fr)
        ctx = self.ctx
        self.ctx = ctx + ((e.lineno, getattr(e, 'col_offset', 0), q),)
        self.callstack.append((fi, f'{fr.fi.module.rel}:{e.lineno}'))
        base = st.pc
        s2 = State(env, st.heap, st.pc)
        try:
            out = self.block(fi.node.body, s2, nfr)
        finally:
            self.callstack.pop()
            self.ctx = ctx
        rets = [(s, v) for s, v, n in nfr.returns]
        if out is not None:
            rets.append((out, NONE))
        if not rets:
            self.emit(st, 'noreturn', q, node=e, fr=fr, raw=True)
            raise Dead()
        m, v = self.merge_returns(rets, base)
        st.heap = m.heap
        st.pc = m.pc
        if gen:
            v = mk('CallV', f, tuple(self.deep(x, st) for x in args), ())
        self.emit(st, 'leave', q, node=e, fr=fr, val=v, raw=True)
        return v

    def bind(self, fi, args, kw, e, st, fr):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        stars = [x for x in args if x.op == 'Star']
        plain = args[:args.index(stars[0])] if stars else args
        for n, v in zip(pos, plain):
            env[n] = v
        if len(plain) > len(pos):
            if a.vararg:
                env[a.vararg.arg] = mk('Tuple', *plain[len(pos):])
            else:
                self.emit(st, 'badcall', fi.qual, args=args, node=e, fr=fr, extra='too many positional arguments')
                raise Dead()
        if stars:
            for i, n in enumerate(pos[len(plain):]):
                env.setdefault(n, mk('Index', stars[0].a[0], Const(i)))
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k == '**':
                for n in pos + kwonly:
                    if n not in env and n not in kw:
                        env[n] = mk('Index', v, Const(n))
                continue
            if k in pos or k in kwonly:
                env[k] = v
            elif a.kwarg:
                extra[Const(k)] = v
            else:
                self.emit(st, 'badcall', fi.qual, args=args, kw=kw, node=e, fr=fr, extra=f'unexpected keyword {k}')
                raise Dead()
        if a.kwarg:
            env[a.kwarg.arg] = self.newref(st, e, DictC(extra, '**' in kw), 'kwargs')
        if a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = mk('Tuple') if not stars else mk('Unk', self.kid(e, 'va'))
        nd = len(fi.defaults or [])
        for n, d in zip(pos[len(pos) - nd:], fi.defaults or []):
            env.setdefault(n, d)
        for n, d in zip(kwonly, fi.kwdefaults or []):
            if d is not None:
                env.setdefault(n, d)
        for n in pos + kwonly:
            if n not in env:
                self.emit(st, 'badcall', fi.qual, args=args, kw=kw, node=e, fr=fr, extra=f'missing argument {n}')
                raise Dead()
        return env

    NORETURN = {'sys.exit', 'os._exit', 'builtins.exit', 'builtins.quit', 'os.abort'}

    FRESH = ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like')

    def extcall(self, name, args, kw, e, st, fr):
        d = lambda x: self.deep(x, st)
        if name in self.NORETURN:
            self.emit(st, 'raise', 'builtins.SystemExit', recv=mk('Call', name, tuple(d(x) for x in args), ()), node=e, fr=fr,
                      extra=getattr(self, 'handling', None))
            raise Dead()
        r = self.pure(name, args, kw, e, st, fr)
        if r is not None:
            return r
        # higher-order externals
        fnargs = [x for x in list(args) + list(kw.values()) if x.op in ('Fn', 'Bound')]
        cbvals = []
        for fn in fnargs:
            if fn.op == 'Fn':
                cbvals.append(self.callback(fn, e, st, fr))
        dargs = tuple(d(x) for x in args)
        dkw = tuple(sorted((k, d(v)) for k, v in kw.items()))
        val = mk('Call', name, dargs, dkw)
        if name in self.FRESH:
            # arrays made at different places are different arrays
            same = self.allocs.setdefault(val.id, [])
            if e not in same:
                same.append(e)
            if same.index(e):
                val = mk('Call', name, dargs, dkw + (('@', Const(same.index(e))),))
        ev = self.emit(st, 'call', name, args=args, kw=kw, node=e, fr=fr, val=val, extra={'rawargs': tuple(args), 'ast': e})
        # C functions writing through pointers
        if fr.fi.module.kind == 'pyx':
            for i, a in enumerate(args):
                if a.op == 'Addr':
                    n = a.a[0].a[0]
                    old = st.env.get(n, UNDEF)
                    self.setvar(n, mk('Out', val, i, self.kid(e, 'out'), old), st, fr, e)
            if name.endswith('.fgets') or name.endswith('.fread') or name.endswith('.getline') or name.endswith('.strcpy'):
                if e.args and isinstance(e.args[0], ast.Name):
                    self.setvar(e.args[0].id, mk('Buf', e.args[0].id, self.kid(e, 'buf')), st, fr, e)
        return val

    def pure(self, name, args, kw, e, st, fr):
        """Closed list of side-effect free operations with a known meaning."""
        n = len(args)
        short = name[9:] if name.startswith('builtins.') else None
        if short == 'len' and n == 1:
            c = self.content(args[0], st)
            if isinstance(c, ListC) and not c.open:
                return Const(len(c.items))
            if isinstance(c, DictC) and not c.open:
                return Const(len(c.d))
            if args[0].op in ('Tuple', 'List', 'Dict'):
                return Const(len(args[0].a))
            if args[0].op == 'Const' and isinstance(args[0].a[0], (str, bytes, tuple)):
                return Const(len(args[0].a[0]))
            return mk('Call', 'builtins.len', (self.deep(args[0], st),), ())
        if short in ('str', 'repr') and n == 1:
            if strish(args[0]):
                return args[0]
            if is_const(args[0]):
                return Const(str(args[0].a[0]))
            return mk('Fmt', self.deep(args[0], st), '')
        if short == 'str' and n == 0:
            return EMPTY
        if short == 'int' and n == 1 and is_const(args[0]) and not kw:
            try:
                return Const(int(args[0].a[0]))
            except Exception:
                raise Dead()
        if short == 'float' and n == 1 and is_const(args[0]):
            try:
                return Const(float(args[0].a[0]))
            except Exception:
                raise Dead()
        if short == 'bool' and n == 1:
            return self.truth(args[0], st)
        if short in ('ord', 'chr', 'hex', 'bin') and n == 1 and is_const(args[0]):
            try:
                return Const({'ord': ord, 'chr': chr, 'hex': hex, 'bin': bin}[short](args[0].a[0]))
            except Exception:
                return None
        if short == 'range':
            a = [Const(0), args[0], Const(1)] if n == 1 else [args[0], args[1], args[2] if n > 2 else Const(1)]
            return mk('Range', *[self.deep(x, st) for x in a])
        if short == 'enumerate' and n >= 1:
            start = args[1] if n > 1 else kw.get('start', Const(0))
            return mk('Enum', args[0], start)
        if short == 'zip':
            return mk('Zip', *args)
        if short in ('list', 'tuple', 'iter') and n == 1 or short == 'sorted' and n == 1 and False:
            items = self.iter_items(args[0], st)
            if items is not None:
                return self.newref(st, e, ListC(items)) if short != 'tuple' else mk('Tuple', *items)
            if short == 'iter':
                return args[0]
            if args[0].op in ('Comp', 'DKeys', 'DItems', 'DValues', 'Zip', 'Enum', 'Range'):
                if args[0].op == 'Comp' and args[0].a[0] == 'gen':
                    return mk('Comp', 'list', *args[0].a[1:])
                return args[0]
        if short in ('list', 'dict', 'tuple', 'set') and n == 0 and (short != 'dict'):
            return self.newref(st, e, ListC(())) if short in ('list', 'set') else mk('Tuple')
        if short == 'dict':
            d, op = {}, False
            if n == 1:
                c = self.content(args[0], st)
                if isinstance(c, DictC):
                    d.update(c.d)
                    op = c.open
                else:
                    items = None
                    if args[0].op == 'Zip':
                        subs = [self.iter_items(x, st) for x in args[0].a]
                        if all(x is not None for x in subs):
                            items = [mk('Tuple', *row) for row in zip(*subs)]
                    items = items if items is not None else self.iter_items(args[0], st)
                    if items is not None:
                        for it in items:
                            sub = self.iter_items(it, st)
                            if sub is None or len(sub) != 2:
                                return None
                            d[self.deep(sub[0], st)] = sub[1]
                    else:
                        return None
            for k, v in kw.items():
                if k == '**':
                    op = True
                else:
                    d[Const(k)] = v
            return self.newref(st, e, DictC(d, op))
        if short == 'getattr' and n >= 2 and is_const(args[1]) and isinstance(args[1].a[0], str):
            return self.getfield(args[0], args[1].a[0], st, fr, e)
        if short == 'setattr' and n == 3 and is_const(args[1]) and isinstance(args[1].a[0], str):
            self.store(args[0], args[1].a[0], args[2], st, fr, e)
            return NONE
        if short == 'map' and n == 2 and args[0].op in ('Fn', 'Ext', 'Bound', 'Cls'):
            items = self.iter_items(args[1], st)
            if items is not None and len(items) <= MAX_UNROLL:
                return self.newref(st, e, ListC([self.call(args[0], [x], {}, e, st, fr) for x in items]))
            lid = self.kid(e, 'map')
            self.loops[lid] = {'id': lid, 'kind': 'comp', 'iter': self.deep(args[1], st), 'site': f'{fr.fi.module.rel}:{e.lineno}',
                               'func': fr.fi.qual, 'node': e, 'init': {}, 'next': {}, 'pc': st.pc, 'cond': None, 'breaks': [], 'back': None}
            self.loopstack.append(lid)
            try:
                v = self.call(args[0], [self.elem(args[1], lid, e, st, fr, True)], {}, e, st, fr)
            except Dead:
                v = mk('Unk', self.kid(e))
            self.loopstack.pop()
            return mk('Comp', 'list', self.deep(v, st), ((lid, self.deep(args[1], st)),), TRUE)
        if short == 'filter' and n == 2 and args[0].op == 'Fn':
            lid = self.kid(e, 'filter')
            self.loops[lid] = {'id': lid, 'kind': 'comp', 'iter': self.deep(args[1], st), 'site': f'{fr.fi.module.rel}:{e.lineno}',
                               'func': fr.fi.qual, 'node': e, 'init': {}, 'next': {}, 'pc': st.pc, 'cond': None, 'breaks': [], 'back': None}
            self.loopstack.append(lid)
            el = self.elem(args[1], lid, e, st, fr)
            try:
                v = self.truth(self.call(args[0], [el], {}, e, st, fr), st)
            except Dead:
                v = FALSE
            self.loopstack.pop()
            return mk('Comp', 'list', self.deep(el, st), ((lid, self.deep(args[1], st)),), v)
        if short == 'reversed' and n == 1:
            items = self.iter_items(args[0], st)
            if items is not None:
                return self.newref(st, e, ListC(items[::-1]))
            return mk('Reversed', self.deep(args[0], st))
        if name in ('numpy.max', 'numpy.min') and n >= 1 and all(is_const(x) and isinstance(x.a[0], (int, float)) for x in args) and n > 1:
            return Const((max if name.endswith('max') else min)(x.a[0] for x in args))
        if name in ('numpy.logical_and', 'numpy.logical_or', 'operator.and_', 'operator.or_', 'numpy.bitwise_and', 'numpy.bitwise_or') and n == 2:
            return self.binop('&' if 'and' in name else '|', self.asbool(args[0]), self.asbool(args[1]), st)
        if name in ('numpy.logical_not', 'numpy.invert', 'operator.not_', 'operator.inv') and n == 1:
            return Not(args[0]) if boolish(args[0]) else mk('Inv', args[0])
        if name.startswith('operator.') and n == 2:
            o = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'mod': '%'}.get(name[9:])
            if o:
                return self.binop(o, args[0], args[1], st)
            o = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}.get(name[9:])
            if o:
                return Cmp(o, args[0], args[1])
        o = {'numpy.greater': '>', 'numpy.less': '<', 'numpy.greater_equal': '>=', 'numpy.less_equal': '<=', 'numpy.equal': '==',
             'numpy.not_equal': '!='}.get(name)
        if o and n == 2:
            return Cmp(o, self.deep(args[0], st), self.deep(args[1], st))
        o = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.mod': '%'}.get(name)
        if o and n == 2 and not kw:
            return Bin(o, self.deep(args[0], st), self.deep(args[1], st))
        if name in ('os.path.join',) and n >= 1:
            out = [args[0]]
            for x in args[1:]:
                out += [Const('/'), x]
            # a trailing '' only adds the separator
            return StrCat(*[self.deep(x, st) for x in out])
        if name == 'os.fspath' and n == 1:
            return args[0]
        if name in ('copy.copy', 'copy.deepcopy') and n == 1:
            c = self.content(args[0], st)
            if isinstance(c, ListC):
                return self.newref(st, e, ListC(c.items, c.open))
            if isinstance(c, DictC):
                return self.newref(st, e, DictC(dict(c.d), c.open))
        if short == 'format' and n == 2 and is_const(args[1]):
            return self.fmtval(args[0], args[1].a[0])
        if short == 'type' and n == 1 and is_const(args[0]) and type(cval(args[0])) in (str, int, float, bool, bytes):
            return Ext('builtins.' + type(cval(args[0])).__name__)
        if short in ('isinstance',) and n == 2:
            if is_const(args[0]):
                def yes(t):
                    t = self.deep(t, st)
                    if t.op in ('Tuple', 'List'):
                        r = [yes(x) for x in t.a[0]] if isinstance(t.a[0], tuple) else [None]
                        return True if True in r else (None if None in r else False)
                    kinds = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes, 'dict': dict, 'list': list, 'tuple': tuple}
                    nm = show(t, 2).split('.')[-1]
                    return isinstance(cval(args[0]), kinds[nm]) if nm in kinds else None
                r = yes(args[1])
                if r is not None:
                    return Const(r)
            return mk('Cmp', '==', mk('Call', 'isinstance', tuple(self.deep(x, st) for x in args), ()), TRUE)
        if name in ('numpy.inf', 'numpy.nan'):
            return None
        return None

    def asbool(self, t):
        return t if boolish(t) else mk('Cmp', '==', mk('Bool', t), TRUE)

    def method(self, recv, name, args, kw, e, st, fr):
        c = self.content(recv, st)
        d = lambda x: self.deep(x, st)
        if isinstance(c, ListC):
            name = {'add': 'append', 'update': 'extend', 'discard': 'remove'}.get(name, name)
            if name in ('append', 'extend', 'insert', 'remove', 'pop', 'sort', 'clear', 'reverse'):
                for tr in self.trytrack:
                    tr['heap'].add(recv.id)
            if name == 'append':
                self.emit(st, 'append', recv=recv, args=args, node=e, fr=fr, raw=True, extra={'now': tuple(d(x) for x in args)})
                st.heap[recv.id] = ListC(c.items + (args[0],), c.open) if not c.open else ListC(c.items, True)
                return NONE
            if name == 'extend':
                self.emit(st, 'extend', recv=recv, args=args, node=e, fr=fr, raw=True)
                sub = self.iter_items(args[0], st)
                st.heap[recv.id] = ListC(c.items + tuple(sub), c.open) if sub is not None and not c.open else ListC(c.items, True)
                return NONE
            if name == 'insert' and not c.open and is_const(args[0]):
                self.emit(st, 'append', recv=recv, args=args[1:], node=e, fr=fr, raw=True)
                it = list(c.items)
                it.insert(args[0].a[0], args[1])
                st.heap[recv.id] = ListC(it, False)
                return NONE
            if name == 'copy':
                return self.newref(st, e, ListC(c.items, c.open))
            if name in ('sort', 'reverse', 'remove', 'clear', 'insert'):
                self.emit(st, 'mcall', name, recv=recv, args=args, kw=kw, node=e, fr=fr, raw=True)
                if name == 'reverse' and not c.open:
                    st.heap[recv.id] = ListC(c.items[::-1])
                elif name == 'clear':
                    st.heap[recv.id] = ListC(())
                elif name == 'sort' and not c.open and all(is_const(x) for x in c.items):
                    try:
                        st.heap[recv.id] = ListC([Const(v) for v in sorted(x.a[0] for x in c.items)])
                    except Exception:
                        pass
                else:
                    st.heap[recv.id] = ListC(c.items if name == 'sort' else (), True)
                return NONE
            if name == 'pop' and not c.open and (not args or is_const(args[0])):
                i = args[0].a[0] if args else -1
                if c.items and -len(c.items) <= i < len(c.items):
                    it = list(c.items)
                    v = it.pop(i)
                    st.heap[recv.id] = ListC(it)
                    return v
                raise Dead()
        if isinstance(c, DictC):
            if name in ('keys', 'values', 'items'):
                if not c.open:
                    if name == 'keys':
                        return mk('Items', *c.d)
                    if name == 'values':
                        return mk('Items', *c.d.values())
                    return mk('Items', *[mk('Tuple', k, v) for k, v in c.d.items()])
                return mk({'keys': 'DKeys', 'values': 'DValues', 'items': 'DItems'}[name], recv)
            if name == 'get' and args:
                k = d(args[0])
                if k in c.d:
                    return c.d[k]
                dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
                if not c.open and k.op == 'Const' and all(x.op == 'Const' for x in c.d):
                    return dflt
                if not c.open:
                    return mk('MCall', d(recv), 'get', tuple(d(x) for x in args), ())
                return mk('MCall', recv, 'get', tuple(d(x) for x in args), ())
            if name == 'copy':
                return self.newref(st, e, DictC(dict(c.d), c.open))
            if name in ('update', 'setdefault', 'pop', 'clear', 'popitem'):
                for tr in self.trytrack:
                    tr['heap'].add(recv.id)
                self.emit(st, 'mcall', name, recv=recv, args=args, kw=kw, node=e, fr=fr, raw=True)
            if name == 'update':
                nd, op = dict(c.d), c.open
                for a in args:
                    ca = self.content(a, st)
                    if isinstance(ca, DictC):
                        nd.update(ca.d)
                        op |= ca.open
                    elif a.op == 'Dict':
                        nd.update(dict(a.a))
                    else:
                        op = True
                for k, v in kw.items():
                    nd[Const(k)] = v
                st.heap[recv.id] = DictC(nd, op)
                return NONE
            if name == 'setdefault' and args:
                k = d(args[0])
                if k in c.d:
                    return c.d[k]
                nd = dict(c.d)
                dv = args[1] if len(args) > 1 else NONE
                nd[k] = dv
                st.heap[recv.id] = DictC(nd, c.open)
                return dv
            if name == 'pop' and args:
                k = d(args[0])
                if k in c.d:
                    nd = dict(c.d)
                    v = nd.pop(k)
                    st.heap[recv.id] = DictC(nd, c.open)
                    return v
        if recv.op == 'Const' and isinstance(recv.a[0], (str, bytes)) and name in PURE_STR:
            if name == 'format':
                return self.fmtcall(recv.a[0], args, kw, st)
            if name == 'join' and len(args) == 1:
                items = self.iter_items(args[0], st)
                if items is not None:
                    out = []
                    for i, x in enumerate(items):
                        if i:
                            out.append(recv)
                        out.append(x)
                    return StrCat(*out) if out else EMPTY
            if all(is_const(x) for x in args) and not kw:
                try:
                    v = getattr(recv.a[0], name)(*[x.a[0] for x in args])
                    if isinstance(v, list):
                        return self.newref(st, e, ListC([Const(x) for x in v]))
                    return Const(v)
                except Exception:
                    pass
        if recv.op == 'StrCat' and name in ('strip', 'format') and not args and name == 'strip':
            pass
        if recv.op == 'Const' and isinstance(recv.a[0], (int, float)) and name in ('item',):
            return recv
        if name == 'copy' and recv.op in ('Const',):
            return recv
        if recv.op == 'Phi' and name not in ('append',) and any(is_const(x) and isinstance(x.a[0], str) for x in recv.a[1:]) and \
                name in PURE_STR and all(is_const(x) for x in args):
            a = self.method(recv.a[1], name, args, kw, e, st, fr)
            b = self.method(recv.a[2], name, args, kw, e, st, fr)
            return Phi(recv.a[0], a, b)
        if recv.op == 'Phi' and any(self.content(x, st) is not None for x in recv.a[1:]) and name in ('keys', 'items', 'values', 'get'):
            pass
        # boolean Series helpers
        if name == 'between' and len(args) >= 2:
            inc = kw.get('inclusive', args[2] if len(args) > 2 else Const('both'))
            i = cval(inc, 'both')
            lo = Cmp('<=' if i in ('both', 'left', True) else '<', d(args[0]), d(recv))
            hi = Cmp('<=' if i in ('both', 'right', True) else '<', d(recv), d(args[1]))
            return And(lo, hi)
        o = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}.get(name)
        if o and len(args) == 1 and recv.op not in ('Ref',):
            return Cmp(o, d(recv), d(args[0]))
        # opaque method of an external object
        cb = [self.callback(x, e, st, fr, self.cb_args(recv, name, args, e, st, fr)) for x in list(args) + list(kw.values()) if x.op == 'Fn']
        dr = d(recv)
        dargs = tuple(d(x) for x in args)
        dkw = tuple(sorted((k, d(v)) for k, v in kw.items()))
        val = mk('MCall', recv if recv.op in ('Ref',) and isinstance(c, (ListC, DictC)) and c.open else dr, name, dargs, dkw)
        if name in ('setdefault',):
            val = mk('Index', recv, d(args[0])) if args else val
        self.emit(st, 'mcall', name, recv=recv, args=args, kw=kw, node=e, fr=fr, val=val, extra={'rawrecv': recv, 'rawargs': tuple(args), 'ast': e, 'cb': cb})
        for tr in self.trytrack:
            tr['heap'].add(('ov', recv.id))
        return val

    def cb_args(self, recv, name, args, e, st, fr):
        if name in ('map', 'submit') and len(args) >= 2:
            lid = self.kid(e, 'cbmap')
            it = args[1]
            if name == 'submit':
                return list(args[1:])
            self.loops[lid] = {'id': lid, 'kind': 'comp', 'iter': self.deep(it, st), 'site': f'{fr.fi.module.rel}:{e.lineno}',
                               'func': fr.fi.qual, 'node': e, 'init': {}, 'next': {}, 'pc': st.pc, 'cond': None, 'breaks': [], 'back': None}
            return [self.elem(a, lid, e, st, fr, True) for a in args[1:]]
        return None

    def fmtcall(self, fmt, args, kw, st):
        import string
        out = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    out.append(Const(lit))
                if field is None:
                    continue
                m = re.fullmatch(r'(\w*)', field)
                if not m:
                    return mk('MCall', Const(fmt), 'format', tuple(self.deep(x, st) for x in args), tuple(sorted((k, self.deep(v, st)) for k, v in kw.items())))
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw[field]
                out.append(self.fmtval(self.deep(v, st), spec or ''))
        except (KeyError, IndexError):
            raise Dead()
        return StrCat(*out)


class Result:
    """What one entry point does."""
    pass
