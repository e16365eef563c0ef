"""Evaluation of extracted terms on sample tables: terms over pandas and numpy values are folded with the library's own meaning.
Only terms produced by the analysis are folded; no function of the project under analysis is called."""
import csv

import numpy as np
import pandas as pd

from . import evalterm
from .evalterm import Unknown, ev
from .lib import upd_entries
from .terms import T, cval, mk, walk

PD = (pd.DataFrame, pd.Series, pd.Index, pd.core.groupby.GroupBy, pd.core.indexing._LocIndexer, pd.core.indexing._iLocIndexer, pd.core.indexing._AtIndexer,
      pd.core.indexing._iAtIndexer, pd.core.strings.accessor.StringMethods)
NOMETH = ('to_csv', 'to_pickle', 'to_sql', 'to_excel', 'to_json', 'to_hdf', 'to_parquet', 'to_feather', 'plot', 'hist', 'eval', 'query', 'pipe')
NPNO = ('save', 'savez', 'savetxt', 'load', 'loadtxt', 'genfromtxt', 'fromfile', 'memmap')
PDOK = ('to_numeric', 'concat', 'isna', 'isnull', 'notna', 'notnull', 'Series', 'DataFrame', 'unique', 'merge')
TYPES = {'builtins.float': float, 'builtins.int': int, 'builtins.str': str, 'builtins.bool': bool, 'numpy.float64': float, 'numpy.int64': int, 'numpy.float_': float,
         'builtins.len': len, 'builtins.abs': abs}


class Raised(Unknown):
    """The library refuses these values: an exception of the folded expression itself."""

    def __init__(self, t, e):
        Unknown.__init__(self, t, e)
        self.exc = e


def call(t, f, *a, **kw):
    try:
        return f(*a, **kw)
    except Unknown:
        raise
    except Exception as e:
        raise Raised(t, e)


def fun(t):
    """The library function a term names, or None."""
    if t.op == 'Ext':
        n = t.a[0]
        if n in TYPES:
            return TYPES[n]
        if n.startswith('numpy.') and n.split('.')[-1] not in NPNO:
            o = np
            for p in n.split('.')[1:]:
                o = getattr(o, p, None)
            return o
        if n.startswith('pandas.') and n.split('.')[-1] in PDOK:
            return getattr(pd, n.split('.')[-1])
    return None


def value(t, env):
    f = fun(t)
    return f if f is not None and callable(f) else ev(t, env)


def lists(v, t):
    return list(v) if isinstance(v, tuple) and t.op == 'List' else v


COLM = ('isin', 'isna', 'isnull', 'notna', 'notnull', 'dropna', 'fillna', 'where', 'mask', 'map', 'apply', 'between', 'diff', 'ffill', 'str', 'dt', 'unique', 'value_counts', 'to_numpy', 'values', 'eq', 'ne')


def column(v, name):
    """A list that was stored as a column of a table and is read back is a column (the terms pass the stored value through)."""
    return pd.Series(list(v)) if isinstance(v, (tuple, list)) and name in COLM else v


def step(t, env):
    """Value of a term in library mode, or NotImplemented."""
    op = t.op
    if op == 'Exc':
        f = env.get('exc')
        if f is None:
            raise Unknown(t)
        return f(t)
    if op == 'Rec' and t.a[0] in env.get('calls', ()):
        return call(t, env['calls'][t.a[0]], *[ev(x, env) for x in t.a[1]], **{k: ev(v, env) for k, v in (t.a[2] or ())})
    if op == 'Ext' and t.a[0].startswith('csv.QUOTE_'):
        return getattr(csv, t.a[0][4:])
    if op == 'Call' and t.a[0] == 'builtins.type' and len(t.a[1]) == 1 and not (len(t.a) > 2 and t.a[2]):
        v = ev(t.a[1][0], env)
        if isinstance(v, (tuple, list)):
            raise Unknown(t)
        return type(v)
    if op == 'Cmp' and t.a[0] in ('is', 'isnot', '==', '!='):
        a, b = (TYPES.get(x.a[0]) if x.op == 'Ext' and x.a[0] in ('builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool') else None for x in t.a[1:])
        if (a is None) != (b is None):
            o = ev(t.a[2] if b is None else t.a[1], env)
            return ((a or b) is o) == (t.a[0] in ('is', '=='))
    if op == 'Range':
        return range(*[int(ev(x, env)) for x in t.a])
    if op == 'Upd':
        b = ev(t.a[0], env)
        if not isinstance(b, (pd.DataFrame, pd.Series, np.ndarray)):
            return NotImplemented
        b = b.copy()
        for k, v in upd_entries(t):
            raw, k = k, ev(k, env) if isinstance(k, T) else k
            old = [x for x in walk(v) if x.op == 'Old' and x.a[0] is raw] if isinstance(v, T) and v.old else []
            val = lists(ev(v, {**env, **{x.id: b[k].copy() if hasattr(b[k], 'copy') else b[k] for x in old}} if old else env), v)
            if k in ('columns', 'index') and isinstance(k, str) and not (isinstance(b, pd.DataFrame) and k in b):
                call(t, setattr, b, k, val)
            else:
                call(t, b.__setitem__, k, val)
        return b
    if op == 'Index':
        b = ev(t.a[0], env)
        if isinstance(b, PD):
            i = index(t.a[1], env)
            r = call(t, b.__getitem__, i)
            return r
        if isinstance(b, np.ndarray):
            i = index(t.a[1], env)
            if isinstance(i, (pd.Series, pd.Index)):
                i = i.to_numpy()
            r = call(t, b.__getitem__, i)
            return r.item() if isinstance(r, np.generic) else r
        return NotImplemented
    if op == 'Fld':
        b = column(ev(t.a[0], env), t.a[1])
        if isinstance(b, PD) and isinstance(t.a[1], str) and not t.a[1].startswith('_'):
            return call(t, getattr, b, t.a[1])
        return NotImplemented
    if op == 'MCall':
        r = column(ev(t.a[0], env), t.a[1])
        if isinstance(r, PD):
            if t.a[1] in NOMETH or t.a[1].startswith('_'):
                raise Unknown(t)
            a = [lists(value(x, env), x) for x in t.a[2]]
            kw = {k: lists(value(v, env), v) for k, v in (t.a[3] or ())} if len(t.a) > 3 else {}
            return call(t, lambda: getattr(r, t.a[1])(*a, **kw))
        if isinstance(r, np.ndarray) and t.a[1] in ('astype', 'cumsum', 'argmax', 'argmin', 'argsort', 'any', 'all', 'sum', 'mean', 'std', 'min', 'max', 'round', 'copy', 'reshape', 'flatten', 'ravel', 'tolist'):
            a = [value(x, env) for x in t.a[2]]
            kw = {k: value(v, env) for k, v in (t.a[3] or ())} if len(t.a) > 3 else {}
            x = call(t, lambda: getattr(r, t.a[1])(*a, **kw))
            return x.item() if isinstance(x, np.generic) else x
        return NotImplemented
    if op == 'Call' and t.a[0] in ('numpy.min', 'numpy.max') and len(t.a[1]) > 1 and not (len(t.a) > 2 and t.a[2]):
        vals = [ev(x, env) for x in t.a[1]]     # the built-in, which has the same name here
        if all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in vals):
            return min(vals) if t.a[0] == 'numpy.min' else max(vals)
    if op == 'Call':
        if t.a[0] in env.get('calls', ()):
            return call(t, env['calls'][t.a[0]], *[lists(ev(x, env), x) for x in t.a[1]], **{k: lists(ev(v, env), v) for k, v in (t.a[2] or ()) if k != '@'})
        f = fun(mk('Ext', t.a[0])) if t.a[0].startswith(('numpy.', 'pandas.')) else None
        if f is not None and callable(f):
            a = [lists(value(x, env), x) for x in t.a[1]]
            kw = {k: lists(value(v, env), v) for k, v in (t.a[2] or ()) if k != '@'}
            r = call(t, f, *a, **kw)
            return r.item() if isinstance(r, np.generic) else r
        if t.a[0] == 'builtins.len' and len(t.a[1]) == 1:
            return call(t, len, ev(t.a[1][0], env))
        if t.a[0] in ('builtins.set', 'builtins.list', 'builtins.tuple') and len(t.a[1]) == 1:
            v = ev(t.a[1][0], env)
            if isinstance(v, (pd.Series, np.ndarray)):
                return tuple(v.tolist())
        if t.a[0] in ('builtins.any', 'builtins.all') and len(t.a[1]) == 1:
            return bool(getattr(np, t.a[0].split('.')[1])(np.asarray(ev(t.a[1][0], env))))
        if t.a[0] == 'builtins.isinstance' and len(t.a[1]) == 2 and t.a[1][1].op in ('Ext', 'Cls'):
            n = t.a[1][1].a[0].split('.')[-1]
            v = ev(t.a[1][0], env)
            return n in [k.__name__ for k in type(v).__mro__]
        return NotImplemented
    if op == 'Cmp' and t.a[0] in ('in', 'notin'):
        b = ev(t.a[2], env)
        if isinstance(b, (pd.Series, np.ndarray)):
            a = ev(t.a[1], env)
            return (a in b.tolist()) == (t.a[0] == 'in')
        return NotImplemented
    if op == 'Cmp':
        a, b = ev(t.a[1], env), ev(t.a[2], env)
        if isinstance(a, tuple) and isinstance(b, (str, int, float)):
            a = column(a, 'eq')
        if isinstance(a, PD) or isinstance(b, PD):
            return call(t, evalterm.CMP[t.a[0]], a, b)
        return NotImplemented
    if op in ('Inv', 'Not'):
        v = ev(t.a[0], env)
        if isinstance(v, (PD, np.ndarray)) if not isinstance(v, np.ndarray) else v.size != 1:
            return call(t, lambda: ~v)
        return NotImplemented
    if op in ('And', 'Or'):
        vs, bad = [], None
        for x in evalterm.kids(t):
            try:
                v = ev(x, env)
            except Raised as u:     # a path that ends in an exception: another operand may decide
                bad = u
                continue
            if not isinstance(v, (pd.Series, np.ndarray)) or isinstance(v, np.ndarray) and v.size == 1:
                # short circuit, as for scalars
                if bool(v) == (op == 'Or'):
                    return bool(v)
                vs.append(bool(v))
            else:
                vs.append(v)
        if bad is not None:
            raise bad
        if all(isinstance(v, bool) for v in vs):
            return op == 'And'
        r = vs[0]
        for v in vs[1:]:
            r = (r | v) if op == 'Or' else (r & v)
        return r
    if op == 'Bool':
        v = ev(t.a[0], env)
        if isinstance(v, (pd.Series, pd.DataFrame)):
            return v
        return NotImplemented
    return NotImplemented


def fold(t, env):
    """Value of t, remembered unless it depends on the round of a loop."""
    memo = env.get('memo') if env.get('owner') is env else None
    if memo is not None and t.id in memo:
        r = memo[t.id]
        if isinstance(r, Unknown):
            raise r
        return r
    try:
        r = step(t, env)
        if r is NotImplemented:
            r = evalterm._ev(t, env)
    except Unknown as u:
        if memo is not None:
            memo[t.id] = u
        raise
    except RecursionError:
        raise Unknown(t)
    except Exception as e:
        u = Unknown(t, e)
        if memo is not None:
            memo[t.id] = u
        raise u
    if memo is not None:
        memo[t.id] = r
    return r


def index(t, env):
    if t.op == 'Tuple':
        return tuple(lists(ev(x, env), x) for x in evalterm.kids(t))
    v = lists(ev(t, env), t)
    return v


class Run:
    """What a run of an analysed function comes to for given values of its atoms: ('raise', class name) or ('return', value term)."""

    def __init__(self, R, env, classes):
        self.R, self.classes = R, classes
        self.env = dict(env, lib=True, exc=self.exc, memo={})
        self.env['owner'] = self.env
        self.memo = {}

    def true(self, e):
        return all(bool(ev(p, self.env)) for p in e.pc)

    def catches(self, cls, types):
        if types is None:
            return False
        for ty in types:
            if ty == '?':
                raise Unknown(ty)
            n = ty.split('.')[-1]
            if ty == '*' or n in self.classes(cls):
                return True
        return False

    def handlers(self, tid):
        return list(enumerate(self.R.interp.tries_info[tid]['handlers']))

    def raised_in(self, tid):
        """Class of the exception that leaves the body of the try, or None."""
        if tid in self.memo:
            return self.memo[tid]
        r = None
        for e in sorted((e for e in self.R.events if (tid, 'body') in e.tries), key=lambda e: e.order):
            inner = [k for k, w in e.tries if w == 'body']
            inner = inner[inner.index(tid) + 1:]
            cls = None
            try:
                if e.kind in ('call', 'pcall', 'mcall', 'callv') and isinstance(e.val, T) and self.true(e):
                    try:
                        ev(e.val, self.env)
                    except Raised as x:
                        cls = type(x.exc).__name__
                    except Unknown:
                        pass
                elif e.kind == 'raise' and self.true(e):
                    cls = (e.name or '?').split('.')[-1]
            except Raised:
                continue    # its condition could not be computed: the computation is an event of its own
            if cls and not any(any(self.catches(cls, ty) for _, ty in self.handlers(k)) for k in inner):
                r = cls
                break
        self.memo[tid] = r
        return r

    def exc(self, t):
        tid, i = t.a
        cls = self.raised_in(tid)
        if cls is None:
            return False
        for k, types in self.handlers(tid):
            if self.catches(cls, types):
                return k == i
        return i in ('esc', -1)

    def outcome(self):
        for e in sorted(self.R.events, key=lambda e: e.order):
            if e.kind not in ('raise', 'call', 'pcall', 'mcall', 'callv'):
                continue
            body = [k for k, w in e.tries if w == 'body']
            cls = None
            try:
                if not self.true(e):
                    continue
            except Raised:
                continue
            if e.kind == 'raise':
                cls = (e.name or '?').split('.')[-1]
            elif isinstance(e.val, T):
                try:
                    ev(e.val, self.env)
                except Raised as x:
                    cls = type(x.exc).__name__
                except Unknown:
                    pass
            if cls and not any(any(self.catches(cls, ty) for _, ty in self.handlers(k)) for k in body):
                return 'raise', cls
        for rt in self.R.returns:
            if all(bool(ev(p, self.env)) for p in rt[0]):
                return 'return', rt[1]
        raise Unknown('no outcome')


def class_names(c):
    """Function: class name -> names of the class and of all its ancestors."""
    import builtins
    from .rules.pipeline import bases
    B = {k.split('.')[-1]: v for k, v in bases(c).items()}

    def names(cls):
        out = {cls} | B.get(cls, set())
        for n in list(out):
            k = getattr(builtins, n, None)
            if isinstance(k, type):
                out |= {x.__name__ for x in k.__mro__}
        if len(out) == 1:
            out |= {'Exception', 'BaseException', 'ValueError'} if cls not in B else set()
        return out
    return names
