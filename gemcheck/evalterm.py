"""Value of an element-wise term once its atoms are replaced by constants (constant propagation over the extracted formula)."""
import datetime
import math
import types

import numpy as np

from .terms import T, cval, mk, walk


class Unknown(Exception):
    pass


CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, 'is': lambda a, b: a is b, 'isnot': lambda a, b: a is not b,
       'in': lambda a, b: a in b, 'notin': lambda a, b: a not in b}
BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '%': lambda a, b: a % b,
       '//': lambda a, b: a // b, '**': lambda a, b: a ** b, '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '@': lambda a, b: a @ b}


class Obj(types.SimpleNamespace):
    """A sample object whose attributes are also its items."""

    def __getitem__(self, k):
        try:
            return getattr(self, k)
        except TypeError:
            raise KeyError(k)


def isnan(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def rnd(x, *n):
    return x if isnan(x) else round(x, *n) if n and n[0] else float(round(x))


UN = {'round': rnd, 'rint': rnd, 'around': rnd, 'floor': lambda x: x if isnan(x) else math.floor(x), 'ceil': lambda x: x if isnan(x) else math.ceil(x),
      'trunc': lambda x: x if isnan(x) else math.trunc(x), 'fix': lambda x: x if isnan(x) else math.trunc(x),
      'abs': abs, 'absolute': abs, 'fabs': abs, 'isnan': isnan, 'isna': isnan, 'isnull': isnan, 'notna': lambda x: not isnan(x),
      'notnull': lambda x: not isnan(x), 'isfinite': lambda x: not isnan(x) and abs(x) != math.inf, 'isinf': lambda x: not isnan(x) and abs(x) == math.inf,
      'logical_not': lambda x: not x, 'sqrt': lambda x: math.sqrt(x), 'exp': math.exp, 'log': math.log, 'log10': math.log10,
      'int': lambda x: int(x), 'float': float, 'bool': bool, 'str': str, 'len': len}
TWO = {'logical_and': lambda a, b: bool(a) and bool(b), 'logical_or': lambda a, b: bool(a) or bool(b), 'mod': lambda a, b: a % b,
       'remainder': lambda a, b: a % b, 'less': CMP['<'], 'less_equal': CMP['<='], 'greater': CMP['>'], 'greater_equal': CMP['>='],
       'equal': CMP['=='], 'not_equal': CMP['!='], 'lt': CMP['<'], 'le': CMP['<='], 'gt': CMP['>'], 'ge': CMP['>='], 'eq': CMP['=='],
       'ne': CMP['!='], 'add': BIN['+'], 'sub': BIN['-'], 'mul': BIN['*'], 'minimum': min, 'maximum': max, 'min': min, 'max': max,
       'power': BIN['**'], 'multiply': BIN['*'], 'divide': BIN['/'], 'subtract': BIN['-'], 'floor_divide': BIN['//']}
SAME = ('UTCDateTime', 'astype', 'copy', 'to_numpy', 'asarray', 'array', 'apply_', 'fillna_')
ARR = {'where': lambda *a: np.where(*a), 'nonzero': np.nonzero, 'flatnonzero': np.flatnonzero, 'argmax': lambda x: int(np.argmax(x)), 'argmin': lambda x: int(np.argmin(x)),
       'searchsorted': lambda a, v, side='left': int(np.searchsorted(a, v, side)), 'digitize': lambda v, a, right=False: int(np.digitize(v, a, right)),
       'bisect_right': lambda a, v: int(np.searchsorted(a, v, 'right')), 'bisect_left': lambda a, v: int(np.searchsorted(a, v, 'left')), 'bisect': lambda a, v: int(np.searchsorted(a, v, 'right')),
       'sum': lambda x: np.sum(x).item(), 'max': lambda x: np.max(x).item(), 'min': lambda x: np.min(x).item(), 'any': lambda x: bool(np.any(x)), 'all': lambda x: bool(np.all(x)),
       'logical_and': np.logical_and, 'logical_or': np.logical_or, 'logical_not': np.logical_not, 'mean': lambda x: np.mean(x).item(), 'abs': np.abs, 'absolute': np.abs, 'fabs': np.abs, 'ptp': lambda x: np.ptp(x).item(), 'median': lambda x: np.median(x).item(), 'std': lambda x, ddof=0: np.std(x, ddof=ddof).item(), 'var': lambda x, ddof=0: np.var(x, ddof=ddof).item(), 'count': lambda x: len(x), 'sem': lambda x, ddof=1: (np.std(x, ddof=ddof) / np.sqrt(len(x))).item(), 'item': lambda x: x.item(), 'append': lambda a, b: np.append(a, b), 'hstack': np.hstack}
STRM = ('lower', 'upper', 'casefold', 'strip', 'lstrip', 'rstrip', 'replace', 'zfill', 'rjust', 'ljust', 'center', 'split', 'rsplit', 'partition', 'rpartition',
        'startswith', 'endswith', 'format', 'join', 'capitalize', 'title', 'find', 'rfind', 'index', 'count', 'isdigit', 'isnumeric', 'encode', 'removesuffix', 'removeprefix', 'swapcase')
PLAIN = (datetime.datetime, datetime.date, types.SimpleNamespace)
PATHFN = ('os.path.basename', 'os.path.dirname', 'os.path.normpath')
CONSTS = {'numpy.nan': math.nan, 'numpy.inf': math.inf, 'numpy.pi': math.pi, 'math.pi': math.pi, 'math.inf': math.inf, 'math.nan': math.nan}


def ev(t, env=None):
    """env: term id -> python value."""
    if isinstance(t, tuple):
        return tuple(ev(x, env) for x in t)
    if not isinstance(t, T):
        return t
    if env and t.id in env:
        return env[t.id]
    try:
        if env and env.get('lib'):
            from . import libeval
            return libeval.fold(t, env)
        return _ev(t, env)
    except Unknown:
        raise
    except RecursionError:
        raise Unknown(t)
    except Exception as e:
        raise Unknown(t, e)


def _ev(t, env):
    op = t.op
    if op == 'Const':
        return t.a[0]
    if op == 'Ext' and t.a[0] in CONSTS:
        return CONSTS[t.a[0]]
    if op == 'Cmp':
        r = CMP[t.a[0]](ev(t.a[1], env), ev(t.a[2], env))
        return r if isinstance(r, np.ndarray) else bool(r)
    if op == 'Bin':
        a, b = ev(t.a[1], env), ev(t.a[2], env)
        if t.a[0] in '&|' and (isinstance(a, bool) or isinstance(b, bool)):
            return bool(a and b) if t.a[0] == '&' else bool(a or b)
        return BIN[t.a[0]](a, b)
    if op == 'Neg':
        return -ev(t.a[0], env)
    if op == 'Inv':
        x = ev(t.a[0], env)
        return (not x) if isinstance(x, bool) else ~x
    if op == 'Not':
        r = ev(t.a[0], env)
        return ~r if isinstance(r, np.ndarray) else not r
    if op in ('And', 'Or'):
        return logic(t, env, op == 'Or')
    if op == 'Bool':
        r = ev(t.a[0], env)
        return r.astype(bool) if isinstance(r, np.ndarray) and r.size != 1 else bool(r)
    if op == 'Index':
        b, i = ev(t.a[0], env), ev(t.a[1], env)
        if isinstance(b, (tuple, list, np.ndarray, dict, str, bytes, Obj)) or isinstance(b, types.SimpleNamespace) and hasattr(b, '__getitem__'):
            r = b[i]
            return r.item() if isinstance(r, np.generic) else r
        raise Unknown(t)
    if op == 'Slice':
        return slice(*(ev(x, env) for x in t.a))
    if op == 'Phi':
        return ev(t.a[1] if ev(t.a[0], env) else t.a[2], env)
    if op in ('Tuple', 'List', 'Set'):
        return tuple(ev(x, env) for x in kids(t))
    if op == 'Dict':
        return {ev(k, env): ev(v, env) for k, v in t.a}
    if op == 'StrCat':
        return ''.join(str(ev(x, env)) for x in t.a)
    if op == 'Fmt':
        v = ev(t.a[0], env)
        if isinstance(v, float) and t.a[1].endswith('d') and v == int(v):
            v = int(v)
        return format(v, t.a[1]) if t.a[1] else str(v)
    if op == 'Fld':
        b = ev(t.a[0], env)
        if isinstance(b, PLAIN) and isinstance(t.a[1], str):
            return getattr(b, t.a[1])
        if isinstance(b, dict) and isinstance(t.a[1], str):
            return b[t.a[1]]
        if isinstance(b, np.ndarray) and t.a[1] in ('shape', 'size', 'values', 'iloc', 'T'):
            return b if t.a[1] in ('values', 'iloc') else getattr(b, t.a[1])
        raise Unknown(t)
    if op == 'CallV':
        return ev(t.a[0], env)(*[ev(x, env) for x in t.a[1]], **{k: ev(v, env) for k, v in t.a[2] or ()})
    if op == 'Call':
        name = t.a[0].split('.')[-1]
        a = [ev(x, env) for x in t.a[1]]
        if env and t.a[0] in env.get('calls', ()):
            return env['calls'][t.a[0]](*a, **{k: ev(v, env) for k, v in t.a[2] or () if k != '@'})
        if t.a[0] in ('os.path.join', 'posixpath.join') and all(isinstance(x, str) for x in a):
            import posixpath
            return posixpath.join(*a)
        if t.a[0] in PATHFN and len(a) == 1 and isinstance(a[0], str):
            import posixpath
            return getattr(posixpath, name)(a[0])
        if t.a[0] in ('builtins.sorted', 'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.reversed') and len(a) == 1 and isinstance(a[0], (tuple, list)):
            kw = {k: ev(v, env) for k, v in t.a[2]} if len(t.a) > 2 and t.a[2] else {}
            r = sorted(a[0], **kw) if name == 'sorted' else a[0][::-1] if name == 'reversed' else a[0]
            return tuple(r)
        if t.a[0] in ('builtins.max', 'builtins.min') and len(a) == 1 and isinstance(a[0], (tuple, list)) and not (len(t.a) > 2 and t.a[2]):
            return max(a[0]) if name == 'max' else min(a[0])
        if len(t.a) > 2 and t.a[2] and name in ('max', 'min'):
            raise Unknown(t)
        if name in ('array', 'asarray') and a and isinstance(a[0], (tuple, list)):
            return np.array(a[0])
        if name in ARR and a and any(isinstance(x, (np.ndarray, tuple)) for x in a):
            return ARR[name](*a, **({k: ev(v, env) for k, v in t.a[2]} if len(t.a) > 2 and t.a[2] else {}))
        if name in SAME and len(a) >= 1:
            return a[0]
        if t.a[0] == 'builtins.round' and len(a) == 1 and isinstance(a[0], (int, float)) and not isnan(a[0]):
            return round(a[0])
        if name in UN and len(a) in (1, 2):
            return UN[name](*a)
        if name in TWO and len(a) == 2:
            return TWO[name](*a)
        if name in ('logical_and', 'logical_or') and False:
            pass
        if name in ('where', 'select') and len(a) == 3:
            return a[1] if a[0] else a[2]
        if name == 'pow' and len(a) == 2:
            return a[0] ** a[1]
        raise Unknown(t)
    if op == 'MCall':
        name = t.a[1]
        r = ev(t.a[0], env)
        if name == 'astype' and len(t.a[2]) == 1 and t.a[2][0].op == 'Ext':
            kind = t.a[2][0].a[0].split('.')[-1]
            if isinstance(r, np.ndarray) and kind.startswith(('int', 'float', 'bool')):
                return r.astype(kind.rstrip('_'))
            return r
        a = [ev(x, env) for x in t.a[2]]
        kw = {k: ev(v, env) for k, v in t.a[3]} if len(t.a) > 3 and t.a[3] else {}
        if isinstance(r, str) and name in STRM:
            return getattr(r, name)(*a, **kw)
        if isinstance(r, (datetime.datetime, datetime.date)) and name in ('strftime', 'isoformat', 'date', 'time', 'timetuple'):
            return getattr(r, name)(*a, **kw)
        if isinstance(r, types.SimpleNamespace) and callable(getattr(r, name, None)):
            return getattr(r, name)(*a, **kw)
        if isinstance(r, np.ndarray) and name in ARR and name != 'where':
            return ARR[name](r, *a, **kw)
        if name in SAME:
            return r
        if name == 'between':
            inc = kw.get('inclusive', a[2] if len(a) > 2 else 'both')
            lo, hi = a[0], a[1]
            return (r >= lo if inc in ('both', 'left', True) else r > lo) and (r <= hi if inc in ('both', 'right', True) else r < hi)
        if name == 'isin':
            return r in a[0]
        if name in UN and len(a) <= 1:
            return UN[name](r, *a)
        if name in TWO and len(a) == 1:
            return TWO[name](r, a[0])
        raise Unknown(t)
    if op == 'Mu' and env and 'loops' in env:
        return fold(t, env)
    if op == 'Comp':
        return comp(t, env)
    raise Unknown(t)


def logic(t, env, any_):
    r, unknown = [], None
    for x in kids(t):
        try:
            v = ev(x, env)
        except Unknown as u:
            unknown = unknown or u
            continue
        if not isinstance(v, np.ndarray) and bool(v) == any_ and not any(isinstance(y, np.ndarray) for y in r):
            return any_
        r.append(v)
    if unknown is not None:
        raise unknown
    if any(isinstance(x, np.ndarray) for x in r):
        return (np.logical_or if any_ else np.logical_and).reduce(r)
    return not any_


def seq_of(it, env):
    """Number of rounds of a loop over `it`, and the bindings that make its elements those of the value of `it`."""
    if it.op == 'Enum':
        return seq_of(it.a[0], env)
    if it.op == 'Zip':
        parts = [seq_of(x, env) for x in it.a]
        return min(n for n, _ in parts), {k: v for _, b in parts for k, v in b.items()}
    if it.op == 'Range':
        return len(range(*[int(ev(x, env)) for x in it.a])), {}
    if it.op == 'Reversed':
        v = tuple(reversed(ev(it.a[0], env)))
        return len(v), {it.id: v}
    v = ev(it, env)
    if not hasattr(v, '__len__') or not hasattr(v, '__iter__'):
        raise Unknown(it)
    return len(v), {it.id: v if isinstance(v, (tuple, list, np.ndarray)) else tuple(v)}


def fold(t, env):
    """Value of a loop-carried variable after a for loop without breaks over a known sequence."""
    lp = env['loops'].get(t.a[1])
    if lp is None or lp['kind'] != 'for' or lp.get('has_break') or lp['iter'] is None:
        raise Unknown(t)
    n, bind = seq_of(lp['iter'], env)
    need, todo = {}, [t.a[0]]
    while todo:
        k = todo.pop()
        if k in need:
            continue
        nx, ini = lp['next'].get(k), lp['init'].get(k)
        if nx is None or ini is None:
            raise Unknown(t)
        need[k] = nx
        todo += [x.a[0] for x in walk(nx) if x.op == 'Mu' and x.a[1] == t.a[1]]
    vals = {k: None if lp['init'][k].op in ('Undef', 'Old') else ev(lp['init'][k], env) for k in need}
    for i in range(n):
        e2 = {**env, **bind, mk('Idx', t.a[1]).id: i, **{mk('Mu', k, t.a[1]).id: v for k, v in vals.items()}}
        vals = {k: ev(x, e2) for k, x in need.items()}
    return vals[t.a[0]]


def comp(t, env):
    kind, elt, loops, cond = t.a[0], t.a[1], t.a[2], t.a[3]
    out = []

    def go(ls, e):
        if not ls:
            if ev(cond, e):
                out.append(tuple(ev(x, e) for x in kids(elt)) if kind == 'dict' and elt.op == 'Tuple' else ev(elt, e))
            return
        lid, it = ls[0]
        n, bind = seq_of(it, e)
        for i in range(n):
            go(ls[1:], {**e, **bind, mk('Idx', lid).id: i})
    go(loops, dict(env or {}))
    return dict(out) if kind == 'dict' else tuple(out)


def kids(t):
    return [x for a in t.a for x in (a if isinstance(a, tuple) else (a,))]


class Stamp(datetime.datetime):
    """A moment with the text forms of obspy's UTCDateTime."""

    def __str__(self):
        return self.strftime('%Y-%m-%dT%H:%M:%S.%fZ')

    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)

    @property
    def julday(self):
        return self.timetuple().tm_yday

    @property
    def datetime(self):
        return self
