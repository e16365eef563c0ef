"""Hash-consed value terms for the gated value graph.

A term stands for "the value this expression has", up to the algebra below; equal terms are
equal values.  Nothing here executes project code: constants are folded only for a closed list of
pure operations on literals that occur in the source.
"""
import itertools

_table = {}
BYID = {}
_ids = itertools.count(1)
NOLOOPS = frozenset()


class T:
    # old: mentions an Old placeholder; lids: ids of the loops whose index/carried values it mentions
    __slots__ = ('op', 'a', 'id', 'old', 'lids')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def _key(x):
    if isinstance(x, T):
        return x.id
    if isinstance(x, tuple):
        return ('t',) + tuple(_key(i) for i in x)
    return (type(x).__name__, repr(x) if isinstance(x, float) else x)


def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, next(_ids)
        t.old = op == 'Old'
        lids = NOLOOPS
        stack = [a]
        while stack:
            for x in stack.pop():
                if isinstance(x, T):
                    t.old = t.old or x.old
                    if x.lids is not lids and x.lids:
                        lids = x.lids if not lids else lids | x.lids
                elif isinstance(x, tuple):
                    stack.append(x)
        if op in ('Idx', 'Mu') and isinstance(a[-1], int):
            lids = lids | {a[-1]}
        t.lids = lids
        _table[k] = t
        BYID[t.id] = t
    return t


def Const(v):
    return mk('Const', v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
UNDEF = mk('Undef')
EMPTY = Const('')


def is_const(t, *vals):
    if not isinstance(t, T) or t.op != 'Const':
        return False
    if not vals:
        return True
    return any(type(t.a[0]) is type(v) and t.a[0] == v for v in vals)


def cval(t, default=None):
    return t.a[0] if isinstance(t, T) and t.op == 'Const' else default


def Ext(name):
    return mk('Ext', ALIASES.get(name, name))


ALIASES = {
    'obspy.core.UTCDateTime': 'obspy.UTCDateTime',
    'obspy.core.utcdatetime.UTCDateTime': 'obspy.UTCDateTime',
    'obspy.core.stream.Stream': 'obspy.Stream', 'obspy.core.Stream': 'obspy.Stream',
    'obspy.core.trace.Trace': 'obspy.Trace', 'obspy.core.Trace': 'obspy.Trace',
    'obspy.core.stream.read': 'obspy.read', 'obspy.core.read': 'obspy.read',
    'numpy.absolute': 'numpy.abs', 'math.ceil': 'numpy.ceil', 'math.floor': 'numpy.floor',
    'math.sqrt': 'numpy.sqrt', 'math.log10': 'numpy.log10', 'math.isnan': 'numpy.isnan',
    'math.inf': 'numpy.inf', 'math.nan': 'numpy.nan', 'numpy.NaN': 'numpy.nan',
    'posixpath.join': 'os.path.join', 'builtins.abs': 'numpy.abs',
    'builtins.all': 'numpy.all', 'builtins.any': 'numpy.any',
    'numpy.alltrue': 'numpy.all', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
    'builtins.max': 'numpy.max', 'builtins.min': 'numpy.min', 'builtins.sum': 'numpy.sum',
    'builtins.round': 'numpy.round', 'numpy.around': 'numpy.round', 'numpy.isin': 'numpy.isin',
    'pandas.isna': 'numpy.isnan', 'pandas.isnull': 'numpy.isnan', 'glob.iglob': 'glob.glob',
    'builtins.IOError': 'builtins.OSError', 'builtins.EnvironmentError': 'builtins.OSError',
    'io.open': 'builtins.open', 'shutil.copyfile': 'shutil.copy', 'shutil.copy2': 'shutil.copy',
}


_not = {}
_nmemo = {}


def Not(t):
    r = _not.get(t.id)
    if r is None:
        r = _Not(t)
        _not[t.id] = r
        _not.setdefault(r.id, t)
    return r


def _Not(t):
    if t.op == 'Const':
        return Const(not t.a[0])
    if t.op == 'Not':
        return t.a[0]
    if t.op == 'And':
        return Or(*[Not(x) for x in t.a])
    if t.op == 'Or':
        return And(*[Not(x) for x in t.a])
    if t.op == 'Cmp':
        o = t.a[0]
        flip = {'==': '!=', '!=': '==', 'in': 'notin', 'notin': 'in', 'is': 'isnot', 'isnot': 'is'}
        if o in flip:
            return mk('Cmp', flip[o], t.a[1], t.a[2])
    if t.op == 'Phi' and (t.a[1].op == 'Const' or t.a[2].op == 'Const'):
        return Phi(t.a[0], Not(t.a[1]), Not(t.a[2]))
    return mk('Not', t)


def _nary(op, ts):
    k = (op,) + tuple([t.id for t in ts])
    r = _nmemo.get(k)
    if r is None:
        r = _nmemo[k] = _nary1(op, ts)
    return r


def _nary1(op, ts):
    zero, one = (FALSE, TRUE) if op == 'And' else (TRUE, FALSE)
    out = []
    seen = set()
    for t in ts:
        parts = t.a if t.op == op else (t,)
        for p in parts:
            if p.op == 'Const':
                v = bool(p.a[0])
                if v == bool(zero.a[0]):
                    return zero
                continue
            if p.id not in seen:
                seen.add(p.id)
                out.append(p)
    for p in out:
        if Not(p).id in seen:
            return zero
    if not out:
        return one
    if len(out) == 1:
        return out[0]
    # absorption: in And, drop an Or-disjunct that contains a conjunct; resolve its negation
    dual = 'Or' if op == 'And' else 'And'
    changed = False
    res = []
    for p in out:
        if p.op == dual:
            ids = {x.id for x in p.a}
            if any(q.id in ids for q in out if q is not p):
                changed = True
                continue
            keep = [x for x in p.a if Not(x).id not in seen]
            if len(keep) != len(p.a):
                changed = True
                res.append(_nary(dual, keep) if keep else one if False else zero)
                continue
        res.append(p)
    if changed:
        return _nary(op, res)
    # (a and b) or (a and not b) -> a
    if len(out) == 2 and all(p.op == dual for p in out):
        s1, s2 = ({x.id: x for x in p.a} for p in out)
        if len(s1) == len(s2):
            d1 = [x for i, x in s1.items() if i not in s2]
            d2 = [x for i, x in s2.items() if i not in s1]
            if len(d1) == 1 and len(d2) == 1 and Not(d1[0]) is d2[0]:
                common = [x for i, x in s1.items() if i in s2]
                return _nary(dual, common) if common else (TRUE if op == 'Or' else FALSE)
    out.sort(key=lambda x: x.id)
    return mk(op, *out)


def And(*ts):
    return _nary('And', ts)


def Or(*ts):
    return _nary('Or', ts)


def Phi(c, a, b):
    if c.op == 'Const':
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == 'Not':
        return Phi(c.a[0], b, a)
    if c.op == 'Cmp' and c.a[0] in ('!=', 'notin', 'isnot'):
        return Phi(Not(c), b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return Not(c)
    if boolish(a) and boolish(b):
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
    if a.op == 'Phi' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'Phi' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('Phi', c, a, b)


def boolish(t):
    return (t.op in ('Cmp', 'Not', 'And', 'Or', 'Exc', 'Brk') or t is TRUE or t is FALSE)


NUM = (int, float, complex)


def fold_cmp(op, x, y):
    try:
        if op == '<':
            return x < y
        if op == '<=':
            return x <= y
        if op == '==':
            return x == y
        if op == '!=':
            return x != y
        if op == 'in':
            return x in y
        if op == 'notin':
            return x not in y
        if op == 'is':
            return x is y or (x == y and type(x) is type(y) and isinstance(x, (str, int, bool, type(None))))
        if op == 'isnot':
            return not (x is y or (x == y and type(x) is type(y)))
    except Exception:
        return None


def nonempty_str(t):
    if t.op == 'StrCat':
        return any(isinstance(cval(p), str) and cval(p) != '' for p in t.a)
    return False


def never_none(t):
    return t.op in ('StrCat', 'Tuple', 'List', 'Dict', 'Ref', 'Bin', 'Cmp', 'Fn', 'Comp') or \
        (t.op == 'Const' and t.a[0] is not None)


def Cmp(op, a, b):
    if op == '>':
        op, a, b = '<', b, a
    elif op == '>=':
        op, a, b = '<=', b, a
    if a.op == 'Const' and b.op == 'Const':
        r = fold_cmp(op, a.a[0], b.a[0])
        if r is not None:
            return Const(bool(r))
    if op in ('==', '!=', 'is', 'isnot') and a.op == b.op == 'Ext' and a.a[0].startswith('builtins.') and b.a[0].startswith('builtins.'):
        return Const((a is b) == (op in ('==', 'is')))
    if op in ('in', 'notin') and b.op in ('Tuple', 'List', 'Set') or op in ('in', 'notin') and b.op == 'Dict':
        items = b.a if b.op != 'Dict' else tuple(k for k, _ in b.a)
        r = Or(*[Cmp('==', a, x) for x in items]) if items else FALSE
        return r if op == 'in' else Not(r)
    if op in ('==', '!=', 'is', 'isnot', '<', '<=', 'in', 'notin'):
        for x, y, left in ((a, b, True), (b, a, False)):
            if x.op == 'Phi' and y.op == 'Const':
                l = Cmp(op, x.a[1], y) if left else Cmp(op, y, x.a[1])
                r = Cmp(op, x.a[2], y) if left else Cmp(op, y, x.a[2])
                if l.op == 'Const' or r.op == 'Const':
                    return Phi(x.a[0], l, r)
    if op in ('is', 'isnot') and (b is NONE or a is NONE):
        x = a if b is NONE else b
        if never_none(x):
            return Const(op == 'isnot')
        if a is NONE:
            a, b = b, a
    if op in ('==', '!='):
        if (a is EMPTY and nonempty_str(b)) or (b is EMPTY and nonempty_str(a)):
            return Const(op == '!=')
        if a is b and a.op in ('StrCat', 'Ref', 'Fn'):
            return Const(op == '==')
        if (is_const(a) and a.a[0] is None and never_none(b)) or (is_const(b) and b.a[0] is None and never_none(a)):
            return Const(op == '!=')
        if b.op != 'Const' and (a.op == 'Const' or b.id < a.id):
            a, b = b, a
        # True/False comparisons
        if b is TRUE and boolish(a):
            return a if op == '==' else Not(a)
        if b is FALSE and boolish(a):
            return Not(a) if op == '==' else a
    return mk('Cmp', op, a, b)


def StrCat(*parts):
    out = []
    for p in parts:
        ps = p.a if p.op == 'StrCat' else (p,)
        for q in ps:
            if q.op == 'Fmt' and q.a[1] == '':
                q = q.a[0]
            if is_const(q) and not isinstance(q.a[0], str) and q.a[0] is not None:
                q = Const(str(q.a[0]))
            if is_const(q, ''):
                continue
            if out and isinstance(cval(out[-1]), str) and isinstance(cval(q), str):
                out[-1] = Const(out[-1].a[0] + q.a[0])
            else:
                if q.op == 'StrCat':
                    out.extend(q.a)
                else:
                    out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1 and isinstance(cval(out[0]), str):
        return out[0]
    return mk('StrCat', *out)


def strish(t):
    if t.op == 'Const':
        return isinstance(t.a[0], str)
    if t.op in ('StrCat', 'Fmt'):
        return True
    if t.op == 'Phi':
        return strish(t.a[1]) and strish(t.a[2])
    return False


def walk(t, seen=None):
    """All sub-terms, once each."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(x.a)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def subst(t, m, memo=None):
    """Replace sub-terms by the mapping m: id -> term (structure is rebuilt through smart constructors)."""
    if memo is None:
        memo = {}
        m = {(k.id if isinstance(k, T) else k): v for k, v in m.items()}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t.id in m:
        return m[t.id]
    if t.id in memo:
        return memo[t.id]
    if not t.a or t.op == 'Const':
        memo[t.id] = t
        return t
    a = tuple(subst(x, m, memo) for x in t.a)
    r = rebuild(t.op, a)
    memo[t.id] = r
    return r


def rebuild(op, a):
    if op == 'Not':
        return Not(*a)
    if op == 'And':
        return And(*a)
    if op == 'Or':
        return Or(*a)
    if op == 'Phi':
        return Phi(*a)
    if op == 'Cmp':
        return Cmp(*a)
    if op == 'StrCat':
        return StrCat(*a)
    if op == 'Bin':
        return Bin(*a)
    if op == 'Bool' and len(a) == 1 and a[0].op == 'Const':
        return Const(bool(a[0].a[0]))
    return mk(op, *a)


def Bin(op, a, b):
    if a.op == 'Const' and b.op == 'Const':
        x, y = a.a[0], b.a[0]
        try:
            if op == '+' and (isinstance(x, NUM) and isinstance(y, NUM) or type(x) is type(y) and isinstance(x, (str, bytes, tuple))):
                return Const(x + y)
            if isinstance(x, NUM) and isinstance(y, NUM):
                if op == '-':
                    return Const(x - y)
                if op == '*':
                    return Const(x * y)
                if op == '/':
                    return Const(x / y)
                if op == '//':
                    return Const(x // y)
                if op == '%':
                    return Const(x % y)
                if op == '**' and abs(x) < 1e6 and abs(y) < 64:
                    return Const(x ** y)
                if op in ('&', '|', '^', '<<', '>>') and isinstance(x, int) and isinstance(y, int):
                    if isinstance(x, bool) and isinstance(y, bool) and op in '&|':
                        return Const((x and y) if op == '&' else (x or y))
                    if op in ('<<', '>>') and y > 64:
                        return mk('Bin', op, a, b)
                    return Const({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if 0 <= y else 0,
                                  '>>': x >> y if 0 <= y else 0}[op])
            if op == '*' and isinstance(x, str) and isinstance(y, int) and y < 1000:
                return Const(x * y)
            if op == '*' and isinstance(y, str) and isinstance(x, int) and x < 1000:
                return Const(x * y)
        except Exception:
            pass
    if op == '+' and (strish(a) or strish(b)):
        return StrCat(a, b)
    if op in '&|' and op and (boolish(a) or boolish(b)):
        return And(a, b) if op == '&' else Or(a, b)
    if op == '+' and a.op == 'List' and b.op == 'List':
        return mk('List', *(a.a + b.a))
    if op == '+' and a.op == 'Tuple' and b.op == 'Tuple':
        return mk('Tuple', *(a.a + b.a))
    return mk('Bin', op, a, b)


# ---------------------------------------------------------------- arithmetic normal form

def poly(t, depth=0):
    """Polynomial normal form {monomial: coefficient}; monomial = sorted tuple of (atom id, power).

    Non-polynomial sub-terms are atoms.  Returns (dict, {id: atom})."""
    atoms = {}

    def go(t):
        if t.op == 'Const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
            v = t.a[0]
            return {(): v} if v != 0 else {}
        if t.op == 'Bin':
            o, a, b = t.a
            if o in '+-' and o:
                x, y = dict(go(a)), go(b)
                for m, c in y.items():
                    x[m] = x.get(m, 0) + (c if o == '+' else -c)
                return {m: c for m, c in x.items() if c != 0}
            if o == '*':
                return mul(go(a), go(b))
            if o == '/' and is_const(b) and isinstance(b.a[0], (int, float)) and b.a[0] != 0:
                return {m: c / b.a[0] for m, c in go(a).items()}
            if o == '/':
                d = go(b)
                if len(d) == 1:
                    (m, c), = d.items()
                    return mul(go(a), {tuple((i, -p) for i, p in m): 1.0 / c})
            if o == '**' and is_const(b) and isinstance(b.a[0], int) and 0 <= b.a[0] <= 8:
                r = {(): 1}
                for _ in range(b.a[0]):
                    r = mul(r, go(a))
                return r
        if t.op == 'Neg':
            return {m: -c for m, c in go(t.a[0]).items()}
        if t.op == 'Call' and t.a[0] in ('numpy.power', 'builtins.pow') and len(t.a[1]) == 2:
            return go(mk('Bin', '**', t.a[1][0], t.a[1][1])) if is_const(t.a[1][1]) else atom(t)
        if t.op == 'Call' and t.a[0] in ('builtins.float', 'numpy.float64') and len(t.a[1]) == 1 and not t.a[2]:
            return go(t.a[1][0])
        return atom(t)

    def atom(t):
        atoms[t.id] = t
        return {((t.id, 1),): 1}

    def mul(x, y):
        r = {}
        for m1, c1 in x.items():
            for m2, c2 in y.items():
                d = dict(m1)
                for i, p in m2:
                    d[i] = d.get(i, 0) + p
                m = tuple(sorted((i, p) for i, p in d.items() if p))
                r[m] = r.get(m, 0) + c1 * c2
        return {m: c for m, c in r.items() if c != 0}

    return go(t), atoms


def diff_const(a, b):
    """a - b when it is a constant, else None."""
    p, _ = poly(mk('Bin', '-', a, b))
    if not p:
        return 0
    if list(p) == [()]:
        return p[()]
    return None


def same_value(a, b):
    if a is b:
        return True
    d = diff_const(a, b)
    return d is not None and abs(d) < 1e-12


# ---------------------------------------------------------------- printing

def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    o, a = t.op, t.a
    if o == 'Const':
        return repr(a[0])
    if o == 'Ext':
        return a[0]
    if o == 'Param':
        return a[0]
    if o == 'Bin':
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    if o == 'Cmp':
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    if o == 'Not':
        return f'not {show(a[0], d)}'
    if o in ('And', 'Or'):
        return '(' + f' {o.lower()} '.join(show(x, d) for x in a) + ')'
    if o == 'Fld':
        return f'{show(a[0], d)}.{a[1]}'
    if o == 'Index':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if o == 'Call':
        kw = ''.join(f', {k}={show(v, d)}' for k, v in a[2])
        return f'{a[0]}({", ".join(show(x, d) for x in a[1])}{kw})'
    if o == 'MCall':
        kw = ''.join(f', {k}={show(v, d)}' for k, v in a[3])
        return f'{show(a[0], d)}.{a[1]}({", ".join(show(x, d) for x in a[2])}{kw})'
    if o == 'StrCat':
        return '"' + ''.join(p.a[0] if isinstance(cval(p), str) else '{' + show(p, d) + '}' for p in a) + '"'
    if o == 'Phi':
        return f'phi({show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)})'
    if o == 'Fmt':
        return f'{show(a[0], d)}:{a[1]}'
    return f'{o}({", ".join(show(x, d) for x in a)})'
