"""Queries on terms that several rules share."""
from .terms import mk, Const, T, is_const, cval, walk, contains, show, subst, Not


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st = [x]
            while st:
                for y in st.pop():
                    if isinstance(y, T):
                        yield y
                    elif isinstance(y, tuple):
                        st.append(y)


def alts(t, depth=0):
    """The values a merged term can take (Phi flattened)."""
    if t is None:
        return []
    if t.op == 'Phi' and depth < 12:
        return alts(t.a[1], depth + 1) + alts(t.a[2], depth + 1)
    return [t]


def dget(t, key):
    """Value of a constant key of a Dict term (through Upd)."""
    if t.op == 'Upd':
        for k, v in upd_entries(t):
            if k is key or (isinstance(k, T) and is_const(k, key)) or k == key:
                return v
        return dget(t.a[0], key)
    if t.op in ('Dict', 'OpenDict'):
        for x in t.a:
            for y in ((x,) if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], tuple) else x if isinstance(x, tuple) else ()):
                if isinstance(y, tuple) and len(y) == 2 and (y[0] == key or (isinstance(y[0], T) and is_const(y[0], key))):
                    return y[1]
    return None


def upd_entries(t):
    """(key, value) pairs of an Upd term."""
    out = []
    for x in t.a[1:]:
        if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], tuple):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and len(y) == 2:
                    out.append(y)
    return out


def ints(t):
    return {cval(x) for x in walk(t) if x.op == 'Const' and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool)}


def seq(t):
    """A Python list of the items of a List/Tuple/Range/concatenation term, or None."""
    if t.op in ('List', 'Tuple'):
        out = []
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T) and y.op == 'Star':
                    s = seq(y.a[0])
                    if s is None:
                        return None
                    out += s
                else:
                    out.append(y)
        return out
    if t.op == 'Range':
        v = [cval(x) for x in t.a]
        if all(isinstance(x, int) for x in v):
            return [Const(i) for i in range(*v)]
        return None
    if t.op == 'Bin' and t.a[0] == '+':
        a, b = seq(t.a[1]), seq(t.a[2])
        return None if a is None or b is None else a + b
    if t.op == 'Call' and t.a[0] in ('builtins.list', 'builtins.tuple', 'numpy.array') and t.a[1]:
        return seq(t.a[1][0])
    if t.op == 'Comp' and len(t.a[2]) == 1:
        return None
    return None


def strs(t):
    """The list of constant strings of a sequence term, or None."""
    s = seq(t)
    if s is None or not all(isinstance(cval(x), str) for x in s):
        return None
    return [cval(x) for x in s]


def peel(t, names=('astype', 'copy', 'round', 'to_numpy', 'reset_index', 'tolist')):
    while True:
        if t.op == 'MCall' and t.a[1] in names:
            t = t.a[0]
        elif t.op == 'Call' and t.a[0] in ('numpy.array', 'numpy.asarray', 'builtins.list', 'pandas.to_numeric') and t.a[1]:
            t = t.a[1][0]
        elif t.op == 'Fld' and t.a[1] in ('values',):
            t = t.a[0]
        else:
            return t


def universe(R):
    """Every term an entry point computes: arguments, receivers and results of its events, values returned, and what
    loops carry."""
    seen = {}

    def add(x):
        if isinstance(x, T):
            seen.setdefault(x.id, x)
    for e in R.events:
        add(e.recv)
        add(e.val)
        for a in e.args or ():
            add(a)
        for a in (e.kw or {}).values():
            add(a)
    for rt in R.returns:
        add(rt[1])
    st = list(seen.values())
    done = {}
    while st:
        x = st.pop()
        if x.id in done:
            continue
        done[x.id] = x
        st.extend(kids(x))
    return list(done.values())


def closure(R, *roots):
    """Ids of all terms that the given values are made of, following loop-carried variables and list contents."""
    I = R.interp
    seen = {}
    st = [t for t in roots if t is not None]
    adds = {}
    for e in R.events:
        if e.kind in ('append', 'extend') and e.recv is not None:
            adds.setdefault(e.recv.id, []).extend(e.args)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        st.extend(kids(t))
        st.extend(adds.get(t.id, ()))
        if t.op == 'Mu' and t.a[1] in I.loops:
            lp = I.loops[t.a[1]]
            for part in ('init', 'next'):
                v = lp.get(part, {}).get(t.a[0])
                if isinstance(v, T):
                    st.append(v)
    return seen


def leaves(t, path=()):
    """(path condition literals, leaf) of nested Phi terms."""
    if t.op == 'Phi':
        yield from leaves(t.a[1], path + (t.a[0],))
        yield from leaves(t.a[2], path + (Not(t.a[0]),))
    else:
        yield path, t


def flow(R, *roots):
    """Ids of the terms whose items a list value is made of: through branches, concatenation, loops and list contents, but
    not through conditions or other calls."""
    I = R.interp
    seen = {}
    st = [t for t in roots if t is not None]
    ext = {}
    for e in R.events:
        if e.kind == 'extend' and e.recv is not None:
            ext.setdefault(e.recv.id, []).extend(e.args)
        elif e.kind == 'mcall' and e.name == 'extend' and e.recv is not None:
            ext.setdefault(e.recv.id, []).extend(e.args)
    while st:
        t = st.pop()
        if not isinstance(t, T) or t.id in seen:
            continue
        seen[t.id] = t
        st.extend(ext.get(t.id, ()))
        if t.op == 'Phi':
            st.extend(t.a[1:])
        elif t.op == 'Bin' and t.a[0] == '+':
            st.extend(t.a[1:])
        elif t.op in ('List', 'Tuple', 'OpenList', 'Star', 'Alt'):
            st.extend(kids(t))
        elif t.op == 'Call' and t.a[0] in ('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.set') and t.a[1]:
            st.extend(t.a[1])
        elif t.op == 'MCall' and t.a[1] in ('copy', 'tolist'):
            st.append(t.a[0])
        elif t.op == 'Comp':
            for _, it in t.a[2]:
                st.append(it)
        elif t.op == 'Mu' and t.a[1] in I.loops:
            lp = I.loops[t.a[1]]
            st.extend(lp.get(part, {}).get(t.a[0]) for part in ('init', 'next'))
    return seen


def under(t, path):
    """t simplified by the path condition literals."""
    m = {}
    for p in path:
        for x in ([p] + [y for z in p.a for y in (z if isinstance(z, tuple) else (z,))] if p.op == 'And' else [p]):
            if x.op == 'Const':
                continue
            m[x] = Const(True)
            n = Not(x)
            if n.op != 'Const':
                m[n] = Const(False)
    return subst(t, m) if m else t
