"""Table look-ups as relational queries: which column of which table, for the rows that satisfy what, is a term's value.

`rows(t)` -> (table, conditions); `column(t)` -> (table, name, conditions); `lookup(t)` -> Look(table, name, conditions, which).
Conditions are (column, value term) equalities; the different spellings (boolean mask, loc, numpy.where, iloc, values, at) all
come to the same query.  None: not a query of a recognised form."""
from collections import namedtuple

from .lib import kids, peel
from .terms import T, cval, is_const

Look = namedtuple('Look', 'table col conds which how')   # which: 0 first, -1 last, 'any'; how: 'label' if a position is used as a row label
CONV = ('builtins.int', 'builtins.str', 'numpy.int64', 'numpy.str_')
FIRST = ('numpy.where', 'numpy.flatnonzero', 'numpy.nonzero', 'numpy.argwhere')


def plain(t):
    """A compared value without conversions that keep which value it is."""
    while True:
        if t.op == 'Call' and t.a[0] in CONV and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'MCall' and t.a[1] in ('astype', 'strip', 'copy', 'to_numpy', 'item') and not (t.a[1] == 'strip' and t.a[2]):
            t = t.a[0]
        elif t.op == 'Fld' and t.a[1] in ('values', 'str'):
            t = t.a[0]
        elif t.op == 'StrCat' and len(t.a) == 1:
            t = t.a[0]
        else:
            return t


def const_index(t):
    return cval(t) if is_const(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool) else None


def conds_of(m, table):
    """Equalities of a row mask, or None."""
    m = unwrap_mask(m)
    if m.op == 'And' or m.op == 'Bin' and m.a[0] == '&' or m.op == 'Call' and m.a[0] == 'numpy.logical_and':
        out = set()
        parts = list(kids(m)) if m.op == 'And' else list(m.a[1:]) if m.op == 'Bin' else list(m.a[1])
        for x in parts:
            c = conds_of(x, table)
            if c is None:
                return None
            out |= c
        return frozenset(out)
    if m.op == 'Cmp' and m.a[0] == '==':
        for a, b in ((m.a[1], m.a[2]), (m.a[2], m.a[1])):
            c = column(plain(a))
            if c and c[0] is table:
                return frozenset({(c[1], same_kind(a, b))}) | c[2]
    if m.op == 'MCall' and m.a[1] in ('eq', '__eq__') and len(m.a[2]) == 1:
        c = column(plain(m.a[0]))
        if c and c[0] is table:
            return frozenset({(c[1], plain(m.a[2][0]))}) | c[2]
    return None


def numeric(t):
    """A conversion to a number is made on the way."""
    while True:
        if t.op == 'Call' and t.a[0] in CONV and len(t.a[1]) == 1:
            if t.a[0] in ('builtins.int', 'numpy.int64'):
                return True
            t = t.a[1][0]
        elif t.op == 'MCall' and t.a[1] in ('astype', 'strip', 'copy', 'to_numpy', 'item'):
            if t.a[1] == 'astype' and t.a[2] and (t.a[2][0].op == 'Ext' and 'int' in t.a[2][0].a[0] or is_const(t.a[2][0]) and 'int' in str(cval(t.a[2][0]))):
                return True
            t = t.a[0]
        else:
            return False


def same_kind(a, b):
    """The value compared with column a: without conversions if both sides are converted alike."""
    return plain(b) if numeric(a) == numeric(b) else b


def unwrap_mask(m):
    while m.op == 'MCall' and m.a[1] in ('to_numpy', 'copy', 'astype') or m.op == 'Fld' and m.a[1] == 'values' or \
            m.op == 'Call' and m.a[0] in ('numpy.array', 'numpy.asarray') and m.a[1]:
        m = m.a[1][0] if m.op == 'Call' else m.a[0]
    return m


def maskish(m):
    m = unwrap_mask(m)
    return m.op in ('Cmp', 'And', 'Not', 'Or') or m.op == 'MCall' and m.a[1] in ('eq', 'isin', 'isna', 'notna') or m.op == 'Bin' and m.a[0] in '&|' \
        or m.op == 'Call' and m.a[0].split('.')[-1] in ('logical_and', 'logical_or', 'isin')


def position(t, table):
    """(conditions, which) of a row number: where(mask)[0][0] and its spellings."""
    t = plain(t)
    if t.op == 'Index' and const_index(t.a[1]) is not None:
        k, b = const_index(t.a[1]), plain(t.a[0])
        c = positions(b, table)
        if c is not None:
            return c, k
    if t.op == 'Call' and t.a[0] == 'numpy.argmax' and t.a[1] and maskish(t.a[1][0]):
        c = conds_of(t.a[1][0], table)
        return (c, 0) if c is not None else None
    if t.op == 'MCall' and t.a[1] in ('idxmax', 'argmax') and maskish(t.a[0]):
        c = conds_of(t.a[0], table)
        return (c, 0) if c is not None else None
    if t.op == 'MCall' and t.a[1] == 'index' and len(t.a[2]) == 1 and t.a[0].op == 'MCall' and t.a[0].a[1] in ('tolist',) or \
            t.op == 'MCall' and t.a[1] == 'index' and len(t.a[2]) == 1 and t.a[0].op == 'Call' and t.a[0].a[0] == 'builtins.list':
        c = column(peel(t.a[0]))
        if c and c[0] is table:
            return frozenset({(c[1], plain(t.a[2][0]))}) | c[2], 0
    return None


def positions(b, table):
    """Conditions of a list of row numbers, or None."""
    b = peel(b)
    if b.op == 'Index' and const_index(b.a[1]) == 0:
        x = b.a[0]
        if x.op == 'Call' and x.a[0] in ('numpy.where', 'numpy.nonzero') and len(x.a[1]) == 1:
            return conds_of(x.a[1][0], table)
        if x.op == 'MCall' and x.a[1] in ('nonzero', 'to_numpy'):
            return conds_of(x.a[0], table)
    if b.op == 'Call' and b.a[0] == 'numpy.flatnonzero' and len(b.a[1]) == 1:
        return conds_of(b.a[1][0], table)
    if b.op == 'Fld' and b.a[1] == 'index':
        r = rows(b.a[0])
        return r[1] if r and r[0] is table and r[1] else None
    if b.op == 'Index' and b.a[0].op == 'Fld' and b.a[0].a[1] == 'index' and maskish(b.a[1]):
        return conds_of(b.a[1], table)
    return None


def rows(t):
    """(table, conditions) of a table term; every unrecognised term is its own table."""
    if t.op == 'Index':
        b, i = t.a
        if b.op == 'Fld' and b.a[1] in ('loc', 'iloc'):
            sel = i
            if i.op == 'Tuple':
                its = list(kids(i))
                if len(its) == 2 and its[1].op == 'Slice' and all(is_const(x, None) for x in kids(its[1])):
                    sel = its[0]
            r = rows(b.a[0])
            if r is not None and sel.op != 'Tuple':
                if maskish(sel):
                    c = conds_of(sel, b.a[0]) if conds_of(sel, b.a[0]) is not None else conds_of(sel, r[0])
                    return (r[0], r[1] | c) if c is not None else None
                p = positions(sel, r[0])
                if p is not None:
                    return r[0], r[1] | p
        elif maskish(i):
            r = rows(b)
            if r is None:
                return None
            c = conds_of(i, r[0])
            if c is None and b is not r[0]:
                c = conds_of(i, b)
            return (r[0], r[1] | c) if c is not None else None
    if t.op == 'MCall' and t.a[1] in ('copy', 'reset_index') and rows(t.a[0]) and rows(t.a[0])[1]:
        return rows(t.a[0])
    return t, frozenset()


def column(t):
    """(table, column, conditions) of a column term, or None."""
    t = peel(t, ('astype', 'copy', 'to_numpy', 'tolist', 'reset_index', 'to_list'))
    name = None
    if t.op == 'Fld' and isinstance(t.a[1], str) and t.a[1] not in ('iloc', 'loc', 'values', 'index', 'at', 'iat', 'shape', 'columns'):
        name = t.a[1]
    elif t.op == 'Index' and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
        name = cval(t.a[1])
    if name is not None:
        b = t.a[0]
        if b.op == 'Fld' and b.a[1] == 'loc':
            b = b.a[0]
        r = rows(b)
        return (r[0], name, r[1]) if r else None
    if t.op == 'Index' and t.a[0].op == 'Fld' and t.a[0].a[1] == 'loc' and t.a[1].op == 'Tuple':
        its = list(kids(t.a[1]))
        if len(its) == 2 and is_const(its[1]) and isinstance(cval(its[1]), str) and maskish(its[0]):
            r = rows(t.a[0].a[0])
            if r:
                c = conds_of(its[0], r[0])
                return (r[0], cval(its[1]), r[1] | c) if c is not None else None
    if t.op == 'Index' and maskish(t.a[1]):           # column[mask]
        c = column(t.a[0].a[0] if t.a[0].op == 'Fld' and t.a[0].a[1] == 'loc' else t.a[0])
        if c:
            k = conds_of(t.a[1], c[0])
            return (c[0], c[1], c[2] | k) if k is not None else None
    return None


def lookup(t):
    """Look of a single value of a table, or None."""
    t = plain(t)
    if t.op == 'Call' and t.a[0] in ('builtins.next',) and t.a[1] and t.a[1][0].op == 'Call' and t.a[1][0].a[0] == 'builtins.iter':
        c = column(t.a[1][0].a[1][0])
        return Look(c[0], c[1], c[2], 0, '') if c and c[2] else None
    if t.op == 'MCall' and t.a[1] in ('item', 'squeeze') and not t.a[2]:
        c = column(t.a[0])
        return Look(c[0], c[1], c[2], 0, '') if c and c[2] else None
    # row first, column after: rows.iloc[k]['col'], table.loc[w, 'col'], table.iloc[w].col
    name = base = None
    if t.op == 'Fld' and isinstance(t.a[1], str):
        name, base = t.a[1], t.a[0]
    elif t.op == 'Index' and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
        name, base = cval(t.a[1]), t.a[0]
    if name is not None and base.op == 'Index' and base.a[0].op == 'Fld' and base.a[0].a[1] in ('iloc', 'loc') and base.a[1].op not in ('Tuple', 'Slice'):
        tab, how = base.a[0].a[0], base.a[0].a[1]
        k = const_index(base.a[1])
        r = rows(tab)
        if r is None:
            return None
        if k is not None and how == 'iloc':
            return Look(r[0], name, r[1], k, '')
        p = position(base.a[1], r[0])
        if p:
            return Look(r[0], name, r[1] | p[0], p[1], 'label' if how == 'loc' and not from_index(base.a[1]) else '')
        return None
    if t.op != 'Index':
        return None
    b, i = t.a
    if b.op == 'Fld' and b.a[1] in ('loc', 'at') and i.op == 'Tuple':
        its = list(kids(i))
        if len(its) == 2 and is_const(its[1]) and isinstance(cval(its[1]), str):
            r = rows(b.a[0])
            p = position(its[0], r[0]) if r else None
            if p:
                return Look(r[0], cval(its[1]), r[1] | p[0], p[1], '' if from_index(its[0]) else 'label')
        return None
    k = const_index(i)
    how = 'label'
    if b.op == 'Fld' and b.a[1] in ('iloc', 'values', 'loc', 'at', 'iat'):
        how = 'label' if b.a[1] in ('loc', 'at') else ''
        b = b.a[0]
    elif b is not peel(b):
        how, b = '', peel(b)
    c = column(b)
    if c is None:
        return None
    if k is not None and not how:
        return Look(c[0], c[1], c[2], k, '')
    if k is not None:
        return Look(c[0], c[1], c[2], k, 'label')
    p = position(i, c[0])
    if p:
        return Look(c[0], c[1], c[2] | p[0], p[1], '' if not how or from_index(i) else 'label')
    return None


def from_index(t):
    """The row is named by the table's own index, not counted."""
    t = plain(t)
    return t.op == 'Index' and (peel(t.a[0]).op == 'Fld' and peel(t.a[0]).a[1] == 'index' or
                                peel(t.a[0]).op == 'Index' and peel(t.a[0]).a[0].op == 'Fld' and peel(t.a[0]).a[0].a[1] == 'index') or \
        t.op == 'MCall' and t.a[1] == 'idxmax'


def uniques(t):
    """(table, column, conditions) whose distinct values (each once) a term lists, or None."""
    if t.op == 'Rec' and t.a[0].endswith('_unique') and t.a[1]:
        return column(t.a[1][0])
    if t.op == 'MCall' and t.a[1] in ('unique', 'drop_duplicates') and not t.a[2]:
        return column(t.a[0])
    if t.op == 'Call' and t.a[0] in ('pandas.unique', 'numpy.unique') and t.a[1]:
        return column(t.a[1][0])
    if t.op == 'Call' and t.a[0] in ('builtins.sorted', 'builtins.list') and t.a[1]:
        return uniques(t.a[1][0])
    if t.op == 'Call' and t.a[0] in ('builtins.set', 'dict.fromkeys') and t.a[1]:
        return column(t.a[1][0])
    if t.op == 'MCall' and t.a[1] == 'fromkeys' and t.a[2]:
        return column(t.a[2][0])
    if t.op == 'MCall' and t.a[1] in ('tolist', 'copy', 'keys'):
        return uniques(t.a[0])
    return None
