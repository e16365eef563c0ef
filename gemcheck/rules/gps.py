"""Which GPS fixes are believed."""
import math

from . import rule
from ..terms import mk, Const, is_const, cval, show, walk, contains, subst, T
from ..lib import alts, leaves, dget, upd_entries, strs
from ..evalterm import ev, Unknown, kids

PROC = 'gemlog.core._process_gemlog_data'
COLS = {'lat': 43.5, 'lon': -116.25, 'msLag': 80.5, 'year': 2020, 'month': 6, 'day': 15, 'hour': 12, 'minute': 30, 'second': 7.0}
ROWS = [(5000.25, 80.5, 2020, 6, 15, 12, 30, 7.0), (5000.25, 80.5, 2021, 12, 31, 23, 59, 59.0), (5000.25, 80.5, 2020, 2, 30, 24, 60, 60.0),
        (5000.25, 80.5, 2040, 13, 32, 25, 61, 61.0)]
OTHER = {'msPPS': 5000.25, 't': 1.6e9}


def expect(col, x):
    """True/False: has to be kept/dropped; None: does not matter (the time conversion decides)."""
    if isinstance(x, float) and math.isnan(x):
        return False if col in ('lat', 'lon', 'msLag') else None
    lim = {'lat': (-90, 90), 'lon': (-180, 180), 'msLag': (0, 1000), 'year': (2014, 2040), 'month': (1, 12), 'day': (1, 31),
           'hour': (0, 24), 'minute': (0, 60), 'second': (0, 60)}[col]
    if x < lim[0] or x > lim[1]:
        return False
    if col in ('lat', 'lon'):
        return x != 0
    if col in ('hour', 'minute', 'second') and x == lim[1]:
        return None
    if x != int(x):
        return {'second': False, 'msLag': True}.get(col)
    return True


def column(t):
    if t.op == 'Fld' and t.a[1] in COLS or t.op == 'Fld' and t.a[1] in OTHER:
        return t.a[1]
    if t.op == 'Index' and isinstance(t.a[1], T) and t.a[1].op == 'Const' and t.a[1].a[0] in {**COLS, **OTHER}:
        return t.a[1].a[0]
    if t.op == 'Index' and isinstance(t.a[1], T) and t.a[1].op == 'Tuple' and len(kids(t.a[1])) == 2 and t.a[0].op == 'Fld' and t.a[0].a[1] == 'loc':
        k = kids(t.a[1])[1]
        if k.op == 'Const' and k.a[0] in {**COLS, **OTHER}:
            return k.a[0]
    return None


def chain(t):
    """(row masks, other steps) from a table term down to the rows of one line type."""
    masks, steps = [], []
    while isinstance(t, T):
        if t.op == 'Index':
            base, k = t.a
            if base.op == 'Fld' and base.a[1] == 'loc':
                base = base.a[0]
            m = kids(k)[0] if isinstance(k, T) and k.op == 'Tuple' and kids(k) else k
            if isinstance(m, T) and m.op in ('Cmp', 'Not', 'Inv', 'And', 'Or', 'MCall', 'Call', 'Phi', 'Bool') or isinstance(m, T) and m.op == 'Bin' and m.a[0] in ('&', '|', '^'):
                masks.append(m)
            t = base
        elif t.op == 'MCall':
            if t.a[1] == 'get_group':
                return masks, steps, t
            steps.append(t)
            t = t.a[0]
        elif t.op == 'Upd':
            steps.append(t)
            t = t.a[0]
        elif t.op == 'Fld' and t.a[1] == 'loc':
            t = t.a[0]
        else:
            return masks, steps, t
    return masks, steps, t


@rule('C09')
def c09(c):
    """For each raw format version, the GPS table that the single-file reader returns is traced back, as a value, to the rows
    of GPS lines; the row masks on the way are extracted as a formula over the columns.  Each column's number line is cut at every
    constant of the formula and of the documented limits, and the formula is evaluated on each cell (other columns in bounds), NaN
    included: a fix inside the limits must be kept, one outside dropped.  The time column must be built from the year to second
    columns, and rows whose time is missing dropped."""
    for v in ('0.8', '0.85', '0.85C', '0.9', '0.91', '1.10'):
        R = c.ctx.run(PROC, version=Const(v))
        seen = 0
        for _, val, _ in R.returns:
            for x in alts(val):
                g = dget(x, 'gps')
                if g is None:
                    continue
                for path, leaf in leaves(g):
                    masks, steps, base = chain(leaf)
                    if base.op == 'Call' and base.a[0].split('.')[-1] == 'DataFrame':
                        continue        # the empty table
                    if base.op != 'MCall':
                        c.note(f'{v}: the GPS table comes from {show(base, 3)[:80]}; not judged')
                        continue
                    seen += 1
                    judge(c, R, v, leaf, masks, steps)
        c.need('a fix inside the limits is kept', 1, 'limits')


def judge(c, R, v, leaf, masks, steps):
    tcol = [val for s in steps if s.op == 'Upd' for k, val in upd_entries(s) if k == 't' or (isinstance(k, T) and is_const(k, 't'))]
    atoms = {val.id: ('t', val) for val in tcol}
    stop = set(atoms)
    used = set()
    for m in masks:
        for t in walk_cols(m, set(), stop):
            if column(t):
                atoms[t.id] = (column(t), t)
            if t.id in atoms:
                used.add(t.id)
    atoms = {i: a for i, a in atoms.items() if i in used}
    names = {n for n, _ in atoms.values()}
    for n in COLS:
        c.ob('each quantity is checked', n in names or n in ('year', 'month', 'day', 'hour', 'minute'), f'{v} {n}', 'no mask depends on it')
    nums = {float(t.a[0]) for m in masks for t in walk_cols(m, set(), stop) if t.op == 'Const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)
            and not math.isnan(t.a[0]) and abs(t.a[0]) != math.inf}
    nums |= {0, 1, 12, 24, 31, 60, 90, -90, 180, -180, 1000, 2014, 2040}

    def keeps(values):
        env = {i: values[n] for i, (n, _) in atoms.items()}
        return all([bool(ev(m, env)) for m in masks])

    good = {**COLS, **OTHER}
    try:
        keeps(good)
    except Unknown as e:
        c.note(f'{v}: the row masks are not decided ({str(e.args[:1])[:120]})')
        return
    for n in COLS:
        pts = set()
        s = sorted(nums)
        for a, b in zip([s[0] - 10] + s, s + [s[-1] + 10]):
            pts |= {a, b, (a + b) / 2}
            if math.floor(a) + 1 < b:
                pts.add(math.floor(a) + 1)
            if math.ceil(b) - 1 > a:
                pts.add(math.ceil(b) - 1)
        for x in sorted(pts) + [math.nan]:
            want = expect(n, x)
            if want is None:
                continue
            try:
                got = keeps({**good, n: x})
            except Unknown:
                c.note(f'{v}: not decided for {n} = {x}')
                continue
            if want:
                c.ob('a fix inside the limits is kept', got, f'{v} {n}', f'{n} = {x} is dropped')
            else:
                c.ob('a fix outside the limits is dropped', not got, f'{v} {n}', f'{n} = {x} is kept')
    # the time
    if 't' in names or any(t.op == 'MCall' and t.a[1] == 'dropna' for t in steps):
        if 't' in names:
            try:
                c.ob('a fix without a valid time is dropped', not keeps({**good, 't': math.nan}), v, 'kept')
            except Unknown:
                c.note(f'{v}: not decided for a missing time')
    elif tcol:
        c.ob('a fix without a valid time is dropped', False, v, 'no mask depends on the time')
    q = 'gemlog.core._make_gps_time'
    if c.ctx.has(q) and any(contains(x, lambda t: t.op == 'Fn' and t.a[0] == q) for x in tcol):
        cols = ['msPPS', 'msLag', 'year', 'month', 'day', 'hour', 'minute', 'second']
        F = c.ctx.run(q)
        for _, val, _ in F.returns:
            for path, x in leaves(val):
                if x.op == 'Call' and x.a[0].endswith('UTCDateTime') and len(x.a[1]) >= 6:
                    for i, want in enumerate(cols[2:]):
                        for row in ROWS:
                            try:
                                got = ev(x.a[1][i], {'lib': True, **{p.id: list(row) for p in walk(x.a[1][i]) if p.op == 'Param'}})
                            except Unknown:
                                continue
                            if isinstance(got, (int, float)):
                                c.ob('the time is built from the values as they are', got == row[i + 2], want, f'{row[i + 2]} is taken as {got}')
                        ks = {k for t in walk(x.a[1][i]) if t.op in ('Index', 'Fld') for k in [t.a[1] if not isinstance(t.a[1], T) else cval(t.a[1])]
                              if isinstance(k, (int, str)) and k not in ('iloc', 'loc', 'values')}
                        if len(ks) == 1:
                            k = ks.pop()
                            k = cols[k] if isinstance(k, int) and 0 <= k < len(cols) else k
                            c.ob('the time is built from its own columns', k == want, want, f'taken from {k}')


def walk_cols(m, seen, stop):
    """Sub-terms of a mask down to column accesses (not into the table they belong to)."""
    if not isinstance(m, T) or m.id in seen:
        return
    seen.add(m.id)
    yield m
    if column(m) or m.id in stop:
        return
    for k in m.a:
        for x in (k if isinstance(k, tuple) else (k,)):
            if isinstance(x, T):
                yield from walk_cols(x, seen, stop)
            elif isinstance(x, tuple):
                for y in x:
                    yield from walk_cols(y, seen, stop)
