"""C26: GPS summaries."""
import fnmatch
import math

import numpy as np

from . import rule
from ..evalterm import Unknown, ev
from ..lib import alts, kids, seq, strs, upd_entries
from ..relq import column, lookup
from ..terms import contains, cval, is_const, mk, show, walk
from .stations import CODES, INFO, UNIQ, base, fixed, right_look, spread, table

NET = 'gemlog.gem_network.'
SUM, READ, OUT = NET + 'summarize_gps', NET + 'read_gps', NET + '_remove_outliers'
COLS = ('SN', 'lat', 'lon', 'lat_SE', 'lon_SE', 'starttime', 'endtime', 'num_samples')
NAMES = ('058gps_000.txt', '058gps_001.txt', '058gps_010.txt', '059gps_000.txt', '1058gps_000.txt', '058metadata_000.txt', '0581gps_000.txt', 'gemlog_logfile.txt')


class Rows:
    """A table of fixes: columns of known values."""

    def __init__(self, **cols):
        self.cols = {k: np.array(v) for k, v in cols.items()}

    @property
    def shape(self):
        return (len(self), 5)

    def __len__(self):
        return len(next(iter(self.cols.values())))


def bind_table(env, t, tab, terms):
    """Bindings of the columns and sizes of table term t."""
    for root in terms:
        for x in walk(root):
            if x.op == 'Fld' and x.a[0] is t and x.a[1] in tab.cols:
                env[x.id] = tab.cols[x.a[1]]
            if x.op == 'Index' and x.a[0] is t and is_const(x.a[1]) and cval(x.a[1]) in tab.cols:
                env[x.id] = tab.cols[cval(x.a[1])]
            if x.op == 'Fld' and x.a[0] is t and x.a[1] == 'shape':
                env[x.id] = tab.shape
            if x.op == 'Fld' and x.a[0] is t and x.a[1] == 'index':
                env[x.id] = np.arange(len(tab))
            if x.op == 'Fld' and x.a[0] is t and x.a[1] == 'empty':
                env[x.id] = len(tab) == 0
            if x.op == 'Call' and x.a[0] == 'builtins.len' and x.a[1] and x.a[1][0] is t:
                env[x.id] = len(tab)


@rule('C26')
def c26(c):
    """(1) Which files are looked at and which serial number they stand for (patterns and names evaluated on sample names); (2) the selection by time and by distance
    from the median, evaluated on sample fixes; (3) each column of the row evaluated on the fixes kept; (4) codes by look-up in the station table."""
    if not c.ctx.has(SUM) or not c.ctx.has(READ):
        c.undecided.append('no GPS summary')
        return
    judge_read(c)
    judge_outliers(c)
    R = c.ctx.run(SUM, no_inline=(INFO, UNIQ, READ, OUT))
    judge_files(c, R)
    judge_rows(c, R)
    judge_station(c, R)


# ---------------------------------------------------------------- reading

def judge_read(c):
    R = c.ctx.run(READ)
    what = 'for each folder the newest GPS file of the serial number is read'
    pn = [a.arg for q, f in c.ctx.functions() if q == READ for a in f.args.args]
    reads = [e for e in R.events if e.kind == 'call' and e.name in ('pandas.read_csv', 'pandas.read_table')]
    if not reads:
        c.note('no GPS file is read')
    for e in reads:
        path = e.args[0]
        for g in [x for x in walk(path) if x.op == 'Call' and x.a[0] in ('glob.glob', 'glob.iglob')]:
            if not any(x.op == 'Param' and x.a[0] == pn[1] for x in walk(g)):
                for lf in alts(path):
                    if contains(lf, lambda t: t is g) and lf.op == 'Index' and is_const(lf.a[1]):
                        c.ob('only GPS files of that serial number are read', any(x.op == 'Param' and x.a[0] == pn[1] for x in walk(lf)) or contains(lf, lambda t: t.op in ('OpenList', 'Mu')), 'pattern', f'{show(lf, 4)} does not depend on the serial number', e.site)
                continue
            dirs = [x for x in walk(g) if x.op == 'Index' and x.a[1].op == 'Idx']
            env = {x.id: '058' for x in walk(g) if x.op == 'Param' and x.a[0] == pn[1]}
            env.update({x.id: 'D' for x in dirs})
            try:
                pat = ev(g.a[1][0], env)
            except Unknown:
                c.note('the pattern of GPS files is not decided')
                continue
            got = [n for n in NAMES if fnmatch.fnmatchcase('D/' + n, pat)]
            c.ob(what, {'058gps_000.txt', '058gps_001.txt', '058gps_010.txt'} <= set(got), 'pattern', f'{pat} finds {got}', e.site)
            c.ob('only GPS files of that serial number are read', not [n for n in got if not n.startswith('058gps')], 'pattern', f'{pat} finds {[n for n in got if not n.startswith("058gps")]}', e.site)
            if path.op in ('Phi', 'Index', 'Call'):
                for lf in [mk('Call', x.a[0], (y,), *x.a[2:]) if x.op == 'Call' and y is not x.a[1][0] else x for x in alts(path) for y in (alts(x.a[1][0]) if x.op == 'Call' and len(x.a[1]) == 1 else [x])]:
                    if not contains(lf, lambda t: t is g):
                        continue
                    env = {g.id: ('D/058gps_010.txt', 'D/058gps_000.txt', 'D/058gps_001.txt')}
                    size = [x for x in walk(lf) if x.op == 'Ext' and x.a[0] in ('os.path.getsize', 'builtins.len')]
                    if size:
                        c.ob(what, False, 'newest', f'chosen by {size[0].a[0]}', e.site)
                        continue
                    try:
                        f = ev(lf, env)
                    except Unknown:
                        c.note(f'the file chosen is not decided: {show(lf, 4)}')
                        continue
                    ordered = contains(lf, lambda t: t.op == 'Call' and t.a[0] in ('builtins.sorted', 'builtins.max'))
                    c.ob(what, f == 'D/058gps_010.txt' and ordered, 'newest', f'{f}' if ordered else 'the order of a folder listing is used', e.site)
        # a file given directly
        for g in [x for x in walk(path) for x in [x] if x.op == 'Phi']:
            pass
        cv = (e.kw or {}).get('converters')
        later = [x for x in R.events if x.kind == 'setitem' and is_const(x.args[0], 't')]
        times = cv is not None and contains(cv, lambda t: is_const(t, 't') or t.op == 'Ext' and 'UTCDateTime' in t.a[0])
        keys = cv is None or "'t'" in show(cv, 4) or 't' in [str(k) for k in dict_keys(cv)]
        c.ob('times of fixes are read as times', bool(later) or times and keys, 'converters', show(cv, 3) if cv is not None else 'the times stay text', e.site)
        joins = [x for x in R.events if x.kind == 'call' and x.name == 'pandas.concat' or x.kind in ('append', 'mcall') and x.name in ('append', None)]
        if R.value is not None and R.value.op == 'Mu':
            nx = R.interp.loops[R.value.a[1]]['next'].get(R.value.a[0])
            ok = nx is not None and all(lf is R.value or contains(lf, lambda t: t is R.value) for lf in alts(nx))
            c.ob('the fixes of all folders are put together', ok, 'loop', 'the fixes of earlier folders are lost' if nx is not None else '', e.site)
    # direct files: the guard must tell serial numbers apart
    for lid, lp in R.interp.loops.items():
        if lp.get('func') != READ or lp['kind'] != 'for' or lp['iter'] is None:
            continue
        conds = {x.id: x for k, v in lp['next'].items() for x in walk(v) if x.op == 'Cmp' and x.a[0] in ('==', 'in') and any(y.op == 'Param' and y.a[0] == pn[1] for y in walk(x))
                 and any(y.op == 'Fld' and y.a[1] in ('name', 'stem') or y.op == 'MCall' and y.a[1] in ('split', 'startswith') or y.op == 'Call' and y.a[0] == 'os.path.basename' for y in walk(x))}
        for x in conds.values():
            for sn, fn, want in (('058', '/a/058gps_000.txt', True), ('1058', '/a/1058gps_000.txt', True), ('105', '/a/1058gps_000.txt', False), ('058', '/a/059gps_001.txt', False), ('058', '/058/059gps_001.txt', False)):
                env = {}
                for y in walk(x):
                    if y.op == 'Param' and y.a[0] == pn[1]:
                        env[y.id] = sn
                    if y.op == 'Index' and y.a[1].op == 'Idx':
                        env[y.id] = fn
                    if y.op == 'Fld' and y.a[1] in ('name', 'stem'):
                        env[y.id] = fn.split('/')[-1][:None if y.a[1] == 'name' else -4]
                try:
                    c.ob('only GPS files of that serial number are read', bool(ev(x, env)) == want, f'{sn} {fn}', f'{fn} is {"left out" if want else "read"} for {sn}', lp.get('site'))
                except Unknown:
                    c.note(f'the test of a file name is not decided: {show(x, 4)}')
                    break


def dict_keys(t):
    try:
        return [k if isinstance(k, str) else cval(k) for k, _ in (upd_entries(t) if t.op == 'Upd' else t.a)]
    except Exception:
        return []


# ---------------------------------------------------------------- selection

FIX = dict(lat=[43.0, 43.00001, 42.99999, 43.00002, 43.0, 43.0, 43.00001, 43.0, 42.99998, 43.0] * 4 + [44.0], lon=[-116.0] * 40 + [-116.0])
SETS = (
    Rows(**FIX), Rows(lat=FIX['lon'], lon=FIX['lat']), Rows(lat=[43.0, 43.0, 43.0], lon=[-116.0, -116.0, -116.0]),
    Rows(lat=[43.0, 43.1, 43.2, 43.3], lon=[-116.0, -116.1, -116.3, -116.2]), Rows(lat=[1.0] * 20 + [1.00004] + [1.00006], lon=[2.0] * 22),
    Rows(lat=[1.0] * 30 + [0.5], lon=[2.0] * 30 + [2.1]), Rows(lat=[1.0] * 25 + [2.0], lon=[2.0] * 26), Rows(lat=[2.0] * 26, lon=[1.0] * 25 + [2.0]),
    Rows(lat=[1.0, 2.0] * 20, lon=[5.0] * 39 + [5.5]), Rows(lon=[1.0, 2.0] * 20, lat=[5.0] * 39 + [5.5]), Rows(lat=[1.0] * 60 + [1.0004], lon=[2.0] * 61),
    Rows(lon=[1.0] * 60 + [1.0004], lat=[2.0] * 61), Rows(lat=[1.0] * 60 + [0.5], lon=[2.0] * 61), Rows(lon=[-1.0] * 60 + [-1.5], lat=[2.0] * 61))


def near(tab, n=5):
    la, lo = tab.cols['lat'], tab.cols['lon']
    return (abs(la - np.median(la)) < n * (1e-5 + la.std())) & (abs(lo - np.median(lo)) < n * (1e-5 + lo.std()))


def judge_outliers(c):
    if not c.ctx.has(OUT):
        c.note('no removal of outliers')
        return
    R = c.ctx.run(OUT, no_inline=(OUT,))
    pn = [a.arg for q, f in c.ctx.functions() if q == OUT for a in f.args.args]
    what = 'fixes far from the median are dropped'
    masks = {}
    for e in R.events:
        for a in list(e.args or ()):
            for x in walk(a):
                if x.op == 'Call' and x.a[0] in ('numpy.where', 'numpy.flatnonzero', 'numpy.nonzero') and len(x.a[1]) == 1 and any(y.op == 'Param' and y.a[0] == pn[0] for y in walk(x)):
                    masks[x.a[1][0].id] = x.a[1][0]
    if R.value is not None:
        for x in walk(R.value):
            if x.op == 'Call' and x.a[0] in ('numpy.where', 'numpy.flatnonzero', 'numpy.nonzero') and len(x.a[1]) == 1:
                masks[x.a[1][0].id] = x.a[1][0]
            if x.op == 'Index' and x.a[1].op in ('And', 'Cmp') and contains(x.a[1], lambda t: t.op == 'Call' and 'median' in t.a[0] or t.op == 'MCall' and t.a[1] == 'median'):
                masks[x.a[1].id] = x.a[1]
    masks = [m for m in masks.values() if contains(m, lambda t: t.op == 'Param' and t.a[0] == pn[0])]
    if not masks:
        c.note('how outliers are told is not recognised')
    p = None
    for m in masks:
        p = next(x for x in walk(m) if x.op == 'Param' and x.a[0] == pn[0])
        for i, tab in enumerate(SETS):
            env = {}
            bind_table(env, p, tab, [m])
            for x in walk(m):
                if x.op == 'Param' and x.a[0] != pn[0]:
                    env[x.id] = 5
            try:
                got = ev(m, env)
            except Unknown as u:
                c.note(f'the outlier test is not decided: {str(u)[:150]}')
                break
            c.ob(what, isinstance(got, np.ndarray) and got.dtype == bool and bool((got == near(tab)).all()), f'sample {i}', f'kept {np.flatnonzero(got).tolist()[-5:] if isinstance(got, np.ndarray) else got}, not {np.flatnonzero(near(tab)).tolist()[-5:]}')
    v = R.value
    if v is not None and v.op == 'Phi' and p is not None:
        sides = [(v.a[1], True), (v.a[2], False)]
        rec = [x for x, _ in sides if contains(x, lambda t: t.op == 'Rec' and t.a[0] == OUT)]
        c.ob('dropping goes on until none is far from the median', bool(rec), 'repeat', show(v, 3))
        for n, keep in ((3, False), (5, True)):
            env = {}
            bind_table(env, p, Rows(lat=[0.] * 5, lon=[0.] * 5), [v.a[0]])
            for x in walk(v.a[0]):
                if x.op == 'Call' and x.a[0] == 'builtins.len' and x.id not in env:
                    env[x.id] = n
                if x.op == 'Fld' and x.a[1] == 'size':
                    env[x.id] = n
                if x.op in ('Call', 'MCall') and str(x.a[0 if x.op == 'Call' else 1]).split('.')[-1] == 'all':
                    env[x.id] = n == 5
                if x.op in ('Call', 'MCall') and str(x.a[0 if x.op == 'Call' else 1]).split('.')[-1] == 'sum':
                    env[x.id] = n
            try:
                side = v.a[1] if ev(v.a[0], env) else v.a[2]
                c.ob('dropping goes on until none is far from the median', (side in rec) != keep, f'{n} of 5 kept', 'stops' if side not in rec else 'goes on for ever')
            except Unknown:
                c.note('when dropping stops is not decided')
        for r in rec:
            for x in walk(r):
                if x.op == 'Rec' and x.a[0] == OUT and p is not None:
                    a0 = x.a[1][0] if x.a[1] else None
                    if a0 is p:
                        c.ob('dropping goes on until none is far from the median', False, 'argument', 'repeated on all fixes')


# ---------------------------------------------------------------- which serial numbers

def judge_files(c, R):
    what = 'every serial number with a GPS file in the folders is looked at'
    adds = [e for e in R.events if (e.kind == 'append' or e.kind == 'mcall' and e.name in ('append', 'add')) and e.args and e.loops
            and any(x.op == 'Index' and x.a[1].op == 'Idx' for x in walk(e.args[0])) and not contains(e.args[0], table)
            and any(x.op == 'MCall' and x.a[1] in ('split', 'partition', 'removesuffix', 'rsplit') or x.op == 'Index' and x.a[1].op == 'Slice' for x in walk(e.args[0]))]
    globs = [e for e in R.events if e.kind == 'call' and e.name in ('glob.glob', 'glob.iglob') and any(x.op == 'Index' and x.a[1].op == 'Idx' for x in walk(e.args[0]))]
    for i, e in enumerate(globs):
        try:
            pat = ev(e.args[0], {x.id: 'D' for x in walk(e.args[0]) if x.op == 'Index' and x.a[1].op == 'Idx'})
        except Unknown:
            c.note('the pattern of GPS files is not decided')
            continue
        got = [n for n in NAMES if fnmatch.fnmatchcase('D/' + n, pat)]
        c.ob(what, {n for n in NAMES if 'gps' in n} == set(got), f'pattern {i}', f'{pat} finds {got}', e.site)
    for e in adds:
        at = [x for x in walk(e.args[0]) if x.op == 'Index' and x.a[1].op == 'Idx']
        outer = [x for x in at if not any(y is not x and contains(y, lambda t: t is x) for y in at)]
        for f, sn in (('/x/058gps_000.txt', '058'), ('/059gps_x/1058gps_002.txt', '1058')):
            try:
                got = ev(e.args[0], {x.id: f for x in outer})
            except Unknown:
                c.note(f'the serial number of a file is not decided: {show(e.args[0], 4)}')
                continue
            c.ob('a GPS file stands for the serial number it starts with', got == sn, f, f'{got}', e.site)
            for inc in (None, ('058', '060'), ('1058',), ()):
                for exc in (None, ('058',), ('060',)):
                    ok = True
                    for g in e.pc:
                        if not any(x.op == 'Param' and x.a[0] in ('include_SN', 'exclude_SN') for x in walk(g)):
                            continue
                        env = {x.id: f for x in walk(g) if x in outer}
                        env.update({x.id: {'include_SN': inc, 'exclude_SN': exc}[x.a[0]] for x in walk(g) if x.op == 'Param' and x.a[0] in ('include_SN', 'exclude_SN')})
                        ok = ok and evs(g, env)
                    if ok is None:
                        c.note('which serial numbers are included is not decided')
                        continue
                    want = (inc is None or sn in inc) and (exc is None or sn not in exc)
                    if inc == ():
                        continue
                    c.ob('serial numbers are taken as asked (include, exclude)', ok == want, f'{sn} include {inc} exclude {exc}', 'taken' if ok else 'left out', e.site)
    c.need('a GPS file stands for the serial number it starts with', 1, 'serial number of each GPS file')


def evs(g, env):
    """Truth of a condition with short-circuit evaluation."""
    if g.op in ('And', 'Or'):
        unk = False
        for x in kids(g):
            r = evs(x, env)
            if r is None:
                unk = True
            elif r == (g.op == 'Or'):
                return r
        return None if unk else g.op == 'And'
    if g.op == 'Not':
        r = evs(g.a[0], env)
        return None if r is None else not r
    try:
        return bool(ev(g, env))
    except Unknown:
        return None


# ---------------------------------------------------------------- rows

def row_of(R):
    """(event, {column: term}) of the row made for one serial number."""
    for e in R.events:
        if e.kind == 'call' and e.name == 'pandas.DataFrame' and e.loops:
            cols = strs((e.kw or {}).get('columns')) if (e.kw or {}).get('columns') is not None else None
            data = e.args[0] if e.args else (e.kw or {}).get('data')
            if data is None:
                continue
            if cols and data.op in ('List', 'Tuple'):
                r = seq(data)
                if r and len(r) == 1 and r[0].op in ('List', 'Tuple') and len(seq(r[0]) or ()) == len(cols):
                    return e, dict(zip(cols, seq(r[0])))
            if data.op in ('List', 'Tuple') and len(seq(data) or ()) == 1 and seq(data)[0].op in ('Dict', 'Upd'):
                data = seq(data)[0]
            if data.op == 'Dict':
                d = {}
                for k, v in data.a:
                    k = k if isinstance(k, str) else cval(k)
                    if v.op in ('List', 'Tuple') and len(seq(v) or ()) == 1:
                        v = seq(v)[0]
                    d[k] = v
                return e, d
    return None, None


FIXES = Rows(lat=[43.5, 43.25, 43.75, 43.5], lon=[-116.0, -116.5, -115.0, -116.25], t=[300.0, 100.0, 200.0, 150.0])
OTHER = Rows(lat=[1.0, 2.0, 4.0, 8.0, 16.0], lon=[3.0, 5.0, 6.0, 7.0, 11.0], t=[1.0, 2.0, 3.0, 5.0, 900.0])


def judge_rows(c, R):
    e, row = row_of(R)
    if e is None:
        c.undecided.append('the row of a serial number is not recognised')
        return
    roots = list(row.values()) + list(e.pc)
    recs = {x.id: x for r in row.values() for x in walk(r) if x.op == 'Rec' and x.a[0] in (OUT, READ)}
    outs = [x for x in recs.values() if x.a[0] == OUT and not any(y is not x and y.op == 'Rec' and y.a[0] == OUT and contains(y, lambda t: t is x) for y in recs.values())]
    reads = [x for x in recs.values() if x.a[0] == READ]
    what = 'positions, errors, times and number are those of the fixes kept'
    if not outs:
        c.ob('fixes far from the median are dropped', False, 'summary', 'all fixes are used', e.site)
        return
    if not reads:
        c.note('the fixes summarised are not those of the reader')
        return
    T, G = outs[0], reads[0]
    la, lo, t = (FIXES.cols[k] for k in ('lat', 'lon', 't'))
    want = dict(lat=la.mean(), lon=lo.mean(), starttime=t.min(), endtime=t.max(), num_samples=4)
    for dd in (0, 1):
        want.setdefault('lat_SE', []).append(la.std(ddof=dd) / math.sqrt(4))
        want.setdefault('lon_SE', []).append(lo.std(ddof=dd) / math.sqrt(4))
    sn = None
    for k in COLS:
        if k not in row:
            c.ob(what, False, k, 'no such column', e.site)
            continue
        if k == 'SN':
            sn = row[k]
            continue
        env = {}
        bind_table(env, T, FIXES, [row[k]])
        for x in recs.values():
            if x is not T:
                bind_table(env, x, OTHER, [row[k]])
        for y in walk(row[k]):
            if y.op == 'Index' and contains(y, lambda z: z is G) and not contains(y, lambda z: z is T) and y.a[0].op == 'Fld' and y.a[0].a[1] in ('iloc', 'loc'):
                bind_table(env, y, OTHER, [row[k]])
        try:
            got = ev(row[k], env)
        except Unknown as u:
            c.note(f'{k} is not decided: {str(u)[:120]}')
            continue
        w = want[k]
        ok = any(isinstance(got, (int, float)) and abs(got - x) < 1e-9 * max(1, abs(x)) for x in (w if isinstance(w, list) else [w]))
        c.ob(what, ok, k, f'{got} for {w}', e.site)
    if sn is not None:
        args = [x for x in reads]
        for g in args:
            c.ob('each row is made of the fixes of its own serial number', len(g.a[1]) > 1 and g.a[1][1] is sn or dict(g.a[2] or ()).get('SN') is sn, 'SN', f'{show(sn, 3)} has the fixes of {show(g.a[1][1], 3) if len(g.a[1]) > 1 else show(g, 3)}', e.site)
            c.ob('each row is made of the fixes of its own serial number', g.a[1] and g.a[1][0].op == 'Param' and g.a[1][0].a[0] == 'gps_dir_pattern' or dict(g.a[2] or ()).get('gps_dir_pattern') is not None, 'folder', show(g, 3), e.site)
    # only serial numbers without fixes are left out
    for g in e.pc:
        if not contains(g, lambda x: x.op == 'Rec' and x.a[0] in (OUT, READ)):
            continue
        for n in (0, 1, 4):
            env = {}
            bind_table(env, T, Rows(lat=[0.0] * n, lon=[0.0] * n, t=[0.0] * n), [g])
            try:
                c.ob('every serial number with a fix left has a row', bool(ev(g, env)) == (n > 0), f'{n}', f'{show(g, 3)}', e.site)
            except Unknown:
                c.note(f'{show(g, 3)} is not decided')
    # the window in time
    src = T.a[1][0] if T.a[1] else None
    judge_window(c, e, src, G)
    v = R.value
    if v is not None:
        for lid in e.loops:
            lp = R.interp.loops[lid]
            for k, nx in lp['next'].items():
                if any(contains(lf, lambda x: x is e.val) for lf in alts(nx)) and nx is not None:
                    cur = [x for x in walk(nx) if x.op == 'Mu' and x.a == (k, lid)]
                    if k in {x.a[0] for x in walk(v) if x.op == 'Mu'}:
                        c.ob('every serial number with a fix left has a row', all(any(contains(lf, lambda t: t is m) for m in cur) for lf in alts(nx)), 'kept', 'the rows of earlier serial numbers are lost', e.site)


def judge_window(c, e, src, G):
    what = 'only fixes between the start and the end given are used'
    if src is None:
        return
    masks = [x for x in walk(src) if x.op in ('And', 'Cmp', 'Bin', 'MCall') and contains(x, lambda t: t.op in ('Fld', 'Index') and t.a[0] is G and (t.a[1] == 't' or getattr(t.a[1], 'op', '') == 'Const' and is_const(t.a[1], 't')))
             and (x.op in ('And', 'Cmp') or x.op == 'MCall' and x.a[1] == 'between' or x.op == 'Bin' and x.a[0] == '&')]
    top = [x for x in masks if not any(y is not x and contains(y, lambda t: t is x) for y in masks)]
    if not top:
        if not masks and not contains(src, lambda t: t.op == 'Phi'):
            c.ob(what, False, 'selection', f'outliers are looked for among all fixes: {show(src, 3)}', e.site)
        return
    t = np.array([0.0, 100.0, 150.0, 200.0, 250.0])
    for m in top:
        for t1 in (None, 100.0):
            for t2 in (None, 200.0):
                env = {}
                for x in walk(m):
                    if x.op in ('Fld', 'Index') and x.a[0] is G and (x.a[1] == 't' or getattr(x.a[1], 'op', '') == 'Const' and is_const(x.a[1], 't')):
                        env[x.id] = t
                    if x.op == 'Param' and x.a[0] in ('t1', 't2'):
                        env[x.id] = t1 if x.a[0] == 't1' else t2
                    if x.op == 'Call' and x.a[0].split('.')[-1] == 'UTCDateTime' and x.a[1] and is_const(x.a[1][0]):
                        v = str(cval(x.a[1][0]))
                        env[x.id] = -math.inf if v[:4] in ('1970', '0', '1900', '0.0') else math.inf if v[:1] == '9' else math.nan
                try:
                    got = ev(m, env)
                except Unknown as u:
                    c.note(f'the window is not decided: {str(u)[:120]}')
                    return
                lo, hi = (-math.inf if t1 is None else t1), (math.inf if t2 is None else t2)
                c.ob(what, isinstance(got, np.ndarray) and bool((np.asarray(got, bool) == ((t >= lo) & (t <= hi))).all()), f'{t1} {t2}', f'keeps {t[np.asarray(got, bool)] if isinstance(got, np.ndarray) else got}', e.site)


# ---------------------------------------------------------------- codes

def judge_station(c, R):
    what = 'each row has the codes and elevation of its serial number'
    sets = [e for e in R.events if e.kind == 'setitem' and len(e.args) > 1 and is_const(e.args[0]) and cval(e.args[0]) in CODES + ('elevation',)]
    withtab = [e for e in sets if not any(x.op == 'Cmp' and x.a[0] in ('is', '==') and is_const(x.a[2], None) and x.a[1].op == 'Param' for x in e.pc)]
    done = set()
    for e in sets:
        k = cval(e.args[0])
        v = e.args[1]
        if v.op == 'OpenList':
            ref = v.a[0]
            adds = [a for a in R.events if a.kind == 'append' and a.recv is not None and (a.recv is ref or a.ref is not None and a.ref is ref)]
            n = {}
            for a in adds:
                handler = any(isinstance(p, tuple) and p[0] == 'h' for _, p in a.tries)
                n[handler] = n.get(handler, 0) + 1
                x = a.args[0]
                f = fixed(x)
                if f is not None:
                    c.ob('rows without an entry in the table have blank codes and elevation -9999', f == (-9999 if k == 'elevation' else ''), k, repr(f), a.site)
                    continue
                for y in spread(x):
                    l = lookup(y)
                    if l is None and handler:
                        c.ob('rows without an entry in the table have blank codes and elevation -9999', False, k, show(y, 3), a.site)
                        continue
                    if l is None:
                        c.note(f'{k}: {show(y, 3)}')
                        continue
                    if not table(l.table):
                        continue
                    c.ob(what, l.col == k, k + ' column', f'{l.col}', a.site)
                    c.ob(what, l.which == 0 and {q for q, _ in l.conds} == {'SN'}, k + ' row', f'row {l.which} with {sorted(q for q, _ in l.conds)}', a.site)
                    for _, w in l.conds:
                        own = w.op == 'Index' and w.a[1].op == 'Idx' and a.loops and w.a[1].a[-1] in a.loops
                        cc = column(w.a[0]) if own else None
                        if own and cc:
                            c.ob(what, cc[1] == 'SN', k + ' serial number', show(w, 3), a.site)
                        elif is_const(w) or w.op == 'Index' and is_const(w.a[1]):
                            c.ob(what, False, k + ' serial number', show(w, 3), a.site)
                done.add(k)
        else:
            f = fixed(v)
            if f is not None and k == 'elevation':
                c.ob('rows without an entry in the table have blank codes and elevation -9999', f == -9999, 'elevation without table', repr(f), e.site)
            elif f is None and v.op not in ('Comp',):
                c.note(f'{k}: {show(v, 3)}')
    if done:
        for k in CODES + ('elevation',):
            c.ob(what, k in done, k + ' set', 'not set', sets[0].site)
