"""C25: noise spectra. C29: file databases."""
import os

import numpy as np

from . import rule
from ..evalterm import Obj, Stamp, Unknown, ev
from ..lib import alts, seq, strs
from ..terms import contains, cval, is_const, show, walk
from .summary import evs, row_of

AUX = 'gemlog.gemlog_aux.'
GEM, IMS, DB, STATS = AUX + 'gem_noise', AUX + 'ims_noise', AUX + 'make_db', AUX + 'calc_channel_stats'
UNITS = {'power': ('Pa^2/Hz', 'Pa^2'), 'amp': ('Pa/sqrt(Hz)', 'Pa'), 'db': ('dB Pa/sqrt(Hz)', 'dB Pa')}


class Curve:
    """Stand-in for an interpolating function: exact at the points given, linear between."""

    def __init__(self, x, y, *a, **k):
        self.x, self.y = np.asarray(x, float), np.asarray(y, float)

    def __call__(self, f, *a, **k):
        return np.interp(f, self.x, self.y, np.nan, np.nan)

    def integrate(self, a, b):
        return quad(self, a, b)[0]


def quad(f, a, b, *r, **k):
    if a is None or b is None:
        return (float('-inf'), 0.0)         # refused by the real function
    x = np.linspace(a, b, 201)
    y = f(x)
    return (float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x))), 0.0)


def shipped(repo):
    """Stand-in for reading a table shipped with the package."""
    import pandas as pd

    def read(path, *a, **kw):
        path = str(path)
        if 'PKG/' not in path:
            raise Unknown(path)
        d = pd.read_csv(os.path.join(repo, 'gemlog', path.split('PKG/', 1)[1].lstrip('/')), *a, **kw)
        return Obj(**{str(k): d[k].to_numpy() for k in d})
    return read


def calls(repo):
    interp = {k: Curve for k in ('scipy.interpolate.CubicSpline', 'scipy.interpolate.PchipInterpolator', 'scipy.interpolate.interp1d', 'scipy.interpolate.Akima1DInterpolator', 'scipy.interpolate.make_interp_spline')}
    return {'pandas.read_csv': shipped(repo), 'pandas.read_table': shipped(repo), 'scipy.integrate.quad': quad, 'numpy.genfromtxt': None,
            'os.path.dirname': lambda p: 'PKG', 'os.path.abspath': lambda p: p, 'numpy.interp': np.interp, 'numpy.log10': np.log10, 'numpy.sqrt': np.sqrt,
            'numpy.log': np.log, 'numpy.exp': np.exp, 'numpy.power': np.power, 'numpy.square': np.square, 'numpy.asarray': np.asarray, 'numpy.array': np.array, **interp}


def bindings(terms, kw, repo):
    env = {'calls': {k: v for k, v in calls(repo).items() if v}}
    for r in terms:
        for x in walk(r):
            if x.op == 'Param' and x.a[0] in kw:
                env[x.id] = kw[x.a[0]]
            elif x.op == 'Ext' and x.a[0].endswith('__file__'):
                env[x.id] = 'PKG/x.py'
    return env


def refused(R, kw, repo, names):
    """Whether a call with these arguments ends in an exception raised by the program."""
    out = False
    for e in R.events:
        if e.kind != 'raise':
            continue
        try:
            if all(ev(p, bindings([p], kw, repo)) for p in e.pc):
                return True
        except Unknown:
            out = None
    return out


@rule('C25')
def c25(c):
    """The dictionary returned is evaluated for every model name, spectrum type, band and choice of frequencies, with the shipped tables as they are and a linear
    stand-in for the interpolation; the conditions of every exception are evaluated for valid and invalid names."""
    repo = c.ctx.project.repo
    import pandas as pd
    path = os.path.join(repo, 'gemlog', 'data', 'noise')
    try:
        g = pd.read_csv(os.path.join(path, 'Gem_v0.98_Noise_spec.txt'))
        m = pd.read_csv(os.path.join(path, 'IMSNOISE_MIN_MED_MAX.txt'), names=['f', 'min', 'med', 'max'], sep=r'\s+')
    except Exception as x:
        c.undecided.append(f'the shipped noise tables are not readable: {x}')
        return
    if c.ctx.has(GEM):
        R = c.ctx.run(GEM)
        judge(c, R, 'the Gem noise', [dict(version=v) for v in ('1.0', '0.98', '0.97', '1.1')], lambda kw: (g['f'].to_numpy(), g['amp'].to_numpy() ** 2), repo)
        refusals(c, R, 'the Gem noise', [(dict(version=v), v in ('1.0', '0.98', '0.97', '2.0')) for v in ('1.0', '0.98', '0.97', '2.0', '0.96', '0.8', '0.5')], repo)
    else:
        c.note('no Gem noise')
    if c.ctx.has(IMS):
        R = c.ctx.run(IMS)
        col = {'low': 'min', 'min': 'min', 'med': 'med', 'medium': 'med', 'high': 'max', 'hi': 'max', 'max': 'max'}
        names = [n for n in ('low', 'min', 'med', 'medium', 'high', 'hi', 'max', 'LOW', 'Medium', 'High')]
        judge(c, R, 'the IMS noise', [dict(model=n) for n in names], lambda kw: (m['f'].to_numpy(), 10 ** m[col[kw['model'].lower()]].to_numpy()), repo)
        refusals(c, R, 'the IMS noise', [(dict(model=n), n.lower() in col) for n in names + ['', 'lower', 'none', 'mean', 'h', 'lo w']], repo)
    else:
        c.note('no IMS noise')
    c.need('spectra are those of the model asked for, in the scale asked for', 20, 'the spectrum of each noise model')


def refusals(c, R, what, cases, repo):
    for kw, ok in cases:
        for st, sok in (('power', True), ('amp', True), ('amplitude', True), ('dB', True), ('Power', True), ('DB', True), ('', False), ('psd', False), ('decibel', False), ('d', False)):
            full = dict(kw, spectype=st, freq=None, freq_min=None, freq_max=50)
            r = refused(R, full, repo, ())
            if r is None:
                c.note(f'{what}: refusal of {kw} {st} is not decided')
                continue
            c.ob('models and types that exist are accepted, others refused', r == (not (ok and sok)), f'{what} {kw} {st}', 'refused' if r else 'accepted')


def judge(c, R, what, cases, truth, repo):
    v = R.value
    if v is None:
        c.note(f'{what}: nothing is returned')
        return
    freqs = (None, np.array([0.5, 1.0, 2.0]), np.array([0.1]))
    for kw in cases:
        f, p = truth(kw)
        for st in ('power', 'amp', 'amplitude', 'dB', 'POWER', 'Amp', 'db'):
            kind = st.lower()[:3] if st.lower().startswith('amp') else st.lower()
            for fr in freqs:
                for lo, hi in ((None, 50), (0.1, 20.0), (0.5, 4.0), (2.0, 7.5), (1.0, 28.0), (0.1, None), (None, None)):
                    if (lo, hi) != (None, 50) and fr is not None and len(fr) == 1:
                        continue
                    full = dict(kw, spectype=st, freq=fr, freq_min=lo, freq_max=hi)
                    key = f'{what} {sorted(kw.values())} {st} {"" if fr is None else fr.tolist()} {lo} {hi}'
                    try:
                        got = ev(v, bindings([v], full, repo))
                    except Unknown as u:
                        c.note(f'{what} is not decided: {str(u)[:150]}')
                        return
                    if not isinstance(got, dict):
                        c.note(f'{what} is not a dictionary')
                        return
                    ff = f if fr is None else fr
                    pw = Curve(f, p)(ff)
                    nz = quad(Curve(f, p), lo, hi)[0] if lo is not None and hi is not None else np.nan
                    with np.errstate(all='ignore'):
                        sp, ns = (pw, nz) if kind == 'power' else (np.sqrt(pw), np.sqrt(nz)) if kind == 'amp' else (10 * np.log10(pw), 10 * np.log10(nz))
                    miss = [k for k in ('freqs', 'spectrum', 'type', 'spectrum_units', 'freq_min', 'freq_max', 'noise', 'noise_units') if k not in got]
                    c.ob('everything documented is returned', not miss, f'{what}', f'no {miss}')
                    if miss:
                        return
                    c.ob('spectra are at the frequencies given, or else those of the model', same(got['freqs'], ff), key, f'{np.shape(got["freqs"])} frequencies')
                    c.ob('spectra are those of the model asked for, in the scale asked for', same(got['spectrum'], sp), key, f'{np.ravel(got["spectrum"])[:3]} instead of {np.ravel(sp)[:3]}')
                    c.ob('noise is the power within the band, in the scale of the spectrum', same(got['noise'], ns), key, f'{got["noise"]} instead of {ns}')
                    c.ob('units are those of the scale', (got['spectrum_units'], got['noise_units']) == UNITS[kind], key, f'{got["spectrum_units"]}, {got["noise_units"]}')
                    c.ob('type and limits are returned as given', got['type'] == st and got['freq_min'] == lo and got['freq_max'] == hi, key, f'{got["type"]} {got["freq_min"]} {got["freq_max"]}')


def same(a, b):
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-4, atol=0, equal_nan=True))
    except Exception:
        return False


# ---------------------------------------------------------------- file databases

class Sample(Obj):
    """A trace; its own arrays are numpy, its methods give recognisable numbers."""

    def std(self, *a, **k):
        return 'STD'

    def copy(self):
        return self

    def max(self):
        return 'MAX'


def rows_made(R):
    """[(event, {column: term})] of tables of one row made in a loop, and of rows collected in a list that becomes a table."""
    out = []
    e, d = row_of(R)
    if e is not None:
        out.append((e, d))
    for e in R.events:
        if e.kind == 'call' and e.name in ('pandas.DataFrame', 'pandas.DataFrame.from_records') and not out:
            data = e.args[0] if e.args else (e.kw or {}).get('data')
            cols = strs((e.kw or {}).get('columns')) if (e.kw or {}).get('columns') is not None else None
            refs = {x.id for x in walk(data) if x.op == 'Ref'} if data is not None else set()
            for a in R.events:
                if a.kind == 'append' and a.loops and a.recv is not None and any(x.id in refs for x in walk(a.recv)):
                    r = a.args[0]
                    s = seq(r) if r.op in ('List', 'Tuple') else None
                    if s is not None and cols and len(s) == len(cols):
                        out.append((a, dict(zip(cols, s))))
                    elif r.op == 'Dict':
                        out.append((a, {k if isinstance(k, str) else cval(k): v for k, v in r.a}))
    return out


def deep_base(t):
    """The object a chain of attributes and methods starts from; copies are objects of their own."""
    while t.op == 'Fld' or t.op in ('Upd', 'Eff') or t.op == 'MCall' and t.a[1] in ('detrend', 'filter', 'astype', 'max', 'min', 'std'):
        t = t.a[0]
    return t


@rule('C29')
def c29(c):
    """Each column of a row is evaluated for a sample trace; whether it is taken before or after the processing follows from the order of effects on the same trace. The
    selection of files, the fractions and quartiles are evaluated on sample tables."""
    if c.ctx.has(DB):
        judge_db(c, c.ctx.run(DB))
    else:
        c.note('no file database')
    if c.ctx.has(STATS):
        judge_stats(c, c.ctx.run(STATS))
    else:
        c.note('no channel statistics')


def judge_db(c, R):
    rows = rows_made(R)
    reads = [e for e in R.events if e.kind == 'call' and e.name in ('obspy.read', 'obspy.core.read')]
    if not rows or not reads:
        c.undecided.append('the row of a file is not recognised')
        return
    e, row = rows[0]
    rd = [t for v in row.values() for t in walk(v) if t.op == 'Call' and t.a[0] in ('obspy.read', 'obspy.core.read')]
    if not rd:
        c.note('the row is not made of the file read')
        return
    rd = rd[0]
    first = Sample(id='XX.058.07.HDF', npts=3, stats=Obj(station='058', location='07', network='XX', channel='HDF', starttime=Stamp(2020, 1, 2, 3, 4, 5), endtime=Stamp(2020, 1, 2, 4, 4, 5)), data=np.array([3.0, -7.0, 5.0]))
    other = Sample(id='YY.059.08.HDF', npts=2, stats=Obj(station='059', location='08', network='YY', channel='BDF', starttime=Stamp(2021, 1, 2), endtime=Stamp(2021, 1, 3)), data=np.array([30.0, -70.0]))
    want = dict(filename='D/f', station='058', location='07', amp_HP='STD', max=5.0, min=-7.0, t1=first.stats.starttime, t2=first.stats.endtime)
    what = 'a row describes its own file'
    num = {'numpy.max': np.max, 'numpy.min': np.min, 'numpy.amax': np.max, 'numpy.amin': np.min, 'numpy.std': lambda x, **k: 'STD' if isinstance(x, Sample) or isinstance(x, np.ndarray) and not k.get('ddof') else 'STD1'}
    for k, w in want.items():
        if k not in row:
            c.ob(what, False, k, f'no column {k}', e.site)
            continue
        env = {'calls': num, rd.id: (first, other), 'loops': R.interp.loops, rd.a[1][0].id: 'D/f', **{x.id: {'path': 'P/q', 'pattern': '*.m'}[x.a[0]] for x in walk(row[k]) if x.op == 'Param' and x.a[0] in ('path', 'pattern')}}
        for x in walk(row[k]):
            if x.op == 'MCall' and x.a[1] == 'std' and x.id not in env:
                b = [y for y in walk(x.a[0]) if y is rd]
                if b:
                    env[x.id] = 'STD' if not any(is_const(v, 1) for kk, v in (x.a[3] or ()) if kk == 'ddof') else 'STD1'
                    try:
                        if ev(deep_base(x.a[0]), env) is not first:
                            env[x.id] = 'STD2'
                    except Unknown:
                        pass
        try:
            got = ev(row[k], env)
        except Unknown as u:
            c.note(f'{k} of a row is not decided: {str(u)[:120]}')
            continue
        c.ob(what, got == w, k, f'{got}, not {w}', e.site)
    # order of processing
    lp = e.loops[0] if e.loops else None
    inpl = [x for x in R.events if x.kind == 'mcall' and x.name in ('detrend', 'filter', 'taper', 'resample', 'decimate', 'normalize', 'trim', 'interpolate', 'differentiate', 'integrate') and x.loops[:1] == (lp,) and x.recv is not None and contains(x.recv, lambda t: t is rd)]
    for k in ('max', 'min'):
        if k not in row:
            continue
        src = deep_base(row[k]) if row[k].op != 'Call' else deep_base(row[k].a[1][0])
        at = [x.order for x in R.events if x.kind in ('mcall', 'call') and (x.val is row[k])]
        if at:
            bad = [x for x in inpl if x.order < min(at) and deep_base(x.recv) is src]
            c.ob('largest and smallest sample are those before any processing', not bad, k, f'after {bad[0].name}' if bad else '', e.site)
    if 'amp_HP' in row:
        v = row['amp_HP']
        srct = v.a[0] if v.op == 'MCall' else v.a[1][0] if v.op == 'Call' and v.a[1] else v
        src = deep_base(srct)
        at = [x.order for x in R.events if x.kind in ('mcall', 'call') and x.val is v] or [e.order]
        done = [x for x in inpl if x.order < min(at) and deep_base(x.recv) is src]
        names = [x.name for x in done]
        c.ob('amplitudes are those above 0.5 Hz', 'filter' in names, 'filter', f'processing: {names}', e.site)
        for x in done:
            if x.name == 'filter':
                fr = (x.kw or {}).get('freq', x.args[1] if len(x.args) > 1 else None)
                kind = x.args[0] if x.args else (x.kw or {}).get('type')
                c.ob('amplitudes are those above 0.5 Hz', kind is not None and is_const(kind, 'highpass') and fr is not None and is_const(fr, 0.5), 'corner', f'{show(kind)} {show(fr) if fr is not None else ""}', x.site)
        c.ob('amplitudes are those above 0.5 Hz', 'detrend' in names and names.index('detrend') < names.index('filter') if 'filter' in names else True, 'detrend', f'processing: {names}', e.site)
    # files
    what = 'every file matching the pattern that can be read has a row, in order of name'
    globs = [x for x in R.events if x.kind == 'call' and x.name in ('glob.glob', 'glob.iglob')]
    for g in globs:
        try:
            env = {x.id: {'path': 'P/q', 'pattern': '*.m'}.get(x.a[0]) for x in walk(g.args[0]) if x.op == 'Param'}
            c.ob(what, ev(g.args[0], env) == 'P/q/*.m', 'pattern', f'{ev(g.args[0], env)}', g.site)
        except Unknown:
            c.note('the pattern of files is not decided')
    it = R.interp.loops[lp]['iter'] if lp is not None else None
    if it is not None:
        c.ob(what, not any(x.op == 'Index' and x.a[1].op == 'Slice' for x in walk(it)), 'slice', show(it, 3), e.site)
        srt = contains(it, lambda t: t.op == 'Call' and t.a[0] == 'builtins.sorted') or any(x.kind == 'mcall' and x.name == 'sort' and x.recv is not None and any(y in list(walk(it)) for y in walk(x.recv) if y.op == 'Call' and y.a[0] == 'glob.glob') and not x.loops for x in R.events)
        rev = any(x.kind == 'mcall' and x.name == 'sort' and is_const((x.kw or {}).get('reverse'), True) for x in R.events) or contains(it, lambda t: t.op == 'Call' and t.a[0] == 'builtins.sorted' and ('reverse', True) in [(k, cval(v)) for k, v in t.a[2] or ()])
        c.ob(what, srt and not rev, 'order', 'the files are in no given order' if not srt else 'in reverse', e.site)
        keys = [dict(x.kw or {}).get('key') for x in R.events if x.kind == 'mcall' and x.name == 'sort'] + [dict(y.a[2] or ()).get('key') for y in walk(it) if y.op == 'Call' and y.a[0] == 'builtins.sorted']
        for k in keys:
            if k is not None and show(k).split('.')[-1] in ('len', 'getmtime', 'getctime', 'getsize', 'getatime'):
                c.ob(what, False, 'sort key', f'the files are in order of {show(k)}', e.site)
        brk = R.interp.loops[lp].get('has_break')
        c.ob(what, not brk, 'break', 'the loop can end early', e.site)
    guard = [p for p in e.pc if not contains(p, lambda t: t.op == 'Exc')]
    for p in guard:
        c.ob(what, False, f'condition {show(p, 3)}'[:80], 'rows are left out', e.site) if any(x.op in ('Idx', 'Mu') for x in walk(p)) and contains(p, lambda t: t is rd) else c.note(f'a row is made only if {show(p, 3)}')
    tb = [x for x in R.events if x.kind == 'try-begin' and x.order < reads[0].order and x.loops]
    c.ob('a file that cannot be read does not stop the rest', bool(tb) and not [x for x in R.events if x.kind == 'raise' and x.loops], 'try', 'reading is not guarded', reads[0].site)
    # all rows together, saved as asked
    v = R.value
    if v is not None:
        for lf in alts(v):
            if lf.op == 'Call' and lf.a[0] == 'pandas.concat':
                a = lf.a[1][0]
                c.ob('the table holds every row', not any(x.op == 'Index' for x in [a]), 'concat', show(a, 3))
            elif lf.op == 'Index' and lf.a[1].op == 'Slice':
                c.ob('the table holds every row', False, 'slice', show(lf, 3))
    sv = [x for x in R.events if x.kind == 'mcall' and x.name == 'to_csv']
    if not sv:
        c.note('how the table is saved is not recognised')
    for x in sv:
        for val, ok, there in ((None, False, False), ('f.csv', True, False), ('f.csv', True, True)):
            try:
                got = all(ev(p, {y.id: val if y.op == 'Param' else there for y in walk(p) if y.op == 'Param' and y.a[0] == 'savefile' or y.op == 'Call' and y.a[0] in ('os.path.exists', 'os.path.isfile', 'os.path.lexists')}) for p in x.pc if not contains(p, lambda t: t.op == 'Exc'))
            except Unknown:
                c.note('when the table is saved is not decided')
                continue
            c.ob('the table is saved if asked', got == ok, str(val) + (', file present' if there else ''), 'saved' if got else 'not saved', x.site)
        c.ob('the table is saved if asked', bool(x.args) and x.args[0].op == 'Param' and x.args[0].a[0] == 'savefile', 'name', show(x.args[0]) if x.args else '', x.site)
        c.ob('the table is saved if asked', not x.loops, 'whole', 'saved within the loop', x.site)


H = 3600.0
T1, T2 = 1000.0, 1000.0 + 10 * H
TABLE = dict(station=np.array(['a', 'a', 'a', 'b', 'a', 'c', 'b', 'a', 'a', 'b', 'a', 'a', 'b', 'a', 'd', 'e', 'e']),
             amp_HP=np.array([1.0, 0.4, 3e4, 2.0, 5.0, 7.0, 0.0, 9.0, 11.0, 0.6, 100.0, 19999.0, 6.0, 20001.0, 8.0, 0.5, 2e4]),
             t1=np.array([T1 + 10, T1 + 20, T1 + 30, T1 + 40, T1 + 50, T1 - 50, T1 + 60, T1 - 1, T1 + 9 * H + 100, T1 + 70, T1 + 80, T1 + 90, T1 + 99, T1 + 7, T1 + 1, T1 + 2, T1 + 3]))
TABLE['t2'] = TABLE['t1'] + np.array([H, H, H, H - 1.5, H - 2.5, H, H, H, H, H + 1.5, H + 2.5, H + 1, H * 0.5, H, H - 1.9, H, H])


def judge_stats(c, R):
    rows = rows_made(R)
    if not rows:
        c.undecided.append('the row of a station is not recognised')
        return
    e, row = rows[0]
    names = ('a', 'b', 'c', 'd', 'e')
    p = [x for v in row.values() for x in walk(v) if x.op == 'Param' and x.a[0] == 'DB']
    if not p:
        c.note('the statistics are not made of the table given')
        return
    p = p[0]
    roots = list(row.values()) + list(e.pc)
    lp = R.interp.loops[e.loops[0]] if e.loops else None
    what = 'statistics of a station are those of its own files within the period'
    if lp is not None and lp['iter'] is not None:
        roots.append(lp['iter'])
    def env_for(i):
        env = {'calls': {'obspy.UTCDateTime': lambda x: x, 'numpy.quantile': lambda x, q, **k: float(np.quantile(x, q)), 'numpy.percentile': lambda x, q, **k: float(np.percentile(x, q)),
                         'numpy.median': lambda x: float(np.median(x)), 'numpy.unique': lambda x: np.array(names)}}
        for r in roots:
            for x in walk(r):
                if x.op == 'Param' and x.a[0] in ('t1', 't2'):
                    env[x.id] = T1 if x.a[0] == 't1' else T2
                elif x.op == 'MCall' and x.a[1] == 'apply' and x.a[2] and x.a[2][0].op == 'Ext' and 'UTCDateTime' in x.a[2][0].a[0] and x.a[0].op in ('Fld', 'Index'):
                    k = x.a[0].a[1] if x.a[0].op == 'Fld' else cval(x.a[0].a[1])
                    if k in TABLE:
                        env[x.id] = TABLE[k]
                elif x.op == 'MCall' and x.a[1] == 'unique':
                    env[x.id] = np.array(names)
                elif x.op == 'MCall' and x.a[1] == 'quantile':
                    try:
                        env[x.id] = float(np.quantile(ev(x.a[0], env), ev(x.a[2][0], env)))
                    except (Unknown, IndexError):
                        pass
                elif x.op == 'Idx' and e.loops and x.a[0] == e.loops[0]:
                    env[x.id] = i
                elif x.op in ('Fld', 'Index') and base_table(x.a[0]) is p:
                    k = x.a[1] if x.op == 'Fld' else cval(x.a[1]) if is_const(x.a[1]) else None
                    if k in TABLE:
                        env[x.id] = TABLE[k]
        return env

    if lp is not None and lp.get('has_break'):
        c.ob('stations without files in the period are left out, others are not', False, 'break', 'the loop over the stations can end early', e.site)
    for i, s in enumerate(names):
        w = (TABLE['station'] == s) & (TABLE['t1'] > T1) & (TABLE['t2'] < T2)
        env = env_for(i)
        made = True
        for g in e.pc:
            r = evs(g, env)
            if r is None:
                c.note(f'when a station is left out is not decided: {show(g, 3)}')
                made = None
                break
            made = made and r
        if made is None:
            break
        c.ob('stations without files in the period are left out, others are not', made == bool(w.any()), s, 'left out' if not made else 'kept', e.site)
        if not made or not w.any():
            continue
        a, d = TABLE['amp_HP'][w], (TABLE['t2'] - TABLE['t1'])[w]
        want = dict(station=s, goodData=float(((a > 0.5) & (a < 2e4) & (d > H - 2) & (d < H + 2)).sum() / 10), anyData=float((a > 0).sum() / 10), q1=float(np.quantile(a, 0.25)), q3=float(np.quantile(a, 0.75)))
        for k, v in want.items():
            if k not in row:
                c.ob(what, False, k, f'no column {k}', e.site)
                continue
            try:
                got = ev(row[k], env)
            except Unknown as u:
                c.note(f'{k} is not decided: {str(u)[:120]}')
                continue
            c.ob(what, got == v if isinstance(v, str) else isinstance(got, (int, float, np.generic)) and abs(got - v) < 1e-9, f'{k} {s}', f'{got}, not {v}', e.site)
    # rows are collected in a list, or joined to a table
    for x in R.events:
        if x.kind == 'call' and x.name == 'pandas.concat' and x.args:
            items = seq(x.args[0]) if x.args[0].op in ('List', 'Tuple') else None
            for y in items or ():
                if y.op == 'Mu' and lp is not None and y.a[1] == e.loops[0]:
                    ini = lp['init'].get(y.a[0])
                    c.ob('the rows of all stations are put together', not (ini is not None and (ini.op in ('List', 'Tuple', 'OpenList', 'Ref') or is_const(ini))), 'list', 'a table is joined to an empty list, which fails', x.site)
            if x.args[0].op == 'Mu':
                nx = R.interp.loops[x.args[0].a[1]]['next'].get(x.args[0].a[0])
                if nx is not None:
                    tables = [lf for lf in alts(nx) if lf.op == 'Call' and lf.a[0] in ('pandas.concat', 'pandas.DataFrame')]
                    c.ob('the rows of all stations are put together', not tables, 'concat', 'a single table is joined, which fails', x.site)


def base_table(t):
    while t.op in ('Upd', 'Eff') or t.op == 'MCall' and t.a[1] == 'copy':
        t = t.a[0]
    return t
