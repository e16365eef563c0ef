"""Raw format versions and the compiled reader."""
from . import rule
from ..terms import mk, Const, is_const, cval, show, walk, contains, T, diff_const, poly
from ..lib import universe, alts, dget, upd_entries, ints, seq, strs, peel, kids
from ..loader import AnalysisBroken

NEW = ('0.85C', '0.9', '0.91', '1.10')
OLD = ('0.8', '0.85')
M12 = ['millis', 'batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag',
       'unusedStack1', 'unusedStackIdle']
M10 = [x for x in M12 if x not in ('A2', 'A3')]
GC = ['msPPS', 'msLag', 'year', 'month', 'day', 'hour', 'minute', 'second', 'lat', 'lon']
READ = 'gemlog.core._read_single'
VERS = 'gemlog.core._read_format_version'


def is_cumsum_of_column(t):
    """x.cumsum() / np.cumsum(x) where x is a column, not a comparison (the rollover counter)."""
    if t.op == 'MCall' and t.a[1] == 'cumsum':
        r = t.a[0]
    elif t.op == 'Call' and t.a[0] in ('numpy.cumsum', 'numpy.add.accumulate') and t.a[1]:
        r = t.a[1][0]
    else:
        return False
    r = peel(r)
    return r.op in ('Fld', 'Index', 'MCall', 'Upd') and not (r.op == 'MCall' and r.a[1] == 'diff')


def column_lists(t):
    """(names, source columns term) of every table in t whose columns are renamed."""
    out = []
    for x in walk(t):
        if x.op == 'Upd':
            for k, v in upd_entries(x):
                if k == 'columns' or (isinstance(k, T) and is_const(k, 'columns')):
                    out.append((strs(v), x.a[0], v))
    return out


def table(t, first):
    """The renamed tables whose first column name is `first`."""
    return [x for x in column_lists(t) if x[0] and x[0][0] == first]


def source_cols(t):
    """Items of the selection df[[...]] that the renaming applies to."""
    t = peel(t)
    if t.op == 'Index':
        return seq(t.a[1])
    return None


@rule('C03')
def c03(c):
    """For each documented raw format version v, analyse the single-file reader with version = v and the whole reading
    function with the file's version line fixed to v (all other inputs symbolic), and decide from the value terms of the
    returned tables: the version is accepted (a normal return exists); ADC is the running sum of the raw column exactly
    for the compact formats (0.85C, 0.9, 0.91, 1.10); the millisecond counter is unwrapped with modulus 8192 for those and
    65536 for 0.8/0.85; the metadata columns are the 10 of version 0.8 or the 12 of the others, in order, taken from the
    same positions; GPS columns likewise; and 8.93 ms is added to the sample times exactly once.  A version that is not
    in the list must be rejected on every path."""
    for v in NEW + OLD:
        R = c.ctx.run(READ, version=Const(v))
        c.ob('version is accepted by the single-file reader', bool(R.returns), v, 'every path raises')
        if not R.returns:
            continue
        c.ob('compact formats, and only they, are read by the compact parser', ('gemlog.parsers.parse_gemfile' in R.interp.fn_entered) == (v in NEW),
             v, '')
        n = 0
        for val in (x for rt in R.returns for x in alts(rt[1])):
            data, meta, gps = dget(val, 'data'), dget(val, 'metadata'), dget(val, 'gps')
            if data is None or meta is None or gps is None:
                c.ob('the reader returns data, metadata and gps', False, v, show(val, 3)[:200])
                continue
            n += 1
            judge_tables(c, v, data, meta, gps)
        if n == 0:
            raise AnalysisBroken(f'{READ}: no returned table for version {v}')
    R = c.ctx.run(READ, version=Const('9.99'))
    c.ob('unknown version is rejected', not R.returns, 'single-file reader', 'a path returns data for version 9.99')
    for q, name in (('gemlog.core.read_gem', 'the folder reader'), ('gemlog.core._convert_one_file', 'single-file conversion')):
        if not c.ctx.has(VERS) or not c.ctx.has(q):
            c.undecided.append(f'{q}: no function reads the version line')
            continue
        if q.endswith('read_gem'):
            R = c.ctx.run(q, call_over={VERS: Const('9.99')})
            c.ob('unknown version is rejected', not R.returns, q, 'a path returns data for version 9.99')
        for v in NEW + OLD:
            R = c.ctx.run(q, call_over={VERS: Const(v)})
            c.ob(f'version is accepted by {name}', bool(R.returns), f'{q} {v}', 'every path raises')
            if not R.returns:
                continue
            U = universe(R)
            M = [strs(v) for x in U if x.op == 'Upd' for k, v in upd_entries(x)
                 if k == 'columns' or (isinstance(k, T) and is_const(k, 'columns'))]
            M = [x for x in M if x and x[0] == 'millis']
            want = M10 if v == '0.8' else M12
            c.ob(f'{name} decodes metadata with its own layout', bool(M) and all(x == want for x in M), f'{q} {v}',
                 f'{M[:2]}')
            big = {abs(cval(x)) for x in U if x.op == 'Const' and isinstance(cval(x), (int, float))}
            new = v in NEW
            c.ob(f'{name} unwraps with its own modulus', (65536 in big) != new and (32768 in big) != new,
                 f'{q} {v}', 'modulus of another version')
            cs = any(is_cumsum_of_column(x) for x in U)
            c.ob(f'{name} integrates the compact formats only', cs == new, f'{q} {v}',
                 'data are ' + ('' if cs else 'not ') + 'integrated')
    c.need('version is accepted by the single-file reader', 6, 'versions')


def judge_tables(c, v, data, meta, gps):
    new = v in NEW
    acc = [x for x in walk(data) if is_cumsum_of_column(x)]
    c.ob('differences are integrated exactly for the compact formats', bool(acc) == new, v,
         'the pressure column is ' + ('' if acc else 'not ') + 'integrated')
    if new and acc:
        c.ob('differences are integrated once', not any(is_cumsum_of_column(y) for a in acc for k in kids(a) for y in walk(k)), v,
             'integrated twice')
    mods = {abs(x) for x in ints(meta) | ints(data)}
    want, other = ({8192, 4096}, {65536, 32768}) if new else ({65536, 32768}, {8192, 4096})
    c.ob('milliseconds are unwrapped with the modulus of the version', want <= mods and not (other & mods), v,
         f'constants {sorted(x for x in mods if x > 1000)}')
    judge_unwrap(c, v, data, 8192 if new else 65536)
    names = M10 if v == '0.8' else M12
    ms = table(meta, 'millis')
    c.ob('metadata has the columns of the version', bool(ms) and all(x[0] == names for x in ms), v,
         f'{[x[0] for x in ms] or [show(x[2], 4) for x in column_lists(meta)][:2]}')
    for nm, src, _ in ms:
        sc = source_cols(src)
        if sc is not None:
            c.ob('metadata columns come from the same positions', [cval(x) for x in sc[1:]] == list(range(2, len(names) + 1)), v,
                 f'{[cval(x) for x in sc]}')
    gs = table(gps, 'msPPS')
    c.ob('gps has its columns', bool(gs) and all(x[0] == GC for x in gs), v, f'{[x[0] for x in gs]}')
    for nm, src, _ in gs:
        sc = source_cols(src)
        if sc is not None:
            c.ob('gps columns come from the same positions', [cval(x) for x in sc[1:]] == list(range(2, len(GC) + 1)), v,
                 f'{[cval(x) for x in sc]}')
    ds = [x for x in column_lists(data) if x[0] and len(x[0]) == 2]
    c.ob('data has the time and the pressure column', bool(ds), v, '')
    for nm, src, _ in ds:
        sc = source_cols(src)
        if sc is not None and len(sc) == 2:
            k = sc[1]
            ks = sorted({cval(x) for x in alts(k)}, key=str)
            c.ob('pressure comes from its column', ks == ([1, 2] if new else [2]), v, f'raw columns {ks}')
            if k.op == 'Phi':
                byt = contains(k.a[0], lambda t: t.op == 'Call' and t.a[0] == 'isinstance') or True
                pos = k.a[1] if k.a[0].op != 'Not' else k.a[2]
                c.ob('pressure column matches the reader', cval(pos) == 2, v, show(k, 5))
    t = data
    for _ in range(30):
        t = peel(t)
        if t.op == 'Upd' and any(k == 'columns' or (isinstance(k, T) and is_const(k, 'columns')) for k, _ in upd_entries(t)):
            break
        if t.op in ('Index', 'Fld'):
            c.ob('the array keeps the time and the pressure column in order', False, v, show(t, 3)[:160])
            break
        if t.op in ('Upd', 'MCall'):
            t = t.a[0]
        elif t.op == 'Call' and t.a[1]:
            t = t.a[1][0]
        else:
            break
    # 8.93 ms correction
    n = 0
    for x in walk(data):
        if x.op == 'Bin' and x.a[0] == '+' and (is_const(x.a[2], 8.93) or is_const(x.a[1], 8.93)):
            rest = x.a[1] if is_const(x.a[2], 8.93) else x.a[2]
            n += 1
            c.ob('time correction is added once', not contains(rest, lambda t: is_const(t, 8.93)), v, 'added twice')
            c.ob('time correction is added to the sample times', is_time_column(rest), v, show(rest, 4)[:200])
    c.ob('sample times get the 8.93 ms correction', n >= 1, v,
         f'not found; offsets {[cval(y) for x in walk(data) if x.op == "Bin" and x.a[0] == "+" for y in x.a[1:] if isinstance(cval(y), float)][:5]}')


def is_time_column(t):
    t = peel(t)
    if t.op == 'Index':
        k = t.a[1]
        return (k.op == 'Tuple' and cval(seq(k)[-1]) == 0) or cval(k) == 'msSamp'
    if t.op == 'Fld':
        return t.a[1] == 'msSamp'
    return False


def jump_count(t):
    """(+1, lo, series) for (series.diff() < lo).cumsum(), (-1, hi, series) for (series.diff() > hi).cumsum(), else None."""
    if t.op == 'MCall' and t.a[1] == 'cumsum':
        t = peel(t.a[0])
    elif t.op == 'Call' and t.a[0] == 'numpy.cumsum' and t.a[1]:
        t = peel(t.a[1][0])
    else:
        return None
    if t.op != 'Cmp' or t.a[0] not in ('<', '<='):
        return None
    a, b = t.a[1], t.a[2]
    if isinstance(cval(b), (int, float)) and a.op == 'MCall' and a.a[1] == 'diff':
        return 1, cval(b), peel(a.a[0])
    if isinstance(cval(a), (int, float)) and b.op == 'MCall' and b.a[1] == 'diff':
        return -1, cval(a), peel(b.a[0])
    return None


def judge_unwrap(c, v, data, M):
    """Times: counter + M * (downward jumps of more than M/2 so far) - M * (upward jumps of more than M/2 so far), each with
    coefficient one; the rest of the sum does not depend on the row (it aligns the first value with the offset)."""
    n = 0
    done = set()
    for x in walk(data):
        if x.op != 'Bin' or x.a[0] != '+' or x.id in done:
            continue
        P, atoms = poly(x)
        J = {i: jump_count(t) for i, t in atoms.items()}
        if not any(J.values()):
            continue
        for y in walk(x):
            if y.op == 'Bin':
                done.add(y.id)
        for sgn in (1, -1):
            js = [(i, j) for i, j in J.items() if j and j[0] == sgn]
            c.ob('counter jumps in both directions are followed', len(js) == 1 and abs(js[0][1][1]) == M / 2 and
                 js[0][1][1] * sgn < 0, f'{v} {"down" if sgn > 0 else "up"}', str([j[1] for _, j in js]))
            if len(js) == 1:
                k = P.get(((js[0][0], 1),))
                c.ob('each jump counts one modulus', k == sgn * M, f'{v} {"down" if sgn > 0 else "up"}', f'coefficient {k}')
                src = js[0][1][2]
                k = [P.get(((i, 1),)) for i, t in atoms.items() if peel(t) is src]
                c.ob('the counter itself is kept', k == [1], v, f'{k}')
        rest = [t for i, t in atoms.items() if not J[i]]
        ok = all(M in ints(t) for t in rest if t.op == 'Bin' and t.a[0] == '%')
        c.ob('alignment to the offset is modulo the same modulus', ok, v, '')
        n += 1
    if not n:
        c.note(f'{v}: unwrapping is not written as a running count of jumps; only its constants are judged')
