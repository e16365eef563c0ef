"""C31: readers other than the compiled one."""
import ast
import io

import numpy as np
import pandas as pd

from . import rule
from ..evalterm import Unknown, ev
from ..libeval import Run, class_names
from ..terms import Const, contains, walk

READ = 'gemlog.core._read_single'
PARSE = 'gemlog.parsers.parse_gemfile'
HEAD = {'0.9': ['#GemCSV0.9', '#DmsSamp,ADC', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon', '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,fr', 'S,123', '#Firmware0.962', 'C,1,15,20,0,0,0'],
        '0.8': ['#GemCSV0.8', '#ADC', '#G', '#M', 'S,023', '#Firmware0.8']}
G1 = 'G,{ms},50.5,2020,4,2,1,2,3,43.5,-116.5'
GPS = [50.5, 2020., 4., 2., 1., 2., 3., 43.5, -116.5]
M12 = [3.1, 20.5, 1.25, 1.5, 12., 70., 8., 0., 1., 100., 200.]
M10 = [3.1, 20.5, 12., 70., 8., 0., 1., 100., 200.]


def num(xs):
    return ','.join(str(int(x)) if x == int(x) else str(x) for x in xs)


def lines(old):
    """(text, what becomes of it): (type, counter, fields) or None."""
    ms = M10 if old else M12
    D = (lambda t, v: f'D,{t},{v}') if old else (lambda t, v: f'D{t},{v}')
    out = [(D(8170, 5), ('D', 8170, [5.])),
           (D(8180, -3), ('D', 8180, [-3.])),
           ('M,8183,' + num(ms), ('M', 8183, ms)),
           (G1.format(ms=8185), ('G', 8185, GPS)),
           ('P,1585789323', None) if not old else ('P,1', None),
           ('R,2,0,1,2', None),
           (D(2, 0), ('D', 2, [0.])),
           ('G,4,60,2020,4,2,1,2,4,43.5,-116.5', ('G', 4, [60., 2020., 4., 2., 1., 2., 4., 43.5, -116.5])),
           ('M,7,' + num(ms), ('M', 7, ms)),
           (D(12, 12345), ('D', 12, [12345.]))]
    return out


def text_readers(c, version):
    """Readers of the given format, in the order in which they are tried, that do not use the compiled parser."""
    R = c.ctx.run(READ, version=Const(version))
    fs = dict(c.ctx.functions())
    seen = []
    for e in R.events:
        if e.kind == 'enter' and e.name in fs and e.name not in seen:
            seen.append(e.name)
    short = {}
    for q in fs:
        short.setdefault(q.rsplit('.', 1)[1], q)
    names = {q: {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(fs[q]) if isinstance(n, (ast.Name, ast.Attribute))} for q in fs}
    calls = {q: {short[x] for x in names[q] if x in short and short[x] != q} for q in fs}

    def reach(q):
        todo, got = [q], set()
        while todo:
            x = todo.pop()
            if x not in got:
                got.add(x)
                todo += calls[x]
        return got
    opens = {q for q in fs if names[q] & {'read_csv', 'read_table', 'reader', 'read_fwf'}}
    out = [q for q in seen if reach(q) & opens and PARSE not in reach(q) and any('gps' in a.arg.lower() for a in fs[q].args.args)]
    out = [q for q in out if len(calls[q] & set(out)) < 2]             # not those that choose among them
    out = [q for q in out if not any(q in reach(r) for r in out if r != q)]
    return out, seen


def read_csv(text):
    def f(path, *a, **kw):
        return pd.read_csv(io.StringIO(text), *a, **kw)
    return f


def run(c, q, text, need, calls=None):
    R = c.ctx.run(q, no_inline=tuple(calls or ()))
    fn = dict(c.ctx.functions())[q]
    names = [a.arg for a in fn.args.args]
    terms = [rt[1] for rt in R.returns] + [p for rt in R.returns for p in rt[0]] + [p for e in R.events for p in e.pc] + [e.val for e in R.events if hasattr(e.val, 'op')]
    P = {x.a[0]: x for t in terms for x in walk(t) if x.op == 'Param'}
    env = {'calls': {'pandas.read_csv': read_csv(text), **(calls or {})}}
    for n in names:
        if n in P:
            env[P[n].id] = need if 'gps' in n.lower() else 'FILE0000.123'
    r = Run(R, env, class_names(c))
    kind, val = r.outcome()
    return (kind, val) if kind == 'raise' else (kind, ev(val, r.env))


def rows_of(df, old):
    """(type, counter, fields) of each row of a reader's table."""
    out = []
    for i in range(len(df)):
        t = df['linetype'].iloc[i]
        t = t.decode() if isinstance(t, bytes) else t
        n = {'D': 1, 'M': 9 if old else 11, 'G': 9}.get(t, 0)
        first = (2 if old else 1) if t == 'D' else 2
        vals = []
        for k in range(first, first + n):
            vals.append(float(df[k].iloc[i]))
        out.append((t, int(df['millis-sawtooth'].iloc[i]), vals))
    return out


@rule('C31')
def c31(c):
    """The readers of raw text that the single-file reader falls back to (or uses for the old formats) are found by analysing it per format.  The table each returns is
    folded from its terms for a sample text with every kind of line, and compared row by row with what the lines say (type, counter, fields by position); so are the conditions of its
    refusals for texts without content, without GPS and with lines of the compact kind, which these readers cannot decode."""
    if not c.ctx.has(READ):
        c.undecided.append('no single-file reader')
        return
    for version in ('0.8', '0.9'):
        n = 0
        for need in (True, False):
            R = c.ctx.run(READ, version=Const(version), require_gps=Const(need))
            for e in R.events:
                if e.kind == 'raise' and e.name:
                    gps = 'GPS' in e.name or any(contains(p, lambda x: x.op == 'Fld' and x.a[1] in ('lat', 'lon', 'msPPS')) and
                                                 any(x.op == 'Const' and x.a[0] == 0 for x in walk(p)) for p in e.pc[-1:])
                    n += gps and need
                    if gps and not need:
                        c.ob('a file without GPS is refused only if GPS is required', False, f'{version} {e.func}', f'{e.name.split(".")[-1]} is raised though GPS is not required', e.site)
        c.ob('a file without GPS is refused only if GPS is required', n > 0, f'{version}: required', 'nothing refuses a file for lack of GPS')
    done = set()
    for version in ('0.8', '0.85', '0.85C', '0.9', '0.91', '1.10'):
        old = version in ('0.8', '0.85')
        readers, seen = text_readers(c, version)
        if old:
            c.ob('the old formats have a reader', bool(readers), version, f'{seen[:6]}')
        if PARSE in seen and PARSE not in done:
            done.add(PARSE)
            compiled(c, version, seen[:seen.index(PARSE)])
        for q in readers:
            if (q, old, version == '1.10') in done:
                continue
            done.add((q, old, version == '1.10'))
            judge(c, q, old, version)
    c.need('each complete line becomes one row with its own values', 2, 'readers')


def head(old):
    return HEAD['0.8' if old else '0.9']


def attempt(c, q, text, need, key, calls=None):
    try:
        return run(c, q, text, need, calls)
    except (Unknown, RecursionError) as u:
        c.note(f'{q}, {key}: not decided: {str(u)[:200]}')
    return None, None


def compiled(c, version, seen):
    """The function that calls the compiled parser: what it makes of a table with GPS lines, without them and without rows."""
    fs = dict(c.ctx.functions())
    qs = [q for q in seen if q in fs and any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and
                                             (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) == PARSE.split('.')[-1] for n in ast.walk(fs[q]))]
    for q in qs[:1]:
        short = q.split('.')[-1]
        full = [(x, y) for x, y in ((l[0], l[1]) for l in lines(False)) if y]

        def table(ls):
            v = np.full((len(ls), 11), np.nan)
            for i, (_, (t, ms, f)) in enumerate(ls):
                v[i, :len(f)] = f
            return v, np.array([w[0].encode() for _, w in ls], dtype='S1'), np.array([w[1] for _, w in ls], dtype=int)
        for nm, ls in (('with GPS', full), ('without GPS', [x for x in full if x[1][0] != 'G']), ('without rows', [])):
            for need in (True, False):
                kind, v = attempt(c, q, '', need, nm, {PARSE: lambda *a, ls=ls, **k: table(ls)})
                key = f'{short}: {nm}, GPS {"" if need else "not "}required'
                if not kind:
                    continue
                if nm == 'without rows':
                    c.ob('a file without content is told from a corrupt one', kind == 'raise' and v == 'EmptyRawFile', key, str(v)[:80])
                elif nm == 'without GPS' and need:
                    c.ob('a file without GPS is refused only if GPS is required', kind == 'raise' and v == 'CorruptRawFileNoGPS', key, str(v)[:80])
                else:
                    c.ob('a file without GPS is refused only if GPS is required' if nm != 'with GPS' else 'a file with all kinds of lines is accepted', kind == 'return', key, str(v)[:80])
                    if kind == 'return':
                        try:
                            got = rows_c(v)
                        except Exception as e:
                            c.note(f'{key}: table not read: {e!r}'[:200])
                            continue
                        c.ob('each complete line becomes one row with its own values', got == [w for _, w in ls], key, f'{got[:2]}')


def rows_c(df):
    out = []
    for i in range(len(df)):
        t = df['linetype'].iloc[i]
        t = t.decode() if isinstance(t, bytes) else t
        n = {'D': 1, 'M': 11, 'G': 9}[t]
        out.append((t, int(df['millis-sawtooth'].iloc[i]), [float(df[k].iloc[i]) for k in range(2, 2 + n)]))
    return out


def judge(c, q, old, version):
    short = q.split('.')[-1] + (' (old formats)' if old else '')
    L = lines(old)
    if old and version == '0.85':
        return
    if version != '1.10':
        text = '\n'.join(head(old) + [x for x, _ in L]) + '\n'
        kind, df = attempt(c, q, text, True, 'every kind of line')
        what = 'each complete line becomes one row with its own values'
        if kind == 'raise':
            c.ob(what, False, short, f'refused with {df}')
        elif kind:
            try:
                got = rows_of(df, old)
            except (KeyError, ValueError, TypeError, AttributeError) as e:
                c.ob(what, False, short, f'the table lacks {e}') if isinstance(e, KeyError) else c.ob(what, False, short, f'{e}')
                got = None
            if got is not None:
                want = [w for _, w in L if w]
                c.ob('only data, metadata and GPS lines become rows', len(got) == len(want) and [g[0] for g in got] == [w[0] for w in want], short, f'rows {[g[0] for g in got]}')
                for (t, w) in [(x, y) for x, y in L if y]:
                    c.ob(what, w in got, f'{short}: line {t[:24]}', f'rows {[g for g in got if g[0] == w[0]][:3]}'[:200])
        nog = '\n'.join(head(old) + [x for x, w in L if not w or w[0] != 'G']) + '\n'
        kind, v = attempt(c, q, nog, True, 'no GPS, required')
        if kind:
            c.ob('a file without GPS is refused only if GPS is required', kind == 'raise' and v == 'CorruptRawFileNoGPS', short + ': required', str(v)[:80])
        kind, v = attempt(c, q, nog, False, 'no GPS, not required')
        if kind:
            c.ob('a file without GPS is refused only if GPS is required', kind == 'return', short + ': not required', str(v)[:80])
        kind, v = attempt(c, q, '\n'.join(head(old)[:6]) + '\n', True, 'no content')
        if kind:
            c.ob('a file without content is told from a corrupt one', kind == 'raise' and v == 'EmptyRawFile', short, str(v)[:80])
        cut = 'D,81' if old else 'D81'
        for bad, nm in ((['D20,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17'], 'a line of too many fields'), ([], 'a last line without an end'), (['$'], 'a stray character'), (['5'], 'a stray number'),
                        (['"'], 'a quotation mark'), ([''], 'an empty line'), ([cut], 'a data line cut short'), ([cut + ','], 'a data line without its value'), (['G,8185,50.5,2020'], 'a GPS line cut short')) + \
                (((['D'], 'a lone letter D'), (['G'], 'a lone letter G'), (['M,'], 'a metadata line without a counter'), (['D,'], 'a data line without a counter')) if old else ()):
            text = '\n'.join(head(old) + [x for x, _ in L[:5]] + bad + [x for x, _ in L[5:]]) + ('\n' if bad else '')
            for need in (True, False):
                key = f'{short}: {nm}, GPS {"" if need else "not "}required'
                kind, df = attempt(c, q, text, need, nm)
                what = 'a damaged line does not cost the others'
                if kind == 'raise':
                    c.ob(what, False, key, f'refused with {df}')
                if kind != 'return':
                    continue
                try:
                    got = rows_of(df, old)
                except Exception:
                    continue
                lost = [x for x, w in L if w and w not in got]
                c.ob(what, not lost, key, f'lost {lost[:3]}')
                nan = [g for g in got if g[0] == 'D' and any(np.isnan(v) for v in g[2])]
                c.ob('a data line cut short is not a sample', not nan, key, f'{nan[:2]}')
    else:
        text = '\n'.join(head(old) + [x for x, _ in L[:4]] + ['mn', 'mm', 'nk'] + [x for x, _ in L[4:]]) + '\n'
        kind, v = attempt(c, q, text, True, 'compact lines')
        if kind == 'return':
            c.ob('lines of the compact kind are not passed over', False, short, f'{len(v)} rows are returned, without those of the compact lines')
        elif kind:
            c.ob('lines of the compact kind are not passed over', True, short)
