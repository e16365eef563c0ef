"""C21: station table and renaming. C24: station inventories."""
import itertools
import posixpath
import types

from . import rule
from ..evalterm import Stamp, Unknown, ev
from ..lib import alts, dget, kids, leaves, strs, upd_entries
from ..relq import CONV, column, lookup, maskish, plain, rows, uniques
from ..terms import T, contains, cval, is_const, mk, show, walk

NET = 'gemlog.gem_network.'
INFO, RENAME, INV, UNIQ, RESP = NET + '_get_station_info', NET + 'rename_files', NET + 'make_gem_inventory', NET + '_unique', NET + 'get_gem_response'
WHEN = (Stamp(2020, 1, 2, 3, 4, 5, 6007), Stamp(2021, 12, 31, 23, 59, 59, 999999), Stamp(1999, 11, 10))
KEYS = ('SN', 'network', 'station', 'location', 'elevation')


def table(t):
    """A station table as the program has normalised it."""
    return t.op == 'Rec' and t.a[0] == INFO


def spread(t, depth=0):
    """The alternatives of a value, branches inside a look-up included."""
    if depth > 8:
        return [t]
    if t.op == 'Phi':
        return [x for s in t.a[1:3] for x in spread(s, depth + 1)]
    if t.op == 'Index':
        return [mk('Index', a, i) if (a, i) != t.a else t for a in spread(t.a[0], depth + 1) for i in spread(t.a[1], depth + 1)]
    if t.op in ('Fld', 'MCall'):
        return [mk(t.op, a, *t.a[1:]) if a is not t.a[0] else t for a in spread(t.a[0], depth + 1)]
    if t.op == 'Call' and len(t.a[1]) == 1 and t.a[0] in CONV + ('obspy.UTCDateTime',):
        return [mk('Call', t.a[0], (a,), *t.a[2:]) if a is not t.a[1][0] else t for a in spread(t.a[1][0], depth + 1)]
    return [t]


def base(t):
    while t.op in ('Upd', 'Eff'):
        t = t.a[0]
    return t


# ---------------------------------------------------------------- station table

def judge_table(c):
    if not c.ctx.has(INFO):
        c.note('no station table reader')
        return
    R = c.ctx.run(INFO)
    P = [t for e in R.events for a in list(e.args or ()) for t in walk(a) if t.op == 'Param'][:1]
    reads = [e for e in R.events if e.kind == 'call' and e.name in ('pandas.read_csv', 'pandas.read_table')]
    body = [e for e in reads if not is_const((e.kw or {}).get('nrows', e.args[0]), 1)]
    for i, e in enumerate(body):
        kw = e.kw or {}
        dt = kw.get('dtype', kw.get('converters'))
        text = dt is not None and as_text(dt)
        c.ob('station tables are read as text', text is not False, f'{i} {"names" if "names" in kw else "header"}', show(dt, 4) if dt is not None else 'no dtype: codes such as 00 or 014 become numbers', e.site)
        na = kw.get('keep_default_na', kw.get('na_filter'))
        c.ob('codes such as NA and blank codes stay as they are', na is not None and is_const(na, False), f'{i} {"names" if "names" in kw else "header"}', 'read with the default missing values', e.site)
        if 'names' in kw:
            nm = strs(kw['names'])
            if nm is None:
                c.note('the default columns are not listed in the source')
            else:
                c.ob('columns of a table without header are serial number, network, station, location, elevation', [x.lower()[:2] for x in nm] == ['sn', 'ne', 'st', 'lo', 'el'][:len(nm)] and len(nm) >= 4, str(len(nm)), str(nm), e.site)
        else:
            judge_header(c, R, e)
        usecols = kw.get('skiprows', kw.get('skipfooter', kw.get('nrows')))
        c.ob('every line of a station table is read', usecols is None or is_const(usecols, 0, None), f'{i}', show(usecols, 3) if usecols is not None else '', e.site)
        hd = kw.get('header')
        if 'names' in kw and hd is not None:
            c.ob('every line of a station table is read', is_const(hd, None), f'header {i}', show(hd), e.site)
    judge_keys(c, R)
    # what is filled in
    for e in R.events:
        if e.kind != 'setitem' or len(e.args) < 2:
            continue
        cols, vals = assigned(e), alts(e.args[1])
        for k in cols:
            for v in vals:
                cv = fixed(v)
                if cv is None:
                    continue
                if k in ('network', 'location'):
                    c.ob('missing network and location codes are blank', cv == '', f'{k} {e.order}', repr(cv), e.site)
                elif k == 'elevation':
                    c.ob('missing elevations are -9999', cv == -9999, f'{e.order}', repr(cv), e.site)
                elif k in ('SN', 'station'):
                    c.ob('serial numbers and stations are not made up', False, f'{k} {e.order}', repr(cv), e.site)
    for e in R.events:
        if e.kind == 'setitem' and len(e.args) > 1 and 'elevation' in assigned(e):
            for x in walk(e.args[1]):
                if x.op == 'MCall' and x.a[1] == 'fillna' and x.a[2] and fixed(x.a[2][0]) is not None:
                    c.ob('missing elevations are -9999', fixed(x.a[2][0]) == -9999, 'fillna', show(x.a[2][0]), e.site)
                elif x.op == 'MCall' and x.a[1] == 'replace' and len(x.a[2]) == 2 and is_const(x.a[2][0], '') and is_const(x.a[2][1]):
                    v = str(cval(x.a[2][1])).strip().lower()
                    c.ob('missing elevations are -9999', v in ('', 'nan', 'none') or v.rstrip('0').rstrip('.') == '-9999', 'replaced', v, e.site)
    filled = {k for e in R.events if e.kind == 'setitem' and len(e.args) > 1 for k in assigned(e) if any(fixed(v) is not None for v in alts(e.args[1]))}
    calls = {e.name for e in R.events if e.kind == 'mcall'}
    if not filled & {'elevation'} and 'fillna' not in calls:
        c.ob('missing elevations are -9999', False, 'filled', 'nothing fills them in')
    # the user's table
    for p in {t.a[0]: t for e in R.events for a in [e.recv, *(e.args or ())] if a is not None for t in walk(a) if t.op == 'Param'}.values():
        hit = [e for e in R.events if changes(e, p)]
        c.ob("the user's own station table is left unchanged", not hit, INFO, f'{hit[0].kind} {hit[0].name}' if hit else '', hit[0].site if hit else None)
        inpl = [e for e in R.events if e.kind == 'mcall' and is_const((e.kw or {}).get('inplace'), True) and of_param(e.recv, p)]
        c.ob("the user's own station table is left unchanged", not inpl, INFO + ' inplace', '', inpl[0].site if inpl else None)


def judge_keys(c, R):
    """A column is renamed only to the standard name it stands for."""
    std = ('SN', 'network', 'station', 'location', 'elevation')
    seen = set()
    for e in R.events:
        for t in list(e.args or ()) + list(e.pc):
            for x in walk(t):
                if x.op != 'Comp' or x.id in seen or x.a[0] not in ('list', 'gen') or len(x.a[2]) != 1:
                    continue
                seen.add(x.id)
                elt, (lid, it) = x.a[1], x.a[2][0]
                at = {y for y in walk(elt) if y.op == 'Index' and y.a[1].op == 'Idx' and y.a[1].a[0] == lid and y.a[0] is it}
                if len(at) != 1 or elt.op not in ('Cmp', 'MCall') or not contains(it, lambda y: y.op == 'MCall' and y.a[1] == 'keys' or y.op == 'Fld' and y.a[1] == 'columns'):
                    continue
                at, = at
                try:
                    hit = {k for k in std for v in (k, k.lower(), k.upper(), k.capitalize()) if ev(elt, {at.id: v}) is True}
                except Unknown:
                    continue
                c.ob('columns are known by their own names', len(hit) <= 1, f'{show(elt, 3)}', f'{sorted(hit)} are taken for the same column', e.site)


def renumbered(c):
    """Whether the table handed out always has rows numbered from 0: every alternative is freshly read or has its index reset."""
    if not c.ctx.has(INFO):
        return None
    R = c.ctx.run(INFO)
    return numbered(R.value) if R.value is not None else None


def numbered(v, depth=0):
    while v.op in ('Upd', 'Eff') or v.op == 'MCall' and v.a[1] in ('copy', 'fillna', 'assign', 'rename', 'astype', 'replace'):
        v = v.a[0]
    if v.op == 'Phi' and depth < 12:
        r = [numbered(x, depth + 1) for x in v.a[1:3] if not (is_const(x, None) or x.op in ('Undef', 'Old'))]
        return False if False in r else None if None in r else True
    if v.op == 'Param':
        return False
    if v.op == 'Call' and v.a[0] == 'pandas.read_csv' or v.op == 'MCall' and v.a[1] == 'reset_index' or v.op == 'Call' and any(k == 'ignore_index' for k, _ in (v.a[2] or ())):
        return True
    if v.op == 'Index' and maskish(v.a[1]):
        return False
    return None


def as_text(dt):
    """True: all columns as text; False: some are not; None: not known."""
    if is_const(dt):
        return cval(dt) in ('str', 'string', 'object', 'O', 'U')
    if dt.op == 'Ext':
        return dt.a[0] in ('builtins.str', 'builtins.object')
    if dt.op == 'Comp' and dt.a[0] == 'dict':
        kv = dt.a[1]
        v = list(kids(kv))[-1] if kv.op == 'Tuple' else kv
        return as_text(v)
    if dt.op in ('Dict', 'OpenDict', 'Upd'):
        try:
            ent = {str(cval(k) if isinstance(k, T) else k).lower()[:2]: as_text(v) for k, v in (upd_entries(dt) if dt.op == 'Upd' else dt.a if all(isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], T) for p in dt.a) else dt.a[0])}
        except Exception:
            return None
        if any(v is False for v in ent.values()) or dt.op == 'Dict' and not {'sn', 'ne', 'st', 'lo'} <= set(ent):
            return False
        return None
    return None


def judge_header(c, R, e):
    """The header is recognised however it is capitalised, and a line of data is not taken for one."""
    for p in e.pc:
        for x in walk(p):
            if x.op == 'Comp' and x.a[0] in ('list', 'gen') and len(x.a[2]) == 1:
                elt, (lid, it) = x.a[1], x.a[2][0]
                if elt.op not in ('Or', 'Cmp', 'MCall', 'Bool'):
                    continue
                ats = [y.a[0] for y in walk(elt) if y.op == 'MCall' and y.a[1] in ('lower', 'upper', 'casefold', 'strip', 'title', 'capitalize')]
                ats = [y for y in ats if not (y.op == 'MCall' and y.a[1] in ('lower', 'upper', 'casefold', 'strip'))] or \
                    [z for y in walk(elt) if y.op == 'Cmp' for z in (y.a[1], y.a[2]) if z.op in ('Index', 'Fld')]
                if not ats or len({y.id for y in ats}) > 1:
                    continue
                at = ats[0]
                for s, want in (('SN', True), ('sn', True), ('Network', True), ('STATION', True), ('location', True), ('Elevation', True), ('058', False), ('', False), ('XX', False), ('GEM1', False), ('1530.5', False)):
                    try:
                        c.ob('a header is recognised in any capitalisation', bool(ev(elt, {at.id: s})) == want, s, f'{show(elt, 4)}', e.site)
                    except Unknown:
                        c.note('the recognition of the header is not decided')
                        return
                return


def assigned(e):
    """Constant column names a setitem on a table (or on its .loc) writes."""
    k = e.args[0]
    out = [cval(k)] if is_const(k) and isinstance(cval(k), str) else []
    if k.op == 'Tuple':
        its = list(kids(k))
        out += [cval(x) for x in its[1:] if is_const(x) and isinstance(cval(x), str)]
    return [x for x in out if x in KEYS]


def fixed(t):
    """A constant assigned, also when it is spread over the rows; None otherwise."""
    if is_const(t):
        return cval(t)
    if t.op == 'Neg' and is_const(t.a[0]):
        return -cval(t.a[0])
    if t.op == 'Bin' and t.a[0] in '+-*':
        a, b = fixed(t.a[1]), fixed(t.a[2])
        if a is not None and b is not None and not isinstance(a, str) and not isinstance(b, str):
            return a + b if t.a[0] == '+' else a - b if t.a[0] == '-' else a * b
    if t.op == 'Call' and t.a[0] in ('numpy.zeros', 'numpy.zeros_like'):
        return 0
    if t.op == 'Call' and t.a[0] in ('numpy.ones', 'numpy.ones_like'):
        return 1
    if t.op == 'Call' and t.a[0] in ('numpy.full', 'numpy.full_like', 'numpy.repeat') and len(t.a[1]) > 1:
        return fixed(t.a[1][1] if t.a[0] != 'numpy.repeat' else t.a[1][0])
    if t.op == 'List' and len(list(kids(t))) == 1:
        return fixed(list(kids(t))[0])
    if t.op == 'Comp' and t.a[0] == 'list':
        return fixed(t.a[1])
    return None


def of_param(t, p):
    """t is the parameter's own table (or a view used to write into it)."""
    if t is None:
        return False
    if t.op == 'Phi':
        return of_param(t.a[1], p) or of_param(t.a[2], p)
    while t.op in ('Upd', 'Eff') or t.op == 'Fld' and t.a[1] in ('loc', 'iloc', 'at', 'iat'):
        t = t.a[0]
        if t.op == 'Phi':
            return of_param(t.a[1], p) or of_param(t.a[2], p)
    return t is p


def changes(e, p):
    if e.kind in ('setitem', 'setattr', 'delitem', 'aug') and e.recv is not None:
        return of_param(e.recv, p)
    if e.kind == 'mcall' and e.name in ('insert', 'pop', 'update', 'drop_inplace', 'set_index_inplace'):
        return of_param(e.recv, p) and e.recv.op != 'Const'
    return False


# ---------------------------------------------------------------- renaming

def sample_name(sn):
    return f'/d.ir/x.y/2020-01-02T03_04_05..{sn}..HDF.mseed'


@rule('C21')
def c21(c):
    """(1) Codes set on each trace and used in the name are look-ups of their own column of the station table in the row whose SN is the third field of the file's
    name; (2) the name is evaluated for sample times, codes and patterns; (3) order, skipping and collisions; (4) how the table is read and completed."""
    judge_table(c)
    if not c.ctx.has(RENAME):
        c.undecided.append('no renaming')
        return
    R = c.ctx.run(RENAME, no_inline=(INFO,))
    ws = [e for e in R.events if e.kind == 'mcall' and e.name == 'write' and e.args and contains(e.recv, lambda t: t.op == 'Call' and t.a[0] in ('obspy.read', 'obspy.core.read'))]
    if not ws:
        c.undecided.append('no write of a renamed file is recognised')
        return
    label_ok = renumbered(c)
    for e in ws:
        outer = e.loops[-1] if e.loops else None
        rd = [t for t in walk(e.recv) if t.op == 'Call' and t.a[0] in ('obspy.read', 'obspy.core.read')]
        src = rd[0].a[1][0] if rd else None
        if src is None or outer is None:
            c.note('the file renamed is not recognised')
            continue
        lp = R.interp.loops[e.loops[0]]
        it = lp['iter']
        c.ob('every input file is renamed', it is None or not any(x.op == 'Index' and x.a[1].op == 'Slice' for x in walk(it)), 'loop', show(it, 3) if it is not None else '', e.site)
        b = base(e.recv)
        whole = b.op != 'Index'
        c.ob('the renamed file holds every trace of its input', whole and not any(x.op == 'Index' and x.a[0] is rd[0] for x in walk(e.recv) if x.op == 'Index' and x is b), 'write', show(b, 3), e.site)
        judge_codes(c, R, e, rd[0], src, label_ok)
        judge_new_name(c, R, e, rd[0], src)
        judge_skip(c, R, e)
        fm = (e.kw or {}).get('format', e.args[1] if len(e.args) > 1 else None)
        if fm is not None:
            for f in ('mseed', 'SAC'):
                try:
                    got = ev(fm, {x.id: f for x in walk(fm) if x.op == 'Param' and x.a[0] == 'output_format'})
                    c.ob('renamed files are written in the format asked for', str(got).lower() == f.lower(), f, str(got), e.site)
                except Unknown:
                    c.note('the format of renamed files is not decided')
        else:
            c.ob('renamed files are written in the format asked for', False, 'format', 'no format given', e.site)
    c.need('renamed traces carry the codes of their serial number', 3, 'network, station and location set on every trace')


def right_look(c, what, t, col, src, key, site, label_ok):
    """Obligations on a value that must be `col` of the station table for the serial number of file `src`."""
    for x in spread(t):
        l = lookup(x)
        if l is None:
            if is_const(x) or x.op == 'Param':
                c.ob(what, False, key, f'{show(x, 3)} is not the code of the station table', site)
            elif x.op in ('Alt', 'Mu'):
                c.ob(what, False, key, f'{show(x, 3)}: the value of another file is kept', site)
            else:
                cc = column(plain(x.a[0])) if x.op == 'Index' else None
                if cc and table(cc[0]) and not cc[2] and x.a[1].op in ('Alt', 'Mu', 'Idx', 'Const'):
                    c.ob(what, False, key, f'row {show(x.a[1], 3)} of the table is not that of the serial number', site)
                else:
                    c.note(f'{key}: {show(x, 3)} is not recognised as a look-up')
            continue
        if not table(l.table):
            c.note(f'{key}: look-up in {show(l.table, 3)}')
            continue
        c.ob(what, l.col == col, key + ' column', f'column {l.col} used for {col}', site)
        c.ob(what, l.which == 0 and {a for a, _ in l.conds} == {'SN'}, key + ' row', f'row {l.which} with {sorted(a for a, _ in l.conds)} equal', site)
        for a, v in l.conds:
            for sn in ('058', '1234'):
                try:
                    got = ev(v, {src.id: sample_name(sn)})
                except Unknown:
                    c.note(f'{key}: the serial number {show(v, 3)} is not decided')
                    continue
                c.ob(what, got == sn, key + ' serial number', f'{got!r} is not the text {sn!r} of the table', site)
        if l.how == 'label' and label_ok is not None:
            c.ob('look-ups work for any row numbering of the table', label_ok, key, 'a position is used as a row label', site)


def judge_codes(c, R, e, rd, src, label_ok):
    sets = [x for x in R.events if x.kind in ('setattr', 'setitem') and x.order < e.order and x.recv is not None and contains(x.recv, lambda t: t is rd) and is_const(x.args[0]) and cval(x.args[0]) in ('network', 'station', 'location', 'id', 'channel')]
    what = 'renamed traces carry the codes of their serial number'
    seen = set()
    for x in sets:
        k = cval(x.args[0])
        if k in ('id', 'channel'):
            c.note('trace identifiers are set in one piece')
            return
        b = base(x.recv)
        tr = base(b.a[0]) if b.op == 'Fld' and b.a[1] == 'stats' else None
        if tr is not None and tr.op == 'Index' and tr.a[0] is not None:
            per = tr.a[1].op == 'Idx' and not any(y.op == 'Slice' for y in walk(tr.a[0]) if y is not rd and y.op == 'Slice')
            c.ob(what, per, f'{k} every trace', show(tr, 3), x.site)
        extra = [g for g in x.pc if g not in e.pc]
        if extra:
            inner = R.interp.loops[x.loops[-1]] if x.loops else None
            c.ob(what, False, f'{k} always', 'only set if ' + ' and '.join(show(g, 3) for g in extra), x.site)
        seen.add(k)
        right_look(c, what, x.args[1], k, src, k, x.site, label_ok)
    if sets:
        for k in ('network', 'station', 'location'):
            c.ob(what, k in seen, f'{k} set', 'not set before the file is written', e.site)


def names(t):
    """format calls a path is made of."""
    return [x for x in walk(t) if x.op == 'MCall' and x.a[1] == 'format']


def earliest(R, t, rd):
    """'min' if t is the earliest start of the traces read, 'first', 'max', or None."""
    t = plain(t)
    if t.op == 'Mu':
        lp = R.interp.loops[t.a[1]]
        nx = lp['next'].get(t.a[0])
        it = lp.get('iter')
        if nx is None or it is None or not contains(it, lambda x: x is rd):
            return None
        kinds = set()
        for lf in alts(nx):
            if lf is t:
                kinds.add('same')
            elif lf.op == 'Call' and lf.a[0].split('.')[-1] in ('min', 'minimum', 'max', 'maximum'):
                ok = any(x is t for x in kids_of_call(lf)) and any(start_of(x) for x in kids_of_call(lf))
                kinds.add(lf.a[0].split('.')[-1][:3] if ok else None)
            elif start_of(lf):
                kinds.add('last')
            else:
                kinds.add(None)
        if None in kinds:
            return None
        if nx.op == 'Phi' and kinds == {'same', 'last'}:
            cnd = nx.a[0]
            if cnd.op == 'Cmp' and cnd.a[0] in ('<', '<='):
                lo, hi = cnd.a[1], cnd.a[2]
                takes = start_of(nx.a[1]) is not None and start_of(nx.a[1])
                if takes and start_of(lo) and hi is t or not takes and start_of(hi) and lo is t:
                    return 'min'
                return 'max'
            return None
        return {frozenset({'min'}): 'min', frozenset({'max'}): 'max', frozenset({'last'}): 'last', frozenset({'same'}): 'first'}.get(frozenset(kinds))
    if t.op == 'Call' and t.a[0].split('.')[-1] in ('min', 'max', 'amin', 'amax') and t.a[1] and t.a[1][0].op == 'Comp' and start_of(t.a[1][0].a[1]):
        if any(y.op == 'Slice' for y in walk(t.a[1][0])):
            return 'some'
        return t.a[0].split('.')[-1].lstrip('a')
    if start_of(t):
        return 'first'
    return None


def starts_found(R, t, rd, secs):
    """Second of the moment t for a file whose traces start at the given seconds."""
    N = types.SimpleNamespace
    traces = tuple(N(stats=N(starttime=Stamp(2020, 1, 2, 3, 4, s), endtime=Stamp(2020, 1, 2, 4, 4, s))) for s in secs)
    env = {'loops': R.interp.loops, rd.id: traces, **{x.id: traces for x in walk(t) if x.op == 'Fld' and x.a[0] is rd and x.a[1] == 'traces'}}
    try:
        return secs, ev(t, env).second
    except (Unknown, AttributeError):
        return None


def kids_of_call(t):
    return [x for x in t.a[1] if isinstance(x, T)]


def start_of(t):
    return t.op == 'Fld' and t.a[1] == 'starttime' or t.op == 'Index' and is_const(t.a[1], 'starttime')


def judge_new_name(c, R, e, rd, src):
    path = e.args[0]
    fm = names(path)
    full = path
    for x in walk(path):
        if x.op == 'Mu' and R.interp.loops[x.a[1]]['kind'] == 'while':
            pass
    for m in [x for x in walk(path) if x.op == 'Mu']:
        lp = R.interp.loops[m.a[1]]
        if lp['kind'] == 'while' and m.a[0] in lp.get('init', {}):
            from ..terms import subst
            full = subst(full, {m.id: lp['init'][m.a[0]]})
    fm = names(full)
    if not fm:
        c.note('the new name is not made with format')
    # times
    atoms = {}
    for x in walk(full):
        if x.op == 'Fld' and x.a[1] in ('year', 'month', 'day', 'julday', 'hour', 'minute', 'second') or x.op == 'MCall' and x.a[1] == 'strftime':
            atoms[x.a[0].id] = x.a[0]
    for a in atoms.values():
        starts = [starts_found(R, a, rd, o) for o in ((20, 5, 40), (5, 20, 40), (40, 20, 5), (40, 5, 20), (7,))]
        if None not in starts:
            for o, got in starts:
                c.ob('the new name has the earliest start of the traces', got == min(o), f'{a.op} {o}', f'{got} of {o}', e.site)
            continue
        kinds = {earliest(R, y, rd) for y in alts(a)}
        if None in kinds:
            c.note(f'the time in the new name is not recognised: {show(a, 3)}')
        else:
            c.ob('the new name has the earliest start of the traces', kinds == {'min'}, 'time', f'{sorted(kinds)} of the starts', e.site)
    # codes
    env0 = {}
    vals = {'network': 'XX', 'station': 'ABC', 'location': '00'}
    for x in walk(full):
        l = lookup(x)
        if l and table(l.table) and l.col in vals:
            env0[x.id] = vals[l.col]
    for y in list(walk(full)):
        if y.op == 'Mu' and R.interp.loops[y.a[1]]['kind'] == 'for' and y.a[0] in R.interp.loops[y.a[1]].get('init', {}):
            ini = R.interp.loops[y.a[1]]['init'][y.a[0]]
            if ini.op == 'Param' and y.id not in atoms:
                env0[y.id] = ('PARAM', ini.a[0])
    what = 'a renamed file is named by the pattern, with digits padded'
    pats = ('{year}-{mon}-{day}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}', '{year}.{jd}.{sta}', '{net}{loc}{sta}_{jd}{hour}{min}{sec}.{fmt}', '{year:04d}x{jd:03d}.{mon:02d}')
    for pat in pats:
        for when in WHEN:
            kv = dict(output_dir='OUT/sub', output_format='SAC', outfile_pattern=pat)
            env = {k: (kv[v[1]] if isinstance(v, tuple) else v) for k, v in env0.items() if not isinstance(v, tuple) or v[1] in kv}
            for x in walk(full):
                if x.op == 'Param' and x.a[0] in kv:
                    env[x.id] = kv[x.a[0]]
                if x.op == 'Cmp' and x.a[0] in ('in', 'notin'):
                    env[x.id] = x.a[0] == 'notin'
                if x.op == 'Call' and x.a[0] in ('os.path.exists', 'os.path.isfile'):
                    env[x.id] = False
            for i in atoms:
                env[i] = when
            try:
                got = ev(full, env)
            except Unknown as u:
                c.note(f'the new name is not decided: {str(u)[:150]}')
                break
            want = pad(pat).format(year=when.year, mon=when.month, day=when.day, jd=when.julday, hour=when.hour, min=when.minute, sec=when.second, net='XX', sta='ABC', loc='00', chan='HDF', fmt='SAC')
            c.ob(what, isinstance(got, str) and posixpath.normpath(got) == 'OUT/sub/' + want, f'{pat} {when}', f'{got} is not OUT/sub/{want}', e.site)
    # collisions
    checks = [x for g in list(e.pc) + [path] for x in walk(g) if x.op == 'Cmp' and x.a[0] in ('in', 'notin') and any(y.op in ('OpenList', 'Ref', 'OpenSet', 'OpenDict', 'Mu') for y in walk(x.a[2]))
              or x.op == 'Call' and x.a[0] in ('os.path.exists', 'os.path.isfile', 'os.path.lexists')]
    loops = [lp for lp in R.interp.loops.values() if lp['kind'] == 'while' and any(x.op == 'Mu' and x.a[1] == k for k, l2 in R.interp.loops.items() if l2 is lp for x in walk(path))]
    counts = any(x.op in ('Idx', 'Mu') and x.a[-1] in e.loops and x.id not in atoms and x.id not in env0 for x in walk(full) if not inside(x, full, atoms, src))
    if not checks and not loops:
        if counts:
            c.note('the new name depends on the position of the file')
        else:
            c.ob('no renamed file replaces another', False, 'name', 'inputs with equal codes and start get the same name', e.site)
    else:
        mem = [x for x in checks if x.op == 'Cmp']
        if mem and not any(x.op == 'Call' for x in checks):
            adds = [a for a in R.events if (a.kind == 'append' or a.kind == 'mcall' and a.name in ('append', 'add')) and a.args and a.loops and a.loops[0] == e.loops[0]] + \
                   [a for a in R.events if a.kind == 'setitem' and a.loops and a.loops[0] == e.loops[0] and a.recv is not None and a.recv.op in ('OpenDict', 'Ref', 'Dict', 'Mu')]
            un = [g for a in adds for g in a.pc if g not in e.pc]
            c.ob('no renamed file replaces another', bool(adds), 'remembered', 'the names given are not remembered', e.site)
            if adds:
                c.ob('no renamed file replaces another', not un or len(adds) > 1, 'always remembered', ' and '.join(show(g, 3) for g in un), adds[0].site)
                # what is remembered is what is compared
                cmpd = {y.id for x in mem for y in [x.a[1]]}
                same = any(a.args[0].id in cmpd or any(y.id in cmpd for y in walk(a.args[0])) for a in adds)
                if not same:
                    first = {x.id for x in fm}
                    c.ob('no renamed file replaces another', not all(a.args[0].id in first for a in adds) or len(loops) == 0, 'same name', 'the name remembered is not the one written', adds[0].site)
        c.ob('no renamed file replaces another', True, 'checked', '', e.site)


def inside(x, t, atoms, src):
    return any(y is x for a in atoms.values() for y in walk(a)) or any(y is x for y in walk(src)) or any(
        y is x for l in walk(t) if lookup(l) for y in walk(l))


def pad(p):
    for k, n in (('year', 4), ('mon', 2), ('day', 2), ('hour', 2), ('min', 2), ('sec', 2), ('jd', 3)):
        p = p.replace('{%s}' % k, '{%s:0%dd}' % (k, n))
    return p


def judge_skip(c, R, e):
    """A serial number that is not in the table does not end the run and is not written."""
    found = [x for x in R.events if x.kind == 'setattr' and x.order < e.order and is_const(x.args[0]) and cval(x.args[0]) in ('network', 'station', 'location')]
    tab = [t for x in found for t in walk(x.args[1]) if table(t)]
    if not tab:
        return
    guard = [g for g in list(found[0].pc) if contains(g, table)]
    body = [tid for x in R.events for tid, part in x.tries if part == 'body' and tid in R.interp.tries_info]
    handled = False
    for tid, info in R.interp.tries_info.items():
        if not str(info.get('func')).startswith('gemlog.gem_network.'):
            continue
        hs = {h.split('.')[-1] for h2 in info['handlers'] for h in h2}
        if hs & {'*', 'Exception', 'BaseException', 'IndexError', 'LookupError', 'KeyError', 'ValueError', 'StopIteration'}:
            import ast
            txt = ' '.join(ast.unparse(s) for s in info['node'].body)
            fs = dict(c.ctx.functions())
            called = [fs[x.name] for x in R.events if x.kind == 'enter' and x.name in fs and x.order < e.order and any(t == tid and part == 'body' for t, part in x.tries)]
            handled = handled or any(isinstance(n, ast.Subscript) for s in list(info['node'].body) + called for n in ast.walk(s)) or 'item' in txt or 'index' in txt or \
                any(x.order < e.order and any(t == tid and part == 'body' for t, part in x.tries) for x in found)
    c.ob('a serial number missing from the table is skipped', bool(guard) or handled, 'skip', 'the look-up of a missing serial number is not guarded', e.site)
    if guard:
        # polarity: evaluated with an empty and a non-empty selection
        for g in guard:
            for n in (0, 1):
                env = {}
                for x in walk(g):
                    if x.op == 'Call' and x.a[0] in ('builtins.len', 'numpy.sum', 'numpy.count_nonzero', 'builtins.sum'):
                        env[x.id] = n
                    if x.op == 'Call' and x.a[0] in ('numpy.any', 'builtins.any') or x.op == 'MCall' and x.a[1] == 'any':
                        env[x.id] = bool(n)
                    if x.op == 'Fld' and x.a[1] == 'empty':
                        env[x.id] = not n
                    if x.op == 'Fld' and x.a[1] == 'size' or x.op == 'MCall' and x.a[1] == 'sum':
                        env[x.id] = n
                    if x.op == 'Fld' and x.a[1] == 'shape':
                        env[x.id] = (n, 5)
                    if x.op == 'Cmp' and x.a[0] in ('in', 'notin') and contains(x.a[2], table):
                        env[x.id] = bool(n) if x.a[0] == 'in' else not n
                try:
                    c.ob('a serial number missing from the table is skipped', bool(ev(g, env)) == bool(n), f'{show(g, 3)} {n}', 'written' if not n else 'skipped', e.site)
                except Unknown:
                    c.note(f'the guard {show(g, 3)} is not decided')
    stop = [x for x in R.events if x.kind == 'raise' and x.loops and x.loops[0] == e.loops[0] and not x.tries]
    c.ob('a serial number missing from the table is skipped', not stop, 'raise', '', stop[0].site if stop else None)
    for x in R.events:
        if x.kind == 'raise' and x.tries and isinstance(x.tries[-1][1], tuple) and x.tries[-1][1][0] == 'h' and x.loops and x.loops[0] == e.loops[0]:
            c.ob('a serial number missing from the table is skipped', False, 'reraise', 'raised again', x.site)
    import ast
    # a `return` or `break` ends the run when a loop of the same function surrounds it
    around = {id(n) for f in c.ctx.project.modules['gemlog.gem_network'].tree.body for lp in ast.walk(f) if isinstance(lp, (ast.For, ast.While)) for n in ast.walk(lp)}
    for i in R.interp.tries_info.values():
        if not str(i.get('func')).startswith('gemlog.gem_network.') or id(i['node']) not in around:
            continue
        for h in i['node'].handlers:
            for s in ast.walk(h):
                if isinstance(s, (ast.Break, ast.Return)):
                    c.ob('a serial number missing from the table is skipped', False, 'break', 'the remaining files are left out', i.get('site'))


# ---------------------------------------------------------------- inventories

OBJ = 'obspy.core.inventory.'
CODES = ('network', 'station', 'location')


def made(R, name):
    return [e for e in R.events if e.kind == 'call' and e.name.split('.')[-1] == name and ('inventory' in e.name or e.name.split('.')[0] == 'obspy')]


def arg(e, i, *keys):
    for k in keys:
        if k in (e.kw or {}):
            return e.kw[k]
    return e.args[i] if i is not None and len(e.args or ()) > i else None


@rule('C24')
def c24(c):
    """(1) The loops run over the distinct networks, stations and locations of the station table; (2) channel, equipment and coordinates are look-ups keyed by that
    combination; (3) nothing is added for loggers without coordinates or for empty stations and networks; (4) what stations and networks are given is aggregated over
    their own members; (5) times."""
    if not c.ctx.has(INV):
        c.undecided.append('no inventory')
        return
    R = c.ctx.run(INV, no_inline=(INFO, UNIQ, RESP))
    chans = made(R, 'Channel')
    if not chans:
        c.undecided.append('no channel is made')
        return
    for e in chans:
        keys = judge_loops(c, R, e)
        if keys is None:
            c.undecided.append('the loops over networks, stations and locations are not recognised')
            return
        judge_channel(c, R, e, keys)
        judge_members(c, R, e, keys)


def judge_loops(c, R, e):
    """{column: element term} of the loops around a channel."""
    keys = {}
    what = 'the inventory has every network, station and location of the table once'
    for lid in e.loops:
        lp = R.interp.loops[lid]
        it = lp['iter']
        u = uniques(it) if it is not None else None
        if u is None:
            cc = column(it) if it is not None else None
            if cc and table(cc[0]):
                c.ob(what, False, f'{cc[1]} once', 'the loop runs over every row', e.site)
            continue
        if not table(u[0]):
            c.note(f'loop over {show(u[0], 3)}')
            continue
        col = u[1]
        have = {a: v for a, v in u[2]}
        need = set(CODES[:CODES.index(col)]) if col in CODES else None
        if need is not None:
            c.ob(what, set(have) == need, f'{col} within {sorted(need)}', f'selected by {sorted(have)}', e.site)
            for k in need & set(have):
                c.ob(what, keys.get(k) is not None and have[k] is keys[k], f'{col} of its {k}', show(have[k], 3), e.site)
        ix = [t for t in ({x for q in R.events if lid in q.loops for a in list(q.args or ()) + list((q.kw or {}).values()) for x in walk(a) if x.op == 'Index' and x.a[1].op == 'Idx' and x.a[1].a[-1] == lid and x.a[0] is it})]
        if len(ix) == 1:
            keys[col] = ix[0]
    if not any(k in keys for k in CODES):
        return None
    for k in CODES:
        if k not in keys:
            c.note(f'no loop over {k} codes')
    return keys if all(k in keys for k in CODES) else None


def keyed(c, what, l, tab_ok, keys, key, site, sn_ok=False):
    """Obligations on the selection of a look-up."""
    got = dict(l.conds)
    if sn_ok and set(got) == {'SN'}:
        inner = [lookup(x) for x in spread(got['SN'])]
        if None in inner:
            c.note(f'{key}: {show(got["SN"], 3)}')
            return
        for m in inner:
            c.ob(what, table(m.table) and m.col == 'SN' and m.which == 0 and dict(m.conds) == {k: keys[k] for k in CODES}, key + ' serial number', f'{m.col} where {sorted(dict(m.conds))}', site)
    else:
        c.ob(what, set(got) == set(CODES), key + ' keys', f'selected by {sorted(got)}', site)
        for k in set(got) & set(CODES):
            c.ob(what, got[k] is keys[k], f'{key} {k}', f'{k} compared with {show(got[k], 3)}', site)
    c.ob(what, l.which == 0, key + ' row', f'row {l.which}', site)


def judge_channel(c, R, e, keys):
    code = arg(e, 0, 'code')
    for n, v, want in (('code', code, 'HDF'), ('sample rate', arg(e, None, 'sample_rate'), 100)):
        c.ob('each channel is HDF at 100 samples per second', v is not None and (is_const(v, want, float(want) if not isinstance(want, str) else want) or not is_const(v)), n, show(v, 3) if v is not None else 'missing', e.site)
        if v is not None and not is_const(v):
            c.note(f'{n}: {show(v, 3)}')
    loc = arg(e, 1, 'location_code')
    if loc is not None:
        c.ob('each channel has its own codes and coordinates', loc is keys['location'] or lookup(loc) is not None and lookup(loc).col == 'location', 'location', show(loc, 3), e.site)
    for i, (k, col) in enumerate((('latitude', 'lat'), ('longitude', 'lon'), ('elevation', 'elevation'))):
        v = arg(e, 2 + i, k)
        if v is None:
            c.ob('each channel has its own codes and coordinates', False, k, 'missing', e.site)
            continue
        for x in spread(v):
            l = lookup(x)
            if l is None:
                wrong = [y for z in walk(x) if z.op == 'Index' for y in ([z.a[1]] if z.a[1].op == 'Cmp' else list(kids(z.a[1])) if z.a[1].op in ('And', 'Bin') else [])
                         if getattr(y, 'op', '') == 'Cmp' and y.a[0] in ('<', '<=', '>', '>=', '!=') and any(w.op in ('Fld', 'Index') and (w.a[1] if isinstance(w.a[1], str) else cval(w.a[1]) if is_const(w.a[1]) else None) in CODES + ('SN',)
                                                                                          and w.a[0].op == 'Param' for w in walk(y))]
                if is_const(x):
                    c.ob('each channel has its own codes and coordinates', False, k, show(x), e.site)
                elif wrong:
                    c.ob('each channel has its own codes and coordinates', False, k, f'rows are chosen by {show(wrong[0], 4)}', e.site)
                else:
                    c.note(f'{k}: {show(x, 3)} is not recognised as a look-up')
                continue
            c.ob('each channel has its own codes and coordinates', l.col == col and l.table.op == 'Param', f'{k} column', f'{l.col} of {show(l.table, 2)}', e.site)
            keyed(c, 'each channel has its own codes and coordinates', l, None, keys, k, e.site, sn_ok=True)
    # which columns of the coordinates identify a logger
    judge_choice(c, e, arg(e, 2, 'latitude'))
    for q in made(R, 'Equipment'):
        sn = arg(q, None, 'serial_number')
        if sn is None:
            c.ob("each channel's equipment has the logger's serial number", False, 'serial number', 'missing', q.site)
            continue
        for x in spread(sn):
            l = lookup(x)
            if l is None:
                if is_const(x) or x in keys.values():
                    c.ob("each channel's equipment has the logger's serial number", False, 'value', show(x, 3), q.site)
                else:
                    c.note(f'serial number: {show(x, 3)}')
                continue
            c.ob("each channel's equipment has the logger's serial number", table(l.table) and l.col == 'SN', 'column', f'{l.col}', q.site)
            keyed(c, "each channel's equipment has the logger's serial number", l, None, keys, 'equipment', q.site)
    eq = arg(e, None, 'equipments', 'sensor')
    c.ob("each channel's equipment has the logger's serial number", eq is not None and contains(eq, lambda t: t.op == 'Call' and t.a[0].endswith('Equipment')), 'used', show(eq, 2) if eq is not None else 'no equipment', e.site)
    judge_times(c, R, e)
    rs = arg(e, None, 'response')
    if rs is None:
        c.ob('each channel has the response given, or the default one', False, 'response', 'none', e.site)
    elif all(x.op in ('Rec', 'Param', 'Const') for x in alts(rs)):
        pn = {x.a[0] for x in alts(rs) if x.op == 'Param'}
        c.ob('each channel has the response given, or the default one', pn == {'response'} and any(x.op == 'Rec' and x.a[0] == RESP for x in alts(rs)), 'response', show(rs, 3), e.site)
        if rs.op == 'Phi':
            for given in (True, False):
                v = Text('default') if not given else 5
                try:
                    cond = bool(ev(rs.a[0], {y.id: v for y in walk(rs.a[0]) if y.op == 'Param'} | {y.id: not given for y in walk(rs.a[0]) if y.op in ('IsInst', 'Call') and 'isinstance' in str(y.a[0])}))
                except Unknown:
                    c.note(f'the choice of response is not decided: {show(rs.a[0], 3)}')
                    continue
                x = rs.a[1] if cond else rs.a[2]
                c.ob('each channel has the response given, or the default one', (x.op == 'Param') == given, f'given {given}', show(x, 2), e.site)
    # guard
    tabs = {r[0].id for x in spread(arg(e, 2, 'latitude')) for l in [lookup(x)] if l for r in [(l.table,)]}
    lat = arg(e, 2, 'latitude')
    sel = [y for y in walk(lat) if y.op in ('Phi', 'Index') and any(rows(z) and rows(z)[1] for z in spread(y))]
    guard = [g for g in e.pc if any(y.op == 'Fld' and y.a[1] in ('shape', 'empty', 'size') or y.op == 'Call' and y.a[0] == 'builtins.len' for y in walk(g)) and any(contains(g, lambda t: t is y) for y in sel)]
    tried = any(p == 'body' for _, p in e.tries)
    c.ob('loggers without coordinates are left out', bool(guard) or tried, 'guard', 'no check that coordinates are found', e.site)
    for g in guard:
        for n in (0, 1, 3):
            r = sized(g, n)
            if r is None:
                c.note(f'the guard {show(g, 3)} is not decided')
                break
            c.ob('loggers without coordinates are left out', r == (n > 0), f'{show(g, 3)} {n}', f'with {n} rows of coordinates it is {"added" if r else "left out"}', e.site)
    stop = [q for q in R.events if q.kind == 'raise' and q.loops and not q.tries]
    c.ob('loggers without coordinates are left out', not stop, 'raise', '', stop[0].site if stop else None)
    for lid in e.loops:
        c.ob('loggers without coordinates are left out', not R.interp.loops[lid].get('breaks'), f'break {e.loops.index(lid)}', 'the loop is left: later loggers are lost', e.site)


def sized(g, n):
    env = {}
    for x in walk(g):
        if x.op == 'Call' and x.a[0] == 'builtins.len':
            env[x.id] = n
        if x.op == 'Fld' and x.a[1] == 'shape':
            env[x.id] = (n, 8)
        if x.op == 'Fld' and x.a[1] == 'size':
            env[x.id] = n
        if x.op == 'Fld' and x.a[1] == 'empty':
            env[x.id] = not n
        if x.op == 'Bool' and x.a[0].op in ('Fld', 'OpenList', 'Ref') and not (x.a[0].op == 'Fld' and x.a[0].a[1] in ('empty', 'size')):
            env[x.id] = bool(n)
    try:
        return bool(ev(g, env))
    except Unknown:
        return None


def key_env(t, cols):
    env = {}
    for x in walk(t):
        if x.op == 'MCall' and x.a[1] == 'keys' and x.a[0].op == 'Param' or x.op == 'Fld' and x.a[1] == 'columns' and x.a[0].op == 'Param':
            env[x.id] = tuple(cols)
        if x.op == 'Cmp' and x.a[0] in ('in', 'notin') and x.a[2].op == 'Param' and is_const(x.a[1]):
            env[x.id] = (cval(x.a[1]) in cols) == (x.a[0] == 'in')
    return env


def pick(t, env):
    """The alternative of a look-up for known conditions; None if one is not decided."""
    if t.op == 'Phi':
        try:
            return pick(t.a[1] if ev(t.a[0], env) else t.a[2], env)
        except Unknown:
            return None
    if t.op == 'Index':
        a, b = pick(t.a[0], env), pick(t.a[1], env) if t.a[1].op == 'Phi' else t.a[1]
        return mk('Index', a, b) if a is not None and b is not None else None
    if t.op in ('Fld', 'MCall'):
        a = pick(t.a[0], env)
        return mk(t.op, a, *t.a[1:]) if a is not None else None
    return t


def judge_choice(c, e, lat):
    rest = ('lat', 'lon', 'elevation', 'starttime', 'endtime')
    for cols, ok in ((('SN',) + rest, ({'SN'},)), (CODES + rest, (set(CODES),)), (('SN', 'station') + rest, ({'SN'},)), (('SN',) + CODES + rest, ({'SN'}, set(CODES)))):
        x = pick(lat, key_env(lat, cols))
        l = lookup(x) if x is not None else None
        if l is None:
            c.note(f'how coordinates with columns {cols} are matched is not decided')
            continue
        c.ob('coordinates are matched by the columns they have', {a for a, _ in l.conds} in ok, ' '.join(cols), f'by {sorted(a for a, _ in l.conds)}', e.site)


def judge_times(c, R, e):
    import datetime
    import types
    for cols, (k, col, sign, year) in itertools.product((('SN', 'lat', 'lon', 'elevation'), CODES + ('lat', 'lon', 'elevation')), (
            ('start_date', 'starttime', -1, '1970-01-01T00:00:00'), ('end_date', 'endtime', 1, '9999-12-31T23:59:59'))):
        v = arg(e, None, k)
        if v is None:
            c.ob("a channel's times are those of its data, an hour wider", False, k, 'missing', e.site)
            continue
        for have in ((), ('starttime', 'endtime')):
            x = v
            env = key_env(v, cols + have)
            for y in walk(v):
                if y.op in ('Index', 'Fld', 'MCall'):
                    for z in [pick(y, env)]:
                        l = lookup(z) if z is not None else None
                        if l and l.table.op == 'Param' and l.col in ('starttime', 'endtime') and l.conds:
                            env[y.id] = Secs(1e9 if l.col == 'starttime' else 2e9)
                if y.op == 'Call' and y.a[0].split('.')[-1] == 'UTCDateTime' and len(y.a[1]) == 1 and is_const(y.a[1][0]) and isinstance(cval(y.a[1][0]), (str, int, float)):
                    env[y.id] = Text(str(cval(y.a[1][0])))
                if y.op == 'Call' and y.a[0].split('.')[-1] == 'UTCDateTime' and len(y.a[1]) > 2 and all(is_const(a) for a in y.a[1]):
                    env[y.id] = Text('-'.join(f'{cval(a):02d}' for a in y.a[1][:3]))
            try:
                got = ev(v, env)
            except Unknown as u:
                c.note(f'{k} is not decided: {str(u)[:120]}')
                continue
            if have:
                want = (1e9 if col == 'starttime' else 2e9) + sign * 3600
                c.ob("a channel's times are those of its data, an hour wider", isinstance(got, Secs) and got == want, f'{k} given with {cols[0]}', f'{got} for {want}', e.site)
            else:
                c.ob('without times a channel is open from 1970 to 9999', isinstance(got, Text) and (str(got)[:10] == year[:10] or year[:4] == '1970' and str(got) in ('0', '0.0')), f'{k} not given with {cols[0]}', str(got), e.site)


class Secs(float):
    def __add__(self, o):
        return Secs(float(self) + o)

    def __sub__(self, o):
        return Secs(float(self) - o)
    __radd__ = __add__


class Text(str):
    def __add__(self, o):
        raise ValueError

    def __sub__(self, o):
        raise ValueError


def added(R, name, child):
    """Events that append a made object to the `name` of another."""
    out = []
    for e in R.events:
        if e.kind in ('mcall', 'append') and e.name in ('append', None) or e.kind == 'mcall' and e.name == 'append':
            a = e.args[0] if e.args else None
            if a is not None and base(a).op == 'Call' and base(a).a[0].split('.')[-1] == child and e.recv is not None:
                out.append(e)
    return out


AGG = {'mean': ('numpy.mean', 'statistics.mean', 'numpy.average', 'statistics.fmean'), 'min': ('numpy.min', 'builtins.min', 'numpy.amin'), 'max': ('numpy.max', 'builtins.max', 'numpy.amax')}


def aggregate(t):
    """(operation, members term, field) of an aggregate over the members of something."""
    if t.op == 'Call' and t.a[1]:
        op = next((k for k, v in AGG.items() if t.a[0] in v), t.a[0].split('.')[-1])
        x = t.a[1][0]
        if x.op == 'Comp' and len(x.a[2]) == 1 and x.a[1].op == 'Fld':
            lid, it = x.a[2][0]
            if x.a[1].a[0].op == 'Index' and x.a[1].a[0].a[1].op == 'Idx':
                return op, it, x.a[1].a[1]
        return None
    if t.op == 'Fld' and t.a[0].op == 'Index' and is_const(t.a[0].a[1]):
        return 'one', t.a[0].a[0], t.a[1]
    return None


def judge_members(c, R, e, keys):
    for child, many, parent, level, attrs in (
            ('Channel', 'channels', 'Station', None, ()),
            ('Station', 'stations', 'Network', 'channels', (('latitude', 'mean', 'latitude'), ('longitude', 'mean', 'longitude'), ('elevation', 'mean', 'elevation'), ('start_date', 'min', 'start_date'), ('end_date', 'max', 'end_date'))),
            ('Network', 'networks', 'Inventory', 'stations', (('start_date', 'min', 'start_date'), ('end_date', 'max', 'end_date')))):
        adds = added(R, many, child)
        if not adds:
            c.note(f'no {child.lower()} is appended')
            continue
        what = 'channels, stations and networks are put where they belong'
        for a in adds:
            r = base(a.recv)
            fld = r.a[1] if r.op == 'Fld' else None
            owner = base(r.a[0]) if r.op == 'Fld' else None
            if fld is not None:
                c.ob(what, fld == many and owner.op == 'Call' and owner.a[0].split('.')[-1] == parent, child, f'appended to {show(r, 3)}', a.site)
            obj = base(a.args[0])
            if child != 'Channel':
                k = child.lower()
                code = obj.a[1][0] if obj.a[1] else dict(obj.a[2] or ()).get('code')
                c.ob('stations and networks have their own codes', code is keys[k], k, show(code, 3) if code is not None else '', a.site)
                guards = [g for g in a.pc if any(x.op == 'Fld' and x.a[1] == level and base(x.a[0]).op == 'Call' and base(x.a[0]).a[0].split('.')[-1] == child for x in walk(g))]
                gone = f'a {k} without {level} is left out'
                c.ob(gone, bool(guards), 'guard', 'it is added anyway', a.site)
                for g in guards:
                    for n in (0, 1, 2):
                        r2 = sized(g, n)
                        if r2 is None:
                            c.note(f'the guard {show(g, 3)} is not decided')
                            break
                        c.ob(gone, r2 == (n > 0), f'{show(g, 3)} {n}', f'with {n} {level} it is {"added" if r2 else "left out"}', a.site)
                judge_aggregates(c, R, a, obj, child, level, attrs)
        if child == 'Network' and R.value is not None:
            c.ob(what, contains(R.value, lambda t: t.op == 'Call' and t.a[0].endswith('Inventory')), 'returned', show(R.value, 2), None)


def judge_aggregates(c, R, a, obj, child, level, attrs):
    kw = dict(obj.a[2] or ()) if len(obj.a) > 2 else {}
    for k, op, field in attrs:
        sets = [q for q in R.events if q.kind == 'setattr' and q.recv is not None and base(q.recv) is obj and is_const(q.args[0], k)]
        what = f'a {child.lower()} lies at the mean of its {level} and spans their times' if child == 'Station' else 'a network spans the times of its stations'
        before = [q for q in sets if q.order < a.order]
        v = sets[-1].args[1] if sets else kw.get(k)
        if v is None:
            c.ob(what, False, k, 'not set', a.site)
            continue
        for x in alts(v):
            g = aggregate(x)
            if g is None:
                if is_const(x):
                    c.ob(what, False, k, show(x), a.site)
                else:
                    c.note(f'{k} of a {child.lower()}: {show(x, 3)}')
                continue
            members = base(g[1])
            own = members.op == 'Fld' and members.a[1] == level and base(members.a[0]) is obj
            c.ob(what, g[0] == op and g[2] == field, k, f'{g[0]} of {g[2]}', (sets[-1].site if sets else a.site))
            if members.op == 'Fld':
                c.ob(what, own, k + ' members', show(members, 3), sets[-1].site if sets else a.site)
            elif members.op == 'Index' and members.a[1].op == 'Slice':
                c.ob(what, False, k + ' members', show(members, 3), a.site)
        if sets and not before:
            c.note(f'{k} is set after the {child.lower()} is added')
        elif sets:
            extra = [g for g in sets[-1].pc if g not in a.pc]
            c.ob(what, not extra, k + ' always', ' and '.join(show(g, 3) for g in extra), sets[-1].site)
