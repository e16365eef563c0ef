"""Sample times: the clock fit of each raw file, the interpolation onto the output grid, and gaps."""
import math

import numpy as np
import pandas as pd

from . import rule
from ..terms import mk, Const, is_const, cval, show, walk, contains, subst, poly, diff_const, Not, And, T
from ..lib import alts, leaves, dget, upd_entries, seq, kids, closure, peel, universe
from ..evalterm import ev, Unknown
from ..loader import AnalysisBroken
from .formats import NEW, OLD, jump_count

SEVERAL, SINGLE = 'gemlog.core._read_several', 'gemlog.core._read_single'
SEG, FIT, INTERP, GEM, ONE = ('gemlog.core._apply_segments', 'gemlog.core._apply_fit', 'gemlog.core._interp_time', 'gemlog.core.read_gem',
                              'gemlog.core._convert_one_file')
CLOCK = 0.001024


def noexc(t):
    m = {x: Const(False) for x in walk(t) if x.op == 'Exc'}
    return subst(t, m) if m else t


def field(t, of=SINGLE):
    """Name of the table if t is a field of what the reader returned."""
    if t.op in ('Fld', 'Index') and isinstance(t.a[0], T):
        k = t.a[1] if isinstance(t.a[1], str) else cval(t.a[1])
        if isinstance(k, str) and t.a[0].op == 'Rec' and t.a[0].a[0] == of:
            return k
    return None


def table_of(t):
    while t.op == 'Upd':
        t = t.a[0]
    return field(t)


def parts(R, val, name):
    """The per-file tables that the accumulated table is made of (with all updates)."""
    C = closure(R, val)
    cand = [x for x in C.values() if table_of(x) == name]
    base = {x.a[0].id for x in cand if x.op == 'Upd'}
    return [x for x in cand if x.id not in base]


def colkey(k, name):
    """Does the key of an update name this column?"""
    k = cval(k) if isinstance(k, T) and k.op == 'Const' else k
    if k == name:
        return True
    if isinstance(k, T) and k.op == 'Tuple':
        s = seq(k)
        return len(s) == 2 and s[0].op == 'Slice' and all(cval(x, 0) is None for x in kids(s[0])) and cval(s[1]) == name
    return False


def top(v):
    """Sub-terms of the arithmetic of v."""
    yield v
    if v.op in ('Bin', 'Phi', 'Neg'):
        for k in v.a[1 if v.op == 'Phi' else 0:]:
            if isinstance(k, T):
                yield from top(k)


def amount(v):
    """The constant that is added, for a sum of one column and a constant."""
    if v.op == 'Old':
        return 0
    p, atoms = poly(v)
    rest = [m for m in p if m != ()]
    if len(rest) == 1 and len(rest[0]) == 1 and rest[0][0][1] == 1 and p[rest[0]] == 1:
        return p.get((), 0)
    return None


def moved(part, name):
    """(condition, amount if it holds, amount otherwise) by which a column is moved, or None if it is not written that way."""
    t, vs = part, []
    while t.op == 'Upd':
        vs += [v for k, v in upd_entries(t) if colkey(k, name)]
        t = t.a[0]
    if not vs:
        return None, 0, 0
    if len(vs) > 1:
        return None
    v = noexc(vs[0])
    conds = {x.a[0].id: x.a[0] for x in top(v) if x.op == 'Phi'}
    if not conds:
        a = amount(v)
        return None if a is None else (None, a, a)
    if len(conds) > 1:
        return None
    c, = conds.values()
    a, b = amount(subst(v, {c: Const(True)})), amount(subst(v, {c: Const(False)}))
    return None if a is None or b is None else (c, a, b)


def colnames(t):
    """Names of the columns that a (possibly moved) column value is made of."""
    out = set()
    for x in top(noexc(t)):
        if x.op in ('Fld', 'Index'):
            k = x.a[1] if isinstance(x.a[1], str) else cval(x.a[1])
            out.add(k if isinstance(k, str) else '?')
    return out


def lv(t):
    """Alternatives of a term, through merges and indexing; undefined ones left out."""
    if t.op == 'Phi':
        yield from lv(t.a[1])
        yield from lv(t.a[2])
    elif t.op == 'Alt':
        for x in kids(t):
            yield from lv(x)
    elif t.op == 'Index' and t.a[0].op in ('Phi', 'Alt', 'Index', 'Undef'):
        for b in lv(t.a[0]):
            if b is t.a[0]:
                yield t
            elif b.op in ('Tuple', 'List') and isinstance(cval(t.a[1]), int) and seq(b) is not None and -len(seq(b)) <= cval(t.a[1]) < len(seq(b)):
                yield from lv(seq(b)[cval(t.a[1])])
            else:
                yield mk('Index', b, t.a[1])
    elif t.op != 'Undef':
        yield t


POLYFIT = {'numpy.polynomial.polynomial.polyfit': True, 'numpy.polyfit': False}     # coefficients in ascending order?


def coefficient(t):
    """(polyfit call, power of the coefficient taken from it) or None."""
    if t.op != 'Index' or not isinstance(cval(t.a[1]), int):
        return None
    i, b = cval(t.a[1]), t.a[0]
    rev = False
    while True:
        if b.op == 'Index' and b.a[1].op == 'Slice':
            s = [cval(x) for x in kids(b.a[1])]
            if s != [None, None, -1]:
                return None
            rev = not rev
            b = b.a[0]
        elif b.op == 'Call' and b.a[0] in ('numpy.flip', 'numpy.flipud') and len(b.a[1]) == 1:
            rev = not rev
            b = b.a[1][0]
        elif b.op == 'Call' and b.a[0] in ('builtins.list', 'numpy.array') and b.a[1]:
            b = b.a[1][0]
        else:
            break
    if b.op == 'Call' and b.a[0] in POLYFIT:
        kw = dict(b.a[2]) if len(b.a) > 2 else {}
        deg = b.a[1][2] if len(b.a[1]) > 2 else kw.get('deg')
        n = cval(deg) if deg is not None else None
        if not isinstance(n, int):
            return None
        asc = POLYFIT[b.a[0]] != rev
        if i < 0:
            i += n + 1
        return b, (i if asc else n - i), n
    return None


@rule('C10')
def c10(c):
    """(1) For each format version: what the per-file loop adds to the samples, the metadata and the GPS counters is one common
    multiple of that version's counter period under one common condition (the file's first sample lies before the last one
    of the files before), and the reader is given the last accepted sample as offset.  (2) The coefficients stored for a
    file are those of a degree-3 polynomial fit of its GPS times over its moved GPS counters, each under its own power, or
    the constant offset at 1.024 ms per count.  (3) A file's range is its first and last moved sample.  (4) A segment's
    polynomial is applied, power by power, to the counters from the first to the last, both included, of the same row.
    (5) metadata times, the header's start and end and the sample times are all obtained that way from their own counters."""
    if not c.ctx.has(SEVERAL):
        raise AnalysisBroken('no per-file loop')
    for v in NEW + OLD:
        judge_moves(c, v)
        judge_align(c, v)
    judge_fit(c)
    judge_segments(c)
    judge_use(c)


def judge_moves(c, v):
    R = c.ctx.run(SEVERAL, version=Const(v), no_inline=(SINGLE,))
    per = 8192 if v in NEW else 65536
    got = {}
    for val in {x.id: x for rt in R.returns for x in alts(rt[1])}.values():
        for tab, col in (('data', 0), ('metadata', 'millis'), ('gps', 'msPPS')):
            acc = dget(val, tab)
            if acc is None:
                continue
            ps = parts(R, acc, tab)
            if len(ps) != 1:
                c.note(f'{v}: {len(ps)} forms of the per-file {tab} table')
                continue
            m = moved(ps[0], col)
            if m is None:
                c.note(f'{v}: the counters of {tab} are not moved by a constant')
                continue
            got[tab] = m
            if tab == 'data':
                rec = table_rec(ps[0])
                judge_offset(c, R, v, rec, acc)
    if not any(m[0] is not None for m in got.values()):
        if len(got) == 3:
            c.ob('overlapping counters are moved', False, v, 'no table is moved past the previous file')
        return
    cond = [m[0] for m in got.values() if m[0] is not None][0]
    for tab, m in got.items():
        c.ob('all counters of a file are moved together', m[0] is cond, f'{v} {tab}',
             'not moved' if m[0] is None else f'moved under another condition: {show(m[0], 3)}')
        if m[0] is cond:
            amt, oth = m[1], m[2]
            flip = cond.op == 'Not'
            amt, oth = (oth, amt) if flip else (amt, oth)
            c.ob('counters are moved by the period of the format', amt != 0 and amt % per == 0 and amt > 0, f'{v} {tab}', f'moved by {amt}')
            c.ob('all counters of a file are moved equally', amt == [x for x in got.values()][0][2 if flip else 1], f'{v} {tab}', f'moved by {amt}')
            c.ob('counters that follow on are not moved', oth == 0, f'{v} {tab}', f'moved by {oth}')
    k = cond.a[0] if cond.op == 'Not' else cond
    if k.op == 'Cmp' and k.a[0] in ('<', '<='):
        a, b = k.a[1], k.a[2]
        mu = [contains(x, lambda t: t.op == 'Rec' and t.a[0] == SINGLE) for x in (a, b)]
        if mu == [True, False] and a.op == 'Index' and seq(a.a[1]) is not None and b.op == 'Mu':
            ks = [cval(x) for x in seq(a.a[1])]
            c.ob('a file is moved when it starts before the end of the files before it', ks == [0, 0] and cond.op != 'Not', v, f'compares {show(k, 3)}')
        elif mu == [False, True] and a.op == 'Mu':
            c.ob('a file is moved when it starts before the end of the files before it', cond.op == 'Not', v, f'{show(cond, 3)}')
        else:
            c.note(f'{v}: condition {show(k, 3)} is not judged')


def judge_align(c, v):
    """The part of a file's unwrapped counters that does not depend on the row moves the first counter by whole periods to
    within a period of the offset the reader is given."""
    R = c.ctx.run(SINGLE, version=Const(v))
    per = 8192 if v in NEW else 65536
    seen = set()
    for val in (x for rt in R.returns for x in alts(rt[1])):
        for tab in ('data', 'metadata', 'gps'):
            t = dget(val, tab)
            for x in walk(t) if t is not None else ():
                if x.op != 'Bin' or x.a[0] not in '+-' or x.id in seen:
                    continue
                P, atoms = poly(x)
                J = {i: jump_count(y) for i, y in atoms.items()}
                if not any(J.values()) or not any(y.op == 'Param' and y.a[0] == 'offset' for y in walk(x)):
                    continue
                seen |= {y.id for y in walk(x) if y.op == 'Bin'}
                src = next(j[2] for j in J.values() if j)
                for first in (0, 5, per // 2 - 1, per - 1):
                    for off in (0, 3, per // 2 + 7, 3 * per, 11 * per - 2, 11 * per + per // 2 + 1):
                        env = {'lib': True}
                        for y in walk(x):
                            if jump_count(y):
                                env[y.id] = 0
                            elif y is src or peel(y) is src and y.op != 'Bin':
                                env[y.id] = first
                            elif y.op == 'Param' and y.a[0] == 'offset':
                                env[y.id] = off
                            elif y.op == 'Index' and is_const(y.a[1], 0) and contains(y.a[0], lambda z: z is src):
                                env[y.id] = first
                        try:
                            got = ev(x, env)
                        except Unknown:
                            c.note(f'{v}: alignment of the counters is not evaluated')
                            return
                        c.ob('a file is aligned by whole periods', (got - first) % per == 0, f'{v} {tab}', f'first counter {first}, offset {off}: moved to {got}')
                        c.ob('a file is aligned to the end of the files before it', abs(got - off) <= per, f'{v} {tab}', f'first counter {first}, offset {off}: moved to {got}')


def table_rec(t):
    while t.op == 'Upd':
        t = t.a[0]
    return t.a[0]


def judge_offset(c, R, v, rec, acc):
    if len(rec.a[1]) < 2:
        off = dict(rec.a[2]).get('offset')
    else:
        off = rec.a[1][1]
    if off is None:
        c.ob('each file is unwrapped from the end of the files before it', False, v, 'the reader gets no offset')
        return
    if off.op != 'Mu':
        c.note(f'{v}: offset {show(off, 3)} is not judged')
        return
    lp = R.interp.loops[off.a[1]]
    nxt = noexc(lp['next'].get(off.a[0])) if lp['next'].get(off.a[0]) is not None else None
    for x in alts(nxt) if nxt is not None else ():
        if x is off:
            continue
        if x.op == 'Index' and seq(x.a[1]) is not None:
            ks = [cval(y) for y in seq(x.a[1])]
            c.ob('each file is unwrapped from the end of the files before it', ks == [-1, 0], v, f'offset is element {ks}')
        elif x.op in ('Call', 'MCall') and (x.a[0] if x.op == 'Call' else x.a[1]).split('.')[-1] in ('max', 'nanmax', 'amax'):
            c.ob('each file is unwrapped from the end of the files before it', True, v)
        elif x.op == 'Index' and any(last_cols(y)[:1] in (['millis'], ['msPPS']) for y in alts(x.a[0].a[0] if x.a[0].op == 'Fld' else x.a[0])):
            c.ob('each file is unwrapped from the end of the files before it', False, v, 'offset is the counter of another row than the last sample')
        else:
            c.note(f'{v}: next offset {show(x, 3)} is not judged')


def header_values(R):
    """{column: [(value, site)]} of what is stored in the row of a file."""
    out = {}
    for e in R.events:
        if e.kind != 'setitem' or len(e.args) < 2:
            continue
        k = e.args[0]
        s = seq(k) if k.op == 'Tuple' else [k]
        name = cval(s[-1]) if s else None
        if isinstance(name, str):
            out.setdefault(name, []).append((e.args[1], e.site, e))
    return out


def judge_fit(c):
    R = c.ctx.run(SEVERAL, version=Const('0.9'), no_inline=(SINGLE,))
    H = header_values(R)
    cond = None
    for rt in R.returns:
        for val in alts(rt[1]):
            acc = dget(val, 'gps')
            for p in parts(R, acc, 'gps') if acc is not None else ():
                m = moved(p, 'msPPS')
                cond = m[0] if m else None
    n = 0
    for K in range(4):
        for val, site, e in H.get(f'drift_deg{K}', ()):
            if not contains(val, lambda t: t.op == 'Rec' and t.a[0] == SINGLE):
                continue
            for x in lv(noexc(val)):
                n += judge_leaf(c, K, x, site, cond)
            n += 0
    c.need('each coefficient is stored under its own power', 4, 'coefficients stored per file')
    judge_filled(c, R, H)
    for name, first in (('start_ms', True), ('end_ms', False)):
        for val, site, e in H.get(name, ()):
            for x in lv(noexc(val)):
                if x.op == 'Index' and seq(x.a[1]) is not None and table_of(x.a[0]) == 'data':
                    ks = [cval(y) for y in seq(x.a[1])]
                    c.ob("a file's range is its first and last sample", ks == [0 if first else -1, 0], name, f'element {ks}', site)
                    if cond is not None:
                        m = moved(x.a[0], 0)
                        c.ob("a file's range is taken after its counters were moved", m is not None and m[0] is cond, name, 'before they were moved', site)
                else:
                    c.note(f'{name}: {show(x, 3)} is not judged')


def judge_filled(c, R, H):
    """The clock of a file is stored also when the file has no GPS data and needs none: the condition of no store is false then."""
    none = pd.DataFrame({k: pd.Series([], dtype=float) for k in ('t', 'msPPS', 'lat', 'lon')})
    file = {'gps': none, 'data': np.array([(5., 1.), (15., 2.)]), 'metadata': pd.DataFrame({'millis': [5., 15.]})}
    for name in ('start_ms', 'end_ms', 'drift_deg0', 'drift_deg1'):
        evs = [e for _, _, e in H.get(name, ())]
        if not evs:
            continue
        why = None
        for e in evs:
            env = {'lib': True}
            for lit in e.pc:
                for x in walk(lit):
                    if x.op == 'Rec' and x.a[0] == SINGLE:
                        env[x.id] = file
                    elif x.op == 'Param' and x.a[0] == 'require_gps':
                        env[x.id] = False
                    elif x.op == 'Mu':
                        env[x.id] = -1.
            for lit in e.pc:
                try:
                    if not ev(noexc(lit), env):
                        why = show(lit, 4)[:200]
                        break
                except Unknown:
                    pass
            else:
                why = None
                break
        c.ob('a file without GPS has its clock too when GPS is not required', why is None, name, f'only when {why}', evs[0].site)


def judge_leaf(c, K, x, site, cond):
    if x.op == 'Const':
        v = cval(x)
        want = {3: 0, 2: 0, 1: CLOCK, 0: 0}[K]
        c.ob('without a fit the clock runs at 1.024 ms per count', v == want, f'power {K}', f'{v}', site)
        return 1
    if contains(x, lambda t: t.op == 'Rec' and t.a[0] != SINGLE):
        # the fit without its outliers: the same function on the remaining rows
        b = x
        while b.op == 'Index':
            b = b.a[0]
        if b.op == 'Rec' and len(b.a[1]) >= 2:
            xs, ys = b.a[1][:2]
            ok = xs.op == 'Index' and ys.op == 'Index' and xs.a[1] is ys.a[1]
            c.ob('outliers are removed from times and counters alike', ok, f'power {K}', f'{show(xs, 2)}, {show(ys, 2)}', site)
            if ok:
                judge_xy(c, K, xs.a[0], ys.a[0], site, cond)
            kw = dict(b.a[2]) if len(b.a) > 2 else {}
            if 'degree' in kw or len(b.a[1]) > 2:
                d = kw.get('degree', b.a[1][2] if len(b.a[1]) > 2 else None)
                c.ob('the fit is a cubic polynomial', cval(d) == 3, f'power {K} without outliers', show(d, 2), site)
            i = cval(x.a[1]) if x.op == 'Index' else None
            if x.op == 'Index' and x.a[0].op == 'Index' and isinstance(i, int):
                c.ob('each coefficient is stored under its own power', i in (3 - K, -1 - K), f'power {K} without outliers', f'element {i} of the fit', site)
        return 1
    f = coefficient(x)
    if f:
        call, k, deg = f
        c.ob('the fit is a cubic polynomial', deg == 3, f'power {K}', f'degree {deg}', site)
        c.ob('each coefficient is stored under its own power', k == K, f'power {K}', f'the coefficient of power {k}', site)
        if len(call.a[1]) >= 2:
            judge_xy(c, K, call.a[1][0], call.a[1][1], site, cond)
        return 1
    if K == 0 and x.op in ('Call', 'MCall'):
        nm = x.a[0].split('.')[-1] if x.op == 'Call' else x.a[1]
        arg = x.a[1][0] if x.op == 'Call' and x.a[1] else x.a[0] if x.op == 'MCall' else None
        if nm in ('mean', 'median', 'nanmean', 'nanmedian') and arg is not None:
            p, atoms = poly(arg)
            co = {}
            for m, k in p.items():
                if len(m) == 1 and m[0][1] == 1:
                    for cn in colnames(atoms[m[0][0]]):
                        co[cn] = k
            if set(co) == {'t', 'msPPS'}:
                c.ob('without a fit the clock runs at 1.024 ms per count', abs(co['t'] - 1) < 1e-12 and abs(co['msPPS'] + CLOCK) < 1e-12 and () not in p,
                     'offset', f'{co}', site)
                if cond is not None:
                    c.ob('the fit uses the moved counters', contains(arg, lambda t: t is cond), 'offset', 'counters before they were moved', site)
                return 1
    c.note(f'power {K}: {show(x, 3)} is not judged')
    return 0


def judge_xy(c, K, x, y, site, cond):
    cx, cy = colnames(x), colnames(y)
    if '?' in cx | cy or not cx or not cy:
        c.note(f'power {K}: columns of the fit are not recognised')
        return
    c.ob('times are fitted over counters', cx == {'msPPS'} and cy == {'t'}, f'power {K}', f'{sorted(cy)} over {sorted(cx)}', site)
    if cond is not None and cx == {'msPPS'}:
        c.ob('the fit uses the moved counters', contains(x, lambda t: t is cond), f'power {K}', 'counters before they were moved', site)


def power_of(name):
    return int(name[-1]) if isinstance(name, str) and name.startswith('drift_deg') and name[-1:].isdigit() else None


def model_ref(t):
    """(row index term or None, column) of an access to the table of segments."""
    if t.op in ('Fld', 'Index'):
        k = t.a[1] if isinstance(t.a[1], str) else cval(t.a[1])
        b = t.a[0]
        if isinstance(k, str) and k not in ('iloc', 'loc', 'values', 'iat', 'at'):
            # model.iloc[i, :]['col'], model['col']
            if b.op == 'Index':
                bk = seq(b.a[1])
                return (bk[0] if bk else b.a[1]), k
            return None, k
        if t.op == 'Index' and not isinstance(k, str):
            if b.op == 'Fld' and b.a[1] in ('loc', 'at') and seq(t.a[1]) and isinstance(cval(seq(t.a[1])[-1]), str):
                return seq(t.a[1])[0], cval(seq(t.a[1])[-1])
            while b.op == 'Fld' and b.a[1] in ('iloc', 'loc', 'values', 'iat', 'at'):
                b = b.a[0]
            b = peel(b)
            r = model_ref(b)
            if r and r[0] is None:
                return t.a[1], r[1]
    return None


def judge_poly(c, val, xs, what, site):
    """val is sum_K column drift_degK (of one row) * x^K; returns the row terms used, or None."""
    val = expand(val)
    p, atoms = poly(val)
    ref = {i: model_ref(t) for i, t in atoms.items()}
    xa = [i for i, t in atoms.items() if not ref[i] or power_of(ref[i][1]) is None]
    if len(xa) != 1 or not any(r and power_of(r[1]) is not None for r in ref.values()):
        c.note(f'{what}: {show(val, 3)} is not recognised as a polynomial')
        return None
    seen = {}
    for m, k in p.items():
        d = dict(m)
        pw = d.pop(xa[0], 0)
        if len(d) == 1 and list(d.values()) == [1]:
            i, = d
            K = power_of(ref[i][1])
            seen[K] = seen.get(K, 0) + 1
            c.ob('each coefficient is applied to its own power', pw == K and abs(k - 1) < 1e-12, f'{what} power {K}', f'{k} * x^{pw}', site)
        else:
            c.ob('each coefficient is applied to its own power', False, f'{what}: other term', f'{k} * {[(show(atoms[i], 2), q) for i, q in m]}', site)
    c.ob('all four coefficients are applied', sorted(seen) == [0, 1, 2, 3], what, f'powers {sorted(seen)}', site)
    return atoms[xa[0]], [r[0] for r in ref.values() if r and power_of(r[1]) is not None]


def expand(t):
    """numpy.polyval([..], x) written out."""
    for x in list(walk(t)):
        if x.op == 'Call' and x.a[0] in ('numpy.polyval', 'numpy.polynomial.polynomial.polyval') and len(x.a[1]) == 2:
            des = x.a[0] == 'numpy.polyval'
            co, xx = (x.a[1][0], x.a[1][1]) if des else (x.a[1][1], x.a[1][0])
            s = seq(co)
            if s:
                s = s[::-1] if des else s
                r = s[0]
                for i, k in enumerate(s[1:], 1):
                    r = mk('Bin', '+', r, mk('Bin', '*', k, mk('Bin', '**', xx, Const(i))))
                t = subst(t, {x: r})
    return t


def judge_segments(c):
    if not c.ctx.has(SEG):
        c.undecided.append('no function applies the segments')
        return
    R = c.ctx.run(SEG)
    n = 0
    for e in R.events:
        if e.kind != 'setitem' or len(e.args) < 2:
            continue
        key, val = e.args[0], e.args[1]
        if key.op == 'Slice':
            continue
        if not contains(val, lambda t: model_ref(t) is not None and power_of(model_ref(t)[1]) is not None):
            continue
        g = judge_poly(c, val, None, 'segment', e.site)
        if g is None:
            continue
        n += 1
        x, rows = g
        mask = key
        if x.op == 'Index' and x.a[1] is mask:
            x = x.a[0]
        elif x.op == 'Index':
            c.ob("a segment's times go to the samples they were computed for", False, '', f'{show(x, 3)} stored at {show(mask, 3)}', e.site)
        refs = {t.id: (t, model_ref(t)) for t in walk(mask) if model_ref(t) and model_ref(t)[1] in ('start_ms', 'end_ms') and model_ref(t)[0] is not None}
        names = {r[1] for _, r in refs.values()}
        mm = refs
        if names:
            rows = rows + [r[0] for _, r in refs.values()]
            if all(r is not None for r in rows):
                same = len({row_id(r) for r in rows}) == 1
                c.ob('range and coefficients come from the same row', same, '', f'{[show(r, 3) for r in rows]}', e.site)
            env = {i: (10.0 if r[1] == 'start_ms' else 20.0) for i, (_, r) in mm.items()}
            for v, want in ((10.0, True), (15.0, True), (20.0, True), (9.0, False), (21.0, False), (9.999, False), (20.001, False)):
                try:
                    got = bool(ev(mask, {**env, x.id: v}))
                except Unknown:
                    c.note(f'segment mask {show(mask, 4)} is not decided')
                    break
                c.ob('a segment covers its first to its last sample and nothing else', got == want, f'{v}', f'{v} in [10, 20] is {got}', e.site)
        else:
            c.note(f'segment mask {show(mask, 4)} is not judged')
        lid = e.loops[-1] if e.loops else None
        if lid is not None:
            it = R.interp.loops[lid].get('iter')
            if it is not None and it.op == 'Range':
                a = kids(it) if not isinstance(it.a[0], T) else [x for x in it.a if isinstance(x, T)]
                a = list(a)
                if len(a) > 1:
                    c.ob('every segment is applied', cval(a[0]) == 0 and (len(a) < 3 or cval(a[2]) == 1), '', f'range from {show(a[0], 2)}', e.site)
                hi = a[1] if len(a) > 1 else a[0]
                if hi.op == 'Bin':
                    p, at = poly(hi)
                    c.ob('every segment is applied', not p.get((), 0), 'last', show(hi, 3), e.site)
            br = R.interp.loops[lid].get('breaks')
            c.ob('every segment is applied', not br, 'break', 'the loop over segments can stop early', e.site)
    if not n:
        c.note('the application of segments is not recognised')
    judge_outside(c, R)
    init = [e for e in R.events if e.kind == 'setitem' and e.args[0].op == 'Slice']
    for e in init:
        v = e.args[1]
        c.ob('samples outside every segment have no time', v.op == 'Ext' and v.a[0] == 'numpy.nan' or isinstance(cval(v), float) and math.isnan(cval(v)),
             '', show(v, 2), e.site)


def judge_outside(c, R):
    """What a sample outside every segment gets: the array the segments' times are stored in, as it was before that."""
    for rt in R.returns:
        t = rt[1]
        for x in alts(t):
            while x.op == 'Upd' or x.op == 'Mu' and x.a[1] in R.interp.loops:
                if x.op == 'Upd':
                    if any(isinstance(k, T) and k.op == 'Slice' and all(is_const(y, None) for y in k.a) for k, _ in upd_entries(x)):
                        x = None
                        break
                    x = x.a[0]
                else:
                    x = R.interp.loops[x.a[1]]['init'].get(x.a[0])
                    if x is None:
                        break
            if x is None:
                continue
            if x.op == 'Call' and x.a[0].startswith('numpy.'):
                n = x.a[0].split('.')[-1]
                if n in ('zeros', 'ones', 'empty', 'zeros_like', 'ones_like', 'empty_like', 'arange'):
                    c.ob('samples outside every segment have no time', False, 'start', show(x, 2))
                elif n in ('full', 'full_like') and len(x.a[1]) > 1:
                    v = x.a[1][1]
                    c.ob('samples outside every segment have no time', v.op == 'Ext' and v.a[0] == 'numpy.nan' or isinstance(cval(v), float) and math.isnan(cval(v)), 'start', show(x, 2))


def row_id(r):
    return r.id


def judge_use(c):
    R = c.ctx.run(GEM, no_inline=(SEVERAL, SEG))
    segs = {x.id: x for x in universe(R) if x.op == 'Rec' and x.a[0] == SEG and len(x.a[1]) == 2}
    if not segs:
        c.undecided.append('read_gem: segments are not applied by the known function')
    want = {'t': ('metadata', 'millis'), 't1': ('header', 'start_ms'), 't2': ('header', 'end_ms')}
    timed = set()
    for e in R.events:
        if e.kind == 'setitem' and len(e.args) > 1 and e.args[1].id in segs:
            k = cval(e.args[0])
            if k in want:
                timed.add(k)
                x = e.args[1].a[1][0]
                c.ob('each time column is computed from its own counters', last_cols(x)[:1] == [want[k][1]], f'{want[k][0]} {k}', f'from {show(x, 3)}', e.site)
    if {'t1', 't2'} & timed:        # the columns are set in this way: one that nothing sets has no times
        other = any(contains(x, lambda t: t.op in ('Upd', 'MCall') and 'metadata' in show(t, 4)) and (x.op == 'MCall' and x.a[1] in ('assign', 'insert') or x.op == 'Upd' and any(k == 't' for k, _ in upd_entries(x)))
                    for x in universe(R))
        c.ob('metadata rows have times', 't' in timed or other, 'metadata t', 'no column t is set in the metadata table')
    n = 0
    for q, names, run in ((GEM, (SEG,), R), (ONE, (FIT,), c.ctx.run(ONE, no_inline=(SEVERAL, FIT)) if c.ctx.has(ONE) and c.ctx.has(FIT) else None)):
        if run is None:
            continue
        for e in run.events:
            if e.kind == 'enter' and e.name == INTERP and e.args:
                for D in alts(e.args[0]):
                    if D.op == 'Call' and D.a[0] in ('numpy.hstack', 'numpy.column_stack', 'numpy.concatenate') and seq(D.a[1][0]):
                        s = seq(D.a[1][0])
                        last = s[-1]
                        while last.op == 'MCall' and last.a[1] == 'reshape' or last.op == 'Index' and contains(last.a[1], lambda t: is_const(t, None) or t.op == 'Slice'):
                            last = last.a[0]
                        if last.op == 'Rec' and last.a[0] in names:
                            x = last.a[1][0]
                            ok = x.op == 'Index' and seq(x.a[1]) is not None and cval(seq(x.a[1])[-1], 'no') == 0 and x.a[0] is s[0]
                            c.ob('sample times are computed from the sample counters', ok, q, f'from {show(x, 3)}', e.site)
                            n += 1
        for e in run.events:
            if q == ONE and e.kind == 'setitem' and cval(e.args[0]) == 't' and e.args[1].op == 'Rec' and e.args[1].a[0] == FIT:
                x = e.args[1].a[1][0]
                c.ob('each time column is computed from its own counters', last_cols(x)[:1] == ['millis'], f'{q} t', f'from {show(x, 3)}', e.site)
    if not n:
        c.note('how sample times are obtained is not recognised')


def last_cols(t):
    out = []
    while t.op in ('Fld', 'Index'):
        k = t.a[1] if isinstance(t.a[1], str) else cval(t.a[1])
        if isinstance(k, str) and k not in ('values', 'iloc', 'loc'):
            out.append(k)
        t = t.a[0]
    return out


# ---------------------------------------------------------------- gaps

def strip_inv(t):
    """rows selected by a mask: (selection terms from outside in, base)"""
    sel = []
    while t.op == 'Index' and not (t.a[1].op == 'Const' and isinstance(cval(t.a[1]), str)):
        sel.append(t.a[1])
        t = t.a[0]
    return sel, t


def interp_runs(c):
    for q in (GEM, ONE):
        if not c.ctx.has(q):
            continue
        R = c.ctx.run(q, no_inline=(SEVERAL, SEG, FIT))
        for e in R.events:
            if e.kind == 'enter' and e.name == INTERP and e.args:
                lo = R.events.index(e)
                hi = next((i for i in range(lo, len(R.events)) if R.events[i].kind == 'leave' and R.events[i].name == INTERP), len(R.events))
                yield q, R, e.args[0], R.events[lo:hi]


def colsel(t, D):
    """(column number, row selections) of a selection from the data table D."""
    sel = []
    while t.op == 'Index':
        if t.a[0] is D:
            s = seq(t.a[1])
            if s is not None and len(s) == 2 and isinstance(cval(s[1]), int):
                if s[0].op != 'Slice':
                    sel.append(s[0])
                return cval(s[1]), tuple(x.id for x in sel), sel
            if s is None and t.a[1].op not in ('Slice', 'Const'):
                return None
            return None
        if t.a[0].op == 'Index' and t.a[0].a[0] is D and seq(t.a[1]) and len(seq(t.a[1])) == 2:
            # rows first, then (all, column)
            s = seq(t.a[1])
            if s[0].op == 'Slice' and isinstance(cval(s[1]), int):
                sel.append(t.a[0].a[1])
                return cval(s[1]), tuple(x.id for x in sel), sel
        sel.append(t.a[1])
        t = t.a[0]
    if t.op == 'Fld' and t.a[1] == 'T':
        return None
    return None


@rule('C12')
def c12(c):
    """In the interpolation as it is called by the folder reader and by single-file conversion: (1) the condition that ends a
    trace, evaluated for representative steps of the sample times, holds for backward steps and steps above 25 ms and for
    no step from 0 to 25 ms; (2) the break positions that are kept include those next to the first and the last sample;
    (3) each stretch runs from the sample after one break to the sample before the next; (4) the spline of a stretch is
    made from the times and the pressures of the same rows, which all lie within a gap length of the stretch, with rows
    of missing times and repeated or backward times removed; (5) a stretch without an output sample is left out; (6) the
    trace holds the spline's values at its own sample times, starts at the first of them, has an interval of 10 ms and
    the channel of the logger; (7) all traces are returned."""
    n = 0
    for q, R, D, evs in interp_runs(c):
        n += 1
        judge_interp(c, q, R, D, evs)
    if not n:
        c.undecided.append('no interpolation is reached')


def judge_interp(c, q, R, D, evs):
    cs = [e for e in evs if e.kind == 'call' and e.name and e.name.split('.')[-1] in ('CubicSpline', 'interp1d', 'UnivariateSpline', 'PchipInterpolator', 'Akima1DInterpolator', 'make_interp_spline', 'InterpolatedUnivariateSpline')]
    if len(cs) != 1 or len(cs[0].args) < 2:
        c.undecided.append(f'{q}: {len(cs)} interpolators')
        return
    sp = cs[0]
    X, Y = colsel(sp.args[0], D), colsel(sp.args[1], D)
    if not X or not Y:
        c.undecided.append(f'{q}: the rows of the spline are not recognised')
        return
    c.ob('the spline gives pressure over time', (X[0], Y[0]) == (2, 1), q, f'columns {(X[0], Y[0])}', sp.site)
    c.ob('times and pressures of the spline come from the same rows', X[1] == Y[1], q, f'{show(sp.args[0], 3)} / {show(sp.args[1], 3)}', sp.site)
    sel = X[2]
    tcol = [t for t in walk(sp.args[0]) if colsel(t, D) and colsel(t, D)[0] == 2]
    allsel = mk('Tuple', *sel)

    def is_t(t):
        r = colsel(t, D) if t.op == 'Index' else None
        return bool(r) and r[0] == 2
    nanok = any(x.op in ('Call', 'MCall') and (x.a[0].split('.')[-1] if x.op == 'Call' else x.a[1]) in ('isnan', 'isna', 'isnull', 'notna', 'notnull', 'isfinite') for x in walk(allsel))
    c.ob('samples without a time are left out', nanok, q, 'the rows are not tested for missing times', sp.site)
    # increasing times
    inc = any(x.op in ('Call', 'MCall') and (x.a[0].split('.')[-1] if x.op == 'Call' else x.a[1]) in ('accumulate', 'unique', 'cummax', 'duplicated', 'drop_duplicates') for x in walk(allsel))
    near = [s for s in sel[:-1]] or sel
    inc = inc or any(x.op == 'Call' and x.a[0] == 'numpy.diff' for s in sel[:1] for x in direct(s))
    swallowed = False
    for tid, part in sp.tries:
        info = R.interp.tries_info.get(tid, {})
        if part == 'body' and info.get('completes'):
            swallowed = True
    c.ob('repeated times do not lose a stretch', inc or not swallowed, q, 'the spline fails on repeated times and the stretch is dropped', sp.site)
    # the break mask
    W = [e for e in evs if e.kind == 'call' and e.name in ('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.argwhere') and
         any(x.op == 'Call' and x.a[0] == 'numpy.diff' for x in walk(e.args[0])) and not any(x.op == 'Call' and x.a[0].endswith('accumulate') for x in walk(e.args[0]))]
    W = [e for e in W if not contains(e.args[0], lambda x: x.op == 'Idx')]
    if len(W) != 1:
        c.undecided.append(f'{q}: {len(W)} places find breaks')
        return
    m = W[0].args[0]
    dd = [x for x in walk(m) if x.op == 'Call' and x.a[0] == 'numpy.diff' and len(x.a[1]) == 1 and colsel(x.a[1][0], D)]
    d = [x for x in dd if is_t(x.a[1][0])]
    if not d or len(d) < len(dd):
        c.ob('breaks are found in the sample times', not [x for x in walk(m) if x.op == 'Call' and x.a[0] == 'numpy.diff' and colsel(x.a[1][0], D)], q,
             show(m, 4), W[0].site)
        return
    for v, want in ((-3600.0, True), (-0.5, True), (-0.001, True), (0.0, None), (0.001, False), (0.0092, False), (0.01, False), (0.0103, False), (0.02, False),
                    (0.0249, False), (0.0251, True), (0.026, True), (0.03, True), (0.5, True), (3600.0, True)):
        try:
            got = bool(ev(m, {x.id: v for x in d}))
        except Unknown:
            c.note(f'{q}: break condition {show(m, 4)} is not decided')
            break
        if want is not None:
            c.ob('backward steps and steps above 25 ms, and no others, end a trace', got == want, f'{q} {v}', f'step of {v} s: {got}', W[0].site)
    pos = [W[0].val, mk('Index', W[0].val, Const(0))]
    # stretches
    H = [x for x in R_universe(R, evs) if x.op == 'Call' and x.a[0] in ('numpy.hstack', 'numpy.concatenate', 'numpy.append', 'numpy.r_') and seq_of(x)]
    st = en = None
    for x in H:
        s = seq_of(x)
        if len(s) != 2:
            continue
        for i in (0, 1):
            y = s[i]
            if y.op == 'Index' and is_t(y.a[0]) and contains(y.a[1], lambda t: t is W[0].val) and not contains(s[1 - i], lambda t: t is W[0].val):
                if i == 1:
                    st = (x, s[0], y)
                else:
                    en = (x, s[1], y)
    if not st or not en:
        c.undecided.append(f'{q}: the limits of the stretches are not recognised')
        return
    off = diff_const(st[2].a[1], en[2].a[1])
    c.ob('a stretch ends before a break and the next starts behind it', off == 1, q, f'{show(st[2].a[1], 3)} / {show(en[2].a[1], 3)}', st[0].op)
    B = en[2].a[1]
    kept(c, q, B, pos, is_t, st[1], en[1])
    # window of rows of a stretch
    ri = [x for x in walk(allsel) if x.op == 'Index' and x.a[1].op in ('Idx',) and contains(x, lambda t: t is st[0])]
    rj = [x for x in walk(allsel) if x.op == 'Index' and x.a[1].op in ('Idx',) and contains(x, lambda t: t is en[0])]
    if not ri and not rj:
        ri, rj = [], []
    lo = {x.id for x in ri if base_of(x) is st[0]}
    hi = {x.id for x in rj if base_of(x) is en[0]}
    rng = [s for s in walk(allsel) if lo and hi and s.op in ('And', 'Bin', 'Call', 'MCall') and boolmask(s, lo, hi)]
    if not rng and (lo or hi):
        rng = [s for s in walk(allsel) if s.op == 'Cmp' and s.a[0] in ('<', '<=') and any(contains_id(x, lo | hi) for x in s.a[1:]) and
               any(is_t(y) for x in s.a[1:] for y in direct(x)) and not contains(s, lambda t: t.op == 'Call' and t.a[0].endswith('accumulate'))]
        rng = rng and [And(*rng)]
    if rng:
        rm = max(rng, key=lambda x: -len(list(walk(x))))
        ts = [x for x in walk(rm) if is_t(x) and not contains_id(x, lo | hi)]
        done = False
        for v, want in ((100.0, True), (150.0, True), (200.0, True), (100.0 - 0.02501, False), (200.0 + 0.02501, False), (0.0, False), (300.0, False)):
            try:
                got = bool(ev(rm, {**{i: 100.0 for i in lo}, **{i: 200.0 for i in hi}, **{x.id: v for x in ts}}))
            except Unknown:
                c.note(f'{q}: rows of a stretch are not decided')
                break
            done = True
            c.ob('a spline uses its whole stretch and nothing beyond a gap', got == want, f'{q} {v}', f'{v} in a stretch from 100 to 200: {got}', sp.site)
    else:
        c.note(f'{q}: rows of a stretch are not recognised')
    judge_trace(c, q, R, D, evs, sp, st, en)


def contains_id(t, ids):
    return contains(t, lambda x: x.id in ids)


def boolmask(s, lo, hi):
    if s.op == 'Call' and s.a[0] not in ('numpy.logical_and',):
        return False
    if s.op == 'MCall' and s.a[1] != 'between':
        return False
    if s.op == 'Bin' and s.a[0] != '&':
        return False
    return contains_id(s, lo) and contains_id(s, hi)


def base_of(x):
    """The stacked limits below selections by mask and by loop index."""
    while x.op == 'Index':
        x = x.a[0]
    return x


def direct(s):
    yield s
    if s.op in ('Cmp', 'Not', 'And', 'Or', 'Bin', 'Inv'):
        for k in kids(s):
            yield from direct(k)
    elif s.op == 'Call':
        for k in s.a[1]:
            yield from direct(k)


def seq_of(x):
    if not x.a[1]:
        return None
    s = seq(x.a[1][0])
    return s if s is not None else (list(x.a[1]) if len(x.a[1]) == 2 else None)


def R_universe(R, evs):
    seen = {}
    st = [x for e in evs for x in [e.recv, e.val, *(e.args or ())] if isinstance(x, T)]
    while st:
        x = st.pop()
        if x.id not in seen:
            seen[x.id] = x
            st.extend(kids(x))
    return list(seen.values())


def kept(c, q, B, pos, is_t, first, last):
    """Which of the break positions are kept, judged at the ends of the data."""
    mask = None
    b = B
    masks = []
    while b.op == 'Index' and not any(b is p for p in pos):
        if b.a[1].op == 'Const':
            break
        masks.append(b.a[1])
        b = b.a[0]
    if not any(b is p for p in pos):
        c.note(f'{q}: the selection of breaks is not recognised')
        return
    for m in masks:
        A = [x for x in walk(m) if x.op == 'Index' and is_t(x.a[0]) and x.a[1] is b]
        N = [x for x in walk(m) if x.op == 'Index' and is_t(x.a[0]) and x.a[1] is not b and diff_const(x.a[1], b) == 1]
        L = [x for x in walk(m) if x is first]
        U = [x for x in walk(m) if x is last]
        for a, n, want in ((0.0, 5.0, True), (95.0, 100.0, True), (5.0, 6.0, True), (0.0, 100.0, True)):
            try:
                got = bool(ev(m, {**{x.id: a for x in A}, **{x.id: n for x in N}, first.id: 0.0, last.id: 100.0}))
            except Unknown:
                c.note(f'{q}: the selection of breaks is not decided')
                break
            c.ob('a gap next to the first or last sample is a break', got == want, f'{q} {a} to {n}', f'a gap from {a} to {n} in data from 0 to 100 is dropped')


def judge_trace(c, q, R, D, evs, sp, st, en):
    cv = [e for e in evs if e.kind == 'callv' and e.recv is sp.val or e.kind == 'callv' and e.recv is not None and contains(e.recv, lambda t: t is sp.val)]
    if len(cv) != 1:
        c.undecided.append(f'{q}: {len(cv)} evaluations of the spline')
        return
    Tt = cv[0].args[0]
    tr = [e for e in evs if e.kind == 'call' and e.name and e.name.endswith('Trace')]
    for e in tr:
        data = e.args[0] if e.args else dict(e.kw or {}).get('data')
        if data is not None:
            c.ob("a trace holds the spline's values", contains(data, lambda t: t is cv[0].val), q, show(data, 3), e.site)
    # sample times
    s = Tt
    while s.op in ('Call', 'MCall') and (s.a[0].split('.')[-1] if s.op == 'Call' else s.a[1]) in ('round', 'around', 'array', 'asarray', 'astype'):
        s = s.a[1][0] if s.op == 'Call' else s.a[0]
    p, atoms = poly(s)
    ar = [(i, t) for i, t in atoms.items() if t.op == 'Call' and t.a[0] == 'numpy.arange' and len(t.a[1]) == 1 or t.op == 'Range']
    if len(ar) == 1:
        i, t = ar[0]
        k = p.get(((i, 1),))
        c.ob('output samples are 10 ms apart', k is not None and abs(k - 0.01) < 1e-12, q, f'{k} s', cv[0].site)
        rest = {m: v for m, v in p.items() if m != ((i, 1),)}
        ok = len(rest) == 1 and list(rest.values()) == [1] and all(base_of(atoms[m[0][0]]) is st[0] for m in rest)
        c.ob('output samples start at the start of the stretch', ok or not all(len(m) == 1 for m in rest if m), q, show(s, 4), cv[0].site)
        n = list(kids(t))[0]
        f = n
        while f.op in ('Call', 'MCall') and (f.a[0].split('.')[-1] if f.op == 'Call' else f.a[1]) in ('trunc', 'floor', 'int', 'astype', 'fix'):
            f = f.a[1][0] if f.op == 'Call' else f.a[0]
        pn, an = poly(f)
        names = {}
        for m, v in pn.items():
            for j, _ in m:
                b = base_of(an[j])
                if an[j].op == 'Index' and an[j].a[0].op == 'Bin':
                    for x in walk(an[j].a[0]):
                        pass
                names[j] = b
        val = count(f, st[0], en[0])
        if val is not None:
            c.ob('output samples stay within the stretch', val in (999, 1000, 1001), q, f'{val} samples for a stretch of 10 s', cv[0].site)
    else:
        c.note(f'{q}: sample times {show(s, 3)} are not judged')
    judge_grid(c, q, Tt, st[0], en[0], evs, cv[0].site)
    first = mk('Index', Tt, Const(0))
    SA = [e for e in evs if e.kind == 'setattr' or e.kind == 'setitem']
    got = {}
    for e in SA:
        name = e.name if e.kind == 'setattr' else cval(e.args[0])
        if name in ('starttime', 'delta', 'sampling_rate', 'channel'):
            got[name] = e
    e = got.get('starttime')
    if e is not None:
        v = e.args[-1]
        w = v
        while w.op == 'Call' and w.a[0].endswith('UTCDateTime') and len(w.a[1]) == 1:
            w = w.a[1][0]
        if contains(w, lambda t: t is Tt):
            c.ob('a trace starts at its first output sample', w is first, q, show(v, 3), e.site)
            guard = any(contains(x, lambda t: t is Tt) for x in e.pc)
            c.ob('a stretch without an output sample is left out', guard or covered(R, e), q, 'its first sample time does not exist', e.site)
        elif w.op == 'Index' and colsel(w.a[0], D) and not contains(w, lambda t: t.op == 'Idx'):
            c.ob('a trace starts at its first output sample', False, q, f'all traces start at {show(v, 3)}', e.site)
        elif w.op == 'Index' and base_of(w) in (st[0], en[0]):
            c.ob('a trace starts at its first output sample', base_of(w) is st[0], q, show(v, 3), e.site)
        else:
            c.note(f'{q}: start time {show(v, 3)} is not judged')
    else:
        c.ob('a trace starts at its first output sample', any('header' in dict(x.kw or {}) or len(x.args) > 1 for x in tr), q, 'the start time is not set')
    if 'delta' in got:
        v = cval(got['delta'].args[-1])
        c.ob('traces have 100 samples per second', v == 0.01, q, f'interval {v}', got['delta'].site)
    elif 'sampling_rate' in got:
        v = cval(got['sampling_rate'].args[-1])
        c.ob('traces have 100 samples per second', v == 100, q, f'rate {v}', got['sampling_rate'].site)
    else:
        c.ob('traces have 100 samples per second', any('header' in dict(x.kw or {}) or len(x.args) > 1 for x in tr), q, 'the sample interval is not set')
    if 'channel' in got:
        c.ob('traces have the channel HDF', cval(got['channel'].args[-1]) == 'HDF', q, show(got['channel'].args[-1], 2), got['channel'].site)
    elif tr:
        c.ob('traces have the channel HDF', any('header' in dict(x.kw or {}) or len(x.args) > 1 for x in tr), q, 'the channel is not set')
    adds = [e for e in evs if e.kind in ('aug', 'append', 'mcall', 'extend') and e.args and any(contains(a, lambda t: t is cv[0].val) for a in e.args) and (e.kind != 'mcall' or e.name in ('append', 'insert', 'extend'))]
    if tr:
        c.ob('every trace is returned', bool(adds) or any(contains(e.args[0], lambda t: t is cv[0].val) for e in evs if e.kind == 'call' and e.name and e.name.endswith('Stream') and e.args and sp.loops[-1:] != e.loops[-1:]), q, 'the trace is not added to the output', tr[0].site)
    for e in adds:
        extra = [x for x in e.pc[len(tr[0].pc):]] if tr else []
        c.ob('every trace is returned', not extra, f'{q} condition', f'only when {[show(x, 3) for x in extra]}', e.site)
    # the loop over stretches
    lid = sp.loops[-1] if sp.loops else None
    if lid is not None:
        it = R.interp.loops[lid].get('iter')
        if it is not None and it.op == 'Range':
            a = list(kids(it))
            if len(a) > 1:
                c.ob('every stretch is interpolated', cval(a[0]) == 0, q, show(it, 3), sp.site)
            hi = a[1] if len(a) > 1 else a[0]
            pp, _ = poly(hi)
            c.ob('every stretch is interpolated', not pp.get((), 0), f'{q} last', show(hi, 3), sp.site)
        c.ob('every stretch is interpolated', not R.interp.loops[lid].get('breaks'), f'{q} break', 'the loop can stop early', sp.site)


def judge_grid(c, q, Tt, st, en, evs, site):
    """The sample times and the start time, folded for stretches of 10 s that start between two hundredths of a second."""
    starts = [e.args[-1] for e in evs if e.kind in ('setattr', 'setitem') and (e.name if e.kind == 'setattr' else cval(e.args[0])) == 'starttime']
    for lo in (100.0, 100.0034, 1000.1264, 1.6e9 + 0.4671):
        env = {'lib': True}
        for t in [Tt] + starts:
            for x in walk(t):
                if x is st or x is en:
                    env[x.id] = np.array([lo if x is st else lo + 10.0])
                elif x.op == 'Idx':
                    env[x.id] = 0
        try:
            t = np.asarray(ev(Tt, env), float)
        except (Unknown, TypeError, ValueError):
            c.note(f'{q}: sample times not evaluated')
            return
        if t.ndim != 1 or not len(t):
            return
        c.ob('samples lie at whole hundredths of a second', np.max(np.abs(t * 100 - np.round(t * 100))) < 1e-4, f'{q} {lo}', f'first at {t[0]}', site)
        c.ob('output samples are 10 ms apart', len(t) < 2 or np.max(np.abs(np.diff(t) - 0.01)) < 1e-5, f'{q} {lo}', f'spacing {np.unique(np.round(np.diff(t), 5))[:3]}', site)
        c.ob('output samples start at the start of the stretch', abs(t[0] - lo) < 0.0101, f'{q} {lo}', f'first at {t[0]}', site)
        c.ob('output samples stay within the stretch', len(t) in (999, 1000, 1001), f'{q} {lo}', f'{len(t)} samples for 10 s', site)
        for w in starts:
            try:
                got = ev(w, env)
            except Unknown:
                continue
            if isinstance(got, (int, float)):
                c.ob('a trace starts at its first output sample', abs(got - t[0]) < 1e-6, f'{q} {lo}', f'starts at {got}, first sample at {t[0]}', site)


def covered(R, e):
    """The failure is caught and the loop goes on."""
    for tid, part in e.tries:
        if part == 'body' and R.interp.tries_info.get(tid, {}).get('completes'):
            if any(e2.kind == 'try-begin' and e2.extra == tid and e.loops and e.loops[-1] in e2.loops for e2 in R.events):
                return True
    return False


def count(f, st, en):
    """Number of samples for a stretch from 100 to 110 s, if the formula is of limits of the stretch only."""
    env = {}
    for x in walk(f):
        if x.op == 'Index' and base_of(x) is st:
            env[x.id] = 100.0
        elif x.op == 'Index' and base_of(x) is en:
            env[x.id] = 110.0
        elif x.op == 'Index' and x.a[0].op == 'Bin' and x.a[1].op == 'Idx':
            # element of a difference of limits
            e2 = {}
            for y in walk(x.a[0]):
                if base_of(y) is st and y.op == 'Index' or y is st:
                    e2[y.id] = 100.0
                if base_of(y) is en and y.op == 'Index' or y is en:
                    e2[y.id] = 110.0
            try:
                env[x.id] = ev(x.a[0], e2)
            except Unknown:
                pass
    try:
        return int(ev(f, env) + 1e-6)
    except (Unknown, TypeError, ValueError):
        return None
