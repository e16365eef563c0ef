"""Output files: windows, continuity over blocks of raw files, start and end of the requested span."""
import math

from . import rule
from ..terms import mk, Const, is_const, cval, show, walk, contains, diff_const, T
from ..lib import alts, leaves, seq, kids
from ..evalterm import ev, Unknown

CONVERT, WRITER, GEM, MERGE = 'gemlog.core.convert', 'gemlog.core._write_hourlong_mseed', 'gemlog.core.read_gem', 'gemlog.core._merge_gaps'


def val(t, env=None, **params):
    """Value of a term on times as numbers of seconds; parameters by name."""
    e = dict(env or {})
    for x in walk(t):
        if x.op == 'Param' and x.a[0] in params:
            e[x.id] = params[x.a[0]]
        elif x.op == 'Call' and x.a[0].split('.')[-1] == 'UTCDateTime' and len(x.a[1]) == 1:
            pass
        elif x.op == 'MCall' and x.a[1] == 'strptime' or x.op == 'Call' and x.a[0].split('.')[-1] == 'strptime':
            s = [cval(y) for y in walk(x) if y.op == 'Const' and isinstance(cval(y), str) and '%' not in cval(y)]
            if s and s[0][:4].isdigit():
                e[x.id] = (int(s[0][:4]) - 1970) * 31556952.0
    return ev(t, e)


def attr_of(t, name):
    return t.op == 'Fld' and t.a[1] == name


def trace_end(t, name):
    """(stream, which) of stream[which].stats.<name>"""
    if attr_of(t, name):
        b = t.a[0].a[0] if attr_of(t.a[0], 'stats') else t.a[0]
        if b.op == 'Index' and is_const(b.a[1]):
            return b.a[0], cval(b.a[1])
    return None


def loops_of(R):
    """Loops of this run, as id -> info."""
    ids = {x for e in R.events for x in e.loops}
    return {i: R.interp.loops[i] for i in ids}


def scope(R, env, t, E=None, N=None, S=None):
    """Adds to env the ends and lengths of streams that occur in t."""
    for x in walk(t):
        r = trace_end(x, 'endtime')
        if r and E is not None and r[1] == -1:
            env[x.id] = E
        r = trace_end(x, 'starttime')
        if r and S is not None and r[1] in (0, -1):
            env[x.id] = S if r[1] == 0 else S + 500.0
        if N is not None and (x.op == 'Call' and x.a[0] == 'builtins.len' and len(x.a[1]) == 1 and x.a[1][0].op in ('Mu', 'MCall', 'Phi')
                              or x.op == 'MCall' and x.a[1] in ('count', '__len__')):
            env[x.id] = N
        if N is not None and x.op == 'Bool' and x.a[0].op in ('Mu', 'MCall') and 'p' == str(x.a[0].a[0]):
            env[x.id] = bool(N)
    return env


@rule('C11')
def c11(c):
    """(1) The window written: evaluated for representative times and lengths, its end is the next multiple of the length, the
    slice starts at the given time and stops less than one sample interval before that end, the end is returned, and each trace of the
    slice with samples is written for every format; (2) a window is written early only when the data reach its end, evaluated on
    the loop condition; what is left is written when reading ends; (3) after a window the stream is cut at, and the next window starts
    at, the returned end or the first remaining sample; (4) blocks of file numbers tile the numbers, each new block is joined to what
    is left, and reading stops only when the numbers are used up or the data reach the end of the span; (5) everything is cut at the end of the
    span before it is written, the first window starts at the start of the span or the first sample; (6) joining keeps every trace."""
    if c.ctx.has(WRITER):
        judge_window(c)
        inl = (GEM, WRITER)
    else:
        c.undecided.append('the function that writes a window is not recognised')
        return
    R = c.ctx.run(CONVERT, no_inline=(GEM, WRITER, 'gemlog.core._find_nonmissing_files'))
    judge_convert(c, R)
    if c.ctx.has(MERGE):
        judge_merge(c)


# ------------------------------------------------------------------ one window

def judge_window(c):
    R = c.ctx.run(WRITER)
    ps = R.fi.params if hasattr(R.fi, 'params') else None
    cut = [e for e in R.events if e.kind == 'mcall' and e.name in ('slice', 'trim') and e.recv is not None and contains(e.recv, lambda x: x.op == 'Param')]
    cut = [e for e in cut if e.name == 'slice' or True]
    if len(cut) != 1:
        c.undecided.append(f'{len(cut)} cuts of the stream in the window writer')
        return
    e = cut[0]
    a = list(e.args or ())
    kw = dict(e.kw or {})
    st = a[0] if a else kw.get('starttime')
    en = a[1] if len(a) > 1 else kw.get('endtime')
    if st is None or en is None:
        c.ob('a window has a start and an end', False, e.name, show(mk('Tuple', *a), 3), e.site)
        return
    near = kw.get('nearest_sample', a[3] if e.name == 'slice' and len(a) > 3 else a[3] if len(a) > 3 else None)
    P = {x.a[0] for t in (st, en) for x in walk(t) if x.op == 'Param'}
    hour = next((x for x in alts(st) if x.op == 'Param'), None)
    if hour is None:
        hs = [x.a[0] for x in walk(st) if x.op == 'Param']
        if len(set(hs)) != 1:
            c.undecided.append('the start of a window is not recognised')
            return
        hour = mk('Param', hs[0])
    others = [x for x in sorted(P) if x != hour.a[0]]
    endp = [x for x in others if 'end' in x]
    lens = [x for x in others if x not in endp]
    if len(lens) != 1:
        c.undecided.append(f'the length of a window is not recognised among {others}')
        return
    ret = R.value
    n = 0
    for h, L, want in ((0.0, 3600.0, 3600.0), (1800.5, 3600.0, 3600.0), (3599.99, 3600.0, 3600.0), (7200.0, 3600.0, 10800.0), (7200.01, 3600.0, 10800.0),
                       (1700000000.25, 3600.0, 1700002800.0), (1700000000.0, 86400.0, 1700006400.0), (1234.56, 60.0, 1260.0), (5.0, 1800.0, 1800.0), (1799.99, 1800.0, 1800.0)):
        kv = {hour.a[0]: h, lens[0]: L, **{x: math.nan for x in endp}}
        try:
            s, x, r = val(st, **kv), val(en, **kv), val(ret, **kv)
        except Unknown as u:
            c.undecided.append(f'the limits of a window are not decided: {show(en, 4)}')
            break
        n += 1
        key = f'{h} {L:g}'
        c.ob('a window starts where it is told to', abs(s - h) < 1e-6, key, f'start {s}', e.site)
        c.ob('a window ends at the next multiple of the file length', abs(r - want) < 1e-6, key, f'ends at {r}, not {want}', e.site)
        d = r - x
        exact = near is not None and is_const(near, False)
        lo, hi = (1e-9, 0.01) if exact else (0.0050001, 0.0099)
        c.ob('the sample at the end of a window is left to the next, and only that one', lo <= d <= hi, key,
             f'the slice stops {d} s before the end of the window' + ('' if exact else ', to the nearest sample'), e.site)
    # what is written of it
    ws = [w for w in R.events if w.kind == 'mcall' and w.name == 'write' and w.recv is not None and contains(w.recv, lambda t: t is e.val) or
          w.kind == 'call' and w.name and w.name.endswith('wavfile.write')]
    ws = [w for w in ws if w.kind == 'call' or True]
    if not ws:
        c.undecided.append('the writing of a window is not recognised')
        return
    for w in ws:
        src = w.recv if w.kind == 'mcall' else w.args[2] if len(w.args) > 2 else None
        its = [x for x in walk(src) if x.op == 'Index' and x.a[1].op in ('Idx', 'Bin') and contains(x.a[1], lambda t: t.op == 'Idx') and contains(x.a[0], lambda t: t is e.val)] if src is not None else []
        full = [x for x in its if x.a[1].op == 'Idx']
        if not its:
            if w.loops:
                c.note(f'what {w.name} writes at {w.site} is not recognised')
            continue
        x = full[0] if full else its[0]
        base = x.a[0]
        c.ob('every trace of the window is written', bool(full) and not contains(base, lambda t: t.op == 'Slice'), w.name, show(x, 4), w.site)
        sp = contains(base, lambda t: t.op == 'MCall' and t.a[1] == 'split')
        c.ob('a window with a gap is split', sp, w.name, show(base, 3), w.site)
    pname = next((k for k in ('output_format', 'format') if any(x.op == 'Param' and x.a[0] == k for w in ws for t in w.pc for x in walk(t))), 'output_format')
    for f in ('mseed', 'MSEED', 'wav', 'WAV', 'Wav', 'sac', 'SEGY'):
        for ln in (1, 5, 360000):
            hit = 0
            for w in ws:
                ok = True
                for t in w.pc:
                    env = {}
                    for x in walk(t):
                        if x.op == 'Call' and x.a[0] == 'builtins.len' or attr_of(x, 'npts') or attr_of(x, 'size'):
                            env[x.id] = ln
                        if attr_of(x, 'sampling_rate') or x.op == 'Call' and x.a[0] == 'builtins.int' and attr_of(x.a[1][0], 'sampling_rate'):
                            env[x.id] = 100
                        if x.op == 'MCall' and x.a[1] in ('lower', 'upper') and x.a[0].op == 'Param':
                            env[x.id] = getattr(f, x.a[1])()
                        if x.op == 'MCall' and x.a[1] == 'casefold' and x.a[0].op == 'Param':
                            env[x.id] = f.lower()
                    try:
                        ok = ok and bool(val(t, env, **{pname: f}))
                    except Unknown:
                        ok = None
                    if not ok:
                        break
                if ok is None:
                    hit = None
                    break
                hit += bool(ok)
            if hit is None:
                c.note(f'which writer is used for {f} is not decided')
                break
            c.ob('a trace is written exactly once whatever the format', hit == 1, f'{f} {ln}', f'{ln} samples as {f} are written {hit} times', ws[0].site)


# ------------------------------------------------------------------ the conversion loop

def judge_convert(c, R):
    LO = loops_of(R)
    rec = lambda t, q: t is not None and t.op == 'Rec' and t.a[0] == q
    ev_w = [e for e in R.events if e.kind == 'pcall' and e.name == WRITER]
    ev_r = [e for e in R.events if e.kind == 'pcall' and e.name == GEM]
    if not ev_w or not ev_r:
        c.undecided.append('reading and writing are not recognised in the conversion')
        return
    rl = [set(e.loops) for e in ev_r]
    # parameters by position or name
    fn = next((f for q, f in c.ctx.functions() if q == WRITER), None)
    pn = [x.arg for x in fn.args.args]

    def arg(e, k):
        i = pn.index(k) if k in pn else None
        return (e.kw or {}).get(k) if k in (e.kw or {}) else e.args[i] if i is not None and len(e.args) > i else None
    last = max(e.order for e in ev_r)
    inc, fin = [], []
    for e in ev_w:
        (inc if any(l in s for s in rl for l in e.loops) else fin).append(e)
    c.ob('what is left after the last raw file is written', any(e.order > last for e in fin), CONVERT, 'no window is written after the reading', ev_w[0].site)
    t2 = span_end(c, R)
    for e in ev_w:
        if not e.loops:
            c.ob('all that is left is written', False, str(fin.index(e)) if e in fin else '', 'only one window is written', e.site)
            continue
        l = LO[e.loops[-1]]
        hour, L = arg(e, pn[1]), arg(e, pn[2])
        n = 'while reading' if e in inc else 'at the end'
        try:
            c.ob('windows have the length asked for', abs(val(L, file_length_hour=0.5) - 1800) < 1e-6, n, show(L, 4), e.site)
        except Unknown:
            c.note(f'length of a window {show(L, 3)}')
        he = arg(e, pn[4 + 1]) if False else arg(e, 'hour_end')
        if he is not None and not contains(he, lambda x: x.op == 'Ext' and x.a[0].endswith('nan')):
            c.note('the end of a window is given by the caller')
        judge_when(c, R, e, l, hour, n, e in inc)
        judge_next(c, R, e, l, hour, n)
    judge_reading(c, R, ev_r, LO, t2)
    judge_span(c, R, ev_r, ev_w, LO, t2, arg, pn)


def cond_of(l):
    return l.get('cond')


def judge_when(c, R, e, l, hour, n, early):
    cond = cond_of(l)
    if cond is None:
        c.note(f'loop of windows {n}: no condition')
        return
    # pc conditions inside the loop, between the loop head and the call
    extra = [t for t in e.pc if any(x in t.lids for x in (l['id'],)) and t is not cond]
    for h, E in ((0.0, 0.0), (0.0, 1800.0), (0.0, 3599.5), (0.0, 3600.0), (0.0, 3600.01), (0.0, 9000.0), (1800.0, 1800.01), (1800.0, 3599.0), (3599.0, 3599.98), (3599.0, 3600.5),
                 (1800.0, 9000.0), (7200.0, 7199.99), (7200.0, 7200.01)):
        env = scope(R, {}, cond, E=E, N=1)
        env[hour.id] = h
        for x in walk(cond):
            if x.op == 'Mu' and x.a[1] == l['id'] and x.a[0] in hour_names(hour):
                env[x.id] = h
        try:
            got = bool(val(cond, env, file_length_hour=1.0))
            for t in extra:
                te = scope(R, dict(env), t, E=E, N=1)
                got = got and bool(val(t, te, file_length_hour=1.0))
        except Unknown:
            c.note(f'loop of windows {n}: condition {show(cond, 4)} is not decided')
            return
        if early:
            if got:
                end = h - h % 3600 + 3600
                c.ob('a window is written early only when the data reach its end', E >= end - 0.011, f'from {h:g} with data to {E:g}', f'window to {end:g}', e.site)
        else:
            c.ob('all that is left is written', got == (E >= h), f'from {h:g} with data to {E:g}', f'written: {got}', e.site)
    env = scope(R, {}, cond, E=9e9, N=0)
    try:
        env[hour.id] = 0.0
        for x in walk(cond):
            if x.op == 'Mu' and x.a[1] == l['id'] and x.a[0] in hour_names(hour):
                env[x.id] = 0.0
        c.ob('writing ends when nothing is left', not val(cond, env, file_length_hour=1.0) or not contains(cond, lambda t: bool(trace_end(t, 'endtime'))), n, show(cond, 4), e.site)
    except Unknown:
        pass


def hour_names(hour):
    return {x.a[0] for x in walk(hour) if x.op == 'Mu'}


def judge_next(c, R, e, l, hour, n):
    """The window after this one."""
    ret = e.val if e.val is not None else None
    name = next((x.a[0] for x in alts(hour) if x.op == 'Mu' and x.a[1] == l['id']), None)
    nx = l['next'].get(name)
    if nx is None or ret is None:
        c.note(f'next window {n} is not recognised')
        return
    inside = [x for x in R.events if x.order > e.order and l['id'] in x.loops and x.kind == 'mcall' and x.name == 'trim']
    cuts = []
    for x in inside:
        a0 = x.args[0] if x.args else (x.kw or {}).get('starttime')
        if a0 is None:
            continue
        d = diff_const(a0, ret)
        cuts.append(d)
        if d is not None or contains(a0, lambda t: t is ret) or a0.op in ('Mu', 'Fld', 'Index'):
            c.ob('the stream is cut where the window ended', d is not None and abs(d) < 0.0049, f'{n} {len(cuts)}', f'cut at {show(a0, 4)}', x.site)
    for y in alts(nx):
        if y is ret or diff_const(y, ret) is not None:
            d = diff_const(y, ret)
            c.ob('the next window starts where the last ended', y is ret or abs(d) < 0.0001, n, f'{show(y, 4)}', e.site)
        elif trace_end(y, 'starttime'):
            s, i = trace_end(y, 'starttime')
            c.ob('the next window starts at the first remaining sample', i == 0 and any(d is not None and abs(d) < 0.0049 for d in cuts), n,
                 f'{show(y, 4)}' + ('' if i == 0 else ' is not the first trace'), e.site)
        elif y.op == 'Mu' and y.a[1] == l['id']:
            c.ob('the next window starts where the last ended', False, n, 'the start of the window does not move', e.site)
        else:
            bad = trace_end(y, 'endtime') or diff_const(y, hour) is not None
            if bad:
                c.ob('the next window starts where the last ended', False, n, f'{show(y, 4)}', e.site)
            else:
                c.note(f'next window {n}: {show(y, 3)}')
    # cuts between the windows of this block and those of the next
    for x in R.events:
        if x.kind != 'mcall' or x.name not in ('trim', 'slice') or x.order < e.order or l['id'] in x.loops or not x.loops or x.loops[-1] not in e.loops:
            continue
        a0 = x.args[0] if x.args else (x.kw or {}).get('starttime')
        if a0 is None:
            continue
        for y in alts(a0):
            ok = y is ret or y.op == 'Mu' and y.a[0] == name or any(y is z for z in alts(nx))
            if ok or y.op in ('Call', 'Bin', 'Mu', 'Param') or trace_end(y, 'endtime'):
                c.ob('the stream is cut where the window ended', ok, f'between blocks', f'cut at {show(y, 4)}', x.site)
            else:
                c.note(f'cut at {show(y, 3)} is not followed')
    # the stream itself
    p = e.args[0] if e.args else None
    pname = next((x.a[0] for x in walk(p) if x.op == 'Mu' and x.a[1] == l['id']), None) if p is not None else None
    if pname and l['next'].get(pname) is not None:
        for y in alts(l['next'][pname]):
            keep = contains(y, lambda t: t.op == 'Mu' and t.a[0] == pname and t.a[1] == l['id'])
            sub = contains(y, lambda t: t.op == 'Index' and (t.a[1].op == 'Slice' or is_const(t.a[1])))
            c.ob('no trace is lost between windows', keep and not sub, n, show(y, 4), e.site)


def span_end(c, R):
    """The term of the end of the span, as given."""
    out = None
    for e in R.events:
        if e.kind == 'mcall' and e.name in ('trim', 'slice'):
            x = (e.kw or {}).get('endtime') or (e.args[1] if len(e.args or ()) > 1 else None)
            if x is not None and contains(x, lambda t: t.op == 'Param' and t.a[0] == 't2'):
                out = x
    return out


def judge_reading(c, R, ev_r, LO, t2):
    step = None
    for k, e in enumerate(ev_r):
        key = str(k)
        nums = (e.kw or {}).get('nums')
        if nums is None and len(e.args or ()) > 1:
            nums = e.args[1]
        if not e.loops:
            c.note(f'{e.site} reads outside a loop')
            continue
        l = LO[e.loops[-1]]
        # block of numbers
        if nums is not None and nums.op == 'Index' and nums.a[1].op in ('And', 'Bin', 'Call', 'Inv', 'Cmp', 'Not', 'Or'):
            base, m = nums.a
            cs = {x for x in walk(m) if x.op == 'Mu' and x.a[1] == l['id']}
            if len(cs) == 1 and contains(m, lambda t: t is base):
                x = cs.pop()
                nx = l['next'].get(x.a[0])
                try:
                    for lo, B in ((0, 1), (37, 1), (5, 3)):
                        hi = min(val(y, {x.id: lo}, blockdays=B) for y in alts(nx))
                        hi2 = max(val(y, {x.id: lo}, blockdays=B) for y in alts(nx))
                        for v in (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, hi2):
                            got = bool(val(m, {x.id: lo, base.id: v}, blockdays=B))
                            c.ob('blocks of file numbers neither overlap nor leave one out', got == (lo <= v < hi) and hi == hi2 and hi > lo, f'{key} {v - lo} of {hi - lo}',
                                 f'block from {lo}, next from {hi}: {v} read: {got}', e.site)
                except (Unknown, TypeError, ValueError):
                    c.note(f'block of numbers {show(m, 4)} is not decided')
                i = l['init'].get(x.a[0])
                for y in alts(i) if i is not None else ():
                    if y.op in ('Call', 'MCall'):
                        nm = y.a[0].split('.')[-1] if y.op == 'Call' else y.a[1]
                        c.ob('reading starts at the first file number', nm in ('min', 'amin', 'nanmin'), key, show(y, 3), l['site'])
                    elif y.op == 'Const' and isinstance(cval(y), int):
                        c.ob('reading starts at the first file number', cval(y) <= 0, key, show(y, 3), l['site'])
            else:
                c.note(f'{e.site}: block {show(m, 3)} is not decided')
        # when to go on reading
        cond = cond_of(l)
        if cond is None:
            continue
        mx = [x for x in walk(cond) if x.op in ('Call', 'MCall') and (x.a[0].split('.')[-1] if x.op == 'Call' else x.a[1]) in ('max', 'amax', 'nanmax')
              and not contains(x, lambda t: t.op == 'Param' and t.a[0] == 't2')]
        ns = [x for x in walk(cond) if x.op == 'Mu' and x.a[1] == l['id'] and not contains_in_stream(cond, x)]
        lim = [x for x in walk(cond) if x.op in ('Call', 'Phi') and contains(x, lambda t: t is t2) and x is not t2] if t2 is not None else []
        top = max(lim, key=lambda x: len(list(walk(x)))) if lim else None
        main = next((LO[i] for i in reversed(e.loops[:-1])), None)

        def ask(N, E, n1, D=1000.0):
            env = scope(R, {}, cond, E=E, N=N)
            env.update({x.id: 20 for x in mx})
            env.update({x.id: n1 for x in ns})
            for x in walk(cond):
                if x.op == 'Call' and x.a[0].split('.')[-1] == 'min' and t2 is not None and contains(x, lambda t: t is t2):
                    env[x.id] = D
            if t2 is not None and not lim:
                env[t2.id] = D
            return bool(val(cond, env, blockdays=1))
        try:
            c.ob('reading goes on while nothing is read yet', ask(0, -1.0, 20) and ask(0, -1.0, 3), key, show(cond, 4), l['site'])
            c.ob('reading ends with the last file number', not ask(0, -1.0, 21) and not ask(1, 5.0, 21), key, show(cond, 4), l['site'])
            if main is not None and any(trace_end(x, 'endtime') for x in walk(cond)):
                c.ob('reading goes on until the data reach the end of the interval', ask(1, 5.0, 20) and ask(1, 999.9, 20), key, show(cond, 4), l['site'])
        except (Unknown, TypeError):
            c.note(f'condition {show(cond, 4)} of reading is not decided')
        if main is not None:
            judge_main(c, R, main, t2, l)


def contains_in_stream(cond, m):
    """m occurs in cond only below an attribute, element or length (a stream or table, not a counter)."""
    for x in walk(cond):
        if x.op == 'Cmp' and (x.a[1] is m or x.a[2] is m):
            return False
    return True


def judge_main(c, R, l, t2, load):
    """The outer loop ends only when the numbers are used up or the span is converted."""
    br = [b[0] for b in l['breaks']] + ([mk('Not', l['cond'])] if l.get('cond') is not None and not is_const(l['cond'], True) else [])
    mus = {x.a[0] for b in br for x in walk(b) if x.op == 'Mu' and x.a[1] == l['id']}
    ns = next((x for x in mus if l['next'].get(x) is not None and any(y.op == 'Mu' and y.a[1] == load['id'] for y in alts(l['next'][x]))), None)
    ts = [x for x in mus if x != ns and l['next'].get(x) is not None and t2 is not None and contains(l['next'][x], lambda t: t is t2)]

    def stops(n1, t1, T2, D=1):
        out = False
        for b in br:
            env = {}
            for x in walk(b):
                if x.op == 'Mu' and x.a[1] == l['id']:
                    if x.a[0] == ns:
                        env[x.id] = n1
                    elif x.a[0] in ts:
                        env[x.id] = t1
                if t2 is not None and x is t2:
                    env[x.id] = T2
                if x.op in ('Call', 'MCall') and (x.a[0].split('.')[-1] if x.op == 'Call' else x.a[1]) in ('max', 'amax', 'nanmax') and not contains(x, lambda t: t.op == 'Mu' and t.a[1] == l['id']):
                    env[x.id] = 20
            out = out or bool(val(b, env, blockdays=D))
        return out
    try:
        c.ob('the conversion does not end before the last file number', not stops(20, 5.0, 1e9) and not stops(3, 5.0, 1e9), CONVERT, '; '.join(show(b, 3) for b in br), l['site'])
        c.ob('the conversion ends after the last file number', stops(21, 5.0, 1e9) or load is None, CONVERT, '; '.join(show(b, 3) for b in br), l['site'])
    except Unknown:
        c.note('the end of the conversion is not decided: ' + '; '.join(show(b, 3) for b in br))
    if len(ts) != 1 or load.get('cond') is None:
        return
    k = ts[0]
    cond = load['cond']

    def limit(t1, T2, D):
        """The end of data at which reading pauses."""
        def more(E):
            env = scope(R, {}, cond, E=E, N=1)
            for x in walk(cond):
                if x.op in ('Call', 'MCall') and (x.a[0].split('.')[-1] if x.op == 'Call' else x.a[1]) in ('max', 'amax', 'nanmax') and not contains(x, lambda t: t is t2):
                    env[x.id] = 20
                if x.op == 'Mu' and x.a[1] == load['id'] and x.a[0] == ns:
                    env[x.id] = 3
                if x.op == 'Mu' and x.a[1] == l['id'] and x.a[0] == k:
                    env[x.id] = t1
            env[t2.id] = T2
            return bool(val(cond, env, blockdays=D))
        lo, hi = -1.0, 1e11
        if not more(lo):
            return lo
        for _ in range(120):
            m = (lo + hi) / 2
            lo, hi = (m, hi) if more(m) else (lo, m)
        return hi
    if not any(trace_end(x, 'endtime') for x in walk(cond)):
        c.note('the end of the interval is not recognised')
        return
    try:
        for t1, T2, D in ((100.0, 1e9, 1), (100.0, 3e5, 1), (100.0, 5000.0, 1), (100.0, 86400.0, 1), (100.0, 86400.5, 1), (86400.001, 2e5, 1), (5e5, 1e9, 3), (86399.9995, 1e9, 1), (86400.0, 172800.25, 2)):
            env = {x.id: t1 for x in walk(l['next'][k]) if x.op == 'Mu' and x.a[1] == l['id'] and x.a[0] == k}
            env[t2.id] = T2
            x, y = limit(t1, T2, D), val(l['next'][k], env, blockdays=D)
            key = f'from {t1:g} to {T2:g}, {D} days'
            if stops(3, y, T2, D):
                c.ob('the conversion does not stop before the end of the span', x >= T2 - 0.0099, key, f'data are read up to {x:.10g} only, and the conversion stops', l['site'])
            else:
                x2 = limit(y, T2, D)
                c.ob('each round reads further', x2 > x, key, f'reads up to {x:.10g}, then up to {x2:.10g}', l['site'])
    except Unknown:
        c.note(f'the intervals of the conversion are not decided: {show(l["next"][k], 4)}')


def judge_span(c, R, ev_r, ev_w, LO, t2, arg, pn):
    if t2 is None:
        used = [e for e in R.events if e.kind in ('mcall', 'pcall') and e.name in ('trim', 'slice', WRITER) and
                any(contains(x, lambda t: t.op == 'Param' and t.a[0] == 't2') for x in list(e.args or ()) + list((e.kw or {}).values()))]
        c.ob('nothing after the end of the span is written', bool(used), CONVERT, 'the data are not cut at the end of the span', ev_w[0].site)
        return
    env = {}
    for x in walk(t2):
        if x.op == 'Call' and x.a[0].split('.')[-1] in ('isinf', 'isfinite', 'isnan'):
            env[x.id] = x.a[0].split('.')[-1] == 'isfinite'
    try:
        c.ob('the data are cut at the end of the span', abs(val(t2, env, t2=1000.0) - 1000.0) < 0.00999, 'given', show(t2, 4), ev_w[0].site)
        env = {k: (x.a[0].split('.')[-1] == 'isinf') for k in env for x in walk(t2) if x.id == k}
        c.ob('the data are cut at the end of the span', val(t2, env, t2=math.inf) > 2e11 / 1, 'not given', show(t2, 4), ev_w[0].site)
    except Unknown:
        c.note(f'the end of the span is not decided: {show(t2, 4)}')
    first = min(e.order for e in ev_w)
    trims = [e for e in R.events if e.kind == 'mcall' and e.name in ('trim', 'slice')]

    def cut(t):
        for e in trims:
            x = (e.kw or {}).get('endtime') or (e.args[1] if len(e.args or ()) > 1 else None)
            if x is t2 and (e.recv is t or contains(t, lambda y: y is e.val) or any(y is t for y in alts(e.recv))):
                return e
        return None
    # where the stream comes from: carried values of the loops, from the writer back to the reader
    seen, todo = set(), []
    for e in ev_w:
        for y in alts(e.args[0] if e.args else None):
            todo.append((y, ev_w.index(e)))
    while todo:
        y, k = todo.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if cut(y):
            c.ob('everything read is cut at the end of the span before it is written', True)
            data = [x for x in walk(y) if x.op == 'Rec' and x.a[0] == GEM]
            continue
        if y.op == 'Mu' and y.a[1] in R.interp.loops:
            l = R.interp.loops[y.a[1]]
            for z in (l['init'].get(y.a[0]), l['next'].get(y.a[0])):
                todo.extend((w, k) for w in alts(z))
            continue
        if y.op == 'MCall' and y.a[1] in ('split', 'merge', 'copy', 'trim', 'slice', 'sort'):
            todo.extend((w, k) for w in alts(y.a[0]))
            continue
        if any(x.op == 'Rec' and x.a[0] == GEM for x in walk(y)) or contains(y, lambda t: t.op == 'Mu' and t.a[0] == 'L') or y.op in ('Bin', 'Fld', 'Index'):
            c.ob('everything read is cut at the end of the span before it is written', False, f'{show(y, 2)}', f'{show(y, 4)} is written without being cut', ev_w[k].site)
        else:
            c.note(f'{show(y, 3)} is not followed')
    # the data of each block are joined to what is left
    for e in ev_r:
        rec = e.val
        if rec is None or len(e.loops) < 2:
            continue
        l = LO[e.loops[-1]]
        for k, v in l['next'].items():
            if v is None or l.get('cond') is None or not any(trace_end(x, 'endtime') and contains(x, lambda t: t.op == 'Mu' and t.a == (k, l['id'])) for x in walk(l['cond'])):
                continue
            for y in alts(v):
                src = sources(R, y, l['id'])
                if y.op == 'Mu' and y.a == (k, l['id']):
                    continue
                new = any(x is rec for x in src)
                old = any(x.op == 'Mu' and x.a == (k, l['id']) for x in src)
                c.ob('a new block is joined to what is left of the last', old, f'{k} kept', f'{show(y, 4)} does not hold the earlier data', e.site)
                c.ob('a new block is joined to what is left of the last', new, f'{k} read', f'{show(y, 4)} does not hold the new data', e.site)
    # start
    judge_start(c, R, ev_w, LO, pn, arg)


def sources(R, t, stop):
    """Subterms of t, through the loops other than stop that carry them."""
    out, todo, seen = [], [t], set()
    while todo:
        for x in walk(todo.pop()):
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
            if x.op == 'Mu' and x.a[1] != stop and x.a[1] in R.interp.loops:
                l = R.interp.loops[x.a[1]]
                todo += [z for z in (l['init'].get(x.a[0]), l['next'].get(x.a[0])) if z is not None]
    return out


def judge_start(c, R, ev_w, LO, pn, arg):
    hs = set()
    for e in ev_w:
        todo = [arg(e, pn[1])]
        seen = set()
        while todo:
            y = todo.pop()
            if y is None or y.id in seen:
                continue
            seen.add(y.id)
            if y.op == 'Mu' and y.a[1] in R.interp.loops:
                l = R.interp.loops[y.a[1]]
                todo.append(l['init'].get(y.a[0]))
                continue
            if y.op == 'Phi' and any(z.op in ('Mu', 'Undef') for z in alts(y)):
                todo.extend(alts(y))
                continue
            hs.add(y)
    for h in hs:
        if h.op == 'Undef':
            continue
        t1 = [x for x in walk(h) if x.op == 'Param' and x.a[0] == 't1']
        if not t1:
            c.ob('the first window starts with the span', not trace_end(h, 'starttime'), show(h, 2), f'{show(h, 4)} does not depend on the start of the span')
            continue
        for given in (True, False):
            for T1, S in ((5.0, 3.25), (5.0, 9.75), (1700000000.5, 1699999999.0), (3.25, 3.25)):
                env = scope(R, {}, h, S=S)
                for x in walk(h):
                    if x.op == 'Call' and x.a[0].split('.')[-1] in ('isinf', 'isfinite', 'isnan'):
                        env[x.id] = (x.a[0].split('.')[-1] == 'isinf') != given
                try:
                    v = val(h, env, t1=T1)
                except Unknown:
                    c.note(f'start of the first window {show(h, 4)} is not decided')
                    return
                if given:
                    c.ob('the first window starts at the start of the span or the first sample after it', max(T1, min(S, v)) - 1e-6 <= v <= max(T1, S) + 1e-6 and v >= T1 - 1e-6, f'span from {T1:g}, data from {S:g}', f'starts at {v}')
                else:
                    c.ob('without a given start it begins with the first whole second of the data', S - 1e-6 <= v <= math.ceil(S) + 1e-6, f'data from {S:g}', f'starts at {v}')


def judge_merge(c):
    import ast
    fn = next(f for q, f in c.ctx.functions() if q == MERGE)
    dflt = {}
    for x, d in zip(fn.args.args[::-1], fn.args.defaults[::-1]):
        if isinstance(d, ast.Constant):
            dflt[x.arg] = Const(d.value)
    R = c.ctx.run(MERGE, **dflt)
    LO = loops_of(R)
    if len(LO) != 1:
        c.note('joining is not recognised')
        return
    l = next(iter(LO.values()))
    outs = [k for k, v in l['next'].items() if v is not None and contains(v, lambda t: t.op == 'Mu' and t.a[0] == k and t.a[1] == l['id'])
            and contains(v, lambda t: t.op == 'Idx') and contains(R.value, lambda t: t.op == 'Mu' and t.a == (k, l['id']))]
    if len(outs) != 1:
        c.note('joining is not recognised')
        return
    k = outs[0]
    for y in alts(l['next'][k]):
        keep = contains(y, lambda t: t.op == 'Mu' and t.a[0] == k)
        new = contains(y, lambda t: t.op == 'Index' and contains(t.a[1], lambda z: z.op == 'Idx') and contains(t.a[0], lambda z: z.op == 'Param'))
        c.ob('joining blocks keeps every trace', keep and new, 'loop', show(y, 4), l['site'])
    idx = [t for t in walk(l['next'][k]) if t.op == 'Index' and contains(t.a[1], lambda z: z.op == 'Idx') and contains(t.a[0], lambda z: z.op == 'Param')]
    init = l['init'].get(k)
    if idx and init is not None:
        off = {diff_const(t.a[1], next(z for z in walk(t.a[1]) if z.op == 'Idx')) for t in idx}
        base = idx[0].a[0]
        sl = init.a[1].a if init.op == 'Index' and init.a[1].op == 'Slice' else ()
        f = cval(sl[1]) if len(sl) > 1 and is_const(sl[1]) and isinstance(cval(sl[1]), int) and is_const(sl[0], None) else 0 if not contains(init, lambda t: t.op == 'Param') else None
        if f is not None and None not in off:
            c.ob('joining blocks keeps every trace', min(off) == f, 'first', f'the first {f} trace(s) are kept, the loop starts at {min(off)}', l['site'])
        it = l.get('iter')
        n = [x for x in walk(it)] if it is not None else []
        ln = [x for x in n if x.op == 'Call' and x.a[0] == 'builtins.len']
        if it is not None and it.op == 'Range' and ln:
            d = diff_const(it.a[1], ln[0])
            if d is not None:
                c.ob('joining blocks keeps every trace', d == 0, 'last', f'the loop ends at len {d:+g}', l['site'])
    for t in {x.id: x for y in alts(l['next'][k]) for x in walk(y)}.values():
        if t.op == 'Index' and t.a[0].op == 'Mu' and t.a[0].a == (k, l['id']) and isinstance(cval(t.a[1]) if is_const(t.a[1]) else None, int):
            c.ob('a trace is joined to the one before it', cval(t.a[1]) == -1, 'previous trace', show(t, 3), l['site'])
    mc = [e for e in R.events if e.kind == 'mcall' and e.name == 'merge' and e.loops]
    for e in mc:
        for t in e.pc:
            g = [x for x in walk(t) if x.op == 'Bin' and x.a[0] == '-' and trace_any(x.a[1], 'starttime') and trace_any(x.a[2], 'endtime')]
            if not g:
                continue
            for v, want in ((0.01, True), (0.035, False), (0.5, False), (3600.0, False)):
                try:
                    got = bool(val(t, {g[0].id: v}))
                except Unknown:
                    break
                c.ob('blocks are joined across a missing sample or two at most', got == want, f'{v}', f'a step of {v} s from one block to the next: joined {got}', e.site)
    fin = R.value
    sub = any(t.op == 'Index' for y in alts(fin) for t in [y])
    c.ob('joining blocks keeps every trace', not sub, 'result', show(fin, 3))


def trace_any(t, name):
    return attr_of(t, name)
