"""C18: lags by time window. C19: slowness from lags."""
import math
import types

import numpy as np

from . import rule
from ..evalterm import Obj, Unknown, ev
from ..lib import alts, kids, seq, strs
from ..terms import cval, is_const, mk, show, walk
from .summary import evs

XC = 'gemlog.xcorr.'
WIN, PAIR, DAY, ALL, UPS, VALID = XC + 'apply_function_windows', XC + 'xcorr_function', XC + 'xcorr_one_day', XC + 'xcorr_all', XC + 'upsample_stream', XC + '_validate_inputs'
LOOP, INV, COORD = XC + 'loop_through_days', XC + 'invert_for_slowness', XC + 'get_coordinates'


def params(terms, kw):
    """Bindings of parameters by name in the given terms."""
    env = {}
    for r in terms:
        for x in walk(r):
            if x.op == 'Param' and x.a[0] in kw:
                env[x.id] = kw[x.a[0]]
    return env


def arg(e, i, *names):
    kw = dict(e.kw or {})
    for n in names:
        if n in kw:
            return kw[n]
    return e.args[i] if i is not None and len(e.args or ()) > i else None


def argnames(c, q):
    return next(([a.arg for a in f.args.args] for n, f in c.ctx.functions() if n == q), [])


# ---------------------------------------------------------------- C18

@rule('C18')
def c18(c):
    """(1) The limits of every window and its middle, evaluated for sample spans, lengths and overlaps; (2) the conditions under which a value or a NaN is appended to a
    column; (3) names and values of the results of a window, evaluated for three sensors with the correlation left abstract; (4) the options that reach filter,
    upsampling and windows."""
    for q in (WIN, PAIR, DAY):
        if not c.ctx.has(q):
            c.undecided.append(f'{q} is gone')
            return
    windows(c)
    pairs(c)
    one_day(c)
    if c.ctx.has(UPS):
        upsampled(c)


SPANS = [(1000.0, 1060.0, 5.0, 0.0), (1000.0, 1060.0, 5.0, 0.5), (0.0, 61.0, 5.0, 0.0), (10.0, 73.5, 7.0, 0.25), (5.0, 15.0, 5.0, 0.9), (100.0, 86500.0, 30.0, 0.0), (0.0, 12.0, 5.0, 0.0)]


def windows(c):
    R = c.ctx.run(WIN)
    fn = argnames(c, WIN)
    if len(fn) < 5:
        c.note('the windowing function has other parameters')
        return
    calls = [e for e in R.events if e.kind == 'callv' and e.recv is not None and e.recv.op == 'Param' and e.recv.a[0] == fn[1] and e.loops]
    if not calls:
        c.undecided.append('the call on each window is not recognised')
        return
    for e in calls:
        loop = R.interp.loops.get(e.loops[-1])
        cut = e.args[0] if e.args else None
        if len(e.loops) != 1 or loop is None or loop['kind'] != 'for' or loop['iter'] is None or cut is None or cut.op != 'MCall' or cut.a[1] not in ('slice', 'trim') or not (cut.a[0].op == 'Param' or cut.a[1] == 'slice'):
            c.note(f'a window is not recognised: {show(cut, 80) if cut is not None else ""}')
            continue
        ckw = dict(cut.a[3] or ())
        lo = cut.a[2][0] if len(cut.a[2]) > 0 else ckw.get('starttime')
        hi = cut.a[2][1] if len(cut.a[2]) > 1 else ckw.get('endtime')
        if lo is None or hi is None:
            c.ob('windows have the length given and cover the data', False, 'window without limits', 'a window is cut without a start or an end', e.site)
            continue
        c.ob('windows are cut from the data', cut.a[0].op == 'Param' and cut.a[0].a[0] == fn[0] or not any(x.op == 'Param' and x.a[0] == fn[0] for x in walk(cut.a[0])) or cut.a[0].op != 'Param', 'source of the window')
        c.ob('the function gets its arguments with each window', len(e.args) > 1 and e.args[1].op == 'Param' and e.args[1].a[0] == fn[4] or any(getattr(v, 'op', '') == 'Param' and v.a[0] == fn[4] for v in dict(e.kw or {}).values()), 'arguments of the function', 'the function is not called with its arguments', e.site)
        mids = [x for x in R.events if x.kind in ('append', 'mcall') and x.name in (None, 'append') and x.loops == e.loops and x.args and any(y.op == 'Fld' and y.a[1] in ('starttime', 'endtime') for y in walk(x.args[0])) and not any(y.op == 'CallV' for y in walk(x.args[0]))]
        idx = mk('Idx', e.loops[-1])
        for a, b, w, ov in SPANS:
            kw = {fn[0]: (Obj(stats=Obj(starttime=a, endtime=b, npts=round((b - a) * 100) + 1, delta=0.01, sampling_rate=100.0)),), fn[2]: w, fn[3]: ov}
            terms = [lo, hi, loop['iter']] + [m.args[0] for m in mids]
            env = params(terms, kw)
            key = f'data of {b - a:g} s, windows of {w:g} s, overlap {ov:g}'
            try:
                n = len(range(*[int(ev(x, env)) for x in loop['iter'].a])) if loop['iter'].op == 'Range' else None
                if n is None:
                    raise Unknown(loop['iter'])
                L = [ev(lo, {**env, idx.id: i}) for i in range(n)]
                H = [ev(hi, {**env, idx.id: i}) for i in range(n)]
                M = [[ev(m.args[0], {**env, idx.id: i, cut.id: (Obj(stats=Obj(starttime=L[i], endtime=H[i], delta=0.01, sampling_rate=100.0)),)}) for i in range(n)] for m in mids]
            except Unknown as u:
                if len(u.args) > 1 and isinstance(u.args[1], ZeroDivisionError):
                    c.ob('windows have the length given and cover the data', False, key, 'the number or start of the windows divides by zero', e.site)
                    continue
                c.note(f'windows: not evaluated: {str(u)[:150]}')
                return
            g = 'windows have the length given and cover the data'
            if not n:
                c.ob(g, False, key, 'no window is made', e.site)
                continue
            tol = 0.005
            c.ob(g, abs(L[0] - a) < tol, key + ': start', f'the first window starts {L[0] - a:g} s after the data', e.site)
            c.ob(g, n == 1 or abs(H[-1] - b) < tol, key + ': end', f'the last window ends {b - H[-1]:g} s before the data', e.site)
            c.ob(g, all(abs(h - l - w) < tol for l, h in zip(L, H)), key + ': length', f'windows are {H[0] - L[0]:g} s long', e.site)
            step = (b - a - w) / (n - 1) if n > 1 else 0
            c.ob('windows are evenly spaced and overlap as much as asked', all(abs(q - p - step) < tol for p, q in zip(L, L[1:])), key, 'windows are not evenly spaced', e.site)
            c.ob('windows are evenly spaced and overlap as much as asked', step <= w * (1 - ov) + tol, key + ': overlap', f'windows start {step:g} s apart', e.site)
            c.ob('windows are evenly spaced and overlap as much as asked', n <= 2 or (b - a - w) / (n - 2) > w * (1 - ov) - tol / n, key + ': number', f'{n} windows are more than needed', e.site)
            for m in M:
                c.ob('the time of a window is its middle', all(abs(t - (l + w / 2)) < tol for t, l in zip(m, L)), key, f'the time is {m[0] - L[0]:g} s after the start of the window', e.site)
        # one window only
        kw = {fn[0]: (Obj(stats=Obj(starttime=50.0, endtime=55.0, npts=501, delta=0.01, sampling_rate=100.0)),), fn[2]: 5.0, fn[3]: 0.0}
        try:
            env = params([lo, hi, loop['iter']], kw)
            n = len(range(*[int(ev(x, env)) for x in loop['iter'].a])) if loop['iter'].op == 'Range' else None
            if n == 1:
                try:
                    s = ev(lo, {**env, idx.id: 0})
                except Unknown as u:
                    s = math.nan
                    if not (len(u.args) > 1 and isinstance(u.args[1], ZeroDivisionError)) and 'ZeroDivision' not in repr(u.args):
                        raise
                c.ob('windows have the length given and cover the data', abs(s - 50.0) < 0.005, 'data of just one window', f'the start of the only window is {s}', e.site)
        except Unknown as u:
            c.note(f'a single window is not evaluated: {str(u)[:150]}')
        columns(c, R, e, fn, mids)
    c.need('windows have the length given and cover the data', 10, 'windows')


def columns(c, R, call, fn, mids):
    """Every column grows by one value per window."""
    g = 'every column has one value for each window'
    lid = call.loops[0]
    res = call.value if getattr(call, 'value', None) is not None else None
    is_res = lambda x: x.op == 'CallV' and x.a[0].op == 'Param' and x.a[0].a[0] == fn[1]
    vals = [e for e in R.events if e.kind in ('mcall', 'append') and e.name in (None, 'append') and len(e.loops) == 2 and e.loops[0] == lid and e.args and e.args[0].op == 'Index' and is_res(e.args[0].a[0])]
    nans = [e for e in R.events if e.kind in ('mcall', 'append') and e.name in (None, 'append') and len(e.loops) == 2 and e.loops[0] == lid and e.args and (e.args[0].op == 'Ext' and e.args[0].a[0].endswith('.nan') or is_const(e.args[0]) and (cval(e.args[0]) is None or isinstance(cval(e.args[0]), float)))]
    new = [e for e in R.events if e.kind == 'setitem' and len(e.loops) == 2 and e.loops[0] == lid]
    if len(vals) != 1 or len(nans) > 1 or len(new) > 1 or not mids:
        c.note('how the columns are made is not recognised')
        return
    v = vals[0]
    it = R.interp.loops[v.loops[1]]['iter']
    own = it is not None and any(is_res(x) for x in walk(it))
    if not own:
        c.note('the loop over the values of a window is not recognised')
        return
    base = len(call.pc)
    c.ob(g, len(v.pc) <= base, 'value of a window', f'the value is left out unless {show(v.pc[-1], 80) if v.pc else ""}', v.site)
    if not new:
        c.ob(g, False, 'new column', 'a column that first appears in a later window has no place', call.site)
    else:
        e = new[0]
        # length of the filler
        idx = mk('Idx', lid)
        for i in (0, 1, 4):
            env = {idx.id: i, 'calls': {'numpy.repeat': lambda x, n: (x,) * n, 'numpy.full': lambda n, x: (x,) * n, 'builtins.list': lambda x: tuple(x)}}
            try:
                f = ev(e.args[1], env)
            except Unknown as u:
                c.note(f'filler of a new column is not evaluated: {str(u)[:100]}')
                break
            if isinstance(f, (tuple, list)):
                c.ob(g, len(f) == i and all(isinstance(x, float) and math.isnan(x) for x in f), f'new column at window {i}', f'a column first seen in window {i} starts with {len(f)} values', e.site)
    if not nans:
        c.ob(g, False, 'missing value', 'a column without a value in a window gets none', call.site)
        return
    e = nans[0]
    key_out = [x for p in e.pc for x in walk(p) if x.op == 'Key']
    if not key_out:
        c.note('the loop over the columns is not recognised')
        return
    k = key_out[0]
    for name, inside in (('rms_a', True), ('rms_b', False), ('t_mid', False), ('mean_coef', True)):
        want = not inside and name != 't_mid'
        env = {k.id: name}
        for p in e.pc:
            for x in walk(p):
                if x.op == 'MCall' and x.a[1] == 'keys' and is_res(x.a[0]) or is_res(x):
                    env[x.id] = ('rms_a', 'mean_coef')
        r = [evs(p, env) for p in e.pc[base:]]
        if None in r:
            c.note('when a missing value is filled is not evaluated')
            break
        c.ob(g, all(r) == want, f'missing value of {name}', 'a value missing in a window is not marked' if want else 'a column gets two values for one window', e.site)


def pairs(c):
    R = c.ctx.run(PAIR)
    fn = argnames(c, PAIR)
    sets = [e for e in R.events if e.kind == 'setitem' and len(e.loops) == 1 and len(e.args) == 2]
    named = {}
    for e in sets:
        p = e.args[0]
        while p.op == 'StrCat':
            p = p.a[0]
        if is_const(p) and isinstance(cval(p), str) and cval(p).startswith(('rms', 'lag', 'r_')):
            named[e] = cval(p)
    if not named:
        c.undecided.append('the results of a window are not recognised')
        return
    for case in ((None, 100, 0.01), (0.5, 50, 0.01), (2, 200, 0.01), (0.6, 240, 0.0025), (None, 100, 0.01, 2), (None, 100, 0.01, 4), (None, 100, 0.01, 5)):
        if not pair_results(c, R, fn, named, *case):
            return
    c.need('each pair of neighbours has lag and coefficient under its own name', 9, 'results of a window')


def pair_results(c, R, fn, named, shiftsec, lim, dt, ns=3):
    stn = [Obj(network='N%d' % i, station='S%d' % i, location='L%d' % i, channel='HDF', delta=dt, sampling_rate=1 / dt, npts=500) for i in range(ns)]
    wave = [Obj(stats=stn[i], data='d%d' % i, id='N%d.S%d.L%d.HDF' % (i, i, i), std=(lambda *a, i=i, **k: 10.0 + i)) for i in range(ns)]
    shift = {('d%d' % i, 'd%d' % ((i + 1) % ns)): r for i, r in zip(range(ns), ((3, 0.5), (-7, 0.25), (2, 0.75), (5, 0.125), (-1, 0.375)))}
    limit = []

    def correlate(a, b, n, *r, **k):
        limit.append(n)
        if k.get('demean', True) is not True or k.get('normalize', 'naive') not in ('naive', True):
            return None
        return (a, b)

    def peak(cc, abs_max=True):
        if abs_max is not False:
            return (-100, -1.0)
        return shift.get(cc, (99, 9.0)) if cc is not None else (98, 8.0)

    want = {}
    for i in range(ns):
        j = (i + 1) % ns
        a, b = ('N%d.S%d.L%d' % (n, n, n) for n in (i, j))
        s, r = shift[('d%d' % i, 'd%d' % j)]
        want[f'rms_{a}'] = 10.0 + i
        want[f'lag_{a}_{b}'] = s * dt
        want[f'r_{a}_{b}'] = r
    calls = {'obspy.signal.cross_correlation.correlate': correlate, 'obspy.signal.cross_correlation.xcorr_max': peak, 'numpy.std': lambda d, *a, **k: 10.0 + int(d[1:])}
    got = {}
    g = 'each pair of neighbours has lag and coefficient under its own name'
    opts = Obj(get=lambda k, d=None, s=shiftsec: {'maxshift_seconds': s}.get(k, d) if k != 'maxshift_seconds' or s is not None else d)
    kw = {fn[0]: tuple(wave), fn[1]: opts}
    for e in named:
        lid = e.loops[0]
        lp = R.interp.loops[lid]
        terms = list(e.args) + [lp['iter']] + list(e.pc)
        for i in range(ns):
            env = params(terms, kw)
            env['calls'] = calls
            env[mk('Idx', lid).id] = i
            try:
                if not all(ev(p, env) for p in e.pc):
                    continue
                got[ev(e.args[0], env)] = (ev(e.args[1], env), e.site)
            except Unknown as u:
                if len(u.args) > 1 and isinstance(u.args[1], IndexError):
                    c.ob(g, False, f'sensor {i} of {ns}', f'{show(u.args[0], 4)}: no such sensor', e.site)
                    return False
                c.note(f'results of a window: not evaluated: {str(u)[:150]}')
                return False
    c.ob('the largest shift is the one given, in samples', bool(limit) and all(abs(x - lim) < 0.5 for x in limit), f'largest shift {shiftsec}, {dt} s per sample', f'the largest shift is {limit[:1]} samples of {dt} s')
    n = [len(range(*[int(ev(x, {**params([R.interp.loops[l]["iter"]], {fn[0]: tuple(wave)})})) for x in R.interp.loops[l]['iter'].a])) if R.interp.loops[l]['iter'].op == 'Range' else ns for l in {e.loops[0] for e in named}]
    for k, w in want.items():
        v = got.get(k)
        c.ob(g, v is not None and isinstance(v[0], (int, float)) and abs(v[0] - w) < 1e-9, f'{k} of {ns}, {dt} s per sample', f'{k} is {v[0]!r}, not {w!r}' if v else f'{k} is missing', v[1] if v else None)
    c.ob(g, all(x == ns for x in n), f'number of pairs of {ns}', f'{n} pairs of {ns} sensors')
    for k in got:
        if k.split('_')[0] in ('rms', 'lag', 'r') and k not in want:
            c.ob(g, False, f'name {k}', f'a result is named {k}', got[k][1])
    # mean coefficient
    v = R.value
    m = None
    for x in walk(v) if v is not None else ():
        if x.op in ('OpenDict', 'Dict'):
            for pr in x.a:
                if isinstance(pr, tuple) and len(pr) == 2 and pr[0] == 'mean_coef' or isinstance(pr, tuple) and len(pr) == 2 and not isinstance(pr[0], str) and getattr(pr[0], 'op', '') == 'Const' and pr[0].a[0] == 'mean_coef':
                    m = pr[1]
    if m is not None:
        try:
            env = params([x for l in R.interp.loops.values() for x in list(l['next'].values()) + list(l['init'].values()) + [l['iter']] if x is not None] + [m], kw)
            env.update(calls=calls, loops=R.interp.loops)
            x = ev(m, env)
            w = sum(r for _, r in shift.values()) / ns
            c.ob('mean_coef is the mean of the coefficients', abs(x - w) < 1e-9, f'mean_coef of {ns}', f'a mean of {w:g} comes out as {x:g}')
        except Unknown as u:
            c.note(f'mean_coef: not evaluated: {str(u)[:120]}')
    else:
        c.note('mean_coef is not recognised')
    return True


def one_day(c):
    R = c.ctx.run(DAY, no_inline=(WIN, UPS, VALID, PAIR))
    fn = argnames(c, DAY)
    g = 'filter, windows and upsampling follow the options given'
    flt = [e for e in R.events if e.kind == 'mcall' and e.name == 'filter']
    win = [e for e in R.events if e.kind in ('call', 'pcall') and e.name == WIN]
    ups = [e for e in R.events if e.kind in ('call', 'pcall') and e.name == UPS]
    cases = [dict(fl=2.0, fh=9.0, win_length_sec=30.0, overlap=0.5, upsample_ratio=4.0), dict(fl=1.0, fh=40.0, win_length_sec=6.0, overlap=0.0, upsample_ratio=1), dict(fl=2.0, fh=9.0, win_length_sec=30.0, upsample_ratio=3.0),
             dict(win_length_sec=8.0, upsample_ratio=2.5), dict(win_length_sec=8.0), dict(fl=2.0, fh=9.0, win_length_sec=30.0, overlap=0.5)]
    default = dict(fl=5, fh=40, win_length_sec=5, overlap=0, upsample_ratio=1)
    wn = argnames(c, WIN)
    for given in cases:
        full = {**default, **given}
        opts = Obj(get=lambda k, d=None: given.get(k, d), **given)
        key = f'options {given}'

        def val(t, e=None):
            return ev(t, params([t], {fn[1]: opts}))
        try:
            if not flt:
                c.ob(g, False, 'filter', 'the data are not filtered')
            for e in flt:
                lo, hi = arg(e, 1, 'freqmin'), arg(e, 2, 'freqmax')
                kind = arg(e, 0, 'type')
                c.ob(g, kind is not None and is_const(kind) and cval(kind) == 'bandpass' and lo is not None and hi is not None and val(lo) == full['fl'] and val(hi) == full['fh'] and not e.loops and all(val(p) for p in e.pc), key + ': filter', f'the filter is {show(kind, 20) if kind is not None else None} {val(lo) if lo is not None else None}–{val(hi) if hi is not None else None} Hz', e.site)
            for e in win:
                wl, ov = arg(e, 2, wn[2]), arg(e, 3, wn[3])
                c.ob(g, wl is not None and val(wl) == full['win_length_sec'], key + ': window', 'windows have another length', e.site)
                c.ob(g, ov is not None and val(ov) == full['overlap'], key + ': overlap', 'windows have another overlap', e.site)
                f = arg(e, 1, wn[1])
                c.ob(g, f is not None and f.op == 'Fn' and f.a[0] == PAIR, key + ': function', 'windows are not correlated', e.site)
                a = arg(e, 4, wn[4])
                c.ob(g, a is not None and any(x.op == 'Param' and x.a[0] == fn[1] for x in walk(a)), key + ': arguments', 'the options do not reach the correlation', e.site)
            on = [e for e in ups if all(val(p) for p in e.pc)]
            if full['upsample_ratio'] != 1:
                r = None
                if on:
                    r = arg(on[0], 1, 'N')
                    r = val(r) if r is not None else None
                c.ob(g, len(on) == 1 and r == full['upsample_ratio'], key + ': upsampling', f'the data are upsampled by {r}' if on else 'the data are not upsampled')
            else:
                c.ob(g, not on or all(val(arg(e, 1, 'N')) == 1 for e in on), key + ': no upsampling', 'the data are upsampled')
        except Unknown as u:
            if len(u.args) > 1 and isinstance(u.args[1], AttributeError):
                c.ob(g, False, key, f'an option that was not given is used: {u.args[1]}')
                continue
            c.note(f'{key}: not evaluated: {str(u)[:150]}')
    if not win:
        c.note('the windows of a day are not recognised')
    elif flt:
        c.ob(g, all(e.order < win[0].order for e in flt), 'order', 'the data are filtered after they are correlated')
    for e in ups:
        c.ob(g, all(e.order < f.order for f in flt), 'upsampling first', 'the data are filtered before they are upsampled')
    c.need(g, 10, 'options of a day')


def upsampled(c):
    R = c.ctx.run(UPS)
    fn = argnames(c, UPS)
    g = 'upsampling keeps the time of the data'
    data = [e for e in R.events if e.kind == 'setattr' and e.name == 'data' and e.loops]
    delta = [e for e in R.events if e.kind == 'setattr' and e.name in ('delta', 'sampling_rate') and e.loops]
    if not data:
        c.note('upsampled data are not recognised')
        return

    class Line:
        def __init__(self, x, y, *a, **k):
            self.x, self.y = np.asarray(x, float), np.asarray(y, float)

        def __call__(self, t, *a, **k):
            return np.interp(np.asarray(t, float), self.x, self.y, np.nan, np.nan)
    calls = {'numpy.arange': np.arange, 'numpy.linspace': np.linspace, 'numpy.interp': np.interp, **{'scipy.interpolate.' + k: Line for k in ('CubicSpline', 'interp1d', 'PchipInterpolator', 'Akima1DInterpolator')}}
    for n in (2, 4.0, 3):
        y = np.array([1.0, 2.0, 4.0, 8.0, 16.0, 31.0])
        tr = Obj(data=y, stats=Obj(npts=6, delta=0.01, sampling_rate=100.0, network='', station='', location=''))
        for e in data + delta:
            env = params([e.args[1], e.recv] + [R.interp.loops[l]['iter'] for l in e.loops], {fn[0]: (tr,), fn[1]: n})
            env['calls'] = calls
            env[mk('Idx', e.loops[-1]).id] = 0
            try:
                v = ev(e.args[1], env)
            except Unknown as u:
                c.note(f'upsampling: not evaluated: {str(u)[:150]}')
                return
            if e.name == 'data':
                w = np.interp(np.arange(len(v)) / n, np.arange(6), y, np.nan, np.nan)
                ok = len(v) >= n * 5 and not np.isnan(np.asarray(v)).any() and np.allclose(v, w)
                c.ob(g, bool(ok), f'data, ratio {n}', 'the samples are not those at the new times', e.site)
            else:
                c.ob(g, abs(v - (0.01 / n if e.name == 'delta' else 100.0 * n)) < 1e-9, f'{e.name}, ratio {n}', f'the {e.name} becomes {v:g}', e.site)
    if not delta:
        c.ob(g, False, 'rate', 'the sampling rate of the data is left as it was')


# ---------------------------------------------------------------- C19

class Cols(Obj):
    """A table whose columns are items and attributes."""

    @property
    def shape(self):
        return (len(next(iter(vars(self).values()))), len(vars(self)))

    @property
    def columns(self):
        return tuple(vars(self))

    def keys(self):
        return tuple(vars(self))

    def copy(self, *a, **k):
        return self


SENSORS = [('XX', 'C', '00', 0.0, 0.1), ('XX', 'A', '01', 0.3, 0.0), ('YY', 'A', '', -0.2, -0.15), ('XX', 'A', '00', 0.05, 0.4)]
IDS = tuple(f'{n}.{s}.{l}' for n, s, l, _, _ in SENSORS)
WAVES = [(30.0, 3.0), (135.0, 2.5), (250.0, 3.5), (300.0, 1.0)]       # direction it comes from, slowness


def lag_table():
    """Results of windows with plane waves crossing the sample sensors."""
    cols = {'t_mid': tuple(range(len(WAVES))), 'mean_coef': (0.9,) * len(WAVES), 'consistency': (True,) * len(WAVES)}
    for i, a in enumerate(IDS):
        j = (i + 1) % len(IDS)
        cols[f'rms_{a}'] = np.ones(len(WAVES))
        lag = []
        for az, slow in WAVES:
            sx, sy = -slow * math.sin(math.radians(az)), -slow * math.cos(math.radians(az))
            lag.append(sx * (SENSORS[i][3] - SENSORS[j][3]) + sy * (SENSORS[i][4] - SENSORS[j][4]))
        cols[f'lag_{a}_{IDS[j]}'] = np.array(lag)
        cols[f'r_{a}_{IDS[j]}'] = np.full(len(WAVES), 0.8)
    return Lags(**cols)


class Lags(Cols):
    """A lag table: columns it does not have are of no use."""

    def __getitem__(self, k):
        return getattr(self, k) if not isinstance(k, str) or k in vars(self) else np.full(len(WAVES), np.nan)


def inverse(f):
    def g(x, *a, **k):
        try:
            return f(x, *a, **k)
        except np.linalg.LinAlgError:
            return np.full(np.shape(x), np.nan)
    return g


POS = {'network': [s[0] for s in SENSORS], 'station': [s[1] for s in SENSORS], 'location': [s[2] for s in SENSORS], 'ID': list(IDS), 'x': [s[3] for s in SENSORS], 'y': [s[4] for s in SENSORS], 'z': [7.0, 8.0, 9.0, 10.0]}
LINALG = {'numpy.linalg.inv': inverse(np.linalg.inv), 'numpy.linalg.pinv': np.linalg.pinv, 'numpy.linalg.lstsq': lambda a, b, *r, **k: np.linalg.lstsq(a, b, rcond=None), 'numpy.linalg.solve': np.linalg.solve,
          'numpy.array': np.array, 'numpy.asarray': np.asarray, 'numpy.dot': np.dot, 'numpy.matmul': np.matmul, 'numpy.arctan2': np.arctan2, 'numpy.sqrt': np.sqrt, 'numpy.sum': np.sum, 'numpy.hypot': np.hypot, 'numpy.linalg.norm': np.linalg.norm,
          'numpy.rad2deg': np.rad2deg, 'numpy.degrees': np.degrees, 'math.atan2': math.atan2, 'math.degrees': math.degrees, 'math.hypot': math.hypot, 'math.sqrt': math.sqrt, 'numpy.mod': np.mod, 'numpy.transpose': np.transpose,
          're.search': __import__('re').search, 're.match': __import__('re').match, 'numpy.vstack': np.vstack, 'numpy.column_stack': np.column_stack, 'numpy.square': np.square, 'numpy.negative': np.negative, 'numpy.isin': np.isin}


def look_values(terms, env):
    """Bindings of the look-ups of positions by code."""
    from ..relq import lookup
    out = {}
    seen = set()
    for r in terms:
        for x in walk(r):
            if x.id in seen or x.op not in ('Index', 'Fld', 'MCall', 'Call'):
                continue
            seen.add(x.id)
            l = lookup(x)
            if l is None or l.col not in POS or not l.conds or not any(y.op == 'Param' for y in walk(l.table)):
                continue
            try:
                want = [(a, ev(v, env)) for a, v in l.conds]
            except Unknown:
                continue
            hit = [i for i in range(len(IDS)) if all(a in POS and POS[a][i] == v for a, v in want)]
            if hit and l.which in (0, -1):
                out[x.id] = POS[l.col][hit[l.which]]
    return out


class Rows:
    """A table of positions in a given order, with the labels it has."""

    def __init__(self, order, labels):
        self.order, self.labels = tuple(order), tuple(labels)
        self.loc = self.at = Pick(lambda i, k: POS[k][self.order[self.labels.index(i)]])
        self.shape = (len(order), len(POS))
        self.index = self.labels

    def __len__(self):
        return len(self.order)


class Obj2(types.SimpleNamespace):
    """Something with items only."""

    def __init__(self, pick):
        super().__init__()
        self._pick = pick

    def __getitem__(self, k):
        return self._pick[k]


class Pick:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        i, col = k
        return self.f(int(i), col)


def sorted_tables(terms, name):
    """The sizes of the tables made by sorting or choosing rows of the positions, and what is looked up in them by row number."""
    out = {}
    for t in terms:
        for x in walk(t):
            if x.op == 'MCall' and x.a[1] == 'sort_values' and any(y.op == 'Param' and y.a[0] == name for y in walk(x.a[0])):
                kw = dict(x.a[3]) if len(x.a) > 3 and x.a[3] else {}
                by = x.a[2][0] if x.a[2] else kw.get('by')
                if by is None or not is_const(by) or cval(by) not in POS or set(kw) - {'by', 'ignore_index'}:
                    continue
                order = sorted(range(len(IDS)), key=lambda i: POS[cval(by)][i])
                new = 'ignore_index' in kw and is_const(kw['ignore_index'], True)
                rows = Rows(order, range(len(IDS)) if new else order)
                for u in terms:
                    for y in walk(u):
                        if y.op == 'Fld' and y.a[0] is x and y.a[1] == 'shape':
                            out[y.id] = rows.shape
                        elif y.op == 'Fld' and y.a[0] is x and y.a[1] in ('loc', 'at'):
                            out[y.id] = Obj2(rows.loc)
                        elif y.op == 'Cmp' and y.a[0] == '==' and any(k.op in ('Fld', 'Index') and k.a[0] is x and (k.a[1] in POS if isinstance(k.a[1], str) else is_const(k.a[1]) and cval(k.a[1]) in POS) for k in y.a[1:]):
                            k = next(k for k in y.a[1:] if k.op in ('Fld', 'Index') and k.a[0] is x)
                            col = k.a[1] if isinstance(k.a[1], str) else cval(k.a[1])
                            out[k.id] = np.array([POS[col][i] for i in order], dtype=object)
    return out


def lists_of(R, env, terms):
    """Contents of lists filled by appending in for loops, evaluated in order and bound in env."""
    refs = []
    for e in R.events:
        if e.kind == 'append' and e.loops and e.recv.op == 'Ref' and e.recv not in refs:
            refs.append(e.recv)
    for ref in refs:
        evts = [e for e in R.events if e.kind == 'append' and e.recv is ref]
        if len(evts) != 1 or len(evts[0].loops) != 1:
            continue
        e = evts[0]
        lp = R.interp.loops[e.loops[0]]
        if lp['kind'] != 'for' or lp['iter'] is None or lp.get('has_break'):
            continue
        try:
            v = reordered(R, ref, appended(e, lp, env))
        except Unknown:
            continue
        env[ref.id] = v
        for r in terms:
            for x in walk(r):
                if x.op == 'OpenList' and x.a and x.a[0] is ref:
                    env[x.id] = v
    return env


def reordered(R, ref, v):
    """The contents of a list after what is done to it once it is filled."""
    last = max((e.order for e in R.events if e.kind == 'append' and e.recv is ref), default=0)
    for e in sorted((e for e in R.events if e.kind == 'mcall' and e.recv is ref and e.name in ('sort', 'reverse', 'remove', 'clear', 'insert', 'pop', 'extend')), key=lambda e: e.order):
        if e.loops or e.order < last or e.name not in ('sort', 'reverse') or 'key' in dict(e.kw or {}):
            raise Unknown(ref)
        rev = dict(e.kw or {}).get('reverse')
        v = tuple(reversed(v)) if e.name == 'reverse' else tuple(sorted(v, reverse=bool(rev is not None and cval(rev))))
    return tuple(v)


def appended(e, lp, env):
    from ..evalterm import seq_of
    n, bind = seq_of(lp['iter'], env)
    out = []
    what = (e.extra or {}).get('now', e.args)[0]
    idx = mk('Idx', e.loops[0])
    for i in range(n):
        e2 = {**env, **bind, idx.id: i}
        e2.update(look_values([what] + list(e.pc), e2))
        if all(ev(p, e2) for p in e.pc[len(lp.get('pc') or ()):]):
            out.append(ev(what, e2))
    return tuple(out)


def all_terms(R):
    t = [a for e in R.events for a in list(e.args or ()) + list((e.kw or {}).values()) + list(e.pc) + list((e.extra or {}).get('now', ()) if isinstance(e.extra, dict) else ())]
    t += [e.recv for e in R.events if e.recv is not None]
    t += [lp['iter'] for lp in R.interp.loops.values() if lp['iter'] is not None]
    return t + ([R.value] if R.value is not None else [])


@rule('C19')
def c19(c):
    """The two columns added to the lag table, evaluated for sensors at known places and the lags of plane waves crossing them (positions looked up by code); columns of
    positions, evaluated with the projection left abstract."""
    if not c.ctx.has(INV):
        c.undecided.append('no inversion')
        return
    R = c.ctx.run(INV)
    fn = argnames(c, INV)
    df = lag_table()
    env = {'calls': LINALG, 'loops': R.interp.loops}
    terms = all_terms(R)
    env.update(params(terms, {fn[0]: df}))
    for x in {y.id: y for t in terms for y in walk(t) if y.op == 'Param' and y.a[0] == fn[1]}.values():
        env[x.id] = Cols(**{k: v for k, v in POS.items() if k != 'ID'})
    env.update(sorted_tables(terms, fn[1]))
    lists_of(R, env, terms)
    g = 'backazimuth and slowness are those of the wave'
    out = {}
    cols = [e for e in R.events if e.kind == 'setitem' and is_const(e.args[0]) and isinstance(cval(e.args[0]), str)]
    for e in cols:
        name = cval(e.args[0])
        if name not in ('backazimuth', 'slowness'):
            continue
        try:
            out[name] = (col_values(R, e.args[1], env, len(WAVES)), e.site)
        except Unknown as u:
            c.note(f'{name}: not evaluated: {str(u)[:200]}')
            continue
    for name in ('backazimuth', 'slowness'):
        if name not in out:
            if not any(cval(e.args[0]) == name for e in cols):
                c.note(f'{name} is not recognised')
            continue
        v, site = out[name]
        for i, (az, slow) in enumerate(WAVES):
            if name == 'slowness':
                c.ob(g, abs(v[i] - slow) < 1e-6, f'slowness {slow} from {az}', f'comes out as {v[i]:g}', site)
            else:
                c.ob(g, abs((v[i] - az + 180) % 360 - 180) < 1e-6, f'direction {az}', f'comes out as {v[i]:g}', site)
    # what is returned
    if R.value is not None:
        roots = set()
        for lf in alts(R.value):
            b = lf
            while b.op in ('Upd', 'Eff'):
                b = b.a[0]
            roots.add(b)
        c.ob('the lag table is returned with the results', all(b.op == 'Param' and b.a[0] == fn[0] or any(x.op == 'Param' and x.a[0] == fn[0] for x in walk(b)) for b in roots), 'value returned', 'something else is returned')
    codes(c, R, fn)
    if c.ctx.has(COORD):
        coordinates(c)
    if g not in c.groups:
        c.note('the inversion is not recognised')


def col_values(R, v, env, n):
    """Values of a column: an array filled item by item, a list filled by appending, or one formula."""
    sets = [e for e in R.events if e.kind == 'setitem' and len(e.loops) == 1 and (lambda b: b is v)(strip(e.recv)) and e.args[0].op == 'Idx']
    if sets:
        out = [math.nan] * n
        for e in sets:
            for i in range(n):
                e2 = {**env, mk('Idx', e.loops[0]).id: i}
                out[i] = float(ev(e.args[1], e2))
        return out
    x = ev(v, env)
    x = [float(y) for y in x]
    if len(x) != n:
        raise Unknown(v)
    return x


def strip(t):
    while t is not None and (t.op in ('Upd', 'Eff') or t.op == 'MCall' and t.a[1] in ('copy', 'reset_index')):
        t = t.a[0]
    return t


def codes(c, R, fn):
    """The code by which a position is found."""
    from ..lib import upd_entries
    g = 'a position is found by network, station and location'
    for e in R.events:
        if e.kind == 'setitem' and is_const(e.args[0]) and cval(e.args[0]) == 'ID' and strip(e.recv).op == 'Param' and strip(e.recv).a[0] == fn[1]:
            env = params([e.args[1]], {fn[1]: Cols(**{k: tuple(v) for k, v in POS.items() if k != 'ID'})})
            try:
                v = ev(e.args[1], {**env, 'loops': R.interp.loops})
                c.ob(g, tuple(v) == IDS, 'code of a position', f'{tuple(v)[:2]} for {IDS[:2]}', e.site)
            except Unknown as u:
                c.note(f'code of a position: not evaluated: {str(u)[:150]}')


KIND = {'Inventory': 'obspy.Inventory', 'Stream': 'obspy.Stream'}


def coordinates(c):
    R = c.ctx.run(COORD)
    g = 'positions are those of the sensors, under their codes'
    v = R.value
    fn = argnames(c, COORD)
    where = {'n0.s0.l0.HDF': (44.0, -116.0, 10.0), 'n1.s1.l1.HDF': (44.5, -115.0, 20.0), 'n2.s2.l2.HDF': (45.5, -114.0, 60.0)}
    inv = Obj(kind='Inventory', get_contents=lambda: {'channels': tuple(where)}, get_coordinates=lambda s, *a: dict(zip(('latitude', 'longitude', 'elevation'), where[s])))
    geo = lambda lon0, lat0, lon, lat: (lon - lon0, 10 * (lat - lat0))
    stream = tuple(Obj(stats=Obj(network=f'n{i}', station=f's{i}', location=f'l{i}', coordinates={'x': 1.0 + i, 'y': 5.0 - i, 'elevation': 30.0 * i}), id=f'n{i}.s{i}.l{i}.HDF') for i in range(3))
    geom = np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 9.0, 11.0], [-116.0, 44.0, 100.0]])
    lonlat = lambda x, coordsys='lonlat', return_center=False, **k: geom if return_center is True and coordsys == 'lonlat' else geom * 0 - 1
    arrays = [x for x in walk(v) if x.op == 'Call' and x.a[0] in ('numpy.zeros', 'numpy.empty')]
    cases = {'an inventory': (inv, 'Inventory', False, {'x': [-1.0, 0.0, 1.0], 'y': [-20 / 3, -5 / 3, 25 / 3], 'z': [10.0, 20.0, 60.0]}),
             'a stream with longitude and latitude': (stream, 'Stream', False, {'x': [1.0, 4.0, 7.0], 'y': [2.0, 5.0, 9.0], 'z': [103.0, 106.0, 111.0]}),
             'a stream with x and y': (stream, 'Stream', True, {'x': [1.0, 2.0, 3.0], 'y': [5.0, 4.0, 3.0], 'z': [0.0, 30.0, 60.0]})}
    data = next((x for x in walk(v) if x.op == 'Call' and x.a[0] == 'pandas.DataFrame'), None)
    if data is None or not data.a[1]:
        c.note('the table of positions is not recognised')
        return
    terms = all_terms(R)
    for what, (x, kind, failed, want) in cases.items():
        env = params(terms, {fn[0]: x})
        env['loops'] = R.interp.loops
        env['calls'] = {'obspy.signal.util.util_geo_km': geo, 'obspy.signal.array_analysis.get_geometry': lonlat, 'builtins.type': lambda o: KIND['Inventory' if o is inv else 'Stream'], 'numpy.mean': lambda a, *r, **k: float(np.mean(a)), 'numpy.array': np.array,
                        'builtins.isinstance': lambda o, t: t == KIND['Inventory' if o is inv else 'Stream']}
        for r in terms:
            for y in walk(r):
                if y.op == 'Ext' and y.a[0] in ('obspy.Stream', 'obspy.Inventory', 'obspy.core.stream.Stream', 'obspy.core.inventory.Inventory'):
                    env[y.id] = KIND[y.a[0].split('.')[-1]]
                if y.op == 'Exc':
                    env[y.id] = failed
        # arrays filled item by item
        for arr in arrays:
            sets = [e for e in R.events if e.kind == 'setitem' and len(e.loops) == 1 and strip(e.recv) is arr and e.args[0].op == 'Idx']
            if sets and kind == 'Inventory':
                try:
                    env[arr.id] = [ev(sets[0].args[1], {**env, mk('Idx', sets[0].loops[0]).id: i}) for i in range(3)]
                except Unknown as u:
                    c.note(f'positions of {what}: not evaluated: {str(u)[:150]}')
        try:
            tab = ev(data.a[1][0], env)
        except Unknown as u:
            c.note(f'positions of {what}: not evaluated: {str(u)[:200]}')
            continue
        if not isinstance(tab, dict):
            c.note(f'positions of {what} are not columns')
            continue
        want = {**want, 'network': ['n0', 'n1', 'n2'], 'station': ['s0', 's1', 's2'], 'location': ['l0', 'l1', 'l2']}
        for k, w in want.items():
            got = tab.get(k)
            ok = got is not None and len(got) == 3 and all((a == b) if isinstance(b, str) else abs(a - b) < 1e-6 for a, b in zip(got, w))
            c.ob(g, bool(ok), f'{what}: {k}', f'{list(got) if got is not None else None} instead of {w}')
