"""C27: names of converted files and contents of WAV files."""
import math
import posixpath
import types

import numpy as np

from . import rule
from ..evalterm import Stamp, Unknown, ev
from ..lib import alts, kids
from ..terms import contains, cval, is_const, show, walk

WRITE = 'gemlog.core._write_hourlong_mseed'
WAV = 'gemlog.core.write_wav'
TIMES = (Stamp(2020, 1, 2, 3, 4, 5, 6007), Stamp(2021, 12, 31, 23, 59, 59, 999999), Stamp(1999, 11, 10))
IDS = (('', 'GEM42', '', 'HDF'), ('XX', 'AB1', '00', 'HDF'))
FORMATS = ('mseed', 'SAC', 'wav', 'WAV')


def trace(when, ids, data=None, rate=100.0):
    stats = types.SimpleNamespace(starttime=when, endtime=when, network=ids[0], station=ids[1], location=ids[2], channel=ids[3], sampling_rate=rate, delta=1 / rate)
    name = '.'.join(ids)
    return types.SimpleNamespace(stats=stats, id=name, get_id=lambda: name, data=data)


def base(t):
    while t.op in ('Upd', 'Eff'):
        t = t.a[0]
    return t


def traces(t):
    """The trace terms whose statistics or identifier the term uses."""
    out = []
    for x in walk(t):
        if x.op == 'Fld' and x.a[1] in ('stats', 'id') or x.op == 'MCall' and x.a[1] == 'get_id':
            if not (x.op == 'Fld' and x.a[1] == 'id' and x.a[0].op == 'Fld'):
                out.append(x.a[0])
    return out


def evaluate(t, tr, member=None, data=None, **params):
    """Value of a term for one trace; member: what every membership test on a container that is built up answers."""
    env = {}
    for x in traces(t):
        env[x.id] = tr
    for x in walk(t):
        if x.op == 'Param' and x.a[0] in params:
            env[x.id] = params[x.a[0]]
        if x.op == 'Index' and x.a[0].op == 'Fld' and x.a[0].a[1] == 'stats' and is_const(x.a[1]):
            env[x.id] = getattr(tr.stats, str(cval(x.a[1])), None)
        if member is not None and x.op == 'Cmp' and x.a[0] in ('in', 'notin') and any(y.op in ('OpenList', 'Ref', 'OpenDict', 'Loop', 'OpenSet') for y in walk(x.a[2])):
            env[x.id] = member if x.a[0] == 'in' else not member
        if data is not None and x.op == 'Fld' and x.a[1] == 'data':
            env[x.id] = data
    return ev(t, env)


def dated(t):
    return t.strftime('%Y-%m-%dT%H_%M_%S')


def writes(R):
    out = []
    for e in R.events:
        if e.kind == 'mcall' and e.name == 'write' and e.args and e.recv is not None:
            kw = e.kw or {}
            out.append((e, e.args[0], e.recv, kw.get('format', e.args[1] if len(e.args) > 1 else None)))
        elif e.kind == 'call' and e.name.endswith('wavfile.write') and len(e.args or ()) >= 3:
            out.append((e, e.args[0], None, None))
    return out


def live(pc, tr, **params):
    for t in pc:
        try:
            if not evaluate(t, tr, **params):
                return False
        except Unknown:
            pass
    return True


@rule('C27')
def c27(c):
    """(1) The path of every write of a conversion, evaluated for sample moments, identifiers and formats, with and without an earlier trace of the same
    second; (2) the names it is compared with are remembered; (3) the format written is the one asked for; (4) WAV files: default name, samples, rate, refusal, and
    the trace is left alone."""
    if not c.ctx.has(WRITE):
        c.undecided.append('no window writer')
        return
    R = c.ctx.run(WRITE)
    ws = writes(R)
    if not ws:
        c.undecided.append('no write of a converted file is recognised')
        return
    for e, path, tr, fmt in ws:
        judge_name(c, R, e, path, tr, fmt)
    judge_wav(c)


def judge_name(c, R, e, path, tr, fmt):
    where = 'WAV' if tr is None else 'other formats'
    ts = {base(x) for x in traces(path)}
    subj = {base(tr)} if tr is not None else {base(x.a[0]) for a in e.args[1:] for x in walk(a) if x.op == 'Fld' and x.a[1] in ('data', 'stats')}
    if ts and subj:
        c.ob('a file is named after the trace in it', ts <= subj, where, ', '.join(show(x, 3) for x in ts - subj), e.site)
    unknown = False
    differs, same = [], True
    for f in FORMATS:
        for when in TIMES:
            for ids in IDS:
                t = trace(when, ids)
                kv = dict(output_format=f, convertedpath='OUT')
                if not live(e.pc, t, **kv):
                    continue
                want = {False: f'{dated(when)}.{".".join(ids)}.{f.lower()}', True: f'{dated(when)}_{when.microsecond:06d}.{".".join(ids)}.{f.lower()}'}
                for m in (False, True):
                    try:
                        got = evaluate(path, t, member=m, **kv)
                    except Unknown as u:
                        unknown = unknown or str(u)[:200]
                        continue
                    key = f'{where} {f} {".".join(ids)} {when}'
                    if m and got == 'OUT/' + want[False]:
                        same = same and True
                        continue
                    same = False if m else same
                    what = 'a trace starting in the same second gets its microseconds in the name' if m else 'a converted file is named by start, identifier and format'
                    c.ob(what, isinstance(got, str) and posixpath.normpath(got) == 'OUT/' + want[m], key, f'{got}, not OUT/{want[m]}', e.site)
    if unknown:
        c.note(f'the name of a converted file is not decided: {unknown}')
    else:
        c.ob('traces starting in the same second get different names', not same, where, 'the name does not depend on the names already given', e.site)
    mem = [x for x in walk(path) if x.op == 'Cmp' and x.a[0] in ('in', 'notin') and any(y.op in ('OpenList', 'Ref', 'OpenDict', 'OpenSet') for y in walk(x.a[2]))]
    if tr is not None and mem:
        adds = [a for a in R.events if (a.kind == 'append' or a.kind == 'mcall' and a.name in ('append', 'add')) and a.args]
        good = [a for a in adds if traces(a.args[0])]
        part = [x for x in mem if x.a[2].op == 'Index' and x.a[2].a[1].op == 'Slice' and x.a[2].a[0].op in ('OpenList', 'Ref')]
        c.ob('a name is compared with all names given', not part, where, show(part[0], 3) if part else '', e.site)
        if good:
            un = []
            for a in good:
                for g in a.pc:
                    if g not in e.pc:
                        un.append(g)
            c.ob('every name given is remembered', len(un) == 0 or len(good) > 1, where, ' and '.join(show(g, 3) for g in un), good[0].site)
    if tr is not None and fmt is not None:
        try:
            bad = [f for f in ('mseed', 'SAC') if str(evaluate(fmt, trace(TIMES[0], IDS[0]), output_format=f)).lower() != f.lower()]
            c.ob('the file is written in the format asked for', not bad, where, f'{bad}: {show(fmt, 3)}', e.site)
        except Unknown:
            c.note('the format written is not decided')


def judge_wav(c):
    if not c.ctx.has(WAV):
        c.note('no WAV writer')
        return
    from ..terms import Const
    R = c.ctx.run(WAV)
    ws = [e for e in R.events if e.kind == 'call' and e.name.endswith('wavfile.write') and len(e.args or ()) >= 3]
    if not ws:
        c.note('the WAV writer does not call wavfile.write')
        return
    for e in ws:
        path, rate, data = e.args[:3]
        for when in TIMES:
            for ids in IDS:
                t = trace(when, ids)
                for tf in ('%Y-%m-%dT%H_%M_%S', '%Y%m%d_%H%M%S'):
                    for fn, want in ((None, f'{when.strftime(tf)}.{".".join(ids)}.wav'), ('mine.wav', 'mine.wav')):
                        kv = dict(filename=fn, time_format=tf, path='OUT')
                        if not live(e.pc, t, **kv):
                            continue
                        try:
                            got = evaluate(path, t, **kv)
                        except Unknown as u:
                            c.note(f'the name of a WAV file is not decided: {str(u)[:150]}')
                            continue
                        c.ob('a WAV file has the name given or one by start and identifier', isinstance(got, str) and posixpath.normpath(got) == 'OUT/' + want, f'{fn} {tf} {".".join(ids)} {when}', f'{got}, not OUT/{want}', e.site)
        for d in (np.array([3, 1, 2, 6, 3]), np.array([-70000, 0, 100, 5]), np.array([7, 7, 7]), np.array([0.5, -0.25, 0.5])):
            t = trace(TIMES[0], IDS[0], data=d)
            if not live(e.pc, t, data=d):
                continue
            try:
                got = evaluate(data, t, data=d)
            except Unknown as u:
                c.note(f'the samples of a WAV file are not decided: {str(u)[:150]}')
                continue
            x = d - d.mean()
            want = x / abs(x).max() if abs(x).max() > 0 else x
            c.ob('a WAV file holds the samples centred and scaled to one', isinstance(got, np.ndarray) and got.shape == want.shape and bool(np.allclose(got, want, atol=1e-6)), str(d), str(got), e.site)
        try:
            got = evaluate(rate, trace(TIMES[0], IDS[0], rate=50.0))
            c.ob("a WAV file has the trace's sampling rate", got == 50 and isinstance(got, int), '50', str(got), e.site)
        except Unknown:
            c.note('the rate of a WAV file is not decided')
        for r, refused in ((50.0, False), (100.5, True), (0.25, True)):
            t = trace(TIMES[0], IDS[0], rate=r)
            hit, unk = False, False
            for q in R.events:
                if q.kind == 'raise':
                    try:
                        hit = hit or all(evaluate(g, t, data=np.array([1., 2.])) for g in q.pc)
                    except Unknown:
                        unk = True
            if not unk:
                c.ob('a rate that is not an integer is refused, others are not', hit == refused, str(r), 'refused' if hit else 'accepted', e.site)
    tp = c.ctx.function(WAV).args.args[0].arg if hasattr(c.ctx, 'function') else None
    sets = [q for q in R.events if q.kind in ('setattr', 'setitem') and q.recv is not None and base(q.recv).op in ('Param', 'Fld') and contains(base(q.recv), lambda t: t.op == 'Param')]
    c.ob('writing a WAV file leaves the trace as it was', not sets, WAV, ', '.join(str(q.args[0]) for q in sets)[:200], sets[0].site if sets else None)
