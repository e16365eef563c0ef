"""What follows from the hardware: resolution per serial number and gain, and the instrument response."""
import math

from . import rule
from ..terms import mk, Const, is_const, cval, show, walk, contains, T
from ..lib import alts, dget, kids, seq, upd_entries
from ..evalterm import ev, Unknown

SPECS, INFO, GEM, CONFIG, CONVERT, WRITER = ('gemlog.core.get_gem_specs', 'gemlog.core.get_bitweight_info', 'gemlog.core.read_gem',
                                             'gemlog.core._read_config', 'gemlog.core.convert', 'gemlog.core._write_hourlong_mseed')
# serial numbers from .. to, hardware version (the table in gemlog/core.py)
BATCHES = [(3, 7, 0.5), (8, 14, 0.7), (15, 19, 0.8), (20, 37, 0.82), (38, 40, 0.9), (41, 43, 0.91), (44, 46, 0.92), (47, 49, 0.98), (50, 51, 0.99),
           (52, 54, 0.991), (55, 57, 0.992), (58, 107, 1.0), (108, 100000, 1.01)]


def volts(sn):
    return 7.362894e-08 if sn <= 46 else 7.275362e-08


def pascals(sn):
    return volts(sn) / (45.13e-6 * (3.373 if sn <= 37 else 3.1) / 7)      # 45.13 uV/Pa at 7 V, scaled by the supply of the batch


def version(sn):
    return next(v for a, b, v in BATCHES if a <= sn <= b)


def close(a, b, r=1e-5):
    return isinstance(a, (int, float)) and abs(a - b) <= r * abs(b)


def value(t, env=None, **params):
    e = dict(env or {})
    for x in walk(t):
        if x.op == 'Param' and x.a[0] in params:
            e[x.id] = params[x.a[0]]
        if x.op == 'MCall' and x.a[1] in ('lower', 'upper', 'casefold', 'strip', 'capitalize') and x.a[0].op == 'Param' and x.a[0].a[0] in params:
            e[x.id] = getattr(params[x.a[0].a[0]], x.a[1])()
    return ev(t, e)


def fld(t, k):
    """k-th field of a record-like term, else None."""
    v = dget(t, k)
    if v is not None:
        return v
    return None


@rule('C13')
def c13(c):
    """(1) The specs of a serial number, evaluated for every serial number from 3 to 120 and some larger, as number and as three-digit
    text; (2) volts and pascals per count for both gain settings and each unit, other settings refused; (3) the configuration line is read by
    position and its absence means high gain; (4) the header of data read carries these numbers under their own names, from the serial number
    and configuration of the files read; (5) the conversion passes the one for the unit asked for, or the one given, to every trace."""
    R = c.ctx.run(SPECS)
    fields = {k: dget(R.value, k) for k in ('version', 'bitweight_V', 'bitweight_Pa')}
    if None in fields.values():
        c.undecided.append('the specs of a logger are not recognised')
    else:
        todo = list(range(3, 121)) + [200, 255, 500, 999]
        for k, want in (('version', version), ('bitweight_V', volts), ('bitweight_Pa', pascals)):
            for sn in todo:
                for form in ((sn, '%03d' % sn) if sn < 1000 else (sn,)):
                    try:
                        got = value(fields[k], SN=form)
                    except Unknown as u:
                        if u.args and len(u.args) > 1 and isinstance(u.args[1], (IndexError, KeyError)):
                            c.ob('every serial number has its resolution', False, f'{k} {sn}', f'no {k} for serial number {form!r}')
                            continue
                        c.note(f'{k} of a serial number is not decided: {show(fields[k], 4)}')
                        break
                    c.ob('every serial number has its resolution', close(got, want(sn)), f'{k} {sn}', f'{k} of {form!r} is {got}, not {want(sn)}')
                else:
                    continue
                break
    judge_gain(c)
    judge_config(c)
    judge_header(c)
    judge_calib(c)


def judge_gain(c):
    R = c.ctx.run(INFO, no_inline=(SPECS,))
    V, P = [t for t in walk(R.value) if is_spec(t, 'bitweight_V')], [t for t in walk(R.value) if is_spec(t, 'bitweight_Pa')]
    out = {k: dget(R.value, k) for k in ('bitweight', 'bitweight_V', 'bitweight_Pa')}
    b = R.value
    while b.op == 'Upd':
        b = b.a[0]
    if b.op == 'Rec' and b.a[0] == SPECS:        # fields that are not changed
        out = {k: v if v is not None or k == 'bitweight' else mk('Fld', b, k) for k, v in out.items()}
    if None in out.values():
        c.undecided.append('the resolution for a configuration is not recognised')
        return

    def ask(k, gain, unit):
        env = {}
        for x in walk(out[k]):
            if is_spec(x, 'bitweight_V'):
                env[x.id] = 7.0
            elif is_spec(x, 'bitweight_Pa'):
                env[x.id] = 1000.0
            elif is_gain(x):
                env[x.id] = gain
        return value(out[k], env, units=unit)
    for gain, m in ((0, 1), (1, 2)):
        for unit, key, want in (('Pa', 'bitweight', 1000.0 * m), ('PA', 'bitweight', 1000.0 * m), ('V', 'bitweight', 7.0 * m), ('v', 'bitweight', 7.0 * m), ('counts', 'bitweight', 1), ('Counts', 'bitweight', 1),
                                ('Pa', 'bitweight_V', 7.0 * m), ('counts', 'bitweight_V', 7.0 * m), ('V', 'bitweight_Pa', 1000.0 * m)):
            try:
                got = ask(key, gain, unit)
            except Unknown:
                c.note(f'{key} for a configuration is not decided: {show(out[key], 4)}')
                return
            c.ob('the gain setting scales the resolution', close(got, want), f'{key} gain {gain} {unit}', f'{key} is {got} times the unit, not {want}')
    raises = [e for e in R.events if e.kind == 'raise']
    for what, gain, unit in (('gain setting', 2, 'Pa'), ('gain setting', -1, 'Pa'), ('unit', 0, 'mbar')):
        hit, unk = False, False
        for e in raises:
            try:
                ok = True
                for t in e.pc:
                    env = {x.id: gain for x in walk(t) if is_gain(x)}
                    ok = ok and bool(value(t, env, units=unit))
                hit = hit or ok
            except Unknown:
                unk = True
        if not unk:
            c.ob('an unknown setting is refused', hit, f'{what} {gain} {unit}', f'{what} is accepted')


def is_spec(t, k):
    return t.op in ('Fld', 'Index') and t.a[0].op == 'Rec' and t.a[0].a[0] == SPECS and (t.a[1] == k or isinstance(t.a[1], T) and is_const(t.a[1], k))


def is_gain(t):
    return t.op in ('Fld', 'Index') and t.a[0].op == 'Param' and (t.a[1] == 'adc_range' or isinstance(t.a[1], T) and is_const(t.a[1], 'adc_range')) or \
        t.op == 'MCall' and t.a[1] == 'get' and t.a[0].op == 'Param' and t.a[2] and is_const(t.a[2][0], 'adc_range')


COLS = ['gps_mode', 'gps_cycle', 'gps_quota', 'adc_range', 'led_shutoff', 'serial_output']


def judge_config(c):
    R = c.ctx.run(CONFIG)
    rd = [e for e in R.events if e.kind == 'call' and e.name in ('pandas.read_csv', 'pandas.read_table')]
    if not rd:
        c.note('how the configuration is read is not recognised')
        return
    rows = set()
    for e in rd:
        kw = dict(e.kw or {})
        nm = seq(kw.get('names')) if kw.get('names') is not None else None
        if nm is not None and all(is_const(x) for x in nm):
            c.ob('the settings are read from their own columns', [cval(x) for x in nm][1:7] == COLS, 'names', str([cval(x) for x in nm]), e.site)
        sk = kw.get('skiprows')
        if sk is not None and is_const(sk) and isinstance(cval(sk), int):
            n = kw.get('nrows')
            n = cval(n) if n is not None and is_const(n) else 40
            rows |= set(range(cval(sk), cval(sk) + (n or 40)))
    if rows:
        c.ob('the configuration line is looked for where it can be', set(range(4, 9)) <= rows, 'rows', f'rows {sorted(rows)[:12]}', rd[0].site)
    tests = [x for x in walk(R.value) if x.op == 'Cmp' and any(is_const(y, 'C') for y in x.a[1:])]
    for t in R.events:
        tests += [x for p in t.pc for x in walk(p) if x.op == 'Cmp' and any(is_const(y, 'C') for y in x.a[1:])]
    c.ob('only the configuration line is used', bool(tests), 'C', 'the line type is not tested', rd[0].site)
    base = [x for y in alts(R.value) for x in walk(y) if x.op in ('Dict',)]
    ds = {x.id: x for e in R.events for t in (list(e.args or ()) + [e.val]) if isinstance(t, T) for x in walk(t) if x.op == 'Dict'}
    ds.update({x.id: x for x in walk(R.value) if x.op == 'Dict'})
    for d in ds.values():
        v = dget(d, 'adc_range')
        if v is not None and is_const(v):
            c.ob('without a configuration line the gain is high', cval(v) == 0, 'default', f'default {cval(v)}', rd[0].site)


def judge_header(c):
    if not c.ctx.has(INFO):
        return
    R = c.ctx.run(GEM, no_inline=(INFO, 'gemlog.core._read_several', CONFIG, 'gemlog.core._interp_time', 'gemlog.core._read_format_version'))
    inf = [e for e in R.events if e.kind == 'pcall' and e.name == INFO]
    if not inf:
        c.undecided.append('the header of data read is not recognised')
        return
    rec = inf[0].val
    a = inf[0].args
    if len(a) > 1:
        c.ob('the resolution is that of the logger read', a[0].op == 'Param' and a[0].a[0] == 'SN' or contains(a[0], lambda t: t.op == 'Param' and t.a[0] == 'SN'), 'serial number', show(a[0], 3), inf[0].site)
        c.ob('the resolution is that of the configuration read', all(y.op == 'Rec' and y.a[0] == CONFIG or y.op in ('Undef',) or contains(y, lambda t: t.op == 'Rec' and t.a[0] == CONFIG) for y in alts(a[1])),
             'configuration', show(a[1], 3), inf[0].site)
        u = (inf[0].kw or {}).get('units', a[2] if len(a) > 2 else None)
    puts = [e for e in R.events if e.kind in ('setitem', 'setattr') and any(contains(x, lambda t: t is rec) for x in e.args[1:])]
    if not puts:
        c.note('the header of data read is not recognised')
    for e in puts:
        k, v = e.args[0], e.args[1]
        got = v
        ok = v.op in ('Index', 'Fld') and v.a[0] is rec and (v.a[1] is k or v.a[1] == k or is_const(k) and v.a[1] == cval(k))
        pair = v.op == 'Index' and v.a[0].op == 'Index' and k.op == 'Index' and v.a[0].a[0] is k.a[0]
        if v.op in ('Index', 'Fld') and v.a[0] is rec:
            c.ob('the header holds each number under its own name', ok, show(k, 1), f'{show(k, 3)} = {show(v, 3)}', e.site)
        elif v.op == 'Bin':
            c.ob('the header holds each number under its own name', False, show(k, 1), f'{show(k, 3)} = {show(v, 3)}', e.site)
        else:
            c.note(f'header {show(k, 2)} = {show(v, 3)}')


def judge_calib(c):
    if not c.ctx.has(WRITER):
        return
    R = c.ctx.run(CONVERT, no_inline=(GEM, WRITER, 'gemlog.core._find_nonmissing_files'))
    fn = next(f for q, f in c.ctx.functions() if q == WRITER)
    pn = [x.arg for x in fn.args.args]
    W = c.ctx.run(WRITER)
    cal = [e for e in W.events if e.kind == 'setattr' and is_const(e.args[0], 'calib') or e.kind == 'setitem' and e.args and is_const(e.args[0], 'calib')]
    if not cal:
        c.ob('every trace written carries the resolution', False, WRITER, 'the calibration of the traces is not set')
        return
    ps = {x.a[0] for e in cal for x in walk(e.args[1]) if x.op == 'Param'}
    for e in cal:
        v = e.args[1]
        c.ob('every trace written carries the resolution', v.op == 'Param' and bool(e.loops) and not [p for p in e.pc if contains(p, lambda t: t.op == 'Idx' and t.a[-1] in e.loops) and not contains(p, lambda t: t.op == 'Call' and t.a[0] == 'builtins.len')],
             'calib', show(v, 3), e.site)
    bp = next((e.args[1].a[0] for e in cal if e.args[1].op == 'Param'), None)
    if bp is None:
        return
    for e in R.events:
        if e.kind != 'pcall' or e.name != WRITER:
            continue
        t = (e.kw or {}).get(bp, e.args[pn.index(bp)] if len(e.args) > pn.index(bp) else None)
        if t is None:
            c.ob('the conversion uses the resolution of the logger', False, bp, 'not given', e.site)
            continue
        key = str(len(e.loops))
        for unit, want in (('Pa', 'Pa'), ('V', 'V'), ('Counts', 1), ('counts', 1)):
            for given in (math.nan, 5.0):
                env = {}
                for x in walk(t):
                    for k in ('bitweight_Pa', 'bitweight_V'):
                        if x.op in ('Index', 'Fld', 'MCall') and not contains(x, lambda z: z.op == 'Phi' and contains(z, lambda y: y.op == 'Param' and y.a[0] == 'units')) and \
                                contains(x, lambda z: z.op in ('Fld', 'Index') and (z.a[1] == k or isinstance(z.a[1], T) and is_const(z.a[1], k))):
                            env[x.id] = k[10:]
                try:
                    got = value(t, env, units=unit, bitweight=given)
                except Unknown:
                    c.note(f'calibration of a conversion is not decided: {show(t, 4)}')
                    return
                w = want if given != given else given
                c.ob('the conversion uses the resolution of the logger', got == w, f'{key} {unit} {given}', f'for {unit}, with {given} given: {got}', e.site)


# ------------------------------------------------------------------ instrument response

RESP, READ, DECON, INV = 'gemlog.gem_network.get_gem_response', 'gemlog.gem_network._read_response', 'gemlog.gem_network.deconvolve_gem_response', 'gemlog.gem_network.make_gem_inventory'


def gains(path):
    """Gains of the stages of a RESP file, and the frequency of the last."""
    out, stage, sens = {}, None, None
    with open(path, encoding='latin-1') as fh:
        for line in fh:
            if line.startswith('B058F03'):
                stage = int(line.split()[-1])
            if line.startswith('B058F04') and stage is not None:
                v = float(line.split()[-1])
                if stage:
                    out[stage] = v
                else:
                    sens = v
    return [out[k] for k in sorted(out)], sens


def data_file(c, name):
    import os
    hits = []
    for d, _, fs in os.walk(os.path.join(c.ctx.project.repo, 'gemlog', 'data')):
        hits += [os.path.join(d, f) for f in fs if f == name]
    return hits[0] if len(hits) == 1 else None


def fstring(t, env, **params):
    """Value of a path term, its unknown folder parts left out."""
    import os
    if t.op in ('Fmt', 'FStr', 'JoinedStr', 'Str'):
        return None
    return value(t, env, **params)


def leaf_names(t, **params):
    """The constant file names a path can end in under these parameters."""
    out = []

    def go(x):
        if x.op == 'Phi':
            try:
                go(x.a[1] if value(x.a[0], None, **params) else x.a[2])
            except Unknown:
                go(x.a[1])
                go(x.a[2])
            return
        if is_const(x):
            if isinstance(cval(x), str):
                out.append(cval(x))
            return
        if x.op == 'Param':
            out.append(params.get(x.a[0]))
            return
        for y in kids(x):
            go(y)
    go(t)
    return [x for x in out if isinstance(x, str)]


@rule('C23')
def c23(c):
    """(1) The files read for each gain, with and without files of the user, and their stage gains: high is twice low, as the resolutions
    are, and both belong to a logger; any other gain is refused; (2) the sensor is the first stage and the overall sensitivity the product of its stages
    and of the high-pass at 0.05 Hz, evaluated with the gains of the files; (3) nothing that is changed is kept between calls; (4) the users
    of the response pass their gain and files on and treat every trace; (5) the resolution in pascals is that of the response."""
    if not c.ctx.has(RESP):
        c.undecided.append('no instrument response')
        return
    if not c.ctx.has(READ):
        c.undecided.append('how a response is read is not recognised')
        return
    R = c.ctx.run(RESP, no_inline=(READ,))
    rd = [e for e in R.events if e.kind == 'pcall' and e.name == READ]
    S = [e for e in rd if any('sensor' in x for x in leaf_names(e.args[0], sensor_file='', logger_file='', gain='high'))]
    L = [e for e in rd if e not in S]
    if len(S) != 1 or len(L) < 1:
        c.undecided.append('sensor and logger files are not recognised')
        return
    got = {}
    import os
    for g in ('high', 'low', 'High', 'LOW'):
        live = []
        for e in L:
            try:
                if all(value(t, None, gain=g, logger_file='', sensor_file='') for t in e.pc):
                    live.append(e)
            except Unknown:
                live.append(e)
        if not live:
            c.ob('both gains have a response', False, g.lower(), 'no logger file is read for this gain')
            continue
        if len(live) != 1:
            c.note(f'{len(live)} logger files are read for {g}')
            continue
        c.ob('both gains have a response', True, g.lower())
        ns = [os.path.basename(x) for x in leaf_names(live[0].args[0], gain=g, logger_file='', sensor_file='') if x and os.path.basename(x).startswith('RESP')]
        if len(ns) != 1:
            c.note(f'the logger file for {g} is not decided')
            continue
        f = data_file(c, ns[0])
        c.ob('the response files exist', f is not None and 'datalogger' in f, f'logger {g}', f'{ns[0]} is not shipped', live[0].site)
        if f:
            got[g] = gains(f)[0]
    prod = lambda x: math.prod(x)
    ref = 1 / 7.275362e-08
    for g, v in got.items():
        want = 128000.0 if g.lower() == 'high' else 64000.0
        c.ob('each gain has its own response', close(prod(v), want), g, f'{prod(v)} counts per volt at the sensor output, not {want}', L[0].site)
    ns = [os.path.basename(x) for x in leaf_names(S[0].args[0], sensor_file='', logger_file='', gain='high') if x and os.path.basename(x).startswith('RESP')]
    sens = None
    if len(ns) == 1:
        f = data_file(c, ns[0])
        c.ob('the response files exist', f is not None and 'sensor' in f, 'sensor', f'{ns[0]} is not shipped', S[0].site)
        if f:
            sens = gains(f)[0]
    # files of the user
    for es, k in ((S, 'sensor_file'), (L, 'logger_file')):
        o = 'logger_file' if k == 'sensor_file' else 'sensor_file'
        for g in ('high', 'low'):
            for other in ('', 'OTHER'):
                kv = {k: 'MINE', o: other, 'gain': g}
                for e in es:
                    try:
                        if not all(value(t, None, **kv) for t in e.pc):
                            continue
                    except Unknown:
                        pass
                    names = leaf_names(e.args[0], **kv)
                    if names:
                        c.ob("the user's response files are used", 'MINE' in names and not any(os.path.basename(x).startswith('RESP') for x in names), f'{k} {g} {other}', f'reads {names}', e.site)
    # refusal
    ok, unk = False, False
    for e in R.events:
        if e.kind == 'raise':
            try:
                ok = ok or all(value(t, None, gain='medium', logger_file='', sensor_file='') for t in e.pc)
            except Unknown:
                unk = True
    if not unk:
        c.ob('another gain is refused', ok, 'medium', 'accepted', L[0].site)
    judge_stages(c, R, S[0], L, got, sens)
    judge_fresh(c)
    judge_uses(c)
    # agreement with the resolution
    P = c.ctx.run(SPECS)
    pa = dget(P.value, 'bitweight_Pa')
    if pa is not None and sens and got.get('high'):
        try:
            bw = value(pa, None, SN=100)
            r = prod(sens) * prod(got['high'])
            c.ob('the resolution in pascals is within 5% of that of the response', close(bw * r, 1.0, 0.05), 'version 1.0, high gain', f'{bw:.7f} Pa per count by the serial number, {1 / r:.7f} by the response')
            c.ob('the resolution in pascals is that of the response', close(bw * r, 1.0, 0.005), 'version 1.0, high gain', f'{bw:.7f} Pa per count by the serial number, {1 / r:.7f} by the response')
        except Unknown:
            pass


def judge_stages(c, R, S, L, got, sens):
    srec, lrecs = S.val, [e.val for e in L]
    pops = [e for e in R.events if e.kind == 'mcall' and e.name in ('pop', 'insert', 'append', 'remove') and contains(e.recv, lambda t: any(t is r for r in lrecs))]
    order = None
    stages = ['l1', 'l2', 'l3', 'l4', 'l5']
    ok = True
    for e in pops:
        a = e.args or ()
        if e.name == 'pop' and len(a) == 1 and is_const(a[0]):
            stages.pop(cval(a[0]))
        elif e.name == 'pop' and not a and not e.kw:
            stages.pop()
        elif e.name == 'append' and len(a) == 1 or e.name == 'insert' and len(a) == 2 and is_const(a[0]):
            v = a[-1]
            s = v.op == 'Index' and contains(v.a[0], lambda t: t is srec) and is_const(v.a[1])
            stages.insert(cval(a[0]) if e.name == 'insert' else len(stages), f's{cval(v.a[1]) + 1}' if s else '?')
        else:
            ok = False
    puts = [e for e in R.events if e.kind in ('setitem', 'setattr') and contains(e.recv, lambda t: t.op == 'Fld' and t.a[1] == 'response_stages')]
    for e in puts:
        if is_const(e.args[0]) and isinstance(cval(e.args[0]), int):
            v = e.args[1]
            if v.op == 'Index' and contains(v.a[0], lambda t: t is srec) and is_const(v.a[1]):
                stages[cval(e.args[0])] = f's{cval(v.a[1]) + 1}'
            else:
                ok = False
    if not ok or not (pops or puts) or '?' in stages:
        c.note('how the stages are joined is not recognised')
        return
    c.ob('the sensor is the first stage, before those of the logger', stages[0] == 's1' and stages[1:4] == ['l2', 'l3', 'l4'], 'order', ' '.join(stages), L[0].site)
    val = [e for e in R.events if e.kind == 'setattr' and is_const(e.args[0], 'value') and contains(e.recv, lambda t: t.op == 'Fld' and t.a[1] == 'instrument_sensitivity')]
    if not val:
        c.note('the overall sensitivity is not set')
    for e in val:
        if not got.get('high') or not sens:
            continue
        for g in ('high', 'low'):
            lg = got.get(g)
            if not lg:
                continue
            table = {f'l{i + 1}': x for i, x in enumerate(lg)}
            table.update({f's{i + 1}': x for i, x in enumerate(sens)})
            env = {}
            for x in walk(e.args[1]):
                if x.op == 'Fld' and x.a[1] == 'stage_gain' and x.a[0].op == 'Index' and is_const(x.a[0].a[1]):
                    i = cval(x.a[0].a[1])
                    if contains(x.a[0].a[0], lambda t: t is srec):
                        env[x.id] = table.get(f's{i + 1}')
                    else:
                        env[x.id] = table.get(stages[i]) if i < len(stages) else None
            try:
                got_v = value(e.args[1], env)
            except Unknown:
                c.note(f'the overall sensitivity {show(e.args[1], 4)} is not decided')
                return
            f = abs(1 - 1 / (1 + 0.05j / 0.039))
            want = math.prod(sens) * math.prod(lg) * f
            c.ob('the overall sensitivity is the product of the stages at 0.05 Hz', close(got_v, want, 1e-4), g, f'{got_v}, not {want}', e.site)


def state_changes(R):
    """Changes of objects that outlive the call: module-level containers, default arguments, global names."""
    g = R.interp.gheap
    return [e for e in R.events if e.kind in ('setitem', 'setattr', 'append', 'extend', 'mcall', 'aug', 'delitem', 'setglobal')
            and (e.kind == 'setglobal' or getattr(e, 'ref', None) is not None and e.ref.id in g)
            and not (e.kind == 'mcall' and e.name in ('get', 'keys', 'values', 'items', 'copy', 'index', 'count'))]


def copied(t):
    return t.op == 'Call' and t.a[0] in ('copy.deepcopy', 'copy.copy') or t.op == 'MCall' and t.a[1] in ('copy', '__deepcopy__')


def judge_fresh(c):
    import ast
    F = c.ctx.run(RESP, no_inline=(READ,))
    muts = [e for e in F.events if e.kind in ('mcall', 'setattr', 'setitem') and e.recv is not None and e.name not in ('lower', 'upper') and contains(e.recv, lambda t: t.op == 'Rec' and t.a[0] == READ)]
    copies = bool(muts) and all(contains(e.recv, copied) for e in muts)
    for q, fn in c.ctx.functions():
        if q not in (READ, RESP):
            continue
        memo = [ast.unparse(d) for d in fn.decorator_list if 'cache' in ast.unparse(d)]
        safe = q == READ and copies
        c.ob('a response is made afresh on every call', not memo or safe, q, f'{memo} keeps responses that are changed later')
        R = c.ctx.run(q, no_inline=() if q == READ else (READ,))
        kept = [e for e in state_changes(R) if any(not copied(a) and (contains(R.value, lambda t: t is a) or a.op == 'Rec') for a in list(e.args or ()) + ([e.val] if e.val is not None else [])) and not copied(R.value)]
        c.ob('a response is made afresh on every call', not kept or safe, q + ' state', 'the response kept is the one handed out', kept[0].site if kept else None)


def judge_uses(c):
    import ast
    fn = next((f for q, f in c.ctx.functions() if q == RESP), None)
    pn = [x.arg for x in fn.args.args]
    if c.ctx.has(DECON):
        R = c.ctx.run(DECON, no_inline=(RESP,))
        uses = [e for e in R.events if e.kind == 'pcall' and e.name == RESP]
        for i, e in enumerate(uses):
            for k in ('gain', 'sensor_file', 'logger_file'):
                j = pn.index(k) if k in pn else None
                v = (e.kw or {}).get(k, e.args[j] if j is not None and len(e.args) > j else None)
                c.ob('deconvolution uses the gain and files it is given', v is not None and v.op == 'Param' and v.a[0] == k, f'{k} {i}', f'{show(v, 2) if v is not None else "not given"}', e.site)
        sets = [e for e in R.events if e.kind == 'setattr' and is_const(e.args[0], 'response')]
        rem = [e for e in R.events if e.kind == 'mcall' and e.name == 'remove_response']
        for i, e in enumerate(sets):
            rec = e.args[1]
            c.ob('deconvolution uses the response of the Gem', any(contains(rec, lambda t: t is u.val) for u in uses), str(i), show(rec, 3), e.site)
            base = e.recv
            idx = [x for x in walk(base) if x.op == 'Index']
            ok = not any(is_const(x.a[1]) or x.a[1].op == 'Slice' for x in idx)
            c.ob('every trace is deconvolved', ok, str(i), show(base, 3), e.site)
        for e in rem:
            c.ob('the response is attached before it is removed', bool(sets) and all(s.order < e.order for s in sets), 'order', '', e.site)
            c.ob('every trace is deconvolved', not [x for x in walk(e.recv) if x.op == 'Index' and is_const(x.a[1])], 'removal', show(e.recv, 3), e.site)
        if not rem:
            c.ob('the response is removed', False, DECON, 'remove_response is not called')
    if c.ctx.has(INV):
        for given in (Const('default'), None):
            R = c.ctx.run(INV, no_inline=(RESP,), **({'response': given} if given is not None else {}))
            ch = [e for e in R.events if e.kind == 'call' and e.name.endswith('.Channel')]
            for e in ch:
                v = (e.kw or {}).get('response')
                if v is None:
                    c.ob('every channel of an inventory has the response', False, 'channel', 'no response', e.site)
                elif given is not None:
                    ok = v.op == 'Rec' and v.a[0] == RESP
                    if ok:
                        g = dict(v.a[2]).get('gain') if len(v.a) > 2 else None
                        g = g if g is not None else (v.a[1][0] if v.a[1] else None)
                        ok = g is None or is_const(g) and str(cval(g)).lower() == 'high'
                    c.ob('every channel of an inventory has the response', ok, 'default', show(v, 3), e.site)
                else:
                    c.ob('every channel of an inventory has the response', any(y.op == 'Param' and y.a[0] == 'response' for y in alts(v)), 'given', show(v, 3), e.site)
