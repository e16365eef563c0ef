"""C37: requests that make no sense are refused before anything is done."""
import sys

import pandas as pd

from . import rule
from ..effects import effects
from ..evalterm import Unknown, ev
from ..lib import kids
from ..libeval import Raised
from ..terms import T, walk

XC, INV = 'gemlog.xcorr.xcorr_all', 'gemlog.gem_network.make_gem_inventory'
GPS = ('gemlog.gem_network.read_gps', 'gemlog.gem_network.summarize_gps')
DEC, CONV = 'gemlog.gem_network.deconvolve_gem_response', 'gemlog.core.convert'
LOOP = 'gemlog.xcorr.loop_through_days'
NAN = float('nan')


class Other:
    """A value of a class named in the code under analysis."""

    def __init__(self, cls):
        self.cls = cls


REAL = {'builtins.' + k.__name__: k for k in (str, list, tuple, int, float, dict, bool, set)}
REAL.update({'pandas.DataFrame': pd.DataFrame, 'pandas.core.frame.DataFrame': pd.DataFrame, 'pandas.Series': pd.Series})
ALIAS = {'obspy.core.stream.Stream': 'obspy.Stream', 'obspy.core.Stream': 'obspy.Stream', 'obspy.core.trace.Trace': 'obspy.Trace', 'obspy.core.Trace': 'obspy.Trace'}


def type_of(v):
    return sys.intern(v.cls) if isinstance(v, Other) else type(v)


def classes(t):
    """The classes a term names, or None."""
    if t.op == 'Ext':
        n = t.a[0]
        return (REAL.get(n) or sys.intern(ALIAS.get(n, n)),)
    if t.op in ('Tuple', 'List'):
        out = ()
        for x in kids(t):
            c = classes(x)
            if c is None:
                return None
            out += c
        return out
    return None


def subtype(have, cls):
    return have is cls or isinstance(have, type) and isinstance(cls, type) and issubclass(have, cls)


def environment(R, events, values, calls=None):
    """The sample values of parameters, and the types that are asked of them."""
    env = {'lib': True, 'calls': calls or {}}
    seen = {}
    for e in events:
        for p in e.pc:
            for x in walk(p):
                seen[x.id] = x
    for x in seen.values():
        if x.op == 'Param' and x.a[0] in values:
            env[x.id] = values[x.a[0]]
        elif x.op == 'Ext' and (x.a[0] in REAL or x.a[0].split('.')[-1][:1].isupper()):
            env[x.id] = classes(x)[0]
    for x in seen.values():
        if x.op != 'Call' or x.a[0] not in ('builtins.type', 'builtins.isinstance'):
            continue
        args = x.a[1] if isinstance(x.a[1], tuple) else x.a[1:]
        if not args or args[0].op != 'Param' or args[0].a[0] not in values:
            continue
        have = type_of(values[args[0].a[0]])
        if x.a[0] == 'builtins.type':
            env[x.id] = have
        elif len(args) > 1 and classes(args[1]) is not None:
            env[x.id] = any(subtype(have, k) for k in classes(args[1]))
    return env


def swallowed(R, e):
    """Is the exception caught by a handler that goes on?"""
    for tid, part in e.tries:
        info = R.interp.tries_info[tid]
        if part == 'body' and any(info.get('completes', {}).get(i) for i in range(len(info['handlers']))):
            return True
    return False


def refusal(R, values, calls=None):
    """The event that refuses the request (or None), and whether this is all that can be said."""
    # raises of handlers depend on what failed before; those whose condition only mentions such a failure are evaluated as far as they can be
    raises = [e for e in R.events if e.kind == 'raise' and not any(p.op == 'Exc' for p in e.pc)]
    env = environment(R, R.events, values, calls)
    sure = True
    for e in raises:
        v = True
        for p in e.pc:
            try:
                if not bool(ev(p, env)):
                    v = False
                    break
            except Raised:
                return e, True          # the comparison itself refuses the value
            except Unknown:
                v = None
        if e.loops and v:
            v = None
        if v and not swallowed(R, e):
            return e, True
        if v is None or v and swallowed(R, e):
            sure = sure and v is not None
    return None, sure


def judge(c, R, group, what, values, bad, work=(), calls=None):
    e, sure = refusal(R, values, calls)
    if e is None and not sure and bad:
        c.note(f'{group}: {what}: not evaluated')
        return
    site = e.site if e is not None else (work[0].site if work else None)
    if bad:
        c.ob(f'{group}: a request that makes no sense is refused', e is not None, what, 'accepted', site)
        if e is not None:
            env = environment(R, R.events, values, calls)
            for w in work:
                if w.order < e.order:
                    try:
                        on = all(bool(ev(p, env)) for p in w.pc)
                    except Unknown:
                        on = not [p for p in w.pc if any(x.op == 'Exc' for x in walk(p))]
                        if w.pc:
                            continue
                    c.ob(f'{group}: nothing is done before the refusal', not on, what, 'work begins before the refusal', w.site)
                else:
                    c.ob(f'{group}: nothing is done before the refusal', True, what)
    else:
        c.ob(f'{group}: a request that makes sense is not refused', e is None, what, 'refused', site)


def table(*cols):
    return pd.DataFrame({k: ['058', '059'] if k in ('SN', 'station', 'network', 'location') else [1.0, 2.0] for k in cols})


@rule('C37')
def c37(c):
    """The conditions of every refusal are evaluated for sample requests, sound and unsound, on either side of each limit; work that is ordered before a refusal is looked for."""
    if c.ctx.has(XC):
        R = c.ctx.run(XC, no_inline=(LOOP,) if c.ctx.has(LOOP) else ())
        work = [e for e in R.events if e.kind in ('pcall', 'call') and e.name in (LOOP, 'obspy.read')]
        if not work:
            c.undecided.append('where the cross-correlation begins is not recognised')
        else:
            ok = dict(fl=5, fh=20, win_length_sec=5, overlap=0, upsample_ratio=1, t1='1970-01-01', t2='9999-12-31', IDs=None, exclude_IDs=None, quiet=True)
            good = [{}, {'fl': 0}, {'fl': 0, 'fh': 0.01}, {'fl': 19.99}, {'win_length_sec': 0.5}, {'win_length_sec': 3600}, {'overlap': 0.5}, {'overlap': 0.99}, {'upsample_ratio': 4}, {'upsample_ratio': 1.5},
                    {'fl': 0.01, 'fh': 45}, {'overlap': 0.9, 'win_length_sec': 60, 'upsample_ratio': 10}, {'fl': 1e-3, 'fh': 2e-3}]
            bad = [{'fl': -1}, {'fl': -0.01}, {'fl': -5, 'fh': -1}, {'fl': 20}, {'fl': 20.5}, {'fl': 0, 'fh': 0}, {'fl': 30, 'fh': 20}, {'fh': -3}, {'win_length_sec': 0}, {'win_length_sec': -5}, {'win_length_sec': -0.1},
                   {'overlap': -0.1}, {'overlap': 1}, {'overlap': 1.5}, {'overlap': -1}, {'overlap': 50}, {'upsample_ratio': 0}, {'upsample_ratio': 0.5}, {'upsample_ratio': 0.99}, {'upsample_ratio': -2},
                   {'win_length_sec': NAN}, {'overlap': NAN}, {'upsample_ratio': NAN}]
            for v in good:
                judge(c, R, 'cross-correlation', str(v), dict(ok, **v), False, work)
            for v in bad:
                if any(x != x for x in v.values()) and 'win_length_sec' in v:
                    continue
                judge(c, R, 'cross-correlation', str(v), dict(ok, **v), True, work)
    if c.ctx.has(INV):
        R = c.ctx.run(INV)
        info = table('SN', 'network', 'station', 'location')
        work = [e for e in R.events if e.kind == 'call' and e.name and e.name.split('.')[-1] in ('Network', 'Station', 'Channel')]
        place = ('lat', 'lon', 'elevation')
        for v in (('SN',) + place, ('network', 'station', 'location') + place, ('SN', 'network', 'station', 'location', 'starttime', 'endtime') + place, ('SN', 'network') + place):
            judge(c, R, 'inventory', 'coords ' + ','.join(v), {'station_info': info, 'coords': table(*v), 'response': 'default'}, False, work)
        for v in (place, ('network', 'station') + place, ('network', 'location') + place, ('station', 'location') + place, ('SN', 'lat', 'lon'), ('SN', 'lat', 'elevation'), ('SN', 'lon', 'elevation'),
                  ('network', 'station', 'location', 'lat', 'lon'), ('SN',), ('SN', 'network', 'station', 'location')):
            judge(c, R, 'inventory', 'coords ' + ','.join(v), {'station_info': info, 'coords': table(*v), 'response': 'default'}, True, work)
        for v in ('coords.csv', {'lat': 1}, 5):
            judge(c, R, 'inventory', 'coords a ' + type(v).__name__, {'station_info': info, 'coords': v, 'response': 'default'}, True, work)
        full = table('SN', *place)
        for v in (('network', 'station', 'location'), ('SN', 'station', 'location'), ('SN', 'network', 'location'), ('SN', 'network', 'station')):
            judge(c, R, 'inventory', 'station_info ' + ','.join(v), {'station_info': table(*v), 'coords': full, 'response': 'default'}, True, work)
        for v in (5, {'SN': '058'}, ['058']):
            judge(c, R, 'inventory', 'station_info a ' + type(v).__name__, {'station_info': v, 'coords': full, 'response': 'default'}, True, work)
    for q in GPS:
        if c.ctx.has(q):
            R = c.ctx.run(q)
            work = [e for e in R.events if e.kind == 'call' and e.name in ('glob.glob', 'pandas.read_csv')]
            g = q.split('.')[-1]
            for v, bad in (('gps', False), (['gps', 'gps2'], False), (5, True), ({'a': 1}, True), (2.5, True)):
                judge(c, R, g, f'folders {v!r}', {'gps_dir_pattern': v, 'SN': '058', 'station_info': None, 't1': None, 't2': None}, bad, work)
    if c.ctx.has(DEC):
        R = c.ctx.run(DEC)
        work = [e for e in R.events if e.kind == 'mcall' and e.name == 'remove_response']
        for v, bad in ((Other('obspy.Stream'), False), (Other('obspy.Trace'), False), ('file.mseed', True), ([], True), (5, True)):
            judge(c, R, 'response removal', 'data ' + str(getattr(v, 'cls', v)), {'data': v, 'gain': 'high', 'sensor_file': '', 'logger_file': ''}, bad, work)
        for g, bad in (('high', False), ('low', False), ('HIGH', False), ('Low', False), ('medium', True), ('', True), ('hi', True)):
            judge(c, R, 'response removal', 'gain ' + repr(g), {'data': Other('obspy.Trace'), 'gain': g, 'sensor_file': '', 'logger_file': ''}, bad, work)
    if c.ctx.has(CONV):
        R = c.ctx.run(CONV)
        work = [f.ev for f in effects(R) if f.kind not in ('read', 'external')]
        raw = ['raw/FILE0000.058', 'raw/FILE0001.058']
        for what, sn, there, files, bad in (('a folder with raw files', '058', True, raw, False), ('a number of three digits', 158, True, raw, False), ('a folder that does not exist', '058', False, [], True), ('a folder without raw files', '058', True, [], True),
                                            ('a serial number of two digits', '58', True, raw, True), ('a serial number of four digits', '0058', True, raw, True), ('a small serial number as a number', 7, True, raw, True)):
            judge(c, R, 'conversion', what, {'rawpath': 'raw', 'SN': sn}, bad, work, {'os.path.isdir': lambda p: there, 'os.path.exists': lambda p: there, 'glob.glob': lambda p: list(files), 'os.listdir': lambda p: [f[4:] for f in files]})
