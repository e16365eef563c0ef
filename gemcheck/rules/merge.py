"""C32: merging converted files by day."""
import fnmatch

from . import rule
from ..evalterm import Unknown, ev, seq_of
from ..lib import alts
from ..terms import cval, contains, is_const, mk, show, walk

MERGE = 'gemlog.gem_network.merge_files_day'
NAMES = ('2020-01-01T00_00_00..058..HDF.mseed', '2020-01-01T01_00_00..058..HDF.mseed', '2020-01-01T01_00_00..059..HDF.mseed', '2020-01-02T00_00_00..058..HDF.mseed',
         '2020-11-01T23_00_00..058..HDF.mseed', '2020-01-01T05_00_00.XX.T1.00.HDF.mseed', '2020-01-01T06_30_59.XX.T1.00.HDF.mseed', '2020-01-01T05_00_00.XX.T1.01.HDF.mseed', '2021-01-01T00_00_00.XX.T1.00.HDF.sac')
FILES = tuple('IN/' + n for n in NAMES)
PARAMS = ('infile_path', 'infile_pattern', 'outfile_dir')


def group(f):
    head, _, tail = f.split('/')[-1].partition('.')
    return head.split('T')[0], tail


@rule('C32')
def c32(c):
    """The files found, the pattern each round of the loop reads, and the name it writes are evaluated on sample names of two years, three days, five loggers and two formats."""
    if not c.ctx.has(MERGE):
        c.undecided.append('no merging by day')
        return
    R = c.ctx.run(MERGE)
    reads = [e for e in R.events if e.kind == 'call' and e.name in ('obspy.read', 'obspy.core.read') and e.args]
    writes = [e for e in R.events if e.kind == 'mcall' and e.name == 'write' and e.args and e.recv is not None and any(contains(e.recv, lambda t, r=r: t is r.val or t.op == 'Mu') for r in reads)]
    if not reads or len(writes) != 1 or len(writes[0].loops) != 1:
        c.undecided.append('reading and writing by day are not recognised')
        return
    w = writes[0]
    for pattern in ('*', '*058*', '*.sac', '2020-01-01*'):
        try:
            judge(c, R, reads, w, pattern)
        except Unknown as u:
            c.note(f'merging {pattern}: not evaluated: {str(u)[:200]}')
            return
    whole = [r for r in reads if contains(w.recv, lambda t: t is r.val)]
    for r in whole:
        c.ob('all data read are written', not any(x.op == 'Index' and contains(x.a[0], lambda t: t is r.val) for x in walk(w.recv)), 'whole', show(w.recv, 3), w.site)
        kw = r.kw or {}
        c.ob('all data read are written', not [k for k in kw if k in ('headonly', 'starttime', 'endtime', 'nearest_sample') and not is_const(kw[k], False, None)], 'read', str(sorted(kw)), r.site)
        cut = [e for e in R.events if e.kind == 'mcall' and e.name in ('trim', 'cutout', 'pop', 'remove', 'clear', 'decimate') and w.loops[0] in e.loops and e.order < w.order]
        c.ob('all data read are written', not cut, 'cut', cut[0].name if cut else '', cut[0].site if cut else None)
    ms = [e for e in R.events if e.kind == 'mcall' and e.name == 'merge' and e.loops[:1] == w.loops and e.order < w.order]
    c.ob('pieces of a day are joined, gaps hold the sample before', bool(ms), 'merge', 'the pieces are not joined', w.site)
    for e in ms:
        kw = e.kw or {}
        fill, method = kw.get('fill_value', e.args[1] if len(e.args) > 1 else None), kw.get('method', e.args[0] if e.args else None)
        if fill is None or is_const(fill):
            c.ob('pieces of a day are joined, gaps hold the sample before', fill is not None and is_const(fill, 'latest'), 'gaps', show(fill) if fill is not None else 'gaps are left open', e.site)
        if method is None or is_const(method):
            c.ob('pieces of a day are joined, gaps hold the sample before', method is not None and is_const(method, 1), 'overlaps', show(method) if method is not None else 'overlaps become gaps', e.site)
    gone = [e for e in R.events if e.kind == 'call' and e.name in ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'shutil.move', 'shutil.rmtree')]
    c.ob('the input files stay', not gone, 'removed', gone[0].name if gone else '', gone[0].site if gone else None)
    lp = R.interp.loops[w.loops[0]]
    c.ob('every day and ending has its file', not lp.get('has_break'), 'break', 'the loop can end early', w.site)
    mk_ = [e for e in R.events if e.kind == 'call' and e.name in ('os.makedirs', 'os.mkdir')]
    c.ob('the output folder is made if missing', any(e.args and e.args[0].op == 'Param' and e.args[0].a[0] == 'outfile_dir' for e in mk_) or not mk_ and c.note('how the output folder is made is not recognised') is None, 'folder', '', mk_[0].site if mk_ else None)


def terms_of(R):
    t = [a for e in R.events for a in list(e.args or ()) + list((e.kw or {}).values()) + list(e.pc) + list((e.extra or {}).get('now', ()) if isinstance(e.extra, dict) else ())]
    return t + [lp['iter'] for lp in R.interp.loops.values() if lp['iter'] is not None]


def find(t, env):
    """The sample files a pattern finds, not in order."""
    p = ev(t, env)
    if not isinstance(p, str):
        raise Unknown(t)
    return tuple(f for f in FILES[3:] + FILES[:3] if fnmatch.fnmatchcase(f, p) and p.count('/') == f.count('/'))


def judge(c, R, reads, w, pattern):
    terms = terms_of(R)
    env = {'loops': R.interp.loops}
    given = dict(zip(PARAMS, ('IN', pattern, 'OUT')))
    todo = {}
    for t in terms:
        for x in walk(t):
            if x.op == 'Param' and x.a[0] in given:
                env[x.id] = given[x.a[0]]
            elif x.op == 'Call' and x.a[0] in ('glob.glob', 'glob.iglob', 'builtins.sorted'):
                todo[x.id] = x
            elif x.op == 'Exc':
                env[x.id] = False
            elif x.op == 'Call' and x.a[0] in ('os.path.isdir', 'os.path.exists'):
                env[x.id] = True
    for x in sorted(todo.values(), key=lambda x: x.id):
        if x.a[0].startswith('glob'):
            if not contains(x, lambda t: t.op in ('Idx', 'Mu')):
                env[x.id] = find(x.a[1][0], env)
    # lists filled by appending, in order of the loops that fill them
    fills = sorted((e for e in R.events if e.kind == 'append' and len(e.loops) == 1 and e.loops != w.loops and e.recv.op == 'Ref'), key=lambda e: e.order)
    for ref in dict.fromkeys(e.recv for e in fills):
        es = [e for e in fills if e.recv is ref]
        if len({e.loops for e in es}) != 1:
            raise Unknown(ref)
        own = [ref.id] + [x.id for t in terms for x in walk(t) if x.op == 'OpenList' and x.a and x.a[0] is ref]
        lp = R.interp.loops[es[0].loops[0]]
        n, bind = seq_of(lp['iter'], env)
        out = []
        for i in range(n):
            e1 = {**env, **bind, mk('Idx', es[0].loops[0]).id: i}
            for e in es:
                e1.update({k: tuple(out) for k in own})
                if all(ev(p, e1) for p in e.pc):
                    out.append(ev((e.extra or {}).get('now', e.args)[0], e1))
        srt = [e for e in R.events if e.kind == 'mcall' and e.recv is ref and e.name == 'sort']
        env.update({k: tuple(sorted(out) if srt else out) for k in own})
    lp = R.interp.loops[w.loops[0]]
    n, bind = seq_of(lp['iter'], env)
    want = {}
    for f in FILES:
        if fnmatch.fnmatchcase(f, 'IN/' + pattern):
            want.setdefault(group(f), set())
    for f in FILES:
        if group(f) in want:
            want[group(f)].add(f)
    got = {}
    key = f'pattern {pattern}'
    for i in range(n):
        e1 = {**env, **bind, mk('Idx', w.loops[0]).id: i}
        if not all(ev(p, e1) for p in w.pc):
            continue
        out = ev(w.args[0], e1)
        files = []
        for r in reads:
            if r.loops == w.loops:
                if all(ev(p, e1) for p in r.pc):
                    v = ev(r.args[0], e1)
                    files += [f for f in FILES if fnmatch.fnmatchcase(f, v)]
            elif len(r.loops) == 2 and r.loops[0] == w.loops[0]:
                it = R.interp.loops[r.loops[1]]['iter']
                for x in walk(it):
                    if x.op == 'Call' and x.a[0].startswith('glob') and x.id not in env:
                        e1[x.id] = find(x.a[1][0], e1)
                m, b2 = seq_of(it, e1)
                for k in range(m):
                    e2 = {**e1, **b2, mk('Idx', r.loops[1]).id: k}
                    if all(ev(p, e2) for p in r.pc):
                        v = ev(r.args[0], e2)
                        files += [f for f in FILES if fnmatch.fnmatchcase(f, v)]
            else:
                raise Unknown(r.args[0])
        c.ob('every day and ending has its file', out not in got, f'{key}, {out}', 'the file is written twice', w.site)
        got[out] = files
    named = {f'OUT/{d}T00_00_00.{s}': g for (d, s), g in want.items()}
    for o, g in named.items():
        c.ob('every day and ending has its file', o in got, f'{key}, {o}', f'not among {sorted(got)[:4]}', w.site)
        if o in got:
            c.ob('a file holds the data of its own day and ending', set(got[o]) >= g, f'{key}, {o}', f'without {sorted(g - set(got[o]))}', w.site)
            c.ob('a file holds the data of its own day and ending', not set(got[o]) - g, f'{key}, {o}, others', f'with {sorted(set(got[o]) - g)}', w.site)
            c.ob('a file holds the data of its own day and ending', len(got[o]) == len(set(got[o])), f'{key}, {o}, once', 'read twice', w.site)
    for o in got:
        if o not in named:
            c.ob('every day and ending has its file', False, f'{key}, {o}', 'belongs to no day', w.site)
