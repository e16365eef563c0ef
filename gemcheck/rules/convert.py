"""The conversion pipeline: completeness, rejection, interruption, isolation, progress, windows."""
import fnmatch

import numpy as np

from . import rule
from ..evalterm import ev, seq_of, Unknown
from ..terms import mk, Const, is_const, cval, show, walk, contains, T, diff_const, poly, And, Or, Not, subst, same_value
from ..lib import under, flow, closure, leaves, universe, alts, dget, upd_entries, ints, seq, strs, peel, kids
from ..effects import effects
from ..loader import AnalysisBroken

CONVERT, GEM, SEVERAL = 'gemlog.core.convert', 'gemlog.core.read_gem', 'gemlog.core._read_several'
SINGLE = 'gemlog.core._read_single'


def loop_tries(R):
    """{loop id: [try ids that are outermost within an iteration of the loop]}; also {try id: begin event}."""
    begin = {}
    for e in R.events:
        if e.kind == 'try-begin':
            begin[e.extra] = e
    out = {}
    for tid, e in begin.items():
        for lid in e.loops[-1:]:
            outer = [t for t, part in e.tries if t != tid and t in begin and lid in begin[t].loops]
            if not outer:
                out.setdefault(lid, []).append(tid)
    return out, begin


def depends_on_loop(t, lid, names=None):
    return contains(t, lambda x: (x.op == 'Idx' and x.a[0] == lid) or (x.op == 'Mu' and x.a[1] == lid and
                                                                      (names is None or x.a[0] in names)))


def without_exc(lits, tid=None):
    """The conjunction of the literals when no handler (of this try) runs."""
    c = And(*lits)
    m = {x: Const(False) for x in walk(c) if x.op == 'Exc' and (tid is None or x.a[0] == tid)}
    return subst(c, m)


def given_exc(lits, tid, i):
    c = And(*lits)
    m = {x: Const(x.a[1] == i) for x in walk(c) if x.op == 'Exc' and x.a[0] == tid}
    return subst(c, m)


def conj(t):
    if t.op == 'And':
        return [y for x in t.a for y in (x if isinstance(x, tuple) else (x,))]
    return [t]


def name_test(lit, lid):
    """A comparison of (part of) the file's name with the serial number."""
    def name(t):
        top = [x for a in alts(t) for x in ([a.a[0]] if a.op == 'MCall' else [a])]
        return depends_on_loop(t, lid) and not any(x.op == 'StrCat' for x in top) and not contains(t, lambda x: x.op == 'ExcVal')
    if lit.op == 'Cmp' and lit.a[0] == '==':
        return any(name(x) for x in lit.a[1:])
    if lit.op in ('MCall', 'Bool'):
        return any(name(x) for x in walk(lit) if x.op == 'MCall' and x.a[1] in ('endswith', 'startswith'))
    return False


def unowned(R, begin, lid):
    """FILEnnnn.TXT without a readable serial number belongs to no logger."""
    return any(contains(x, lambda y: is_const(y, 'TXT')) for x in begin.pc[len(R.interp.loops[lid]['pc']):])


def judge_handlers(c, R, q, result, reads, exempt=()):
    """Every handler that lets the loop over raw files go on adds a message to the list that is returned."""
    lt, begin = loop_tries(R)
    clo = flow(R, result)
    n = 0
    for lid, tids in lt.items():
        for tid in tids:
            if not reads(tid, lid):
                continue
            if unowned(R, begin[tid], lid):
                continue
            info = R.interp.tries_info[tid]
            for i, done in info.get('completes', {}).items():
                types = info['handlers'][i]
                if not done:
                    continue
                base = begin[tid].pc
                short = '/'.join(x.split('.')[-1] for x in types)
                if R.interp.loops[lid].get('func') == info['func']:
                    c.ob('a rejected file does not end the reading of the others', not info['returns'].get(i), f'{q} handler of {short}',
                         'the handler returns: the files after this one are left out', info['site'])
                if set(types) <= set(exempt):
                    # this type means "there is no file": raised before anything is read, or it would hide a rejection
                    bad = [e for e in R.events if e.kind == 'raise' and e.name in exempt and any(t == tid for t, _ in e.tries)
                           and contains(And(*e.pc), lambda x: x.op == 'Exc' and x.a[0] != tid)]
                    c.ob('a handler without report only covers absent files', not bad, f'{q} {short}',
                         f'raised at {[e.site for e in bad]}')
                    continue
                ok = False
                for e in R.events:
                    if e.kind not in ('append', 'extend', 'aug', 'mcall') or (e.kind == 'mcall' and e.name not in ('append', 'extend')):
                        continue
                    if e.recv is None or e.recv.id not in clo or lid not in e.loops or e.order < begin[tid].order:
                        continue
                    part = [p for t, p in e.tries if t == tid]
                    if part and part[0] not in (('h', i), 'finally') or not part and not info['falls'][i]:
                        continue
                    lits = [x for x in conj(given_exc(e.pc[len(base):], tid, i))]
                    left = [x for x in lits if not is_const(x, True) and not name_test(x, lid)]
                    if not left and not is_const(And(*lits), False):
                        ok = True
                n += 1
                c.ob('a skipped raw file is reported', ok, f'{q} handler of {short} in {info["func"]}',
                     'this handler goes on to the next file without adding to the returned problems', info['site'])
    return n


@rule('C04')
def c04(c):
    """(1) In convert, with the block reader opaque: the blocks of file numbers tile the selection (each block is
    lo <= number < hi where hi is the next block's lo, from the smallest number, until past the largest); every path of the
    reading loops adds the block's problems or runs a handler that reports; the accumulated list is returned.
    (2) In the block reader: every handler in a loop over raw files that lets the loop continue adds a message to the
    returned problems (obligation per handler, using the path condition of the append); selection of files depends only on
    number, serial number and emptiness.  (3) In the per-file loop, each of the accumulated tables grows on every path on
    which no handler ran.  (4) The command-line worker logs the returned problems."""
    c04_convert(c)
    c04_block(c)
    c04_listing(c)
    c04_whole(c)
    c04_tables(c)
    c04_several(c)
    c04_worker(c)


def c04_convert(c):
    R = c.ctx.run(CONVERT, no_inline=(GEM,))
    I = R.interp
    calls = [e for e in R.events if e.kind == 'pcall' and e.name == GEM]
    c.ob('convert reads the first and all following blocks', len(calls) >= 1, '', f'{len(calls)} calls')
    lt, begin = loop_tries(R)
    for v in [rt[1] for rt in R.returns]:
        clo = flow(R, v)
        for k, e in enumerate(calls):
            got = any(x.op in ('Index', 'Fld') and x.a[0] is e.val and (x.a[1] == 'problems' or (isinstance(x.a[1], T) and is_const(x.a[1], 'problems')))
                      for x in clo.values())
            c.ob("a block's problems reach the result", got, f'read {k + 1}', 'not part of what convert returns', e.site)
    # every path of a reading loop that returns to its head adds the problems, or ran a handler
    for k, e in enumerate(calls):
        lids = [l for l in e.loops if l in I.loops and contains_call(I, l, e.val)]
        lp = I.loops[e.loops[-1]] if e.loops else None
        if lp is None:
            c.note(f'{e.site}: block read outside a loop')
            continue
        lid = e.loops[-1]
        for nm, nx in lp['next'].items():
            if not isinstance(nx, T):
                continue
            grows = [x for x in walk(nx) if x.op in ('Index', 'Fld') and x.a[0] is e.val and
                     (x.a[1] == 'problems' or (isinstance(x.a[1], T) and is_const(x.a[1], 'problems')))]
            if not grows:
                continue
            for path, leaf in leaves(nx):
                if not contains(leaf, lambda y: y.op == 'Mu' and y.a == (nm, lid)):
                    c.ob("each path adds the block's problems", False, f'read {k + 1}', 'earlier problems are replaced', e.site)
                    continue
                if any(contains(leaf, lambda y, g=g: y is g) for g in grows):
                    c.ob("each path adds the block's problems", True, f'read {k + 1}')
                    continue
                rest = without_exc(path)
                c.ob("each path adds the block's problems", is_const(rest, False), f'read {k + 1}',
                     f'not when {show(rest, 4)[:200]}', e.site)
        # tiling
        nums = e.kw.get('nums') if 'nums' in e.kw else (e.args[1] if len(e.args) > 1 else None)
        f = range_filter(nums)
        if f is None:
            c.note(f'{e.site}: the block of file numbers is not a comparison mask; tiling not judged')
            continue
        N, lo, hi, lo_incl, hi_incl = f
        c.ob('a block starts at its first number', lo_incl, f'read {k + 1}', 'the lower bound is exclusive', e.site)
        c.ob('a block ends before the next', not hi_incl, f'read {k + 1}', 'the upper bound is inclusive', e.site)
        var = [x for x in walk(lo) if x.op == 'Mu' and x.a[1] == lid]
        if len(var) == 1 and var[0] is lo:
            nm = lo.a[0]
            for path, leaf in leaves(lp['next'][nm]):
                c.ob('the next block starts where this one ended', same_value(leaf, hi), f'read {k + 1}',
                     f'next start {show(leaf, 4)}, end {show(hi, 4)}', e.site)
            init = lp['init'].get(nm)
            start = follow_init(R, init)
            for s in start:
                c.ob('the first block starts at the smallest number', is_min(s, N), f'read {k + 1}', show(s, 4)[:160], e.site)
            same = counters(R, lo, e.loops)
            lits = [g for p in list(e.pc) + ([lp['cond']] if lp.get('cond') is not None else []) for g in conj(p)]
            for lit in dict.fromkeys(lits):
                ok = goes_on(lit, same, N)
                if ok is not None:
                    c.ob('reading goes on to the largest number', ok, f'read {k + 1}', show(lit, 5)[:200], e.site)
    c.need('a block starts at its first number', 0, '')
    judge_handlers(c, R, 'convert', R.value, lambda tid, lid: True,
                   exempt=('gemlog.exceptions.MissingRawFiles', 'gemlog.core.MissingRawFiles'))


NAMES = {'FILE0000.123': 0, 'FILE9999.123': 9999, 'FILE0370.TXT': 370, 'FILE4081.123': 4081}


def c04_listing(c):
    """The file names that the listings of a folder admit (pattern of each glob whose result is gone through, with the
    serial number put in) include every raw file name of that serial number, and the number taken from a name is the one
    in it."""
    for q, R in ((CONVERT, c.ctx.run(CONVERT, no_inline=(GEM,))), (GEM, c.ctx.run(GEM))):
        short = q.split('.')[-1]
        gone = [lp['iter'] for lp in R.interp.loops.values() if isinstance(lp.get('iter'), T)] + \
            [it for t in universe(R) if t.op == 'Comp' for _, it in t.a[2]]
        env = {x.id: '123' if x.a[0] == 'SN' else '/d' for x in universe(R) if x.op == 'Param' and isinstance(x.a[0], str)}
        env['lib'] = True
        reach = items_of(R, gone, env)
        pats, n = set(), 0
        for e in R.events:
            if not (e.kind == 'call' and e.name in ('glob.glob', 'glob.iglob') and e.args and isinstance(e.val, T) and e.val.id in reach):
                continue
            n += 1
            try:
                if not all(_maybe(p, env) for p in e.pc):
                    continue
                pats.add(ev(e.args[0], env).split('/')[-1])
            except Unknown:
                pats.add('*')
        if not n:
            c.note(f'{short}: files are not listed with glob; names not judged')
        else:
            for name in NAMES:
                c.ob('every raw file name is listed', any(fnmatch.fnmatchcase(name, p) for p in pats), f'{short} {name}', f'patterns {sorted(pats)}')
        for t in universe(R):
            if t.op != 'Call' or t.a[0] != 'builtins.int' or len(t.a[1]) != 1:
                continue
            el = [x for x in walk(t) if x.op == 'Index' and isinstance(x.a[1], T) and x.a[1].op == 'Idx']
            if len(el) != 1 or not any(y.op == 'Slice' or y.op == 'MCall' and y.a[1] in ('split', 'rsplit', 'partition', 'replace') for y in walk(t)):
                continue
            if not any(y.op == 'Call' and y.a[0] == 'glob.glob' for y in items_of(R, [el[0].a[0]]).values()):
                continue
            for name, number in NAMES.items():
                try:
                    got = ev(t, {**env, el[0].id: '/d.1/' + name})
                except Unknown:
                    c.note(f'{short}: number of a file name not evaluated')
                    break
                c.ob('a file has the number in its name', got == number, f'{short} {name}', f'{show(t, 3)[-80:]} gives {got}')


def c04_whole(c):
    """A loop that goes over a list of raw files visits every entry of the list, and a list whose first entries could not be
    read goes on with the entry after the last one that was tried."""
    names = tuple(f'/d.1/FILE{i:04d}.123' for i in range(40))
    for q, R in ((CONVERT, c.ctx.run(CONVERT, no_inline=(GEM,))), (GEM, c.ctx.run(GEM)), (SEVERAL, c.ctx.run(SEVERAL))):
        short, I = q.split('.')[-1], R.interp
        mine = {l for e in R.events for l in e.loops}
        tails(c, R, mine, short)
        paths = [(e.path, e.ev.loops) for e in effects(R) if e.kind == 'read'] + \
            [(e.args[0], e.loops) for e in R.events if e.kind == 'append' and e.args and isinstance(e.args[0], T)]
        for lid in sorted(mine):
            lp = I.loops[lid]
            if lp['kind'] != 'for' or not isinstance(lp.get('iter'), T):
                continue
            for t in {p.id: p for p, loops in paths if lid in loops and depends_on_loop(p, lid)}.values():
                if not is_element(t, lid) or contains(t, lambda x: x.op == 'Idx' and x.a[0] != lid):
                    continue
                env = {x.id: names for y in (t, lp['iter']) for x in walk(y) if x.op in ('Mu', 'OpenList', 'Ref') or
                       x.op == 'Call' and x.a[0] in ('glob.glob', 'os.listdir') or x.op == 'Param' and isinstance(x.a[0], str)}
                env['lib'] = True
                try:
                    n, bind = seq_of(lp['iter'], env)
                    got = {ev(t, {**env, **bind, mk('Idx', lid).id: i}) for i in range(n)}
                except (Unknown, TypeError, KeyError):
                    continue
                if not got & set(names):
                    continue
                c.ob('every file of a list is visited', got >= set(names), f'{short} {lp["func"]}',
                     f'of 40 files, those not visited: {[x[-12:] for x in names if x not in got][:4]}', lp['site'])
    c.need('every file of a list is visited', 2, 'loops over lists of raw files')


def c04_tables(c):
    """What a block adds to the metadata and GPS tables is that block's own, all of it, whenever the block has any."""
    R = c.ctx.run(CONVERT, no_inline=(GEM,))
    I = R.interp
    saves = [e for e in R.events if e.kind == 'mcall' and e.name == 'to_csv']
    for k, e in enumerate(x for x in R.events if x.kind == 'pcall' and x.name == GEM):
        src = {e.val.id: None}
        for lid in e.loops[-1:]:
            for nm, nx in I.loops[lid]['next'].items():
                if isinstance(nx, T) and any(x is e.val for x in alts(nx)):
                    src[mk('Mu', nm, lid).id] = lid
        for key in ('metadata', 'gps'):
            def table(t):
                return t.op in ('Index', 'Fld') and (t.a[1] == key or isinstance(t.a[1], T) and is_const(t.a[1], key)) and isinstance(t.a[0], T) and \
                    t.a[0].op in ('Rec', 'Mu')
            mine = [w for w in saves if any(table(x) and x.a[0].id in src and
                                            (src[x.a[0].id] is None and set(e.loops) <= set(w.loops) or src[x.a[0].id] is not None and src[x.a[0].id] not in w.loops)
                                            for x in walk(w.recv))]
            if not any(table(x) for w in saves for x in walk(w.recv)):
                c.note(f'{key}: not written block by block; not judged')
                continue
            c.ob("each block's own rows are written", bool(mine), f'read {k + 1} {key}', f'no table is written from the {key} of this block', e.site)
            for w in mine:
                t = peel(w.recv)
                if t.op == 'Index' and isinstance(t.a[1], T) and t.a[1].op == 'Slice':
                    lo, hi, st = (cval(x) if is_const(x) else x for x in t.a[1].a)
                    if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                        c.ob("all of a block's rows are written", list(range(40))[lo:hi:st] == list(range(40)), f'read {k + 1} {key}', show(t, 3)[:150], w.site)
                elif t.op == 'MCall' and t.a[1] in ('head', 'tail', 'sample', 'drop_duplicates', 'nlargest', 'nsmallest'):
                    c.ob("all of a block's rows are written", False, f'read {k + 1} {key}', show(t, 3)[:150], w.site)
                new = [x for p in w.pc for x in conj(p) if not any(x is y for q in e.pc for y in conj(q))]
                for lit in new:
                    if not contains(lit, lambda x: table(x) and x.a[0].id in src):
                        continue
                    few = at_least(lit)
                    if few is not None:
                        c.ob("all of a block's rows are written", few <= 1, f'read {k + 1} {key} if any', f'only when there are {few} or more: {show(lit, 4)[:150]}', w.site)


def at_least(lit):
    """k for a condition 'there are k or more'."""
    if lit.op == 'Not' and lit.a[0].op == 'Cmp' and lit.a[0].a[0] in ('<', '<='):
        o, a, b = lit.a[0].a
        o, a, b = ('<=' if o == '<' else '<'), b, a
    elif lit.op == 'Cmp' and lit.a[0] in ('<', '<='):
        o, a, b = lit.a
    else:
        return None
    if not is_const(a) or not isinstance(cval(a), (int, float)) or isinstance(cval(a), bool):
        return None
    n = peel(b)
    if n.op == 'Call' and n.a[0] in ('builtins.len', 'builtins.sum', 'numpy.sum', 'numpy.count_nonzero') or n.op == 'MCall' and n.a[1] in ('sum', 'count') or \
            n.op == 'Fld' and n.a[1] == 'size' or n.op == 'Index' and isinstance(n.a[0], T) and n.a[0].op == 'Fld' and n.a[0].a[1] == 'shape':
        return int(cval(a) // 1 + 1) if o == '<' else int(-(-cval(a) // 1))
    return None


def tails(c, R, mine, short):
    """L = L[k:] on the way to the next round: the k entries left out were tried in this round."""
    for lid in mine:
        lp = R.interp.loops[lid]
        for name, nx in lp['next'].items():
            if not isinstance(nx, T):
                continue
            m = mk('Mu', name, lid)
            for x in alts(nx):
                if not (x.op == 'Index' and x.a[0] is m and isinstance(x.a[1], T) and x.a[1].op == 'Slice'):
                    continue
                lo, hi, st = x.a[1].a
                if not is_const(lo) or not isinstance(cval(lo), int) or cval(lo) < 0 or not is_const(hi, None) or cval(st) not in (None, 1):
                    continue
                tried = {cval(y.a[1]) for e in effects(R) if e.kind == 'read' and lid in e.ev.loops for y in walk(e.path)
                         if y.op == 'Index' and y.a[0] is m and is_const(y.a[1]) and isinstance(cval(y.a[1]), int)}
                if not tried:
                    continue
                ini = lp['init'].get(name)
                full = tuple(range(40))
                try:
                    got = ev(ini, {'lib': True, **{y.id: full for y in walk(ini) if y.op in ('OpenList', 'Ref') or
                                                   y.op == 'Call' and y.a[0] in ('glob.glob', 'os.listdir')}})
                    if isinstance(got, tuple):
                        c.ob('every file of a list is visited', set(got) == set(full), f'{short} {lp["func"]} start', f'{show(ini, 3)[-100:]}', lp['site'])
                except (Unknown, TypeError):
                    pass
                c.ob('a file is only passed over after it was tried', set(range(cval(lo))) <= tried, f'{short} {lp["func"]}',
                     f'{show(x, 2)} leaves out entries of which only {sorted(tried)} were tried', lp['site'])


def items_of(R, roots, env=None):
    """Ids of the terms that values are made of, conditions left out."""
    adds = {}
    for e in R.events:
        if e.kind in ('append', 'extend') and e.recv is not None:
            adds.setdefault(e.recv.id, []).extend(e.args)
    seen, st = {}, list(roots)
    while st:
        t = st.pop()
        if not isinstance(t, T) or t.id in seen:
            continue
        seen[t.id] = t
        st.extend(adds.get(t.id, ()))
        if t.op == 'Phi':
            try:
                st.append(t.a[1 if env and ev(t.a[0], env) else 2])
                if not env:
                    st.append(t.a[1])
            except Unknown:
                st.extend(t.a[1:])
        elif t.op == 'Comp':
            st.extend([t.a[1]] + [it for _, it in t.a[2]])
        elif t.op == 'Mu' and t.a[1] in R.interp.loops:
            lp = R.interp.loops[t.a[1]]
            st.extend(lp.get(part, {}).get(t.a[0]) for part in ('init', 'next'))
        else:
            st.extend(kids(t))
    return seen


def _maybe(p, env):
    try:
        return bool(ev(p, env))
    except Unknown:
        return True


def counters(R, lo, loops):
    """The loop variable lo as it stands at the head of each enclosing loop."""
    out = {lo.id: lo}
    work = [lo]
    while work:
        m = work.pop()
        lp = R.interp.loops.get(m.a[1])
        for x in (lp['init'].get(m.a[0]),) if lp else ():
            for y in alts(x) if isinstance(x, T) else ():
                if y.op == 'Mu' and y.a[1] in loops and y.id not in out:
                    out[y.id] = y
                    work.append(y)
    return out


def goes_on(lit, same, N):
    """A condition for reading a block that compares its first number with the largest one: does it admit the largest?
    None when it is no such comparison."""
    neg = lit.op == 'Not'
    cmp = lit.a[0] if neg else lit
    if cmp.op != 'Cmp' or cmp.a[0] not in ('<', '<='):
        return None
    op, a, b = cmp.a
    if neg:     # not (a < b)  ==  b <= a
        op, a, b = {'<': '<=', '<=': '<'}[op], b, a
    if a.id in same:
        if is_max(b, N):
            return op == '<='
        if b.op == 'Bin' and contains(b, lambda x: is_max(x, N)):
            k = [x for x in b.a[1:] if is_const(x)]
            if b.a[0] == '+' and len(k) == 1 and isinstance(cval(k[0]), (int, float)):
                return cval(k[0]) > 0 if op == '<' else cval(k[0]) >= 0
            return False
    if b.id in same and is_max(a, N):
        return False
    return None


def contains_call(I, lid, val):
    return True


def follow_init(R, t, seen=None):
    seen = seen or set()
    if t is None or t.id in seen:
        return []
    seen.add(t.id)
    if t.op == 'Mu':
        lp = R.interp.loops.get(t.a[1])
        out = follow_init(R, lp['init'].get(t.a[0]), seen)
        return out
    if t.op == 'Phi':
        return [y for x in alts(t) for y in follow_init(R, x, seen)]
    return [t]


def is_max(t, N=None):
    return (t.op == 'Call' and t.a[0] in ('numpy.max', 'builtins.max', 'numpy.amax', 'numpy.nanmax')) or (t.op == 'MCall' and t.a[1] == 'max') \
        or (t.op == 'Index' and is_const(t.a[1], -1))


def is_min(t, N=None):
    return (t.op == 'Call' and t.a[0] in ('numpy.min', 'builtins.min', 'numpy.amin', 'numpy.nanmin')) or (t.op == 'MCall' and t.a[1] == 'min') \
        or (t.op == 'Index' and is_const(t.a[1], 0))


def range_filter(t):
    """N[(N >= lo) & (N < hi)] -> (N, lo, hi, lo inclusive, hi inclusive)."""
    if t is None:
        return None
    t = peel(t)
    if t.op == 'Index' and isinstance(t.a[1], T):
        N, m = t.a
        m = peel(m)
        if m.op == 'Index' and is_const(m.a[1], 0):
            m = m.a[0]
        if m.op == 'Call' and m.a[0] in ('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero') and m.a[1]:
            m = m.a[1][0]
    elif t.op == 'Comp':
        m, N = t.a[3], t.a[1]
    else:
        return None
    lo = hi = None
    if m.op == 'Bin' and m.a[0] == '&':
        m = And(m.a[1], m.a[2])
    if m.op == 'Call' and m.a[0] == 'numpy.logical_and':
        m = And(*m.a[1])
    for l in conj(m):
        if l.op == 'Cmp' and l.a[0] in ('<', '<='):
            if peel(l.a[2]) is peel(N):
                lo = (l.a[1], l.a[0] == '<=')
            elif peel(l.a[1]) is peel(N):
                hi = (l.a[2], l.a[0] == '<=')
        elif l.op == 'Not' and l.a[0].op == 'Cmp':
            return None
    if lo is None or hi is None:
        return None
    return N, lo[0], hi[0], lo[1], hi[1]


def c04_block(c):
    R = c.ctx.run(GEM)
    I = R.interp
    for rt in R.returns:
        probs = [v for _, leaf in leaves(rt[1]) for v in [dget(leaf, 'problems')]]
        c.ob('the block reader returns its problems', bool(probs) and all(p is not None for p in probs), '', show(rt[1], 2)[:100])
    probs = [under(v, path) for rt in R.returns for path, leaf in leaves(rt[1]) for v in [dget(leaf, 'problems')] if v is not None]
    res = mk('List', *probs)
    opens = [e for e in effects(R) if e.kind == 'read']

    def reads(tid, lid):
        return any(any(t == tid for t, _ in e.ev.tries) and depends_on_loop(e.path, lid) for e in opens)
    n = judge_handlers(c, R, 'read_gem', res, reads)
    lt, begin = loop_tries(R)
    judged = {(lid, tid) for lid, tids in lt.items() for tid in tids if reads(tid, lid) and not unowned(R, begin[tid], lid)}
    first = min([begin[tid].order for _, tid in judged], default=0)
    for e in R.events:
        if e.kind == 'raise' and (e.name or '').endswith('.MissingRawFiles'):
            c.ob('absence is only declared before any file is read', e.order < first and not any(l in e.loops for l, _ in judged), e.func,
                 'MissingRawFiles is not reported, but may be raised after files were rejected', e.site)
    c.need('a skipped raw file is reported', 4, 'handlers in the loops over raw files')
    # selection of files
    for e in R.events:
        if e.kind != 'append' or not e.loops or e.recv is None:
            continue
        lid = e.loops[-1]
        lp = I.loops[lid]
        if not e.args or not is_element(e.args[0], lid):
            continue
        for l in e.pc[len(lp['pc']):]:
            for lit in (x for y in conj(l) for x in [y]):
                ok = name_test(lit, lid) or (lit.op in ('Cmp',) and lit.a[0] == 'in') or emptiness(lit) or lit.op == 'Exc' or \
                    any(name_test(x, lid) for x in walk(lit) if x.op == 'Cmp')
                c.ob('files are selected by number, serial number and emptiness only', ok, e.func, show(lit, 5)[:200], e.site)


def is_element(t, lid):
    """The file name itself (an element of the sequence the loop goes over)."""
    return t.op in ('Index', 'Elem') and depends_on_loop(t, lid)


def nonempty(lit, v):
    """len(v) > 0, len(v) != 0, v != [], bool(v)"""
    ln = lambda x: x.op == 'Call' and x.a[0] == 'builtins.len' and x.a[1] and x.a[1][0] is v
    if lit.op == 'Bool':
        return lit.a[0] is v or ln(lit.a[0])
    if lit.op == 'Cmp' and lit.a[0] in ('<', '<=', '!=', '=='):
        o, a, b = lit.a
        if o == '<':
            return is_const(a, 0) and ln(b)
        if o == '<=':
            return is_const(a, 1) and ln(b)
        if o == '==':
            return is_const(b, True) and a.op == 'Bool' and (a.a[0] is v or ln(a.a[0]))
        return any(is_const(x, 0) or x.op == 'List' and not x.a for x in (a, b)) and any(ln(x) or x is v for x in (a, b)) or \
            is_const(b, False) and a.op == 'Bool' and (a.a[0] is v or ln(a.a[0]))
    return False


def emptiness(lit):
    """size > small constant"""
    if lit.op == 'Cmp' and lit.a[0] in ('<', '<='):
        a, b = lit.a[1], lit.a[2]
        return isinstance(cval(a), (int, float)) and 0 <= cval(a) <= 10 and contains(b, lambda x: x.op == 'Call' and x.a[0] == 'os.path.getsize' or
                                                                                      x.op == 'Fld' and x.a[1] == 'st_size')
    if lit.op == 'Cmp' and lit.a[0] == '!=':
        return any(is_const(x, 0) for x in lit.a[1:])
    return False


def c04_several(c):
    R = c.ctx.run(SEVERAL)
    I = R.interp
    n = 0
    for rt in R.returns:
        for key in ('data', 'metadata', 'gps'):
            v = dget(rt[1], key)
            c.ob('the per-file loop returns its tables', v is not None, key, show(rt[1], 2)[:100])
            if v is None:
                continue
            for x in walk(v):
                if x.op != 'Mu' or x.a[1] not in I.loops or not isinstance(I.loops[x.a[1]]['next'].get(x.a[0]), T):
                    continue
                lp = I.loops[x.a[1]]
                if lp['kind'] != 'for' or lp['func'] != rt[2] and False:
                    continue
                for path, leaf in leaves(lp['next'][x.a[0]]):
                    n += 1
                    if leaf is not x:
                        c.ob('a file that raises no problem contributes', contains(leaf, lambda y: y is x), key, 'the table is replaced')
                        continue
                    rest = without_exc(path)
                    c.ob('a file that raises no problem contributes', is_const(rest, False), key,
                         f'not when {show(rest, 4)[:200]}', lp['site'])
    if n == 0:
        c.note('the per-file loop is not written as an accumulation; growth not judged')


def c04_worker(c):
    q = 'gemlog.gemconvert.convert_single_SN'
    R = c.ctx.run(q, no_inline=(CONVERT,))
    calls = [e for e in R.events if e.kind == 'pcall' and e.name == CONVERT]
    c.ob('the worker converts', len(calls) == 1, '', '')
    for e in calls:
        ok = False
        for l in R.events:
            if l.kind == 'call' and (l.name or '').startswith('logging.') and any(contains(a, lambda x: x is e.val) for a in l.args):
                extra = [x for x in l.pc[len(e.pc):] if not is_const(x, True)]
                if all(nonempty(x, e.val) for x in extra):
                    ok = True
        c.ob('the worker logs the problems', ok, '', 'the returned problems are not logged whenever there are any', e.site)


@rule('C05')
def c05(c):
    """In the per-file loop of the block reader (all callees inlined), the commits of a file are the calls whose results become
    the next value of an accumulated table and the stores into objects that outlive the iteration.  Rule: no statement that
    can reject the file (a raise in the project's code, directly or in an inlined callee) comes after a commit; the
    discontinuity test (folded for counters with a backward step or a step of more than 1000 anywhere) rejects; and
    rejections are handled per file, inside the loop."""
    R = c.ctx.run(SEVERAL)
    I = R.interp
    lt, begin = loop_tries(R)
    done = 0
    for lid, tids in lt.items():
        lp = I.loops[lid]
        accs = {}
        for rt in R.returns:
            for key in ('data', 'metadata', 'gps', 'header'):
                v = dget(rt[1], key)
                if v is None:
                    continue
                for x in walk(v):
                    if x.op == 'Mu' and x.a[1] == lid:
                        accs[x.a[0]] = x
        if len(accs) < 2:
            continue
        new = {}
        for nm, x in accs.items():
            for _, leaf in leaves(lp['next'][nm]):
                if leaf is not x:
                    for y in walk(leaf):
                        if y is not x and contains(y, lambda z: z is x):
                            new[y.id] = nm
        outs = {root(x).id for rt in R.returns for key in ('data', 'metadata', 'gps', 'header') for v in [dget(rt[1], key)]
                if v is not None for x in walk(v) if lid not in x.lids}
        body = [e for e in R.events if lid in e.loops]
        raises = [e for e in body if e.kind == 'raise' and handled_inside(e, tids)]
        commits = []
        for e in body:
            if isinstance(e.val, T) and e.val.id in new and e.kind in ('call', 'mcall', 'pcall', 'aug', 'leave'):
                commits.append((e, f'table {new[e.val.id]}'))
            elif e.kind in ('setitem', 'setattr', 'store', 'append', 'extend', 'del') and e.recv is not None and root(e.recv).id in outs and \
                    not message_list(R, e):
                commits.append((e, 'stored ' + (str(cval(e.args[0].a[-1])) if e.args and e.args[0].op == 'Tuple' else e.name or '')))
        c.ob('the file is committed', len(commits) >= 3, '', f'{len(commits)} commits')
        for e, what in commits:
            later = [r for r in raises if r.order > e.order and may_follow(e, r)]
            c.ob('nothing rejects a file after it has contributed', not later, what,
                 f'{e.site} commits, then {later[0].site if later else ""} may reject', e.site)
        for e in raises:
            done += 1
            c.ob('a rejection is handled per file', any(t in tids for t, p in e.tries if p == 'body'), f'{e.func} {short(e.name)}', '', e.site)
    R = c.ctx.run(SEVERAL, no_inline=(SINGLE,))
    c05_jumps(c, R)
    c.need('nothing rejects a file after it has contributed', 4, 'commits in the per-file loop')
    c.need('a rejection is handled per file', 4, 'rejections')


JUMPS = {'a step back': (0, 10, 5, 15, 25), 'a step back at the end': (0, 10, 20, 30, 25), 'a step back at the start': (20, 10, 20, 30, 40),
         'a jump': (0, 10, 1020, 1030, 1040), 'a jump at the end': (0, 10, 20, 30, 1040), 'a jump at the start': (0, 1001, 1010, 1020, 1030)}


def c05_jumps(c, R):
    """The conditions of the rejection, folded for sample times with one step back or jump anywhere, with and without GPS required."""
    hits = [r for r in R.events if r.kind == 'raise' and r.loops and
            any(x.op == 'Cmp' and any(contains(y, is_step) for y in x.a[1:]) for x in (walk(r.pc[-1]) if r.pc else ()))]
    c.ob('steps of the sample times reject a file', bool(hits), '', 'no rejection depends on the differences of the sample times')
    if not hits:
        return
    for what, times in JUMPS.items():
        data = np.array([(t, 5.0) for t in times], float)
        for req in (True, False):
            env = {'lib': True, mk('Param', 'require_gps').id: req, mk('Param', 'version').id: '1.10'}
            for r in hits:
                for lit in r.pc:
                    for x in walk(lit):
                        if x.op == 'Rec':
                            env[x.id] = {'data': data}
                        elif x.op in ('Fld', 'Index') and key_of(x) == 'data':
                            env[x.id] = data
                        elif x.op == 'Mu':
                            env[x.id] = -1.0
            verdict, seen = [], False
            for r in hits:
                v = True
                for lit in r.pc:
                    try:
                        if not ev(lit, env):
                            v = False
                        seen = seen or lit is r.pc[-1] and contains(lit, is_step)
                    except Unknown:
                        if lit is r.pc[-1]:
                            v = None if v else v
                verdict.append(v)
            if True not in verdict and seen is False:
                c.note(f'{what}: not evaluated')
                continue
            c.ob('times that are not continuous always reject the file', True in verdict, f'{what}, GPS {"required" if req else "not required"}',
                 f'counters {times} are not rejected', hits[0].site)


def short(n):
    return (n or '').split('.')[-1]


def handled_inside(e, tids):
    """The exception is not one that an inner try of a reader turns into a fallback."""
    return any(t in tids and p == 'body' for t, p in e.tries)


def root(t):
    while t.op in ('Fld', 'Index', 'Upd'):
        t = t.a[0]
    return t


def message_list(R, e):
    return e.kind in ('append', 'extend') and all(contains(a, lambda x: x.op in ('StrCat', 'ExcVal', 'Phi')) for a in e.args)


def may_follow(e, r):
    return not is_const(And(*(e.pc + r.pc)), False)


def is_step(t):
    """np.diff(x) / x.diff() / x[1:] - x[:-1], of sample times."""
    t = peel(t)
    if t.op == 'Call' and t.a[0] == 'numpy.diff' and t.a[1]:
        x = t.a[1][0]
    elif t.op == 'MCall' and t.a[1] == 'diff':
        x = t.a[0]
    elif t.op == 'Bin' and t.a[0] == '-' and t.a[1].op == 'Index' and t.a[2].op == 'Index' and \
            all(isinstance(x.a[1], T) and contains(x.a[1], lambda y: y.op == 'Slice') for x in t.a[1:]):
        x = t.a[1].a[0]
    else:
        return False
    return contains(x, lambda y: y.op in ('Fld', 'Index') and key_of(y) == 'data') and not contains(x, lambda y: y.op in ('Fld', 'Index') and key_of(y) == 'gps')


def key_of(t):
    k = t.a[1]
    return cval(k) if isinstance(k, T) else k


INTERRUPT = ('builtins.KeyboardInterrupt', 'builtins.BaseException', '*')
READING = ('gemlog.core.convert', 'gemlog.core.read_gem', 'gemlog.core._convert_one_file', 'gemlog.gem_cat.gem_cat',
           'gemlog.gem_cat.main', 'gemlog.gemconvert.main', 'gemlog.gemconvert.convert_single_SN')


@rule('C06')
def c06(c):
    """For every entry point that reads raw files (conversion, block reading, single-file conversion, concatenation, their
    command-line programs), enumerate the exception handlers reached by inlining.  Rule: a handler that can receive
    KeyboardInterrupt (bare except, BaseException, KeyboardInterrupt, not shadowed by an earlier clause of the same try)
    must leave by raising, on every path, and what it raises is the interrupt itself, KeyboardInterrupt or SystemExit; no
    final block leaves by return, break or continue; no context manager suppresses the interrupt; SIGINT is not ignored."""
    import ast
    for q in READING:
        if not c.ctx.has(q):
            continue
        R = c.ctx.run(q)
        seen = set()
        for e in R.events:
            if e.kind == 'handler':
                tid, i, types = e.extra
                info = R.interp.tries_info[tid]
                if any(set(h) & set(INTERRUPT) for h in info['handlers'][:i]) or not set(types) & set(INTERRUPT):
                    c.ob('handlers that do not receive the interrupt', True)
                    continue
                key = f'{q}: handler of {"/".join(short(x) for x in types)} in {e.func}'
                c.ob('an interrupt leaves the handler', not info['completes'].get(i), key, 'the handler goes on or returns', e.site)
                for r in R.events:
                    if r.kind == 'raise' and (tid, ('h', i)) in r.tries and r.tries[-1][0] == tid:
                        ok = r.recv is None or r.name in ('builtins.SystemExit', 'builtins.KeyboardInterrupt') or \
                            r.recv.op == 'ExcVal'
                        c.ob('the handler raises the interrupt itself', ok, key, f'raises {r.name}', r.site)
            elif e.kind == 'try-begin':
                node = R.interp.tries_info[e.extra]['node']
                bad = abrupt(node.finalbody)
                if node.finalbody:
                    c.ob('no final block discards the interrupt', not bad, f'{q}: {e.func}', '', e.site)
            elif e.kind == 'with' and e.recv is not None and e.recv.op == 'Call' and e.recv.a[0] == 'contextlib.suppress':
                ok = not any(x.op == 'Ext' and x.a[0] in INTERRUPT for a in e.recv.a[1] for x in walk(a))
                c.ob('no context manager suppresses the interrupt', ok, f'{q}: {e.func}', '', e.site)
            elif e.kind == 'call' and e.name == 'signal.signal':
                c.ob('SIGINT is not ignored', not any(contains(a, lambda x: x.op == 'Ext' and x.a[0] == 'signal.SIG_IGN') for a in e.args),
                     f'{q}: {e.func}', '', e.site)
    c.need('an interrupt leaves the handler', 6, 'handlers that receive the interrupt')
    c.need('handlers that do not receive the interrupt', 10, 'handlers')


def abrupt(body):
    import ast

    def go(n, loop):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            return False
        if isinstance(n, ast.Return) or (isinstance(n, (ast.Break, ast.Continue)) and not loop):
            return True
        inner = loop or isinstance(n, (ast.For, ast.While))
        return any(go(x, inner) for x in ast.iter_child_nodes(n))
    return any(go(x, False) for x in body)
