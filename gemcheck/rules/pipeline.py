"""The command-line converter: isolation of serial numbers, codes, options."""
import ast
import re

from . import rule
from ..terms import mk, Const, is_const, cval, show, walk, contains, T, And, Or, Not, subst
from ..lib import flow, closure, leaves, alts, dget, seq, strs, peel, kids, under
from ..loader import AnalysisBroken
from ..evalterm import Unknown, ev
from .convert import conj, INTERRUPT, CONVERT, GEM

MAIN, WORKER = 'gemlog.gemconvert.main', 'gemlog.gemconvert.convert_single_SN'
LOGS = ('info', 'warning', 'error', 'exception', 'critical', 'log')


def short(x):
    return x.split('.')[-1]


def bases(c):
    """{project class: names of its ancestors}."""
    own = {}
    for n, m in c.ctx.project.modules.items():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ClassDef):
                own[n + '.' + s.name] = [ast.unparse(b).split('.')[-1] for b in s.bases]
    by = {k.split('.')[-1]: k for k in own}

    def anc(k, seen=()):
        out = set()
        for b in own.get(k, ()):
            out.add(b)
            if b in by and b not in seen:
                out |= anc(by[b], seen + (b,))
        return out
    return {k: anc(k) for k in own}


def handlers_around(R, e):
    """[(try id, handler index, types)] of the handlers that can receive an exception raised at e, innermost first."""
    for tid, part in reversed(e.tries):
        if part != 'body':
            continue
        for i, types in enumerate(R.interp.tries_info[tid]['handlers']):
            yield tid, i, types


def covers_all(types):
    return bool(set(types) & {'builtins.Exception', 'builtins.BaseException', '*'})


@rule('C07')
def c07(c):
    """(1) In the command-line worker, every call of the conversion lies in a try whose handlers cover Exception; that handler
    ends normally and passes the serial number to a logging call on every path.  (2) No exception outside the Exception
    hierarchy (SystemExit, BaseException, a project class not derived from Exception) is raised by anything the worker
    reaches, except in answer to an interrupt.  (3) Every creation of a folder that workers reach tolerates that the folder
    exists.  (4) The main program maps the worker over a list with one entry per selected serial number; the selection is
    made unique and only the excluded numbers (and those without codes) are dropped."""
    if not c.ctx.has(WORKER):
        raise AnalysisBroken('no command-line worker')
    R = c.ctx.run(WORKER)
    entry = [e for e in R.events if e.kind == 'enter' and e.name == CONVERT]
    c.ob('the worker converts', bool(entry), WORKER, 'no call of convert')
    for e in entry:
        sn = e.extra['SN']
        hs = [h for h in handlers_around(R, e) if covers_all(h[2])]
        if not c.ob('a failing conversion is caught', bool(hs), f'{WORKER} call of convert', 'no handler covers Exception', e.site):
            continue
        tid, i, types = hs[0]
        info = R.interp.tries_info[tid]
        # SystemExit is not an Exception: a handler for it may end the worker
        inner = [r for r in R.events if r.kind == 'raise' and (tid, ('h', i)) in r.tries and not any(
            t != tid and p == 'body' and t > 0 and r.tries.index((t, p)) > r.tries.index((tid, ('h', i))) for t, p in r.tries)]
        c.ob('the handler ends normally', info['completes'].get(i) and not inner, f'{WORKER} handler of {"/".join(map(short, types))}',
             f'raises at {[r.site for r in inner]}', info['site'])
        logs = [r for r in R.events if r.kind in ('call', 'mcall') and short(str(r.name)) in LOGS and (tid, ('h', i)) in r.tries]
        named = [r for r in logs if any(contains(a, lambda x: x is sn or x is peel(sn) or sn_of(x, sn)) for a in r.args)]
        c.ob('the failure is logged with the serial number', bool(named), f'{WORKER} handler of {"/".join(map(short, types))}',
             f'{len(logs)} logging call(s), none with the serial number', info['site'])
        extra = [r for r in named if [x for x in conj(And(*r.pc[len(e.pc):])) if x.op != 'Exc' and not is_const(x, True)] and
                 not any(contains(x, lambda y: y.op == 'Exc') for x in r.pc)]
        if named:
            c.ob('the failure is logged on every path', len(extra) < len(named), WORKER, 'logged under a condition only', named[0].site)
    anc = bases(c)
    for e in R.events:
        if e.kind == 'raise':
            n = e.name
            bad = n in ('builtins.SystemExit', 'builtins.BaseException', 'builtins.GeneratorExit', 'builtins.KeyboardInterrupt') or (
                n in anc and 'BaseException' in anc[n] and 'Exception' not in anc[n])
            if bad:
                # allowed in answer to an interrupt, or when a handler inside the worker catches it
                ok = any(isinstance(p, tuple) and p[0] == 'h' and set(R.interp.tries_info[t]['handlers'][p[1]]) & set(INTERRUPT)
                         for t, p in e.tries) or any(set(h[2]) & {n, 'builtins.BaseException', '*'} and
                                                     R.interp.tries_info[h[0]]['completes'].get(h[1]) for h in handlers_around(R, e))
            else:
                ok = True
            c.ob('the worker raises nothing its handler lets through', ok, f'{e.func} raises {short(n or "?")}',
                 'reaches the pool past the handler of Exception', e.site)
        elif e.kind in ('call', 'mcall') and short(str(e.name)) in ('_exit', 'abort', 'kill', 'killpg', 'terminate') and str(e.name).startswith('os.'):
            c.ob('the worker raises nothing its handler lets through', False, f'{e.func} calls {e.name}', '', e.site)
        if e.kind in ('call', 'mcall') and str(e.name) in ('os.makedirs', 'os.mkdir') or e.kind == 'mcall' and e.name == 'mkdir':
            tol = any(is_const(v, True) for k, v in (e.kw or {}).items() if k == 'exist_ok') or \
                (str(e.name) == 'os.makedirs' and len(e.args) > 2 and is_const(e.args[2], True))
            if not tol:
                for t, i, types in handlers_around(R, e):
                    if set(types) & {'builtins.FileExistsError', 'builtins.OSError'} or covers_all(types):
                        bad = [r for r in R.events if r.kind == 'raise' and (t, ('h', i)) in r.tries]
                        tol = R.interp.tries_info[t]['completes'].get(i) and not bad and R.interp.tries_info[t]['func'] == e.func
                        break
            c.ob('creating a folder tolerates that it exists', bool(tol), f'{e.func} {show(e.args[0] if e.args else e.recv)[:60]}',
                 'another worker can create it first', e.site)
    M = c.ctx.run(MAIN)
    ent = [e for e in M.events if e.kind == 'enter' and e.name == WORKER]
    c.ob('the program runs the worker', bool(ent), MAIN, 'never called')
    for e in M.events:
        if e.kind == 'mcall' and e.name in ('map', 'submit', 'imap', 'starmap', 'imap_unordered') and e.args and contains(
                e.args[0], lambda x: x.op == 'Fn' and x.a[0] == WORKER):
            lst = e.args[1] if len(e.args) > 1 else None
            if lst is None or e.name == 'submit':
                continue
            if lst.op == 'Comp':
                c.ob('one task per selected serial number', len(lst.a[2]) == 1 and is_true(lst.a[3]), MAIN, 'the task list is filtered or crossed', e.site)
                it = strip(lst.a[2][0][1])
                cols = it.a[0] if it.op == 'Zip' and isinstance(it.a[0], tuple) else it.a if it.op == 'Zip' else [it]
                c.ob('one task per selected serial number', not any(x.op == 'Index' and any(y.op == 'Slice' for y in kids(x)) for x in cols),
                     MAIN + ' slice', 'part of the list is left out', e.site)
    for e in M.events:
        if e.kind == 'enter' and e.name == CONVERT:
            selection(c, M, e)
    c.need('the worker raises nothing its handler lets through', 20, 'raise statements under the worker')
    c.need('creating a folder tolerates that it exists', 3, 'folder creations under the worker')


def is_true(t):
    return t is None or is_const(t, True) or (isinstance(t, tuple) and not t)


def strip(t):
    while t.op in ('Enum',) or (t.op == 'Call' and t.a[0] in ('builtins.list', 'builtins.tuple', 'builtins.enumerate') and t.a[1]):
        t = t.a[0] if t.op == 'Enum' else t.a[1][0]
    return t


def sn_of(x, sn):
    return x.op == 'Call' and x.a[0] == 'builtins.str' and x.a[1] and x.a[1][0] is sn


def selection(c, M, e):
    """Where the SN of a conversion comes from: a list made unique, filtered only by the exclusion list (or the codes)."""
    sn = e.extra['SN']
    apps = {}
    for x in M.events:
        if x.kind == 'append' and x.recv is not None:
            apps.setdefault(x.recv, []).append(x)
    for path, leaf in leaves(sn):
        if leaf.op != 'Index':
            c.note(f'selection not recognised: {show(leaf)[:80]}')
            continue
        L = leaf.a[0]
        if L.op == 'OpenList':
            L = L.a[0]
        src = L
        if L in apps:
            src = apps[L][0].args[0]
            src = src.a[0] if src.op == 'Index' else src
        comps = [x for x in walk(src) if x.op == 'Comp' and contains(x, lambda y: y.op == 'Mu' and str(y.a[0]))]
        if src.op != 'Comp':
            c.note(f'selection not recognised: {show(src)[:80]}')
            continue
        for cond in conj_cond(src.a[3]):
            ok = cond.op == 'Cmp' and cond.a[0] == 'notin'
            c.ob('only excluded serial numbers are dropped', ok, f'{MAIN} {show(cond)[:50]}', '')
        base = src.a[2][0][1]
        uniq = all(contains(b, lambda x: x.op == 'Call' and x.a[0] in ('numpy.unique', 'builtins.set', 'builtins.dict.fromkeys', 'pandas.unique'))
                   for b in alts(base))
        c.ob('the selected serial numbers are made unique', uniq, MAIN, f'{show(base)[:100]}')


def conj_cond(t):
    if is_true(t):
        return []
    if isinstance(t, tuple):
        return [y for x in t for y in conj_cond(x)]
    return conj(t)


CODES = ('station', 'network', 'location')


@rule('C14')
def c14(c):
    """(1) From the command line to the conversion: the station, network and location argument of every conversion is, under
    each condition, empty or the column of that name of the codes table, at the row selected by comparing the table's SN column
    with this conversion's own serial number; the lists the codes are taken from grow in the same branch as the list of serial
    numbers and are read at the same index.  (2) convert passes its station, network and location to every block reading
    unchanged.  (3) The block reader stores them in the header of every trace it returns, the station falling back to the
    serial number only when empty; nothing on the way to the output files stores another value."""
    M = c.ctx.run(MAIN)
    apps = {}
    for x in M.events:
        if x.kind == 'append' and x.recv is not None:
            apps.setdefault(x.recv, []).append(x)
    n = 0
    for e in M.events:
        if e.kind != 'enter' or e.name != CONVERT:
            continue
        n += 1
        sn = e.extra['SN']
        for k in CODES:
            v = e.extra[k]
            ls = list(leaves(v))
            c.ob('the codes file is used', any(not is_const(x, '') for _, x in ls), f'{MAIN} {k}', f'{show(v)[:80]}', e.site)
            for path, leaf in ls:
                if is_const(leaf, ''):
                    # only without codes: not under "codes given"
                    c.ob('no code only without a codes file', no_codes(path), f'{MAIN} {k}', f'empty although codes are given: {[show(p)[:60] for p in path]}', e.site)
                    continue
                if leaf.op != 'Index':
                    judge_cell(c, leaf, k, sn, path, f'{MAIN} {k}', e.site)
                    continue
                L, ix = leaf.a[0], leaf.a[1]
                if L.op == 'OpenList':
                    L = L.a[0]
                if L not in apps:
                    if not judge_cell(c, leaf, k, sn, path, f'{MAIN} {k}', e.site):
                        c.note(f'{k} not recognised: {show(leaf)[:80]}')
                    continue
                # the serial number under the same condition
                s = under(sn, path)
                S = None
                if s.op == 'Index':
                    S = s.a[0].a[0] if s.a[0].op == 'OpenList' else s.a[0]
                    c.ob('codes and serial number are read at the same index', s.a[1] is ix, f'{MAIN} {k}', f'{show(ix)} and {show(s.a[1])}', e.site)
                for a in apps[L]:
                    for val in alts(a.args[0]):
                        if is_const(val, ''):
                            c.ob('no code only without a codes file', no_codes(a.pc), f'{MAIN} {k} appended', 'empty although codes are given', a.site)
                            continue
                        own = [x for x in apps.get(S, ()) if x.pc == a.pc and x.loops == a.loops]
                        c.ob('codes and serial numbers grow together', len(own) == 1, f'{MAIN} list of {k}', f'appended under {[show(p)[:50] for p in a.pc[-2:]]}', a.site)
                        c.ob('codes and serial numbers grow together', len([x for x in apps[L] if x.pc == a.pc]) == 1, f'{MAIN} list of {k} once', 'appended twice', a.site)
                        judge_cell(c, val, k, own[0].args[0] if own else None, a.pc, f'{MAIN} {k}', a.site)
                c.ob('codes and serial numbers grow together', len(apps[L]) == len(apps.get(S, ())), f'{MAIN} list of {k} count',
                     f'{len(apps[L])} appends against {len(apps.get(S, ()))}', e.site)
    c.ob('the program converts', n > 0, MAIN, '')
    # serial numbers without codes are logged
    R = c.ctx.run(CONVERT)
    P = {k: param(R, CONVERT, k) for k in CODES + ('SN',)}
    k2 = 0
    for e in R.events:
        if e.kind == 'enter' and e.name == GEM:
            k2 += 1
            for k in CODES:
                c.ob('convert passes the codes on', same_param(e.extra.get(k), k), f'{CONVERT} {k}', f'passes {show(e.extra.get(k) or Const(None))[:60]}', e.site)
        if e.kind in ('setattr', 'setitem') and e.args and cval(e.args[0]) in CODES and not within(R, e, GEM):
            k = cval(e.args[0])
            c.ob('the codes are not changed on the way out', len(e.args) > 1 and same_param(e.args[1], k), f'{e.func} sets {k}', f'{show(e.args[1])[:60]}', e.site)
    c.ob('convert reads blocks', k2 >= 2, CONVERT, f'{k2} calls of the block reader')
    G = c.ctx.run(GEM)
    stores = {}
    for e in G.events:
        if e.kind in ('setattr', 'setitem') and len(e.args) > 1 and cval(e.args[0]) in CODES:
            stores.setdefault(cval(e.args[0]), []).append(e)
    for k in CODES:
        es = stores.get(k, [])
        if not c.ob('every trace gets its codes', bool(es), f'{GEM} {k}', 'never stored'):
            continue
        e = es[-1]
        v = e.args[1]
        if k == 'station':
            for path, leaf in leaves(v):
                empt = empty_test(And(*path), 'station')
                if leaf.op == 'Param' and leaf.a[0] == 'station' or same_param(leaf, 'station'):
                    c.ob('the station code falls back to the serial number', empt is not True, f'{GEM} station', f'station kept although empty', e.site)
                else:
                    c.ob('the station code falls back to the serial number', contains(leaf, lambda x: same_param(x, 'SN')) and
                         not contains(leaf, lambda x: same_param(x, 'network') or same_param(x, 'location')), f'{GEM} fallback', f'{show(leaf)[:60]}', e.site)
                    c.ob('the station code falls back only when empty', empt is not False and bool(path), f'{GEM} fallback condition',
                         f'{[show(p)[:60] for p in path]}', e.site)
            c.ob('the station code falls back to the serial number', any(contains(x, lambda y: same_param(y, 'SN')) for _, x in leaves(v)),
                 f'{GEM} no fallback', f'{show(v)[:80]}', e.site)
            for sn, st, want in (('003', '', '003'), ('150', '', '150'), ('003', 'AB1', 'AB1'), ('010', '010', '010')):
                env = {x.id: {'SN': sn, 'station': st, 'network': 'N', 'location': 'L'}[x.a[0]] for x in walk(v) if x.op == 'Param' and x.a[0] in ('SN', 'station', 'network', 'location')}
                try:
                    got = ev(v, env)
                except Unknown:
                    continue
                c.ob('the station code is the one given, else the serial number', got == want, f'{GEM} station', f'{got!r} for serial number {sn} and station {st!r}', e.site)
            c.ob('the given station code is stored', any(same_param(x, 'station') for _, x in leaves(v)), f'{GEM} station', f'{show(v)[:80]}', e.site)
        else:
            c.ob('every trace gets its codes', same_param(v, k), f'{GEM} {k} value', f'stores {show(v)[:60]}', e.site)
        if e.loops:
            lid = e.loops[-1]
            lp = G.interp.loops[lid]
            c.ob('the codes are stored in every trace', e.pc == lp['pc'] and not lp.get('has_break'), f'{GEM} {k} condition',
                 f'stored only under {[show(p)[:50] for p in e.pc[len(lp["pc"]):]]}', e.site)
            part = [x for x in alts(lp['iter']) if x.op == 'Index' and isinstance(x.a[1], T) and x.a[1].op == 'Slice']
            c.ob('the codes are stored in every trace', not part, f'{GEM} {k} loop', f'loops over {show(lp["iter"])[:60]}', e.site)


def within(R, e, q):
    """e happens during a call of q."""
    depth = 0
    for x in R.events:
        if x.order >= e.order:
            break
        if x.name == q:
            depth += (x.kind == 'enter') - (x.kind == 'leave')
    return depth > 0


def same_param(t, k):
    t = peel_str(t)
    return isinstance(t, T) and t.op in ('Param', 'Sym', 'Var') and t.a[0] == k


def peel_str(t):
    while isinstance(t, T) and t.op == 'Call' and t.a[0] == 'builtins.str' and t.a[1]:
        t = t.a[1][0]
    return t


def param(R, q, k):
    return None


def empty_test(cond, k):
    """True/False when cond says that parameter k is empty / not empty, None when it does not tell."""
    for x in conj(cond):
        if x.op == 'Cmp' and contains(x, lambda y: same_param(y, k)):
            zero = any(is_const(y, 0, '') for y in x.a[1:])
            if zero and x.a[0] in ('==', '!='):
                return x.a[0] == '=='
            if x.a[0] == '<' and is_const(x.a[1], 0):
                return False
            if x.a[0] == 'is':
                return True
            if x.a[0] == 'isnot':
                return False
        if x.op == 'Bool' and same_param(x.a[0], k):
            return False
        if x.op == 'Not' and x.a[0].op == 'Bool' and same_param(x.a[0].a[0], k):
            return True
    return None


def no_codes(path):
    """Some literal of the path says that there is no codes table."""
    for p in path:
        if p.op == 'Or' and all(no_codes((y,)) for y in kids(p)):
            return True
        for x in conj(p):
            if x.op == 'Cmp' and x.a[0] == 'is' and any(is_const(y, None) for y in x.a[1:]):
                return True
            if x.op == 'Cmp' and x.a[0] in ('==', '<=') and any(is_const(y, 0) for y in x.a[1:]):
                return True
    return False


def judge_cell(c, t, k, sn, path, key, site):
    """t is the cell of column k of the codes table in the row whose SN is this serial number."""
    cols = []
    row = None
    for x in walk(t):
        if x.op in ('Index',) and isinstance(x.a[1], T):
            i = x.a[1]
            items = seq(i) if i.op == 'Tuple' else [i]
            for y in items or ():
                if isinstance(cval(y), str):
                    cols.append(cval(y))
                elif row is None and len(items or ()) == 2:
                    row = y
        if x.op == 'Fld' and x.a[1] in CODES + ('elevation',):
            cols.append(x.a[1])
        if x is not t and x.op == 'Upd':
            break
    top = columns_of(t)
    if not top:
        c.note(f'{key}: cell not recognised: {show(t)[:80]}')
        return False
    c.ob('each code comes from its own column', top == {k}, key, f'taken from column {sorted(top)}', site)
    sel = row_of(t)
    if sel is None:
        c.note(f'{key}: row not recognised')
        return True
    cmps = [x for x in walk(sel) if x.op == 'Cmp' and x.a[0] == '==']
    if not cmps:
        c.note(f'{key}: row not selected by comparison')
        return True
    good = any(contains(x, lambda y: (y.op == 'Fld' and y.a[1] == 'SN') or (y.op == 'Index' and is_const(y.a[1], 'SN'))) and
               (sn is None or contains(x, lambda y: y is sn)) for x in cmps)
    c.ob("each code comes from the serial number's own row", good, key, f'row selected by {show(cmps[0])[:100]}', site)
    return True


def columns_of(t):
    """Constant column names applied at the top of a cell expression."""
    out = set()
    while True:
        if t.op == 'Index' and isinstance(t.a[1], T):
            i = t.a[1]
            for y in (seq(i) or ()) if i.op == 'Tuple' else [i]:
                if isinstance(cval(y), str):
                    out.add(cval(y))
            t = t.a[0]
        elif t.op == 'Fld':
            if t.a[1] in CODES + ('elevation', 'SN'):
                out.add(t.a[1])
            t = t.a[0]
        elif t.op == 'MCall':
            t = t.a[0]
        elif t.op == 'Call' and t.a[0] in ('builtins.str',) and t.a[1]:
            t = t.a[1][0]
        else:
            return out


def row_of(t):
    while True:
        if t.op == 'Index' and isinstance(t.a[1], T):
            i = t.a[1]
            for y in (seq(i) or ()) if i.op == 'Tuple' else [i]:
                if not isinstance(cval(y), (str, int)) and y.op != 'Slice':
                    return y
            t = t.a[0]
        elif t.op in ('Fld', 'MCall'):
            t = t.a[0]
        else:
            return None
