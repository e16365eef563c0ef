"""C17: concatenation of raw files keeps every reading."""
import ast
import posixpath

import numpy as np

from . import rule
from ..evalterm import Unknown, ev
from ..lib import kids
from ..terms import contains, cval, is_const, show, walk

MOD = 'gemlog.gem_cat'
CAT = MOD + '.gem_cat'
SINGLE, VERSION, READSN = 'gemlog.core._read_single', 'gemlog.core._read_format_version', 'gemlog.core._read_SN'
DIFF = ('0.85C', '0.9', '0.91', '1.10')
PLAIN = ('0.8', '0.85')
LINES = ('#GemCSV0.91\n', 'S,058\n', '#Firmware\n', 'C,1,15,20,0,0,0\n', 'G,5,2020\n', 'D12,100\n', 'D22,3\n', 'G,30,2020\n', 'M,40,3.7\n', 'D32,-4\n', 'x\n', '\n', 'D42,1')

FIRST = next(i for i, l in enumerate(LINES) if l[0] == 'D')


def is_open(t):
    return t.op == 'Call' and t.a[0] in ('builtins.open', 'io.open', 'codecs.open') and t.a[1]


def mode(t):
    kw = dict(t.a[2]) if len(t.a) > 2 and t.a[2] else {}
    m = t.a[1][1] if len(t.a[1]) > 1 else kw.get('mode')
    return 'r' if m is None else cval(m) if is_const(m) else '?'


def appenders(c):
    """The functions of the module that append to a file, by name."""
    out = []
    for q, fn in c.ctx.functions():
        if q.startswith(MOD + '.') and q != CAT:
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'open' and any(isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value.startswith('a') for a in n.args[1:] + [k.value for k in n.keywords]):
                    out.append((q, [a.arg for a in fn.args.args]))
                    break
    return out


@rule('C17')
def c17(c):
    """(1) The appended text, evaluated on a file that has every kind of line, per format and with the previous file ending inside a line or
    not; (2) the transitions of the loop over the files (output open or not, GPS before and now, everything or not), explored exhaustively; (3) order and
    choice of the files."""
    if not c.ctx.has(CAT):
        c.undecided.append('no concatenation')
        return
    ap = appenders(c)
    if len(ap) != 1:
        c.undecided.append(f'{len(ap)} functions append to a file')
        return
    roles = judge_append(c, *ap[0])
    if roles:
        judge_loop(c, ap[0], roles)


# ---------------------------------------------------------------- one file appended

def judge_append(c, q, params):
    R = c.ctx.run(q, no_inline=(SINGLE, VERSION))
    outs = {e.args[0] for e in R.events if e.kind == 'call' and e.name == 'builtins.open' and e.val is not None and e.args and 'a' in mode_of(e)}
    outs = {x for x in outs if x.op == 'Param'}
    prevs = {a for e in R.events if e.kind == 'pcall' and e.name == SINGLE for a in (e.args or ())[:1] if a.op == 'Param'}
    if len(outs) != 1 or not prevs:
        c.note('the roles of the arguments of the appending function are not recognised')
        return None
    out, = outs
    ins = {e.args[0] for e in R.events if e.kind == 'pcall' and e.name == VERSION and e.args and e.args[0].op == 'Param'}
    read = {e.args[0] for e in R.events if e.kind == 'call' and e.name == 'builtins.open' and e.args and e.args[0].op == 'Param'} - outs
    body = set()
    for e in R.events:
        if is_write(e, out):
            for x in walk(e.args[0]):
                if is_open(x) and x.a[1][0].op == 'Param':
                    body.add(x.a[1][0])
                if x.op == 'Call' and x.a[0] == 'pandas.read_csv' and x.a[1] and x.a[1][0].op == 'Param':
                    body.add(x.a[1][0])
    if len(body) != 1:
        c.note('what is appended is not recognised')
        return None
    inp, = body
    if ins:
        c.ob('the format is that of the file added', inp in ins, q, 'the version of ' + ', '.join(show(x, 2) for x in ins), None)
    c.ob('the offset is the last pressure of the file before', len(prevs) == 1 and prevs != {inp} and prevs != {out}, q, ', '.join(show(x, 2) for x in prevs), None)
    prev = next((x for x in prevs if x is not inp and x is not out), None)
    if prev is None:
        return None
    for e in R.events:
        if e.kind == 'call' and e.name == 'builtins.open' and e.args and e.args[0] is out:
            c.ob('the output is appended to, never truncated', mode_of(e) in ('a', 'at', 'ab', 'a+'), f'{e.name} {e.order - 0 if False else mode_of(e)}', mode_of(e), e.site)
    for f in DIFF + PLAIN:
        for ended in (True, False):
            judge_text(c, R, f, ended, out, inp, prev)
    return {'in': inp.a[0], 'out': out.a[0], 'prev': prev.a[0]}


def mode_of(e):
    m = e.args[1] if len(e.args) > 1 else (e.kw or {}).get('mode')
    return 'r' if m is None else cval(m) if is_const(m) else '?'


def is_write(e, out):
    return e.kind == 'mcall' and e.name in ('write', 'writelines') and e.args and e.recv is not None and is_open(e.recv) and e.recv.a[1][0] is out


def text_env(R, terms, f, inp, prev, ended, binds=None):
    env = {}
    # the file added ends in a full line exactly when the file before does not
    lines, before = list(LINES), tuple(LINES[:-1] if ended else LINES)
    if not ended:
        lines[-1] += '\n'
    for t in terms:
        for x in walk(t):
            if x.id in env:
                continue
            if x.op == 'Rec' and x.a[0] == VERSION:
                env[x.id] = f
            elif x.op in ('Fld', 'Index') and x.a[0].op == 'Rec' and x.a[0].a[0] == SINGLE and (x.a[1] == 'data' or getattr(x.a[1], 'op', '') == 'Const' and cval(x.a[1]) == 'data'):
                env[x.id] = np.array([[1.0, 11.0], [2.0, 25.0], [3.0, 40.0]])
            elif is_open(x) and x.a[1][0] is inp:
                env[x.id] = tuple(lines)
            elif is_open(x) and x.a[1][0] is prev:
                env[x.id] = before
            elif x.op == 'MCall' and is_open(x.a[0]) and x.a[0].a[1][0] in (inp, prev) and x.a[1] in ('read', 'readlines'):
                own = before if x.a[0].a[1][0] is prev else tuple(lines)
                if 'b' in mode(x.a[0]):
                    own = tuple(s.encode() for s in own)
                env[x.id] = own if x.a[1] == 'readlines' else own[0][:0].join(own)
            elif x.op == 'Call' and x.a[0] in ('os.path.exists', 'os.path.isdir', 'os.path.isfile'):
                env[x.id] = True
            elif x.op == 'Exc':
                env[x.id] = False
    return env


def bind_readcsv(env, terms):
    for t in terms:
        for x in walk(t):
            if x.op == 'Call' and x.a[0] == 'pandas.read_csv':
                kw = dict(x.a[2]) if len(x.a) > 2 and x.a[2] else {}
                try:
                    skip = ev(kw['skiprows'], env) if 'skiprows' in kw else 0
                    sep = ev(kw.get('delimiter', kw.get('sep')), env) if 'delimiter' in kw or 'sep' in kw else ','
                    names = ev(kw['names'], env)
                    nrows = ev(kw['nrows'], env)
                except (Unknown, KeyError):
                    continue
                rows = [s.rstrip('\n') for s in LINES[skip:] if s.strip()][:nrows]
                for y in walk(t):
                    if y.op == 'Fld' and y.a[0] is x and y.a[1] in names:
                        i = names.index(y.a[1])
                        col = tuple((r.split(sep) + [None] * 9)[i] for r in rows)
                        env[y.id] = col
                        for z in walk(t):
                            if z.op == 'Fld' and z.a[0] is y and z.a[1] in ('iloc', 'values', 'loc', 'iat'):
                                env[z.id] = col


def heads(terms):
    """Position terms at which the first character of a line is tested: {term: characters it is compared with}."""
    out = {}
    for t in terms:
        for x in walk(t):
            s, b = None, None
            if x.op == 'Cmp' and x.a[0] in ('==', 'is'):
                s = next((cval(k) for k in x.a[1:] if is_const(k) and isinstance(cval(k), str)), None)
                b = next((k for k in x.a[1:] if not is_const(k)), None)
            elif x.op == 'MCall' and x.a[1] == 'startswith' and x.a[2] and is_const(x.a[2][0]):
                s, b = cval(x.a[2][0]), x.a[0]
            elif x.op == 'Cmp' and x.a[0] == 'in' and is_const(x.a[1 + 1]) and isinstance(cval(x.a[2]), (str, tuple)):
                b = x.a[1]
                for y in walk(b):
                    if y.op in ('Idx', 'Mu'):
                        out.setdefault(y, set()).add(tuple(cval(x.a[2])))
                continue
            if s and b is not None and len(s) == 1:
                for y in walk(b):
                    if y.op in ('Idx', 'Mu'):
                        out.setdefault(y, set()).add(s)
    return out


def judge_text(c, R, f, ended, out, inp, prev):
    key = f'{f}, the file before {"ends in a full line" if ended else "ends inside a line"}'
    text, site = '', None
    ws = [e for e in R.events if is_write(e, out)]
    for e in ws:
        terms = list(e.pc) + list(e.args)
        env = text_env(R, terms, f, inp, prev, ended)
        own = [l for l in e.loops]
        hd = heads([t for t in terms])
        for x, s in hd.items():
            if x.op == 'Idx' and own and x.a[0] == own[-1]:
                continue
            hit = [i for i, l in enumerate(LINES) if l[0] in s]
            if len(s) == 1 and isinstance(next(iter(s)), tuple):
                hit = [i for i, l in enumerate(LINES) if l[0] in next(iter(s))]
            if len(s) != 1 or not hit:
                c.note('where the header ends is not decided')
                return
            env[x.id] = hit[0]
        bind_readcsv(env, terms)

        def holds():
            for t in e.pc:
                if not ev(t, env):
                    return False
            return True
        try:
            if not own:
                if holds():
                    v = ev(e.args[0], env)
                    text += ''.join(v) if e.name == 'writelines' else v
                    site = e.site
                continue
            lo = R.interp.loops[own[-1]]
            if len(own) > 1 or lo['kind'] != 'for':
                c.note('the loop that copies the lines is not recognised')
                return
            it = lo['iter']
            env.update(text_env(R, [it], f, inp, prev, ended))
            for x, s in heads([it]).items():
                env.setdefault(x.id, next(i for i, l in enumerate(LINES) if l[0] in s))
            for x in walk(it):
                if x.op == 'Idx' and x in hd:
                    env[x.id] = next(i for i, l in enumerate(LINES) if l[0] in hd[x])
            if it.op == 'Enum':
                it = it.a[0]
            n = len(ev(it, env))
            if lo['has_break']:
                c.note('the loop that copies the lines can end early')
            ids = [x for t in terms for x in walk(t) if x.op == 'Idx' and x.a[0] == own[-1]]
            for k in range(n):
                for x in ids:
                    env[x.id] = k
                bind_readcsv(env, terms)
                if holds():
                    text += ev(e.args[0], env)
                    site = e.site
        except Unknown as u:
            c.note(f'what is appended is not decided: {str(u)[:200]}')
            return
    first = LINES[FIRST] if f in PLAIN else 'D12,60\n'
    want = first + ''.join(LINES[FIRST + 1:]) + ('' if ended else '\n')
    if not ended:
        want = '\n' + want
    ok = text == want or text.strip('\n') == want.strip('\n') and (ended or text.startswith('\n'))
    why = f'{text!r}, not {want!r}'
    if not ended and not text.startswith('\n'):
        c.ob('what is appended starts on a new line', False, key, why, site)
    else:
        c.ob('what is appended starts on a new line', True, key, '', site)
    if not ended and not text.startswith('\n'):
        ok = text == want[1:]
    c.ob('every line from the first reading on is appended once, offset to the pressure before', ok, key, why, site)


# ---------------------------------------------------------------- the loop over the files

def judge_loop(c, ap, roles):
    q, params = ap
    R = c.ctx.run(CAT, no_inline=(q, READSN))
    acts = [e for e in R.events if e.loops and (e.kind == 'pcall' and e.name == q or e.kind == 'call' and e.name in ('shutil.copy', 'shutil.copyfile', 'shutil.copy2'))]
    if not acts or len({e.loops for e in acts}) != 1:
        c.note('the loop over the raw files is not recognised')
        return
    lid = acts[0].loops[-1]
    L = R.interp.loops[lid]
    src = {k for e in acts for k in walk(e.args[0]) if k.op == 'Call' and k.a[0] in ('builtins.sorted', 'glob.glob')}
    allt = {k for e in R.events for t in list(e.args or ()) + list(e.pc) for k in walk(t)}
    lists = [k for k in allt if k.op == 'Call' and k.a[0] == 'builtins.sorted' and k.a[1] and contains(k.a[1][0], lambda y: y.op == 'Call' and y.a[0] == 'glob.glob')]
    globs = [k for k in allt if k.op == 'Call' and k.a[0] == 'glob.glob']
    used = [k for k in src if k.op == 'Call' and k.a[0] == 'glob.glob']
    inplace = [e for e in R.events if e.kind == 'mcall' and e.name == 'sort']
    if not globs:
        c.note('how the raw files are found is not recognised')
        return
    srt = lists[0] if lists else None
    if srt is None and not inplace:
        c.ob('the files are taken in order', False, CAT, show(acts[0].args[0], 4), acts[0].site)
    elif srt is not None:
        bare = [e for e in acts if any(k.op == 'Index' and k.a[0] in globs for k in walk(e.args[0]))]
        rev = dict(srt.a[2]) if len(srt.a) > 2 and srt.a[2] else {}
        c.ob('the files are taken in order', not bare and 'reverse' not in rev and 'key' not in rev, CAT, show(srt, 3), acts[0].site)
    for g in globs:
        try:
            env = {x.id: {'input_dir': 'IN', 'ext': 'X'}.get(x.a[0]) for x in walk(g) if x.op == 'Param'}
            pat = ev(g.a[1][0], env)
            import fnmatch
            names = {'IN/FILE0000.X': True, 'IN/FILE9999.X12': True, 'IN/FILE000.X': False, 'IN/OTHER000.X': False, 'OUT/FILE0000.X': False, 'IN/FILE0000.Y': False}
            for nme, w in names.items():
                c.ob('the raw files of the input folder and the extension are taken', fnmatch.fnmatchcase(nme, pat) == w, nme, pat, acts[0].site)
        except Unknown:
            c.note('which raw files are taken is not decided')
    judge_gps_test(c, [t for e in R.events for t in list(e.pc) if lid in e.loops], lid, acts[0].site)
    files = tuple(f'IN/F{i}' for i in range(6))
    ops = {'read': [e for e in R.events if lid in e.loops]}
    names = list(L['next'])
    order = sorted(acts, key=lambda e: e.order)
    sets = [e for e in R.events if e.kind == 'setitem' and lid in e.loops]
    raises = [e for e in R.events if e.kind == 'raise' and lid in e.loops and not any(t.op == 'Exc' for t in e.pc)]
    seen, bad = set(), False
    for catall in (False, True):
        # state: (implementation values, flags written, started, previous had GPS, outputs so far, name of the open output)
        init = {}
        try:
            for n in names:
                i = L['init'].get(n)
                init[n] = () if i is not None and i.op in ('Ref', 'List') else None if i is None or i.op == 'Undef' else ev(i, {})
        except Unknown:
            c.note('what the loop starts from is not decided')
            return
        todo = [(0, init, {}, False, False, 0, None)]
        while todo:
            k, st, flags, started, prevgps, n, cur = todo.pop()
            if k >= 4:
                continue
            for now, free in [(g, v) for g in (False, True) for v in (None, False, True)]:
                try:
                    r = step(R, L, lid, k, st, flags, now, catall, files, order, sets, names, srt, globs, q, params, roles, free)
                    if r is None:
                        continue
                    got, st2, flags2 = r
                except Unknown as u:
                    c.note(f'what happens to a file is not decided: {str(u)[:200]}')
                    return
                f = files[k]
                if catall:
                    want = [('append', f, cur, files[k - 1])] if started else [('copy', f, 'OUT/FILE9999.SN1')]
                    start2, n2 = True, n
                elif not started:
                    want = [('copy', f, f'OUT/FILE{n:04d}.SN1')] if now else []
                    start2, n2 = now, n + now
                elif now and prevgps:
                    want = [('copy', f, f'OUT/FILE{n:04d}.SN1')]
                    start2, n2 = True, n + 1
                else:
                    want = [('append', f, cur, files[k - 1])]
                    start2, n2 = True, n
                nxt = next((a[2] for a in want if a[0] == 'copy'), cur)
                key = ('everything, ' if catall else '') + ('file with GPS' if now else 'file without GPS') + ', ' + ('no output yet' if not started else 'after one with GPS' if prevgps else 'after one without') + ('' if k < 2 else f', file {k}' if not catall else '')
                key = ('everything, ' if catall else '') + ('file with GPS' if now else 'file without GPS') + ', ' + ('no output yet' if not started else 'after one with GPS' if prevgps else 'after one without')
                good = [(a[0],) + tuple(posixpath.normpath(x) if isinstance(x, str) else x for x in a[1:]) for a in got] == want
                c.ob('every file is copied or appended to the right output once', good, key, f'file {k}: {got}, not {want}', order[0].site)
                if not good:
                    continue
                todo.append((k + 1, st2, flags2, start2, now, n2, nxt))


def judge_gps_test(c, terms, lid, site):
    """The pattern by which lines with GPS data are found, on the kinds of line there are."""
    import re
    for x in {x for t in terms for x in walk(t) if x.op == 'MCall' and x.a[1] in ('contains', 'startswith', 'match', 'fullmatch')}:
        if not (x.a[2] and is_const(x.a[2][0]) and isinstance(cval(x.a[2][0]), str) and 'G' in cval(x.a[2][0]) and file_read(x.a[0], lid)):
            continue
        pat, kw = cval(x.a[2][0]), dict(x.a[3]) if len(x.a) > 3 and x.a[3] else {}
        if any(not is_const(v) for v in kw.values()):
            continue
        plain = x.a[1] == 'startswith' or 'regex' in kw and not cval(kw['regex'])
        low = 'case' in kw and not cval(kw['case'])
        for s, w in (('G,8185,50.5,2020,4,2,1,2,3,43.5,-116.5', True), ('G5,1,2020,4,2,1,2,3,43.5,-116.5', None), ('#GemCSV0.91', False), ('#G,msPPS,msLag,yr', False), ('#M,ms,batt(V),gpsFlag', False), ('S,058', False),
                     ('D170,3', False), ('g3', False), ('M,8183,3.1,20.5', False), ('R,2,0,1', False), ('C,1,15,20,0,0,0', False)):
            try:
                y, z = (s.lower(), pat.lower()) if low else (s, pat)
                hit = y.startswith(z) if x.a[1] == 'startswith' else z in y if plain else bool(getattr(re, {'contains': 'search'}.get(x.a[1], x.a[1]))(z, y))
            except re.error:
                break
            if w is not None:
                c.ob('a line with GPS data is told from the others', hit == w, s, f'{x.a[1]}({pat!r}) is {hit}', site)


def step(R, L, lid, k, st, flags, now, catall, files, acts, sets, names, srt, globs, q, params, roles, free):
    terms = [t for e in acts for t in list(e.pc) + list(e.args or ()) + list((e.kw or {}).values())] + [L['next'][n] for n in names if n in WATCH(L, acts, names)] + [t for e in sets for t in list(e.pc) + list(e.args or ())]
    env = {}
    for t in terms:
        for x in walk(t):
            if x.op == 'Idx' and x.a[0] == lid:
                env[x.id] = k
            elif x.op == 'Mu' and x.a[1] == lid:
                env[x.id] = st.get(x.a[0])
            elif srt is not None and x is srt or srt is None and x in globs:
                env[x.id] = files
            elif x.op == 'Rec' and x.a[0] == READSN:
                env[x.id] = 'SN1'
            elif x.op == 'Param':
                env[x.id] = {'output_dir': 'OUT', 'input_dir': 'IN', 'cat_all': catall, 'ext': ''}.get(x.a[0])
            elif x.op == 'MCall' and x.a[1] in ('contains', 'startswith', 'match') and x.a[2] and is_const(x.a[2][0]) and str(cval(x.a[2][0])).lstrip('^') in ('G', 'G,'):
                if file_read(x.a[0], lid):
                    env[x.id] = np.array([False, now, False])
            elif x.op == 'Call' and x.a[0] in ('os.path.isdir', 'os.path.exists'):
                env[x.id] = True
            elif x.op == 'Call' and x.a[0] in ('os.path.realpath', 'os.path.abspath'):
                env[x.id] = ev(x.a[1][0], {y.id: {'output_dir': 'OUT', 'input_dir': 'IN'}.get(y.a[0]) for y in walk(x) if y.op == 'Param'})
            elif x.op == 'Exc':
                env[x.id] = False
    for t in terms:
        for x in walk(t):
            if x.op == 'Index' and x.id not in env and contains(x.a[1], lambda y: y.op == 'Idx') and root(x.a[0]).op in ('Call', 'Ref') and root(x.a[0]) not in globs and root(x.a[0]) is not srt and is_flags(root(x.a[0])):
                i = ev(x.a[1], env)
                if isinstance(i, slice):
                    env[x.id] = np.array([flags.get(j, 0) for j in range(len(files))])[i]
                elif i < k:
                    env[x.id] = flags.get(i % len(files), 0)
    # a test of other contents of a file, where that for GPS data is recognised, can go either way
    gps = any(x.op == 'MCall' and x.id in env for t in terms for x in walk(t))
    other = set()
    for t in terms:
        for x in walk(t):
            if x.op in ('Cmp', 'Bool') and x.id not in env and file_read(x, lid) and not contains(x, lambda y: y is not x and y.op in ('Cmp', 'Bool', 'Phi')):
                try:
                    ev(x, env)
                except Unknown:
                    other.add(x)
    if gps and other:
        if free is None:
            return None
        for x in other:
            env[x.id] = free
    elif free is not None:
        return None
    got = []
    for e in acts:
        if all(ev(t, env) for t in e.pc):
            if e.name == q:
                kv = dict(zip(params, e.args))
                kv.update(e.kw or {})
                got.append(('append',) + tuple(ev(kv[roles[r]], env) for r in ('in', 'out', 'prev')))
            else:
                got.append(('copy', ev(e.args[0], env), ev(e.args[1], env)))
    fl = dict(flags)
    for e in sets:
        if is_flags(root(e.recv)) and all(ev(t, env) for t in e.pc):
            fl[ev(e.args[0], env)] = ev(e.args[1], env)
    st2 = dict(st)
    for n in WATCH(L, acts, names):
        st2[n] = ev(L['next'][n], env)
    return got, st2, fl


def WATCH(L, acts, names):
    """The carried variables that the actions or, through each other, the next values of those depend on."""
    need = {x.a[0] for e in acts for t in list(e.pc) + list(e.args or ()) for x in walk(t) if x.op == 'Mu' and x.a[1] == L['id']} & set(names)
    while True:
        more = {x.a[0] for n in need for x in walk(L['next'][n]) if x.op == 'Mu' and x.a[1] == L['id']} & set(names) - need
        if not more:
            return need
        need |= more


def root(t):
    while t.op == 'Upd':
        t = t.a[0]
    return t


def is_flags(t):
    return t.op == 'Call' and t.a[0] in ('numpy.zeros', 'numpy.full', 'numpy.zeros_like') or t.op in ('Ref', 'List', 'OpenList', 'Bin')


def file_read(t, lid):
    """Whether the text searched is that of the current file of the loop."""
    return contains(t, lambda y: y.op == 'Idx' and y.a[0] == lid) and contains(t, lambda y: y.op == 'Call' and y.a[0] in ('pandas.read_csv', 'builtins.open'))
