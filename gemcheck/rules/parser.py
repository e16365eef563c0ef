"""The compiled parser: memory safety of its C calls and the decoding of each kind of line."""
import ast
import re

from . import rule
from ..terms import mk, Const, is_const, cval, show, walk, contains, subst, And, poly, same_value, T
from ..lib import alts

P = 'gemlog.parsers.parse_gemfile'
FGETS, SSCANF = 'libc.stdio.fgets', 'libc.stdio.sscanf'
# conversion of each field of a line: may it have decimals?
FIELDS = {68: ('ms', 'adc'),
          71: ('msPPS', 'msLag', 'year', 'month', 'day', 'hour', 'minute', 'second', 'lat', 'lon'),
          77: ('ms', 'batt', 'temp', 'A2', 'A3', 'maxLag', 'minFree', 'maxUsed', 'maxOver', 'gpsFlag', 'freeStack1', 'freeStackIdle')}
DECIMAL = {68: 1, 71: (0, 1, 7, 8, 9), 77: (0, 1, 2, 3, 4)}
DECIMAL[68] = (0,)
OFFSET = {68: 1, 71: 2, 77: 2}
CONV = {'lf': 'double', 'f': 'float', 'd': 'int', 'i': 'int', 'ld': 'long', 'hd': 'short', 'u': 'unsigned int'}
LINE = {68: 'D', 71: 'G', 77: 'M'}


def root(t, R, seen=None):
    """The array a view, a slice or an updated array started from."""
    seen = set() if seen is None else seen
    if t is None or t.id in seen:
        return None
    seen.add(t.id)
    if t.op in ('Upd', 'Index'):
        return root(t.a[0], R, seen)
    if t.op == 'Mu':
        lp = R.interp.loops.get(t.a[1])
        return root(lp['init'].get(t.a[0]), R, seen) if lp else None
    if t.op == 'Phi':
        rs = {root(x, R, set(seen)) for x in alts(t)} - {None}
        return rs.pop() if len(rs) == 1 else None
    return t


def offset(t, buf):
    if t is buf:
        return 0
    if t.op == 'Bin' and t.a[0] == '+':
        ks = [x for x in t.a[1:] if is_const(x)]
        rest = [x for x in t.a[1:] if not is_const(x)]
        if len(ks) == 1 and len(rest) == 1:
            o = offset(rest[0], buf)
            return None if o is None else o + cval(ks[0])
    if t.op == 'Addr' and isinstance(t.a[0], T) and t.a[0].op == 'Index' and is_const(t.a[0].a[1]):
        o = offset(t.a[0].a[0], buf)
        return None if o is None else o + cval(t.a[0].a[1])
    return None


@rule('C08')
def c08(c):
    """The compiled parser, from its Cython syntax tree.  Memory: fgets gets at most the size of its buffer and its result is
    tested before the buffer is used; every sscanf has one argument of the matching C type per conversion; no directive
    switches off bounds checks or Python's modulo.  Decoding, by substituting each kind of first character, number of fields
    matched, and representative second character and previous counter into the path conditions and stored terms: which columns
    receive which field, the line type, the counter, and whether the row is kept.  The reading loop only ends at end of file, and
    an overflow of the result arrays is retried with larger ones."""
    m = c.ctx.project.modules.get('gemlog.parsers')
    if m is None or not c.ctx.has(P):
        c.note('no compiled parser: nothing to judge')
        return
    for d, bad, why in (('boundscheck', 'False', 'a file with more lines than rows would be written past the arrays'),
                        ('cdivision', 'True', 'a counter that steps back across zero would become negative')):
        hit = re.search(r'^\s*#\s*cython:.*\b%s\s*=\s*%s|^[^#\n]*\b%s\s*\(\s*%s|^\s*@.*\b%s\s*=\s*%s' % ((d, bad) * 3), m.src, re.M)
        c.ob('bounds checks and modulo keep their Python meaning', not hit, d, why, m.rel)
    R = c.ctx.run(P)
    gets = [e for e in R.events if e.kind == 'call' and e.name == FGETS]
    scans = [e for e in R.events if e.kind == 'call' and e.name == SSCANF]
    if len(gets) != 1 or not scans:
        c.note(f'{len(gets)} fgets and {len(scans)} sscanf calls: the decoding is not judged')
        return
    g = gets[0]
    memory(c, R, m, g, scans)
    decode(c, R, g, scans)
    retry(c)


def memory(c, R, m, g, scans):
    bufname = g.args[0].a[0] if g.args[0].op in ('Mu', 'Buf') else (cval(g.args[0]) or show(g.args[0]))
    size = g.args[1]
    decl = next((t for (f, n), t in m.ctypes.items() if n == bufname and '[' in t), None)
    k = re.search(r'\[(\d+)\]', decl or '')
    k = int(k.group(1)) if k else None
    if size.op == 'Sizeof':
        nm = size.a[0]
        nm = cval(nm) if isinstance(nm, T) else nm
        same = str(nm).strip("'") == bufname
        c.ob('a line is read into a buffer of at least that size', same and k is not None, 'sizeof',
             f'{show(size)} is not the size of the buffer {bufname} ({decl})', g.site)
    elif k is not None and (size := subst(size, {mk('Sizeof', x): Const(k) for x in (Const(bufname), bufname)})).op == 'Const':
        c.ob('a line is read into a buffer of at least that size', k is not None and cval(size) <= k, 'constant',
             f'up to {cval(size)} bytes into {decl}', g.site)
    elif k is not None:
        c.note(f'{g.site}: size of the line buffer not recognised')
    c.ob('the line buffer holds a whole line', k is None or k >= 128, 'length', f'{k} bytes', g.site)
    for e in R.events:
        if e.order > g.order and e.kind in ('setitem', 'call') and e.name != FGETS and e.loops and e.loops[-1] == g.loops[-1]:
            pc = subst(And(*e.pc), {g.val: Const(None)})
            c.ob('nothing is decoded after the end of the file', is_const(pc, False), e.kind,
                 'runs although fgets returned NULL', e.site)
    opens = [e for e in R.events if e.kind == 'call' and e.name == 'libc.stdio.fopen']
    for o in opens:
        pc = subst(And(*g.pc), {o.val: Const(None)})
        c.ob('a file that cannot be opened is not read', is_const(pc, False), 'fopen', 'fgets on a NULL file', g.site)
    for e in scans:
        fmt = cval(e.args[1])
        convs = re.findall(r'%(\w+)', fmt) if isinstance(fmt, str) else None
        if convs is None:
            c.note(f'{e.site}: format not constant')
            continue
        outs = e.args[2:]
        c.ob('one argument per conversion', len(outs) == len(convs), fmt, f'{len(outs)} arguments', e.site)
        names = []
        for i, (o, v) in enumerate(zip(outs, convs)):
            ok = o.op == 'Addr'
            nm = o.a[0] if ok else None
            nm = cval(nm) if isinstance(nm, T) and nm.op == 'Const' else nm
            names.append(nm)
            ct = next((t for (f, n), t in m.ctypes.items() if n == nm), None)
            want = CONV.get(v)
            if want is None or (ok and ct is None):
                c.note(f'{e.site}: conversion {v} / type {ct} not recognised')
                continue
            c.ob('each conversion writes through a pointer of its type', ok and ct == want, f'{fmt} {i}',
                 f'%{v} into {ct} {nm}', e.site)
        c.ob('no two fields share a variable', len(set(map(str, names))) == len(names), fmt, str(names), e.site)


def decode(c, R, g, scans):
    lid = g.loops[-1]
    lp = R.interp.loops[lid]
    bufs = {t for e in R.events if e.loops and e.loops[-1] == lid for x in list(e.args or ()) + list(e.pc) if isinstance(x, T)
            for t in walk(x) if t.op == 'Buf'}
    if len(bufs) != 1:
        c.note('more than one line buffer: the decoding is not judged')
        return
    buf = bufs.pop()
    ch = [mk('Index', buf, Const(i)) for i in (0, 1)]
    ret = [v for _, v, _ in R.returns]
    if len(ret) != 1 or ret[0].op != 'Tuple' or len(kids_of(ret[0])) != 3:
        c.note('the parser does not return one triple: the decoding is not judged')
        return
    vals, types, ms = (root(x, R) for x in kids_of(ret[0]))
    stores = [e for e in R.events if e.kind == 'setitem' and e.loops and e.loops[-1] == lid]
    row = {}
    for e in stores:
        k = e.args[0]
        k = kids_of(k)[0] if k.op == 'Tuple' else k
        if k.op == 'Mu' and k.a[1] == lid:
            row[k.a[0]] = row.get(k.a[0], 0) + 1
    if len(row) != 1:
        c.note(f'row counters {sorted(row)}: the decoding is not judged')
        return
    rown = next(iter(row))
    rowmu = mk('Mu', rown, lid)
    for x in kids_of(ret[0]):
        ix = x.a[1] if x.op == 'Index' else None
        if ix is None:
            c.note('result not cut at the number of rows')
            continue
        first = kids_of(ix)[0] if ix.op == 'Tuple' else ix
        if first.op == 'Slice':
            lo, hi, st = first.a
            ok = (lo is None or is_const(lo, None, 0)) and (st is None or is_const(st, None, 1)) and isinstance(hi, T) and hi.op == 'Mu' and hi.a[0] == rown
            c.ob('the result is exactly the rows that were filled', ok, show(x, 3)[:60], show(first), g.site)
    # every Out term becomes a symbol that is not affected by the number of fields matched
    outs = {}
    exprs = [x for e in stores for x in list(e.args) + list(e.pc)] + [v for v in lp['next'].values() if isinstance(v, T)]
    for x in exprs:
        for t in walk(x):
            if t.op == 'Out':
                outs[t.id] = t
    byname = {e.val.id: e for e in scans}
    sym = {t: mk('Field', [k for k, e in enumerate(scans) if e.val is t.a[0]][0], t.a[1] - 2) for t in outs.values() if t.a[0].id in byname}
    if len(sym) != len(outs):
        c.note('values from other C calls: the decoding is not judged')
        return

    def world(c0, c1=None, scan=None, prev=None, prevmus=()):
        w = dict(sym)
        w.update((o.val, Const('file')) for o in R.events if o.kind == 'call' and o.name == 'libc.stdio.fopen')
        w[g.val] = Const('line')
        w[ch[0]] = Const(c0)
        if c1 is not None:
            w[ch[1]] = Const(c1)
        if scan is not None:
            w[scan[0].val] = Const(scan[1])
        for m in prevmus:
            w[m] = Const(prev)
        return w

    # which sscanf belongs to which kind of line
    of = {}
    for e in scans:
        for k in (68, 71, 77):
            if not is_const(subst(And(*e.pc), world(k)), False):
                of.setdefault(k, []).append(e)

    def outcome(w):
        """(row kept: True/False/None, {column: value}, type, counter) under the substitution w."""
        nxt = subst(lp['next'].get(rown, rowmu), w)
        kept = False if nxt is rowmu else True if same_value(nxt, mk('Bin', '+', rowmu, Const(1))) else None
        cols, ty, cnt, unsure = {}, None, None, False
        for e in stores:
            pc = subst(And(*e.pc), w)
            if is_const(pc, False):
                continue
            if not is_const(pc, True):
                unsure = True
            k, v = subst(e.args[0], w), subst(e.args[1], w)
            r = root(e.recv, R)
            if r is vals:
                if k.op == 'Tuple' and kids_of(k)[0] is rowmu and is_const(kids_of(k)[1]):
                    cols[cval(kids_of(k)[1])] = v
                else:
                    unsure = True
            elif k is rowmu and r is types:
                ty = v
            elif k is rowmu and r is ms:
                cnt = v
            else:
                unsure = True
        return kept, cols, ty, cnt, unsure

    def typed(t, k):
        return is_const(t, k, chr(k), bytes([k]))

    n = 0
    # D, G and M lines
    for k in (68, 71, 77):
        es = of.get(k, [])
        if len(es) != 1:
            c.note(f'{len(es)} sscanf calls for {LINE[k]} lines: not judged')
            continue
        e = es[0]
        si = scans.index(e)
        o = offset(e.args[0], buf)
        if o is not None:
            c.ob('fields start behind the line type', o == OFFSET[k], LINE[k], f'at offset {o}', e.site)
        fmt = cval(e.args[1])
        convs = re.findall(r'%(\w+)', fmt)
        nf = len(FIELDS[k])
        c.ob('a line has the documented fields, separated by commas',
             len(convs) == nf and re.fullmatch(r'%\w+(,%\w+)*', fmt) is not None, LINE[k], fmt, e.site)
        if len(convs) != nf:
            continue
        for i in DECIMAL[k]:
            c.ob('fields with decimals are read as such', convs[i] in ('lf', 'f'), f'{LINE[k]} {FIELDS[k][i]}', f'%{convs[i]}', e.site)
        for got in range(-1, nf):
            if k == 68 and got == 1:
                continue
            kept, *_ = outcome(world(k, scan=(e, got)))
            if kept is None:
                c.note(f'{LINE[k]} line with {got} fields: row counter not recognised')
                continue
            c.ob('an incomplete line is skipped', kept is False, f'{LINE[k]} with {got} of {nf} fields',
                 'is kept, with values of an earlier line', e.site)
        kept, cols, ty, cnt, unsure = outcome(world(k, scan=(e, nf)))
        if unsure or kept is None:
            c.note(f'{LINE[k]} lines: stores under conditions that are not decided')
            continue
        c.ob('a complete line is kept', kept, LINE[k], 'is dropped', e.site)
        for i in range(1, nf):
            want = mk('Field', si, i)
            c.ob('each field goes to its own column', cols.get(i - 1) is want, f'{LINE[k]} {FIELDS[k][i]}',
                 f'column {i - 1} holds {show(cols[i - 1]) if i - 1 in cols else "nothing"}', e.site)
        c.ob('each field goes to its own column', cnt is mk('Field', si, 0), f'{LINE[k]} {FIELDS[k][0]}',
             f'the counter is {show(cnt) if cnt is not None else "nothing"}', e.site)
        c.ob('the line type is recorded', ty is not None and typed(ty, k), LINE[k], show(ty) if ty is not None else 'not stored', e.site)
    # the previous counter: the loop variable that compact lines add to
    prevs = set()
    for c1 in (10, 109):
        _, _, _, cnt, _ = outcome(world(109, c1))
        prevs |= {t for t in walk(cnt)} if cnt is not None else set()
    prevs = {t for t in prevs if t.op == 'Mu' and t.a[1] == lid}
    if len(prevs) != 1:
        c.note(f'{len(prevs)} loop variables in the counter of compact lines: not judged')
        return
    prev = prevs.pop()
    pn = prev.a[0]
    # compact lines
    for c0 in (97, 98, 99, 108, 109, 110, 121, 122):
        for c1 in (10, 13, 44, 57, 90, 96, 97, 98, 109, 121, 122, 123):
            for p in (0, 1, 5, 4000, 8181, 8182, 8191):
                w = world(c0, c1, prev=p, prevmus=(prev,))
                kept, cols, ty, cnt, unsure = outcome(w)
                two = 97 <= c1 <= 122
                adc = (c1 if two else c0) - 109
                clock = (p + 10 + (c0 - 109 if two else 0)) % 8192
                what = f'{chr(c0)}{chr(c1) if two else ""} after {p}'
                key = 'two letters' if two else 'one letter'
                if unsure or kept is None or cnt is None or not is_const(cnt) or not is_const(cols.get(0, rowmu)):
                    if cnt is not None and contains(cnt, lambda t: t.op == 'Field') or contains(cols.get(0, rowmu), lambda t: t.op == 'Field'):
                        c.ob('a compact line depends on nothing else', False, key, f'{what}: {show(cnt)}', g.site)
                    elif kept is False:
                        c.ob('a compact line is kept', False, key, f'{what}: dropped', g.site)
                    else:
                        c.note(f'compact line {key}: not decided {show(cnt) if cnt is not None else None} {cols} {unsure} {kept}')
                    continue
                c.ob('a compact line is kept', kept, key, what, g.site)
                c.ob('a compact line gives the difference in counts', cval(cols[0]) == adc, key, f'{what}: {cval(cols[0])} instead of {adc}', g.site)
                c.ob('a compact line advances the counter', cval(cnt) == clock, key, f'{what}: {cval(cnt)} instead of {clock}', g.site)
                c.ob('the line type is recorded', ty is not None and typed(ty, 68), f'compact {key}', show(ty) if ty is not None else 'not stored', g.site)
                nx = subst(lp['next'].get(pn, prev), w)
                if is_const(nx):
                    c.ob('the counter of a sample is the base of the next one', cval(nx) == cval(cnt), f'compact {key}', f'{what}: {show(nx)}', g.site)
    # D lines as a base, and D lines without counter
    if len(of.get(68, [])) == 1:
        e = of[68][0]
        si = scans.index(e)
        w = world(68, scan=(e, 2))
        _, _, _, cnt, _ = outcome(w)
        nx = subst(lp['next'].get(pn, prev), w)
        c.ob('the counter of a sample is the base of the next one', cnt is not None and same_value(nx, cnt), 'D', show(nx), e.site)
        for p in (0, 5, 4000, 8182, 8191):
            w = world(68, scan=(e, 1), prev=p, prevmus=(prev,))
            kept, cols, ty, cnt, unsure = outcome(w)
            if kept and not unsure and cnt is not None and is_const(cnt):
                c.ob('a D line with one field holds the difference in counts', cols.get(0) is mk('Field', si, 0), 'value',
                     show(cols[0]) if 0 in cols else 'nothing', e.site)
                c.ob('a D line with one field advances the counter', cval(cnt) == (p + 10) % 8192, 'counter', f'after {p}: {cval(cnt)}', e.site)
                nx = subst(lp['next'].get(pn, prev), w)
                c.ob('the counter of a sample is the base of the next one', is_const(nx, cval(cnt)), 'D with one field', show(nx), e.site)
            elif cnt is not None and contains(cnt, lambda t: t.op == 'Field'):
                c.ob('a D line with one field advances the counter', False, 'counter', f'after {p}: {show(cnt)}', e.site)
            elif kept is False:
                c.ob('a D line with one field holds the difference in counts', False, 'value', 'is dropped', e.site)
            else:
                c.note('D line with one field: not decided')
    for k in (71, 77):
        for e in of.get(k, [])[:1]:
            nx = subst(lp['next'].get(pn, prev), world(k, scan=(e, len(FIELDS[k]))))
            c.ob('GPS and metadata lines leave the sample counter alone', nx is prev, LINE[k], show(nx), e.site)
    # anything else
    for k in range(-128, 128):
        if k in FIELDS or 97 <= k <= 122:
            continue
        kept, *_ = outcome(world(k, 10))
        c.ob('other lines are skipped', kept is False, 'other', f'first character {k}', g.site)
        nx = subst(lp['next'].get(pn, prev), world(k, 10))
        c.ob('other lines leave the sample counter alone', nx is prev, 'other', f'first character {k}', g.site)
    # the end
    w = {g.val: Const('line')}
    stop = [b for b, _ in lp['breaks']] if lp.get('breaks') else []
    for b in stop:
        c.ob('reading goes on to the end of the file', is_const(subst(b, w), False), 'break', show(subst(b, w))[:160], g.site)
    if isinstance(lp.get('cond'), T):
        c.ob('reading goes on to the end of the file', is_const(subst(lp['cond'], w), True), 'loop condition', show(lp['cond'])[:160], g.site)


def kids_of(t):
    return [x for a in t.a for x in (a if isinstance(a, tuple) else (a,))]


def retry(c):
    q = 'gemlog.core._read_with_cython'
    if not c.ctx.has(q):
        return
    R = c.ctx.run(q, no_inline=(P,))
    calls = [e for e in R.events if e.kind == 'pcall' and e.name == P]
    fn = next((s for x, s in c.ctx.functions() if x == P), None)
    dflt = None
    if fn is not None and fn.args.defaults:
        try:
            dflt = ast.literal_eval(fn.args.defaults[-1])
        except ValueError:
            pass
    sizes = [e.kw.get('n_row') if 'n_row' in e.kw else (e.args[1] if len(e.args) > 1 else None) for e in calls]
    if not calls:
        c.note('no call of the compiled parser found')
        return
    again = [s for s in sizes if s is not None and (not is_const(s) or dflt is None or cval(s) >= 10 * dflt)]
    c.ob('a long (concatenated) file is read again with larger arrays', bool(again), 'retry',
         f'the parser is only called with room for {[cval(s) if s is not None else dflt for s in sizes]} lines', calls[0].site)
