"""Rules about what the tools do to files."""
from . import rule
from ..effects import effects, leads, is_path
from ..terms import mk, Const, is_const, cval, show, walk, contains, T
from ..loader import AnalysisBroken


def all_roots(c):
    """Every public function, then every private one that no public one reaches."""
    fs = [q for q, n in c.ctx.functions()]
    entered = set()
    for q in fs:
        if not q.rpartition('.')[2].startswith('_'):
            R = c.ctx.run(q)
            entered |= R.interp.fn_entered
            yield q
    for q in fs:
        if q.rpartition('.')[2].startswith('_') and q not in entered:
            yield q


def first_dir(tail):
    """First directory component of the constant text that follows an origin ('/figures/x.png' -> 'figures')."""
    if not isinstance(tail, str) or not tail.startswith('/'):
        return None
    rest = tail[1:]
    if '/' in rest:
        return rest.split('/', 1)[0] or None
    return None


@rule('C01')
def c01(c):
    """For every function of the package, analysed as an entry point with its project callees inlined, collect each
    file-system effect (open modes, shutil/os calls, to_csv, savefig, obspy write, wavfile, logging file, C fopen)
    and trace the affected path to its origin (parameter, element of a directory listing, file-name part of another
    path, constant).  Rule: nothing may be written, truncated, appended to, renamed or deleted whose origin is a path
    that the same entry point reads its input from, except below a constant sub-directory that is never read.
    gem_cat additionally has to refuse equal input and output folders before its first write."""
    nread = nwrite = 0
    for q in all_roots(c):
        R = c.ctx.run(q)
        effs = effects(R)
        reads = {}
        for e in effs:
            if e.kind == 'read':
                nread += 1
                for o, tl in leads(e.path, R):
                    if o.op == 'Listing':
                        for o2, tl2 in leads(o.a[0], R):
                            if o2.op not in ('Const', 'Listing'):
                                reads.setdefault(o2, set()).add(first_dir(tl2) or tl2)
                    if o.op not in ('Const', 'Listing', 'Base'):
                        reads.setdefault(o, set()).add(first_dir(tl) or tl)
        for e in effs:
            if e.kind == 'read' or e.kind == 'mkdir':
                continue
            fn = e.ev.func if isinstance(e.ev.func, str) else getattr(e.ev.func, 'qual', str(e.ev.func))
            if e.kind == 'external':
                c.ob('no external commands on files', False, f'{q}: {cval(e.path)}', 'runs an external command', e.site)
                continue
            nwrite += 1
            for o, tl in sorted(leads(e.path, R), key=lambda x: (x[0].id, str(x[1]))):
                key = f'{q}: {e.ev.name} {e.kind} in {fn}'
                if o.op == 'Listing' or o.op == 'Base':
                    ok = e.kind != 'delete' and isinstance(tl, str) and len(tl.strip()) > 0 and \
                        not (o.op == 'Base' and tl == '/')
                    c.ob('written or deleted path is not an existing input file', ok, key,
                         f'{e.kind} of a path taken from the input listing: {show(e.path, 5)[:200]}', e.site)
                elif o in reads:
                    d = first_dir(tl)
                    ok = d is not None and d not in reads[o] and e.kind != 'delete' and not any(ch in d for ch in '*?[{%')
                    c.ob('written path does not lie in an input location', ok, key,
                         f'{e.kind} of {show(e.path, 5)[:200]}, which lies where {q} reads its input ({show(o, 3)[:80]})', e.site)
                else:
                    c.ob('written path has an origin that is never read', True)
    c.note(f'{nread} read effects, {nwrite} write/delete effects over all entry points')
    c.need('written path has an origin that is never read', 15, 'write effects of the tools')
    # the merge tool: same file names in and out, so equal folders must be refused first
    q = 'gemlog.gem_cat.gem_cat'
    R = c.ctx.run(q)
    ind, outd = mk('Param', R.fi.params()[0]), mk('Param', R.fi.params()[1])
    for e in effects(R):
        if e.kind not in ('write', 'delete'):
            continue
        if outd not in {o for o, _ in leads(e.path, R)}:
            continue
        ok = any(contains(g, lambda t: t is ind) and contains(g, lambda t: t is outd) for g in e.ev.pc)
        c.ob('merging refuses equal input and output folders', ok, f'{q}: {e.ev.name}',
             'a file is written under the output folder although it may be the input folder', e.site)
    c.need('merging refuses equal input and output folders', 3, 'writes of gem_cat')


EXISTS = ('os.path.exists', 'os.path.isfile', 'os.path.lexists')


def conj(t):
    if t.op == 'And':
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                yield from conj(y)
    else:
        yield t


def strip_path(t):
    while t.op == 'Call' and t.a[0] in ('builtins.str', 'pathlib.Path', 'os.fspath') and t.a[1]:
        t = t.a[1][0]
    return t


def exists_of(x):
    """p if the term x means "p exists", else None."""
    while x.op == 'Bool':
        x = x.a[0]
    if x.op == 'Call' and x.a[0] in EXISTS and x.a[1]:
        return strip_path(x.a[1][0])
    if x.op == 'MCall' and x.a[1] in ('exists', 'is_file'):
        return strip_path(x.a[0])
    return None


def is_false(lit):
    """x if the literal states that x is false."""
    if lit.op == 'Not':
        x = lit.a[0]
        if x.op == 'Cmp' and x.a[0] == '==' and x.a[2] is Const(True):
            x = x.a[1]
        return x
    if lit.op == 'Cmp' and lit.a[0] == '!=' and is_const(lit.a[2], True):
        return lit.a[1]
    if lit.op == 'Cmp' and lit.a[0] == '==' and is_const(lit.a[2], False):
        return lit.a[1]
    return None


def states_absent(pc, p):
    for g in pc:
        for lit in conj(g):
            x = is_false(lit)
            if x is not None and exists_of(x) is strip_path(p):
                return True
    return False


def absent(R, p, pc, depth=0):
    """The path term p is known not to exist when control gets here with path condition pc."""
    from ..terms import Not, subst
    if depth > 8:
        return False
    if states_absent(pc, p):
        return True
    if p.op == 'Phi':
        c = p.a[0]
        if c.op == 'Brk':
            lp = R.interp.loops[c.a[0]]
            br = lp['breaks'][c.a[1]]
            bpc = br[0] if isinstance(br, tuple) else br
            if not isinstance(bpc, (tuple, list)):
                bpc = [bpc]
            if not absent(R, p.a[1], list(bpc) + list(pc), depth + 1):
                return False
            it = lp.get('iter')
            if it is not None and it.op == 'Call' and it.a[0] == 'itertools.count':
                return True
            if it is not None and it.op == 'Range':
                hi = [cval(x) for x in walk(it) if x.op == 'Const' and isinstance(cval(x), int)]
                if hi and max(hi) >= 10000:
                    return True
            return absent(R, p.a[2], pc, depth + 1)
        return absent(R, p.a[1], list(pc) + [c], depth + 1) and absent(R, p.a[2], list(pc) + [Not(c)], depth + 1)
    # leaving the loop: the continuation condition, read with the values at the end of the last pass, is false
    for x in walk(p):
        if x.op == 'Mu':
            lp = R.interp.loops.get(x.a[1])
            if not lp or lp.get('cond') is None or lp.get('breaks'):
                continue
            lid = x.a[1]
            m = {mk('Mu', n, lid): v for n, v in lp['next'].items()}
            m0 = {mk('Mu', n, lid): v for n, v in lp['init'].items()}
            once = subst(lp['cond'], m0)
            if not is_const(once, True):
                continue
            for lit in conj(Not(subst(lp['cond'], m))):
                y = is_false(lit)
                if y is not None and exists_of(y) is strip_path(subst(p, m)):
                    return True
    return False


def first_values(R, p, depth=0):
    """The path with every loop-carried or merged part replaced by each of its initial values."""
    from ..terms import subst
    if depth > 6:
        return [p]
    for x in walk(p):
        if x.op == 'Phi' and x.a[0].op == 'Brk':
            return first_values(R, subst(p, {x: x.a[1]}), depth + 1)
    for x in walk(p):
        if x.op == 'Mu':
            lp = R.interp.loops.get(x.a[1])
            if lp and x.a[0] in lp['init'] and lp['init'][x.a[0]] is not x:
                return first_values(R, subst(p, {x: lp['init'][x.a[0]]}), depth + 1)
    return [p]


def texts(t):
    """The constant text and the parameters of a path, in order."""
    out = []
    for x in (t.a if t.op == 'StrCat' else (t,)):
        for y in (x if isinstance(x, tuple) else (x,)):
            out.append(cval(y) if isinstance(cval(y), str) else y)
    return out


@rule('C02')
def c02(c):
    """Analyse the conversion with default sidecar names.  Every table (to_csv) it writes is identified by its path
    term.  Rule: the first write to a path is dominated by the fact that this very path does not exist (or opens it
    exclusively) and writes the header; every later write to the path appends without header; GPS and metadata paths
    are different by their constant text, lie in gpspath / metadatapath, contain the serial number, and receive the GPS
    and the metadata table respectively; both tables are appended in every loop that reads further blocks; the
    conversion log of gemconvert is opened for appending."""
    q = 'gemlog.core.convert'
    R = c.ctx.run(q, gpsfile=Const(''), metadatafile=Const(''))
    ev = [e for e in effects(R) if e.kind == 'write' and e.ev.kind == 'mcall' and e.ev.name == 'to_csv']
    paths = []
    for e in ev:
        if e.path not in paths:
            paths.append(e.path)
    kinds = {}
    for p in paths:
        ws = sorted((e for e in ev if e.path is p), key=lambda e: e.ev.order)
        first = first_values(R, p)[0]
        tx = [x for x in texts(first) if isinstance(x, str)]
        flat = ''.join(tx)
        kind = 'gps' if 'gps' in flat else 'metadata' if 'metadata' in flat else None
        c.ob('sidecar path names its kind', kind is not None and kind not in kinds, show(first, 5)[:120],
             f'the name does not tell the GPS table from the metadata table: {show(first, 6)[:200]}', ws[0].site)
        kinds.setdefault(kind, p)
        want = mk('Param', kind + 'path') if kind else None
        c.ob('sidecar lies in its folder', want in {o for o, _ in leads(first, R)}, f'{kind}',
             f'path {show(first, 6)[:200]} does not start with {kind}path', ws[0].site)
        c.ob('sidecar name carries the serial number', contains(first, lambda t: t is mk('Param', 'SN')), f'{kind}',
             f'path {show(first, 6)[:200]}', ws[0].site)
        e = ws[0]
        ok = absent(R, p, e.ev.pc) or (isinstance(e.mode, str) and 'x' in e.mode)
        c.ob('first write goes to a name that does not exist', ok, f'{kind}',
             f'{show(first, 6)[:200]} may already exist', e.site)
        hd = (e.ev.kw or {}).get('header')
        c.ob('first write has the header', hd is None or is_const(hd, True) or hd.op in ('List', 'Ref'), f'{kind}', 'no header', e.site)
        for e in ws[1:]:
            c.ob('later writes append', e.mode == 'a', f'{kind}', f'mode {e.mode!r} replaces earlier blocks', e.site)
            hd = (e.ev.kw or {}).get('header')
            c.ob('later writes have no header', hd is not None and is_const(hd, False), f'{kind}', 'header repeated', e.site)
            for kw, dflt in (('index', True), ('sep', ','), ('columns', None), ('na_rep', ''), ('quoting', None)):
                a, b = ((x.ev.kw or {}).get(kw) for x in (ws[0], e))
                va, vb = (dflt if x is None else cval(x) if is_const(x) else x.id for x in (a, b))
                c.ob('later rows have the columns of the header', va == vb, f'{kind} {kw}', f'{kw} is {va!r} with the header and {vb!r} afterwards', e.site)
        for e in ws:
            gpsish = contains(e.ev.recv, lambda t: (t.op == 'Fld' and t.a[1] in ('gps', 'lat', 'lon')) or is_const(t, 'lat', 'lon'))
            c.ob('sidecar receives its own table', gpsish == (kind == 'gps'), f'{kind}: {"later" if e is not ws[0] else "first"}',
                 f'{show(e.ev.recv, 4)[:160]} is written to the {kind} file', e.site)
        # further blocks
        later = [e for e in ws[1:] if e.ev.loops]
        c.ob('tables of further blocks are appended', len(later) >= 1, f'{kind}', 'no append in the reading loop', ws[0].site)
        for e in ws:
            # written whenever a block was read: only conditions on the data or the table itself
            pass
    c.ob('both tables are written', set(kinds) >= {'gps', 'metadata'}, ','.join(sorted(str(k) for k in kinds)))
    for e in effects(c.ctx.run('gemlog.gemconvert.main')):
        if e.ev.kind == 'call' and e.ev.name == 'logging.basicConfig':
            c.ob('the log is appended', isinstance(e.mode, str) and e.mode.startswith('a'), 'gemconvert log', f'mode {e.mode!r}', e.site)
    c.need('the log is appended', 1, 'log set-up of gemconvert')
    c.need('first write goes to a name that does not exist', 2, 'sidecar files')
