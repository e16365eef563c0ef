"""Command-line programs: documented options are accepted, parsed and take effect."""
import re

from . import rule
from ..terms import mk, Const, is_const, cval, show, walk, contains, T, And, Or, Not, subst, TRUE
from ..lib import leaves, alts, strs, kids, under, seq
from ..loader import AnalysisBroken
from ..evalterm import ev, Unknown

CONV, SINGLE, CATM, HUDDLE = ('gemlog.gemconvert.main', 'gemlog.gemconvert_single.main', 'gemlog.gem_cat.main', 'gemlog.huddle_test.main')

# program -> {short option: (long options, sink, kind of value)}; a sink is (called function, parameter) or a named test
GETOPT = {
    CONV: {'i': (('gemlog.core.convert', 'rawpath'), 'text'), 's': (('gemlog.core.convert', 'SN'), 'list'),
           'x': ('exclusion', 'list'), 'o': (('gemlog.core.convert', 'convertedpath'), 'text'),
           'f': (('gemlog.core.convert', 'output_format'), 'text'), 'l': (('gemlog.core.convert', 'file_length_hour'), 'number'),
           't': ('no conversion', 'flag'), 'p': ('workers', 'number'), 'c': ('codes', 'text'), 'h': ('help', 'flag')},
    SINGLE: {'i': (('gemlog.core._convert_one_file', 0), 'text'), 'o': (('gemlog.core._convert_one_file', 'output_filename'), 'text'),
             'f': (('gemlog.core._convert_one_file', 'require_gps'), 'flag'), 'h': ('help', 'flag')},
    CATM: {'i': (('gemlog.gem_cat.gem_cat', 0), 'text'), 'o': (('gemlog.gem_cat.gem_cat', 1), 'text'),
           'e': (('gemlog.gem_cat.gem_cat', 2), 'text'), 'h': ('help', 'flag')},
    HUDDLE: {'i': (('gemlog.huddle_test.verify_huddle_test', 'path'), 'text'),
             's': (('gemlog.huddle_test.verify_huddle_test', 'SN_list'), 'list'),
             'x': (('gemlog.huddle_test.verify_huddle_test', 'SN_to_exclude'), 'list'), 'h': ('help', 'flag')},
}
DEFAULTS = {CONV: {'i': 'raw', 'f': 'mseed', 'l': 24, 'p': 1}}
ARGPARSE = {
    'gemlog.xcorr.xcorr_all_terminal': {
        'files': ('gemlog.xcorr.xcorr_all', 'files'), 't1': ('gemlog.xcorr.xcorr_all', 't1'), 't2': ('gemlog.xcorr.xcorr_all', 't2'),
        'include_IDs': ('gemlog.xcorr.xcorr_all', 'IDs'), 'exclude_IDs': ('gemlog.xcorr.xcorr_all', 'exclude_IDs'),
        'freq_low': ('gemlog.xcorr.xcorr_all', 'fl'), 'freq_high': ('gemlog.xcorr.xcorr_all', 'fh'),
        'win_length_sec': ('gemlog.xcorr.xcorr_all', 'win_length_sec'), 'overlap': ('gemlog.xcorr.xcorr_all', 'overlap'),
        'upsample_ratio': ('gemlog.xcorr.xcorr_all', 'upsample_ratio'), 'quiet': ('gemlog.xcorr.xcorr_all', 'quiet'),
        'output_file': 'to_csv'},
    'gemlog.xcorr.calculate_direction_terminal': {'input_file': 'pandas.read_csv', 'location_file': 'obspy.read_inventory', 'output_file': 'to_csv'},
    'gemlog.gem_network.summarize_gps_terminal': {
        'gps_folder': ('gemlog.gem_network.summarize_gps', 'gps_dir_pattern'), 'output_file': ('gemlog.gem_network.summarize_gps', 'output_file'),
        'station_info_file': ('gemlog.gem_network.summarize_gps', 'station_info'),
        'include_SNs': ('gemlog.gem_network.summarize_gps', 'include_SN'), 'exclude_SNs': ('gemlog.gem_network.summarize_gps', 'exclude_SN'),
        't1': ('gemlog.gem_network.summarize_gps', 't1'), 't2': ('gemlog.gem_network.summarize_gps', 't2')},
}
LISTS = ('include_IDs', 'exclude_IDs', 'include_SNs', 'exclude_SNs')


def as_if(t, choice, opt):
    """t when the option being looked at is `choice`."""
    m = {}
    for x in walk(t):
        if x.op == 'Cmp' and len(x.a) == 3 and opt in x.a[1:]:
            other = x.a[2] if x.a[1] is opt else x.a[1]
            if x.a[0] in ('==', '!=') and isinstance(cval(other), str):
                m[x] = Const((cval(other) == choice) == (x.a[0] == '=='))
            elif x.a[0] in ('in', 'notin') and strs(other) is not None:
                m[x] = Const((choice in strs(other)) == (x.a[0] == 'in'))
    return subst(t, m) if m else t


def params(c, q):
    for n, f in c.ctx.functions():
        if n == q:
            return [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
    return []


def values(t, R=None):
    """The sub-terms that t's value is made of, conditions left out; for a list that was filled by appending, what was appended."""
    added = {}
    for e in R.events if R is not None else ():
        if e.kind in ('append', 'extend') and e.recv is not None:
            added.setdefault(e.recv.id, []).extend(e.args)
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == 'Phi':
            st += x.a[1:]
        elif x.op == 'Comp':
            st.append(x.a[1])
            st += [it for _, it in x.a[2]]
        else:
            st += kids(x)
            if x.op == 'Ref':
                st += added.get(x.id, ())


@rule('C15')
def c15(c):
    """For the four getopt programs: parse the documented options out of the usage text the program prints; each must be
    accepted by the getopt specification in its short and long form, taking a value when documented so; evaluating the
    option loop under opt = short and opt = long must give the same new values (and those of the documented kind: the value,
    the value split at commas, a number, a flag); the variable it sets must reach the documented parameter; defaults must be
    the documented ones.  For the three argparse programs: each declared option's value reaches the parameter of its
    meaning, lists are split at commas, numeric options have a numeric type, and the default is the one in the help text."""
    for prog, spec in GETOPT.items():
        if c.ctx.has(prog):
            getopt_program(c, prog, spec)
    for prog, spec in ARGPARSE.items():
        if c.ctx.has(prog):
            argparse_program(c, prog, spec)
    c.need('a documented option is accepted', 20, 'documented options')
    c.need('an option reaches its purpose', 20, 'options')


def documented(c, prog):
    """{short: long or None} from the usage text."""
    mod = prog.rsplit('.', 1)[0]
    out = {}
    q = mod + '.print_call'
    if not c.ctx.has(q):
        return out
    for e in c.ctx.run(q).events:
        if e.kind == 'call' and e.name == 'builtins.print' and e.args:
            a = e.args[0]
            t = cval(a) if a.op == 'Const' else ''.join(cval(x) for x in a.a if isinstance(x, T) and isinstance(cval(x), str)) if a.op == 'StrCat' else ''
            t = t or ''
            m = re.match(r'^\s*-(\w)\s+--([\w-]+)', t)
            if m:
                out[m.group(1)] = m.group(2)
            else:
                for s in re.findall(r'(?:^|\s)-(\w) <', t):
                    out.setdefault(s, None)
    return out


def getopt_program(c, prog, spec):
    R = c.ctx.run(prog)
    name = prog.split('.')[1]
    doc = documented(c, prog)
    if not doc:
        c.note(f'{prog}: no usage text found')
    calls = [e for e in R.events if e.kind == 'call' and e.name in ('getopt.getopt', 'getopt.gnu_getopt')]
    if not calls:
        c.note(f'{prog}: options are not parsed with getopt')
        return
    g = calls[0]
    shorts = cval(g.arg(1, 'shortopts'))
    lt = g.arg(2, 'longopts')
    longs = [] if lt is None else [cval(lt)] if isinstance(cval(lt), str) else strs(lt)
    if not isinstance(shorts, str) or longs is None:
        c.note(f'{prog}: getopt specification not constant')
        return
    sh = {m.group(1): bool(m.group(2)) for m in re.finditer(r'([^:])(:?)', shorts)}
    lo = {x.rstrip('='): x.endswith('=') for x in longs}

    def full(x):
        if x in lo:
            return x
        p = [y for y in lo if y.startswith(x)]
        return p[0] if len(p) == 1 else None
    loop = None
    for lid, lp in R.interp.loops.items():
        it = lp.get('iter')
        if it is not None and contains(it, lambda x: x.op == 'Call' and x.a[0] == g.name and len(x.a[1]) > 1 and x.a[1][1] is g.args[1] and
                                       x.a[1][0] is g.args[0]):
            loop = lid
    for s, l in sorted(doc.items()):
        if s not in spec:
            c.ob('a documented option is accepted', s in sh, f'{name} -{s}', f'short options are {shorts!r}', g.site)
            continue
        flag = spec[s][1] == 'flag'
        c.ob('a documented option is accepted', s in sh and sh[s] != flag, f'{name} -{s}', f'short options are {shorts!r}', g.site)
        if l:
            f = full(l)
            c.ob('a documented option is accepted', f is not None and lo[f] != flag, f'{name} --{l}', f'long options are {longs}', g.site)
    if loop is None:
        c.note(f'{prog}: option loop not recognised')
        return
    lp = R.interp.loops[loop]
    base = lp['iter']
    pairs = [x for v in lp['next'].values() if isinstance(v, T) for x in walk(v) if x.op == 'Index' and is_const(x.a[1], 0, 1) and
             x.a[0].op == 'Index' and x.a[0].a[0] is base]
    opt = next((x for x in pairs if is_const(x.a[1], 0)), None)
    val = mk('Index', opt.a[0], Const(1)) if opt is not None else None
    if opt is None:
        c.note(f'{prog}: option loop not recognised')
        return

    used = {x.a[0] for e in R.events for t in [*e.pc, *e.args, *e.kw.values(), *(e.extra.values() if isinstance(e.extra, dict) else ())] if isinstance(t, T)
            for x in walk(t) if x.op == 'Mu' and x.a[1] == loop}

    def effect(choice):
        out = {}
        for v, t in lp['next'].items():
            if not isinstance(t, T) or t is opt:
                continue
            if v not in used and getattr(lp['init'].get(v), 'op', None) == 'Undef':
                continue       # bound anew in every round
            n = as_if(t, choice, opt)
            if v in ('arg', 'opt') or all(x is val or x.op == 'MCall' and x.a[0] is val for x in alts(n)) and 'Undef' == getattr(lp['init'].get(v), 'op', None):
                continue
            if not (n.op == 'Mu' and n.a[0] == v):
                out[v] = n
        return out
    ms = {}
    for s in spec:
        if s not in doc:
            continue
        eff = effect('-' + s)
        l = full(doc[s]) if doc[s] else None
        if l:
            c.ob('short and long form have the same effect', {k: t.id for k, t in eff.items()} == {k: t.id for k, t in effect('--' + l).items()},
                 f'{name} -{s} --{l}', f'-{s} sets {sorted(eff)}, --{l} sets {sorted(effect("--" + l))}', lp['site'])
        ms[s] = eff
    varof = {}
    for s, eff in ms.items():
        sink, kind = spec[s]
        if sink == 'help':
            for ch in ['-' + s] + (['--' + full(doc[s])] if doc[s] and full(doc[s]) else []):
                ex = [e for e in R.events if loop in e.loops and (e.kind == 'enter' and e.name.endswith('.print_call'))]
                ok = any(is_const(as_if(And(*e.pc[len(lp['pc']):]), ch, opt), True) for e in ex)
                c.ob('an option reaches its purpose', ok, f'{name} {ch}', 'does not print the usage', lp['site'])
            continue
        if not c.ob('an option sets something', bool(eff), f'{name} -{s}', 'no variable changes', lp['site']):
            continue
        for v, t in eff.items():
            varof.setdefault(s, []).append(v)
            for x in alts(t):
                if kind == 'flag':
                    ok = x.op == 'Const'
                elif kind == 'list':
                    ok = contains(x, lambda y: y.op == 'MCall' and y.a[1] == 'split' and y.a[2] and is_const(y.a[2][0], ',')) or not contains(x, lambda y: y is val)
                elif kind == 'number':
                    ok = contains(x, lambda y: y is val) or x.op == 'Mu'
                else:
                    ok = contains(x, lambda y: y is val)
                c.ob('an option is read as documented', ok, f'{name} -{s}', f'sets {v} to {show(x)[:60]}', lp['site'])
    mus = {s: [mk('Mu', v, loop) for v in vs] for s, vs in varof.items()}
    for s, vs in mus.items():
        sink, kind = spec[s]
        if isinstance(sink, tuple):
            q, p = sink
            es = [e for e in R.events if e.kind == 'enter' and e.name == q]
            if not c.ob('an option reaches its purpose', bool(es), f'{name} -{s}', f'{q} is not called'):
                continue
            for e in es:
                names = params(c, q)
                t = e.extra.get(p) if isinstance(p, str) else e.extra.get(names[p])
                if t is None:
                    c.note(f'{q} has no parameter {p}')
                    continue
                own = any(x in vs for x in values(t, R))
                c.ob('an option reaches its purpose', own, f'{name} -{s}', f'{q} gets {show(t)[:80]}', e.site)
                for o, ws in mus.items():
                    if o != s and not set(ws) & set(vs):
                        for path, leaf in leaves(t):
                            c.ob('an option reaches no other purpose', not (leaf in ws), f'{name} -{o} as -{s}', f'{show(t)[:80]}', e.site)
                if kind == 'flag':
                    flags(c, name, s, t, vs, ms[s], lp, e)
        elif sink == 'exclusion':
            es = [e for e in R.events if e.kind == 'enter' and e.name == 'gemlog.core.convert']
            def out(x):
                return x.op == 'Cmp' and x.a[0] == 'notin' and contains(x.a[2], lambda z: z in vs) or \
                    x.op == 'Bin' and x.a[0] == '-' and contains(x.a[2], lambda z: z in vs) or \
                    (x.op == 'MCall' and x.a[1] in ('difference', 'remove') or x.op == 'Call' and x.a[0] in ('numpy.setdiff1d', 'numpy.isin')) and \
                    contains(x, lambda z: z in vs)
            ok = any(contains(e.extra['SN'], out) for e in es) or any(x.kind == 'append' and x.loops and any(contains(p, out) for p in x.pc[len(R.interp.loops[x.loops[-1]]['pc']):]) for x in R.events)
            c.ob('an option reaches its purpose', ok, f'{name} -{s}', 'excluded numbers are converted', lp['site'])
        elif sink == 'no conversion':
            es = [e for e in R.events if e.kind == 'enter' and e.name == 'gemlog.core.convert']
            for e in es:
                for v, m in zip(varof[s], vs):
                    n = subst(And(*e.pc), {m: ms[s][v]})
                    c.ob('an option reaches its purpose', is_const(n, False), f'{name} -{s}', 'a test run converts', e.site)
                    if isinstance(lp['init'].get(v), T):
                        n = subst(And(*e.pc), {m: lp['init'][v]})
                        c.ob('without the option the default applies', not is_const(n, False), f'{name} -{s}', 'never converts', e.site)
        elif sink == 'workers':
            es = [e for e in R.events if e.kind in ('call', 'new') and str(e.name).split('.')[-1] in ('ProcessPoolExecutor', 'Pool', 'ThreadPoolExecutor')]
            for e in es:
                c.ob('an option reaches its purpose', any(contains(a, lambda x: x in vs) for a in list(e.args) + list(e.kw.values())), f'{name} -{s}',
                     'the pool does not use it', e.site)
            for v in varof[s]:
                t = ms[s][v]
                c.ob('an option is read as documented', any(contains(x, lambda y: y.op == 'Call' and y.a[0] == 'builtins.int') for x in alts(t)), f'{name} -{s}',
                     f'{show(t)[:60]}', lp['site'])
        elif sink == 'codes':
            es = [e for e in R.events if e.kind == 'enter' and e.name.endswith('_get_station_info')]
            c.ob('an option reaches its purpose', any(contains(a, lambda x: x in vs) for e in es for a in e.extra.values()), f'{name} -{s}', 'not read', lp['site'])
    for s, want in DEFAULTS.get(prog, {}).items():
        for v in varof.get(s, ()):
            i = lp['init'].get(v)
            got = cval(i) if isinstance(i, T) else None
            if got is None:
                c.note(f'{name} default of -{s} not constant')
                continue
            norm = got.lower().strip('./') if isinstance(got, str) else got
            c.ob('without the option the default applies', norm == want, f'{name} -{s}', f'default is {got!r}, documented {want!r}', lp['site'])
    if prog == CONV:
        for e in R.events:
            if e.kind == 'enter' and e.name == 'gemlog.core.convert' and 'o' in mus and 'f' in mus:
                t = e.extra['convertedpath']
                dflt = [leaf for path, leaf in leaves(t) if leaf not in mus['o']]
                c.ob('without the option the default applies', all(contains(x, lambda y: y in mus['f']) for x in dflt) and bool(dflt), f'{name} -o',
                     f'{show(t)[:80]}', e.site)


def flags(c, name, s, t, vs, eff, lp, e):
    """The flag changes the parameter: its value with the flag set differs from its value without."""
    for m in vs:
        v = m.a[0]
        init = lp['init'].get(v)
        on = subst(t, {m: eff[v]})
        if isinstance(init, T) and init.op == 'Const':
            off = subst(t, {m: init})
            c.ob('a flag takes effect', on is not off, f'{name} -{s}', f'{show(t)[:60]}', e.site)
            if name == 'gemconvert_single' and s == 'f' and on.op == 'Const' and off.op == 'Const':
                c.ob('a flag takes effect', not cval(on) and bool(cval(off)), f'{name} -{s} sense', f'require_gps is {cval(on)} with -f and {cval(off)} without', e.site)


def argparse_program(c, prog, spec):
    R = c.ctx.run(prog)
    name = prog.split('.')[-1]
    decl = {}
    for e in R.events:
        if e.kind == 'mcall' and e.name == 'add_argument' and e.args and all(isinstance(cval(a), str) for a in e.args):
            names = [cval(a) for a in e.args]
            d = e.kw.get('dest')
            dest = cval(d) if d is not None else None
            if not dest:
                lg = [x for x in names if x.startswith('--')]
                dest = (lg[0] if lg else names[0]).lstrip('-').replace('-', '_')
            decl[dest] = (names, e)
    if not decl:
        c.note(f'{prog}: options are not declared with argparse')
        return
    have = {n for names, _ in decl.values() for n in names} | {'-h', '--help'}
    for x in {y for e in R.events for t in list(e.args) + list(e.kw.values()) for y in walk(t)}:
        if x.op == 'Call' and x.a[0].split('.')[-1] == 'ArgumentParser':
            for k, v in x.a[2] or ():
                for w in walk(v) if k in ('epilog', 'description') else ():
                    for o in re.findall(r'(?<![^\s\[(])--?[A-Za-z][\w-]*(?=[\s,\])=]|$)', cval(w)) if isinstance(cval(w), str) else ():
                        c.ob('a documented option is accepted', o in have, f'{name} {o}', f'declared: {sorted(have)}')

    def fields(t):
        return {x.a[1] for x in walk(t) if x.op == 'Fld' and x.a[0].op == 'MCall' and x.a[0].a[1] in ('parse_args', 'parse_known_args')}

    def leaf_fields(t):
        out = set()
        for path, leaf in leaves(t):
            out |= fields(leaf)
        return out
    for dest, sink in spec.items():
        if not c.ob('a documented option is accepted', dest in decl, f'{name} {dest}', f'declared: {sorted(decl)}'):
            continue
        names, d = decl[dest]
        if isinstance(sink, tuple):
            q, p = sink
            es = [e for e in R.events if e.kind == 'enter' and e.name == q and p in (e.extra or {})]
            vals = [e.extra[p] for e in es]
        elif sink == 'to_csv':
            es = [e for e in R.events if e.kind == 'mcall' and e.name == 'to_csv']
            vals = [e.args[0] for e in es if e.args]
        else:
            es = [e for e in R.events if e.kind == 'call' and e.name == sink]
            vals = [e.args[0] for e in es if e.args]
        vals = [v for v in vals if fields(v)] or vals
        if not c.ob('an option reaches its purpose', bool(vals), f'{name} {dest}', f'{sink} is not called'):
            continue
        ok = any(leaf_fields(v) == {dest} for v in vals)
        c.ob('an option reaches its purpose', ok, f'{name} {dest}', f'gets {[sorted(leaf_fields(v)) for v in vals][:3]}', d.site)
        if dest in LISTS:
            for v in vals:
                for path, leaf in leaves(v):
                    if fields(leaf):
                        c.ob('an option is read as documented', contains(leaf, lambda y: y.op == 'MCall' and y.a[1] == 'split' and y.a[2] and
                                                                         is_const(y.a[2][0], ',')), f'{name} {dest}', f'{show(leaf)[-60:]}', d.site)
            for v in vals:
                fl = [x for x in walk(v) if x.op == 'Fld' and x.a[1] == dest and fields(x)]
                for f in fl[:1]:
                    for given, want in (('abc', ['abc']), ('a,b', ['a', 'b']), (None, None)):
                        try:
                            got = ev(v, {'lib': True, f.id: given})
                        except Unknown:
                            c.note(f'{name} {dest}: value for {given!r} not evaluated')
                            continue
                        c.ob('an option is read as documented', (list(got) if got is not None else None) == want or want is None and not got and got != '',
                             f'{name} {dest}', f'{given!r} is handed on as {got!r}', d.site)
        h, df, ty = d.kw.get('help'), d.kw.get('default'), d.kw.get('type')
        ht = cval(h) if h is not None else None
        if isinstance(ht, str):
            m = re.search(r'default:\s*(-?[\d.]+\d|-?\d+)', ht)
            if m and (df is None or is_const(df, None)) and any(v.op == 'Fld' and fields(v) == {dest} for v in vals) and \
                    not any(e.kind == 'mcall' and e.name == 'set_defaults' for e in R.events):
                c.ob('without the option the default applies', False, f'{name} {dest}', f'no default, documented {m.group(1)}', d.site)
            if m and df is not None and isinstance(cval(df), (int, float)):
                c.ob('without the option the default applies', float(m.group(1)) == float(cval(df)), f'{name} {dest}',
                     f'default {cval(df)}, documented {m.group(1)}', d.site)
        if df is not None and isinstance(cval(df), (int, float)) and not isinstance(cval(df), bool) and 'action' not in d.kw:
            c.ob('a numeric option is read as a number', ty is not None and ty.op == 'Ext' and ty.a[0] in ('builtins.float', 'builtins.int'),
                 f'{name} {dest}', f'type {show(ty) if ty is not None else None}', d.site)
            if dest in ('freq_low', 'freq_high', 'win_length_sec', 'overlap') and ty is not None:
                c.ob('a numeric option is read as a number', ty.op == 'Ext' and ty.a[0] == 'builtins.float', f'{name} {dest} fraction', '', d.site)
        if dest in ('t1', 't2') and (df is None or is_const(df, None)) and any(v.op == 'Fld' and fields(v) == {dest} for v in vals) and \
                not any(e.kind == 'mcall' and e.name == 'set_defaults' for e in R.events):
            c.ob('without the option the default applies', False, f'{name} {dest}', 'no default', d.site)
        if dest == 't1' and df is not None:
            c.ob('without the option the default applies', str(cval(df)) <= '1970-01-01', f'{name} t1', f'{cval(df)!r}', d.site)
        if dest == 't2' and df is not None:
            c.ob('without the option the default applies', str(cval(df)) >= '2100', f'{name} t2', f'{cval(df)!r}', d.site)
