"""C30: day-by-day processing."""
import operator
import types

import numpy as np

from . import rule
from ..evalterm import Obj, Unknown, ev
from ..lib import alts
from ..terms import contains, cval, is_const, mk, show, walk
from .arrays import LOOP, Cols, all_terms, arg, argnames, params, reordered


class When(types.SimpleNamespace):
    """A moment, in seconds from a midnight."""

    def __init__(self, s):
        super().__init__(s=float(s))

    def __add__(self, x):
        return When(self.s + float(x))

    __radd__ = __add__

    def __sub__(self, x):
        return self.s - x.s if isinstance(x, When) else When(self.s - float(x))

    def __eq__(self, o):
        return isinstance(o, When) and self.s == o.s

    def __lt__(self, o):
        return self.s < o.s if isinstance(o, When) else NotImplemented

    def __le__(self, o):
        return self.s <= o.s if isinstance(o, When) else NotImplemented

    def __gt__(self, o):
        return self.s > o.s if isinstance(o, When) else NotImplemented

    def __ge__(self, o):
        return self.s >= o.s if isinstance(o, When) else NotImplemented

    def __hash__(self):
        return hash(self.s)

    def replace(self, hour=None, minute=None, second=None, microsecond=None):
        d, r = divmod(self.s, 86400)
        h, r = divmod(r, 3600)
        m, r = divmod(r, 60)
        s, us = divmod(r, 1)
        return When(d * 86400 + (h if hour is None else hour) * 3600 + (m if minute is None else minute) * 60 + (s if second is None else second) + (us if microsecond is None else microsecond / 1e6))


class Col(types.SimpleNamespace):
    """A column of values."""

    def __init__(self, v):
        super().__init__(v=list(v), shape=(len(v),), size=len(v))

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, i):
        if isinstance(i, (np.ndarray, list, tuple)):
            i = np.asarray(i)
            return Col([x for x, k in zip(self.v, i) if k] if i.dtype == bool else [self.v[int(k)] for k in i])
        return self.v[i]

    def min(self):
        return min(self.v)

    def max(self):
        return max(self.v)

    def isin(self, o):
        return np.array([x in o for x in self.v], bool)

    def to_numpy(self, *a):
        return self

    tolist = unique = to_numpy

    __hash__ = None


def _cmp(f):
    return lambda self, o: np.array([f(x, y) for x, y in zip(self.v, o.v if isinstance(o, Col) else [o] * len(self.v))], bool)


for _n in ('ge', 'gt', 'le', 'lt', 'eq', 'ne'):
    setattr(Col, f'__{_n}__', _cmp(getattr(operator, _n)))


def fill(R, ref, env, watch):
    """Contents of a list filled by appending, with the rounds of all for loops around."""
    from ..evalterm import seq_of
    evts = sorted((e for e in R.events if e.kind == 'append' and e.recv is ref), key=lambda e: e.order)
    out = list(ev(x, env) for x in getattr(R.interp, 'first_items', {}).get(ref.id, ()))
    own = [ref] + [x for t in watch for x in walk(t) if x.op == 'OpenList' and x.a and x.a[0] is ref]

    def go(es, depth, e1):
        i = 0
        while i < len(es):
            e = es[i]
            if len(e.loops) > depth:
                lid = e.loops[depth]
                grp = [x for x in es[i:] if len(x.loops) > depth and x.loops[depth] == lid]
                lp = R.interp.loops[lid]
                if lp['kind'] != 'for' or lp['iter'] is None:
                    raise Unknown(ref)
                n, bind = seq_of(lp['iter'], e1)
                for k in range(n):
                    e2 = {**e1, **bind, mk('Idx', lid).id: k}
                    go(grp, depth + 1, e2)
                    if any(ev(t, e2) for t, _ in lp['breaks']):
                        break
                i += len(grp)
                continue
            e2 = {**e1, **{x.id: tuple(out) for x in own}}
            if all(ev(p, e2) for p in e.pc):
                out.append(ev((e.extra or {}).get('now', e.args)[0], e2))
            i += 1
    go(evts, 0, env)
    return reordered(R, ref, out)


def bind_list(R, ref, env, watch, val=None):
    v = fill(R, ref, env, watch) if val is None else val
    env[ref.id] = v
    for t in watch:
        for x in walk(t):
            if x.op == 'OpenList' and x.a and x.a[0] is ref:
                env[x.id] = v
    return v


def guarded(R, e):
    """Whether an exception at e is caught in its loop and the loop goes on."""
    import ast
    for tid, part in e.tries:
        if part != 'body' or tid not in R.interp.tries_info:
            continue
        info = R.interp.tries_info[tid]
        for names, h in zip(info['handlers'], info['node'].handlers):
            ns = {n.split('.')[-1] for n in (names or ())} if not isinstance(names, str) else {names.split('.')[-1]}
            if not ns & {'*', 'Exception', 'BaseException'} and h.type is not None:
                continue
            if any(isinstance(x, (ast.Raise, ast.Break, ast.Return)) for s in h.body for x in ast.walk(s)):
                continue
            return True
    return False


A, B = 'XX.121..HDF', 'XX.122..HDF'
TRACES = {'f1': [(36000.0, 86399.99, A)], 'f2': [(36000.0, 86399.99, B)], 'bad': None, 'f3': [(86400.0, 172799.99, A), (86400.0, 170000.0, B)], 'f4': [(172800.0, 190000.0, A)], 'f5': [(172800.0, 190000.0, 'XX.123..HDF')], 'f0': [(86000.0, 86900.0, 'XX.122.00.HDF')]}
FILES = ('f4', 'f1', 'f2', 'bad', 'f3', 'f5', 'f0')
SPELL = [(None, None), (['121'], None), (['121', '122'], None), ([B, '121'], None), (None, ['121']), (['12'], ['122']), ([], ['123', '121']), ([121], None)]


def chosen(ids, excl):
    import re
    found = list(dict.fromkeys(t[2] for f in FILES if TRACES[f] for t in TRACES[f]))
    out = found if not ids else list(dict.fromkeys(x for i in ids for x in ([str(i)] if re.match(r'\w{0,2}\.\w{1,5}\.\w{0,2}\.\w{3}', str(i)) else [y for y in found if re.search(str(i), y)])))
    return sorted(x for x in out if not any(re.search(e, x) for e in excl or ()))


@rule('C30')
def c30(c):
    """The lists the loop over days is made of (files, times and IDs found; IDs chosen; starts and ends of the pieces; files read), evaluated for sample files from the
    conditions and values appended to them; the piece handed to the function and the handling of errors."""
    import re
    if not c.ctx.has(LOOP):
        c.undecided.append('no loop over days')
        return
    R = c.ctx.run(LOOP)
    fn = argnames(c, LOOP)
    terms = all_terms(R)
    calls = {'obspy.UTCDateTime': lambda x: x, 'numpy.max': lambda x, *a: max(x), 'builtins.max': lambda *x: max(*x), 'numpy.maximum': max, 'numpy.min': lambda x, *a: min(x), 'builtins.min': lambda *x: min(*x), 'numpy.minimum': min,
             're.match': re.match, 're.search': re.search, 're.fullmatch': re.fullmatch, 'numpy.isin': lambda a, b: np.array([x in b for x in a], bool), 'numpy.where': lambda m: (np.flatnonzero(m),), 'numpy.flatnonzero': np.flatnonzero, 'builtins.sorted': lambda x, **k: tuple(sorted(x)), 'builtins.str': str,
             'numpy.array': lambda x, *a, **k: tuple(x), 'numpy.append': lambda a, b: tuple(a) + (tuple(b) if isinstance(b, (tuple, list)) else (b,)), 'numpy.concatenate': lambda x: tuple(y for z in x for y in z), 'builtins.list': lambda x=(): tuple(x), 'numpy.unique': lambda x: tuple(sorted(set(x))), 'builtins.set': lambda x: tuple(dict.fromkeys(x)),
             'numpy.any': lambda x: bool(np.any(x)), 'builtins.any': any}

    def read(f, *a, **k):
        return tuple(Obj(stats=Obj(starttime=When(s), endtime=When(e)), id=i) for s, e, i in TRACES[f] or ())
    calls['obspy.read'] = read
    reads = [e for e in R.events if e.kind == 'call' and e.name in ('obspy.read', 'obspy.core.read')]
    heads = [e for e in reads if len(e.loops) == 1]
    if not heads:
        c.undecided.append('the files are not looked at one by one')
        return
    for e in heads:
        c.ob('a file that cannot be read is skipped', guarded(R, e), 'reading a file', 'a file that cannot be read ends the run', e.site)
    refs = {}
    for e in R.events:
        if e.kind == 'append' and e.recv is not None and e.recv.op == 'Ref':
            refs.setdefault(e.recv, []).append(e)
    table = next((x for t in terms for x in walk(t) if x.op == 'Call' and x.a[0] in ('pandas.DataFrame.from_dict', 'pandas.DataFrame') and x.a[1] and x.a[1][0].op == 'Dict'), None)
    if table is None:
        c.note('the table of files is not recognised')
        return
    for k, (ids, excl) in enumerate(SPELL):
        for lo, hi in ((0.0, 1e9), (40000.0, 180000.0), (90000.0, 100000.0)) if k == 0 else ((0.0, 1e9),):
            env = params(terms, {fn[1]: FILES, fn[2]: When(lo), fn[3]: When(hi), 'IDs': tuple(ids) if ids is not None else None, 'exclude_IDs': tuple(excl) if excl is not None else None})
            env['calls'], env['loops'] = calls, R.interp.loops
            for t in terms:
                for x in walk(t):
                    if x.op == 'Exc':
                        env[x.id] = False
            try:
                if not days(c, R, fn, terms, env, table, refs, ids, excl, lo, hi):
                    return
            except Unknown as u:
                c.note(f'days: not evaluated: {str(u)[:200]}')
                return
    c.need('each piece starts where the one before ended', 3, 'pieces')


def days(c, R, fn, terms, env, table, refs, ids, excl, lo, hi):
    key = f'IDs {ids}, without {excl}, from {lo:g} to {hi:g}'
    g = 'every trace of every file is known with its times and ID'
    cols = {}
    for name, v in table.a[1][0].a:
        name = name if isinstance(name, str) else cval(name)
        ref = v.a[0] if v.op == 'OpenList' else v
        if ref not in refs:
            raise Unknown(v)
        cols[name] = bind_list(R, ref, env, terms)
    known = [(f, When(s), When(e), i) for f in FILES if TRACES[f] for s, e, i in TRACES[f]]
    named = {n: list(v) for n, v in cols.items()}
    for n, j in (('filename', 0), ('t1', 1), ('t2', 2), ('ID', 3)):
        if n in named:
            c.ob(g, named[n] == [x[j] for x in known], f'{key}: {n}', f'{named[n][:3]}')
    env[table.id] = Cols(**{k: Col(v) for k, v in cols.items()})
    # IDs
    want = chosen(ids, excl)
    for ref, es in refs.items():
        if ref.id in env or any(R.interp.loops[l]['kind'] != 'for' for e in es for l in e.loops) or any(x.op == 'Zip' for e in es for l in e.loops for x in walk(R.interp.loops[l]['iter'])):
            continue
        try:
            bind_list(R, ref, env, terms)
        except Unknown:
            pass
    sel = next((x for t in terms for x in walk(t) if x.op == 'Call' and x.a[0] == 'builtins.sorted'), None)
    if sel is not None:
        got = ev(sel, env)
        c.ob('the IDs are those asked for, without those excluded', list(got) == want, key, f'{list(got)} instead of {want}')
    else:
        c.note('the IDs chosen are not recognised')
    # rows kept
    for t in terms:
        for x in walk(t):
            if x.op == 'Index' and x.a[0].op == 'Fld' and x.a[0].a[1] in ('iloc', 'loc') and x.a[0].a[0] is table and x.id not in env:
                s = x.a[1]
                s = s.a[0] if s.op == 'Tuple' and not isinstance(s.a[0], tuple) else (s.a[0][0] if s.op == 'Tuple' else s)
                rows = np.asarray(ev(s, env))
                rows = np.flatnonzero(rows) if rows.dtype == bool else rows
                srt = [e for e in R.events if e.kind == 'mcall' and e.name == 'sort_values' and e.recv is x]
                rows = sorted((int(r) for r in rows), key=lambda r: cols['t1'][r]) if srt else [int(r) for r in rows]
                env[x.id] = Cols(**{k: Col([v[r] for r in rows]) for k, v in cols.items()})
                for e in srt:
                    if e.val is not None:
                        env[e.val.id] = env[x.id]
    # pieces
    first, last = max(lo, min(x[1].s for x in known)), min(hi, max(x[2].s for x in known))
    fcalls = [e for e in R.events if e.kind == 'callv' and e.recv is not None and e.recv.op == 'Param' and e.recv.a[0] == fn[0]]
    if len(fcalls) != 1 or len(fcalls[0].loops) != 1:
        c.note('the call on each piece is not recognised')
        return False
    call = fcalls[0]
    lp = R.interp.loops[call.loops[0]]
    for ref, es in refs.items():
        if len({e.loops for e in es}) == 1 and len(es[0].loops) == 1 and R.interp.loops[es[0].loops[0]]['kind'] == 'while':
            items = [ev(x, env) for x in R.interp.first_items.get(ref.id, ())]
            loop = R.interp.loops[es[0].loops[0]]
            base = len(loop['pc'])
            for _ in range(20):
                n0, e2 = len(items), dict(env)
                for x in [y for e in es for t in [(e.extra or {}).get('now', e.args)[0]] + list(e.pc) for y in walk(t)] + [y for t, _ in loop['breaks'] for y in walk(t)]:
                    if x.op == 'Index' and x.a[0] is ref and is_const(x.a[1]) and cval(x.a[1]) == -1:
                        e2[x.id] = items[-1]
                for e in sorted(es, key=lambda e: e.order):
                    if items and all(ev(p, e2) for p in e.pc[base:]):
                        items.append(ev((e.extra or {}).get('now', e.args)[0], e2))
                if len(items) == n0 or any(ev(t, e2) for t, _ in loop['breaks']):
                    break
            bind_list(R, ref, env, terms, tuple(items))
    from ..evalterm import seq_of
    n, bind = seq_of(lp['iter'], env)
    idx = mk('Idx', call.loops[0])
    piece = call.args[0] if call.args else None
    if piece is None or piece.op != 'MCall' or piece.a[1] not in ('slice', 'trim') or len(piece.a[2]) < 2:
        c.note('the piece of data is not recognised')
        return False
    S = [ev(piece.a[2][0], {**env, **bind, idx.id: i}).s for i in range(n)]
    E = [ev(piece.a[2][1], {**env, **bind, idx.id: i}).s for i in range(n)]
    g = 'each piece starts where the one before ended'
    c.ob(g, n > 0 and S[0] == first, f'{key}: start', f'the data are processed from {S[0] if S else None} instead of {first}', call.site)
    c.ob(g, n > 0 and E[-1] == last, f'{key}: end', f'the data are processed to {E[-1] if E else None} instead of {last}', call.site)
    c.ob(g, all(a == b for a, b in zip(E, S[1:])), f'{key}: joints', f'pieces end at {E[:-1]} and start at {S[1:]}', call.site)
    c.ob(g, all(0 <= e - s <= 86401 for s, e in zip(S, E)), f'{key}: length', 'a piece is longer than a day', call.site)
    c.ob('the function gets its arguments', len(call.args) > 1 and call.args[1].op == 'Param' and call.args[1].a[0] == 'args', 'arguments', 'the arguments do not reach the function', call.site)
    # files read
    rd = [e for e in R.events if e.kind == 'call' and e.name in ('obspy.read', 'obspy.core.read') and len(e.loops) == 2 and e.loops[0] == call.loops[0]]
    g = 'the data of each piece are read, each file once'
    if len(rd) != 1:
        c.note('reading the data of a piece is not recognised')
        return False
    r = rd[0]
    need, done, readn = [], [], []
    known_refs = [x for x, es in refs.items() if len(es) == 1 and es[0].loops == r.loops]
    lp2 = R.interp.loops[r.loops[1]]
    for i in range(n):
        e1 = {**env, **bind, idx.id: i}
        m, b2 = seq_of(lp2['iter'], e1)
        now = []
        for k in range(m):
            e2 = {**e1, **b2, mk('Idx', r.loops[1]).id: k}
            for ref in known_refs:
                e2[ref.id] = tuple(done)
                for p in r.pc:
                    for x in walk(p):
                        if x.op == 'OpenList' and x.a and x.a[0] is ref:
                            e2[x.id] = tuple(done)
            if all(ev(p, e2) for p in r.pc):
                now.append(ev(r.args[0], e2))
            for ref in known_refs:
                if all(ev(p, e2) for p in refs[ref][0].pc):
                    done.append(ev((refs[ref][0].extra or {}).get('now', refs[ref][0].args)[0], e2))
        readn += now
        wanted = {f for f in FILES if TRACES[f] for s, e, d in TRACES[f] if s <= E[i] and e >= S[i] and d in want and s <= last and e >= first}
        c.ob(g, wanted <= set(readn), f'{key}: piece {i}', f'{sorted(wanted - set(readn))} is not read', r.site)
    kept = [(k, t) for k, t in lp2['next'].items() if t is not None and r.val is not None and contains(t, lambda y: y is r.val)]
    own = [k for k, t in kept if contains(t, lambda y: y.op == 'Mu' and y.a[0] == k and y.a[1] == lp2['id']) and all(
        not contains(lf, lambda y: y is r.val) or contains(lf, lambda y: y.op == 'Mu' and y.a[0] == k and y.a[1] == lp2['id']) for lf in alts(t))]
    other = any(e.kind in ('append', 'mcall', 'aug') and any(contains(a, lambda y: y is r.val) for a in e.args or ()) for e in R.events if r.loops[1] in e.loops)
    taken = [k for k, t in kept if contains(call.args[0], lambda y: y.op == 'Mu' and y.a[0] == k)]
    if taken and r.val is not None:
        c.ob(g, bool(own) or other, f'{key}: all', f'{taken[0]} keeps the data of one file only', r.site)
    c.ob(g, len(readn) == len(set(readn)), f'{key}: once', f'{[f for f in readn if readn.count(f) > 1][:1]} is read again', r.site)
    c.ob(g, not (e3 := r.kw or {}).get('headonly') or is_const(e3['headonly'], False), f'{key}: samples', 'only headers are read', r.site)
    # what is cut away and which traces stay
    g = 'no data of a piece are cut away before it'
    for e in R.events:
        if e.kind == 'mcall' and e.name == 'trim' and e.loops == call.loops and e.order < call.order:
            for i in range(n):
                e1 = {**env, **bind, idx.id: i}
                a, b = arg(e, 0, 'starttime'), arg(e, 1, 'endtime')
                c.ob(g, a is None or ev(a, e1).s <= S[i], f'{key}: start of piece {i}', 'data of the piece are cut away', e.site)
                c.ob(g, b is None or ev(b, e1).s >= last or not any(x.kind == 'aug' for x in R.events), f'{key}: after piece {i}', 'data of later pieces are cut away', e.site)
    comps = [x for t in [call.args[0]] + [lp['next'].get(k) for k in lp['next'] if lp['next'].get(k) is not None] for x in walk(t) if x.op == 'Comp' and any(y.op == 'Fld' and y.a[1] == 'id' for y in walk(x.a[3]))]
    if not comps:
        c.ob('only traces of the IDs chosen are processed', excl is None and ids is None, key, 'traces are not chosen by ID', call.site)
    for x in comps[:1]:
        src = x.a[2][0][1]
        trs = tuple(Obj(id=i) for i in (A, B, 'XX.123..HDF', 'XX.122.00.HDF', 'ZZ.9..HDF'))
        got = ev(x, {**env, **bind, idx.id: 0, src.id: trs})
        c.ob('only traces of the IDs chosen are processed', [o.id for o in got] == [o.id for o in trs if o.id in want], key, f'{[o.id for o in got]}', call.site)
    # results
    g = 'the results of all pieces are put together, an error loses one piece only'
    outs = [(ref, es[0]) for ref, es in refs.items() if len(es) == 1 and es[0].loops == call.loops and es[0].order > call.order]
    outs = [(ref, e) for ref, e in outs if any(x.op == 'CallV' for x in walk((e.extra or {}).get('now', e.args)[0]))]
    if not outs:
        c.note('how the results are collected is not recognised')
        return False
    ref, e = outs[0]
    c.ob(g, len(e.pc) == len(call.pc), 'result of a piece', 'a result is left out', e.site)
    c.ob(g, guarded(R, call), 'error in a piece', 'an error ends the run', call.site)
    v = [x for lf in alts(R.value) for x in walk(lf) if x.op == 'Call' and x.a[0] == 'pandas.concat'] if R.value is not None else []
    if not v:
        c.note('how the results are put together is not recognised')
    for x in v:
        c.ob(g, bool(x.a[1]) and x.a[1][0].op in ('OpenList', 'Ref') and (x.a[1][0] is ref or x.a[1][0].a[0] is ref), 'all results', show(x.a[1][0], 3) if x.a[1] else '')
    return True
