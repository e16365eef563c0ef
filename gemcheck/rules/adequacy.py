"""C34: the GPS data of a file decide whether, and how, it is timed."""
import ast
import math
import warnings

import numpy as np

from . import rule
from ..evalterm import Obj, Unknown, ev
from ..lib import alts, dget
from ..libeval import Raised, Run, class_names
from ..terms import Const, cval, show, walk

DRIFT, SEVERAL, SINGLE = 'gemlog.core._calculate_drift', 'gemlog.core._read_several', 'gemlog.core._convert_one_file'
CLOCK = 0.001024


class Col(np.ndarray):
    """A column of fixes."""


class Fixes(Obj):
    """A table of GPS fixes."""

    def keys(self):
        return ('index', 'msPPS', 'msLag', 't', 'lat', 'lon')

    @property
    def columns(self):
        return self.keys()

    def __len__(self):
        return len(self.t)

    @property
    def shape(self):
        return (len(self), 12)

    @property
    def empty(self):
        return len(self) == 0


def fixes(ms, t):
    n = len(ms)
    return Fixes(msPPS=np.asarray(ms, float), t=np.asarray(t, float), lat=np.linspace(43, 43.2, n), lon=np.linspace(-116.3, -116, n), msLag=np.full(n, 50.))


def cases():
    """(name, counters of the samples, GPS fixes): files of two hours that differ in their GPS data."""
    rng = np.random.RandomState(7)
    S = np.arange(0, 7031250, 10.)      # two hours
    T0 = 1.6e9

    def at(fr, noise=0.001, bow=0.):
        ms = 7031250 * np.asarray(fr)
        return ms, T0 + CLOCK * ms * (1 + 2e-6) + bow * (np.asarray(fr) - .5) ** 2 + noise * rng.uniform(-1, 1, len(ms))
    out = [('no fixes', S, fixes([], [])),
           ('one fix', S, fixes(*at([.5]))),
           ('two fixes', S, fixes(*at([0.01, .99]))),
           ('many fixes over the whole file', S, fixes(*at(np.linspace(.01, .99, 120)))),
           ('curved clock', S, fixes(*at(np.linspace(.01, .99, 120), bow=.03))),
           ('fixes over 45% of the file', S, fixes(*at(np.linspace(.3, .75, 120)))),
           ('fixes over 55% of the file', S, fixes(*at(np.linspace(.2, .75, 120)))),
           ('9 fixes', S, fixes(*at(np.linspace(.01, .99, 9), 0.0005))),
           ('10 fixes', S, fixes(*at(np.linspace(.01, .99, 10), 0.0005))),
           ('11 fixes', S, fixes(*at(np.linspace(.01, .99, 11), 0.0005))),
           ('noise of 8 ms', S, fixes(*at(np.linspace(.01, .99, 300), 0.0075))),
           ('noise of 30 ms', S, fixes(*at(np.linspace(.01, .99, 300), 0.03)))]
    ms, t = at(np.linspace(.01, .99, 120))
    for name, k, d in (('one fix off by 1 s', 40, 1.), ('the last fix off by 1 s', 119, 1.), ('one fix off by 15 ms', 60, .015)):
        t2 = t.copy()
        t2[k] += d
        out.append((name, S, fixes(ms, t2)))
    for name, d in (('a step of 0.6 s', .6), ('a step of 0.2 s', .2), ('a step back of 0.6 s', -.6)):
        t2 = t.copy()
        t2[60:] += d
        out.append((name, S, fixes(ms, t2)))
    f = np.concatenate([np.linspace(.01, .3, 100), [.95]])
    ms, t = at(f)
    t[-1] += 2.
    out.append(('fixes in the first third and a wrong one at the end', S, fixes(ms, t)))
    f = np.concatenate([np.linspace(.01, .3, 1000), [.6]])
    ms, t = at(f)
    t[-1] += 20.
    out.append(('fixes in the first third and a very wrong one later', S, fixes(ms, t)))
    ms, t = at(np.linspace(.01, .99, 120))
    t[60:] += .6
    t[100] += 30
    out.append(('a step of 0.6 s and one fix off by 30 s', S, fixes(ms, t)))
    ms, t = at(np.linspace(.01, .99, 400))
    for k, d in ((50, 3000.), (120, -90.), (200, 4.), (300, .2)):
        t[k] += d
    out.append(('four wrong fixes of very different sizes', S, fixes(ms, t)))
    ms, t = at(np.linspace(.01, .99, 60), bow=40.)
    t[30] += 300
    out.append(('a strongly curved clock and one fix off by 300 s', S, fixes(ms, t)))
    f = np.linspace(.01, .99, 14)
    ms, t = at(f, 0.0005)
    t[[2, 5, 8, 9, 12]] += np.array([.06, -.05, .07, -.06, .05])
    out.append(('9 good fixes and 5 wrong ones', S, fixes(ms, t)))
    out.append(('a file of a few seconds', np.arange(0, 4000, 10.), fixes(500 + 1000 * np.arange(3.), T0 + CLOCK * (500 + 1000 * np.arange(3.)))))
    return out


class Refused(Exception):
    pass


def strict(x, y, degree):
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        return np.polynomial.polynomial.polyfit(x, y, degree)


def regress(x, y, degree=3, MAD=.01):
    while True:
        reg = strict(x, y, degree)
        r = y - np.polynomial.Polynomial(reg)(x)
        out = np.abs(r) > 4 * np.std(r)
        if not out.any():
            out = np.abs(r) > MAD
        if not out.any():
            return reg, x, y, r
        x, y = x[~out], y[~out]


def truth(S, G, need):
    """Coefficients of the clock, power by power, or None if the file is refused."""
    x, y = G.msPPS, G.t
    span = CLOCK * (S[-1] - S[0])
    enough = len(G) > 0 and span / (y[-1] - y[0] + 1e-9) < 2
    if need:
        if not enough:
            return None
        try:
            _, _, _, r = regress(x, y, 1, math.inf)
        except Exception:
            return None
        if (np.abs(np.diff(r)) > .25).any():
            return None
    if enough:
        try:
            reg, xx, yy, r = regress(x, y)
            if CLOCK * (S[-1] - S[0]) / (yy[-1] - yy[0]) > 2 or len(xx) < 10 or np.abs(r).max() > .01:
                raise Refused
            return tuple(reg)
        except Exception:
            if need:
                return None
    return (np.mean(y - CLOCK * x) if len(G) else 0, CLOCK, 0, 0)


def fitters(c):
    """Functions of the package that call a polynomial fit themselves."""
    out = []
    for q, f in c.ctx.functions():
        if any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) in ('polyfit', 'lstsq', 'fit')
               for n in ast.walk(f)):
            out.append(q)
    return out


LIB = {'numpy.polynomial.polynomial.polyfit': strict, 'numpy.polyfit': lambda x, y, d, **k: strict(x, y, d)[::-1], 'numpy.polynomial.Polynomial': np.polynomial.Polynomial,
       'numpy.polynomial.polynomial.polyval': np.polynomial.polynomial.polyval, 'numpy.polyval': np.polyval, 'numpy.poly1d': np.poly1d}


def fit_function(c, q):
    """The value of a fitting function of the package, folded from its terms."""
    R = c.ctx.run(q, no_inline=(q,))
    f = next(f for n, f in c.ctx.functions() if n == q)
    names = [a.arg for a in f.args.args]
    dflt = {a.arg: d for a, d in zip(f.args.args[len(f.args.args) - len(f.args.defaults):], f.args.defaults)}
    consts = {}
    for k, d in dflt.items():
        try:
            consts[k] = ast.literal_eval(d)
        except ValueError:
            consts[k] = math.inf if ast.unparse(d) in ('np.inf', 'numpy.inf', 'math.inf') else None
    terms = [rt[1] for rt in R.returns] + [p for rt in R.returns for p in rt[0]]
    params = {x.a[0]: x for t in terms for x in walk(t) if x.op == 'Param'}
    for e in R.events:
        for t in list(e.pc) + ([e.val] if hasattr(e.val, 'op') else []):
            for x in walk(t):
                if x.op == 'Param':
                    params.setdefault(x.a[0], x)

    def run(*a, **kw):
        v = dict(consts)
        v.update(zip(names, a))
        v.update(kw)
        depth[0] += 1
        if depth[0] > 60:
            depth[0] = 0
            raise RuntimeError('no end')
        try:
            env = {params[k].id: x for k, x in v.items() if k in params}
            env['calls'] = dict(LIB, **{q: run})
            r = Run(R, env, lambda n: {n, 'Exception', 'BaseException'})
            kind, val = r.outcome()
            if kind == 'raise':
                raise RuntimeError(val)
            return ev(val, r.env)
        finally:
            depth[0] = max(0, depth[0] - 1)
    depth = [0]
    return run


@rule('C34')
def c34(c):
    """The function that fits a file's clock is analysed with its fit as an inner function; the conditions of its refusals and the coefficients it returns are folded for
    sample files that differ in number, extent and errors of their fixes, with and without the requirement of GPS, and compared with the tests as stated; the
    requirement is handed down from the folder reader and the single-file conversion unchanged."""
    judge_requirement(c)
    if not c.ctx.has(DRIFT):
        c.undecided.append('no function fits the clock of a file')
        return
    fs = [q for q in fitters(c) if q != DRIFT]
    R = c.ctx.run(DRIFT, no_inline=tuple(fs))
    names = [a.arg for q, f in c.ctx.functions() if q == DRIFT for a in f.args.args]
    if len(names) < 3:
        c.undecided.append('the parameters of the fit are not recognised')
        return
    calls = dict(LIB)
    for q in fs:
        calls[q] = fit_function(c, q)
    classes = class_names(c)
    terms = [rt[1] for rt in R.returns] + [p for rt in R.returns for p in rt[0]] + [p for e in R.events for p in e.pc] + [e.val for e in R.events if hasattr(e.val, 'op')]
    P = {x.a[0]: x for t in terms for x in walk(t) if x.op == 'Param'}
    lead = next((x.a[0].a[0] for t in terms for x in walk(t) if x.op in ('Index', 'Fld') and x.a[0].op == 'Param' and (cval(x.a[1]) if not isinstance(x.a[1], str) else x.a[1]) == 'gps'), None)
    req = next((n for n in names if 'gps' in n.lower()), None)
    if lead is None or req is None or req not in P:
        c.undecided.append('the parameters of the fit are not recognised')
        return
    for name, S, G in cases():
        D = np.column_stack([S, np.zeros(len(S))])
        for need in (True, False):
            want = truth(S, G, need)
            env = {P[lead].id: {'data': D, 'gps': G, 'metadata': None}, P[req].id: need, 'calls': calls}
            for n in names:
                if n in P and P[n].id not in env:
                    env[P[n].id] = 'FILE0000.123'
            key = f'{name}, GPS {"required" if need else "not required"}'
            r = Run(R, env, classes)
            try:
                kind, val = r.outcome()
            except Unknown as u:
                c.note(f'{key}: not decided: {str(u)[:160]}')
                continue
            if kind == 'raise' or want is None:
                c.ob('a file is refused when, and only when, its GPS is inadequate', (kind == 'raise') == (want is None), key, ('refused with ' + str(val)) if kind == 'raise' else 'accepted')
                continue
            c.ob('a file is refused when, and only when, its GPS is inadequate', True, key)
            got = []
            for k in range(4):
                x = dget(val, f'drift_deg{k}')
                try:
                    got.append(float(ev(x, r.env)))
                except (Unknown, AttributeError, TypeError):
                    got = None
                    break
            if got is None:
                c.note(f'{key}: coefficients are not decided')
                continue
            x = np.array([0., 2e6, 5e6, 7e6])
            err = np.abs(np.polynomial.Polynomial(got)(x) - np.polynomial.Polynomial(want)(x)).max()
            c.ob('the clock is the fit without its outliers, or the constant offset', err < 1e-4, key, f'differs by {err:.3g} s')
    c.need('a file is refused when, and only when, its GPS is inadequate', 30, 'sample files')


def judge_requirement(c):
    what = 'the requirement of GPS reaches the fit of every file'
    n = 0
    for q in (SEVERAL, 'gemlog.core.read_gem', SINGLE):
        if not c.ctx.has(q):
            continue
        for need in (True, False):
            f = next(f for x, f in c.ctx.functions() if x == q)
            if 'require_gps' not in [a.arg for a in f.args.args]:
                continue
            R = c.ctx.run(q, no_inline=(DRIFT,), require_gps=Const(need))
            fn = next((f for x, f in c.ctx.functions() if x == DRIFT), None)
            if fn is None:
                return
            pn = [a.arg for a in fn.args.args]
            i = next((k for k, x in enumerate(pn) if 'gps' in x.lower()), None)
            for e in R.events:
                if e.kind == 'pcall' and e.name == DRIFT and i is not None:
                    v = e.arg(i, pn[i])
                    vals = {cval(x) for x in alts(v)} if v is not None else {None}
                    n += 1
                    c.ob(what, vals == {need} or not all(isinstance(x, (bool, int)) for x in vals), f'{q} {need}', f'{show(v, 3) if v is not None else "its default"}', e.site)
    if not n:
        c.note('no call of the fit was found')
