"""C22: documented arguments take effect, are handed on, and have the documented defaults."""
import ast
import re

from . import rule
from ..terms import walk, show
from ..effects import mu_sources
from .state import exported

G_EFF = 'a documented argument takes effect'
G_DEF = 'an argument has its documented default'
G_PASS = 'an argument is handed on to functions that take it'
ALSO = ('gemlog.xcorr.get_coordinates', 'gemlog.core.write_wav')


def described(fn):
    """{parameter: first line of its description} from the documentation of a function."""
    doc = ast.get_docstring(fn) or ''
    a = fn.args
    out = {}
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        m = re.search(r'^[ \t]*%s[ \t]*:[ \t]*([^\n]*)' % re.escape(x.arg), doc, re.M)
        if m:
            out[x.arg] = m.group(1).strip()
    return out


NAMED = {'np.inf': float('inf'), 'numpy.inf': float('inf'), 'inf': float('inf'), '-np.inf': float('-inf'), '-numpy.inf': float('-inf'), '-inf': float('-inf'),
         'np.nan': 'nan', 'numpy.nan': 'nan', 'nan': 'nan', 'math.inf': float('inf'), "float('inf')": float('inf'), "-float('inf')": float('-inf'), "float('-inf')": float('-inf'),
         "float('nan')": 'nan', 'math.nan': 'nan'}
UNKNOWN = object()


def literal(text):
    text = text.strip()
    if text in NAMED:
        return NAMED[text]
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return UNKNOWN


def stated(text):
    """The default a description states, or UNKNOWN."""
    m = re.search(r'\bdefault(?:s to)?\b\s*[:=]?\s*(?:is\s+)?(\S.*)$', text)
    if m:
        t = m.group(1)
    else:
        m = re.match(r'(?:str|string|float|int|bool|boolean|number)\s*,\s*(\S.*)$', text)
        if not m:
            return UNKNOWN
        t = m.group(1)
    t = t.strip()
    for cut in (t, t.rstrip('.;,) '), re.split(r'[\s,;)]', t)[0].rstrip('.;,) ')):
        v = literal(cut)
        if v is not UNKNOWN:
            return v
    return UNKNOWN


def default_of(fn, mod, p):
    """The default in the signature: a value, UNKNOWN or None if it must be given."""
    a = fn.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    if p not in d:
        return None, False
    e = d[p]
    v = literal(ast.unparse(e))
    if v is UNKNOWN and isinstance(e, ast.Name):
        vals = [s.value for s in mod.tree.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets)]
        if len(vals) == 1:
            v = literal(ast.unparse(vals[0]))
    return v, True


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def influence(R):
    """Parameters that occur in what the function does beside refusing to work."""
    out = {}

    seen = set()

    def add(t, what):
        for y in walk(t):
            if y.op == 'Param':
                out.setdefault(y.a[0], set()).add(what)
            elif y.op == 'Mu' and (y, what) not in seen:
                seen.add((y, what))
                for x in mu_sources(y, R):
                    add(x, what)
    for e in R.events:
        if e.kind in ('raise', 'enter', 'leave'):
            continue
        what = 'prints' if e.kind == 'call' and e.name == 'builtins.print' else 'effect'
        for t in list(e.args or ()) + list((e.kw or {}).values()) + ([e.recv] if e.recv is not None else []) + list(e.pc):
            add(t, what)
    if R.value is not None:
        add(R.value, 'result')
    return out


@rule('C22')
def c22(c):
    """Documentation of the parameters is read from the docstrings; each function is interpreted with every argument unknown, and the terms of its results, effects and their
    conditions are searched for the arguments."""
    P = c.ctx.project
    from .state import Program
    prog = Program(P)
    names = [q for q in exported(P) + list(ALSO) if q in prog.funcs and '.huddle_test.' not in q]
    for q in names:
        m, fn = prog.funcs[q]
        doc = described(fn)
        where = f'{m.rel}:{fn.lineno}'
        for p, text in doc.items():
            want = stated(text)
            if want is UNKNOWN:
                continue
            got, has = default_of(fn, m, p)
            if has and got is UNKNOWN:
                c.note(f'{q}: default of {p} not evaluated')
                continue
            c.ob(G_DEF, has and same(got, want), f'{q}: {p}', f'documented {want!r}, but ' + (f'it is {got!r}' if has else 'it must be given'), where)
        if not doc:
            continue
        try:
            R = c.ctx.run(q)
        except Exception as e:      # noqa
            c.note(f'{q} not interpreted: {e}')
            continue
        used = influence(R)
        for p in doc:
            lost = p not in used
            c.ob(G_EFF, not lost, f'{q}: {p}', f'the argument {p} is documented, but nothing returned, written or printed depends on it', where)
        for e in R.events:
            if e.kind != 'enter' or e.name not in prog.funcs or e.name == q or not e.extra:
                continue
            g = prog.funcs[e.name][1]
            if not (e.name in names):
                continue
            effects = effective(c, e.name)
            for p in doc:
                t = e.extra.get(p)
                if t is None or p not in [x.arg for x in g.args.args + g.args.kwonlyargs] or p not in effects:
                    continue
                ok = comes_from(t, p, R) or p not in used
                c.ob(G_PASS, ok, f'{q} -> {e.name}: {p}', f'{e.name} is called with {show(t)[:120]} as {p} instead of the {p} given', e.site)
    c.need(G_EFF, 50, 'documented arguments')
    c.need(G_DEF, 15, 'documented defaults')


def comes_from(t, p, R, depth=0, seen=()):
    for y in walk(t):
        if y.op == 'Param' and y.a[0] == p:
            return True
        if y.op == 'Mu' and y not in seen and depth < 6:
            if any(comes_from(x, p, R, depth + 1, tuple(seen) + (y,)) for x in mu_sources(y, R)):
                return True
    return False


_EFF = {}


def effective(c, q):
    k = (id(c.ctx), q)
    if k not in _EFF:
        try:
            _EFF[k] = set(influence(c.ctx.run(q)))
        except Exception:       # noqa
            _EFF[k] = set()
    return _EFF[k]
