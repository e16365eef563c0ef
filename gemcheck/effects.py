"""File-system effects of an analysed entry point, and where each affected path comes from."""
from .terms import mk, Const, is_const, cval, show, walk, T

READ, WRITE = 'read', 'write'

# external function -> [(argument index or keyword, what happens to that path)]
CALLS = {
    'os.remove': [(0, 'delete')], 'os.unlink': [(0, 'delete')], 'os.rmdir': [(0, 'delete')],
    'os.removedirs': [(0, 'delete')], 'shutil.rmtree': [(0, 'delete')],
    'os.rename': [(0, 'delete'), (1, 'write')], 'os.replace': [(0, 'delete'), (1, 'write')],
    'os.renames': [(0, 'delete'), (1, 'write')], 'shutil.move': [(0, 'delete'), (1, 'write')],
    'shutil.copy': [(0, 'read'), (1, 'write')], 'shutil.copyfile': [(0, 'read'), (1, 'write')],
    'shutil.copy2': [(0, 'read'), (1, 'write')], 'shutil.copytree': [(0, 'read'), (1, 'write')],
    # a link gives the file a second name, through which it may be written
    'os.link': [(0, 'write'), (1, 'write')], 'os.symlink': [(0, 'write'), (1, 'write')],
    'os.truncate': [(0, 'write')], 'os.chmod': [(0, 'write')], 'os.utime': [(0, 'write')],
    'scipy.io.wavfile.write': [(0, 'write')],
    'numpy.save': [(0, 'write')], 'numpy.savetxt': [(0, 'write')], 'numpy.savez': [(0, 'write')],
    'numpy.load': [(0, 'read')], 'numpy.loadtxt': [(0, 'read')], 'numpy.genfromtxt': [(0, 'read')],
    'numpy.fromfile': [(0, 'read')],
    'matplotlib.pyplot.savefig': [(0, 'write')],
    'os.makedirs': [(0, 'mkdir')], 'os.mkdir': [(0, 'mkdir')],
    'pandas.read_csv': [(0, 'read')], 'pandas.read_table': [(0, 'read')], 'obspy.read': [(0, 'read')],
    'obspy.read_inventory': [(0, 'read')], 'glob.glob': [(0, 'read')], 'glob.iglob': [(0, 'read')],
    'os.listdir': [(0, 'read')], 'os.scandir': [(0, 'read')], 'os.path.getsize': [(0, 'read')],
    'libc.stdio.fopen': [(0, 'fopen')],
}
EXTERNAL = ('os.system', 'os.popen', 'subprocess.run', 'subprocess.call', 'subprocess.check_call',
            'subprocess.check_output', 'subprocess.Popen')
METHODS = {'to_csv': [(0, 'write')], 'to_pickle': [(0, 'write')], 'to_json': [(0, 'write')], 'to_excel': [(0, 'write')],
           'savefig': [(0, 'write')], 'output': [(0, 'write')], 'tofile': [(0, 'write')],
           'write': [(0, 'write')],   # obspy Stream/Trace/Inventory; file handles are told apart by receiver
           'unlink': [('recv', 'delete')], 'rmdir': [('recv', 'delete')], 'write_text': [('recv', 'write')],
           'write_bytes': [('recv', 'write')], 'touch': [('recv', 'write')], 'mkdir': [('recv', 'mkdir')],
           'hardlink_to': [(0, 'write'), ('recv', 'write')], 'symlink_to': [(0, 'write'), ('recv', 'write')],
           'rename': [('recv', 'delete'), (0, 'write')]}
HANDLE_SOURCES = ('builtins.open', 'io.open', 'tempfile.TemporaryFile', 'io.StringIO', 'io.BytesIO')


def is_handle(t, R, depth=0):
    if t is None or depth > 6:
        return False
    if t.op == 'Call' and t.a[0] in HANDLE_SOURCES:
        return True
    if t.op == 'MCall' and t.a[1] in ('open',):
        return True
    if t.op == 'Fld' and t.a[1] in ('stdout', 'stderr'):
        return True
    if t.op == 'Ext' and t.a[0] in ('sys.stdout', 'sys.stderr'):
        return True
    if t.op == 'Phi':
        return is_handle(t.a[1], R, depth + 1) or is_handle(t.a[2], R, depth + 1)
    if t.op == 'Mu':
        return any(is_handle(x, R, depth + 1) for x in mu_sources(t, R))
    return False


def mu_sources(t, R):
    lp = R.interp.loops.get(t.a[1])
    if not lp:
        return []
    return [x[t.a[0]] for x in (lp.get('init') or {}, lp.get('next') or {}) if t.a[0] in x]


class Effect:
    def __init__(self, kind, path, ev, mode=None):
        self.kind, self.path, self.ev, self.mode = kind, path, ev, mode

    @property
    def site(self):
        return self.ev.site


def effects(R):
    """Every effect (kind, path term, event) that the entry point can have on files."""
    out = []
    for e in R.events:
        if e.kind == 'call':
            n = e.name
            if n in EXTERNAL:
                out.append(Effect('external', mk('Const', n), e))
            elif n in ('builtins.open', 'io.open'):
                m = e.arg(1, 'mode') if (len(e.args) > 1 or 'mode' in (e.kw or {})) else Const('r')
                p = e.arg(0, 'file')
                ms = cval(m)
                if isinstance(ms, str):
                    k = 'read' if not set(ms) & set('wax+') else 'write'
                    out.append(Effect(k, p, e, ms))
                else:
                    out.append(Effect('write', p, e, '?'))
            elif n == 'libc.stdio.fopen':
                ms = cval(e.arg(1, 'mode'))
                if isinstance(ms, bytes):
                    ms = ms.decode('latin-1')
                k = 'read' if isinstance(ms, str) and not set(ms) & set('wa+') else 'write'
                out.append(Effect(k, e.arg(0, 'path'), e, ms))
            elif n == 'logging.basicConfig':
                p = (e.kw or {}).get('filename')
                if p is not None:
                    fm = cval((e.kw or {}).get('filemode', Const('a')))
                    out.append(Effect('write', p, e, fm))
            elif n in CALLS:
                for i, k in CALLS[n]:
                    if len(e.args) > i:
                        out.append(Effect(k, e.args[i], e))
                    else:
                        for kn in ('dst', 'path', 'name', 'fname', 'file', 'filename', 'filepath_or_buffer', 'src', 'pathname'):
                            if kn in (e.kw or {}):
                                out.append(Effect(k, e.kw[kn], e))
                                break
        elif e.kind == 'mcall' and e.name in METHODS:
            if e.name == 'write' and is_handle(e.recv, R):
                continue
            if e.name in ('rename',) and not is_path(e.recv):
                continue
            for i, k in METHODS[e.name]:
                if i == 'recv':
                    out.append(Effect(k, e.recv, e))
                elif len(e.args) > i:
                    m = (e.kw or {}).get('mode')
                    p, m = e.args[i], (cval(m) if m is not None else 'w')
                    if p.op == 'Call' and p.a[0] in HANDLE_SOURCES[:2] and p.a[1]:
                        m = cval(p.a[1][1]) if len(p.a[1]) > 1 else dict(p.a[2]).get('mode', m)
                        p = p.a[1][0]
                    out.append(Effect(k, p, e, m))
                else:
                    for kn in ('path_or_buf', 'fname', 'name', 'filename', 'path_or_file_object'):
                        if kn in (e.kw or {}):
                            m = e.kw.get('mode')
                            out.append(Effect(k, e.kw[kn], e, cval(m) if m is not None else 'w'))
                            break
    return out


def is_path(t):
    return t is not None and any(x.op == 'Call' and str(x.a[0]).startswith('pathlib.') for x in walk(t))


# ------------------------------------------------------------------ where a path comes from
WRAP_ELEM = {'builtins.sorted', 'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.reversed', 'numpy.array',
             'numpy.unique', 'numpy.sort', 'numpy.asarray', 'builtins.filter'}
WRAP_PATH = {'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser', 'builtins.str', 'pathlib.Path',
             'os.fspath', 'os.path.dirname', 'os.path.expandvars', 'pathlib.PurePath'}


def leads(t, R, seen=None):
    """Set of (origin, following constant text or None): origins of the leading component of path t.

    origins: Param, Const, Listing(pattern) (an element of a directory listing), Base(x) (file name part of x),
    or the opaque term itself."""
    seen = set() if seen is None else seen
    if t is None or (t.id, 'p') in seen:
        return set()
    seen.add((t.id, 'p'))
    op = t.op
    if op == 'Const':
        return {(t, None)}
    if op == 'StrCat':
        i = 0
        parts = t.a[0] if t.a and isinstance(t.a[0], tuple) else t.a
        if parts[0].op == 'Const':
            return {(parts[0], None)}
        tail = cval(parts[1]) if len(parts) > 1 and isinstance(cval(parts[1]), str) else None
        return {(o, tl if tl is not None else tail) for o, tl in leads(parts[0], R, seen)}
    if op == 'Fmt':
        return leads(t.a[0], R, seen)
    if op == 'Phi':
        return leads(t.a[1], R, seen) | leads(t.a[2], R, seen)
    if op == 'Alt':
        out = set()
        for x in t.a[2:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T):
                    out |= leads(y, R, seen)
        return out or {(t, None)}
    if op == 'Mu':
        out = set()
        for x in mu_sources(t, R):
            out |= leads(x, R, seen)
        if any(o.op not in ('Param', 'Const', 'Listing', 'Base') for o, _ in out):
            # e.g. an option value chosen by a command line: the variable itself is the origin
            return {(t, None)} | {(o, tl) for o, tl in out if o.op in ('Param', 'Listing', 'Base')}
        return out or {(t, None)}
    if op == 'Call':
        n = t.a[0]
        if n in WRAP_PATH and t.a[1]:
            return {(o, tl if n != 'os.path.dirname' else tl) for o, tl in leads(t.a[1][0], R, seen)}
        if n == 'os.path.join' and t.a[1]:
            return {(o, tl if tl is not None else '/') for o, tl in leads(t.a[1][0], R, seen)}
        if n == 'os.path.basename' and t.a[1]:
            return {(mk('Base', t.a[1][0]), None)}
        if n in WRAP_ELEM and t.a[1]:
            return elems(t.a[1][0], R, seen)
    if op == 'Bin' and t.a[0] in ('/', '+'):
        return {(o, tl if tl is not None else '/') for o, tl in leads(t.a[1], R, seen)}
    if op == 'MCall':
        recv, name = t.a[0], t.a[1]
        if name in ('replace', 'strip', 'lower', 'upper', 'rstrip', 'format', 'joinpath', 'resolve', 'absolute', 'encode',
                    'with_suffix', 'as_posix', 'with_name', '__str__', 'expanduser'):
            return leads(recv, R, seen)
    if op == 'Fld' and t.a[1] in ('name', 'stem'):
        if is_path(t.a[0]):
            return {(mk('Base', t.a[0]), None)}
    if op == 'Fld' and t.a[1] == 'parent':
        return leads(t.a[0], R, seen)
    if op == 'Index':
        b, k = t.a[0], t.a[1]
        if b.op == 'Call' and b.a[0] == 'os.path.split' and b.a[1]:
            if cval(k) in (-1, 1):
                return {(mk('Base', b.a[1][0]), None)}
            return leads(b.a[1][0], R, seen)
        if b.op == 'Call' and b.a[0] == 'os.path.splitext' and b.a[1]:
            return leads(b.a[1][0], R, seen)
        if b.op == 'MCall' and b.a[1] in ('split', 'rsplit') and b.a[2] and cval(b.a[2][0]) in ('/', '\\') and cval(k) == -1:
            return {(mk('Base', b.a[0]), None)}
        es = elems(b, R, seen)
        if es:
            return es
    return {(t, None)}


def elems(t, R, seen):
    """Origins of the elements of a collection of paths."""
    if t is None or (t.id, 'e') in seen:
        return set()
    seen.add((t.id, 'e'))
    op = t.op
    if op == 'Call':
        if t.a[0] in ('glob.glob', 'glob.iglob') and t.a[1]:
            return {(mk('Listing', t.a[1][0]), None)}
        if t.a[0] in ('os.listdir', 'os.scandir') and t.a[1]:
            return {(mk('Base', t.a[1][0]), None)}
        if t.a[0] in WRAP_ELEM and t.a[1]:
            out = set()
            for x in t.a[1]:
                out |= elems(x, R, seen)
            return out
    if op == 'MCall':
        return elems(t.a[0], R, seen) if t.a[1] in ('copy', 'tolist', 'glob', 'iterdir') or True else set()
    if op == 'Phi':
        return elems(t.a[1], R, seen) | elems(t.a[2], R, seen)
    if op == 'Mu':
        out = set()
        for x in mu_sources(t, R):
            out |= elems(x, R, seen)
        return out
    if op in ('Bin',):
        return elems(t.a[1], R, seen) | elems(t.a[2], R, seen)
    if op in ('List', 'Tuple', 'Set'):
        out = set()
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T):
                    out |= leads(y, R, seen)
        return out
    if op == 'Comp':
        return leads(t.a[1], R, seen) if isinstance(t.a[1], T) else set()
    if op in ('Ref', 'OpenList'):
        ref = t.a[0] if op == 'OpenList' else t
        out = set()
        for e in R.events:
            if e.kind in ('append', 'extend') and e.recv is ref:
                for x in e.args:
                    out |= (leads if e.kind == 'append' else elems)(x, R, seen)
        return out
    if op == 'Index' and t.a[1].op in ('Slice',):
        return elems(t.a[0], R, seen)
    if op == 'Slice':
        return elems(t.a[0], R, seen) if isinstance(t.a[0], T) else set()
    if op == 'Index':
        return elems(t.a[0], R, seen)
    return set()
