"""Thorough tier: re-run the rule on in-memory variants of the source, to show that it can tell them apart.

mutants/<ID>.py defines MUTANTS = [(file, old text, new text, what it does)] (the rule has to report each one) and
EQUIVALENTS = [(file, old text, new text, what it does)] (the rule has to stay quiet).  A variant whose old text no
longer occurs in the source is skipped.  The outcome goes to the evidence; it never decides the verdict on the tree."""
import importlib
import os

from .check import Ctx, Check, known_findings
from .loader import AnalysisBroken, REPO
from .rules import RULES


def variants(pid):
    try:
        m = importlib.import_module('.mutants.' + pid, __package__)
    except ImportError:
        return [], []
    return getattr(m, 'MUTANTS', []), getattr(m, 'EQUIVALENTS', [])


def source(f):
    with open(os.path.join(REPO, f), encoding='utf-8') as fh:
        return fh.read()


def apply(v):
    f = v[0]
    src = source(f)
    if v[1] not in src:
        return None
    return {f: src.replace(v[1], v[2], 1)}


def judge(pid, overlay, tier='quick'):
    """(verdict, details): 'quiet', 'reported' or 'broken'."""
    try:
        c = Check(pid, Ctx(overlay=overlay), tier)
        RULES[pid](c)
    except AnalysisBroken as e:
        return 'broken', [str(e)]
    except Exception as e:      # noqa
        import traceback
        return 'broken', [traceback.format_exc()[-600:]]
    kf = known_findings(pid)
    bad = [k for k in c.bad if k not in kf]
    return ('reported' if bad else 'quiet'), [f'{k}: {c.bad[k]}' for k in bad]


def run(c):
    mut, eqv = variants(c.pid)
    res = []
    for kind, vs, want in (('mutant', mut, 'reported'), ('equivalent', eqv, 'quiet')):
        for v in vs:
            ov = apply(v)
            if ov is None:
                res.append((kind, v[3], 'skipped'))
                continue
            got, det = judge(c.pid, ov)
            res.append((kind, v[3], 'as expected' if got == want else f'UNEXPECTED: {got}'))
    for kind, what, got in res:
        c.note(f'{kind}: {what}: {got}')
        print(f'  sensitivity {kind}: {what}: {got}')


def main(argv):
    """python -m gemcheck.sensitivity ID...: developer view of the variants."""
    import sys
    from concurrent.futures import ProcessPoolExecutor
    sys.setrecursionlimit(20000)
    jobs = []
    for pid in argv or sorted(RULES):
        mut, eqv = variants(pid)
        for want, vs in (('reported', mut), ('quiet', eqv)):
            for v in vs:
                jobs.append((pid, want, v))
    with ProcessPoolExecutor(8) as ex:
        for (pid, want, v), (got, det) in zip(jobs, ex.map(_job, jobs)):
            flag = '' if got == want else '   <<<<<<'
            print(f'{pid} {v[3]}: {got}{flag}')
            if flag or '-v' in argv:
                for d in det[:3]:
                    print('      ', d[:500])


def _job(j):
    import sys
    sys.setrecursionlimit(20000)
    ov = apply(j[2])
    if ov is None:
        return 'skipped', []
    return judge(j[0], ov)


if __name__ == '__main__':
    import sys
    main(sys.argv[1:])
