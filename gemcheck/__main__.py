import os
import sys
import traceback

from .check import Ctx, Check, finish
from .loader import AnalysisBroken
from . import rules


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    fn = rules.RULES.get(pid)
    if fn is None:
        print(f'no rule for {pid}')
        return 3
    sys.setrecursionlimit(20000)
    try:
        c = Check(pid, Ctx(), tier, seed)
        try:
            fn(c)
        except Exception as e:
            # a part of the tree the rule cannot follow: what was decided so far counts, the rest is named
            if not c.n:
                raise
            traceback.print_exc()
            c.undecided.append(f'{type(e).__name__}: {e}')
        if tier == 'thorough':
            from . import sensitivity
            sensitivity.run(c)
        return finish(c, (fn.__doc__ or '').strip())
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={pid}: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid}: internal error')
        return 2


sys.exit(main(sys.argv[1:]))
