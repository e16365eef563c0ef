"""One check: counts obligations, collects violations, matches known findings, writes the evidence."""
import json
import os
import sys
import time

from .loader import Project, AnalysisBroken
from .interp import Interp
from .terms import show, BYID

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx:
    """The project under analysis plus a memo of analysed entry points."""

    def __init__(self, repo=None, overlay=None):
        self.project = Project(repo, overlay)
        self.memo = {}
        self.analysed = []
        self._base = None

    def run(self, qual, call_over=None, no_inline=(), **params):
        key = (qual, tuple(sorted((k, v.id) for k, v in (call_over or {}).items())), tuple(sorted(no_inline)),
               tuple(sorted((k, v.id) for k, v in params.items())))
        r = self.memo.get(key)
        if r is None:
            I = self.fresh()
            I.call_over = dict(call_over or {})
            I.no_inline = set(no_inline)
            r = I.run(qual, **params)
            self.memo[key] = r
            self.analysed.append((qual, len(r.events)))
        return r

    def interp(self):
        """An interpreter that has evaluated every module once."""
        if self._base is None:
            self._base = Interp(self.project)
            for m in sorted(self.project.modules):
                self._base.module_env(m)
        return self._base

    def fresh(self):
        b = self.interp()
        I = Interp(self.project)
        I.modenvs = {k: dict(v) for k, v in b.modenvs.items()}
        for a in ('gheap', 'fninfo', 'clsinfo', 'loops', 'tries_info', 'modevents'):
            setattr(I, a, dict(getattr(b, a, {})))
        return I

    def functions(self):
        """Every top-level function of the package: (qualified name, ast node)."""
        import ast
        for n, m in self.project.modules.items():
            for s in m.tree.body:
                if isinstance(s, ast.FunctionDef):
                    yield n + '.' + s.name, s

    def has(self, qual):
        return any(q == qual for q, _ in self.functions())


class Check:
    def __init__(self, pid, ctx, tier='quick', seed=1):
        self.pid, self.ctx, self.tier, self.seed = pid, ctx, tier, seed
        self.t0 = time.time()
        self.n = 0
        self.groups = {}
        self.bad = {}          # key -> message
        self.notes = []
        self.undecided = []
        self.rule = ''
        self.assume = []

    # an obligation of a named group; key: stable text (no line numbers) identifying the construct
    def ob(self, group, ok, key='', msg='', site=None):
        self.n += 1
        g = self.groups.setdefault(group, [0, 0])
        g[0] += 1
        if ok:
            g[1] += 1
            return True
        k = f'{group}: {key}' if key else group
        where = ''
        if site:
            where = f' [{site}]'
        self.bad.setdefault(k, (msg or 'obligation fails') + where)
        return False

    def need(self, group, least, what):
        """Say so if the rule no longer finds the constructs it judges."""
        n = self.groups.get(group, [0, 0])[0]
        if n < least:
            self.undecided.append(f'{group}: found {n} instance(s), expected at least {least} ({what})')

    def note(self, s):
        self.notes.append(s)


def known_findings(pid):
    """key -> text, for `finding: property=<id> key=<key> :: <what fails>` lines."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as fh:
            for line in fh:
                line = line.rstrip('\n')
                if line.startswith('finding: property=%s key=' % pid):
                    body = line.split(' key=', 1)[1]
                    key, _, txt = body.partition(' :: ')
                    out[key.strip()] = txt.strip()
    return out


def finish(c, explanation):
    """Writes the evidence and replay files, prints the verdict; returns the exit status."""
    kf = known_findings(c.pid)
    viol = {k: v for k, v in c.bad.items() if k not in kf}
    found = {k: v for k, v in c.bad.items() if k in kf}
    ed = os.path.join(VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    cov = {
        'explanation': explanation,
        'obligations': c.n,
        'discharged': sum(g[1] for g in c.groups.values()),
        'obligations_by_rule': {k: {'checked': g[0], 'holds': g[1]} for k, g in sorted(c.groups.items())},
        'entry_points_analysed': [{'entry': q, 'events': n} for q, n in c.ctx.analysed],
        'functions_in_scope': c.ctx.project.count_functions(),
        'modules': sorted(m.rel for m in c.ctx.project.modules.values()),
        'notes': c.notes[:40],
        'undecided': c.undecided[:40],
        'known_findings': sorted(found),
    }
    ev = {'property': c.pid, 'tier': c.tier, 'seed': c.seed, 'level': 'other', 'coverage': cov,
          'assumptions': c.assume, 'wall_s': round(time.time() - c.t0, 3), 'violations': len(viol)}
    with open(os.path.join(ed, c.pid + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    rp = os.path.join(ed, c.pid + '.replay.txt')
    print(f'{c.pid}: {cov["discharged"]} of {c.n} obligations hold; entry points: '
          + ', '.join(f'{q.replace("gemlog.", "")}({n})' for q, n in c.ctx.analysed if n > 50)[:600])
    for k, g in sorted(c.groups.items()):
        print(f'  {k}: {g[1]}/{g[0]}')
    for u in c.undecided[:40]:
        print(f'UNDECIDED: property={c.pid} {u}')
    for k in sorted(found):
        print(f'KNOWN-FINDING: property={c.pid} {kf[k]} ({k})')
    if os.path.exists(rp):
        os.remove(rp)
    if viol:
        with open(rp, 'w', encoding='utf-8') as fh:
            for k, v in sorted(viol.items()):
                fh.write(f'{k}\n    {v}\n')
            fh.write(f'\nrepeat: cd {VERIF} && ./check {c.pid} {c.tier}\n')
        for k, v in sorted(viol.items()):
            print(f'  violated: {k}: {v}')
        print(f'VIOLATION property={c.pid} replay={rp}')
        return 1
    return 0
