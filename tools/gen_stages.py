#!/usr/bin/env python3
"""Writes /verif/STAGES.md: every stage of every check with its bound, for both tiers (what the checks themselves declare)."""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('MC_REPO', '/repo'))
from mc import core  # noqa


def main():
    lines = ['# Stages of the checks', '',
             'Written by `tools/gen_stages.py` from the stages the checks declare. *depth* is the number of operations of a history; a stage without depth',
             'is a finite list of cases. All of each listed space is executed; the numbers covered are in `evidence/<id>.json`.', '']
    for i in range(1, 34):
        pid = f'C{i:02d}'
        module = importlib.import_module(f'mc.checks.{pid.lower()}')
        lines += [f'## {pid}', '', (module.__doc__ or '').strip(), '']
        tiers = {t: module.stages(t) for t in ('quick', 'thorough')}
        names = []
        for t in tiers:
            for s in tiers[t]:
                if s.name not in names:
                    names.append(s.name)
        lines += ['| stage | quick | thorough |', '|---|---|---|']
        for n in names:
            cells = []
            for t in tiers:
                s = next((s for s in tiers[t] if s.name == n), None)
                cells.append('-' if s is None else s.bound + (f'; depth {s.depth}' if isinstance(s, core.Histories) else ''))
            cells = [c.replace('|', '\\|') for c in cells]
            lines.append(f'| {n} | {cells[0]} | {cells[1] if cells[1] != cells[0] else "the same"} |')
        assumptions = getattr(module, 'ASSUMPTIONS', [])
        if assumptions:
            lines += ['', 'Assumes: ' + '; '.join(assumptions) + '.']
        lines.append('')
    with open(os.path.join(HERE, 'STAGES.md'), 'w') as f:
        f.write('\n'.join(lines))


main()
