"""C29: the same histories in processes with different hash orders and different pasts."""
import json
import os
import subprocess
import sys

from .. import c29child
from ..core import Cases, HarnessError, Mismatch, REPO, VERIF, short

ASSUMPTIONS = ['linked objects have hashes of their own that do not change', 'memory addresses vary between the processes but are not enumerated']

#: with these seeds the names and attribute keys involved appear in sets in every possible order (measured again in every run)
SEEDS = [1, 2, 8, 70, 87, 242, 3, 5, 7, 10, 12, 14, 17, 19, 24, 47, 88, 92, 116, 163, 173, 318, 485, 28, 130]


def child(seed, activity, backwards, tier, only=None):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=REPO + os.pathsep + VERIF)
    job = {'activity': activity, 'backwards': backwards, 'tier': tier}
    if only is not None:
        job['only'] = only
    run = subprocess.run([sys.executable, '-B', '-m', 'mc.c29child', json.dumps(job)], env=env, capture_output=True, text=True, timeout=800, cwd=VERIF)
    if run.returncode != 0:
        raise Mismatch(f'the process with hash seed {seed} after {activity!r} ended with {run.returncode}:\n{run.stderr[-3000:]}')
    return json.loads(run.stdout)


_reference = {}


def reference(tier):
    if tier not in _reference:
        _reference[tier] = child(0, 'nothing', False, tier)
    return _reference[tier]


def cases(tier):
    reference(tier)     # before the workers start
    for seed in SEEDS:
        yield (seed, 'nothing', False, tier)
    for activity in c29child.ACTIVITIES:
        if tier == 'quick':
            yield (0, activity, False, tier)
            yield (28, activity, True, tier)
        else:
            for seed in [0] + SEEDS:
                for backwards in (False, True):
                    yield (seed, activity, backwards, tier)


def run(ctx, case):
    seed, activity, backwards, tier = case
    wanted = reference(tier)['results']
    said = child(seed, activity, backwards, tier)
    got = said['results']
    if sorted(got) != sorted(wanted):
        raise HarnessError('the processes went through different histories')
    for key in wanted:
        if got[key] != wanted[key]:
            parts = [p for p in list(wanted[key]) + list(got[key]) if wanted[key].get(p) != got[key].get(p)]
            only = int(key) if key.isdigit() else key
            history = c29child.specs(tier)[only] if key.isdigit() else key
            texts = []
            for s, a, b in ((0, 'nothing', False), (seed, activity, backwards)):
                try:
                    texts.append(child(s, a, b, tier, only)['results'][key].get(parts[0]))
                except Mismatch as e:
                    texts.append(str(e))
            raise Mismatch(f'history {history}: {parts[0]!r} differs between hash seed 0 in a new process and hash seed {seed} after {activity!r}{", histories backwards" if backwards else ""} '
                           f'({len(parts)} parts differ):\n{short(texts[0])}\n{short(texts[1])}')
        ctx.step(len(wanted[key]))
    for i, order in enumerate(said['orders']):
        ctx.outcome((i, tuple(order)))
    for key, parts in wanted.items():
        ctx.state((key, sorted(parts.items())))


def stages(tier):
    return [Cases('processes', lambda: cases(tier), run, f'{len(SEEDS) + 1} hash seeds covering every order of the names and attribute keys in sets (distinct orders realised: see distinct_outcomes), '
                  f'{len(c29child.ACTIVITIES)} activities before, histories forwards and backwards; {len(c29child.specs(tier))} histories per process, compared with a new process', chunk=1)]
