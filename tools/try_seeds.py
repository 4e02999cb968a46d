#!/usr/bin/env python3
"""try_seeds.py [id,id,...|-] [check,check,...|all]  -  runs the checks against planted bugs, each in its own scratch copy

Without checks, the check of the bug's own property is run. Prints exit code and the VIOLATION line's property.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = sorted(os.path.basename(p) for p in glob.glob(f'{HERE}/seeded/*'))
    if len(sys.argv) > 1 and sys.argv[1] != '-':
        ids = sys.argv[1].split(',')
    for i in ids:
        meta = json.load(open(f'{HERE}/seeded/{i}/meta.json'))
        checks = [meta['property']]
        if len(sys.argv) > 2:
            checks = [f'C{k:02d}' for k in range(1, 34)] if sys.argv[2] == 'all' else sys.argv[2].split(',')
        scratch = tempfile.mkdtemp(prefix='seed-')
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', scratch + '/repo'], check=True)
            subprocess.run(['git', 'apply', f'{HERE}/seeded/{i}/patch.diff'], cwd=scratch + '/repo', check=True)
            for c in checks:
                t = time.time()
                r = subprocess.run([sys.executable, f'{HERE}/mc/run.py', c, 'quick'], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, MC_REPO=scratch + '/repo', VERIF_SEED='1', VERIF_TIER='quick'))
                hit = r.returncode == 1 and f'VIOLATION property={c}' in r.stdout
                print(f'{i:36s} {c} rc={r.returncode} {"caught" if hit else "MISSED" if c == meta["property"] else "-"} {time.time() - t:.0f}s', flush=True)
                if r.returncode not in (0, 1):
                    print(r.stderr[-1500:])
        finally:
            shutil.rmtree(scratch)


main()
