#!/usr/bin/env python3
"""run.py <property> quick|thorough   -  model-check one property against /repo's working tree"""
import os
import shutil
import sys
import tempfile

PYTHON = '/opt/venv/bin/python'


def enter():
    """re-executes under the project's interpreter, with hash order fixed and no stale byte code"""
    if os.environ.get('MC_INSIDE') == '1':
        return
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get('MC_REPO', '/repo')
    env = dict(os.environ)
    scratch = tempfile.mkdtemp(prefix='mc-')  # workers that are ended leave their files here
    cache = os.path.join(scratch, 'pyc')
    env.update(MC_INSIDE='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=cache, TMPDIR=scratch,
               PYTHONPATH=repo + os.pathsep + here, PYTHONIOENCODING='utf-8', PYTHONUTF8='1', LC_ALL='C.UTF-8')
    python = PYTHON if os.path.exists(PYTHON) else sys.executable
    try:
        code = os.spawnve(os.P_WAIT, python, [python, os.path.abspath(sys.argv[0])] + sys.argv[1:], env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code if code >= 0 else 2)


def check_repo():
    import abstract
    repo = os.path.realpath(os.environ.get('MC_REPO', '/repo'))
    if not os.path.realpath(abstract.__file__).startswith(repo + os.sep):
        print(f'abstract was imported from {abstract.__file__}, not from {repo}', file=sys.stderr)
        sys.exit(2)


if __name__ == '__main__':
    enter()
    check_repo()
    from mc import core
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        code = core.Run(sys.argv[1].upper(), tier).run()
    except core.HarnessError as e:
        print(f'{sys.argv[1]}: no answer: {e}', file=sys.stderr)
        code = 2
    sys.exit(code)
