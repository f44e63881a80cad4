"""Runs the checks against the planted bugs in seeded/ (or those named), each on a scratch copy of /repo.

    python3-vt tools/matrix.py [--all] [--seed N] [ID ...]

Without --all only the check of the bug's own property runs.  Prints one line per bug: caught (and by which checks).
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--seed', default='1')
    a = ap.parse_args()
    seeded = os.path.join(ROOT, 'seeded')
    with open(os.path.join(ROOT, 'MANIFEST.json'), encoding='utf-8') as f:
        checks = [c['property'] for c in json.load(f)['checks']]
    for b in a.ids or sorted(os.listdir(seeded)):
        d = os.path.join(seeded, b)
        with open(os.path.join(d, 'meta.json'), encoding='utf-8') as f:
            prop = json.load(f)['property']
        w = tempfile.mkdtemp(prefix='kimatrix-')
        try:
            repo = os.path.join(w, 'repo')
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
            res = {}
            for c in (checks if a.all else [prop]):
                env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=a.seed, VERIF_TIER='quick')
                r = subprocess.run(['python3-vt', os.path.join(ROOT, 'run_check.py'), c], env=env,
                                   capture_output=True, text=True)
                res[c] = r.returncode
        finally:
            shutil.rmtree(w, ignore_errors=True)
        caught = [c for c, v in res.items() if v == 1]
        odd = [f'{c}={v}' for c, v in res.items() if v not in (0, 1)]
        print(f'{b:26} {prop} {"caught" if prop in caught else "MISSED"}  by {" ".join(caught) or "-"} {" ".join(odd)}',
              flush=True)


if __name__ == '__main__':
    main()
