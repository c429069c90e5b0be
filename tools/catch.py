#!/usr/bin/env python3
"""Development aid: runs checks against the planted bugs in scratch copies and prints which catch which.

usage: catch.py [--all] [IDS...]     (--all: every check, not only the check of the bug's property)"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
SEEDED = os.path.join(VERIF, 'seeded')


def one(args):
    id, props, base, workers, seed = args
    meta = json.load(open(os.path.join(SEEDED, id, 'meta.json')))
    d = tempfile.mkdtemp(prefix='catch-', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        subprocess.run(['git', 'apply', os.path.join(SEEDED, id, 'patch.diff')], cwd=r, check=True)
        res = []
        for p in props or [meta['property']]:
            t = time.time()
            q = subprocess.run([sys.executable, 'check.py', p], cwd=base, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=str(seed), VERIF_TIER='quick', VERIF_WORKERS=str(workers)))
            ok = q.returncode == 1 and 'VIOLATION property=%s ' % p in q.stdout
            res.append((p, 'caught' if ok else 'quiet' if q.returncode == 0 else 'rc=%d' % q.returncode, round(time.time() - t, 1)))
        return id, meta['property'], res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    every = '--all' in args
    want = tuple(a for a in args if not a.startswith('--'))
    ids = [i for i in sorted(os.listdir(SEEDED)) if i.startswith(want or '')]
    props = ['C%02d' % k for k in range(1, 28)] if every else None
    base = tempfile.mkdtemp(prefix='catchbase-', dir='/tmp')
    shutil.copytree(VERIF, base, dirs_exist_ok=True, ignore=shutil.ignore_patterns('.git', 'replays', 'evidence', 'seeded'))
    seed = os.environ.get('VERIF_SEED', '1')
    with cf.ThreadPoolExecutor(4) as ex:
        for id, prop, res in ex.map(one, [(i, props, base, 2, seed) for i in ids]):
            own = dict((p, r) for p, r, t in res).get(prop)
            print('%-28s %s %-7s %s' % (id, prop, own, ' '.join(p for p, r, t in res if r == 'caught') if every else res[0][2]),
                  [x for x in res if x[1].startswith('rc')] or '')
            sys.stdout.flush()
    shutil.rmtree(base)


if __name__ == '__main__':
    main()
