"""Runs the quick checks against the planted bugs of /verif/seeded, each in a
scratch copy of /repo, and writes the outcomes to /verif/SEEDED.md.

    matrix.py [-j N] [--all] [ID ...]     (--all: every check on every bug;
the rows of bugs that are not run are kept)"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='1',
           VERIF_TIER='quick')


def one(bug, props, workers):
    wt = tempfile.mkdtemp(prefix='mx_', dir='/tmp')
    os.rmdir(wt)
    try:
        subprocess.run(['cp', '-a', '/repo', wt], check=True)
        r = subprocess.run(['git', 'apply', '/verif/seeded/%s/patch.diff' %
                            bug], cwd=wt)
        if r.returncode:
            return bug, None
        hit = []
        for p in props:
            r = subprocess.run(
                [PY, 'checks/run.py', p, '--tier', 'quick', '--noevidence',
                 '--workers', str(workers)], cwd='/verif', text=True,
                capture_output=True, env=dict(ENV, FREESIF_REPO=wt))
            if r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout:
                hit.append(p)
        return bug, hit
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('--all', action='store_true')
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    every = [json.loads(x)['id'] for x in open('/verif/properties.jsonl')]
    ids = a.ids or sorted(os.listdir('/verif/seeded'))
    out = {}
    with cf.ThreadPoolExecutor(a.j) as ex:
        jobs = []
        for b in ids:
            m = json.load(open('/verif/seeded/%s/meta.json' % b))
            jobs.append(ex.submit(one, b, every if a.all else
                                  [m['property']], max(1, 8 // a.j)))
        for j in cf.as_completed(jobs):
            b, hit = j.result()
            out[b] = hit
            print(b, hit, flush=True)
    # rows of bugs which are not run stay as they are
    rows = {}
    if os.path.isfile('/verif/SEEDED.md'):
        for x in open('/verif/SEEDED.md'):
            b = x.split('|')[1].strip() if x.startswith('| ') else ''
            if os.path.isdir('/verif/seeded/' + b) and b not in out:
                rows[b] = x
    with open('/verif/SEEDED.md', 'w') as f:
        f.write('# Planted bugs and the checks that catch them\n\n'
                'Written by tools/matrix.py (quick tier, seed 1).\n\n'
                '| bug | property | what it breaks | needs | caught by |\n'
                '|---|---|---|---|---|\n')
        for b in sorted(set(out) | set(rows)):
            if b in rows:
                f.write(rows[b])
                continue
            m = json.load(open('/verif/seeded/%s/meta.json' % b))
            f.write('| {} | {} | {} | {} | {} |\n'.format(
                b, m['property'], m['what_it_breaks'].replace('|', '/'),
                m['needs'].replace('|', '/'),
                'does not apply' if out[b] is None else
                ' '.join(out[b]) or '**missed**'))


main()
