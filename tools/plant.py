"""Make and verify a planted bug:  plant.bug(id, property, edits, demo, needs, breaks)

edits: list of (file below freesif/, old text, new text[, occurrence]).
A bug is kept in /verif/seeded/<id> if the patch applies, the stable tests
pass with it and the demonstration separates the two trees.  Also runs the
quick check of the property against it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEED = '/verif/seeded'
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
KEEP_SCRATCH = []


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True,
                          **kw)


def make(id, prop, edits, demo, needs, breaks, tests=True, check=True):
    wt = tempfile.mkdtemp(prefix='wt_', dir='/tmp')
    os.rmdir(wt)
    try:
        sh('cp -a /repo %s' % wt)
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(wt, 'freesif', f)
            t = open(p).read()
            n = t.count(old)
            if len(e) > 3:
                parts = t.split(old)
                k = e[3]
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                if n != 1:
                    return id, 'BAD EDIT: %d matches of %r' % (n, old)
                t = t.replace(old, new)
            open(p, 'w').write(t)
        diff = sh('git diff', cwd=wt).stdout
        d = os.path.join(SEED, id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy('/verif/tools/demolib.py', d)
        open(d + '/demo.py', 'w').write('from demolib import *\n\n' +
                                        demo.strip() + '\n')
        open(d + '/demo.sh', 'w').write(
            '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\n'
            'D="$(cd "$(dirname "$0")" && pwd)"\n'
            'PYTHONPATH="$D" exec /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(d + '/demo.sh', cwd='/repo', env=ENV)
        r1 = sh(d + '/demo.sh', cwd=wt, env=ENV)
        out = []
        if r0.returncode:
            out.append('DEMO FAILS UNPATCHED: ' + (r0.stderr + r0.stdout)[-600:])
        if not r1.returncode:
            out.append('DEMO PASSES PATCHED')
        if tests:
            r = sh('timeout 300 %s -m pytest tests -q -p no:cacheprovider '
                   '-x 2>&1 | tail -3' % PY, cwd=wt,
                   env=dict(ENV, PYTHONPATH=wt))
            if ' failed' in r.stdout or ' passed' not in r.stdout or \
                    'error' in r.stdout:
                out.append('TESTS: ' + r.stdout[-300:])
        if out:
            shutil.rmtree(d)
            return id, ' | '.join(out)
        msg = 'demo: ' + (r1.stderr + r1.stdout).strip()[-160:].replace(
            '\n', ' ')
        if check:
            r = sh('cd /verif; %s checks/run.py %s --tier quick --seed 1 '
                   '--noevidence' % (PY, prop),
                   env=dict(ENV, FREESIF_REPO=wt))
            v = [l for l in r.stdout.splitlines()
                 if l.startswith('VIOLATION')]
            msg = ('CAUGHT ' if r.returncode == 1 and v else
                   'MISSED rc=%d %s' % (r.returncode, r.stderr[-200:])) + msg
        return id, msg
    finally:
        shutil.rmtree(wt, ignore_errors=True)


BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append((id, prop, edits, demo, needs, breaks, kw))


def run(only=None):
    for b in BUGS:
        if only and b[0] not in only:
            continue
        i, m = make(*b[:6], **b[6])
        print('%-28s %s %s' % (i, b[1], m))
        sys.stdout.flush()
