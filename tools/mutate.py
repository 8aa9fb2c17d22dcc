"""Systematic mutation of freesif: which mutants that pass the repository's
tests do the checks miss?

usage: mutate.py OUT.jsonl [--files a.py,b.py] [--max N] [--seed S] [-j N]

Development tool; not used by any check."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import warnings
import tempfile
from multiprocessing import Process, Queue

warnings.simplefilter('ignore')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
CONV = ['C%02d' % i for i in range(1, 13)]
STRUC = ['S%02d' % i for i in range(1, 14)]
HYD = ['H%02d' % i for i in range(1, 8)]
LIFE = ['F01', 'L01', 'L02', 'L03', 'L04']
CHECKS = {
    'calc/': ['K01', 'K02', 'K03', 'K04'],
    'data/file.py': LIFE + ['C10', 'C12', 'S01', 'H01'],
    'data/helpers.py': STRUC + HYD + ['L03', 'K04'],
    'data/hydrodata.py': HYD + LIFE,
    'data/sifdata.py': LIFE + ['S13', 'H07', 'S01'],
    'data/strucdata.py': STRUC + ['K04', 'V02'] + LIFE,
    'sequentialparser/parsers.py': CONV[:6] + ['C09', 'C11', 'C07', 'C08',
                                               'S11', 'H01'],
    'sequentialparser/sequentialfiles.py': ['C03', 'C06', 'C09', 'C11', 'C01',
                                            'C02', 'C04', 'C05', 'C10',
                                            'C12', 'L01'],
    'sequentialparser/sif2hdf5.py': ['C08', 'C09', 'C10', 'C11', 'C12',
                                     'C05', 'C07', 'C01', 'C02', 'C03', 'C04',
                                     'C06', 'L04', 'F01'],
    'utils/writers.py': ['V01', 'V02', 'V03'],
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '*', ast.Mod: '+', ast.Pow: '*'}


def mutants(src):
    """-> list of (line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    out = []

    def pos(l, c):
        return starts[l - 1] + c

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno,
                                                n.end_col_offset)

    def rep(n, a, b, new, d):
        out.append((n.lineno, d, (raw[:a] + new.encode() + raw[b:]).decode()))

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and \
                n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
        if isinstance(n, (ast.Raise, ast.Set)):
            # texts of messages, lists of record names
            for c in ast.walk(n):
                if isinstance(c, ast.Constant):
                    doc.add(id(c))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == 'set' and n.lineno < 150:
            for c in ast.walk(n):
                if isinstance(c, ast.Constant):
                    doc.add(id(c))
        if isinstance(n, ast.FunctionDef) and n.name in (
                '__repr__', '__str__', '_write_line', 'write_string',
                'write_floats', 'write_record', 'get_recordcount'):
            for c in ast.walk(n):
                if isinstance(c, (ast.Expr, ast.Assign, ast.Constant)):
                    doc.add(id(c))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            # stay out of brackets
            mid = raw[a:b].decode()
            new = CMP[type(n.ops[0])]
            m = mid
            for o in ('not in', 'is not', '==', '!=', '<=', '>=', '<', '>',
                      'in', 'is'):
                if o in mid:
                    m = mid.replace(o, new, 1)
                    break
            rep(n, a, b, m, 'cmp -> ' + new)
            if type(n.ops[0]) in (ast.Lt, ast.LtE):
                rep(n, a, b, mid.replace(o, '>', 1), 'cmp -> >')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            for o in ('**', '//', '+', '-', '*', '/', '%'):
                if o in mid:
                    if isinstance(n.op, ast.Mod) and isinstance(
                            n.left, ast.Constant):
                        break
                    rep(n, a, b, mid.replace(o, BIN[type(n.op)], 1),
                        'op -> ' + BIN[type(n.op)])
                    break
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b].decode()
            o, w = (' and ', ' or ') if isinstance(n.op, ast.And) else (
                ' or ', ' and ')
            if o.strip() in mid:
                rep(n, a, b, mid.replace(o.strip(), w.strip(), 1),
                    'bool -> ' + w)
            for v in n.values:
                a, b = span(v)
                rep(v, a, b, 'True' if isinstance(n.op, ast.And) else
                    'False', 'drop operand ' + text(v)[:40])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            rep(n, a, b, '(' + text(n.operand) + ')', 'drop not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = span(n)
            rep(n, a, b, '(' + text(n.operand) + ')', 'drop minus')
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            rep(n, a, b, 'not (' + text(n.test) + ')', 'negate condition')
            if isinstance(n, ast.If):
                rep(n, a, b, 'True', 'condition True')
                rep(n, a, b, 'False', 'condition False')
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            a, b = span(n)
            v = n.value
            if v is True or v is False:
                rep(n, a, b, str(not v), '-> %s' % (not v))
            elif isinstance(v, int) and raw[a:b].decode().isdigit():
                rep(n, a, b, str(v + 1), '%d -> %d' % (v, v + 1))
                if v > 0:
                    rep(n, a, b, str(v - 1), '%d -> %d' % (v, v - 1))
            elif isinstance(v, float):
                rep(n, a, b, repr(v * 1.01 + .001), 'float changed')
            elif isinstance(v, str) and v and '\n' not in raw[a:b].decode() \
                    and raw[a:b].decode()[0] in '\'"':
                rep(n, a, b, repr(v + 'x'), 'string %r changed' % v[:30])
            elif v is None:
                pass
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                            ast.Return)) and id(n) not in doc:
            a, b = span(n)
            rep(n, a, b, 'pass', 'drop statement ' + text(n)[:60])
            if isinstance(n, ast.AugAssign):
                pass
        elif isinstance(n, (ast.Continue, ast.Break)):
            a, b = span(n)
            rep(n, a, b, 'pass', 'drop break/continue')
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            a, b = span(n.args[0])
            c, d = span(n.args[1])
            out.append((n.lineno, 'swap arguments',
                        (raw[:a] + raw[c:d] + raw[b:c] + raw[a:b] +
                         raw[d:]).decode()))
    good = []
    seen = {src}
    for l, d, s in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, 'm', 'exec')
        except (SyntaxError, ValueError):
            continue
        good.append((l, d, s))
    return good


def sh(cmd, cwd, env, t):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, 'timeout'


def worker(q, out, cdir, div):
    wt = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    os.rmdir(wt)
    shutil.copytree('/repo', wt, symlinks=True)
    env = dict(ENV, FREESIF_REPO=wt, PYTHONPATH=wt)
    sys.path.insert(0, cdir)
    try:
        while True:
            job = q.get()
            if job is None:
                return
            k, f, line, desc, src = job
            path = os.path.join(wt, 'freesif', f)
            orig = open(path).read()
            open(path, 'w').write(src)
            try:
                rc, o = sh('ulimit -v 6000000; timeout 60 %s -m pytest tests '
                           '-q -x -p no:cacheprovider' % PY, wt, env, 90)
                res = {'k': k, 'file': f, 'line': line, 'desc': desc,
                       'text': src.splitlines()[line - 1].strip()}
                if rc != 0:
                    res['verdict'] = 'tests'
                else:
                    res['verdict'] = 'SURVIVED'
                    cs = [c for p, c in CHECKS.items() if f.startswith(p)][0]
                    env2 = dict(env)
                    env2.pop('PYTHONPATH')
                    for c in cs:
                        rc, o = sh('ulimit -v 6000000; %s checks/run.py %s '
                                   '--noevidence --workers 1 --cases %d' % (
                                       PY, c, max(10, CASES[c] // div)),
                                   cdir, env2, 200)
                        if rc == 1 and 'VIOLATION' in o:
                            res['verdict'] = c
                            break
                        if rc != 0:
                            res.setdefault('odd', []).append((c, rc,
                                                              o[-200:]))
                with open(out, 'a') as g:
                    g.write(json.dumps(res) + '\n')
            finally:
                open(path, 'w').write(orig)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


CASES = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--max', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--div', type=int, default=5)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--redo', help='only the survivors of this file')
    ap.add_argument('--skip', help='not the mutants of this file')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    cdir = tempfile.mkdtemp(prefix='mutchecks_', dir='/tmp')
    for d in ('checks', 'vlib', 'tools'):
        shutil.copytree(os.path.join(here, d), os.path.join(cdir, d),
                        ignore=shutil.ignore_patterns('__pycache__'))
    sys.path.insert(0, cdir)
    from vlib import runner
    from checks import conv, struc, hydro, calcs, vtu, life  # noqa
    for k, p in runner.PROPS.items():
        CASES[k] = p.quick
    jobs = []
    base = '/repo/freesif'
    files = a.files.split(',') if a.files else [
        'calc/general.py', 'calc/principal.py', 'calc/vonmises.py',
        'data/file.py', 'data/helpers.py', 'data/hydrodata.py',
        'data/sifdata.py', 'data/strucdata.py',
        'sequentialparser/parsers.py',
        'sequentialparser/sequentialfiles.py',
        'sequentialparser/sif2hdf5.py', 'utils/writers.py']
    redo = None
    if a.redo:
        redo = set()
        for l in open(a.redo):
            r = json.loads(l)
            if r['verdict'] == 'SURVIVED':
                redo.add((r['file'], r['line'], r['desc'], r['text']))
    for f in files:
        src = open(os.path.join(base, f)).read()
        for l, d, s in mutants(src):
            if redo is not None and (f, l, d, s.splitlines()[
                    l - 1].strip()) not in redo:
                continue
            jobs.append((f, l, d, s))
    random.Random(a.seed).shuffle(jobs)
    if a.skip:
        have = set()
        for l in open(a.skip):
            r = json.loads(l)
            have.add((r['file'], r['line'], r['desc'], r['text']))
        jobs = [j for j in jobs if (j[0], j[1], j[2], j[3].splitlines()[
            j[1] - 1].strip()) not in have]
    if a.max:
        jobs = jobs[:a.max]
    print(len(jobs), 'mutants')
    if a.list:
        return
    sys.stdout.flush()
    q = Queue(40)
    ps = [Process(target=worker, args=(q, a.out, cdir, a.div))
          for _ in range(a.j)]
    for p in ps:
        p.start()
    for k, j in enumerate(jobs):
        q.put((k,) + j)
    for _ in ps:
        q.put(None)
    for p in ps:
        p.join()
    shutil.rmtree(cdir, ignore_errors=True)


if __name__ == '__main__':
    main()
