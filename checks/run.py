#!/usr/bin/env python
"""usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import os
import sys

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
           'NUMEXPR_NUM_THREADS', 'BLOSC_NTHREADS'):
    os.environ[_k] = '1'
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import runner  # noqa
import importlib  # noqa

for _m in ('conv', 'struc', 'hydro', 'calcs', 'life', 'vtu'):
    if os.path.exists(os.path.join(os.path.dirname(__file__), _m + '.py')):
        importlib.import_module('checks.' + _m)

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
