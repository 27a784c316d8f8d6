#!/usr/bin/env python3
"""python check.py <ID> [quick|thorough] | <ID> --replay FILE"""
import os
import sys

VENV = '/opt/venv/bin/python'
ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONWARNINGS='ignore')
if os.environ.get('MC_CHILD') != '1':
    env = dict(os.environ, MC_CHILD='1', **ENV)
    py = VENV if os.path.exists(VENV) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']:
        from mc import ops
        print('PyNite imported from', ops.REPO)
        sys.exit(0)
    sys.exit(core.main(sys.argv[1:]))
