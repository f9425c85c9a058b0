#!/usr/bin/env python3
'''check.py ID [--tier quick|thorough] [--replay FILE]: decide one property against /repo's working tree (see DESIGN.md).'''
import os, sys, pathlib
VERIF = pathlib.Path(__file__).resolve().parent
PY = '/opt/venv/bin/python' # The environment GPy_ABCD's dependencies live in
ENV = dict(PYTHONDONTWRITEBYTECODE = '1', MPLBACKEND = 'Agg', OMP_NUM_THREADS = '1', OPENBLAS_NUM_THREADS = '1', MKL_NUM_THREADS = '1', NUMBA_NUM_THREADS = '1')
if any(os.environ.get(k) != v for k, v in ENV.items()) or os.environ.get('PYTHONHASHSEED', '') == '' or os.environ.get('MC_CHILD') != '1':
    env = {**os.environ, **ENV, 'MC_CHILD': '1'}
    env.setdefault('PYTHONHASHSEED', str(int(os.environ.get('VERIF_SEED', '1') or 1) % 4294967295)) # Sets iterate differently under different seeds
    for k in ('PYTHONPATH', 'PYTHONHOME'): env.pop(k, None)
    os.execve(PY if os.path.exists(PY) else sys.executable, [PY, *sys.argv], env)
sys.path.insert(0, str(VERIF))
from mc.driver import main
sys.exit(main(sys.argv[1:]))
