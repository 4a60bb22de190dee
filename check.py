#!/usr/bin/env python3
"""Entry point of every check:  python3 check.py C07 [--tier quick|thorough]
                                python3 check.py C07 --replay FILE

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not run (harness error, time budget).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def reexec():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('PYTHON', 'PYTEST', 'PVLIB', 'HYPOTHESIS'))}
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC',
               MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               HYPOTHESIS_NO_PLUGINS='1', VP_INNER='1',
               no_proxy='*')
    # VP_REPO is a development aid: run against a scratch copy
    env.setdefault('VP_REPO', '/repo')
    env['VIRTUAL_ENV'] = '/opt/venv'
    if not os.path.exists(PY):
        print('harness error: no interpreter at', PY)
        sys.exit(2)
    os.execve(PY, [PY, "-B", os.path.abspath(sys.argv[0])] + sys.argv[1:], env)


if __name__ == '__main__':
    if os.environ.get('VP_INNER') != '1':
        reexec()
    sys.path[:0] = [os.environ['VP_REPO'], HERE]
    sys.path.append(VT)
    from pvp import core
    sys.exit(core.main(sys.argv[1:]))
