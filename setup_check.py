"""setup_cmd: nothing to build (pure Python); verifies the tools are here."""
import os
import subprocess
import sys
code = ("import sys; sys.path.insert(0, '/repo');"
        "sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/"
        "site-packages');"
        "import pvlib, hypothesis, mpmath; print(pvlib.__file__,"
        " hypothesis.__version__)")
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
env.pop('PYTHONPATH', None)
r = subprocess.run(['/opt/venv/bin/python', '-B', '-c', code], env=env)
sys.exit(r.returncode)
