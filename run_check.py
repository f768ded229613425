#!/opt/venv/bin/python
"""python run_check.py <property> [--tier quick|thorough] [--only scenario] [--replay file] [-v]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.execve(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv, e)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symx.run import main

if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc or 0)
