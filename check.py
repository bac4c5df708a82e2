#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--only CONTRACT] [--mode FCP] [-v]"""
import os
import sys
sys.dont_write_bytecode = True
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vp import main
if __name__ == "__main__":
    sys.exit(main.main(sys.argv[1:]))
