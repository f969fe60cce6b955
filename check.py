#!/opt/venv/bin/python
"""check.py P01 [--tier quick|thorough] [--seed N] | --replay FILE"""
import os
import sys

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ.setdefault("HDF5_USE_FILE_LOCKING", "FALSE")
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import driver  # noqa: E402

if __name__ == "__main__":
    sys.exit(driver.main())
