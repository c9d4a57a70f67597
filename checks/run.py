#!/usr/bin/env python3
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, "lib"), os.path.join(H, "checks")]
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
import importlib
mod = importlib.import_module(sys.argv[1])
sys.exit(mod.C.main(sys.argv[2:]))
