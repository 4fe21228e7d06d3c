#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough] [--case NAME] [-v] [-j N]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("_VC_REEXEC") != "1":
    os.environ["_VC_REEXEC"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--case", action="append")
ap.add_argument("-v", action="store_true")
ap.add_argument("-j", type=int, default=8)
a = ap.parse_args()
tier = a.tier if a.tier in ("quick", "thorough") else "quick"
import threading
from engine import runner
rc = []
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=lambda: rc.append(runner.main(a.prop, tier, a.seed, a.j, a.case, a.v)))
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0] if rc else 2)
