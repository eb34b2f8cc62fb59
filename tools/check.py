#!/usr/bin/env python3
"""usage: check.py <property id> [--thorough]   (otherwise tier and seed from VERIF_TIER and VERIF_SEED)"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import check
pid = sys.argv[1]
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
mod = importlib.import_module("checks." + pid.lower())
sys.exit(check.main(pid, mod.run, getattr(mod, "LEVEL", "model_checking")))
