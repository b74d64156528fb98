#!/usr/bin/env python3
"""python3 check.py ID [--thorough]: decides one property on /repo's current working tree. See DESIGN.md."""
import os, sys
ID = sys.argv[1]
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
else:
    os.environ.setdefault("VERIF_TIER", "quick")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import importlib
import vlib
mod = {"C": "p_conc"}.get(ID[0])
if mod is None:
    mod = "p_seq"
vlib.main_wrap(lambda: importlib.import_module(mod).run(ID))
