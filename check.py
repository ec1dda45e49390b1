#!/usr/bin/env python3
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
mod = importlib.import_module("checks." + prop.lower())
sys.exit(mod.main())
