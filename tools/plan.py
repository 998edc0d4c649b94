"""Print the plan of one run: plan.py ID SEED INDEX [TIER]."""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.zygote import make_plan
mod = importlib.import_module('sim.props.' + sys.argv[1].lower())
print(json.dumps(make_plan(mod, sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4] if len(sys.argv) > 4 else 'quick')))
