"""Replays one reported counterexample on the real code and prints what happened."""
import json
import os
import subprocess
import sys

here = os.path.dirname(os.path.abspath(__file__))
v = json.load(open(sys.argv[1]))
f = sys.argv[1] + ".job"
json.dump([{"unit": v["unit"], "model": v["model"]}], open(f, "w"))
p = subprocess.run([sys.executable, "-B", os.path.join(here, "replay.py"), v["property"], f], capture_output=True, text=True)
os.unlink(f)
print(p.stdout[-3000:], p.stderr[-3000:])
