"""python3-vt tools/replay_one.py ID [seconds] : run the replay oracle of a property on the current tree."""
import sys, importlib, json
sys.path.insert(0, "/verif")
from engine import replay
m = importlib.import_module("specs." + sys.argv[1])
r = replay.search(sys.argv[1], m.REPLAY, 1, float(sys.argv[2]) if len(sys.argv) > 2 else 10, [])
v = r.pop("violation", None)
print(sys.argv[1], json.dumps(r))
if v:
    print(v[:2500])
