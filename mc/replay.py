"""Usage: replay.py <replay file>.  Re-executes one recorded violation in this
process, without the exploration around it; exit 1 if it shows again."""
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import core, env  # noqa: E402

with open(sys.argv[1]) as f:
    v = json.load(f)
env.load()
mod = core.load_mod(v["property"])
out = os.dup(1)
core.quiet()
ctx = core.Ctx()
res = None
for sc in v.get("prefix_scenarios", []) + [v["scenario"]]:
    res = core.run_one(mod, sc, ctx)
os.write(out, (json.dumps(core.canon(res), indent=1) + "\n").encode())
os._exit(1 if res else 0)
