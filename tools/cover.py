"""Which lines of the code under test a check executes (sys.monitoring).

usage: cover.py OUT.json ID [seed]   (quick tier in one process)
"""
import json, os, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import core
out, pid = os.path.abspath(sys.argv[1]), sys.argv[2]
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
hit = {}
m = sys.monitoring
m.use_tool_id(3, "cover")
def line(code, n):
    f = code.co_filename
    if core and f.startswith(core.SRC):
        hit.setdefault(os.path.basename(f), set()).add(n)
    return m.DISABLE
m.register_callback(3, m.events.LINE, line)
m.set_events(3, m.events.LINE)
os.environ["HOME"] = tempfile.mkdtemp()
os.chdir(os.environ["HOME"])
core.setup_env()
import qutip_qtrl
mod = core.load_module(pid)
t = time.time()
r = core.run_shard(mod, "quick", seed, 0, 1)
print(pid, r["evaluations"], r["error"], r["violation"], round(time.time() - t, 1))
json.dump({k: sorted(v) for k, v in hit.items()}, open(out, "w"))
