"""prof.py PROP [batch]: profile one batch in process."""
import cProfile, importlib, os, pstats, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import harness
mod = importlib.import_module("checks." + sys.argv[1])
harness.preload()
p = cProfile.Profile()
recs = []
p.enable()
harness.run_batch(mod, 1, int(sys.argv[2]), tempfile.mkdtemp(prefix="prof"), recs.append)
p.disable()
pstats.Stats(p).sort_stats("cumtime").print_stats(35)
