"""profile N runs of a check inline: tools/prof.py C01 20"""
import sys, os, cProfile, pstats, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import sim.worker as w
mod = w.load(sys.argv[1])
n = int(sys.argv[2])
import sim.core as core
def go():
    for i in range(n):
        plan, ss = w.plan_for(mod, 1, i, "quick")
        t = time.perf_counter()
        r = w.run_inline(mod, plan, ss)
        print(i, r.get("violations"), r["steps"], r.get("error", "")[-300:])
p = cProfile.Profile()
t = w.real_time()
p.runcall(go)
print("wall", (w.real_time()-t)/n)
pstats.Stats(p).sort_stats("tottime").print_stats(25)
