"""replay.py HARNESS MODULE NP CASES: run the cases on /repo's current tree and judge them."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
h, m, np, cases = sys.argv[1:5]
e = engine.Engine("replay", "quick", 1)
e.build(h)
lines = [x for x in open(cases).read().splitlines() if x and x[0] != "#"]
v, txt, tr, st = e.judge(h, m, lines, int(np) if np.isdigit() else tuple(int(x) for x in np.split(",")), 300)
print(v, st)
print(txt)
if os.path.exists(tr) and len(sys.argv) > 5:
    import shutil
    shutil.copy(tr, sys.argv[5])
sys.exit(v != "ok")
