import sys, time, signal
sys.path.insert(0, "/verif/sa")
sys.setrecursionlimit(20000)
import try_ as TR
from interp import *
pat = sys.argv[1]
class TO(Exception): pass
def al(*a): raise TO()
signal.signal(signal.SIGALRM, al)
full = len(sys.argv) > 2
for i in TR.Program("/verif/build/all.json").insts:
    if i["crate"] == "maybe_dns" and pat in i["name"] and i.get("body") and "closure" not in i["name"]:
        c = TR.ctx(trace=None)
        t = time.time()
        signal.alarm(30)
        try:
            o = TR.enc(c, i["name"])
            r = "%d outs" % len(o)
        except TO: r = "TIMEOUT"; o = []
        except Exception as e: r = "EXC " + repr(e)[:200]; o = []
        signal.alarm(0)
        print(i["name"], r, "%.1fs" % (time.time() - t), "steps", c.steps, "unk", list(c.unknown)[:3], "notes", c.notes[:3], "panics", [(p.kind, p.line, p.precise) for p in c.panics], flush=True)
        if full:
            for x in o: print("    ", show_val(x[1])[:1500], [show_cond(y) for y in x[0].trail])
