import sys
sys.path.insert(0, "/verif/sa")
from mir import Program
from interp import *
from models import Models
import seqs as S
def ctx(path="/verif/build/all.json", **o):
    p = Program(path)
    o.setdefault("trace", print)
    return Ctx(p, Models(), **o)
def enc(c, name, self_term=("arg","self"), extra=()):
    i = [x for x in c.prog.insts if x["name"] == name]
    assert i, name
    i = i[0]
    rty = i["body"]["locals"][0]
    args = [mk_sym(("arg", nm), i["body"]["locals"][k+1]) for k, nm in enumerate(["self","a1","a2","a3"][:i["body"]["argc"]])]
    return c.call(i, args, State(), rty)
if __name__ == "__main__":
    c = ctx()
    import traceback
    for o in enc(c, sys.argv[1]):
        print(show_val(o[1]), [show_cond(x) for x in o[0].trail])
    print("unknown", c.unknown); print("notes", c.notes[:20]); print("loops", c.loops_log)
    for p in c.panics: print("PANIC", p.kind, p.line, p.fn, p.precise, show_cond(p.cond) if p.cond is not None else "", [show_cond(x) for x in p.trail])
    print("steps", c.steps)
