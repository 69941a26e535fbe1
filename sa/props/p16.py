"""Building, changing, reading and writing values never panics."""
import bitmap
import rrsets
from ops import *

EXPLAIN = """Every public operation that is not a parser (constructors, accessors, setters, size and serialisation functions, comparisons,
conversions, signing and verifying) is interpreted abstractly on arbitrary arguments: every arithmetic check, bounds check, slice,
conversion and unwrap reached is an obligation, discharged when the facts of the path exclude its failure."""
ASSUME = ["memory allocation succeeds", "the sizes of all parts of one value together fit the address space"]
SKIP = ("Debug",)


def units(p, tier):
    g = {"parsed": 1, "type sets": 1}
    for n, i in ops(p).items():
        g.setdefault(i["span"].split(":")[0], []).append(n)
    return sorted(g)


def run_unit(R, p, u, tier):
    if u == "type sets":
        for h in bitmap.holders(p):
            bitmap.panics(R, p, *h, bitmap.some(p))
        for n in range(3):
            rrsets.panics(R, p, n)
        return
    if u == "parsed":
        for n, i in sorted(makers(p).items()):
            parsed(R, p, n, i)
        return
    for n, i in sorted(ops(p).items()):
        if i["span"].split(":")[0] == u:
            one(R, p, n, i, tier)


def final(R, ps, tier):
    R.floor("operations", 200 * len(ps))
