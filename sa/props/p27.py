"""Type bitmaps list exactly the types of the set."""
from bitmap import *

EXPLAIN = """For the record data that holds a set of record types, the serialisers (plain and compressed), the announced sizes and the parser are interpreted
abstractly on spelled out sets: the empty set, every single type, pairs of types (thorough: every pair), the set of all types and sets of all but one (thorough: every one). The bytes must be the window
blocks of RFC 4034 section 4.1.2 (window number, length of the bitmap up to its last used octet, bits counted from the most significant one, ascending, no window
without types), the announced size their number. The parser is interpreted on the blocks of the same sets, with and without trailing zero octets, and on every single bit of the first two and the
last window: a bit of a known type must be read as that type, any other refused, nothing else may be in the set."""
ASSUME = ["sets of types: spelled out as listed (the loops treat a type by its window, octet and bit alone)", "the ordered set of the standard library iterates in ascending order", "code numbers are those of the code tables (P09)"]


def units(p, tier):
    out = []
    n = len(sets(p, tier))
    for tn, _, _ in holders(p):
        out.append("long:%s:0" % tn)
        out += ["%s:%s:%d" % (m, tn, k) for k in range(0, n, STEP) for m in ("write", "read")]
        out += ["bits:%s:%d" % (tn, w * 256 + k) for w in ((0, 1, 255) if tier == "thorough" else (0, 1)) for k in range(0, 256, STEP)]
    return out


def run_unit(R, p, unit, tier):
    R.count("units")
    m, tn, k = unit.split(":")
    _, ty, fi = [h for h in holders(p) if h[0] == tn][0]
    k = int(k)
    if m == "long":
        return refuse(R, p, tn, ty, fi)
    if m == "write":
        write(R, p, tn, ty, fi, sets(p, tier)[k:k + STEP])
    elif m == "read":
        read(R, p, tn, ty, fi, [(x, blocks(x, pad)) for x in sets(p, tier)[k:k + STEP] for pad in (False, True) if not pad or len(x) == 1 or x and tier == "thorough"])
    else:
        w = k >> 8
        read(R, p, tn, ty, fi, [((w * 256 + b,), blocks((w * 256 + b,))) for b in range(k & 255, min(256, (k & 255) + STEP))])
