"""Record sets with spelled out records."""
from api import *
from codec import Contracts


def fields(p, ty):
    """indices of the fields by type: name, type, class, ttl, records"""
    out = {}
    for n, f in enumerate(p.types[ty]["v"][0]["f"]):
        t = p.types[f[1]]
        k = "ttl" if t["k"] == "uint" else last(p.types[t["e"]]["def"]) if t["k"] == "ref" and p.types[t["e"]]["k"] == "adt" else last(t["def"]) if t["k"] == "adt" else None
        k = {"FQDN": "name", "RecordType": "type", "RecordClass": "class", "Vec": "records"}.get(k, k)
        if k in out or k is None:
            return None
        out[k] = n
    return out if set(out) == {"name", "type", "class", "ttl", "records"} else None


def start(c, p, e, elems=None):
    sty = p.types[argty(e, 0)]["e"]
    fs = fields(p, sty)
    if fs is None:
        return None
    v = mk_sym(("arg", "self"), sty)
    vals = list(v[3]) if v[0] == "adt" else list(sym_fields(v, 0))
    st = State()
    if elems is not None:
        vals[fs["records"]] = ("seq", tuple(("B", x) for x in elems), elem_ty(p, p.types[sty]["v"][0]["f"][fs["records"]][1]))
    st.mem[("S", 0)] = ("adt", sty, 0, tuple(vals))
    return st, vals, fs


def elem_ty(p, vt):
    return [a for a in p.types[vt]["args"] if isinstance(a, int)][0]


def context(p):
    c = ctx(p, fit=True)
    Contracts(p, ("FQDN", "RecordData")).install(c)
    return c


def elems(p, e, n):
    sty = p.types[argty(e, 0)]["e"]
    fs = fields(p, sty)
    t = elem_ty(p, p.types[sty]["v"][0]["f"][fs["records"]][1])
    return [mk_sym(("arg", "record%d" % k), t) for k in range(n)]


def panics(R, p, n):
    """writing a set of n records does not fail"""
    e = method(p, "ResourceRecordSet", "ByteConvertible", "to_bytes")
    i = inherent(p, "ResourceRecordSet", "canonical_reorder")
    for m in (e, i):
        if m is None:
            continue
        c = context(p)
        c.explicit_order = True
        x = start(c, p, m, elems(p, m, n))
        if x is None:
            continue
        outs = run(c, m, [("ref", ("S", 0), ())], x[0])
        key = "%s of a set of %d: panic" % ("writing" if m is e else "reordering", n)
        bad = [y for y in c.panics if y.precise and sample.feasible(y.facts)]
        if bad:
            R.refuted(key, "%s can fail when %s" % (bad[0].kind, [show_cond(y)[:100] for y in bad[0].trail][-4:]), m["span"], "no panic")
        elif c.panics or not outs:
            R.undecided(key, "not excluded", m["span"], "no panic")
        else:
            R.proven(key, m["span"], "no panic")
        R.use(c)
