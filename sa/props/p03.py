"""The announced size is the number of bytes written."""
import bitmap
from rt import *

EXPLAIN = """For every type that can be serialised, the serialiser and the size computation are analysed on
the same symbolic value (abstract interpretation of the MIR: affine values, sums over list elements,
loop summaries); on every path of the serialiser the announced size must equal the length of the byte
pattern.  For the compressed form the two are run from the same name table and offset, and the name
table they leave behind must agree as well.  Nested types stand for an opaque byte string whose length
is the nested size; their own agreement is another obligation of this check."""
ASSUME = ["sizes of in-memory data add up without exceeding the address space"]


def kinds(p):
    return sorted(p.impls[("ByteConvertible", "to_bytes")])


def ckinds(p):
    return sorted(p.impls.get(("CompressedByteConvertible", "to_bytes_compressed"), {}))


def units(p, tier):
    return [k for k in kinds(p)] + ["~" + k for k in ckinds(p)] + ["types of " + h[0] for h in bitmap.holders(p)]


def len_status(facts, n, ln, precise):
    r = len_status0(facts, n, ln, precise)
    if r[0] == "refuted" and not sample.feasible(facts):
        r = ("undecided", "not shown feasible: " + r[1])
    return r


def len_status0(facts, n, ln, precise):
    n = facts.resolve(facts.norm(n)) if isinstance(n, Lin) else n
    ln = facts.resolve(facts.norm(ln))
    if not isinstance(n, Lin):
        return "undecided", "size unknown"
    d = facts.decide(eq0(n - ln))
    if d is True:
        return "proven", ""
    why = "off by %s: announces %s bytes, writes %s" % (show_lin(facts.norm(n - ln)), show_lin(n), show_lin(ln))
    if precise and d is False and not T.is_imprecise(n - ln):
        return "refuted", why
    if precise and not T.is_imprecise(n - ln) and S._maybe(n, ln, facts) is False:
        return "refuted", why
    return "undecided", why


def run(R, p, u, tier):
    if u.startswith("types of "):
        h = [h for h in bitmap.holders(p) if h[0] == u[9:]][0]
        bitmap.write(R, p, *h, bitmap.some(p), ("size",), "announced size")
        return
    comp = u.startswith("~")
    tn = u.lstrip("~")
    R.count("serialisable types")
    if comp:
        e = method(p, tn, "CompressedByteConvertible", "to_bytes_compressed")
        z = method(p, tn, "CompressedByteConvertible", "byte_size_compressed")
    else:
        e = method(p, tn, "ByteConvertible", "to_bytes")
        z = method(p, tn, "ByteConvertible", "byte_size")
    if e is None or z is None:
        if comp and z is None:
            R.proven("%s: size is computed by serialising" % u, e["span"], "default method")
        else:
            R.refuted("%s:missing" % u, "no size or serialiser", "", "announced size")
        return
    where = z["span"]
    done = None
    for deep in (False, True):
        con = [k for k in kinds(p) if k not in (tn, "Header")] if not deep else []
        r = attempt(R, p, tn, e, z, comp, con, where)
        if done is None or any(x[0] == "refuted" for x in r[0]) or all(x[0] == "proven" for x in r[0]):
            done = r
        if all(x[0] == "proven" for x in done[0]):
            break
        if tn in ("Packet", "ResourceRecord", "RecordData", "ResourceRecordSet"):
            break
    res, c = done
    R.use(c)
    R.count("serialiser paths", len(res))
    for st, why in res:
        off = why[7:why.index(":")] if why.startswith("off by ") else ""
        R.ob(u if st == "proven" else u + {"refuted": ":size " + off, "undecided": ":unknown"}[st], st, why, where, "announced size")


def attempt(R, p, tn, e, z, comp, con, where):
    c = ctx(p)
    try:
        with Rules({}):
            Contracts(p, con).install(c)
            args = [self_ref(p.types[argty(e, 0)]["e"])]
            st = State()
            if comp:
                nty = p.types[argty(e, 1)]["e"]
                cell = ("N", 0)
                st.mem[cell] = mk_sym(("arg", "names"), nty)
                args += [("ref", cell, ()), mk_sym(("arg", "offset"), argty(e, 2))]
            outs = c.call(e, args, st, rty(e))
            res = []
            for s, b in outs:
                if b[0] != "seq":
                    res.append(("undecided", "serialiser result unknown"))
                    continue
                s2 = s.copy()
                after = None
                if comp:
                    after = s.mem[cell]
                    s2.mem[cell] = mk_sym(("arg", "names"), nty)
                s2.ev = ()
                base = len(s2.trail)
                for s3, n in c.call(z, args, s2, rty(z)):
                    pr = precise_trail(s3) and precise_trail(s)
                    r = len_status(s3.facts, n, pieces_len(b[1]), pr)
                    if r[0] == "proven" and comp:
                        w = []
                        q = equal(s3.facts.norm(after), s3.facts.norm(s3.mem[cell]), s3.facts, w)
                        if q is not True:
                            r = ("refuted" if q is False and pr else "undecided", "the size computation leaves a different name table: %s" % "; ".join(w)[:300])
                    if r[0] != "proven":
                        r = (r[0], r[1] + " when %s" % [show_cond(x) for x in s3.trail][:5])
                    res.append(r)
            if not res:
                res.append(("undecided", "no outcome"))
            return res, c
    except Budget as x:
        return [("undecided", "budget: %s" % x)], c


def final(R, ps, tier):
    R.floor("serialisable types", 110)
