"""Record types and the data that goes with them."""
from rt import *

EXPLAIN = """For every record type that has data: the parser, given that type and the encoding of a value of its data
type, yields that value in the variant of the same name; serialising, sizing and compressing the variant
is serialising, sizing and compressing the value; and every data type's own account of its record type and
of its variant agree.  Decided by abstract
interpretation of the MIR with the data types' own codecs summarised (P03, P04)."""
ASSUME = ["the codecs of the data types do what P03 and P04 say"]


def rd_type(p):
    return [n for n, t in enumerate(p.types) if t["k"] == "adt" and t.get("crate") == "maybe_dns" and last(t["def"]) == "RecordData"][0]


def rt_type(p):
    return [n for n, t in enumerate(p.types) if t["k"] == "adt" and t.get("crate") == "maybe_dns" and last(t["def"]) == "RecordType"][0]


def units(p, tier):
    return ["variants", "own types"]


def kinds(p):
    return sorted(p.impls.get(("RData", "record_type"), {}))


def run(R, p, u, tier):
    {"variants": variants_, "own types": own}[u](R, p)


def verdict(R, key, q, s, why, where, rule):
    if q is True:
        R.proven(key, where, rule)
    elif q is False and precise_trail(s) and sample.feasible(s.facts):
        R.refuted(key, why, where, rule)
    else:
        R.undecided(key, why, where, rule)


def variants_(R, p):
    rd, rt = rd_type(p), rt_type(p)
    fr = inherent(p, "RecordData", "from")
    tb = method(p, "RecordData", "ByteConvertible", "to_bytes")
    bs = method(p, "RecordData", "ByteConvertible", "byte_size")
    tc = method(p, "RecordData", "CompressedByteConvertible", "to_bytes_compressed")
    names = {v["n"]: i for i, v in enumerate(p.types[rt]["v"])}
    for vi, v in enumerate(p.types[rd]["v"]):
        R.count("variants")
        n = v["n"]
        if len(v["f"]) != 1:
            continue
        if n not in names:
            R.refuted("%s:no type" % n, "record data %s has no record type" % n, "", "every variant has its type")
            continue
        fty = v["f"][0][1]
        k = last(p.types[fty]["def"])
        c = ctx(p)
        c.con = Contracts(p, kinds(p))
        c.con.install(c)
        R.fn(fr)
        val = mk_sym(("arg", "value"), fty)
        # reading
        st = State()
        r = mk_buffer(p, st, (enc_piece(k, val),), ZERO)
        try:
            for s, o in c.call(fr, [("adt", rt, names[n], ()), r], st, rty(fr)):
                if o[0] != "adt":
                    R.undecided("%s:read" % n, "result unknown", fr["span"], "type selects the data parser")
                    continue
                if not is_ok(o):
                    verdict(R, "%s:read" % n, False, s, "record data of type %s is not read" % n, fr["span"], "type selects the data parser")
                    continue
                q = equal(o[3][0], ("adt", rd, vi, (val,)), s.facts, [])
                if q is None and o[3][0][0] == "adt" and o[3][0][2] != vi:
                    q = False
                verdict(R, "%s:read" % n, q, s, "record data of type %s is read as %s" % (n, show_val(o[3][0])[:200]), fr["span"], "type selects the data parser")
                pos = s.facts.norm(buf_pos(p, s)[0])
        except Budget as x:
            R.undecided("%s:read" % n, str(x), fr["span"], "type selects the data parser")
        # writing
        for m, what in ((tb, "written"), (bs, "sized"), (tc, "compressed")):
            if m is None:
                R.undecided("%s:%s" % (n, what), "no such method", "", "variants are written as their data")
                continue
            st = State()
            st.mem[("S", 0)] = ("adt", rd, vi, (val,))
            args = [("ref", ("S", 0), ())]
            if m is tc:
                st.mem[("N", 0)] = mk_sym(("arg", "names"), p.types[argty(m, 1)]["e"])
                nm0 = st.mem[("N", 0)]
                args += [("ref", ("N", 0), ()), mk_sym(("arg", "offset"), argty(m, 2))]
            try:
                outs = c.call(m, args, st, rty(m))
            except Budget as x:
                R.undecided("%s:%s" % (n, what), str(x), m["span"], "variants are written as their data")
                continue
            for s, o in outs:
                if m is bs:
                    q = s.facts.decide(eq0(o - S.enc_len(enc_piece(k, val)))) if isinstance(o, Lin) else None
                    if q is None and isinstance(o, Lin) and not T.is_imprecise(o) and o != S.enc_len(enc_piece(k, val)):
                        q = False
                else:
                    q = None
                    if o[0] == "seq" and len(o[1]) == 1 and o[1][0][0] == "Enc":
                        e = o[1][0]
                        ok = [k] + ([k + "~"] if m is tc else [])
                        q = e[1] in ok and equal(e[2], val, s.facts, []) is True
                        if q and e[1] == k + "~":
                            q = e[3][0] == "cx" and s.facts.decide(eq0(e[3][2] - args[2])) is True and e[3][1] == nm0
                    elif o[0] == "seq" and not T.is_imprecise(o[1]):
                        q = eq_pieces(o[1], (enc_piece(k, val),), s.facts, u8_ty())
                verdict(R, "%s:%s" % (n, what), q, s, "record data %s is %s as %s" % (n, what, show_val(o)[:200]), m["span"], "variants are written as their data")
        R.use(c)


def own(R, p):
    rd, rt = rd_type(p), rt_type(p)
    tn = [v["n"] for v in p.types[rt]["v"]]
    for k in kinds(p):
        R.count("data types")
        a = method(p, k, "RData", "record_type")
        b = method(p, k, "RData", "into_record_data")
        c = ctx(p)
        sty = argty(b, 0)
        val = mk_sym(("arg", "value"), sty)
        ts, vs = [], []
        st = State()
        st.mem[("S", 0)] = val
        for s, o in c.call(a, [("ref", ("S", 0), ())], st, rty(a)):
            ts.append((s, o))
        for s, o in c.call(b, [val], State(), rty(b)):
            vs.append((s, o))
        R.use(c)
        for s, o in vs:
            if o[0] != "adt":
                R.undecided("%s:variant" % k, "variant unknown", b["span"], "a data type's type and variant agree")
                continue
            verdict(R, "%s:value" % k, equal(o[3][0], val, s.facts, []), s, "wrapping %s changes it" % k, b["span"], "wrapping keeps the value")
            vn = p.types[rd]["v"][o[2]]["n"]
            for s2, t in ts:
                if t[0] != "adt":
                    R.undecided("%s:type" % k, "type unknown", a["span"], "a data type's type and variant agree")
                    continue
                verdict(R, "%s:type" % k, tn[t[2]] == vn, s2, "%s says it is type %s and wraps itself as %s" % (k, tn[t[2]], vn), a["span"], "a data type's type and variant agree")


def final(R, ps, tier):
    R.floor("variants", 65)
    R.floor("data types", 60)
