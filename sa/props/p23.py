"""Where names may be compressed."""
from rt import *
from api import verdict

EXPLAIN = """The compressed serialiser of record data is interpreted abstractly once for every record type, with only
the serialiser of names summarised.  For every type outside the list of those whose names receivers
expand, its bytes are compared with those of the plain serialiser under the same conditions; a name that
went through the compressing serialiser, a pointer, or any other difference is a violation, and so is a
table of names that was told about names in such data in a way later names could point to without those
names being written there in full."""
ASSUME = ["names with different labels have different hashes in the table of names"]

# RFC 1035 types (RFC 3597 section 4 forbids all others) and the ones this library reads and writes compressed:
# SRV and NSEC (RFC 6762 section 18.14 for multicast), NAPTR
ALLOWED = ("NS", "CNAME", "SOA", "PTR", "MINFO", "MX", "SRV", "NAPTR", "NSEC", "MB", "MG", "MR", "MD", "MF")


def rd_type(p):
    return [n for n, t in enumerate(p.types) if t["k"] == "adt" and t.get("crate") == "maybe_dns" and last(t["def"]) == "RecordData"][0]


def units(p, tier):
    return [v["n"] for v in p.types[rd_type(p)]["v"] if v["n"] not in ALLOWED]




def run(R, p, u, tier):
    rd = rd_type(p)
    vi, v = [(i, v) for i, v in enumerate(p.types[rd]["v"]) if v["n"] == u][0]
    if len(v["f"]) != 1:
        return
    tb = method(p, "RecordData", "ByteConvertible", "to_bytes")
    tc = method(p, "RecordData", "CompressedByteConvertible", "to_bytes_compressed")
    fty = v["f"][0][1]
    k = last(p.types[fty]["def"])
    rule = "no compression outside the known types"
    R.count("types without compressed names")

    def mk(**o):
        c = ctx(p, fit=True, **o)
        c.con = Contracts(p, ("FQDN",))
        c.con.install(c)
        return c
    if delegates(R, p, u, tc, rd, vi, fty, k, rule):
        return
    n = len(R.obs)
    compare(R, p, u, k, rd, vi, fty, tb, tc, rule, mk)
    new = R.obs[n:]
    if any(o["status"] == "undecided" for o in new) and not any(o["status"] == "refuted" for o in new):
        # lists of up to two elements: look for a violation only
        n = len(R.obs)
        compare(R, p, u, k, rd, vi, fty, tb, tc, rule, mk, rounds=2)
        R.obs[n:] = [o for o in R.obs[n:] if o["status"] == "refuted"]


def compare(R, p, u, k, rd, vi, fty, tb, tc, rule, mk, **o):
    with Rules({}):
        c, c2 = mk(**o), mk(**o)
        base = mk_sym(("arg", "names"), p.types[argty(tc, 1)]["e"])
        off = mk_sym(("arg", "offset"), argty(tc, 2))
        try:
            comp, plain = [], []
            for s, val in start_values(c, fty, k):
                for m, out, cc in ((tc, comp, c), (tb, plain, c2)):
                    s1 = s.copy()
                    s1.mem[("S", 0)] = ("adt", rd, vi, (val,))
                    args = [("ref", ("S", 0), ())]
                    if m is tc:
                        s1.mem[("N", 0)] = base
                        args += [("ref", ("N", 0), ()), off]
                    for s2, b in cc.call(m, args, s1, rty(m)):
                        out.append((s2, b, val))
        except Budget as x:
            R.undecided("%s:budget" % u, str(x), tc["span"], rule)
            return
        R.use(c)
        R.use(c2)
        R.fn(tc)
        R.fn(tb)
        for s, b, v1 in comp:
            R.count("paths")
            if b[0] != "seq":
                R.undecided("%s:bytes" % u, "bytes unknown", tc["span"], rule)
                continue
            bad = [x for x in walk(b[1]) if x[1].endswith("~")]
            if bad:
                verdict(R, "%s:names" % u, False, s, "a name in record data of type %s is written compressed: %s" % (u, show_val(b)[:300]), tc["span"], rule)
                continue
            done = False
            for s2, b2, v2 in plain:
                if b2[0] != "seq" or v2 != v1:
                    continue
                both = s
                for t in s2.trail:
                    both = both.assume(t) if both is not None else None
                if both is None:
                    continue
                done = True
                q = eq_pieces(b[1], b2[1], both.facts, u8_ty())
                if q is not True and (T.is_imprecise(b[1]) or T.is_imprecise(b2[1])):
                    q = None
                verdict(R, "%s:names" % u, q, both, "the compressed form %s of record data of type %s is not its plain form %s" % (show_val(b)[:300], u, show_val(b2)[:300]), tc["span"], rule)
            if not done:
                R.undecided("%s:names" % u, "no plain form under the same conditions", tc["span"], rule)
            nm = s.mem.get(("N", 0))
            q = True if nm == base else None
            verdict(R, "%s:table" % u, q, s, "the table of names is told about names that are not written", tc["span"], "table of names unchanged")


def delegates(R, p, u, tc, rd, vi, fty, k, rule):
    """the compressed serialiser hands over to the plain serialiser of the data, whatever that does"""
    c = ctx(p)
    c.con = Contracts(p, sorted(p.impls.get(("RData", "record_type"), {})))
    c.con.install(c)
    val = mk_sym(("arg", "value"), fty)
    st = State()
    st.mem[("S", 0)] = ("adt", rd, vi, (val,))
    base = mk_sym(("arg", "names"), p.types[argty(tc, 1)]["e"])
    st.mem[("N", 0)] = base
    try:
        outs = c.call(tc, [("ref", ("S", 0), ()), ("ref", ("N", 0), ()), mk_sym(("arg", "offset"), argty(tc, 2))], st, rty(tc))
    except Budget:
        return False
    for s, o in outs:
        if o[0] != "seq" or o[1] != (enc_piece(k, val),) or s.mem.get(("N", 0)) != base:
            return False
    R.use(c)
    R.fn(tc)
    R.count("paths", len(outs))
    R.proven("%s:names" % u, tc["span"], rule)
    R.proven("%s:table" % u, tc["span"], "table of names unchanged")
    return True


def walk(ps):
    for x in ps:
        if x[0] == "Enc":
            yield x
        elif x[0] == "star":
            yield from walk(x[4])
        elif x[0] == "Ite":
            yield from walk(x[2])
            yield from walk(x[3])


def final(R, ps, tier):
    R.floor("types without compressed names", 20)
    R.floor("paths", 25)
