"""Record data and its announced length."""
from panic import *
from rt import same_lin

EXPLAIN = """Writing: in the byte pattern of every encoder path of a resource record (plain and compressed) the 16-bit
field in front of the record data must be the length of what follows.  Reading: the record parser is
interpreted abstractly on arbitrary bytes; the buffer it hands to the record data parser must start at
the beginning of the message (so that names in it can be followed), be positioned at the first byte of
the data and end where the announced length says, the type handed over must be the one read, and the
parser must resume right after the announced length whatever the record data parser consumed."""
ASSUME = ["the owner name ends where the name parser leaves the cursor"]


def units(p, tier):
    return ["written", "written~", "read", "parameter"]


def run(R, p, u, tier):
    R.count("parts")
    {"written": written, "written~": written, "read": read, "parameter": parameter}[u](R, p, u)


def written(R, p, u):
    e = method(p, "ResourceRecord", "CompressedByteConvertible", "to_bytes_compressed") if u.endswith("~") else method(p, "ResourceRecord", "ByteConvertible", "to_bytes")

    def mk():
        c = ctx(p, fit=True)
        c.con = Contracts(p, ("FQDN", "RecordData"))
        c.con.install(c)
        return c
    with Rules({}):
        rules = written_rules([x[:2] for x in encode_all(mk(), e, "ResourceRecord")])[0]
    with Rules(rules):
        c = mk()
        outs = encode_all(c, e, "ResourceRecord")
        R.use(c)
        for s, b, v in outs:
            key = "record length %s" % u
            if b[0] != "seq":
                R.undecided(key, "serialised form unknown", e["span"], "length written")
                continue
            ps = b[1]
            at = [n for n, x in enumerate(ps) if x[0] == "Enc" and x[1].rstrip("~") == "RecordData"]
            if len(at) != 1 or at[0] < 2:
                R.undecided(key, "record data not found in the pattern", e["span"], "length written")
                continue
            n = at[0]
            hi, lo = ps[n - 2], ps[n - 1]
            if hi[0] != "B" or lo[0] != "B":
                R.undecided(key, "no two bytes in front of the record data", e["span"], "length written")
                continue
            want = pieces_len(ps[n:])
            f = fit(c, s.copy(), written_rules([(s, b)])[1]).facts
            # a length that fits 16 bits
            f = f.assume(ge0(f.norm(K(65535) - want))) or f
            got = T.from_bits(T.to_bits(f.norm(lo[1]), 8) + T.to_bits(f.norm(hi[1]), 8))
            q = same_lin(f, got, want)
            if q is True:
                R.proven(key, e["span"], "length written")
            elif q is False and precise_trail(s) and sample.feasible(f):
                R.refuted(key, "the length in front of the record data is %s for %s bytes" % (show_lin(f.norm(got))[:200], show_lin(want)[:200]), e["span"], "length written")
            else:
                R.undecided(key, "length field %s for %s bytes" % (show_lin(f.norm(got))[:200], show_lin(want)[:200]), e["span"], "length written")


def inner(c, st, b):
    while True:
        bv = c.read(st, b[1], b[2])
        if bv[0] == "ref":
            b = bv
            continue
        return b, bv


def read(R, p, u):
    d = decoder(p, "ResourceRecord")
    c = ctx(p)
    ty, dd, q = buffer_fields(p)
    seen = []

    def fq(c, st, inst, args, r):
        b, bv = inner(c, st, args[0])
        pos, ln = bv[3][q[0]], bv[3][dd[0]][4]
        out = []
        flag = ("bv", ("name?",))
        for i, x in enumerate(tinfo(r)["v"]):
            s = st.assume(flag if x["n"] == "Ok" else neg(flag))
            if x["n"] == "Ok":
                np = length(("name end",))
                s = s.assume(ge0(s.facts.norm(np - pos - 1)))
                s = s.assume(ge0(s.facts.norm(ln - np))) if s else None
                if s is None:
                    continue
                fs = list(bv[3])
                fs[q[0]] = np
                s = s.copy()
                c.write(s, b[1], b[2], ("adt", bv[1], bv[2], tuple(fs)))
            out.append((s, ("adt", r, i, (mk_sym(("name", x["n"]), x["f"][0][1]),))))
        return out

    def rd(c, st, inst, args, r):
        b, bv = inner(c, st, args[1])
        seen.append((st, args[0], bv, len(c.stack)))
        out = []
        flag = ("bv", ("data?",))
        for i, x in enumerate(tinfo(r)["v"]):
            s = st.assume(flag if x["n"] == "Ok" else neg(flag))
            if s is None:
                continue
            s = s.copy()
            # the data parser may leave its cursor anywhere
            fs = list(bv[3])
            np = length(("data parser end",))
            fs[q[0]] = np
            s = s.assume(ge0(s.facts.norm(np - bv[3][q[0]])))
            s = s.assume(ge0(s.facts.norm(bv[3][dd[0]][4] - np))) if s else None
            if s is None:
                continue
            s = s.copy()
            s.trail = tuple(t for t in s.trail if not T.is_imprecise(t))
            c.write(s, b[1], b[2], ("adt", bv[1], bv[2], tuple(fs)))
            out.append((s, ("adt", r, i, (mk_sym(("data", x["n"]), x["f"][0][1]),))))
        return out
    for i in [decoder(p, "FQDN"), inherent(p, "DnsBuffer", "extract_fqdn")]:
        if i:
            c.contracts[i["name"]] = fq
    c.contracts[inherent(p, "RecordData", "from")["name"]] = rd
    for t, i in code_tables(p):
        c.contracts[i["name"]] = code_contract(i)
    st = State()
    w = ("wire",)
    pos = length(("pre",))
    r = mk_buffer(p, st, (("Blob", w, ZERO, length(w)),), pos)
    st = st.assume(ge0(length(w) - pos))
    st.trail = ()
    try:
        outs = c.call(d, [r], st, rty(d))
    except Budget as x:
        R.undecided("record read:budget", str(x), d["span"], "window")
        return
    R.use(c)
    e0 = length(("name end",))

    def byte(f, n):
        return elem_val(w, f.norm(e0 + n), u8_ty())

    def verdict(key, qq, s, why, rule):
        if qq is True:
            R.proven(key, d["span"], rule)
        elif qq is False and precise_trail(s) and sample.feasible(s.facts):
            R.refuted(key, why, d["span"], rule)
        else:
            R.undecided(key, why, d["span"], rule)
    R.count("data parser calls", len(seen))
    if not seen:
        R.undecided("record read: data parser", "record data parser not called directly", d["span"], "window")
    for s, t, bv, _ in seen:
        sl, ps = bv[3][dd[0]], bv[3][q[0]]
        f = s.facts
        rl = byte(f, 8).scale(256) + byte(f, 9)
        src = c.read(s, sl[1], sl[2])
        same = src[0] == "seq" and len(src[1]) == 1 and src[1][0][0] == "Blob" and src[1][0][1] == w
        if not same:
            R.undecided("record read: window", "window is not a part of the message", d["span"], "window")
            continue
        base = src[1][0][2] + sl[3]
        verdict("record read: names are followed from the start of the message", same_lin(f, base), s, "the data parser sees the message from byte %s on" % show_lin(f.norm(base))[:150], "window")
        ab = f.norm(base + ps)
        verdict("record read: data starts after the length", same_lin(f, ab - e0 - 10), s, "the data parser starts at %s" % show_lin(ab)[:150], "window")
        en = f.norm(base + sl[4])
        verdict("record read: data ends where announced", same_lin(f, en - e0 - 10 - rl), s, "the data parser may read up to %s instead of %s" % (show_lin(en)[:200], show_lin(f.norm(e0 + 10 + rl))[:200]), "window")
        code = byte(f, 0).scale(256) + byte(f, 1)
        if isinstance(t, tuple) and t[0] == "sym" and t[1][0] == "Ok" and t[1][1][:2] == ("app", "code"):
            raw = elem_val(w, e0, u8_ty()).scale(256) + elem_val(w, e0 + 1, u8_ty())
            verdict("record read: type", True if t[1][1][3] == raw else same_lin(f, code - t[1][1][3]), s, "data is read under type number %s" % show_lin(t[1][1][3])[:100], "window")
        elif isinstance(t, tuple) and t[0] == "adt" and tinfo(t[1])["v"][t[2]].get("d") is not None:
            dv = tinfo(t[1])["v"][t[2]]["d"]
            verdict("record read: type", same_lin(f, code - dv), s, "data is read under type number %s" % dv, "window")
    for s, v in outs:
        if v[0] != "adt":
            R.undecided("record read: result", "unknown result", d["span"], "resume")
            continue
        if not is_ok(v):
            R.proven("record read: failure", d["span"], "resume")
            continue
        po = buf_pos(p, s)[0]
        f = s.facts
        rl = byte(f, 8).scale(256) + byte(f, 9)
        verdict("record read: resumes after the announced length", same_lin(f, po - e0 - 10 - rl), s, "reading continues at %s instead of %s" % (show_lin(f.norm(po))[:200], show_lin(f.norm(e0 + 10 + rl))[:200]), "resume")


def parameter(R, p, u):
    """a service parameter occupies four bytes and its announced length"""
    d = decoder(p, "Param")
    c = ctx(p)
    st = State()
    w = ("wire",)
    pos = length(("pre",))
    r = mk_buffer(p, st, (("Blob", w, ZERO, length(w)),), pos)
    st = st.assume(ge0(length(w) - pos))
    st.trail = ()
    try:
        outs = c.call(d, [r], st, rty(d))
    except Budget as x:
        R.undecided("parameter:budget", str(x), d["span"], "resume")
        return
    R.use(c)
    for s, v in outs:
        if v[0] != "adt" or not is_ok(v):
            continue
        po = buf_pos(p, s)[0]
        ln = elem_val(w, s.facts.norm(pos + 2), u8_ty()).scale(256) + elem_val(w, s.facts.norm(pos + 3), u8_ty())
        q = same_lin(s.facts, po - pos - 4 - ln)
        if q is True:
            R.proven("parameter: resumes after the announced length", d["span"], "resume")
        elif q is False and precise_trail(s) and not T.is_imprecise(po) and sample.feasible(s.facts):
            R.refuted("parameter: resumes after the announced length", "reading continues at %s, %s announced" % (show_lin(s.facts.norm(po))[:200], show_lin(ln)), d["span"], "resume")
        else:
            R.undecided("parameter: resumes after the announced length", "continues at %s when %s" % (show_lin(s.facts.norm(po))[:200], [show_cond(x) for x in s.trail][:6]), d["span"], "resume")


def final(R, ps, tier):
    R.floor("parts", 4 * len(ps))
