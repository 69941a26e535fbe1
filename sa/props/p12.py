"""Header flags: every accessor reads and writes its own bits of the header, and no others."""
from api import *

EXPLAIN = """Every header accessor, setter and constructor is analysed on an arbitrary header by bit-precise abstract
interpretation of its MIR (each bit of the header is tracked symbolically); the header is observed through its
serialised form.  A getter must yield the bits RFC 1035 gives its field; a setter must replace exactly these
bits (and those the protocol ties to them) and no other bit of the twelve bytes."""
ASSUME = ["the operation code set is one of those the library names; other codes read back as reserved"]

# the 16 flag bits, least significant first, numbered from the low bit of the big-endian word
BITS = {"query_response": (15, 1), "opcode": (11, 4), "authoritative_answer": (10, 1), "truncation": (9, 1),
        "recursion_desired": (8, 1), "recursion_available": (7, 1), "response_code": (0, 4)}
# what the header of a query or of an answer cannot carry: (setter, value text) -> {field: value}
TIED = {("query_response", "false"): {"recursion_available": 0, "response_code": 0},
        ("recursion_available", "true"): {"query_response": 1}}


def tied(name, text):
    if name == "response_code" and text != "NoError":
        return {"query_response": 1}
    return TIED.get((name, text), {})


def units(p, tier):
    return [o + "." + n for o in ("Header", "Packet") for n in sorted(BITS)] + ["constructors", "identifier"]


def bits_of(st, b):
    """the 96 bits of a serialised header, per 16-bit word, least significant first"""
    out = []
    ps = b[1]
    bs = []
    for n in range(12):
        v = seq_elem(b, K(n), st.facts)
        bs.append(T.to_bits(v, 8))
    for w in range(6):
        out.append(list(bs[2 * w + 1]) + list(bs[2 * w]))
    return out


def wire(c, p, st, cell):
    e = method(p, "Header", "ByteConvertible", "to_bytes")
    out = []
    ref = ("ref", cell, ())
    ty = c.type_of(c.read(st, cell, ()))
    hs = [(st, ref)]
    if last(p.types[ty]["def"]) == "Packet":
        h = inherent(p, "Packet", "header")
        hs = run(c, h, [ref], st)
    for s0, r in hs:
        for s, b in c.call(e, [r], s0, rty(e)):
            if b[0] != "seq" or s.facts.decide(eq0(seq_len(b) - 12)) is not True:
                return None
            out.append((s, bits_of(s, b)))
    return out


def setup(p, owner):
    c = ctx(p)
    ty = type_named(p, owner)
    st = State()
    st.mem[("H", 0)] = mk_sym(("arg", "header"), ty)
    # an arbitrary header that can exist: its response code is defined
    return c, ty, st


def code(p, text, v):
    if v[0] == "b":
        return 1 if v[1] is True else 0
    return discr(p, v)


def field(word, n):
    lo, w = BITS[n]
    return T.from_bits(word[lo:lo + w])


def cmp_words(R, p, key, s, got, want, where, why, rule):
    for w in range(6):
        for k in range(16):
            a, b = T.from_bits([got[w][k]]), T.from_bits([want[w][k]])
            q = same_lin(s.facts, a, b)
            if q is not True:
                verdict(R, key, q, s, "%s: bit %d of word %d is %s and should be %s" % (why, k, w, show_lin(a)[:80], show_lin(b)[:80]), where, rule)
                return
    R.proven(key, where, rule)


def starts(p, c, st):
    """headers that can exist, with their bits: the response code is a defined one"""
    out = []
    for s, w in wire(c, p, st, ("H", 0)) or []:
        out.append((s, w))
    return out


def sections_kept(R, p, key, s, st0, where):
    a, b = s.mem[("H", 0)], st0.mem[("H", 0)]
    for i, f in enumerate(p.types[b[2] if b[0] == "sym" else b[1]]["v"][0]["f"]):
        if last(p.types[f[1]].get("def", "")) == "Header":
            continue
        x, y = get_field(a, i), get_field(b, i)
        verdict(R, key + " keeps " + f[0], equal(x, y, s.facts, []), s, "%s changes the %s of the message" % (key, f[0]), where, "flags do not touch the sections")


def get_field(v, i):
    return v[3][i] if v[0] == "adt" else sym_fields(v, 0)[i]


def run_(R, p, u, tier):
    owner, n = u.split(".")
    c, ty, st0 = setup(p, owner)
    R.count("fields")
    g = inherent(p, owner, n)
    se = inherent(p, owner, "set_" + n)
    n0, n = n, u
    if g is None or se is None:
        R.refuted("%s:missing" % n, "no accessor", "", "accessors exist")
        return
    ws = starts(p, c, st0)
    if not ws:
        R.undecided("%s:wire" % n, "serialised header unknown", "", "getter reads its bits")
        return
    for st, word in ws:
        st = st.copy()
        st.trail = ()
        # reading
        try:
            outs = run(c, g, [("ref", ("H", 0), ())], st)
        except Budget as x:
            outs = []
            R.undecided("%s:get" % n, str(x), g["span"], "getter reads its bits")
        for s, v in outs:
            f = field(word[1], n0)
            if v[0] == "b":
                q = same(v, ("b", neg(eq0(f))), s.facts)
            elif v[0] == "adt":
                vs = p.types[v[1]]["v"]
                d = vs[v[2]]["d"]
                if n0 == "opcode" and d == max(x["d"] for x in vs):
                    q = s.facts.decide(ge0(f - d))
                else:
                    q = s.facts.decide(eq0(f - d))
                if q is None and sample.lin_differs(s.facts, f - d) is True and not (n0 == "opcode" and d == max(x["d"] for x in vs)):
                    q = False
            else:
                q = None
            verdict(R, "%s:get" % n, q, s, "%s() yields %s while its bits are %s" % (n, show_val(v)[:100], show_lin(f)[:100]), g["span"], "getter reads its bits")
        # writing
        for text, v in consts(p, argty(se, 1)) or []:
            R.count("settings")
            try:
                outs = run(c, se, [("ref", ("H", 0), ()), v], st.copy())
            except Budget as x:
                R.undecided("%s:set" % n, str(x), se["span"], "setter writes its bits")
                continue
            want = [list(x) for x in word]
            ch = dict(tied(n0, text))
            ch[n0] = code(p, text, v)
            for f, x in ch.items():
                lo, w = BITS[f]
                want[1][lo:lo + w] = T.to_bits(K(x), w)
            for s, _ in outs:
                ws2 = wire(c, p, s, ("H", 0))
                if owner == "Packet":
                    sections_kept(R, p, n + ":set", s, st, se["span"])
                for s2, got in ws2 or []:
                    cmp_words(R, p, "%s:set" % n, s2, got, want, se["span"], "after set_%s(%s)" % (n, text), "setter writes its bits and no others")
    R.use(c)


def ctors(R, p):
    c = ctx(p)
    rules = "constructors set what they are given"
    for ow, nm in [("Header", "new_query"), ("Header", "new_reply"), ("Packet", "new_query"), ("Packet", "new_reply"), ("Packet", "with_questions")]:
        i = inherent(p, ow, nm)
        R.count("constructors")
        key = ow + "." + nm
        if i is None:
            R.refuted("%s:missing" % key, "no constructor", "", rules)
            continue
        for text, v in (consts(p, argty(i, 1)) or []) if i["body"]["argc"] > 1 else [("StandardQuery", None)]:
            idv = mk_sym(("arg", "id"), argty(i, 0))
            ql = mk_sym(("arg", "questions"), argty(i, 2)) if nm == "with_questions" else None
            n = seq_len(ql) if ql is not None else ZERO
            st = State()
            if ql is not None:
                st = st.assume(ge0(K(65535) - n))
                st.trail = ()
            for s, h in run(c, i, [x for x in (idv, v, ql) if x is not None], st):
                s.mem[("H", 0)] = h
                want = [T.to_bits(idv, 16)] + [T.to_bits(ZERO, 16) for _ in range(5)]
                want = [list(x) for x in want]
                if ql is not None:
                    want[2] = list(T.bits_or_opaque(st.facts.norm(n), 16))
                ch = {"opcode": 0, "recursion_desired": code(p, text, v)} if nm != "new_reply" else {"opcode": code(p, text, v) if v is not None else 0, "query_response": 1}
                for f, x in ch.items():
                    lo, w = BITS[f]
                    want[1][lo:lo + w] = T.to_bits(K(x), w)
                for s2, got in wire(c, p, s, ("H", 0)) or []:
                    cmp_words(R, p, key, s2, got, want, i["span"], "%s(id, %s)" % (nm, text), rules)
                if ow == "Packet":
                    for m, w in (("questions", ql), ("answers", None), ("authorities", None), ("additionals", None)):
                        g = inherent(p, "Packet", m)
                        for s3, v3 in run(c, g, [("ref", ("H", 0), ())], s):
                            ln = v3[4] if v3[0] == "sl" else None
                            q = same_lin(s3.facts, ln, seq_len(w) if w is not None else ZERO) if isinstance(ln, Lin) else None
                            verdict(R, key + ":" + m, q, s3, "%s starts with %s %s" % (nm, show_val(v3)[:80], m), i["span"], rules)
    R.use(c)


def ident(R, p):
    rule = "the identifier is the first word"
    g, se = inherent(p, "Packet", "id"), inherent(p, "Packet", "set_id")
    c, ty, st = setup(p, "Packet")
    R.count("identifiers")
    if g is None or se is None:
        R.refuted("id:missing", "no accessor", "", rule)
        return
    for s0, word in starts(p, c, st):
        for s, v in run(c, g, [("ref", ("H", 0), ())], s0):
            verdict(R, "id:get", same_lin(s.facts, v, T.from_bits(word[0])) if isinstance(v, Lin) else None, s, "id() yields %s" % show_val(v)[:100], g["span"], rule)
        idv = mk_sym(("arg", "id"), argty(se, 1))
        for s, _ in run(c, se, [("ref", ("H", 0), ()), idv], s0.copy()):
            sections_kept(R, p, "id:set", s, s0, se["span"])
            for s2, got in wire(c, p, s, ("H", 0)) or []:
                cmp_words(R, p, "id:set", s2, got, [list(T.to_bits(idv, 16))] + word[1:], se["span"], "after set_id", rule)
    R.use(c)


def run_unit(R, p, u, tier):
    if u == "constructors":
        ctors(R, p)
    elif u == "identifier":
        ident(R, p)
    else:
        run_(R, p, u, tier)


def final(R, ps, tier):
    R.floor("fields", 14 * len(ps))
    R.floor("constructors", 5 * len(ps))
    R.floor("settings", 50 * len(ps))
