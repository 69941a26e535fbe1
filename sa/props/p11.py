"""The top bit of the class field: multicast DNS's unicast-response and cache-flush marks."""
from api import *

EXPLAIN = """The serialisers (plain and compressed), the parsers, the getters and the setters of questions and records
are analysed on arbitrary values, bit by bit (abstract interpretation of their MIR, names and record data
summarised).  The class field written must be the class code in its low 15 bits and the mark in bit 15; reading
any class field must yield the mark from bit 15 and the class from the low 15 bits; without multicast support
the bit is written as zero and ignored."""
ASSUME = ["class codes are below 2^15"]

WHAT = {"Question": ("unicast_response", 2), "ResourceRecord": ("cache_flush", 2)}
CLASS = {"Question": "QClass", "ResourceRecord": "RecordClass"}


def units(p, tier):
    return [t + ":" + w for t in sorted(WHAT) for w in ("write", "compressed", "read", "set", "new")]


def setup(p):
    c = ctx(p, fit=True)
    con = Contracts(p, ("FQDN", "RecordData"), decode=False, pos=True)
    con.install(c)
    return c


def mark(c, p, t, st, cell):
    """the mark of a value as its getter tells it: [(state, condition)]"""
    g = inherent(p, t, WHAT[t][0])
    if g is None:
        return [(st, None)]
    return [(s, v[1] if v[0] == "b" else None) for s, v in run(c, g, [("ref", cell, ())], st)]


def class_of(c, p, t, st, cell):
    """the code of a value's class, by the library's own table: [(state, number)]"""
    g = inherent(p, t, "class")
    out = []
    for s, r in run(c, g, [("ref", cell, ())], st):
        v = c.read(s, r[1], r[2])
        out += to_code(c, p, t, s, v)
    return out


def to_code(c, p, t, s, v):
    i = code_writers(p).get(type_named(p, CLASS[t]))
    return run(c, i, [v], s) if i is not None else []


def has(p):
    return p.cfgname in ("all", "mdns")


def write(R, p, t, comp):
    c = setup(p)
    e = method(p, t, "CompressedByteConvertible", "to_bytes_compressed") if comp else method(p, t, "ByteConvertible", "to_bytes")
    key = "%s:%s" % (t, "compressed" if comp else "write")
    rule = "class field is class and mark"
    R.count("serialisers")
    if e is None:
        R.refuted(key + ":missing", "no serialiser", "", rule)
        return
    sty = p.types[argty(e, 0)]["e"]
    for s0, v in start_values(c, sty, t):
        s0 = s0.copy()
        s0.mem[("S", 0)] = v
        args = [("ref", ("S", 0), ())]
        if comp:
            s0.mem[("N", 0)] = mk_sym(("arg", "names"), p.types[argty(e, 1)]["e"])
            args += [("ref", ("N", 0), ()), mk_sym(("arg", "offset"), argty(e, 2))]
        for s1, m in mark(c, p, t, s0, ("S", 0)):
            for s2, code in class_of(c, p, t, s1, ("S", 0)):
                for s, b in run(c, e, args, s2):
                    if b[0] != "seq" or not b[1] or b[1][0][0] != "Enc" or len(b[1]) < 5 or any(x[0] != "B" for x in b[1][1:5]):
                        R.undecided(key, "layout unknown: %s" % show_val(b)[:150], e["span"], rule)
                        continue
                    hi, lo = b[1][3][1], b[1][4][1]
                    hi, lo = s.facts.norm(hi), s.facts.norm(lo)
                    word = T.from_bits(T.bits_or_opaque(lo, 8) + T.bits_or_opaque(hi, 8))
                    want = code
                    bad = s.facts.decide(ge0(K(0x7fff) - code))
                    if bad is not True:
                        s = s.assume(ge0(K(0x7fff) - code))
                        if s is None:
                            continue
                    if m is not None and m is not False:
                        want = want + b2i(m).scale(0x8000) if m is not True else want + 0x8000
                    q = same_lin(s.facts, word, want)
                    verdict(R, key, q, s, "the class field of %s is %s and should be %s" % (t, show_lin(s.facts.norm(word))[:120], show_lin(s.facts.norm(want))[:120]), e["span"], rule)
    R.use(c)


def read_(R, p, t):
    c = setup(p)
    d = decoder(p, t)
    key = t + ":read"
    rule = "mark and class are read from the class field"
    R.count("parsers")
    c2 = Contracts(p, ("FQDN",), decode=True)
    c2.install(c)
    nm = mk_sym(("arg", "name"), type_named(p, "FQDN"))
    by = [L(T.mk_atom(("var", ("in", n)), 0, 255)) for n in range(10)]
    st = State()
    rest = ("Blob", ("rest",), ZERO, length(("rest",)))
    r = mk_buffer(p, st, (enc_piece("FQDN", nm),) + tuple(("B", x) for x in by) + (rest,), ZERO)
    st = st.assume(eq0(length(("rest",)) - by[8].scale(256) - by[9])) if t == "ResourceRecord" else st
    st.trail = ()
    from panic import havoc, code_tables, code_contract
    for tn, i in code_tables(p):
        if tn != CLASS[t]:
            c.contracts[i["name"]] = code_contract(i)
    rd = inherent(p, "RecordData", "from")
    if rd is not None:
        c.contracts[rd["name"]] = havoc(p, "RecordData", 0, True)
    c.contract_broken = []
    word = by[2].scale(256) + by[3]
    top_ = T.from_bits(T.to_bits(by[2], 8)[7:])
    low = T.from_bits(T.to_bits(by[2], 8)[:7]).scale(256) + by[3]
    n = 0
    for s, v in run(c, d, [r], st):
        if v[0] != "adt":
            R.undecided(key, "result unknown", d["span"], rule)
            continue
        if not is_ok(v):
            continue
        n += 1
        s = s.copy()
        s.mem[("S", 0)] = v[3][0]
        for s1, m in mark(c, p, t, s, ("S", 0)):
            if m is not None:
                verdict(R, key + " mark", same(("b", m), ("b", neg(eq0(top_))), s1.facts), s1, "the mark read is not bit 15 of the class field", d["span"], rule)
            for s2, code in class_of(c, p, t, s1, ("S", 0)):
                verdict(R, key + " class", same_lin(s2.facts, code, low), s2, "the class read is %s, the field holds %s" % (show_lin(s2.facts.norm(code))[:80], show_lin(s2.facts.norm(low))[:80]), d["span"], rule)
    if not n:
        R.undecided(key + ":none", "no successful path", d["span"], rule)
    R.use(c)


def set_(R, p, t):
    g, se = inherent(p, t, WHAT[t][0]), inherent(p, t, "set_" + WHAT[t][0])
    cs = inherent(p, t, "set_class")
    rule = "the mark and the class are independent"
    c = setup(p)
    R.count("setters")
    ty = type_named(p, t)
    old = mk_sym(("arg", "value"), ty)
    if (g is None or se is None) and has(p):
        R.refuted(t + ":missing", "no accessor for the mark", "", rule)
        return
    if se is not None:
        for text, v in consts(p, argty(se, 1)):
            st = State()
            st.mem[("S", 0)] = old
            for s, _ in run(c, se, [("ref", ("S", 0), ()), v], st):
                for s1, m in mark(c, p, t, s, ("S", 0)):
                    verdict(R, t + ":set mark", same(("b", m), v, s1.facts), s1, "set_%s(%s) is not what is read back" % (WHAT[t][0], text), se["span"], rule)
                    unchanged(R, c, p, t, s1, old, WHAT[t][0], "set_" + WHAT[t][0], se["span"], rule)
    if cs is not None:
        cl = mk_sym(("arg", "class"), argty(cs, 1))
        st = State()
        st.mem[("S", 0)] = old
        for s0, m0 in mark(c, p, t, st, ("S", 0)):
            for s, _ in run(c, cs, [("ref", ("S", 0), ()), cl], s0):
                for s1, m in mark(c, p, t, s, ("S", 0)):
                    if m is not None:
                        verdict(R, t + ":set class keeps mark", same(("b", m), ("b", m0), s1.facts), s1, "set_class changes the mark", cs["span"], rule)
                    gc = inherent(p, t, "class")
                    for s2, r in run(c, gc, [("ref", ("S", 0), ())], s1):
                        verdict(R, t + ":set class", same(c.read(s2, r[1], r[2]), cl, s2.facts), s2, "set_class is not what is read back", cs["span"], rule)
    R.use(c)


def unchanged(R, c, p, t, s, old, but, what, where, rule):
    """every other getter says what it said before"""
    ty = type_named(p, t)
    for (tt, n), l in sorted(p.inherent.items()):
        i = l[0]
        if tt != t or n == but or i["body"]["argc"] != 1 or p.types[argty(i, 0)]["k"] != "ref" or p.types[argty(i, 0)].get("m"):
            continue
        s0 = s.copy()
        s0.mem[("O", 0)] = old
        try:
            for s1, a in run(c, i, [("ref", ("O", 0), ())], s0):
                for s2, b in run(c, i, [("ref", ("S", 0), ())], s1):
                    x = c.read(s2, a[1], a[2]) if isinstance(a, tuple) and a[0] == "ref" else a
                    y = c.read(s2, b[1], b[2]) if isinstance(b, tuple) and b[0] == "ref" else b
                    verdict(R, "%s:%s keeps %s" % (t, what, n), same(x, y, s2.facts), s2, "%s changes what %s() says" % (what, n), where, rule)
        except Budget as x:
            R.undecided("%s:%s keeps %s" % (t, what, n), str(x), where, rule)


def new_(R, p, t):
    c = setup(p)
    i = inherent(p, t, "new")
    R.count("constructors")
    rule = "the mark is off unless set"
    if i is None:
        return
    args = [mk_sym(("arg", "a%d" % n), argty(i, n)) for n in range(i["body"]["argc"])]
    for s, v in run(c, i, args, State()):
        s = s.copy()
        s.mem[("S", 0)] = v
        for s1, m in mark(c, p, t, s, ("S", 0)):
            if m is not None:
                verdict(R, t + ":new", same(("b", m), ("b", False), s1.facts), s1, "a new %s has the mark set" % t, i["span"], rule)
            for s2, k in class_of(c, p, t, s1, ("S", 0)):
                for a in args:
                    if c.type_of(a) is not None and last(p.types[c.type_of(a)].get("def", "")) == CLASS[t]:
                        for s3, k2 in to_code(c, p, t, s2, a):
                            verdict(R, t + ":new class", same_lin(s3.facts, k, k2), s3, "a new %s has another class" % t, i["span"], rule)
    R.use(c)


def run_unit(R, p, u, tier):
    t, w = u.split(":")
    if w in ("write", "compressed"):
        write(R, p, t, w == "compressed")
    elif w == "read":
        read_(R, p, t)
    elif w == "set":
        set_(R, p, t)
    else:
        new_(R, p, t)


def final(R, ps, tier):
    R.floor("serialisers", 4 * len(ps))
    R.floor("parsers", 2 * len(ps))
    R.floor("setters", 2 * len(ps))
