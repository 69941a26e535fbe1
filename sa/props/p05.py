"""Round trip of headers, questions and resource records, plain and compressed."""
from rt import *

EXPLAIN = """The encoders of headers, questions and resource records (plain and compressed form) are interpreted
abstractly on a symbolic value, their byte pattern is handed to the decoder's MIR as an abstract buffer
followed by arbitrary bytes, and the value read back and the position reached are compared with the
original and the end of the encoding, for every combination of an encoder path and a decoder path.
Names and record data stand for themselves (assume/guarantee: P04, P10 and P08); the window handed to the
record data parser must hold exactly the record data and the type it is read under must be the record's."""
ASSUME = ["names and record data are read back as written when they are read from exactly their bytes (P04, P08, P10)",
          "the response code of a header is a defined one; the record data fits its 16-bit length",
          "a class number is below 0x8000"]
KINDS = ("FQDN", "RecordData")


def units(p, tier):
    return ["Header", "Question", "Question~", "ResourceRecord", "ResourceRecord~"]


def run(R, p, u, tier):
    tn = u.rstrip("~")
    R.count("codecs")
    e = method(p, tn, "CompressedByteConvertible", "to_bytes_compressed") if u.endswith("~") else method(p, tn, "ByteConvertible", "to_bytes")
    d = decoder(p, tn)
    if e is None or d is None:
        R.refuted("%s:missing" % u, "no %s" % ("encoder" if e is None else "decoder"), "", "round trip")
        return
    obs, c, rules = roundtrip(p, tn, contracts=KINDS, post=True, enc=e)
    R.use(c)
    R.count("encoder/decoder paths", len(obs))
    for st, k, room, stack in c.con.windows:
        if precise_trail(st) and not T.is_imprecise(room) and st.facts.decide(eq0(room)) is False and sample.feasible(st.facts):
            R.refuted("%s:window" % u, "the %s parser is given a window that differs from the data by %s bytes" % (k, show_lin(room)[:300]), d["span"], "exact window")
        else:
            R.undecided("%s:window" % u, "window of the %s parser differs by %s" % (k, show_lin(room)[:300]), d["span"], "exact window")
    for st, a, piece in c.con.types_read:
        kind_read(R, p, u, c, st, a, d)
    for o in obs:
        key = u + {"proven": "", "refuted": ":differs", "undecided": ":unknown"}[o.status]
        if o.status == "proven":
            R.proven("%s %s" % (u, o.id), o.where, "round trip")
        else:
            R.ob(key, o.status, o.why, o.where, "round trip")


def kind_read(R, p, u, c, st, a, d):
    """the type the data is read under is the type of the record"""
    sty = p.types[argty(method(p, "ResourceRecord", "ByteConvertible", "to_bytes"), 0)]["e"]
    fs = p.types[sty]["v"][0]["f"]
    ix = [n for n, f in enumerate(fs) if p.types[f[1]]["k"] == "adt" and last(p.types[f[1]]["def"]) == "RecordType"]
    if len(ix) != 1:
        R.undecided("%s:type" % u, "no single record type in a resource record", d["span"], "type of the data")
        return
    v = st.facts.norm(st.mem[("S", 0)][3][ix[0]]) if ("S", 0) in st.mem else None
    q = equal(a, v, st.facts, []) if v is not None else None
    key = "%s:type" % u
    if q is True:
        R.proven(key, d["span"], "type of the data")
    elif q is False and precise_trail(st) and sample.feasible(st.facts):
        R.refuted(key, "record data is read under type %s, the record has type %s" % (show_val(a)[:200], show_val(v)[:200]), d["span"], "type of the data")
    else:
        R.undecided(key, "record data is read under %s" % show_val(a)[:200], d["span"], "type of the data")


def final(R, ps, tier):
    R.floor("codecs", 5 * len(ps))
