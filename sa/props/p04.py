"""Round trip of record data."""
import bitmap
from rt import *

EXPLAIN = """For every record data type the encoder is analysed on a symbolic value by abstract
interpretation of its MIR (value numbering, affine facts, path partitioning, loop summaries by
induction); the resulting byte pattern is handed to the decoder's MIR as an abstract buffer and the
value it yields is compared, part by part, with the value that was encoded, as is the position it
stops at.  An obligation is one encoder path combined with one decoder path."""
ASSUME = ["name labels are 1 to 63 bytes long", "a list or string fits the length field it is written with",
          "enumerations with a numeric catch-all hold only codes that some code reads back as",
          "nested names (and SVCB parameters) are read back as written; this is itself an obligation of this check"]

# wire widths (bits) of the length fields a type writes, from the RFCs
WIDTHS = {"Caa": [8], "Hinfo": [8, 8], "Hip": [8, 16], "Naptr": [8, 8, 8], "Opt": [16], "Tkey": [16, 16],
          "Tsig": [16, 16], "Txt": [8], "FQDN": [6]}
# bitmaps: data-dependent bit positions, outside the domain
SKIP = {"Csync", "Nsec"}


def units(p, tier):
    l = sorted(p.impls.get(("RData", "record_type"), {}))
    return [t for t in l if t not in SKIP] + ["types of " + h[0] for h in bitmap.holders(p)] + ["FQDN", "Param"]


def run(R, p, tn, tier):
    if tn.startswith("types of "):
        h = [h for h in bitmap.holders(p) if h[0] == tn[9:]][0]
        bitmap.write(R, p, *h, bitmap.some(p), (), "round trip", True)
        return
    R.count("record data types")
    e = method(p, tn, "ByteConvertible", "to_bytes")
    d = decoder(p, tn)
    if e is None or d is None:
        R.refuted("%s:missing" % tn, "no %s for this type" % ("encoder" if e is None else "decoder"), "", "round trip")
        return
    con = ("FQDN", "Param") if tn != "Param" else ("FQDN",)
    obs, c, rules = roundtrip(p, tn, contracts=con, post=tn in ("FQDN", "Param"))
    if any(o.status == "undecided" for o in obs) and not any(o.status == "refuted" for o in obs):
        # the contracts may be what got in the way
        o2, c2, r2 = roundtrip(p, tn, contracts=(), post=tn in ("FQDN", "Param"))
        if any(o.status == "refuted" for o in o2) or all(o.status == "proven" for o in o2):
            obs, c, rules = o2, c2, r2
    R.use(c)
    R.count("encoder/decoder paths", len(obs))
    seen = {}
    for o in obs:
        k = {"proven": "", "refuted": ":differs", "undecided": ":unknown"}[o.status]
        key = tn + k
        if o.status == "proven":
            R.proven("%s %s" % (tn, o.id), o.where, "round trip")
        else:
            R.ob(key, o.status, o.why, o.where, "round trip")
    if tn in WIDTHS and all(o.status == "proven" for o in obs):
        got = sorted(x[1].bit_length() for x in rules.values())
        ok = len(got) >= len(WIDTHS[tn]) and all(a >= b for a, b in zip(got, WIDTHS[tn])) or len(got) > len(WIDTHS[tn])
        R.check(ok, "%s:length width" % tn, "length fields of %s bits; the format has %s" % (got, WIDTHS[tn]), e["span"], "length field widths")


def final(R, ps, tier):
    R.floor("record data types", 67)
