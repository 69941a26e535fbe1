"""Accepted data is kept as it was read."""
import bitmap
from reads import *

EXPLAIN = """For every record data type (and headers, questions, SVCB parameters) the parser's MIR is
interpreted abstractly on arbitrary bytes of arbitrary length; every value it accepts is handed to the
encoder's MIR, and the resulting byte pattern must be, byte for byte, the part of the input that was
consumed
(for data whose last field extends to the end: the whole input).  Codes and names that were converted are followed by where they were read from; a default
put in place of something that could not be read, a code mapped to another one, a part dropped or
reordered shows up as a difference from the bytes that were there."""
ASSUME = ["reserved flag bits are zero, text is UTF-8, address prefixes have full length, names are not compressed",
          "a list has at most two elements (options and parameters: one); longer lists are not examined here",
          "reading and writing a code or a name are inverse (checked by the properties on codes and names)",
          "an SVCB parameter of fixed size has that size"]

# data-dependent bit positions, outside the domain
SKIP = {"Csync", "Nsec"}
ROUNDS = {"Opt": 1, "Svcb": 1, "Param": 1}
BODY = ("body",)
# the last field extends to the end of the data: nothing may be left unread
TAIL = {"Caa", "Dhcid", "DnsKey", "Ds", "Hip", "IpSecKey", "Null", "OpenPgpKey", "Opt", "Rrsig", "Sshfp", "Svcb", "Tlsa", "Txt", "Uri", "Wks"}


def units(p, tier):
    l = sorted(p.impls.get(("RData", "record_type"), {}))
    return [t for t in l if t not in SKIP] + ["types of " + h[0] for h in bitmap.holders(p)] + ["Param", "Header"]


def sym8(n, lo=0, hi=8):
    """an arbitrary byte, or one with only the bits lo..hi"""
    x = mk_sym(("arg", n), u8_ty())
    b = T.to_bits(x, 8)
    return T.from_bits([y if lo <= i < hi else T.to_bits(ZERO, 1)[0] for i, y in enumerate(b)])


def starts(tn):
    """[(label, first bytes)]: the inputs the claim is about; arbitrary bytes follow"""
    if tn == "Caa":
        return [("", [sym8("flags", 7)])]
    if tn == "DnsKey":
        return [("", [sym8("flags1", 0, 1), sym8("flags0", 0, 1)])]
    if tn == "IpSecKey":
        return [(" gateway %d" % k, [sym8("precedence"), K(k)]) for k in (0, 1, 2, 3)]
    if tn == "Apl":
        return [(" family %d" % k, [ZERO, K(k), sym8("prefix"), sym8("n", 7) + n]) for k, n in ((1, 4), (2, 16))]
    if tn == "Naptr":
        head = [sym8(n) for n in ("o1", "o0", "p1", "p0")]
        return [("", [])] + [(" %d flags" % n, head + [K(n)] + [sym8("f%d" % i) for i in range(n)]) for n in (1, 2)]
    if tn == "Param":
        ln = [sym8("l1"), sym8("l0")]
        fix = {2: [0], 3: [2], 4: [4, 8], 6: [16, 32], 65535: [0]}
        out = []
        for k in (0, 1, 2, 3, 4, 5, 6, 65280, 65535):
            key = [K(k >> 8), K(k & 255) if k != 65280 else L_below(255)]
            out += [(" key %d length %d" % (k, n), key + [K(n >> 8), K(n & 255)]) for n in fix[k]] if k in fix else [(" key %d" % k, key + ln)]
        return out
    return [("", [])]


def L_below(n):
    return var(("arg", "private key"), 0, n - 1)


def run(R, p, tn, tier):
    if tn.startswith("types of "):
        h = [h for h in bitmap.holders(p) if h[0] == tn[9:]][0]
        bitmap.read(R, p, *h, [(x, bitmap.blocks(x, pad)) for x in bitmap.some(p) for pad in (False, True) if x or not pad], "kept as read")
        return
    R.count("parsers")
    d, e = decoder(p, tn), method(p, tn, "ByteConvertible", "to_bytes")
    if d is None or e is None:
        R.refuted("%s:missing" % tn, "no parser or no encoder", "", "kept as read")
        return
    kinds = [("FQDN", 1)] + ([("Param", 4)] if tn == "Svcb" else [])
    ctx(p)
    for label, first in starts(tn):
        c = ctx(p, fit=True, utf8=True, rounds=ROUNDS.get(tn, 2 if tier == "quick" else 3))
        c.contract_broken = []
        log = []
        Contracts(p, [k for k, _ in kinds], decode=False).install(c)
        for k, m in kinds:
            for i in fqdn_decoders(p) if k == "FQDN" else [decoder(p, k)]:
                if i is not None:
                    c.contracts[i["name"]] = nested(p, k, log, m)
        codes(p, c, {"RecordClass", "QClass", "ParamKey"})
        st = State()
        pos = length(("pre",))
        T.PREFER.clear()
        T.PREFER.add(length(BODY).t[0][0])
        first = tuple(("B", x) for x in first)
        r = mk_buffer(p, st, (("Blob", ("pre",), ZERO, pos),) + first + (("Blob", BODY, ZERO, length(BODY)),), pos)
        n = 0
        try:
            outs = c.call(d, [r], st, rty(d))
            R.count("parser outcomes", len(outs))
            n = accept(R, p, c, tn, label, outs, e, d, log, pos, first)
        except Budget as x:
            R.undecided("%s%s:budget" % (tn, label), str(x)[:100], d["span"], "kept as read")
        finally:
            T.PREFER.clear()
        R.use(c)
        if c.cut:
            R.count("longer lists left out", c.cut)
        if not n:
            R.undecided("%s%s:none" % (tn, label), "no accepting path found", d["span"], "kept as read")


def accept(R, p, c, tn, label, outs, e, d, log, pos, first):
    n = 0
    for s, v in outs:
        if v[0] != "adt":
            R.undecided("%s:result" % tn, "result unknown", d["span"], "kept as read")
            continue
        if not is_ok(v):
            R.count("rejections")
            continue
        n += 1
        np = buf_pos(p, s)[0]
        s = s.copy()
        s.mem[("S", 9)] = v[3][0]
        for s2, b in c.call(e, [("ref", ("S", 9), ())], s, rty(e)):
            key = "%s%s: written as read" % (tn, label)
            if b[0] != "seq":
                R.undecided(key, "serialised form unknown", e["span"], "kept as read")
                continue
            f = s2.facts
            at = {f.norm(x): ps for x, ps in log}
            got = tuple(("Blob", BODY, f.norm(at[x] - pos - len(first)), pieces_len((x,))) if x in at else x for x in f.norm(b)[1])
            end = length(BODY) if tn in TAIL else np - pos - len(first)
            want = ("seq", f.norm(first) + (("Blob", BODY, ZERO, f.norm(end)),), b[2])
            w = []
            q = equal(("seq", got, b[2]), want, f, w)
            if q is False:
                key += " [%s]" % "; ".join(w[-1:])[:100]
            verdict(R, key, q, s2, "data accepted by the parser is written differently: %s (when %s)" % ("; ".join(w)[:240], [show_cond(x)[:80] for x in s2.trail][-5:]), d["span"], "kept as read")
    return n


def final(R, ps, tier):
    R.floor("parsers", 32)
    R.floor("parser outcomes", 80)
