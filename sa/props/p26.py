"""Rejections name their reason."""
from reads import *

EXPLAIN = """Every conversion of a number into a code is interpreted abstractly on a symbolic number: a rejected number must come back in
the error of its kind.  The reads of the byte cursor are interpreted on buffers of any length and position: the only
way they fail is the length error.  Names are interpreted on buffers whose label lengths and pointers are symbolic: pointers that do not
point backwards give the pointer error, missing bytes the length error.  Every parser is interpreted on arbitrary bytes of arbitrary
length with names, codes and nested values as parts that may fail: when a part failed the error of the
whole must be that very error, otherwise it must be the length error or the one the kind of data has for what it found, carrying the
number that was found.  The source of every error is interpreted for every variant."""
ASSUME = ["lists have up to two elements (names up to three labels or pointers)"]

KIND = {
    "ResponseCode": "InvalidResponseCode", "QClass": "InvalidClass", "RecordClass": "InvalidClass", "QType": "InvalidType", "RecordType": "InvalidType",
    "csync::Flags": "InvalidCsyncFlag", "IdentifierType": "InvalidIdentifierTypeError", "dnssec::Algorithm": "InvalidDnsSecAlgorithm",
    "DigestType": "InvalidDigestType", "naptr::Flag": "InvalidNaptrFlag", "FingerprintType": "InvalidSSHFPFingerprintType", "ParamKey": "InvalidSvcbParam",
    "Mode": "InvalidTkeyMode", "Error": "InvalidTkeyError", "CertUsage": "InvalidTLSACertUsage", "Selector": "InvalidTLSASelector",
    "MatchingType": "InvalidTLSAMatchingType", "rdata::Algorithm": "InvalidSSHFPAlgorithm",
}
# what a kind of data may say beyond the errors of its parts and the length error
OWN = {"Apl": {"InvalidAplFamily"}, "IpSecKey": {"InvalidIpSecKeyGatewayType"}, "Dhcid": {"InvalidDigestType"}, "Caa": {"InvalidPacketData"},
       "Csync": {"InvalidCsyncFlag", "InvalidType"}, "Nsec": {"InvalidType"}}
BODY = ("body",)
ROUNDS = {"Opt": 1, "Svcb": 1, "Param": 1}
LENGTH = "LengthViolation"


def parsers(p):
    return sorted(set(p.impls.get(("RData", "record_type"), {}))) + ["Param", "Header", "Question", "ResourceRecord", "Packet"]


def units(p, tier):
    return ["codes", "cursor", "names", "source"] + (["signing"] if inherent(p, "Algorithm", "sign_data") is not None else []) + parsers(p)


def run_unit(R, p, u, tier):
    ctx(p)
    f = {"codes": codes_, "cursor": cursor, "names": names, "source": source, "signing": signing}.get(u)
    if f is not None:
        f(R, p, tier)
    else:
        parser(R, p, u, tier)


def variant(p, v):
    return p.types[v[1]]["v"][v[2]]["n"] if isinstance(v, tuple) and v[0] == "adt" else None


def err_of(v):
    """the error of a failed result"""
    if isinstance(v, tuple) and v[0] == "adt" and not is_ok(v) and v[3]:
        return v[3][0]
    return None


def codes_(R, p, tier):
    rule = "an unassigned number is reported by the error of its kind"
    for t, i in code_tables(p):
        ty = ok_ty(p, rty(i))
        if ty == rty(i):
            continue
        d = p.types[ty]["def"].split("::")
        kind = KIND.get("::".join(d[-2:])) or KIND.get(d[-1])
        R.fn(i)
        R.count("code tables")
        c = ctx(p)
        n = mk_sym(("arg", "code"), argty(i, 0))
        for s, v in c.call(i, [n], State(), rty(i)):
            if is_ok(v):
                continue
            e = err_of(v)
            key = "%s" % "::".join(d[-2:])
            if kind is None or variant(p, e) is None:
                R.undecided(key, "error unknown", i["span"], rule)
                continue
            got = variant(p, e)
            verdict(R, key + ":kind", got == kind, s, "an unassigned number is reported as %s, not %s" % (got, kind), i["span"], rule)
            if got == kind and e[3]:
                m = n
                if d[-1] in ("RecordClass", "QClass"):
                    m = T.from_bits(T.to_bits(n, 16)[:15])
                verdict(R, key + ":number", same(e[3][0], m, s.facts), s, "the error carries %s" % show_val(e[3][0])[:100], i["span"], rule)
        R.use(c)


def cursor(R, p, tier):
    rule = "reading past the end is a length violation"
    for (t, m), l in sorted(p.inherent.items()):
        if t != "DnsBuffer" or m == "extract_fqdn":
            continue
        for i in l:
            r = p.types[rty(i)]
            if "body" not in i or r["k"] != "adt" or not r["def"].endswith("Result"):
                continue
            a0 = p.types[argty(i, 0)]
            if a0["k"] != "ref" or not is_buffer(p, a0["e"]):
                continue
            R.fn(i)
            R.count("reads")
            c = ctx(p)
            st = State()
            pre, body = length(("pre",)), length(BODY)
            b = mk_buffer(p, st, (("Blob", ("pre",), ZERO, pre), ("Blob", BODY, ZERO, body)), pre)
            args = [b] + [mk_sym(("arg", "a%d" % n), argty(i, n)) for n in range(1, i["body"]["argc"])]
            codes(p, c, set())
            for s, v in c.call(i, args, st, rty(i)):
                e = err_of(v)
                if e is None:
                    continue
                whole(R, p, "DnsBuffer:%s" % m, s, e, i, {LENGTH}, rule)
            R.use(c)


def whole(R, p, key, s, e, i, own, rule):
    """the error of a failed read: that of the part that failed, or one of its own"""
    failed = [x[1] for x in s.ev if x[0] == "failed"]
    R.count("rejections")
    if failed:
        q = True if e in failed else False if isinstance(e, tuple) and e[0] == "adt" else None
        verdict(R, key + ":part", q, s, "a part failed with its own error, but %s is reported" % (variant(p, e) or "another error"), i["span"], "the error of a part is the error of the whole")
        return
    got = variant(p, e)
    if got is None:
        R.undecided(key + ":error", "error unknown: %s" % show_val(e)[:80], i["span"], rule)
        return
    k = key + ":" + got
    verdict(R, k, got in own, s, "the data is rejected with %s" % got, i["span"], rule)


def names(R, p, tier):
    rule = "a name is rejected for the reason it is malformed"
    i = inherent(p, "DnsBuffer", "extract_fqdn") or decoder(p, "FQDN")
    if i is None:
        return
    R.fn(i)
    # a pointer at any position to any target: backwards it is followed (into one label that may be cut off), otherwise an error
    for k, ls in (("pointer", 0), ("label then pointer", 1)):
        c = ctx(p, rounds=ls + 1)
        st = State()
        pre = length(("pre",))
        hi, lo = var(("arg", "hi"), 0, 63), mk_sym(("arg", "lo"), u8_ty())
        ps = (("Blob", ("pre",), ZERO, pre),)
        start = pre
        if ls:
            ps += (("B", K(1)), ("B", mk_sym(("arg", "label"), u8_ty())))
        ps += (("B", hi + 192), ("B", lo))
        target = hi.scale(256) + lo
        st = st.assume(ge0(target - pre))
        b = mk_buffer(p, st, ps + (("Blob", BODY, ZERO, length(BODY)),), pre)
        for s, v in c.call(i, [b], st, rty(i)):
            R.count("rejections")
            e = err_of(v)
            got = variant(p, e) if e is not None else None
            q = got == "UnresolveableCompressionPointer" if got is not None else False if is_ok(v) else None
            verdict(R, "name:%s forward" % k, q, s, "a pointer that does not point backwards gives %s" % (got or "a name"), i["span"], rule)
        R.use(c)
    # labels that are cut off
    for ls in range(3):
        for cut in ("no length", "label", "pointer"):
            c = ctx(p, rounds=ls + 2)
            st = State()
            pre = length(("pre",))
            ps = (("Blob", ("pre",), ZERO, pre),)
            for n in range(ls):
                ps += (("B", K(1)), ("B", mk_sym(("arg", "l%d" % n), u8_ty())))
            if cut == "label":
                x = var(("arg", "len"), 1, 63)
                ps += (("B", x), ("Blob", BODY, ZERO, length(BODY)))
                st = st.assume(ge0(x - length(BODY) - 1))
            elif cut == "pointer":
                ps += (("B", K(192) + var(("arg", "hi"), 0, 63)),)
            b = mk_buffer(p, st, ps, pre)
            for s, v in c.call(i, [b], st, rty(i)):
                R.count("rejections")
                e = err_of(v)
                got = variant(p, e) if e is not None else None
                q = got == LENGTH if got is not None else False if is_ok(v) else None
                verdict(R, "name:cut off %s" % cut, q, s, "a name that is cut off gives %s" % (got or "a name"), i["span"], rule)
            R.use(c)


def source(R, p, tier):
    rule = "no error is its own source"
    ty = type_named(p, "DnsError")
    i = method(p, "DnsError", "Error", "source")
    if ty is None:
        return
    R.count("sources")
    if i is None:
        R.proven("source:default", "", rule)
        return
    R.fn(i)
    for n, v in enumerate(p.types[ty]["v"]):
        c = ctx(p)
        st = State()
        st.mem[("S", 0)] = ("adt", ty, n, tuple(mk_sym(("arg", v["n"], k), f[1]) for k, f in enumerate(v["f"])))
        for s, o in c.call(i, [("ref", ("S", 0), ())], st, rty(i)):
            x = o
            if o[0] != "adt":
                R.undecided("source:%s" % v["n"], "result unknown", i["span"], rule)
                continue
            if not o[3]:
                R.proven("source:%s" % v["n"], i["span"], rule)
                continue
            x = o[3][0]
            if x[0] == "ref" and x[1] == ("S", 0):
                verdict(R, "source:%s" % v["n"], len(x[2]) > 0, s, "the source of an error is the error itself", i["span"], rule)
            else:
                R.undecided("source:%s" % v["n"], "source %s" % show_val(x)[:60], i["span"], rule)
        R.use(c)


def signing(R, p, tier):
    rule = "an algorithm that cannot sign is reported with its number"
    i = inherent(p, "Algorithm", "sign_data")
    if i is None:
        return
    R.fn(i)
    aty = p.types[argty(i, 0)]["e"] if p.types[argty(i, 0)]["k"] == "ref" else argty(i, 0)
    nums = {"Indirect": 252, "PrivateDns": 253, "PrivateOid": 254}
    for n, v in enumerate(p.types[aty]["v"]):
        if v["n"] not in nums:
            continue
        R.count("algorithms")
        c = ctx(p)
        st = State()
        a = ("adt", aty, n, tuple(mk_sym(("arg", v["n"], k), f[1]) for k, f in enumerate(v["f"])))
        st.mem[("S", 0)] = a
        args = [("ref", ("S", 0), ()) if p.types[argty(i, 0)]["k"] == "ref" else a]
        for k in (1, 2):
            st.mem[("D", k)] = ("seq", (("Blob", ("data", k), ZERO, length(("data", k))),), u8_ty())
            args.append(("sl", ("D", k), (), ZERO, length(("data", k))))
        for s, o in c.call(i, args, st, rty(i)):
            e = err_of(o)
            if e is None or variant(p, e) is None:
                R.undecided("sign:%s" % v["n"], "result unknown", i["span"], rule)
                continue
            q = False if variant(p, e) != "InvalidDnsSecAlgorithm" else same(e[3][0], K(nums[v["n"]]), s.facts)
            verdict(R, "sign:%s" % v["n"], q, s, "%s is reported as %s" % (v["n"], show_val(e)[:80]), i["span"], rule)
        R.use(c)


# where a parser finds a number of its own: (label, bytes before, condition, the error, the number)
def inline(tn):
    if tn == "Apl":
        a, b = mk_sym(("arg", "f1"), u8_ty()), mk_sym(("arg", "f0"), u8_ty())
        n = a.scale(256) + b
        return [("family", [a, b, mk_sym(("arg", "prefix"), u8_ty()), ZERO], [neg(eq0(n - 1)), neg(eq0(n - 2))], "InvalidAplFamily", n)]
    if tn == "IpSecKey":
        a = mk_sym(("arg", "type"), u8_ty())
        return [("gateway", [mk_sym(("arg", "precedence"), u8_ty()), a, mk_sym(("arg", "alg"), u8_ty())], [ge0(a - 4)], "InvalidIpSecKeyGatewayType", a)]
    if tn == "Dhcid":
        a = mk_sym(("arg", "type"), u8_ty())
        return [("digest", [ZERO, K(1), a], [neg(eq0(a - 1))], "InvalidDigestType", a)]
    if tn == "Csync":
        a, b = mk_sym(("arg", "f1"), u8_ty()), mk_sym(("arg", "f0"), u8_ty())
        n = a.scale(256) + b
        return [("flags", [ZERO] * 4 + [a, b], [ge0(n - 4)], "InvalidCsyncFlag", n)]
    return []


def setup(R, p, tn, tier):
    c = ctx(p, fit=True, utf8=True, rounds=ROUNDS.get(tn, 2))
    c.contract_broken = []
    kinds = [("FQDN", 1)]
    if tn == "Svcb":
        kinds.append(("Param", 4))
    if tn == "Packet":
        kinds += [("Header", 12), ("Question", 5), ("ResourceRecord", 11)]
    for k, m in kinds:
        for i in fqdn_decoders(p) if k == "FQDN" else [decoder(p, k)]:
            if i is not None:
                c.contracts[i["name"]] = nested(p, k, [], m)
    if tn == "ResourceRecord":
        i = inherent(p, "RecordData", "from")
        if i is not None:
            c.contracts[i["name"]] = nested(p, "RecordData", [], 0)
    codes(p, c, {"ParamKey"} if tn == "Param" else set())
    return c


def parser(R, p, tn, tier):
    d = decoder(p, tn)
    if d is None:
        R.undecided(tn, "no parser", "", "errors")
        return
    R.fn(d)
    R.count("parsers")
    rule = "data is rejected for what is wrong with it"
    c = setup(R, p, tn, tier)
    st = State()
    pos = length(("pre",)) if tn not in ("Packet", "Header") else ZERO
    ps = ((("Blob", ("pre",), ZERO, pos),) if pos is not ZERO else ()) + (("Blob", BODY, ZERO, length(BODY)),)
    own = OWN.get(tn, set()) | {LENGTH}
    if tn == "Param":
        own = own | {"InvalidSvcbParam"}
    n = 0
    try:
        for s, v in c.call(d, [arg0(p, d, st, ps, pos)], st, rty(d)):
            R.count("parser outcomes")
            if v[0] != "adt":
                R.undecided(tn + ":result", "result unknown", d["span"], rule)
                continue
            e = err_of(v)
            if e is not None:
                n += 1
                whole(R, p, tn, s, e, d, own, rule)
        if not n:
            R.proven(tn + ":nothing is rejected", d["span"], rule)
    except Budget as x:
        R.undecided(tn + ":budget", str(x)[:100], d["span"], rule)
    R.use(c)
    for label, first, conds, kind, num in inline(tn):
        c = setup(R, p, tn, tier)
        c.contracts = {k: f for k, f in c.contracts.items() if "IdentifierType" not in k and "csync" not in k}
        st = State()
        for x in conds:
            st = st.assume(x)
        st = st.assume(ge0(length(BODY) - 600))
        b = mk_buffer(p, st, (("Blob", ("pre",), ZERO, pos),) + tuple(("B", x) for x in first) + (("Blob", BODY, ZERO, length(BODY)),), pos)
        try:
            for s, v in c.call(d, [b], st, rty(d)):
                R.count("inline codes")
                e = err_of(v)
                key = "%s:%s" % (tn, label)
                if any(x[0] == "failed" for x in s.ev) and e in [x[1] for x in s.ev if x[0] == "failed"]:
                    continue
                if e is None or variant(p, e) is None:
                    q = False if e is None and is_ok(v) else None
                    verdict(R, key, q, s, "an unassigned number is accepted", d["span"], rule)
                    continue
                got = variant(p, e)
                q = False if got != kind else same(e[3][0], num, s.facts)
                verdict(R, key, q, s, "an unassigned number is reported as %s" % show_val(e)[:120], d["span"], rule)
        except Budget as x:
            R.undecided("%s:%s" % (tn, label), str(x)[:100], d["span"], rule)
        R.use(c)


def arg0(p, d, st, ps, pos):
    """the input of a parser: a cursor, or the message itself"""
    t = p.types[argty(d, 0)]
    if t["k"] == "ref" and is_buffer(p, t["e"]):
        return mk_buffer(p, st, ps, pos)
    if t["k"] == "ref":
        st.mem[("D", 0)] = ("seq", ps, u8_ty())
        return ("sl", ("D", 0), (), ZERO, pieces_len(ps))
    return ("seq", ps, u8_ty())


def final(R, ps, tier):
    R.floor("parsers", 30)
    R.floor("rejections", 100)
    R.floor("code tables", 10)
