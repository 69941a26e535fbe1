"""Code tables: reading and writing a code are inverse; assigned numbers."""
from rt import *

EXPLAIN = """For every enumeration that stands for a number on the wire, the conversion from the number is
analysed on a symbolic number and the conversion back on each result, and the other way round on every
variant: the composition must be the identity, a rejected number must be carried by the error, and
the codes of the protocol's registries must be the registered ones."""
ASSUME = ["class numbers are below 0x8000 (the top bit is the multicast flag)"]

# protocol registries (IANA "Domain Name System Parameters", RFC 1035, 2136, 4034, 6698, 8945, 2930, 9460, 4701)
TYPES = dict(A=1, NS=2, CNAME=5, SOA=6, NULL=10, WKS=11, PTR=12, HINFO=13, MINFO=14, MX=15, TXT=16, RP=17, AFSDB=18, AAAA=28, LOC=29,
             SRV=33, NAPTR=35, KX=36, CERT=37, DNAME=39, OPT=41, APL=42, DS=43, SSHFP=44, IPSECKEY=45, RRSIG=46, NSEC=47, DNSKEY=48, DHCID=49, NSEC3=50,
             NSEC3PARAM=51, TLSA=52, SMIMEA=53, HIP=55, CDS=59, CDNSKEY=60, OPENPGPKEY=61, CSYNC=62, ZONEMD=63, SVCB=64, HTTPS=65, EUI48=108, EUI64=109,
             TKEY=249, TSIG=250, URI=256, CAA=257)
CLASSES = dict(IN=1, CS=2, CH=3, HS=4)
REG = {
    "resource::RecordType": TYPES,
    "question::QType": dict(TYPES, IXFR=251, AXFR=252, MAILB=253, MAILA=254, ANY=255),
    "resource::RecordClass": CLASSES,
    "question::QClass": dict(CLASSES, NONE=254, ANY=255),
    "header::ResponseCode": dict(NoError=0, FormatError=1, ServerFailure=2, NameError=3, NotImplemented=4, Refused=5, YXDomain=6, YXRRSet=7, NXRRSet=8, NotAuth=9, NotZone=10),
    "header::OpCode": dict(StandardQuery=0, InverseQuery=1, ServerStatusRequest=2),
    "dnssec::Algorithm": dict(RSA_MD5=1, DSA_SHA1=3, RSA_SHA1=5, RSA_SHA256=8, RSA_SHA512=10, ECDSA_P256=13, ECDSA_P384=14, ED25519=15, ED448=16, Indirect=252, PrivateDns=253, PrivateOid=254),
    "dnssec::DigestType": dict(SHA1=1, SHA256=2, SHA384=4),
    "svcb::ParamKey": dict(Mandatory=0, Alpn=1, NoDefaultAlpn=2, Port=3, IpV4Hint=4, Ech=5, IpV6Hint=6, Invalid=65535),
    "tlsa::CertUsage": dict(Ca=0, ServiceCertificateConstraint=1, TrustAnchor=2, DomainIssuedCertificate=3),
    "tlsa::Selector": dict(Full=0, SubjectPublicKeyInfo=1),
    "tlsa::MatchingType": dict(ExactMatch=0, SHA256=1, SHA512=2),
    "tsig::Error": dict(BadSig=16, BadKey=17, BadTime=18, BadTrunc=22),
    "tkey::Error": dict(BadSig=16, BadKey=17, BadTime=18, BadMode=19, BadName=20, BadAlg=21),
    "tkey::Mode": dict(ServerAssignment=1, DiffieHellmanExchange=2, GssApiNegotiation=3, ResolverAssignment=4, KeyDeletion=5),
    "dhcid::IdentifierType": dict(ChaddrOfDhcpRequest=0, ClientIdentifierOption=1, DUID=2),
    "sshfp::FingerprintType": dict(Reserved=0, SHA1=1, SHA256=2),
    "rdata::Algorithm": dict(Reserved=0, RSA=1, DSA=2, ECDSA=3, Ed25519=4, Ed448=6),
    "naptr::Flag": dict(S=0x53, A=0x41, U=0x55, P=0x50),
}
# the numbers that one variant with a payload stands for, no more and no less
RANGES = {
    "svcb::ParamKey": dict(Private=(65280, 65534)),
    "tkey::Mode": dict(Available=(6, 65534)),
    "tkey::Error": dict(NonExtendedRcode=(1, 15)),
}
# rdata::Algorithm carries the numbers of SSHFP; the registry of IPSECKEY and HIP (RFC 4025, RFC 8005) is another one
OTHER = dict(IpSecKey=dict(DSA=1, RSA=2, ECDSA=3), Hip=dict(DSA=1, RSA=2, ECDSA=3))
MASKED = {"RecordClass", "QClass"}


def short(ty):
    return "::".join(tinfo(ty)["def"].split("::")[-2:])


def readers(p):
    out = {}
    for tr, m in (("TryFrom", "try_from"), ("From", "from")):
        for l in p.impls.get((tr, m), {}).values():
            for a, i in l:
                if i["body"]["argc"] != 1 or p.types[argty(i, 0)]["k"] != "uint" or p.types[argty(i, 0)]["bits"] > 16:
                    continue
                r = p.types[rty(i)]
                ty = rty(i)
                if r["k"] == "adt" and r.get("v") and any(v["n"] == "Ok" for v in r["v"]):
                    ty = next(v for v in r["v"] if v["n"] == "Ok")["f"][0][1]
                t = p.types[ty]
                if t["k"] == "adt" and t.get("crate") == "maybe_dns":
                    out[ty] = i
    return out


def writers(p):
    out = {}
    for i in p.insts:
        if i["crate"] == "maybe_dns" and "body" in i and "::from" == i["def"][-6:] and i["body"]["argc"] == 1:
            a, r = p.types[argty(i, 0)], p.types[rty(i)]
            if r["k"] == "uint" and r["bits"] <= 16 and a["k"] == "adt" and a.get("crate") == "maybe_dns":
                out[argty(i, 0)] = i
    return out


def got(r, ty):
    """the value of a reader's outcome, None for an error"""
    return r if r[0] != "adt" or r[1] == ty else r[3][0] if is_ok(r) else None


def ranges(R, p, u, ty, i):
    for n, vn in enumerate(tinfo(ty)["v"]):
        if vn["n"] not in RANGES.get(u, {}):
            continue
        lo, hi = RANGES[u][vn["n"]]
        key = "%s::%s has the registered numbers" % (u, vn["n"])
        c = ctx(p)
        code = mk_sym(("arg", "code"), argty(i, 0))
        for s, r in c.call(i, [code], State(), rty(i)):
            v = got(r, ty)
            if v is not None and v[0] != "adt":
                R.undecided(key + ":unknown", show_val(v)[:100], i["span"], "registry")
                continue
            has = v is not None and v[2] == n
            for cond in (ge0(K(lo - 1) - code), ge0(code - hi - 1)) if has else (None,):
                t = s.assume(cond) if has else s.assume(ge0(code - lo)) and s.assume(ge0(code - lo)).assume(ge0(K(hi) - code))
                if t is None:
                    R.proven(key, i["span"], "registry")
                    continue
                f = sample.feasible(t.facts)
                verdict(R, key, False, precise_trail(t) and f, "numbers %s..%s stand for it, but a number %s when %s" % (lo, hi, "beyond them does, too" if has else "among them is read as %s" % ("an error" if v is None else show_val(v)[:60]), [show_cond(x) for x in t.trail][-4:]), i["span"], "registry")
        R.use(c)


def shared(R, p, ty, i):
    c = ctx(p)
    names = [v["n"] for v in tinfo(ty)["v"]]
    for h, reg in sorted(OTHER.items()):
        if not any(t["k"] == "adt" and t.get("crate") == "maybe_dns" and t["def"].endswith("::" + h) and any(f[1] == ty for v in t.get("v") or [] for f in v["f"]) for t in p.types):
            continue
        for n, k in sorted(reg.items()):
            for s, r in c.call(i, [K(k)], State(), rty(i)):
                v = got(r, ty)
                g = "an error" if v is None else names[v[2]] if v[0] == "adt" else None
                verdict(R, "%s algorithm %d" % (h, k), None if g is None else g == n, precise_trail(s), "number %d of a %s algorithm is read as %s, registered is %s" % (k, h, g, n), i["span"], "registry")
    R.use(c)


def units(p, tier):
    return sorted(short_p(p, t) for t in set(readers(p)) | set(writers(p)))


def short_p(p, ty):
    return "::".join(p.types[ty]["def"].split("::")[-2:])


def run(R, p, u, tier):
    R.count("code types")
    rd = {short_p(p, t): (t, i) for t, i in readers(p).items()}.get(u)
    wr = {short_p(p, t): (t, i) for t, i in writers(p).items()}.get(u)
    ty = (rd or wr)[0]
    c = ctx(p)
    masked = u.split("::")[-1] in MASKED
    if rd:
        i = rd[1]
        aty = argty(i, 0)
        code = mk_sym(("arg", "code"), aty)
        st = State()
        if masked:
            code = T.from_bits(T.to_bits(code, 16)[:15])
        outs = c.call(i, [code], st, rty(i))
        R.count("reader outcomes", len(outs))
        for s, v in outs:
            trail = [show_cond(x) for x in s.trail][:8]
            pr = precise_trail(s) and sample.feasible(s.facts)
            if v[0] == "adt" and v[1] != ty and not is_ok(v):
                e = v[3][0]
                pay = list(payload(e))
                q = [equal(x, code, s.facts) for x in pay if isinstance(x, Lin)]
                if any(x is True for x in q):
                    R.proven("%s: rejected code is reported" % u, i["span"], "error payload")
                elif pr and all(x is False for x in q):
                    R.refuted("%s:error" % u, "the error for a rejected code does not carry it: %s" % show_val(e)[:200], i["span"], "error payload")
                else:
                    R.undecided("%s:error" % u, show_val(e)[:200], i["span"], "error payload")
                continue
            x = v[3][0] if v[0] == "adt" and v[1] != ty else v
            if wr is None:
                continue
            if x[0] == "adt" and u == "header::OpCode":
                continue
            for s2, n in c.call(wr[1], [x], s.copy(), rty(wr[1])):
                w = []
                q = equal(n, s2.facts.norm(code), s2.facts, w) if isinstance(n, Lin) else None
                verdict(R, "%s: read then written" % u, q, pr and precise_trail(s2) and sample.feasible(s2.facts),
                        "code read as %s is written as a different code: %s when %s" % (show_val(x)[:80], "; ".join(w)[:150], trail), wr[1]["span"], "inverse")
    if wr:
        i = wr[1]
        for s, v in values(c, State(), ty):
            for s1, n in c.call(i, [v], s.copy(), rty(i)):
                if rd is None:
                    continue
                for s2, r in c.call(rd[1], [n], s1.copy(), rty(rd[1])):
                    pr = precise_trail(s2) and sample.feasible(s2.facts)
                    if r[0] == "adt" and r[1] != ty:
                        if not is_ok(r):
                            verdict(R, "%s: written then read" % u, False, pr, "%s is written as a code that is rejected: %s" % (show_val(v)[:80], show_val(r[3][0])[:80]), rd[1]["span"], "inverse")
                            continue
                        r = r[3][0]
                    w = []
                    q = equal(r, s2.facts.norm(v), s2.facts, w)
                    verdict(R, "%s: written then read" % u, q, pr, "%s is written as a code that reads as another value: %s" % (show_val(v)[:80], "; ".join(w)[:150]), rd[1]["span"], "inverse")
    if rd:
        ranges(R, p, u, ty, rd[1])
        if u == "rdata::Algorithm":
            shared(R, p, ty, rd[1])
    reg = REG.get(u)
    if reg:
        for n, vn in enumerate(tinfo(ty)["v"]):
            if vn["n"] not in reg or vn["f"]:
                continue
            v = ("adt", ty, n, ())
            R.count("registered codes")
            key = "%s::%s has the registered code" % (u, vn["n"])
            if wr:
                for s, k in c.call(wr[1], [v], State(), rty(wr[1])):
                    k = s.facts.norm(k)
                    verdict(R, key, k == K(reg[vn["n"]]), k.const is not None, "%s is written as %s, registered is %d" % (vn["n"], show_lin(k), reg[vn["n"]]), wr[1]["span"], "registry")
            if rd:
                st = State()
                for s, r in c.call(rd[1], [K(reg[vn["n"]])], st, rty(rd[1])):
                    if r[0] == "adt" and r[1] != ty:
                        r = r[3][0] if is_ok(r) else None
                    verdict(R, key, r == v, precise_trail(s), "code %d is read as %s" % (reg[vn["n"]], "an error" if r is None else show_val(r)), rd[1]["span"], "registry")
            # the number a cast of the value yields is used as its code as well
            if all(not x["f"] for x in tinfo(ty)["v"]) and u in CAST:
                verdict(R, key, vn["d"] == reg[vn["n"]], True, "%s as a number is %d, registered is %d" % (vn["n"], vn["d"], reg[vn["n"]]), "", "registry")
    R.use(c)


CAST = {"resource::RecordType", "question::QType", "question::QClass", "header::ResponseCode", "header::OpCode"}


def payload(e):
    if isinstance(e, Lin):
        yield e
    elif isinstance(e, tuple) and e and e[0] == "adt":
        for x in e[3]:
            yield from payload(x)


def values(c, st, ty):
    """every value some code stands for"""
    t = tinfo(ty)
    can = canonical(c, st, ty, ("v",))
    if can is not None:
        return [(s, v) for s, v in can]
    if t["ak"] != "enum":
        i = readers(c.prog).get(ty)
        out = []
        if i:
            for s, v in c.call(i, [mk_sym(("arg", "v"), argty(i, 0))], st, rty(i)):
                if v[0] == "adt" and v[1] == ty:
                    out.append((s, v))
                elif is_ok(v):
                    out.append((s, v[3][0]))
        return out
    out = []
    for n, v in enumerate(t["v"]):
        if not v["f"]:
            out.append((st, ("adt", ty, n, ())))
    return out


def verdict(R, key, q, precise, why, where, rule):
    if q is True:
        R.proven(key, where, rule)
    elif q is False and precise:
        R.refuted(key + ":differs", why, where, rule)
    else:
        R.undecided(key, why, where, rule)


def final(R, ps, tier):
    R.floor("code types", 19 * len(ps))
    R.floor("registered codes", 139 * len(ps))
