"""Digests, key tags and text forms are those of the whole data."""
from crypto import *

EXPLAIN = """Delegation signer and DHCP identifier construction, the digest function, the key tag and the base64 forms are interpreted abstractly with
the hashes and the base64 engine of other crates as uninterpreted functions. A digest must be the complete output of the hash its type stands
for, over exactly the concatenation the RFC names (owner name then key data in wire form; identifier then name); the other fields must be
the arguments; the hexadecimal form must give two upper case digits for every byte of the digest; the key tag must be the sum of RFC 4034 appendix B over the key's data, for key data whose length is spelled out."""
ASSUME = ["the primitives of other crates compute what their names say", "key tags: public keys of up to 3 (thorough 7) bytes; the loop treats every further byte by its parity only"]
CONFIGS = {"quick": ["all", "def"], "thorough": ["all", "dnssec", "def", "mdns"]}
RULE = "digest of the whole data"
HASH = {"SHA1": "sha1", "SHA256": "sha256", "SHA384": "sha384", "SHA512": "sha512"}
CODE = {"SHA1": 1, "SHA256": 2, "SHA384": 4, "SHA512": 5}


def units(p, tier):
    out = ["dhcid"]
    if inherent(p, "Ds", "try_from_dnskey") is not None or inherent(p, "DnsKey", "new") is not None:
        out += ["hash", "ds", "base64", "hex"] + ["tag:%d" % n for n in range(4 if tier == "quick" else 8)] + ["tag:carry%d" % n for n in (1, 4)]
    return out


def run_unit(R, p, u, tier):
    R.count("units")
    {"dhcid": dhcid, "hash": hashes, "ds": ds, "base64": b64, "hex": hexa, "tag": tag}[u.split(":")[0]](R, p, u)


def digest_types(p):
    i = inherent(p, "DigestType", "hash_data")
    if i is None:
        return None, []
    ty = argty(i, 0)
    ty = p.types[ty]["e"] if p.types[ty]["k"] == "ref" else ty
    return ty, [(v["n"], ("adt", ty, n, ())) for n, v in enumerate(p.types[ty]["v"])]


def whole_digest(s, v, h, msg, w):
    """is v exactly hash h of msg"""
    v = s.facts.norm(v)
    if v[0] != "seq":
        return None
    ps = simp_pieces(v[1], s.facts, u8_ty())
    if len(ps) == 1 and ps[0][0] == "Blob":
        d = find(ps[0][1], "digest")
        if d is not None:
            if d[1] is None:
                return None
            if d[1] != h:
                w.append("hash %s instead of %s" % (d[1], h))
                return False
            if ps[0][2] != ZERO or s.facts.decide(eq0(s.facts.norm(ps[0][3] - SIZE.get(d[1], 32)))) is not True:
                w.append("a part of the digest only")
                return False
            return equal(s.facts.norm(d[2]), s.facts.norm(msg), s.facts, w)
    w.append("%s is not a digest" % show_val(v)[:120])
    return None if T.is_imprecise(v) else False


def okay(r):
    return r[3][0] if r[0] == "adt" and variants(r[1])[r[2]]["n"] == "Ok" else None


def err(r):
    return r[0] == "adt" and variants(r[1])[r[2]]["n"] == "Err"


def hashes(R, p, u):
    i = inherent(p, "DigestType", "hash_data")
    ty, vs = digest_types(p)
    if i is None:
        R.undecided("hash", "no digest function", "", RULE)
        return
    c = context(p)
    for n, v in vs:
        R.count("digests")
        if n not in HASH:
            R.undecided("hash %s" % n, "no reference for this digest type", i["span"], RULE)
            continue
        st = State()
        st.mem[("D", 0)] = v
        for s, r in run(c, i, [("ref", ("D", 0), ()) if p.types[argty(i, 0)]["k"] == "ref" else v, mk_sym(("arg", "data"), argty(i, 1))], st):
            w = []
            x = r
            if r[0] == "adt" and {y["n"] for y in variants(r[1])} == {"Ok", "Err"}:
                x = okay(r)
                if x is None:
                    verdict(R, "hash %s: no error" % n, False, s, "hashing is refused", i["span"], RULE)
                    continue
            verdict(R, "hash %s" % n, whole_digest(s, x, HASH[n], bytes_val(blob("data")), w), s, "; ".join(w)[:300], i["span"], RULE)
    R.use(c)


def bits(n, v):
    b = T.bits_or_opaque(v, 8 * n)
    return tuple(("B", T.from_bits(b[8 * k:8 * k + 8])) for k in reversed(range(n)))


def ds(R, p, u):
    i = inherent(p, "Ds", "try_from_dnskey")
    e = method(p, "Ds", "ByteConvertible", "to_bytes")
    k = method(p, "DnsKey", "ByteConvertible", "to_bytes")
    if None in (i, e, k):
        R.undecided("ds", "no such constructor", "", RULE)
        return
    c = context(p)
    where = i["span"]
    ty, vs = digest_types(p)
    aty, al = algorithms(p)
    kty = p.types[argty(i, 1)]["e"]
    ka, kb = field_of(p, kty, is_named("Algorithm")), field_of(p, kty, is_bytes(p))
    if ka is None or kb is None:
        R.undecided("ds", "cannot tell the parts of the key apart", where, RULE)
        return
    b0 = L(T.mk_atom(("var", ("arg", "k0")), 0, 255))
    for dn, dv in vs:
        for an, a in al:
            for form in ("no bytes", "one byte", "any"):
                if form != "any" and an != al[0][0]:
                    continue
                R.count("ds")
                key = with_fields(c, mk_sym(("arg", "key"), kty), {ka: a, kb: bytes_val(("B", b0)) if form == "one byte" else bytes_val() if form == "no bytes" else bytes_val(blob("public key"))})
                st = State()
                st.mem[("K", 0)] = key
                own = mk_sym(("arg", "owner"), argty(i, 0))
                st.mem[("N", 0)] = mk_sym(("arg", "owner"), p.types[argty(i, 0)]["e"])
                base = "DS %s of a %s key" % (dn, an)
                ks = [(s, v) for s, v in run(c, k, [("ref", ("K", 0), ())], st)]
                if len(ks) != 1 or ks[0][1][0] != "seq":
                    # several ways the key data can look: follow each
                    pass
                for s0, kd in ks:
                    msg = ("seq", (("Enc", "FQDN", st.mem[("N", 0)], None),) + tuple(kd[1]), u8_ty())
                    s0 = s0.copy()
                    for s, r in run(c, i, [("ref", ("N", 0), ()), ("ref", ("K", 0), ()), dv], s0):
                        if err(r):
                            verdict(R, base + ": no error", False, s, "refused", where, RULE)
                            continue
                        v = okay(r)
                        if v is None:
                            R.undecided(base, "result not represented", where, RULE)
                            continue
                        s.mem[("O", 0)] = v
                        for s2, bs in run(c, e, [("ref", ("O", 0), ())], s):
                            f = s2.facts
                            if bs[0] != "seq" or len(bs[1]) < 4:
                                R.undecided(base, "bytes not represented", where, RULE)
                                continue
                            ac = run(c, code_writers(p)[aty], [a], s2)
                            w = []
                            head, dig = bs[1][:4], ("seq", tuple(bs[1][4:]), u8_ty())
                            q = equal(f.norm(("seq", tuple(head[2:4]), u8_ty())), ("seq", bits(1, ac[0][1]) + (("B", K(CODE[dn])),), u8_ty()), f, w) if dn in CODE and len(ac) == 1 else None
                            verdict(R, base + ": algorithm and digest type", q, s2, "; ".join(w)[:200], where, "fields are the arguments")
                            if form != "any" and all(x[0] == "B" for x in kd[1]):
                                w = []
                                q = equal(f.norm(("seq", tuple(head[:2]), u8_ty())), f.norm(("seq", bits(2, tag_of([x[1] for x in kd[1]])), u8_ty())), f, w)
                                verdict(R, base + ": key tag", q, s2, "; ".join(w)[:200], where, "key tag of RFC 4034 appendix B")
                            w = []
                            verdict(R, base + ": digest", whole_digest(s2, dig, HASH.get(dn), msg, w) if dn in HASH else None, s2, "the digest is not that of owner name and key: %s" % "; ".join(w)[:300], where, RULE)
    R.use(c)


def tag_of(bs):
    acc = K(0)
    for j, b in enumerate(bs):
        acc = acc + (b if j & 1 else b.scale(256))
    hi = T.from_bits(T.bits_or_opaque(acc, 32)[16:32])
    return T.from_bits(T.bits_or_opaque(acc + hi, 32)[:16])


def tag(R, p, u):
    """the tag a delegation signer record of the key carries"""
    u = u.split(":")[1]
    i = inherent(p, "Ds", "try_from_dnskey")
    e = method(p, "Ds", "ByteConvertible", "to_bytes")
    k = method(p, "DnsKey", "ByteConvertible", "to_bytes")
    if None in (i, e, k):
        R.undecided("key tag", "no such constructor", "", RULE)
        return
    c = context(p)
    kty = p.types[argty(i, 1)]["e"]
    kb = field_of(p, kty, is_bytes(p))
    ty, vs = digest_types(p)
    R.count("tags")
    st = State()
    if u.startswith("carry"):
        # the sum of the key is about to carry into its upper half, twice
        m = int(u[5:])
        c.rounds = 3
        n = 2 * m + 2
        by = [K(0), K(0), K(3), K(8)] + [K(255)] * (2 * m) + [K(252), L(T.mk_atom(("var", ("arg", "last")), 240, 255))]
        d = decoder(p, "DnsKey")
        keys = [(s, okay(v)) for s, v in run(c, d, [mk_buffer(p, st, tuple(("B", b) for b in by), ZERO)], st)] if d is not None else []
        keys = [(s, v) for s, v in keys if v is not None]
        if len(keys) != 1:
            R.undecided("key tag, %s" % u, "key not represented", i["span"], RULE)
            return
        st = keys[0][0].copy()
        st.mem[("K", 0)] = keys[0][1]
    else:
        n = int(u)
        by = [L(T.mk_atom(("var", ("arg", "k%d" % j)), 0, 255)) for j in range(n)]
        st.mem[("K", 0)] = with_fields(c, mk_sym(("arg", "key"), kty), {kb: bytes_val(*[("B", b) for b in by])})
    st.mem[("N", 0)] = mk_sym(("arg", "owner"), p.types[argty(i, 0)]["e"])
    for s0, kd in run(c, k, [("ref", ("K", 0), ())], st):
        if kd[0] != "seq" or any(x[0] != "B" for x in kd[1]):
            R.undecided("key tag, %d bytes" % n, "key data not represented", i["span"], RULE)
            continue
        for s, r in run(c, i, [("ref", ("N", 0), ()), ("ref", ("K", 0), ()), vs[0][1]], s0.copy()):
            v = okay(r)
            if v is None:
                R.undecided("key tag, %d bytes" % n, "no result", i["span"], RULE)
                continue
            s.mem[("O", 0)] = v
            for s2, bs in run(c, e, [("ref", ("O", 0), ())], s):
                if bs[0] != "seq" or len(bs[1]) < 2:
                    R.undecided("key tag, %d bytes" % n, "bytes not represented", i["span"], RULE)
                    continue
                w = []
                q = equal(s2.facts.norm(("seq", tuple(bs[1][:2]), u8_ty())), s2.facts.norm(("seq", bits(2, tag_of([x[1] for x in kd[1]])), u8_ty())), s2.facts, w)
                for x, y in zip(bs[1][:2], bits(2, tag_of([x[1] for x in kd[1]]))) if q is None else ():
                    if x[0] == "B" and isinstance(x[1], Lin) and same_lin(s2.facts, x[1], y[1]) is False:
                        q = False
                verdict(R, "key tag, %d bytes" % n, q, s2, "; ".join(w)[:200], i["span"], "key tag of RFC 4034 appendix B")
    R.use(c)


def b64(R, p, u):
    for tn, m in (("DnsKey", "base64_public_key"), ("Rrsig", "base64_signature")):
        i = inherent(p, tn, m)
        if i is None:
            R.undecided("%s text" % tn, "no such function", "", RULE)
            continue
        c = context(p)
        sty = p.types[argty(i, 0)]["e"]
        fb = field_of(p, sty, is_bytes(p))
        if fb is None:
            R.undecided("%s text" % tn, "cannot tell the bytes apart", i["span"], RULE)
            continue
        st = State()
        st.mem[("S", 0)] = with_fields(c, mk_sym(("arg", "self"), sty), {fb: bytes_val(blob("bytes"))})
        for s, r in run(c, i, [("ref", ("S", 0), ())], st):
            R.count("texts")
            r = s.facts.norm(r)
            t = find(r, "base64")
            if t is None:
                R.undecided("%s text" % tn, "not the output of the base64 engine", i["span"], RULE)
                continue
            eng = find(t[1], "static")
            std = engine(t[1])
            if std is None:
                R.undecided("%s text: alphabet" % tn, "engine not represented", i["span"], RULE)
            else:
                verdict(R, "%s text: alphabet" % tn, std, s, "not the standard alphabet with padding", i["span"], "base64 of the whole data")
            w = []
            verdict(R, "%s text: the whole data" % tn, equal(s.facts.norm(t[2]), bytes_val(blob("bytes")), s.facts, w), s, "; ".join(w)[:200], i["span"], "base64 of the whole data")
            q = r[0] == "seq" and len(r[1]) == 1 and r[1][0][0] == "Blob" and r[1][0][2] == ZERO and r[1][0][3] == length(r[1][0][1])
            verdict(R, "%s text: the whole text" % tn, True if q else None if T.is_imprecise(r) else False, s, "returns %s" % show_val(r)[:150], i["span"], "base64 of the whole data")
        R.use(c)


def hexa(R, p, u):
    from models import hex_digit, bits_or_opaque, from_bits
    rule = "two digits for every byte"
    i = inherent(p, "Ds", "hex_digest")
    if i is None:
        R.undecided("Ds hex", "no such function", "", rule)
        return
    sty = p.types[argty(i, 0)]["e"]
    ctx(p)
    vs = [var(("arg", "byte%d" % n), 0, 255) for n in range(4)]
    cases = [vs[:n] for n in range(5)] + [[K(x)] for x in (0, 9, 10, 0x0f, 0x10, 0x9f, 0xa0, 0xff)] + [[K(x) for x in range(1, 65)], [vs[0]] + [K(x) for x in range(190, 256)]]
    for bs in cases:
        R.count("texts")
        c = context(p)
        c.rounds = 3
        c.unroll = max(c.unroll, len(bs) + 2)
        fb = field_of(p, sty, is_bytes(p))
        if fb is None:
            R.undecided("Ds hex", "cannot tell the bytes apart", i["span"], rule)
            return
        st = State()
        st.mem[("S", 0)] = with_fields(c, mk_sym(("arg", "self"), sty), {fb: ("seq", tuple(("B", b) for b in bs), u8_ty())})
        want = ()
        for b in bs:
            z = bits_or_opaque(b, 8)
            want += (("B", hex_digit(from_bits(z[4:]), "X")), ("B", hex_digit(from_bits(z[:4]), "X")))
        try:
            outs = run(c, i, [("ref", ("S", 0), ())], st)
        except Budget as x:
            R.undecided("Ds hex", str(x), i["span"], rule)
            continue
        for s, r in outs:
            r = s.facts.norm(r)
            q = None
            if r[0] == "seq":
                q = eq_pieces(r[1], want, s.facts, u8_ty())
                if q is not True and (T.is_imprecise(r[1]) or any(x[0] == "Blob" for x in r[1]) or not all(b.const is not None for b in bs) and len(r[1]) == len(want)):
                    q = None        # digits of open bytes are only compared by name
                elif q is None and len(r[1]) != len(want):
                    q = False
            verdict(R, "Ds hex", q, s, "the hexadecimal form of %s is %s" % ([show_lin(b) for b in bs][:4], show_val(r)[:200]), i["span"], rule)
        R.use(c)


def engine(t):
    """True: standard alphabet and padding; the engine is a constant whose bytes hold three settings and the alphabet"""
    k = find(t, "const")
    if k is None or not isinstance(k[2], tuple) or len(k[2]) < 67:
        return None
    k = k[2]
    if bytes(x if isinstance(x, int) else 0 for x in k[3:67]) != b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/":
        return False
    h = sorted(k[:3])
    return True if h == [0, 1, 1] else False if 2 in h or h == [0, 0, 0] else None


def dhcid(R, p, u):
    i = inherent(p, "Dhcid", "new")
    e = method(p, "Dhcid", "ByteConvertible", "to_bytes")
    if None in (i, e):
        R.undecided("DHCID", "no such constructor", "", RULE)
        return
    c = context(p)
    st = State()
    nt = p.types[argty(i, 2)]["e"]
    st.mem[("N", 0)] = mk_sym(("arg", "name"), nt)
    ity = argty(i, 0)
    for n, v in enumerate(p.types[ity]["v"]):
        code = ("adt", ity, n, ())
        R.count("dhcid")
        for s, r in run(c, i, [code, mk_sym(("arg", "identifier"), argty(i, 1)), ("ref", ("N", 0), ())], st):
            s.mem[("O", 0)] = r
            for s2, bs in run(c, e, [("ref", ("O", 0), ())], s):
                if bs[0] != "seq" or len(bs[1]) < 3:
                    R.undecided("DHCID %s" % v["n"], "bytes not represented", i["span"], RULE)
                    continue
                f = s2.facts
                cc = run(c, code_writers(p)[ity], [code], s2)
                w = []
                q = equal(f.norm(("seq", tuple(bs[1][:2]), u8_ty())), ("seq", bits(2, cc[0][1]), u8_ty()), f, w) if len(cc) == 1 else None
                verdict(R, "DHCID %s: identifier type" % v["n"], q, s2, "; ".join(w)[:200], i["span"], "fields are the arguments")
                w = []
                msg = ("seq", (("Blob", ("arg", "identifier"), ZERO, length(("arg", "identifier"))), ("Enc", "FQDN", st.mem[("N", 0)], None)), u8_ty())
                verdict(R, "DHCID %s: digest" % v["n"], whole_digest(s2, ("seq", tuple(bs[1][3:]), u8_ty()), "sha256", msg, w), s2,
                        "the digest is not that of identifier and name: %s" % "; ".join(w)[:300], i["span"], RULE)
    R.use(c)


def final(R, ps, tier):
    R.floor("units", len(ps))
    R.floor("dhcid", 3 * len(ps))
    R.floor("ds", 30)
    R.floor("tags", 3)
