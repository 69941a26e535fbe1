"""Primitives of other crates (hashes, signature schemes, key formats) as uninterpreted functions of their arguments."""
from api import *
from models import deref, to_slice, new_cell, reify

FOREIGN = ("ring", "rsa", "dsa", "crrl", "digest", "md5", "sha1", "sha2", "num_bigint_dig", "pkcs8", "generic_array", "base64", "signature")
SIZE = {"md5": 16, "sha1": 20, "sha256": 32, "sha384": 48, "sha512": 64}


def find(x, tag):
    """first tuple with a tag inside a value"""
    if isinstance(x, Lin):
        return None
    if isinstance(x, tuple):
        if x and x[0] == tag:
            return x
        for y in x:
            r = find(y, tag)
            if r is not None:
                return r
    return None


def hash_name(s):
    m = re.search(r"Sha512VarCore, ([^;]*)", s)
    if m:
        bits = re.findall(r"::B([01])\b|\bB([01])\b", m.group(1))
        n = int("".join(a or b for a, b in bits)[:7] or "0", 2) if bits else 64
        return {48: "sha384", 64: "sha512"}.get(n, "sha512-%d" % n)
    if "Sha256VarCore" in s:
        return "sha256"
    if s.startswith("SHA"):
        return {"SHA1_FOR_LEGACY_USE_ONLY": "sha1"}.get(s, s.lower())
    for k, n in (("Md5Core", "md5"), ("Sha1Core", "sha1")):
        if k in s:
            return n
    return None


def static_name(st, v):
    t = find(v, "static")
    return t[1].split("::")[-1] if t else None


def bytes_of(c, st, v):
    """the bytes a value stands for, as pieces"""
    for _ in range(6):
        if isinstance(v, tuple) and v and v[0] in ("ref", "sl"):
            if v[0] == "sl":
                return st.facts.norm(deref(c, st, v))[1]
            v = c.read(st, v[1], v[2])
        else:
            break
    v = st.facts.norm(v)
    if v[0] == "seq":
        return v[1]
    if v[0] == "sym":
        d = v[1]
        if isinstance(d, tuple) and d[0] == "digest":
            return (("Blob", d, ZERO, K(SIZE.get(d[1], 32))),)
        return (("Blob", d, ZERO, length(d)),)
    raise Imprecise("bytes of %s" % (v[0],))


def seqof(c, st, v):
    return ("seq", tuple(bytes_of(c, st, v)), u8_ty())


def payload(c, st, v, tag):
    """the tagged term of a key, hasher or number behind references"""
    for _ in range(6):
        if isinstance(v, tuple) and v and v[0] == "ref":
            v = c.read(st, v[1], v[2])
        else:
            break
    t = find(st.facts.norm(v), tag)
    if t is None:
        raise Imprecise("no %s" % tag)
    return t


def prehashed(q):
    """(hash, message) of bytes that are a whole digest"""
    if len(q[1]) == 1 and q[1][0][0] == "Blob" and isinstance(q[1][0][1], tuple) and q[1][0][1][0] == "digest" and q[1][0][2] == ZERO and q[1][0][3] == K(SIZE.get(q[1][0][1][1], 32)):
        return q[1][0][1][1], q[1][0][1][2]
    return None, q


def ok_cond(v):
    """success of an uninterpreted Result, Option or bool"""
    if v[0] == "b":
        return v[1]
    vs = variants(v[2])
    good = [x["d"] for x in vs if x["n"] in ("Ok", "Some")][0]
    return eq0(L(discr_atom(v[1], v[2])) - good)


def made(st, v, what):
    st.event(("made", what, ok_cond(v)))
    return [(st, v)]


def checked(st, rty, scheme, key, msg, sig):
    v = mk_sym(("verified", scheme, key, msg, sig), rty)
    st.event(("verify", scheme, key, msg, sig, ok_cond(v)))
    return [(st, v)]


def signed(st, rty, scheme, key, msg):
    t = ("signed", scheme, key, msg)
    v = mk_sym(t, rty)
    st.event(("sign", scheme, key, msg, t, ok_cond(v) if v[0] == "sym" and variants(v[2]) and {x["n"] for x in variants(v[2])} & {"Ok", "Some"} else None))
    return v


def rsa_scheme(pad, h):
    pad = pad[1]
    if pad == "raw":
        return "rsa-pkcs1-noprefix-%s" % h
    return "rsa-pkcs1-%s" % pad if pad == h else "rsa-pkcs1-%s-over-%s" % (pad, h)


def ring_alg(n):
    n = (n or "?").replace("_SIGNING", "")
    m = re.match(r"RSA_PKCS1_(?:\d+_\d+_)?(SHA\d+)(_FOR_LEGACY_USE_ONLY)?$", n)
    if m:
        return "rsa-pkcs1-" + m.group(1).lower()
    return n.lower()


def foreign(c, st, inst, args, rty):
    n = inst["name"]
    d = inst["def"]
    m = d.split("::")[-1]
    cr = inst["crate"]
    k = mk_sym

    def by(i):
        return seqof(c, st, args[i])

    # ---- hashes
    if cr == "digest" or (cr == "ring" and "digest::Context" in n):
        if m in ("new", "default"):
            h = hash_name(n) if cr == "digest" else hash_name(static_name(st, args[0]) or "")
            return [(st, k(("hasher", h, ("seq", (), u8_ty())), rty))]
        if m in ("update", "chain_update", "input"):
            h = payload(c, st, args[0], "hasher")
            nv = ("hasher", h[1], mk_seq(tuple(h[2][1]) + tuple(by(1)[1]), u8_ty()))
            if m == "chain_update":
                return [(st, k(nv, rty))]
            r = args[0]
            old = c.read(st, r[1], r[2])
            c.write(st, r[1], r[2], k(nv, c.type_of(old)))
            return [(st, ("tup", ()))]
        if m in ("finalize", "finish"):
            h = payload(c, st, args[0], "hasher")
            return [(st, k(("digest", h[1], h[2]), rty))]
        if m == "digest":
            return [(st, k(("digest", hash_name(n), by(0)), rty))]
    if cr == "ring" and d.endswith("digest::digest"):
        return [(st, k(("digest", hash_name(static_name(st, args[0]) or ""), by(1)), rty))]
    # ---- views
    if m in ("as_ref", "deref", "as_slice", "as_bytes") and cr in ("ring", "generic_array", "digest"):
        q = by(0)
        return [(st, ("sl", new_cell(st, q), (), ZERO, seq_len(q)))]
    if m in ("to_vec", "to_bytes") and cr in ("signature", "dsa"):
        s = payload(c, st, args[0], "signed")
        t = ("der", s)
        for n, e in enumerate(st.ev):
            if e[0] == "sign" and e[4] == s:
                st.ev = st.ev[:n] + ((e[0], e[1] + "-der") + e[2:],) + st.ev[n + 1:]
        return [(st, ("seq", (("Blob", t, ZERO, length(t)),), u8_ty()))]
    # ---- numbers and keys
    if m == "from_bytes_be" and cr == "num_bigint_dig":
        return [(st, k(("big", by(0)), rty))]
    if m == "from_bytes_le" and cr == "num_bigint_dig":
        return [(st, k(("bigle", by(0)), rty))]
    if d == "rsa::RsaPublicKey::new":
        return made(st, k(("rsakey", payload(c, st, args[0], "big")[1], payload(c, st, args[1], "big")[1]), rty), "key")
    if cr == "dsa" and d.endswith("Components::from_components"):
        return made(st, k(("dsacomp",) + tuple(payload(c, st, a, "big")[1] for a in args[:3]), rty), "key")
    if cr == "dsa" and d.endswith("VerifyingKey::from_components"):
        x = payload(c, st, args[0], "dsacomp")
        return made(st, k(("dsakey",) + x[1:4] + (payload(c, st, args[1], "big")[1],), rty), "key")
    if cr == "dsa" and "Signature" in n and m in ("try_from", "from_der"):
        return made(st, k(("dsasig", by(0)), rty), "signature")
    if d == "rsa::Pkcs1v15Sign::new":
        return [(st, k(("pkcs1", hash_name(n)), rty))]
    if d == "rsa::Pkcs1v15Sign::new_unprefixed":
        return [(st, k(("pkcs1", "raw"), rty))]
    if cr == "ring" and "UnparsedPublicKey" in n and m == "new":
        return [(st, k(("ringkey", ring_alg(static_name(st, args[0])), by(1)), rty))]
    if cr == "crrl" and "ed448::PublicKey::decode" in n:
        return made(st, k(("ed448key", by(0)), rty), "key")
    # ---- verification
    if d == "rsa::RsaPublicKey::verify":
        h, msg = prehashed(by(2))
        return checked(st, rty, rsa_scheme(payload(c, st, args[1], "pkcs1"), h), payload(c, st, args[0], "rsakey"), msg, by(3))
    if cr in ("dsa", "signature") and m == "verify_prehash":
        h, msg = prehashed(by(1))
        return checked(st, rty, "dsa-%s-der" % h, payload(c, st, args[0], "dsakey"), msg, payload(c, st, args[2], "dsasig")[1])
    if cr == "ring" and "UnparsedPublicKey" in n and m == "verify":
        key = payload(c, st, args[0], "ringkey")
        return checked(st, rty, key[1], key, by(1), by(2))
    if cr == "crrl" and "ed448::PublicKey::verify_raw" in n:
        return checked(st, rty, "ed448", payload(c, st, args[0], "ed448key"), by(2), by(1))
    # ---- signing
    if m == "from_pkcs8_der":
        return made(st, k(("privkey", "rsa" if "RsaPrivateKey" in n else "dsa", by(0)), rty), "key")
    if cr == "ring" and m == "from_pkcs8":
        if "Ecdsa" in n:
            return made(st, k(("privkey", ring_alg(static_name(st, args[0])), by(1)), rty), "key")
        return made(st, k(("privkey", "ed25519" if "Ed25519" in n else "rsa", by(0)), rty), "key")
    if cr == "crrl" and "ed448::PrivateKey::decode" in n:
        return made(st, k(("privkey", "ed448", by(0)), rty), "key")
    if d == "rsa::RsaPrivateKey::sign":
        h, msg = prehashed(by(2))
        v = signed(st, rty, rsa_scheme(payload(c, st, args[1], "pkcs1"), h), payload(c, st, args[0], "privkey"), msg)
        return [(st, v)]
    if cr == "signature" and m == "sign_digest":
        h = payload(c, st, args[1], "hasher")
        return [(st, signed(st, rty, "dsa-%s" % h[1], payload(c, st, args[0], "privkey"), h[2]))]
    if cr == "ring" and n.endswith("rsa::KeyPair::sign"):
        key = payload(c, st, args[0], "privkey")
        sch = ring_alg(static_name(st, args[1]))
        t = ("signed", sch, key, by(3))
        sl = to_slice(c, st, args[4])
        v = k(("app", "rsa-sign", t), rty)
        st.event(("sign", sch, key, by(3), t, ok_cond(v)))
        old = deref(c, st, args[4])
        whole = c.read(st, sl[1], sl[2])
        if whole[0] != "seq" or sl[3] != ZERO or st.facts.decide(eq0(seq_len(whole) - sl[4])) is not True:
            raise Imprecise("signature into part of a buffer")
        c.write(st, sl[1], sl[2], ("seq", (("Blob", t, ZERO, seq_len(old)),), u8_ty()))
        return [(st, v)]
    if cr == "ring" and m == "sign" and "Ecdsa" in n:
        key = payload(c, st, args[0], "privkey")
        return [(st, signed(st, rty, key[1], key, by(2)))]
    if cr == "ring" and m == "sign" and "Ed25519" in n:
        return [(st, signed(st, rty, "ed25519", payload(c, st, args[0], "privkey"), by(1)))]
    if cr == "crrl" and "ed448::PrivateKey::sign_raw" in n:
        return [(st, signed(st, rty, "ed448", payload(c, st, args[0], "privkey"), by(1)))]
    if cr == "base64" and m == "encode":
        t = ("base64", reify(c, st, args[0]), by(1))
        return [(st, ("seq", (("Blob", t, ZERO, length(t)),), u8_ty()))]
    if cr == "ring" and m in ("new", "public", "modulus_len"):
        return [(st, k(("app", d) + tuple(reify(c, st, a) for a in args), rty))]
    return None


def install(c, p):
    for i in p.insts:
        if "body" not in i and i["crate"] in FOREIGN:
            c.contracts[i["name"]] = guarded


def guarded(c, st, inst, args, rty):
    try:
        return foreign(c, st.copy(), inst, args, rty)
    except Fork as f:
        out = []
        for cc in (f.cond, neg(f.cond)):
            s = st.assume(cc)
            if s is not None:
                r = guarded(c, s, inst, args, rty)
                if r is None:
                    r = c.unknown_call(inst, args, s, rty)
                out += r
        return out
    except (Imprecise, KeyError, IndexError, TypeError) as e:
        c.note("foreign %s: %s" % (inst["name"][:80], e))
        return None


# ---------------------------------------------------------------- DNSSEC values
def field_of(p, ty, pred):
    """index of the only field of a struct that satisfies a predicate on its type"""
    fs = p.types[ty]["v"][0]["f"]
    l = [n for n, f in enumerate(fs) if pred(p.types[f[1]])]
    return l[0] if len(l) == 1 else None


def is_bytes(p):
    return lambda t: t["k"] == "adt" and last(t["def"]) == "Vec" and p.types[[a for a in t["args"] if isinstance(a, int)][0]]["k"] == "uint"


def is_named(n):
    return lambda t: t["k"] == "adt" and last(t["def"]) == n


def with_fields(c, v, repl):
    """a struct value with some fields replaced"""
    fs = list(v[3]) if v[0] == "adt" else list(sym_fields(v, 0))
    ty = v[1] if v[0] == "adt" else v[2]
    for n, x in repl.items():
        fs[n] = x
    return ("adt", ty, 0, tuple(fs))


def algorithms(p):
    """variants of the DNSSEC algorithm enum: [(name, value, wire code)]"""
    s = inherent(p, "Algorithm", "sign_data")
    if s is None:
        return None, []
    ty = p.types[argty(s, 0)]["e"] if p.types[argty(s, 0)]["k"] == "ref" else argty(s, 0)
    return ty, [(v["n"], ("adt", ty, n, ())) for n, v in enumerate(p.types[ty]["v"])]


def blob(name):
    t = ("arg", name)
    return ("Blob", t, ZERO, length(t))


def bytes_val(*ps):
    return mk_seq(tuple(ps), u8_ty())


RRSET = ("arg", "rrset bytes")


def context(p, sign=True):
    """names summarised, record sets by their bytes, foreign crates uninterpreted"""
    c = ctx(p, fit=True)
    Contracts(p, ("FQDN",)).install(c)
    install(c, p)
    rs = method(p, "ResourceRecordSet", "ByteConvertible", "to_bytes")
    if rs is not None:
        c.contracts[rs["name"]] = lambda c, st, i, a, r: [(st, ("seq", (("Blob", RRSET, ZERO, length(RRSET)),), u8_ty()))]
    return c


def preimage(c, p, st, rrsig):
    """what is signed: the record data without its signature, then the record set"""
    e = method(p, "Rrsig", "ByteConvertible", "to_bytes")
    ty = rrsig[1] if rrsig[0] == "adt" else rrsig[2]
    sg = field_of(p, ty, is_bytes(p))
    if e is None or sg is None:
        return []
    st = st.copy()
    st.mem[("P", 0)] = with_fields(c, rrsig, {sg: bytes_val()})
    out = []
    for s, v in run(c, e, [("ref", ("P", 0), ())], st):
        if v[0] == "seq":
            out.append((s, ("seq", tuple(v[1]) + (("Blob", RRSET, ZERO, length(RRSET)),), u8_ty())))
    return out


def fails(st):
    """a primitive on this path is known to have failed"""
    return any(e[0] in ("made", "sign") and e[-1] is not None and st.facts.decide(e[-1]) is False for e in st.ev)


def key_shapes():
    """public keys as their RFCs lay them out: family -> [(text, constraints, bytes, expected parts)]"""
    e1 = L(T.mk_atom(("var", ("arg", "explen")), 1, 255))
    hi = L(T.mk_atom(("var", ("arg", "exphi")), 0, 255))
    lo = L(T.mk_atom(("var", ("arg", "explo")), 0, 255))
    t = L(T.mk_atom(("var", ("arg", "t")), 0, 255))
    ex, mod = ("arg", "exponent"), ("arg", "modulus")
    q, p_, g, y = ("arg", "q"), ("arg", "p"), ("arg", "g"), ("arg", "y")
    w = t.scale(8) + 64
    e2 = hi.scale(256) + lo
    return {
        "rsa": [("one length byte", [], (("B", e1), ("Blob", ex, ZERO, e1), blob("modulus")), ("rsakey", bytes_val(blob("modulus")), bytes_val(("Blob", ex, ZERO, e1)))),
                ("three length bytes", [], (("B", K(0)), ("B", hi), ("B", lo), ("Blob", ex, ZERO, e2), blob("modulus")), ("rsakey", bytes_val(blob("modulus")), bytes_val(("Blob", ex, ZERO, e2)))),
                ("exponent of 260 bytes", [], (("B", K(0)), ("B", K(1)), ("B", K(4)), ("Blob", ex, ZERO, K(260)), blob("modulus")), ("rsakey", bytes_val(blob("modulus")), bytes_val(("Blob", ex, ZERO, K(260)))))],
        "dsa": [("T, Q, P, G, Y", [], (("B", t), ("Blob", q, ZERO, K(20)), ("Blob", p_, ZERO, w), ("Blob", g, ZERO, w), ("Blob", y, ZERO, w)),
                 ("dsakey", bytes_val(("Blob", p_, ZERO, w)), bytes_val(("Blob", q, ZERO, K(20))), bytes_val(("Blob", g, ZERO, w)), bytes_val(("Blob", y, ZERO, w))))],
        "ring": [("whole", [], (blob("public key"),), ("ringkey", None, bytes_val(blob("public key")))), ("one byte", [], (("B", t),), ("ringkey", None, bytes_val(("B", t))))],
        "ring-ec": [("x, y", [], (blob("public key"),), ("ringkey", None, bytes_val(("B", K(4)), blob("public key"))))],
        "ed448": [("whole", [], (blob("public key"),), ("ed448key", bytes_val(blob("public key"))))],
    }


# what the algorithm numbers stand for (RFC 2537/3110, 2536, 5702, 6605, 8080): scheme and key layout
SCHEME = {
    "RSA_MD5": ("rsa-pkcs1-md5", "rsa"), "DSA_SHA1": ("dsa-sha1-rs", "dsa"), "RSA_SHA1": ("rsa-pkcs1-sha1", "rsa"),
    "RSA_SHA256": ("rsa-pkcs1-sha256", "rsa"), "RSA_SHA512": ("rsa-pkcs1-sha512", "rsa"),
    "ECDSA_P256": ("ecdsa_p256_sha256_fixed", "ring-ec"), "ECDSA_P384": ("ecdsa_p384_sha384_fixed", "ring-ec"),
    "ED25519": ("ed25519", "ring"), "ED448": ("ed448", "ed448"),
}
NEVER = ("Indirect", "PrivateDns", "PrivateOid")
