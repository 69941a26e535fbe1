"""Signing covers the whole data with the scheme verification uses."""
from crypto import *

EXPLAIN = """Signing is interpreted abstractly on symbolic data and keys with the primitives of other crates as uninterpreted functions: for every algorithm a
result must be the complete output of one signing primitive over all the data with the whole private key, by the very scheme the
verification function is found to check for that algorithm; errors only when a primitive fails. Building a signature record is
interpreted with symbolic key, record set and times: every field, the data handed to the signing function and the bytes the record
serialises to are compared with the specification (type, algorithm, label count, TTL, times in seconds, key tag, signer, signature)."""
ASSUME = ["the primitives of other crates compute what their names say", "key tag compared for keys of up to six bytes here; see the digest property"]
CONFIGS = {"quick": ["all"], "thorough": ["all", "dnssec"]}
RULE = "signing and verifying agree"


def units(p, tier):
    ty, al = algorithms(p)
    return [] if ty is None else ["sign:" + n for n, _ in al] + ["record:%d" % n for n in range(0, 4 if tier == "quick" else 7)]


def verify_schemes(p, a):
    """schemes the verification function may use for an algorithm"""
    v = inherent(p, "Rrsig", "verify")
    if v is None:
        return set()
    c = context(p)
    sty, kty = p.types[argty(v, 0)]["e"], p.types[argty(v, 1)]["e"]
    x, y = field_of(p, sty, is_named("Algorithm")), field_of(p, kty, is_named("Algorithm"))
    s0 = State()
    s0.mem[("S", 0)] = with_fields(c, mk_sym(("arg", "self"), sty), {x: a})
    s0.mem[("K", 0)] = with_fields(c, mk_sym(("arg", "key"), kty), {y: a})
    out = set()
    for s, r in run(c, v, [("ref", ("S", 0), ()), ("ref", ("K", 0), ()), mk_sym(("arg", "set"), argty(v, 2))], s0):
        out |= {e[1] for e in s.ev if e[0] == "verify"}
    return out


def run_unit(R, p, u, tier):
    R.count("units")
    k, n = u.split(":")
    if k == "sign":
        sign(R, p, n)
    else:
        record(R, p, int(n))


def whole(s, v, t, n):
    """is v exactly the n bytes of t"""
    if v[0] != "seq":
        return None
    ps = simp_pieces(v[1], s.facts, u8_ty())
    if len(ps) != 1 or ps[0][0] != "Blob" or find(ps[0][1], "signed") != t:
        return None if T.is_imprecise(v) else False
    if ps[0][2] != ZERO:
        return False
    full = n if n is not None else length(ps[0][1])
    return True if s.facts.decide(eq0(s.facts.norm(ps[0][3] - full))) is True else False


def sign(R, p, n):
    i = inherent(p, "Algorithm", "sign_data")
    ty, al = algorithms(p)
    a = dict(al)[n]
    c = context(p)
    st = State()
    st.mem[("A", 0)] = a
    args = []
    for k in range(i["body"]["argc"]):
        args.append([("ref", ("A", 0), ()) if p.types[argty(i, 0)]["k"] == "ref" else a, mk_sym(("arg", "data"), argty(i, 1)), mk_sym(("arg", "private key"), argty(i, 2))][k])
    data, pk = bytes_val(blob("data")), bytes_val(blob("private key"))
    vs = verify_schemes(p, a)
    where = i["span"]
    for s, r in run(c, i, args, st):
        if r[0] != "adt":
            R.undecided(n, "result not represented", where, RULE)
            continue
        if variants(r[1])[r[2]]["n"] == "Err":
            if n in SCHEME:
                verdict(R, "%s: error only when a primitive fails" % n, True if fails(s) else False, s, "signing is refused although key and primitive are fine", where, RULE)
            else:
                R.proven("%s: refused" % n, where, RULE)
            continue
        if n not in SCHEME:
            verdict(R, "%s: refused" % n, False, s, "something is called a signature although the algorithm cannot sign", where, RULE)
            continue
        evs = [e for e in s.ev if e[0] == "sign"]
        if not evs:
            verdict(R, "%s: signed" % n, None if T.is_imprecise(r) else False, s, "the result %s does not come from a signing primitive" % show_val(r)[:100], where, RULE)
            continue
        _, scheme, key, msg, t, ok = evs[-1]
        if len(vs) == 1:
            v = next(iter(vs))
            verdict(R, "%s: scheme" % n, True if v == scheme else None if "None" in v + scheme or "?" in v + scheme else False, s, "signed by %s and verified by %s" % (scheme, v), where, RULE)
        else:
            R.undecided("%s: scheme" % n, "verification uses %s" % sorted(vs), where, RULE)
        if ok is not None:
            q = s.facts.decide(ok)
            verdict(R, "%s: the primitive succeeded" % n, True if q is True else False if q is False else None, s, "a failed signature is returned", where, RULE)
        verdict(R, "%s: all the data" % n, equal(s.facts.norm(msg), data, s.facts), s, "signs %s instead of the data" % show_val(msg)[:200], where, "the whole data is signed")
        verdict(R, "%s: the whole key" % n, equal(s.facts.norm(key[2]), pk, s.facts), s, "takes the key from %s" % show_val(key[2])[:200], where, "the whole private key is used")
        val = r[3][0]
        ps = val[1] if val[0] == "seq" else ()
        m = None
        if len(ps) == 1 and ps[0][0] == "Blob":
            if scheme == "ed448":
                m = K(114)
            elif find(("x", reify(c, s, val)), "app") is not None or "modulus_len" in show_lin(ps[0][3]):
                m = ps[0][3] if "modulus_len" in show_lin(ps[0][3]) and len(ps[0][3].t) == 1 and ps[0][3].c == 0 else None
        w = whole(s, val, t, m)
        verdict(R, "%s: the whole signature" % n, w, s, "returns %s instead of the primitive's signature" % show_val(val)[:200], where, "the whole signature is returned")
    R.use(c)


def u(n, v):
    b = T.bits_or_opaque(v, 8 * n)
    return tuple(("B", T.from_bits(b[8 * k:8 * k + 8])) for k in reversed(range(n)))


def record(R, p, n):
    i = inherent(p, "Rrsig", "from_dnskey")
    e = method(p, "Rrsig", "ByteConvertible", "to_bytes")
    R.count("records")
    if i is None or e is None:
        R.refuted("from_dnskey", "missing", "", RULE)
        return
    where = i["span"]
    c = context(p)
    sd = inherent(p, "Algorithm", "sign_data")
    c.contracts[sd["name"]] = lambda c, st, i, a, r: [(st, mk_sym(("signdata", reify(c, st, a[0]), seqof(c, st, a[1]), seqof(c, st, a[2])), r))]
    kty = p.types[argty(i, 0)]["e"]
    ka, kb = field_of(p, kty, is_named("Algorithm")), field_of(p, kty, is_bytes(p))
    if ka is None or kb is None:
        R.undecided("record", "cannot tell the parts of the key apart", where, RULE)
        return
    ty, al = algorithms(p)
    kv0 = mk_sym(("arg", "key"), kty)
    by = [L(T.mk_atom(("var", ("arg", "k%d" % j)), 0, 255)) for j in range(n)]
    sty = p.types[argty(i, 1)]["e"]
    for an, a in al[: 3 if n else None]:
        kv = with_fields(c, kv0, {ka: a, kb: bytes_val(*[("B", b) for b in by])})
        st = State()
        st.mem[("K", 0)] = kv
        st.mem[("R", 0)] = mk_sym(("arg", "set"), sty)
        args = [("ref", ("K", 0), ()), ("ref", ("R", 0), ()), mk_sym(("arg", "inception"), argty(i, 2)), mk_sym(("arg", "expiration"), argty(i, 3)), mk_sym(("arg", "private key"), argty(i, 4))]
        tags = key_tag(c, p, st, kv, n)
        if tags is None:
            R.undecided("%s: key tag" % an, "key bytes not represented", where, RULE)
            continue
        got = {}
        for m in ("set_type", "ttl", "name"):
            g = inherent(p, "ResourceRecordSet", m)
            o = run(c, g, [("ref", ("R", 0), ())], st) if g else []
            if len(o) != 1:
                R.undecided("record: %s" % m, "not a plain getter", where, RULE)
                return
            got[m] = o[0][1]
        code = code_writers(p)
        tc = run(c, code[type_named(p, "RecordType")], [got["set_type"]], st)
        ac = run(c, code[ty], [a], st)
        nm = c.read(st, got["name"][1], got["name"][2])
        lc = run(c, inherent(p, "FQDN", "label_count"), [got["name"]], st)
        if len(tc) != 1 or len(ac) != 1 or len(lc) != 1:
            R.undecided("record", "codes not represented", where, RULE)
            return
        for s, r in run(c, i, args, st):
            base = "record, %s key of %d bytes" % (an, n)
            if r[0] != "adt":
                R.undecided(base, "result not represented", where, RULE)
                continue
            if variants(r[1])[r[2]]["n"] == "Err":
                q = any("duration_since" in show_cond(x) or "signdata" in show_cond(x) for x in s.trail)
                verdict(R, base + ": error only for a bad time or a failed signature", True if q else False, s, "refused", where, RULE)
                continue
            v = r[3][0]
            s.mem[("O", 0)] = v
            sdt = find(v, "signdata")
            tm = {}
            for w in ("expiration", "inception"):
                tm[w] = seconds(c, p, s, w)
            fixed = u(2, tc[0][1]) + u(1, ac[0][1]) + u(1, lc[0][1]) + u(4, got["ttl"]) + u(4, tm["expiration"]) + u(4, tm["inception"]) + u(2, tags) + (("Enc", "FQDN", nm, None),) if all(tm.values()) else None
            if fixed is None:
                R.undecided(base, "times not represented", where, RULE)
                continue
            for s2, bs in run(c, e, [("ref", ("O", 0), ())], s):
                if bs[0] != "seq":
                    R.undecided(base, "bytes not represented", where, RULE)
                    continue
                f = s2.facts
                head, tail = bs[1][:-1], bs[1][-1:]
                w = []
                q = equal(f.norm(("seq", tuple(bs[1]), u8_ty())), f.norm(("seq", fixed + (tail if sdt is not None else ()), u8_ty())), f, w)
                verdict(R, base + ": fields", q, s2, "the record is not made of the set's type, the key's algorithm, the label count, TTL, times in seconds, key tag and signer: %s" % "; ".join(w)[:300], where, "fields of a signature record")
                if sdt is None:
                    verdict(R, base + ": signature", False if not T.is_imprecise(v) else None, s2, "the record carries no signature", where, RULE)
                    continue
                q = equal(f.norm(sdt[2]), f.norm(("seq", fixed + (("Blob", RRSET, ZERO, length(RRSET)),), u8_ty())), f, w)
                verdict(R, base + ": signed data", q, s2, "something other than the record data without signature followed by the record set is signed: %s" % show_val(sdt[2])[:300], where, "the whole signed data is signed")
                q = equal(f.norm(sdt[3]), bytes_val(blob("private key")), f, w)
                verdict(R, base + ": private key", q, s2, "signed with %s" % show_val(sdt[3])[:100], where, RULE)
                q = sdt[1] == a
                verdict(R, base + ": algorithm", q, s2, "signed by another algorithm than the key's", where, RULE)
                t = tail[0] if tail else None
                q = t is not None and t[0] == "Blob" and find(t[1], "signdata") == sdt and t[2] == ZERO and t[3] == length(t[1])
                verdict(R, base + ": signature kept whole", True if q else None if T.is_imprecise(bs) else False, s2, "the record carries %s" % show_val(("seq", tail, u8_ty()))[:200], where, RULE)
    R.use(c)


def seconds(c, p, s, w):
    """the low 32 bits of the seconds from the epoch to an argument, as the library's own calls denote them"""
    want = []

    def walk(x):
        if isinstance(x, Lin):
            for a in x.atoms() if hasattr(x, "atoms") else [y for y, _ in x.t]:
                walk(a)
            return
        if isinstance(x, T.Atom):
            walk(x.key)
            return
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == "app" and str(x[1]).endswith("as_secs") and ("arg", w) in flat(x):
                want.append(x)
                return
            for y in x:
                walk(y)
    walk(s.mem[("O", 0)])
    for cc in s.trail:
        walk(cc)
    if not want:
        # not measured in seconds at all: build the reference from the conversion that was made
        return None if find_time(s, w) is None else var(("app", "as_secs", find_time(s, w)), 0, (1 << 32) - 1)
    t = var(want[0], 0, (1 << 64) - 1)
    return T.from_bits(T.bits_or_opaque(t, 64)[:32])


def flat(x, out=None):
    out = set() if out is None else out
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "arg":
            out.add(x)
        for y in x:
            flat(y, out)
    return out


def find_time(s, w):
    l = [x for x in flat(tuple(walk_terms(s.mem[("O", 0)])))]
    return ("arg", w) if ("arg", w) in l else None


def walk_terms(x, out=None):
    out = [] if out is None else out
    if isinstance(x, Lin):
        for a, _ in x.t:
            out.append(a.key)
            walk_terms(a.key, out)
    elif isinstance(x, T.Atom):
        out.append(x.key)
        walk_terms(x.key, out)
    elif isinstance(x, tuple):
        for y in x:
            walk_terms(y, out)
    return out


def key_tag(c, p, st, kv, n):
    """RFC 4034 appendix B over the bytes of the key's record data"""
    e = method(p, "DnsKey", "ByteConvertible", "to_bytes")
    s = st.copy()
    s.mem[("T", 0)] = kv
    o = run(c, e, [("ref", ("T", 0), ())], s)
    if len(o) != 1 or o[0][1][0] != "seq" or any(x[0] != "B" for x in o[0][1][1]):
        return None
    return tag_of([x[1] for x in o[0][1][1]])


def tag_of(bs):
    acc = K(0)
    for j, b in enumerate(bs):
        acc = acc + (b if j & 1 else b.scale(256))
    hi = T.from_bits(T.bits_or_opaque(acc, 32)[16:32])
    return T.from_bits(T.bits_or_opaque(acc + hi, 32)[:16])


def final(R, ps, tier):
    R.floor("units", 16 * len(ps))
