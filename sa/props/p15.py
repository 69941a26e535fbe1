"""The bytes of each record data type are laid out as its specification says."""
import bitmap
from api import *

EXPLAIN = """The serialiser of every type is interpreted abstractly on a value whose parts are arbitrary, taken both from its public
fields and from the arguments of its public constructor; the byte pattern it produces is compared, piece by piece
on every path, with the layout its RFC prescribes (a table in the check: which part, in which place, with which
width, length prefix or bit position). The comparison by which service parameters are kept sorted is interpreted on every pair
of parameters and keys and has to agree with the order of their numbers."""
ASSUME = ["lengths fit the width they are written with", "the bitmaps of NSEC and CSYNC are compared for spelled out sets of types", "code numbers are those of the code tables (P09)"]


def u(n, f):
    return ("num", n, f)


def name(f):
    return ("name", f)


def raw(f):
    return ("raw", f)


def str8(f):
    return ("str", 1, f)


def str16(f):
    return ("str", 2, f)


def code(n, f):
    return ("code", n, f)


# RFC 1035, 1183, 1876, 2782, 2845/8945, 2930, 3123, 3403, 3596, 4025, 4034, 4255, 4398, 4701, 6698, 7043, 7344, 7477, 7553, 7929, 8005, 8659, 9460
LAYOUT = {
    "A": [raw("0")],
    "Aaaa": [raw("0")],
    "Apl": {"IpV4": [("const", 0), ("const", 1), u(1, "prefix"), ("bits", [("afd", 7, 4), ("n", 1, None)]), raw("afd_part.0")],
            "IpV6": [("const", 0), ("const", 2), u(1, "prefix"), ("bits", [("afd", 7, 16), ("n", 1, None)]), raw("afd_part.0")]},
    "Caa": [("bits", [(None, 7, 0), ("issuer_critical", 1, None)]), str8("tag"), raw("value")],
    "Cname": [name("cname")],
    "Csync": [u(4, "soa_serial"), u(2, "flags.0"), ("rest",)],
    "Dhcid": [code(2, "identifier_code"), ("const", 1), raw("digest")],
    "DnsKey": [("bits", [("zone_key", 1, None), (None, 7, 0)]), ("bits", [("secure_entry_point", 1, None), (None, 7, 0)]), u(1, "protocol"), code(1, "algorithm"), raw("public_key")],
    "Ds": [u(2, "key_tag"), code(1, "algorithm"), code(1, "digest_type"), raw("digest")],
    "Eui48": [raw("0")],
    "Eui64": [raw("0")],
    "Hinfo": [str8("cpu"), str8("os")],
    "Hip": [("len", 1, "hit"), code(1, "public_key_algorithm"), ("len", 2, "public_key"), raw("hit"), raw("public_key"), ("names?", "rendevous_server")],
    "IpSecKey": {"None": [u(1, "precedence"), ("const", 0), code(1, "algorithm"), raw("public_key")],
                 "IpV4": [u(1, "precedence"), ("const", 1), code(1, "algorithm"), raw("gateway.0"), raw("public_key")],
                 "IpV6": [u(1, "precedence"), ("const", 2), code(1, "algorithm"), raw("gateway.0"), raw("public_key")],
                 "Domain": [u(1, "precedence"), ("const", 3), code(1, "algorithm"), name("gateway.0"), raw("public_key")]},
    "Loc": [u(1, "version"), u(1, "size"), u(1, "horiz_pre"), u(1, "vert_pre"), u(4, "latitude"), u(4, "longitude"), u(4, "altitude")],
    "Minfo": [name("rmailbx"), name("emailbx")],
    "Mx": [u(2, "preference"), name("exchange")],
    "Naptr": [u(2, "order"), u(2, "preference"), ("flags", "flags"), str8("service"), str8("regexp"), name("replacement")],
    "Ns": [name("nsdname")],
    "Nsec": [name("next_domain_name"), ("rest",)],
    "Null": [raw("anything")],
    "OpenPgpKey": [raw("0")],
    "Opt": [("options", "0")],
    "Ptr": [name("0")],
    "Rrsig": [code(2, "type_covered"), code(1, "algorithm"), u(1, "labels"), u(4, "original_ttl"), u(4, "sig_expiration"), u(4, "sig_inception"), u(2, "key_tag"), name("signers_name"), raw("signature")],
    "Soa": [name("mname"), name("rname"), u(4, "serial"), u(4, "refresh"), u(4, "retry"), u(4, "expire"), u(4, "minimum")],
    "Srv": [u(2, "priority"), u(2, "weight"), u(2, "port"), name("target")],
    "Sshfp": [code(1, "algorithm"), code(1, "fingerprint_type"), raw("fingerprint")],
    "Svcb": [u(2, "priority"), name("target_name"), ("rest",)],
    "Tkey": [name("algorithm"), u(4, "inception"), u(4, "expiration"), code(2, "mode"), code(2, "error"), str16("key_data"), str16("other_data")],
    "Tlsa": [code(1, "cert_usage"), code(1, "selector"), code(1, "matching_type"), raw("associated_data")],
    "Tsig": [name("algorithm"), u(6, "time_signed"), u(2, "fudge"), str16("mac"), u(2, "original_id"), code(2, "error"), str16("other_data")],
    "Txt": [("strings", "0")],
    "Uri": [u(2, "priority"), u(2, "weight"), raw("target")],
    "Wks": [raw("address"), u(1, "protocol"), raw("bitmap")],
    "Question": [name("name"), code(2, "query_type"), code(2, "class")],
    "ResourceRecord": [name("name"), code(2, "record_type"), code(2, "class"), u(4, "time_to_live"), ("data", "data")],
    "Param": {"Mandatory": [("const", 0), ("const", 0), ("len2",), ("keys", "0")],
              "Alpn": [("const", 0), ("const", 1), ("len2",), ("strings", "0")],
              "NoDefaultAlpn": [("const", 0), ("const", 2), ("len2",)],
              "Port": [("const", 0), ("const", 3), ("len2",), u(2, "0")],
              "IpV4Hint": [("const", 0), ("const", 4), ("len2",), raw("0")],
              "Ech": [("const", 0), ("const", 5), ("len2",), raw("0")],
              "IpV6Hint": [("const", 0), ("const", 6), ("len2",), raw("0")],
              "Private": [u(2, "0"), ("len2",), raw("1")],
              "Invalid": [("const", 255), ("const", 255), ("len2",)]},
}
# types whose layout depends on the variant of a part
BY = {"Apl": "afd_part", "IpSecKey": "gateway"}
# what the arguments of the public constructor are, in order
NEW = {
    "A": ["0"], "Aaaa": ["0"], "Apl": ["prefix", "n", "afd_part"], "Caa": ["issuer_critical", "tag", "value"], "Cname": ["cname"], "Csync": ["soa_serial", "flags", "types"],
    "DnsKey": ["algorithm", "public_key"], "Ds": ["key_tag", "algorithm", "digest_type", "digest"], "Hinfo": ["cpu", "os"], "Minfo": ["rmailbx", "emailbx"],
    "Mx": ["preference", "exchange"], "Naptr": ["order", "preference", "flags", "service", "regexp", "replacement"], "Ns": ["nsdname"], "Null": ["anything"], "Ptr": ["0"],
    "Rrsig": ["type_covered", "algorithm", "labels", "original_ttl", "sig_expiration", "sig_inception", "key_tag", "signers_name", "signature"],
    "Soa": ["mname", "rname", "serial", "refresh", "retry", "expire", "minimum"], "Srv": ["priority", "weight", "port", "target"],
    "Sshfp": ["algorithm", "fingerprint_type", "fingerprint"], "Tlsa": ["cert_usage", "selector", "matching_type", "associated_data"], "Txt": ["0"],
    "Uri": ["priority", "weight", "target"], "Wks": ["address", "protocol", "bitmap"],
    "Question": ["name", "query_type", "class"], "ResourceRecord": ["name", "record_type", "class", "time_to_live", "data"],
}
# what a constructor sets on its own
DEFAULT = {"DnsKey": {"zone_key": ("b", False), "secure_entry_point": ("b", False), "protocol": K(3)}}
# private parts: only reachable through the constructor
PRIVATE = {"Rrsig", "Naptr", "Question", "ResourceRecord"}


def units(p, tier):
    have = set(p.impls.get(("ByteConvertible", "to_bytes"), {}))
    return sorted(t for t in LAYOUT if t in have) + ["FQDN"] + ["types of " + h[0] for h in bitmap.holders(p)] + \
        ["order of " + t for t in ("Param", "ParamKey") if method(p, t, "Ord", "cmp")]


def types(p):
    return set(p.impls.get(("RData", "record_type"), {}))


class Unsupported(Exception):
    pass


def writer_number(c, p, s, v, ty):
    """[(state, number)] of a code value"""
    w = code_writers(p).get(ty)
    if w is not None:
        return run(c, w, [v], s)
    if v[0] == "adt":
        return [(s, K(discr(p, v)))]
    if v[0] == "sym":
        return [(s, L(discr_atom(v[1], v[2])))]
    raise Unsupported("code %s" % show_val(v)[:60])


def get(env, f):
    """the part called f, possibly a part of a part"""
    f, *rest = f.split(".")
    v = env[f]
    for r in rest:
        i = int(r)
        if v[0] == "adt":
            v = v[3][i]
        else:
            v = sym_fields(v, env["@" + f])[i]
    return v


def bytes_of(v):
    """the bytes of a byte-string-like value"""
    if v[0] == "seq":
        return v[1]
    if v[0] == "adt" and len(v[3]) == 1 and isinstance(v[3][0], tuple):
        return bytes_of(v[3][0])
    if v[0] == "sym":
        t = tinfo(v[2])
        if t["k"] == "adt" and t.get("v") and len(t["v"]) == 1 and len(t["v"][0]["f"]) == 1:
            return bytes_of(sym_fields(v, 0)[0])
    raise Unsupported("bytes of %s" % show_val(v)[:60])


def num_pieces(x, n):
    b = T.to_bits(x, 64) or T.bits_or_opaque(x, 8 * n)
    return tuple(("B", T.from_bits(b[8 * k:8 * k + 8])) for k in reversed(range(n)))


def elems(v):
    """(term, length) of a list that is arbitrary"""
    if v[0] == "adt" and len(v[3]) == 1:
        v = v[3][0]
    if v[0] == "seq" and len(v[1]) == 1 and v[1][0][0] == "Blob":
        return v[1][0][1], v[1][0][3], v[2]
    raise Unsupported("list %s" % show_val(v)[:60])


def star(v, body):
    t, n, ety = elems(v)
    b = T.bound_var(0)
    return norm_pieces((("star", ZERO, n, b, tuple(body(elem_val(t, L(b), ety)))),), u8_ty())


def expected(c, p, s, env, tys, lay):
    """[(state, pieces)]"""
    outs = [(s, ())]
    for it in lay:
        k = it[0]
        nxt = []
        for s, ps in outs:
            if k == "const":
                add = [(s, (("B", K(it[1])),))]
            elif k == "num":
                add = [(s, num_pieces(s.facts.norm(get(env, it[2])), it[1]))]
            elif k == "code":
                add = [(s2, num_pieces(s2.facts.norm(x), it[1])) for s2, x in writer_number(c, p, s, get(env, it[2]), tys[it[2]])]
            elif k == "name":
                add = [(s, (("Enc", "FQDN", s.facts.norm(get(env, it[1])), None),))]
            elif k == "raw":
                add = [(s, bytes_of(get(env, it[1])))]
            elif k == "len":
                b = bytes_of(get(env, it[2]))
                add = [(s, num_pieces(pieces_len(b), it[1]))]
            elif k == "str":
                b = bytes_of(get(env, it[2]))
                add = [(s, num_pieces(pieces_len(b), it[1]) + tuple(b))]
            elif k == "bits":
                x, at = ZERO, 0
                for f, w, const in it[1]:
                    if f is None or const is not None:
                        x = x + K(const).scale(1 << at)
                    else:
                        v = get(env, f)
                        cond = v[1]
                        x = x + (K(1 if cond else 0) if isinstance(cond, bool) else b2i(cond)).scale(1 << at)
                    at += w
                add = [(s, (("B", x),))]
            elif k == "strings":
                add = [(s, star(get(env, it[1]), lambda e: num_pieces(pieces_len(bytes_of(e)), 1) + tuple(bytes_of(e))))]
            elif k == "keys":
                t, n, ety = elems(get(env, it[1]))
                add = [(s, ("rest",))]
            elif k == "options":
                t, n, ety = elems(get(env, it[1]))
                b = T.bound_var(0)
                e = elem_val(t, L(b), ety)
                kv = e[3] if e[0] in ("adt",) else e[1] if e[0] == "tup" else None
                if kv is None:
                    raise Unsupported("option %s" % show_val(e)[:80])
                add = [(s, norm_pieces((("star", ZERO, n, b, num_pieces(kv[0], 2) + num_pieces(pieces_len(bytes_of(kv[1])), 2) + tuple(bytes_of(kv[1]))),), u8_ty()))]
            elif k == "names?":
                v = get(env, it[1])
                if v[0] != "adt":
                    raise Unsupported("optional list")
                add = [(s, star(v[3][0], lambda e: (("Enc", "FQDN", e, None),)) if v[3] else ())]
            elif k == "flags":
                v = get(env, it[1])
                t, n, ety = elems(v)
                add = [(s, num_pieces(n, 1) + ("flags",))]
            elif k == "data":
                d = s.facts.norm(get(env, it[1]))
                pc = ("Enc", "RecordData", d, None)
                add = [(s, num_pieces(S.enc_len(pc), 2) + (pc,))]
            elif k == "len2":
                add = [(s, ("len2",))]
            elif k == "rest":
                add = [(s, ("rest",))]
            else:
                raise Unsupported(k)
            nxt += [(s2, ps + tuple(x)) for s2, x in add]
        outs = nxt
    return outs


def fill(want, got, f):
    """resolve what the table leaves to the value: the rest, and the length of what follows"""
    if "rest" in want:
        i = want.index("rest")
        return want[:i], "prefix"
    if "flags" in want:
        i = want.index("flags")
        mid = [x for x in got if x[0] == "star" or x[0] == "Blob" and "flags" in repr(x[1])]
        return None, "flags"
    return want, ""


def compare(R, key, s, got, want, where, rule, show):
    f = s.facts
    if "len2" in want:
        i = want.index("len2")
        body = want[i + 1:]
        if "rest" in body:
            head = want[:i]
            want = head + ("rest",)
        else:
            want = want[:i] + num_pieces(pieces_len(body), 2) + body
    if "rest" in want:
        want = want[:want.index("rest")]
        try:
            n = f.norm(pieces_len(want))
            got, _ = split_at(got, n, f, u8_ty())
        except (Fork, Imprecise):
            R.undecided(key, "start not separable: %s" % show_pieces(got)[:150], where, rule)
            return
    why = []
    q = eq_pieces(got, want, f, u8_ty(), why)
    if q is False:
        n = 0
        while n < len(got) and n < len(want) and got[n] == want[n]:
            n += 1
        key = "%s: from piece %d on %s" % (key, n, show_pieces(got[n:])[:200])
    verdict(R, key, q, s, "%s: written as %s, specified as %s" % (show, show_pieces(got)[:260], show_pieces(want)[:260]), where, rule)


def prepare(c, p, t, s, v, ty):
    """{part: value}, {part: type} of a value by its public fields"""
    env, tys = {}, {}
    fs = p.types[ty]["v"][0]["f"]
    for n, f in enumerate(fs):
        env[f[0]] = v[3][n] if v[0] == "adt" else sym_fields(v, 0)[n]
        tys[f[0]] = f[1]
    return env, tys


def variant_of(c, p, s, v):
    """[(state, variant index)] the states in which a part has a certain variant"""
    if v[0] == "adt":
        return [(s, v[2])]
    out = []
    for i, w in enumerate(tinfo(v[2])["v"]):
        s2 = s.assume(eq0(L(discr_atom(v[1], v[2])) - w["d"]))
        if s2 is not None:
            out.append((s2, i))
    return out


def setup(p, t):
    c = ctx(p, fit=True)
    kinds = ["FQDN"] + (["RecordData"] if t == "ResourceRecord" else []) + (["Param"] if t == "Svcb" else [])
    Contracts(p, kinds).install(c)
    return c


def check(R, c, p, t, key, e, s, v, env, tys, rule):
    """the serialisation of v under s against the layout"""
    s = s.copy()
    s.mem[("S", 0)] = v
    for s2, b in run(c, e, [("ref", ("S", 0), ())], s):
        if b[0] != "seq":
            R.undecided(key, "bytes unknown", e["span"], rule)
            continue
        if t == "Param":
            subj = v
        elif t in BY:
            subj = env[BY[t]]
        else:
            subj = None
        cases = variant_of(c, p, s2, subj) if subj is not None else [(s2, None)]
        for s3, i in cases:
            lay = LAYOUT[t]
            k2 = key
            env2, tys2 = dict(env), tys
            if i is not None:
                vn = variants(subj[1] if subj[0] == "adt" else subj[2])[i]["n"]
                k2 = "%s/%s" % (key, vn)
                lay = LAYOUT[t].get(vn)
                if lay is None:
                    R.undecided(k2, "no layout known for this variant", e["span"], rule)
                    continue
                fs = subj[3] if subj[0] == "adt" else sym_fields(subj, i)
                if t == "Param":
                    env2 = {str(n): x for n, x in enumerate(fs)}
                else:
                    env2[BY[t]] = ("adt", tys[BY[t]], i, tuple(fs))
            try:
                for s4, want in expected(c, p, s3, env2, tys2, lay):
                    if "flags" in want:
                        flags(R, c, p, k2, s4, b[1], want, env2, e["span"], rule)
                        continue
                    compare(R, k2, s4, s4.facts.norm(b)[1] if True else b[1], want, e["span"], rule, key)
            except Unsupported as x:
                R.undecided(k2, "representation not recognised: %s" % x, e["span"], rule)


def flags(R, c, p, key, s, got, want, env, where, rule):
    """NAPTR flags: one letter per flag; before and after are compared piece by piece"""
    i = want.index("flags")
    t, n, ety = elems(env["flags"])
    letters = {"S": 83, "A": 65, "U": 85, "P": 80}
    vs = variants(ety)
    b = T.bound_var(0)
    body = None
    el = elem_val(t, L(b), ety)
    d = L(discr_atom(el[1], el[2]))
    for w in reversed(vs):
        if w["n"] not in letters:
            R.undecided(key, "flag %s" % w["n"], where, rule)
            return
        x = (("B", K(letters[w["n"]])),)
        body = x if body is None else (("Ite", eq0(d - w["d"]), x, body),)
    st = norm_pieces((("star", ZERO, n, b, body),), u8_ty())
    w = want[:i] + tuple(st) + want[i + 1:]
    why = []
    q = eq_pieces(got, w, s.facts, u8_ty(), why)
    if q is not True:
        # the letters may be written in another order of tests: compare around them
        k = [j for j, x in enumerate(got) if x[0] == "star"]
        if len(k) == 1:
            q1 = eq_pieces(got[:k[0]], want[:i], s.facts, u8_ty(), why)
            q2 = eq_pieces(got[k[0] + 1:], want[i + 1:], s.facts, u8_ty(), why)
            q = False if q1 is False or q2 is False else None if q1 is None or q2 is None else True
        else:
            q = None
    verdict(R, key, q, s, "written as %s, specified as %s" % (show_pieces(got)[:200], "order, preference, flags, service, regexp, replacement"), where, rule)


def fqdn(R, p):
    rule = "length-prefixed labels ended by the root"
    e = method(p, "FQDN", "ByteConvertible", "to_bytes")
    R.count("types")
    c = ctx(p, fit=True)
    for s, b, v in encode_all(c, e, "FQDN"):
        if b[0] != "seq":
            R.undecided("FQDN", "bytes unknown", e["span"], rule)
            continue
        try:
            fv = v[3][0] if v[0] == "adt" else sym_fields(v, 0)[0]
            want = tuple(star(fv, lambda x: num_pieces(pieces_len(bytes_of(x)), 1) + tuple(bytes_of(x)))) + (("B", ZERO),)
        except Unsupported as x:
            R.undecided("FQDN", str(x), e["span"], rule)
            continue
        q = eq_pieces(b[1], want, s.facts, u8_ty(), [])
        verdict(R, "FQDN", q, s, "a name is written as %s" % show_pieces(b[1])[:250], e["span"], rule)
    R.use(c)


KEYS = {"Mandatory": 0, "Alpn": 1, "NoDefaultAlpn": 2, "Port": 3, "IpV4Hint": 4, "Ech": 5, "IpV6Hint": 6, "Invalid": 65535}


def keyed(p, ty, n):
    """[(state, value, number of its key)] of a parameter or key called n, for every variant"""
    out = []
    v = mk_sym(("arg", n), ty)
    for i, w in enumerate(tinfo(ty)["v"]):
        fs = sym_fields(v, i)
        num = KEYS.get(w["n"])
        if num is None:
            nums = [f for f, d in zip(fs, w["f"]) if isinstance(f, Lin)]
            if w["n"] != "Private" or len(nums) != 1:
                raise Unsupported("key of %s" % w["n"])
            num = nums[0]
        else:
            num = K(num)
        out.append((w["n"], ("adt", ty, i, fs), num))
    return out


def order(R, p, t):
    """parameters are kept, and so written, in ascending order of their keys"""
    rule = "keys in ascending order"
    ctx(p)
    for m in ("cmp", "partial_cmp"):
        e = method(p, t, "Ord" if m == "cmp" else "PartialOrd", m)
        if e is None:
            continue
        ty = tinfo(argty(e, 0))["e"]
        try:
            left, right = keyed(p, ty, "a"), keyed(p, ty, "b")
        except Unsupported as x:
            R.undecided("%s order" % t, str(x), e["span"], rule)
            continue
        for na, a, ka in left:
            for nb, b, kb in right:
                key = "%s %s: %s and %s" % (t, m, na, nb)
                c = ctx(p)
                s = State()
                s.mem[("S", 0)], s.mem[("S", 1)] = a, b
                for s2, o in run(c, e, [("ref", ("S", 0), ()), ("ref", ("S", 1), ())], s):
                    if m == "partial_cmp" and o[0] == "adt" and o[3]:
                        o = o[3][0]
                    n = tinfo(o[1])["v"][o[2]]["n"] if o[0] == "adt" else None
                    if n not in ("Less", "Equal", "Greater"):
                        R.undecided(key, "order unknown", e["span"], rule)
                        continue
                    d = ka - kb
                    want = {"Less": ge0(ZERO - d - 1), "Equal": eq0(d), "Greater": ge0(d - 1)}[n]
                    if s2.facts.decide(want) is True:
                        R.proven(key, e["span"], rule)
                        continue
                    s3 = s2.assume(neg(want))
                    if s3 is None:
                        R.proven(key, e["span"], rule)
                    else:
                        verdict(R, key, False, s3, "%s orders %s (key %s) and %s (key %s) as %s" % (t, na, show_val(ka), nb, show_val(kb), n), e["span"], rule)
                R.use(c)
        R.count("orders")


def run_unit(R, p, t, tier):
    if t.startswith("order of "):
        return order(R, p, t[9:])
    if t.startswith("types of "):
        h = [h for h in bitmap.holders(p) if h[0] == t[9:]][0]
        bitmap.write(R, p, *h, bitmap.some(p), ("bytes",))
        return
    with Rules({}):
        if t == "FQDN":
            with Rules(mins(p, "FQDN", written_rules([(s, b) for s, b, _ in encode_all(ctx(p, fit=True), method(p, "FQDN", "ByteConvertible", "to_bytes"), "FQDN")])[0])):
                fqdn(R, p)
            return
        e = method(p, t, "ByteConvertible", "to_bytes")
        c0 = setup(p, t)
        sty = p.types[argty(e, 0)]["e"]
        rules, _ = written_rules([(s, b) for s, b, _ in encode_all(c0, e, t)])
    R.count("types")
    with Rules(mins(p, t, rules)):
        rule = "layout of the specification"
        c = setup(p, t)
        if t not in PRIVATE:
            for s, v in start_values(c, sty, t):
                if t == "Param":
                    env, tys = {}, {}
                else:
                    env, tys = prepare(c, p, t, s, v, sty)
                check(R, c, p, t, "%s fields" % t, e, s, v, env, tys, rule)
        R.use(c)
    i = inherent(p, t, "new")
    if t not in NEW:
        return
    if i is None:
        R.refuted("%s:constructor" % t, "no constructor", "", rule)
        return
    if i["body"]["argc"] != len(NEW[t]):
        R.undecided("%s:constructor" % t, "takes %d arguments" % i["body"]["argc"], i["span"], rule)
        return
    R.count("constructors")
    with Rules({}):
        c = setup(p, t)
        rules, _ = written_rules([x for s, v, _, _ in built(c, p, t, i) for x in write(c, e, s, v)])
    with Rules(mins(p, t, rules)):
        c = setup(p, t)
        for s, v, env, tys in built(c, p, t, i):
            check(R, c, p, t, "%s new" % t, e, s, v, env, tys, rule)
        R.use(c)


def write(c, e, s, v):
    s = s.copy()
    s.mem[("S", 0)] = v
    return run(c, e, [("ref", ("S", 0), ())], s)


def built(c, p, t, i):
    """[(state, value, parts, types of the parts)] what the constructor makes of arbitrary arguments"""
    states = [(State(), {})]
    tys = {}
    for n, f in enumerate(NEW[t]):
        ty = argty(i, n)
        tys[f] = ty
        x = mk_sym(("arg", f), ty)
        nxt = []
        for s, done in states:
            alts = canonical(c, s, ty, x[1]) if isinstance(x, tuple) and x[0] == "sym" else None
            for s2, y in alts if alts is not None else [(s, x)]:
                s2 = s2.copy()
                s2.trail = ()
                nxt.append((s2, dict(done, **{f: y})))
        states = nxt
    out = []
    for s, env in states:
        for s2, v in run(c, i, [env[f] for f in NEW[t]], s):
            out.append((s2, v, dict(env, **DEFAULT.get(t, {})), tys))
    return out


def final(R, ps, tier):
    for p in ps:
        R.cfg = p.cfgname
        for t in sorted(types(p)):
            R.count("data types")
            if t not in LAYOUT:
                R.undecided("%s:layout" % t, "no layout known for this type", "", "layout of the specification")
    R.cfg = None
    R.floor("types", 33 * len(ps))
    R.floor("constructors", 21 * len(ps))
