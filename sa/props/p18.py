"""A signature is accepted exactly when its algorithm's check succeeds."""
from crypto import *

EXPLAIN = """The verification function is interpreted abstractly on a symbolic signature record, key and record set; hashes, big numbers, keys and
signature schemes of other crates are uninterpreted functions of their arguments. On every path the outcome must be an error, a plain
rejection, or exactly the outcome of one check by the scheme the algorithm number stands for, applied to the key as its RFC lays it out,
to the whole of the signed data (record data without signature, then the record set) and to the whole signature."""
ASSUME = ["the primitives of other crates compute what their names say", "keys of DSA and RSA are given in the layouts of RFC 2536 and RFC 3110"]
CONFIGS = {"quick": ["all"], "thorough": ["all", "dnssec"]}
RULE = "accepted iff the algorithm's check succeeds"


def units(p, tier):
    ty, al = algorithms(p)
    return [] if ty is None else [n for n, _ in al] + ["other algorithm", "any key"]


def parts(p, v):
    st = p.types[argty(v, 0)]["e"]
    kt = p.types[argty(v, 1)]["e"]
    return st, kt, field_of(p, st, is_named("Algorithm")), field_of(p, st, is_bytes(p)), field_of(p, kt, is_named("Algorithm")), field_of(p, kt, is_bytes(p))


def outcomes(c, p, v, self_, key):
    s0 = State()
    s0.mem[("S", 0)], s0.mem[("K", 0)] = self_, key
    for s, pre in preimage(c, p, s0, self_):
        for s2, r in run(c, v, [("ref", ("S", 0), ()), ("ref", ("K", 0), ()), mk_sym(("arg", "set"), argty(v, 2))], s):
            yield s2, r, pre


def result(r):
    """("err"), ("ok", condition), ("?")"""
    if r[0] == "adt":
        n = variants(r[1])[r[2]]["n"]
        if n == "Err":
            return "err", None
        if n == "Ok" and r[3][0][0] == "b":
            return "ok", r[3][0][1]
    return "?", None


def implied(f, a, b):
    """a implies b under the facts"""
    if a is False or b is True:
        return True
    fa = f if a is True else f.assume(a)
    if fa is None:
        return True
    return False if b is False else fa.decide(b) is True


def run_unit(R, p, u, tier):
    v = inherent(p, "Rrsig", "verify")
    ty, al = algorithms(p)
    R.count("units")
    if v is None:
        R.refuted("verify", "no verification function", "", RULE)
        return
    c = context(p)
    sty, kty, sa_, ss, ka, kb = parts(p, v)
    if None in (sa_, ss, ka, kb):
        R.undecided("fields", "cannot tell the parts of signature record and key apart", v["span"], RULE)
        return
    sv, kv = mk_sym(("arg", "self"), sty), mk_sym(("arg", "key"), kty)
    al = dict(al)
    if u in al:
        a = al[u]
        self_ = with_fields(c, sv, {sa_: a, ss: bytes_val(blob("signature"))})
        if u in SCHEME:
            for text, _, bs, want in key_shapes()[SCHEME[u][1]]:
                judge_shape(R, c, p, v, u, text, self_, with_fields(c, kv, {ka: a, kb: bytes_val(*bs)}), want)
        else:
            R.count("shapes")
            for s, r, pre in outcomes(c, p, v, self_, with_fields(c, kv, {ka: a})):
                k, b = result(r)
                verdict(R, "%s: never accepted" % u, True if k == "err" or (k == "ok" and implied(s.facts, b, False)) else False if k == "ok" else None, s,
                        "a signature of an algorithm that cannot be checked is accepted", v["span"], RULE)
    elif u == "other algorithm":
        for n1, a in al.items():
            R.count("shapes")
            da = discr_atom(("fld", ("arg", "key"), kty, 0, ka, "a"), ty)
            other = mk_sym(("arg", "key algorithm"), ty)
            self_ = with_fields(c, sv, {sa_: a})
            s0 = State().assume(neg(eq0(L(discr_atom(("arg", "key algorithm"), ty)) - variants(ty)[a[2]]["d"])))
            s0.trail = ()
            s0.mem[("S", 0)], s0.mem[("K", 0)] = self_, with_fields(c, kv, {ka: other})
            for s, r in run(c, v, [("ref", ("S", 0), ()), ("ref", ("K", 0), ()), mk_sym(("arg", "set"), argty(v, 2))], s0):
                k, b = result(r)
                verdict(R, "%s with a key of another algorithm: refused" % n1, True if k == "err" else False if k == "ok" else None, s,
                        "a key of another algorithm is not refused with an error", v["span"], "algorithms match")
    else:
        R.count("shapes")
        for n1, a in al.items():
            self_ = with_fields(c, sv, {sa_: a, ss: bytes_val(blob("signature"))})
            for s, r, pre in outcomes(c, p, v, self_, with_fields(c, kv, {ka: a})):
                k, b = result(r)
                if k == "err":
                    R.proven("%s, any key: error" % n1, v["span"], RULE)
                    continue
                judge_ok(R, c, s, k, b, pre, n1, "any key", None, v)
    R.use(c)


def judge_shape(R, c, p, v, u, text, self_, key, want):
    R.count("shapes")
    base = "%s (%s)" % (u, text)
    for s, r, pre in outcomes(c, p, v, self_, key):
        k, b = result(r)
        if k == "err":
            verdict(R, base + ": error only when a primitive refuses its input", True if fails(s) else False, s, "a well-formed key is refused", v["span"], RULE)
        else:
            judge_ok(R, c, s, k, b, pre, u, text, want, v)


def judge_ok(R, c, s, k, b, pre, u, text, want, v):
    base = "%s (%s)" % (u, text)
    where = v["span"]
    if k != "ok":
        R.undecided(base, "outcome not represented", where, RULE)
        return
    if u not in SCHEME:
        verdict(R, base + ": not accepted", True if implied(s.facts, b, False) else False, s, "accepted although the algorithm cannot be checked", where, RULE)
        return
    evs = [e for e in s.ev if e[0] == "verify"]
    if not evs:
        q = False
        if T.is_imprecise(b):
            q = None
        verdict(R, base + ": checked", q, s, "the outcome %s does not come from a check of the signature" % (show_cond(b) if not isinstance(b, bool) else b), where, RULE)
        return
    e = evs[-1]
    scheme, key, msg, sig, ok = e[1:]
    q = implied(s.facts, b, ok)
    verdict(R, base + ": accepted only if the check succeeded", True if q else None if T.is_imprecise(b) else False, s, "accepted although the check failed", where, RULE)
    q = implied(s.facts, ok, b)
    verdict(R, base + ": accepted if the check succeeded", True if q else None if T.is_imprecise(b) else False, s, "rejected although the check succeeded", where, RULE)
    if scheme == SCHEME[u][0]:
        R.proven("%s: scheme" % u, where, RULE)
    elif "None" in scheme or "?" in scheme:
        R.undecided("%s: scheme" % u, scheme, where, RULE)
    else:
        verdict(R, "%s: scheme %s" % (u, scheme), False, s, "checked by %s, the algorithm stands for %s" % (scheme, SCHEME[u][0]), where, "scheme of the algorithm number")
    w = []
    verdict(R, base + ": signed data", same_bytes(s, msg, pre, w), s, "checked against other data: %s" % "; ".join(w)[:400], where, "the whole signed data is checked")
    w = []
    verdict(R, base + ": signature", same_bytes(s, sig, bytes_val(blob("signature")), w), s, "another signature is checked: %s" % "; ".join(w)[:300], where, "the whole signature is checked")
    if want is not None:
        if want[0] != key[0]:
            R.undecided(base + ": key", "key of another kind", where, RULE)
            return
        for n, (x, y) in enumerate(zip(want[1:], key[1:])):
            if x is None:
                continue
            w = []
            q = same_bytes(s, y, x, w)
            txt = show_val(s.facts.norm(y))[:80]
            verdict(R, base + ": key part %d%s" % (n, "" if q is True else " = " + txt), q, s, "the key is taken from other bytes: %s instead of %s" % (txt, show_val(x)[:80]), where, "key layout")


def same_bytes(s, a, b, w):
    return equal(s.facts.norm(a), s.facts.norm(b), s.facts, w)


def final(R, ps, tier):
    R.floor("units", 14 * len(ps))
    R.floor("shapes", 25 * len(ps))
