"""decode(encode(v)) == v, consuming exactly the encoded bytes."""
from codec import *
import sample

# protocol limits on values (lengths), over and above "a length fits the width it is written with"
LIMITS = {
    ("FQDN", "label"): (1, 63),
}


class Ob:
    __slots__ = ("id", "status", "why", "where", "extra")

    def __init__(self, id, status, why="", where="", extra=None):
        self.id, self.status, self.why, self.where, self.extra = id, status, why, where, extra or {}

    def __repr__(self):
        return "%s: %s %s" % (self.id, self.status, self.why)


def private_key(t):
    """the private-use range of SVCB parameter keys (RFC 9460)"""
    if t[0] == "fld" and t[2].endswith(("svcb::ParamKey", "svcb::Param")) and len(t) == 6:
        vs = S.PROG.adt_variant(t[2], t[3])
        if vs == "Private":
            return (65280, 65534)
    return None


T.VAL_RULES.append(private_key)


def written_rules(outs):
    w = {}
    for s, b in outs:
        if b[0] == "seq":
            scan_written(b[1], w)
    tr = w.pop("trunc", set())
    return {k: (0, (1 << n) - 1) for k, n in w.items()}, tr


def is_label(p):
    """element of a name's label list"""
    return isinstance(p, tuple) and p[0] == "elem" and isinstance(p[1], tuple) and p[1][0] == "fld" and str(p[1][2]).endswith("::FQDN")


def fit(c, s, tr):
    """assume that composite lengths written with w bits fit"""
    for w, l, at in sorted(tr, key=lambda x: x[2].id):
        if s.facts.decide(eq0(L(at) - l)) is None:
            f = s.facts.assume(eq0(L(at) - l))
            if f is not None:
                s.facts = f
    return s


def mins(p, tn, rules):
    out = {}
    for k, (lo, hi) in rules.items():
        if is_label(k):
            lo, hi = 1, 63
        if tn == "Caa" and k[0] == "str":
            lo = 1
        out[k] = (lo, hi)
    return out


def code_reader(p, tname, ty):
    """the conversion that reads this code enum from its integer code"""
    for tr, m in (("TryFrom", "try_from"), ("From", "from")):
        for a, i in p.impls.get((tr, m), {}).get(tname, []):
            r = rty(i)
            rt_ = p.types[r]
            ok = r == ty or (rt_["k"] == "adt" and rt_.get("v") and any(v["n"] == "Ok" and v["f"][0][1] == ty for v in rt_["v"]))
            if ok and i["body"]["argc"] == 1 and p.types[argty(i, 0)]["k"] == "uint":
                return i
    return None


def canonical(c, st, ty, term):
    """values of a code enum with payload that some code stands for: [(state, value)]; None when not such an enum"""
    t = tinfo(ty)
    if t["k"] != "adt" or t.get("crate") != "maybe_dns" or t["ak"] != "enum" or not any(len(v["f"]) == 1 and tk(v["f"][0][1]) == "uint" for v in t["v"]):
        return None
    i = code_reader(c.prog, last(t["def"]), ty)
    if i is None:
        return None
    out = []
    for s, v in c.call(i, [mk_sym(("code", term), argty(i, 0))], st, rty(i)):
        if v[0] == "adt" and v[1] == ty:
            out.append((s, v))
        elif v[0] == "adt" and is_ok(v):
            out.append((s, v[3][0]))
        elif v[0] != "adt":
            return None
    return out


def start_values(c, sty, tn, name="self"):
    """[(state, value)]: the values whose encoding is analysed, partitioned by canonical code"""
    st = State()
    term = ("arg", name)
    v = mk_sym(term, sty)
    if v[0] != "adt":
        return [(st, v)]
    cur = [(st, ())]
    fs = tinfo(sty)["v"][0]["f"]
    for n, f in enumerate(fs):
        nxt = []
        for s, done in cur:
            x = v[3][n]
            alts = None
            if isinstance(x, tuple) and x[0] == "sym":
                alts = canonical(c, s, f[1], x[1])
                ft = tinfo(f[1])
                if alts is None and ft["k"] == "adt" and ft["def"].endswith("Option") and ft.get("v"):
                    some = [i for i, w in enumerate(ft["v"]) if w["f"]][0]
                    pay = sym_fields(x, some)[0]
                    if isinstance(pay, tuple) and pay[0] == "seq":
                        d = L(discr_atom(x[1], f[1]))
                        a = s.assume(eq0(d - ft["v"][1 - some]["d"]))
                        b = s.assume(eq0(d - ft["v"][some]["d"]))
                        b = b.assume(ge0(seq_len(pay) - 1))
                        alts = [(a, ("adt", f[1], 1 - some, ())), (b, ("adt", f[1], some, (pay,)))]
                        c.assumptions.add("an optional list is either absent or non-empty")
            elif isinstance(x, Lin) and (tn, tinfo(f[1]).get("bits")) in BITS:
                w = BITS[(tn, tinfo(f[1])["bits"])]
                alts = [(s, T.from_bits(T.to_bits(x, tinfo(f[1])["bits"])[:w]))]
                c.assumptions.add("%d-bit values of %s are below 2^%d (the width the protocol gives them)" % (tinfo(f[1])["bits"], tn, w))
            for s2, y in alts if alts is not None else [(s, x)]:
                if s2 is not None:
                    s2 = s2.copy()
                    s2.trail = ()
                    nxt.append((s2, done + (y,)))
        cur = nxt
    return defined(c, [(s, ("adt", sty, 0, done)) for s, done in cur], tn)


def defined(c, vals, tn):
    """headers whose response code is one of the defined ones (the accessor yields it)"""
    i = inherent(c.prog, "Header", "response_code")
    if tn != "Header" or i is None:
        return vals
    c.assumptions.add("the response code of a header is one of the defined codes")
    out = []
    rec, c.record = c.record, False
    for s, v in vals:
        s = s.copy()
        s.mem[("S", 1)] = v
        for s2, _ in c.call(i, [("ref", ("S", 1), ())], s, rty(i)):
            s2 = s2.copy()
            s2.trail = s.trail
            out.append((s2, v))
    c.record = rec
    return out


def encode_all(c, e, tn):
    """[(state, bytes, value)]"""
    sty = c.prog.types[argty(e, 0)]["e"]
    out = []
    for s, v in start_values(c, sty, tn):
        cell = ("S", 0)
        s = s.copy()
        s.mem[cell] = v
        args = [("ref", cell, ())]
        if e["body"]["argc"] == 3:
            s.mem[("N", 0)] = mk_sym(("arg", "names"), c.prog.types[argty(e, 1)]["e"])
            args += [("ref", ("N", 0), ()), mk_sym(("arg", "offset"), argty(e, 2))]
        for s2, b in c.call(e, args, s, rty(e)):
            out.append((s2, b, v))
    return out


# values the protocol gives fewer bits than the type that holds them
BITS = {("Tsig", 64): 48}


def roundtrip(p, tn, contracts=("FQDN",), post=False, want=None, opts=None, enc=None, dec=None):
    """obligations for one type; post: arbitrary bytes may follow (self-delimiting formats)"""
    e = enc or method(p, tn, "ByteConvertible", "to_bytes")
    d = dec or decoder(p, tn)
    opts = opts or {}
    kinds = [k for k in contracts if k != tn]
    where = d["span"]

    def mk():
        c = ctx(p, fit=True, **opts)
        c.con = Contracts(p, kinds)
        c.con.install(c)
        return c
    obs = []
    c = None
    try:
        with Rules({}):
            c = mk()
            outs = encode_all(c, e, tn)
            rules, tr = written_rules([(s, b) for s, b, _ in outs])
        rules = mins(p, tn, rules)
        with Rules(rules):
            c = mk()
            outs = encode_all(c, e, tn)
            _, tr = written_rules([(s, b) for s, b, _ in outs])
            pre = ("Blob", ("pre",), ZERO, length(("pre",)))
            n = 0
            if not outs:
                obs.append(Ob("%s/*" % tn, "undecided", "encoder has no outcome", e["span"]))
            for s, b, v in outs:
                n += 1
                oid = "%s/%d" % (tn, n)
                if b[0] != "seq":
                    obs.append(Ob(oid, "undecided", "encoder result unknown", e["span"]))
                    continue
                st = fit(c, s.copy(), tr)
                cond = [show_cond(x) for x in s.trail]
                base = st.trail
                ps = (pre,) + b[1]
                total = pieces_len(ps)
                if post:
                    ps = ps + (("Blob", ("post",), ZERO, length(("post",))),)
                r = mk_buffer(p, st, ps, length(("pre",)))
                outs2 = c.call(d, [r], st, rty(d))
                if not outs2:
                    obs.append(Ob(oid, "undecided", "decoder has no outcome", where))
                obs += group([judge(p, oid, s2, v2, s2.facts.norm(v), total, where, cond, st) for s2, v2 in outs2])
            return obs, c, rules
    except Budget as x:
        obs.append(Ob("%s/*" % tn, "undecided", "budget: %s" % x, where))
    return obs, c, {}


def same_lin(f, a, b=ZERO):
    """are two amounts equal: always, not always (at a sample point of the facts), or unknown"""
    d = f.norm(a - b)
    q = f.decide(eq0(d))
    if q is None and not T.is_imprecise(d) and sample.lin_differs(f, d) is True:
        return False
    return q


def precise_trail(s):
    return not any(T.is_imprecise(x) for x in s.trail)


def group(obs):
    """whatever an imprecise condition turns out to be, every outcome is wrong: that is a violation too"""
    for o in obs:
        if o.status != "undecided" or not o.extra.get("bad"):
            continue
        pre = []
        for c in o.extra["trail"]:
            if T.is_imprecise(c):
                break
            pre.append(c)
        no = {neg(c) for c in pre}
        if sample.feasible(o.extra["facts"]) and all(x.extra.get("bad") or x.status == "refuted" or any(c in no for c in x.extra.get("trail", ())) for x in obs):
            o.status = "refuted"
            o.why = o.extra["bad"] + " (when %s)" % [show_cond(c) for c in pre][:6]
    return obs


def judge(p, oid, s2, v2, v, total, where, cond, st0):
    o = judge0(p, oid, s2, v2, v, total, where, cond, st0)
    o.extra["trail"] = s2.trail
    o.extra["facts"] = s2.facts
    if not precise_trail(st0):
        o.extra["bad"] = None
    if o.status == "refuted" and not sample.feasible(s2.facts):
        o.status = "undecided"
        o.why = "not shown feasible: " + o.why
    return o


def judge0(p, oid, s2, v2, v, total, where, cond, st0):
    trail = [show_cond(x) for x in s2.trail]
    if v2[0] != "adt":
        return Ob(oid, "undecided", "result unknown: %s" % show_val(v2)[:200], where)
    if not is_ok(v2):
        if precise_trail(s2):
            return Ob(oid, "refuted", "reading back the encoding of a value fails with %s when %s" % (show_val(v2[3][0])[:200], trail[:6]), where)
        return Ob(oid, "undecided", "may fail with %s when %s" % (show_val(v2[3][0])[:200], trail[:4]), where, {"bad": "reading back the encoding of a value fails"})
    w = []
    q = equal(v2[3][0], v, s2.facts, w)
    pos = buf_pos(p, s2)[0]
    pd = s2.facts.decide(eq0(pos - total))
    if q is True and pd is True:
        return Ob(oid, "proven", "", where)
    pt = precise_trail(s2)
    if q is False and pt:
        return Ob(oid, "refuted", "reading back the encoding yields a different value: %s (when %s)" % ("; ".join(w)[:400], trail[:6]), where)
    if pd is False and pt and not T.is_imprecise(pos):
        return Ob(oid, "refuted", "reading stops at %s instead of %s" % (show_lin(pos), show_lin(total)), where)
    bad = "reading back the encoding yields a different value: %s" % "; ".join(w)[:400] if q is False else "reading does not stop where the encoding ends" if pd is False else None
    return Ob(oid, "undecided", "%s pos %s vs %s" % ("; ".join(w)[:300], show_lin(pos)[:100], show_lin(total)[:100]), where, {"bad": bad})


if __name__ == "__main__":
    import time
    p = program("all")
    names = sys.argv[1:] or sorted(p.impls[("RData", "record_type")])
    for n in names:
        t = time.time()
        try:
            obs, c, rules = roundtrip(p, n)
        except Exception as ex:
            if len(names) == 1:
                raise
            print(n, "EXC", repr(ex)[:300])
            continue
        cnt = {}
        for o in obs:
            cnt[o.status] = cnt.get(o.status, 0) + 1
        print(n, cnt, "%.1fs" % (time.time() - t), "notes", c.notes[:2], "unk", list(c.unknown), sorted(x[1].bit_length() for x in rules.values()))
        for o in [o for o in obs if o.status != "proven"][:3]:
            print("     ", o)
