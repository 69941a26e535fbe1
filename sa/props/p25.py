"""Values give back what was put into them, and equal only their equals."""
from rt import *
from models import reify, veq, deref_all
import api
from api import verdict, type_named, same, run as call

EXPLAIN = """Questions, records, record sets, the flags of CSYNC data and the wrappers of addresses and names are treated as
black boxes with public operations, interpreted abstractly on a value in any state: what the constructor is
given is what the accessors return; after a setter its accessor returns the given value and every other
accessor what it returned before; mutable accessors, and accessors that take the value apart, show the same
thing as the plain ones.  Equality is interpreted on pairs of values that agree in everything but one part
(every field, every variant, lengths and elements of lists): it must say false for each of them, and true for
a value and itself."""
ASSUME = ["parts that differ are given as: another number, flag, variant, length, or one other element"]

# accessors in the order of the constructor's arguments; those without an argument follow
TYPES = {
    "Question": (["name", "query_type", "class"], ["unicast_response"]),
    "ResourceRecord": (["name", "record_type", "class", "time_to_live", "data"], ["cache_flush"]),
    "ResourceRecordSet": (["name", "set_type", "set_class", "ttl", "records"], []),
    "Flags": ([], ["immediate", "soa_minimum"]),
    "Packet": (None, ["id", "questions", "answers", "authorities", "additionals"]),
}
SETTERS = {"ResourceRecordSet": {}}
MUT = {"ResourceRecord": [("data_mut", "data")], "Packet": [("questions_mut", "questions")]}
TAKE = {"ResourceRecord": [("take_data", "data")]}
WRAP = ("A", "Aaaa", "Ptr")


def eq_types(p):
    out = {}
    for i in p.insts:
        if i["crate"] == "maybe_dns" and "body" in i and i["def"].endswith("::cmp::PartialEq>::eq") and "tests::" not in i["name"]:
            a, b = argty(i, 0), argty(i, 1)
            if a == b and p.types[a]["k"] == "ref" and p.types[p.types[a]["e"]]["k"] == "adt" and p.types[p.types[a]["e"]].get("crate") == "maybe_dns":
                out[p.types[p.types[a]["e"]]["s"]] = i
    return out


def units(p, tier):
    return sorted(TYPES) + ["wrappers", "numbers", "facts"] + ["eq:" + t for t in sorted(eq_types(p))]


def run_unit(R, p, u, tier):
    ctx(p)
    if u.startswith("eq:"):
        equality(R, p, u[3:], tier)
    elif u in ("wrappers", "numbers", "facts"):
        {"wrappers": wrappers, "numbers": numbers, "facts": facts_}[u](R, p)
    else:
        laws(R, p, u)


def ctx_(p):
    c = ctx(p)
    c.con = Contracts(p, ("RecordData",))
    c.con.install(c)
    return c


def getters(p, t):
    new, rest = TYPES[t]
    return [(g, inherent(p, t, g)) for g in (new or []) + rest if inherent(p, t, g) is not None]


def look(c, st, i, cell):
    """what an accessor returns: the single value, memory independent"""
    outs = call(c, i, [("ref", cell, ())], st.copy())
    vs = []
    for s, o in outs:
        v = reify(c, s, o)
        vs.append((s, v))
    return vs


def one(vs):
    if len(vs) == 1:
        return vs[0][1]
    return None


def self_type(p, t):
    for n in [g for g, i in getters(p, t)]:
        i = inherent(p, t, n)
        return p.types[argty(i, 0)]["e"]


def laws(R, p, t):
    gs = getters(p, t)
    if not gs:
        R.undecided(t, "no accessors", "", "accessors")
        return
    sty = self_type(p, t)
    if sty is None:
        return
    new, rest = TYPES[t]
    # constructor
    i = inherent(p, t, "new")
    if new and i is not None:
        R.fn(i)
        c = ctx_(p)
        st = State()
        args, want = [], []
        for n in range(len(new)):
            ty = argty(i, n)
            if p.types[ty]["k"] == "ref":
                st.mem[("A", n)] = mk_sym(("arg", new[n]), p.types[ty]["e"])
                args.append(("ref", ("A", n), ()))
            else:
                args.append(mk_sym(("arg", new[n]), ty))
        for s, o in call(c, i, args, st):
            s = s.copy()
            s.mem[("S", 0)] = o
            for n, g in enumerate(new):
                gi = inherent(p, t, g)
                if gi is None:
                    continue
                R.count("laws")
                for s2, v in look(c, s, gi, ("S", 0)):
                    q = same(v, reify(c, s, args[n]), s2.facts)
                    if q is None:
                        q = mixed_up(v, [reify(c, s, a) for a in args], n)
                    verdict(R, "%s:new gives %s" % (t, g), q, s2, "%s of a new value is %s" % (g, show_val(v)[:200]), i["span"], "accessors return what the constructor was given")
        R.use(c)
    if t == "Flags" and i is not None:
        c = ctx_(p)
        for s, o in call(c, i, [], State()):
            s = s.copy()
            s.mem[("S", 0)] = o
            for g, gi in gs:
                R.count("laws")
                for s2, v in look(c, s, gi, ("S", 0)):
                    verdict(R, "Flags:new %s" % g, same(v, ("b", False), s2.facts), s2, "%s is set in new flags" % g, i["span"], "new flags are clear")
    # setters
    for g, gi in gs:
        si = inherent(p, t, "set_" + g)
        if si is None or t == "ResourceRecordSet":
            continue
        R.fn(si)
        c = ctx_(p)
        c2 = ctx_(p)
        val = mk_sym(("arg", "value"), argty(si, 1))
        for arg in ([("b", True), ("b", False)] if p.types[argty(si, 1)]["k"] == "bool" else [val]):
          for st in starts(c, p, t, sty):
            before = {h: look(c, st, hi, ("S", 0)) for h, hi in gs}
            for s, o in call(c, si, [("ref", ("S", 0), ()), arg], st.copy()):
                for h, hi in gs:
                    R.count("laws")
                    for s2, v in look(c, s, hi, ("S", 0)):
                        if h == g:
                            q = same(v, reify(c, s, arg), s2.facts)
                            if q is None and len(before[h]) == 1 and same(v, before[h][0][1], s2.facts) is True:
                                q = False       # still the old value
                            verdict(R, "%s:set_%s" % (t, g), q, s2, "%s is %s after setting it to %s" % (g, show_val(v)[:120], show_val(arg)[:80]), si["span"], "an accessor returns what was set")
                            continue
                        for s3, w in before[h]:
                            both = s2
                            for x in s3.trail:
                                both = both.assume(x) if both is not None else None
                            if both is None:
                                continue
                            q = same(v, w, both.facts)
                            if q is None and not T.is_imprecise(v) and v != w and uses(v, ("arg", "value")):
                                q = False
                            verdict(R, "%s:set_%s keeps %s" % (t, g, h), q, both, "setting %s turns %s from %s into %s" % (g, h, show_val(w)[:120], show_val(v)[:120]), si["span"], "a setter changes nothing else")
        R.use(c)
    # other ways to see or take a part
    for alias, g in MUT.get(t, []) + TAKE.get(t, []):
        ai, gi = inherent(p, t, alias), inherent(p, t, g)
        if ai is None or gi is None:
            continue
        R.fn(ai)
        c = ctx_(p)
        st = State()
        v0 = mk_sym(("arg", "self"), sty)
        st.mem[("S", 0)] = v0
        w = one(look(c, st, gi, ("S", 0)))
        for s, o in call(c, ai, [("ref", ("S", 0), ())] if p.types[argty(ai, 0)]["k"] == "ref" else [v0], st.copy()):
            R.count("laws")
            q = same(reify(c, s, o), w, s.facts) if w is not None else None
            verdict(R, "%s:%s" % (t, alias), q, s, "%s shows %s" % (alias, show_val(reify(c, s, o))[:150]), ai["span"], "%s is %s" % (alias, g))
            if alias.endswith("_mut") and o[0] == "ref":
                s2 = s.copy()
                nv = mk_sym(("arg", "value"), p.types[rty(ai)]["e"])
                c.write(s2, o[1], o[2], nv)
                for s3, v in look(c, s2, gi, ("S", 0)):
                    verdict(R, "%s:%s writes" % (t, alias), same(v, reify(c, s2, nv), s3.facts), s3, "writing through %s leaves %s" % (alias, show_val(v)[:150]), ai["span"], "%s is %s" % (alias, g))
        R.use(c)
    if t == "ResourceRecord":
        ai = inherent(p, t, "data_raw")
        if ai is not None:
            R.fn(ai)
            c = ctx_(p)
            st = State()
            v0 = mk_sym(("arg", "self"), sty)
            st.mem[("S", 0)] = v0
            w = one(look(c, st, inherent(p, t, "data"), ("S", 0)))
            for s, o in call(c, ai, [("ref", ("S", 0), ())], st.copy()):
                R.count("laws")
                q = None
                if o[0] == "seq" and w is not None:
                    q = eq_pieces(o[1], (enc_piece("RecordData", w),), s.facts, u8_ty())
                verdict(R, "ResourceRecord:data_raw", q, s, "the raw data is %s" % show_val(o)[:200], ai["span"], "raw data is the data in wire form")


def starts(c, p, t, sty):
    """the states a value can be in: any, or for flags whatever their number is accepted for"""
    st = State()
    st.mem[("S", 0)] = mk_sym(("arg", "self"), sty)
    tf = method(p, t, "TryFrom", "try_from", "u16") if t == "Flags" else None
    if tf is None:
        return [st]
    out = []
    for s, o in call(c, tf, [mk_sym(("arg", "self"), argty(tf, 0))], State()):
        if o[0] == "adt" and p.types[o[1]]["v"][o[2]]["n"] == "Ok":
            s = s.copy()
            s.mem[("S", 0)] = o[3][0]
            out.append(s)
    return out or [st]


def uses(v, term):
    if isinstance(v, tuple):
        return v == term or any(uses(x, term) for x in v)
    if isinstance(v, Lin):
        return any(uses(a.key, term) for a, _ in v.t)
    return False


def mixed_up(v, args, n):
    """False when the value is another argument of the constructor"""
    for m, a in enumerate(args):
        if m != n and v == a:
            return False
    return None


def wrappers(R, p):
    for t in WRAP:
        new = inherent(p, t, "new")
        if new is None:
            continue
        R.fn(new)
        x = mk_sym(("arg", "value"), argty(new, 0))
        for m in ("inner", "inner_mut", "into_inner"):
            i = inherent(p, t, m)
            if i is None:
                continue
            R.fn(i)
            R.count("laws")
            c = ctx(p)
            for s, o in call(c, new, [x], State()):
                s = s.copy()
                s.mem[("S", 0)] = o
                for s2, v in call(c, i, [("ref", ("S", 0), ())] if p.types[argty(i, 0)]["k"] == "ref" else [o], s.copy()):
                    w = reify(c, s2, v)
                    q = same(w, reify(c, s2, x), s2.facts)
                    verdict(R, "%s:%s" % (t, m), q, s2, "%s gives %s" % (m, show_val(w)[:150]), i["span"], "a wrapper gives back what it wraps")
            R.use(c)


def conv(p, frm, to):
    for i in p.insts:
        if i["crate"] == "maybe_dns" and "body" in i and i["def"].endswith("::from") and i["body"]["argc"] == 1:
            if p.types[argty(i, 0)]["s"].replace("&", "").split("::")[-1] == frm and p.types[rty(i)]["s"].split("::")[-1] == to:
                return i
    return None


def numbers(R, p):
    """addresses from and to numbers: the wire form is the number with its most significant byte first"""
    rule = "an address is its number, most significant byte first"
    for t, n, w in (("A", "u32", 4), ("Aaaa", "u128", 16)):
        fr, to = conv(p, n, t), conv(p, t, n)
        tb = method(p, t, "ByteConvertible", "to_bytes")
        if fr is None or tb is None:
            continue
        R.fn(fr)
        x = mk_sym(("arg", "number"), argty(fr, 0))
        c = ctx(p)
        for s, o in call(c, fr, [x], State()):
            s = s.copy()
            s.mem[("S", 0)] = o
            R.count("laws")
            for s2, b in call(c, tb, [("ref", ("S", 0), ())], s.copy()):
                q = None
                if b[0] == "seq":
                    from models import bits_or_opaque, from_bits
                    z = bits_or_opaque(x, 8 * w)
                    want = tuple(("B", from_bits(z[8 * (w - 1 - k):8 * (w - k)])) for k in range(w))
                    q = eq_pieces(b[1], want, s2.facts, u8_ty())
                verdict(R, "%s:from number" % t, q, s2, "the address of a number is written as %s" % show_val(b)[:200], fr["span"], rule)
            if to is not None:
                R.fn(to)
                R.count("laws")
                for s2, v in call(c, to, [("ref", ("S", 0), ())] if p.types[argty(to, 0)]["k"] == "ref" else [o], s.copy()):
                    verdict(R, "%s:to number" % t, same(v, x, s2.facts), s2, "the number of an address is %s" % show_val(v)[:200], to["span"], rule)
        R.use(c)
        for a in ("Ipv4Addr", "Ipv6Addr"):
            fi, new = conv(p, a, t), inherent(p, t, "new")
            if fi is None or new is None or rty(fi) != rty(new):
                continue
            R.count("laws")
            y = mk_sym(("arg", "address"), argty(fi, 0))
            c = ctx(p)
            for s, o in call(c, fi, [y], State()):
                for s2, o2 in call(c, new, [y], s.copy()):
                    verdict(R, "%s:from address" % t, same(o, o2, s2.facts), s2, "an address becomes %s" % show_val(o)[:200], fi["span"], rule)
            R.use(c)
    # flags of CSYNC
    to = conv(p, "Flags", "u16")
    new = inherent(p, "Flags", "new")
    if to is not None and new is not None:
        names = [("immediate", 1), ("soa_minimum", 2)]
        for a in (False, True):
            for b in (False, True):
                c = ctx(p)
                sts = call(c, new, [], State())
                for (g, bit), on in zip(names, (a, b)):
                    se = inherent(p, "Flags", "set_" + g)
                    if se is None:
                        continue
                    nxt = []
                    for s, o in sts:
                        s = s.copy()
                        s.mem[("S", 0)] = o
                        for s2, _ in call(c, se, [("ref", ("S", 0), ()), ("b", on)], s):
                            nxt.append((s2, s2.mem[("S", 0)]))
                    sts = nxt
                for s, o in sts:
                    R.count("laws")
                    for s2, v in call(c, to, [o], s.copy()):
                        want = K((1 if a else 0) + (2 if b else 0))
                        verdict(R, "Flags:number", same(v, want, s2.facts), s2, "flags immediate=%s soa_minimum=%s are written as %s" % (a, b, show_val(v)[:80]), to["span"], "flag positions of RFC 7477")
                R.use(c)


def facts_(R, p):
    i = inherent(p, "Svcb", "mode")
    if i is not None:
        R.fn(i)
        R.count("laws")
        c = ctx(p)
        sty = p.types[argty(i, 0)]["e"]
        v = mk_sym(("arg", "self"), sty)
        n = [k for k, f in enumerate(p.types[sty]["v"][0]["f"]) if f[0] == "priority"]
        if n and v[0] == "adt":
            for want, cond in (("Alias", eq0(v[3][n[0]])), ("Service", neg(eq0(v[3][n[0]])))):
                st = State().assume(cond)
                st.mem[("S", 0)] = v
                for s, o in call(c, i, [("ref", ("S", 0), ())], st):
                    if o[0] == "adt":
                        got = p.types[o[1]]["v"][o[2]]["n"]
                        verdict(R, "Svcb:mode", got == want, s, "mode is %s, not %s" % (got, want), i["span"], "priority 0 is alias mode")
                    else:
                        R.undecided("Svcb:mode", "mode unknown", i["span"], "priority 0 is alias mode")
        R.use(c)
    new, pr, ok = inherent(p, "DnsKey", "new"), inherent(p, "DnsKey", "protocol"), inherent(p, "DnsKey", "valid_protocol")
    if new is not None and pr is not None and ok is not None:
        R.fn(pr)
        R.fn(ok)
        c = ctx(p)
        rule = "the protocol of a key is 3"
        for s, o in call(c, new, [mk_sym(("arg", "a%d" % n), argty(new, n)) for n in range(new["body"]["argc"])], State()):
            s = s.copy()
            s.mem[("S", 0)] = o
            R.count("laws")
            for s2, v in call(c, pr, [("ref", ("S", 0), ())], s.copy()):
                verdict(R, "DnsKey:protocol", same(v, K(3), s2.facts), s2, "a new key has protocol %s" % show_val(v)[:80], pr["span"], rule)
        st = State()
        st.mem[("S", 0)] = mk_sym(("arg", "self"), p.types[argty(ok, 0)]["e"])
        for s, v in call(c, pr, [("ref", ("S", 0), ())], st):
            for s2, b in call(c, ok, [("ref", ("S", 0), ())], s.copy()):
                if isinstance(v, Lin):
                    verdict(R, "DnsKey:valid_protocol", same(b, ("b", eq0(v - 3)), s2.facts), s2, "validity of protocol is %s" % show_val(b)[:80], ok["span"], rule)
        R.use(c)
    new = inherent(p, "Rrsig", "new")
    if new is not None and new["body"]["argc"] == 9:
        c = ctx(p)
        args = [mk_sym(("arg", "a%d" % n), argty(new, n)) for n in range(9)]
        for s, o in call(c, new, args, State()):
            s = s.copy()
            s.mem[("S", 0)] = o
            for g, n in (("key_tag", 6), ("signature", 8)):
                i = inherent(p, "Rrsig", g)
                if i is None:
                    continue
                R.fn(i)
                R.count("laws")
                for s2, v in call(c, i, [("ref", ("S", 0), ())], s.copy()):
                    v = reify(c, s2, v)
                    verdict(R, "Rrsig:%s" % g, same(v, args[n], s2.facts), s2, "%s is %s" % (g, show_val(v)[:100]), i["span"], "accessors return what the constructor was given")
        R.use(c)


# ---------------------------------------------------------------- equality
def differ(p, ty, name, depth=0):
    """[(what, one value, another, extra conditions)] of values that differ in one part"""
    t = p.types[ty]
    k = t["k"]
    if k in ("uint", "int", "char"):
        a, b = mk_sym(("arg", name), ty), mk_sym(("arg", name + "'"), ty)
        out = [("", a, b, (neg(eq0(a - b)),))]
        if ty == u8_ty():
            out += [(" (case)", K(65), K(97), ()), (" (case)", K(122), K(90), ())]
        return out
    if k == "bool":
        return [("", ("b", True), ("b", False), ()), ("", ("b", False), ("b", True), ())]
    if k == "tuple" or k == "tup":
        return []
    if k == "array":
        a = mk_sym(("arg", name), ty)
        n = t.get("n")
        if a[0] == "seq" and isinstance(n, int) and 0 < n <= 32:
            out = []
            el = [("B", mk_sym(("arg", "%s%d" % (name, j)), t["e"])) for j in range(n)]
            for j in sorted({0, n // 2, n - 1}):
                for w, x, y, cs in differ(p, t["e"], "%s%d" % (name, j), depth + 1)[:1]:
                    l, r = list(el), list(el)
                    l[j], r[j] = ("B", x), ("B", y)
                    out.append(("[%d]" % j, ("seq", tuple(l), t["e"]), ("seq", tuple(r), t["e"]), cs))
            return out
        return []
    if k != "adt":
        return []
    d = t["def"]
    if d in ("std::vec::Vec", "std::string::String") or "BTreeSet" in d or "HashSet" in d:
        ety = u8_ty() if d.endswith("String") else [a for a in t["args"] if isinstance(a, int)][0]
        e = mk_sym(("arg", name + "[0]"), ety)
        full, none_ = ("seq", (("B", e),), ety), ("seq", (), ety)
        out = [("length", full, none_, ()), ("length", none_, full, ())]
        if depth < 3 and "Set" not in d:
            for w, x, y, cs in differ(p, ety, name + "[0]", depth + 1):
                out.append(("[0]" + w, ("seq", (("B", x),), ety), ("seq", (("B", y),), ety), cs))
                z = ("B", mk_sym(("arg", name + "[1]"), ety))
                out.append(("[0] of 2" + w, ("seq", (("B", x), z), ety), ("seq", (("B", y), z), ety), cs))
                out.append(("[1] of 2" + w, ("seq", (z, ("B", x)), ety), ("seq", (z, ("B", y)), ety), cs))
        return out
    if not t.get("v"):
        return []
    if t.get("crate") not in ("maybe_dns",) and not d.endswith("option::Option"):
        return []
    vs = t["v"]
    out = []

    def mk(vi, tag=""):
        return ("adt", ty, vi, tuple(mk_sym(("arg", "%s.%s%s" % (name, f[0], tag)), f[1]) for f in vs[vi]["f"]))
    if len(vs) > 1:
        for vi in range(len(vs)):
            wi = (vi + 1) % len(vs)
            out.append((vs[vi]["n"], mk(vi), mk(wi), ()))
        if depth > 1:
            return out
    for vi, v in enumerate(vs):
        base = mk(vi)
        for fi, f in enumerate(v["f"]):
            if depth > 3:
                continue
            for w, x, y, cs in differ(p, f[1], "%s.%s" % (name, f[0]), depth + 1)[:12]:
                l, r = list(base[3]), list(base[3])
                l[fi], r[fi] = x, y
                out.append(("%s.%s%s" % (v["n"] if len(vs) > 1 else "", f[0], "/" + w if w else ""), ("adt", ty, vi, tuple(l)), ("adt", ty, vi, tuple(r)), cs))
    return out


def equality(R, p, t, tier):
    i = eq_types(p)[t]
    ty = p.types[argty(i, 0)]["e"]
    R.fn(i)
    rule = "equality looks at every part"
    n = t.split("::")[-1]
    full = "::".join(t.split("::")[-2:])
    R.count("equalities")

    def ask(a, b, cs):
        c = ctx(p, insist=True)
        for m, j in eq_types(p).items():
            if m != t:
                c.contracts[j["name"]] = lambda c, st, inst, args, rty: [(st, ("b", veq(c, st, deref_all(c, st, args[0]), deref_all(c, st, args[1]))))]
        st = State()
        for x in cs:
            st = st.assume(x)
            if st is None:
                return c, None
        st.mem[("S", 0)], st.mem[("S", 1)] = a, b
        try:
            return c, call(c, i, [("ref", ("S", 0), ()), ("ref", ("S", 1), ())], st)
        except Budget:
            return c, None
    tt = p.types[ty]
    selfs = [("adt", ty, vi, tuple(mk_sym(("arg", "v.%s" % f[0]), f[1]) for f in v["f"])) for vi, v in enumerate(tt["v"])]
    for v in selfs:
        c, outs = ask(v, v, ())
        R.use(c)
        for s, o in outs or []:
            R.count("pairs")
            verdict(R, "%s:itself" % full, same(o, ("b", True), s.facts), s, "a value does not equal itself", i["span"], rule)
    for w, a, b, cs in differ(p, ty, "v"):
        R.count("pairs")
        c, outs = ask(a, b, cs)
        R.use(c)
        if outs is None:
            R.undecided("%s:%s" % (full, w), "not decided within the budget", i["span"], rule)
            continue
        for s, o in outs:
            verdict(R, "%s:%s" % (full, w), same(o, ("b", False), s.facts), s, "values that differ in %s are equal" % w + (" " + show_val(o)[:60] if o[0] != "b" or o[1] is not True else ""), i["span"], rule)


def final(R, ps, tier):
    R.floor("laws", 40)
    R.floor("equalities", 30)
