"""Operations on values, analysed on arbitrary arguments that hold a defined response code."""
from panic import *

RULE = "no panic"


def ops(p):
    par = {i["name"] for i in parsers(p).values()}
    out = {}
    for i in p.insts:
        if i["crate"] != "maybe_dns" or "body" not in i or not i.get("exported") or i["name"] in par or "{closure#" in i["def"]:
            continue
        tr = i.get("trait") or ""
        if "fmt::Debug>" in tr or i["def"].endswith("assert_fields_are_eq"):
            continue
        if re.search(r"DnsBuffer", i["def"]):
            continue
        out[short_fn(i["def"])] = i
    return out


def makers(p):
    """the parser of the header (a parsed packet holds the header its header parser yields)"""
    out = {}
    for n, i in parsers(p).items():
        r = p.types[rty(i)]
        if r["k"] == "adt" and (r.get("v") or [{}])[0].get("n") == "Ok" and coded(p, r["v"][0]["f"][0][1])[0] is not None and "Header" in n:
            out[n] = i
    return out


def wide(cond):
    """a check against the largest machine-sized number"""
    if isinstance(cond, Lin):
        return abs(cond.c) > 1 << 40
    return isinstance(cond, tuple) and any(wide(x) for x in cond)


def sorted_sets(p, f):
    """functions of types that hold a sorted set: the order of its elements is not represented"""
    m = re.search(r"(\w+)(?:<.*>)? as |(\w+)::\w+$", f)
    n = (m.group(1) or m.group(2)) if m else ""
    for t in p.types:
        if t["k"] == "adt" and t.get("crate") == "maybe_dns" and last(t["def"]) == n:
            return any("BTreeSet" in p.types[x[1]]["s"] for v in t.get("v") or [] for x in v["f"])
    return False


WRITERS = ("to_bytes", "byte_size", "to_bytes_compressed", "byte_size_compressed")


def contracts(p, c, i, tier):
    """the writers of nested types are obligations of their own; what they return is arbitrary"""
    for (tr, m), d in p.impls.items():
        if m not in WRITERS:
            continue
        for t, l in d.items():
            for a, j in l:
                if own(j) != own(i) and j["name"] not in c.contracts:
                    c.contracts[j["name"]] = summary(p, t == "FQDN", m)


def own(i):
    m = re.match(r"^<(.+?) as ", i["def"])
    return tyname(m.group(1)) if m else i["def"].rsplit("::", 1)[0].split("::")[-1]


def summary(p, exact, m):
    def f(c, st, inst, args, r):
        k = tk(r)
        if k == "uint":
            return [(st, L(gen_atom(1 if exact else 0, T.LEN_MAX, not exact)))]
        t = ("written", fresh_id()) if exact else fresh_term("written")
        n = L(gen_atom(1 if exact else 0, T.LEN_MAX, not exact))
        v = mk_sym(t, r)
        if args and m.endswith("compressed"):
            for a in args[1:2]:
                c.havoc_mut(st, a)
        return [(st, v)]
    return f


def coded(p, ty):
    """the accessor that takes an enumerated code out of a header, when ty is a value or reference of a type that has one"""
    t = p.types[ty]
    if t["k"] == "ref":
        ty = t["e"]
        t = p.types[ty]
    if t["k"] == "adt" and t.get("crate") == "maybe_dns" and t["ak"] == "struct":
        return inherent(p, last(t["def"]), "response_code"), ty
    return None, None


def valid(p, c, st, ty, a):
    """the states in which the value holds a defined response code: those its accessor survives"""
    g, vt = coded(p, ty)
    if g is None:
        return [st]
    keep = list(c.panics), dict(c.proved)
    if p.types[ty]["k"] != "ref":
        st = st.copy()
        st.mem[("arg", "held")] = a
        a = ("ref", ("arg", "held"), ())
    out = [s for s, _ in c.call(g, [a], st, rty(g))]
    c.panics, c.proved = keep
    return out


def keeps(R, p, c, n, i, args, outs):
    """whatever an operation builds or changes holds a defined response code again"""
    for k in list(range(i["body"]["argc"])) + [None]:
        ty = rty(i) if k is None else argty(i, k)
        if k is not None and not (p.types[ty]["k"] == "ref" and p.types[ty].get("m")):
            continue
        wrap = None
        if k is None and p.types[ty]["k"] == "adt" and (p.types[ty].get("v") or [{}])[0].get("n") == "Ok":
            wrap, ty = ty, p.types[ty]["v"][0]["f"][0][1]
        g, vt = coded(p, ty)
        if g is None:
            continue
        for s, v in outs:
            a = args[k] if k is not None else v
            if wrap is not None:
                if not (isinstance(v, tuple) and v[0] == "adt" and is_ok_named(v)):
                    continue
                a = v[3][0]
            if k is None and p.types[ty]["k"] != "ref":
                s = s.copy()
                s.mem[("arg", "made")] = a
                a = ("ref", ("arg", "made"), ())
            before = len(c.panics)
            c.call(g, [a], s, rty(g))
            if len(c.panics) == before:
                R.proven("%s: leaves a defined response code" % n, i["span"], "response codes stay defined")


def one(R, p, n, i, tier, tell=None):
    R.count("operations")
    rc = method(p, "ResponseCode", "TryFrom", "try_from", "u8")
    c = analysis(p, fit=True, skip=(rc["name"],) if rc else ())
    contracts(p, c, i, tier)
    st = State()
    args = []
    for k in range(i["body"]["argc"]):
        args.append(mk_sym(("arg", "a%d" % k), argty(i, k)))
    sts = [st]
    for k, a in enumerate(args):
        sts = [x for s in sts for x in valid(p, c, s, argty(i, k), a)]
    outs = []
    try:
        for s in sts:
            s.trail = ()
            outs += c.call(i, args, s, rty(i))
    except Budget as x:
        R.use(c)
        R.undecided("%s:budget" % n, str(x), i["span"], RULE)
        return
    except (Imprecise, Fork) as x:
        R.use(c)
        R.undecided("%s:imprecise" % n, str(x), i["span"], RULE)
        return
    keeps(R, p, c, n, i, args, outs)
    R.use(c)
    c.panics = [x for x in c.panics if not (x.kind in ("Overflow(Add)", "Overflow(Mul)") and wide(x.cond))]
    for x in c.panics:
        if sorted_sets(p, crate_frame(p, x)):
            x.precise = False
    if tell:
        tell(c)
        return
    report_panics(R, p, c, n, i["span"])
    if not c.panics:
        R.proven("%s: no operation on any path can fail" % n, i["span"], RULE)


def parsed(R, p, n, i, tell=None):
    rc = method(p, "ResponseCode", "TryFrom", "try_from", "u8")
    h = decoder(p, "Header")
    c = analysis(p, skip=tuple(x["name"] for x in (rc, h, i) if x))
    st = State()
    args, pos, ln = args_for(p, st, i)
    args = [mk_buffer(p, st, (("Blob", ("arg", "bytes"), ZERO, length(("arg", "bytes"))),), ZERO)]
    st.trail = ()
    try:
        outs = c.call(i, args, st, rty(i))
    except Budget as x:
        R.undecided("%s:budget" % n, str(x), i["span"], RULE)
        return
    c.panics, c.proved = [], {}
    keeps(R, p, c, n, i, args, outs)
    R.use(c)
    (tell or (lambda c: report_panics(R, p, c, n, i["span"])))(c)
