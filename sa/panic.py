"""Panic and termination obligations of a function on arbitrary inputs."""
from rt import *


def havoc(p, k, minimum, precise):
    """stands for a decoder that is analysed on its own: any outcome its contract allows"""
    ty, d, q = buffer_fields(p)

    def f(c, st, inst, args, r):
        b = None
        for a in args:
            x = a
            while isinstance(x, tuple) and x and x[0] == "ref":
                v = c.read(st, x[1], x[2])
                if isinstance(v, tuple) and v[0] == "adt" and is_buffer(p, v[1]):
                    b, bv = x, v
                    break
                x = v
            if b is not None:
                break
        if b is None:
            return None
        sl, pos = bv[3][d[0]], bv[3][q[0]]
        if st.facts.decide(ge0(sl[4] - pos)) is not True and c.record:
            c.contract_broken.append((inst["name"], "called with a position that may lie behind the end", c.stack[-1] if c.stack else None))
        return havoc_out(c, st, b, bv, sl, pos, q[0], r, minimum, precise)
    return f


def havoc_out(c, st, b, bv, sl, pos, q, r, minimum, precise):
    t = ("parsed", fresh_id()) if precise else fresh_term("parsed")
    flag = ("bv", ("app", "ok") + (t,))
    out = []
    for nm, cc in (("Ok", flag), ("Err", neg(flag))):
        s = st.assume(cc)
        np = L(gen_atom(0, T.LEN_MAX, not precise))
        s = s.assume(ge0(np - pos - (minimum if nm == "Ok" else 0)))
        if s is None:
            continue
        s = s.assume(ge0(s.facts.norm(sl[4] - np)))
        if s is None:
            continue
        fs = list(bv[3])
        fs[q] = np
        c.write(s, b[1], b[2], ("adt", bv[1], bv[2], tuple(fs)))
        vs = tinfo(r)["v"]
        i = [n for n, x in enumerate(vs) if x["n"] == nm][0]
        fty = vs[i]["f"][0][1]
        out.append((s, ("adt", r, i, (mk_sym((nm,) + t, fty),))))
    return out


# decoders of their own obligation: (type, least number of bytes consumed on success, exact enough to refute with)
NESTED = [("FQDN", 1, True), ("Question", 1, False), ("ResourceRecord", 1, False), ("Header", 1, False), ("Param", 1, True)]


def code_tables(p):
    """conversions of a wire code into an enum"""
    out = []
    for tr, m in (("TryFrom", "try_from"), ("From", "from")):
        for t, l in p.impls.get((tr, m), {}).items():
            for a, i in l:
                if a in ("u8", "u16", "u32") and i["body"]["argc"] == 1 and p.types[argty(i, 0)]["k"] == "uint":
                    r = p.types[rty(i)]
                    if r["k"] == "adt" and r["ak"] == "enum":
                        out.append((t, i))
    return out


def code_contract(i):
    def f(c, st, inst, args, r):
        v = st.facts.norm(args[0])
        t = ("app", "code", inst["name"], v)
        vs = tinfo(r)["v"]
        if {x["n"] for x in vs} != {"Ok", "Err"}:
            return [(st, mk_sym(t, r))]
        out = []
        flag = ("bv", ("app", "valid", inst["name"], v))
        for n, x in enumerate(vs):
            s = st.assume(flag if x["n"] == "Ok" else neg(flag))
            if s is not None:
                out.append((s, ("adt", r, n, (mk_sym((x["n"], t), x["f"][0][1]),))))
        return out
    return f


def fqdn_decoders(p):
    out = []
    for i in [inherent(p, "DnsBuffer", "extract_fqdn"), decoder(p, "FQDN")]:
        if i is not None:
            out.append(i)
    return out


def analysis(p, skip=(), flat=False, **o):
    o.setdefault("first_iterations", 2)
    c = ctx(p, **o)
    c.contract_broken = []
    for k, m, pr in NESTED:
        for i in ([decoder(p, k)] if k != "FQDN" else fqdn_decoders(p)):
            if i is not None and i["name"] not in skip:
                c.contracts[i["name"]] = havoc(p, k, m, pr)
    for t, i in code_tables(p):
        if i["name"] not in skip:
            c.contracts[i["name"]] = code_contract(i)
    if flat:
        for t, l in p.impls.get(("TryFrom", "try_from"), {}).items():
            for a, i in l:
                if "DnsBuffer" in a and i["name"] not in skip and i["name"] not in c.contracts:
                    c.contracts[i["name"]] = havoc(p, t, 0, False)
    rd = inherent(p, "RecordData", "from")
    if rd is not None and rd["name"] not in skip:
        c.contracts[rd["name"]] = havoc(p, "RecordData", 0, False)
    return c


def symbolic_buffer(p, st, cell=("B", 0)):
    data = ("Blob", ("arg", "bytes"), ZERO, length(("arg", "bytes")))
    pos = var(("arg", "pos"), 0, T.LEN_MAX)
    r = mk_buffer(p, st, (data,), pos, cell)
    return r, pos, length(("arg", "bytes"))


def short_fn(n):
    n = re.sub(r"maybe_dns::", "", n)
    return n


def crate_frame(p, pn):
    """innermost function of the library on the stack, and the operation"""
    for f in reversed(pn.stack):
        if "maybe_dns::" in f or f.startswith("<maybe_dns"):
            return short_fn(f)
    return short_fn(pn.fn)


def report_panics(R, p, c, u, where):
    seen = set()
    for (fn, kind, line), n in c.proved.items():
        R.count("panic sites discharged", n)
        R.proven("%s: %s in %s" % (u, kind, short_fn(fn)), where, "no panic")
    for pn in c.panics:
        fn = crate_frame(p, pn)
        if pn.precise and pn.kind != "unreachable" and sample.feasible(pn.facts):
            key = "%s:panic %s in %s" % (u, pn.kind, fn)
            if key in seen:
                continue
            seen.add(key)
            R.refuted(key, "%s can fail in %s when %s" % (pn.kind, fn, [show_cond(x) for x in pn.trail][-6:]), "%s line %s" % (where, pn.line), "no panic")
        else:
            R.undecided("%s:panic %s in %s" % (u, pn.kind, fn), "not excluded: %s when %s" % (pn.kind, [show_cond(x)[:120] for x in pn.trail][-4:]), "%s line %s" % (where, pn.line), "no panic")
    for b in c.contract_broken:
        R.undecided("%s:contract %s" % (u, short_fn(b[0])), b[1], where, "no panic")
    for k in c.unknown:
        R.assumptions.add("external function without a model is assumed not to panic: %s" % k)


def parsers(p):
    out = {}
    for t, l in p.impls.get(("TryFrom", "try_from"), {}).items():
        for a, i in l:
            if "DnsBuffer" in a:
                out["%s::try_from" % t] = i
            elif "[u8]" in a:
                out["%s::try_from(bytes)" % t] = i
    for (t, m), l in p.inherent.items():
        for i in l:
            if t == "DnsBuffer" and i["body"]["argc"] >= 1:
                out.setdefault("DnsBuffer::%s" % m, i)
    for t, i in code_tables(p):
        out["%s code table" % re.sub(r"^.*<([\w:]+) as.*$", r"\1", short_fn(i["name"]))] = i
    i = inherent(p, "RecordData", "from")
    if i:
        out["RecordData::from"] = i
    return out


def units(p, tier):
    return sorted(parsers(p))


def args_for(p, st, i):
    """arbitrary arguments; returns (args, pos, len)"""
    args, pos, ln = [], None, None
    for n in range(i["body"]["argc"]):
        ty = argty(i, n)
        t = p.types[ty]
        if t["k"] == "ref" and is_buffer(p, t["e"]):
            r, pos, ln = symbolic_buffer(p, st)
            args.append(r)
        elif t["k"] == "ref" and p.types[t["e"]]["k"] == "slice":
            data = ("Blob", ("arg", "bytes"), ZERO, length(("arg", "bytes")))
            ln = length(("arg", "bytes"))
            args.append(("sl", ("C", ("seq", (data,), u8_ty())), (), ZERO, ln))
        else:
            args.append(mk_sym(("arg", "a%d" % n), ty))
    return args, pos, ln


def is_ok_named(v):
    return variants(v[1])[v[2]]["n"] == "Ok"
