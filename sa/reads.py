"""What nested parsers and code tables read, as contracts: a value stands for the bytes it was read from."""
from panic import *
from api import *


def nested(p, kind, log, minimum):
    """what a name (or parameter) is read as stands for the bytes it was read from"""
    ty, d, q = buffer_fields(p)

    def f(c, st, inst, args, r):
        b = next((a for a in args if isinstance(a, tuple) and a[0] == "ref"), None)
        bv = None
        while b is not None:
            bv = c.read(st, b[1], b[2])
            if isinstance(bv, tuple) and bv[0] == "ref":
                b = bv
                continue
            break
        if not (isinstance(bv, tuple) and bv[0] == "adt" and is_buffer(p, bv[1])):
            return None
        sl, pos = bv[3][d[0]], st.facts.norm(bv[3][q[0]])
        term = ("read", kind, pos) + tuple(st.facts.norm(a) for a in args if not (isinstance(a, tuple) and a[0] == "ref"))
        flag = ("bv", ("app", "ok", term))
        vs = tinfo(r)["v"]
        out = []
        for n, x in enumerate(vs):
            s = st.assume(flag if x["n"] == "Ok" else neg(flag))
            if s is None:
                continue
            v = mk_sym((x["n"],) + term, x["f"][0][1])
            if x["n"] == "Err":
                s.event(("failed", v))
            if x["n"] == "Ok":
                e = enc_piece(kind, v)
                ln = pieces_len((e,))
                s = s.assume(ge0(ln - minimum))
                s = s and s.assume(ge0(s.facts.norm(sl[4] - pos - ln)))
                if s is None:
                    continue
                log.append((e, pos))
                fs = list(bv[3])
                fs[q[0]] = pos + ln
                c.write(s, b[1], b[2], ("adt", bv[1], bv[2], tuple(fs)))
            out.append((s, ("adt", r, n, (v,))))
        return out
    return f


def ok_ty(p, r):
    t = p.types[r]
    for v in t.get("v") or []:
        if v["n"] == "Ok" and t["def"].endswith("Result"):
            return v["f"][0][1]
    return r


def codes(p, c, but):
    """a code enumeration value stands for the number it was read from"""
    rd = {}
    for _, i in code_tables(p):
        rd[ok_ty(p, rty(i))] = i
    wr = {}
    for i in p.insts:
        if i["crate"] == "maybe_dns" and "body" in i and i["def"].endswith("::from") and i["body"]["argc"] == 1:
            a, r = p.types[argty(i, 0)], p.types[rty(i)]
            if r["k"] == "uint" and r["bits"] <= 16 and a["k"] == "adt" and a.get("crate") == "maybe_dns":
                wr[argty(i, 0)] = i
    for ty in rd:
        if last(p.types[ty]["def"]) in but:
            continue
        num = numbered(p, rd[ty], ty)
        if ty in wr or num:
            c.contracts[rd[ty]["name"]] = reader(ty, num)
        if ty in wr:
            c.contracts[wr[ty]["name"]] = writer


def numbered(p, i, ty):
    """are the discriminants the codes, as read by the conversion itself"""
    if any(v["f"] for v in p.types[ty]["v"]):
        return False
    c = ctx(p)
    n = mk_sym(("arg", "code"), argty(i, 0))
    oks = [(s, v if v[1] == ty else v[3][0]) for s, v in c.call(i, [n], State(), rty(i)) if v[0] == "adt" and (v[1] == ty or is_ok(v))]
    return bool(oks) and all(x[0] == "adt" and s.facts.decide(eq0(n - discr(p, x))) is True for s, x in oks)


def reader(ty, num):
    def f(c, st, inst, args, r):
        n = st.facts.norm(args[0])
        val = ("sym", ("coded", inst["name"], n), ty)
        if r == ty:
            return [(st, val)]
        flag = ("bv", ("app", "valid", inst["name"], n))
        out = []
        for i, x in enumerate(tinfo(r)["v"]):
            s = st.assume(flag if x["n"] == "Ok" else neg(flag))
            if s is not None and num and x["n"] == "Ok":
                s = s.assume(eq0(L(discr_atom(val[1], ty)) - n))
            if s is None:
                continue
            v = val if x["n"] == "Ok" else mk_sym((x["n"], inst["name"], n), x["f"][0][1])
            if x["n"] == "Err":
                s.event(("failed", v))
            out.append((s, ("adt", r, i, (v,))))
        return out
    return f


def writer(c, st, inst, args, r):
    v = args[0]
    if isinstance(v, tuple) and v[0] == "sym" and v[1][0] == "coded":
        return [(st, st.facts.norm(v[1][2]))]
    return None
