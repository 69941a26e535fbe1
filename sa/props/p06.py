"""Packets: sections, counts and order."""
from rt import *

EXPLAIN = """A packet with four arbitrary lists is built by the setters, serialised (plain and compressed) and parsed
again, all by abstract interpretation of the MIR: the counts written are the lengths of the lists, the
sections follow in order, every element once, and the parser, reading as many elements as the counts
say, yields the same four lists and header and stops at the end.  For arbitrary bytes the parser's
result has exactly as many elements per section as the counts it read, in the order of their positions."""
ASSUME = ["header, question and record are read back as written (P05)", "a section has at most 65535 elements",
          "equal elements at different offsets of a compressed message are not told apart by length"]
SECTIONS = (("questions", "set_questions", "ques_count"), ("answers", "set_answers", "ans_count"),
            ("authorities", "set_authorities", "auth_count"), ("additional", "set_additionals", "add_count"))
SETTERS = [s[1] for s in SECTIONS]
# access by meaning
GETTERS = {"set_questions": "questions", "set_answers": "answers", "set_authorities": "authorities", "set_additionals": "additionals"}


def units(p, tier):
    return ["plain", "compressed", "bytes", "mutators"]


def rules():
    return Rules({pattern(("arg", m)): (0, 65535) for m in SETTERS})


def start(p, c, with_setters=True):
    pty = [n for n, t in enumerate(p.types) if t["k"] == "adt" and t.get("crate") == "maybe_dns" and last(t["def"]) == "Packet"][0]
    st = State()
    cell = ("S", 0)
    st.mem[cell] = mk_sym(("arg", "self"), pty)
    cur = [st]
    for m in SETTERS:
        i = inherent(p, "Packet", m)
        nxt = []
        for s in cur:
            for s2, _ in c.call(i, [("ref", cell, ()), mk_sym(("arg", m), argty(i, 1))], s, rty(i)):
                nxt.append(s2)
        cur = nxt
    return cur, cell


def parser(p):
    for a, i in p.impls[("TryFrom", "try_from")]["Packet"]:
        if "DnsBuffer" in a:
            return i


def slice_parser(p):
    for a, i in p.impls[("TryFrom", "try_from")]["Packet"]:
        if "DnsBuffer" not in a and "u8" in a:
            return i


def run(R, p, u, tier):
    R.count("parts")
    {"plain": trip, "compressed": trip, "bytes": from_bytes, "mutators": mutators}[u](R, p, u)


def trip(R, p, u):
    comp = u == "compressed"
    e = inherent(p, "Packet", "to_bytes_compressed") if comp else method(p, "Packet", "ByteConvertible", "to_bytes")
    d = parser(p)
    with rules():
        c = ctx(p, fit=True)
        c.con = Contracts(p, ("Header", "Question", "ResourceRecord"), pos=True)
        c.con.install(c)
        try:
            cur, cell = start(p, c)
            n = 0
            for s0 in cur:
                want = s0.mem[cell]
                for s, b in c.call(e, [("ref", cell, ())], s0, rty(e)):
                    n += 1
                    key = "packet %s" % u
                    if b[0] != "seq":
                        R.undecided(key, "serialised form unknown", e["span"], "sections")
                        continue
                    layout(R, p, c, s, b, u, e)
                    st = fit(c, s.copy(), written_rules([(s, b)])[1])
                    total = pieces_len(b[1])
                    r = mk_buffer(p, st, b[1], ZERO)
                    res = []
                    for s2, v2 in c.call(d, [r], st, rty(d)):
                        res.append(judge(p, "%s/%d" % (u, n), s2, v2, s2.facts.norm(want), total, d["span"], [], st))
                    R.count("packet paths", len(res))
                    for o in group(res):
                        if o.status == "proven":
                            R.proven("packet %s round trip" % u, d["span"], "sections")
                        else:
                            R.ob("packet %s:%s" % (u, "differs" if o.status == "refuted" else "unknown"), o.status, o.why, o.where, "sections")
        except Budget as x:
            R.undecided("packet %s:budget" % u, str(x), d["span"], "sections")
        R.use(c)


def layout(R, p, c, s, b, u, e):
    """header then the four lists, each element once and in order"""
    kinds = ["Header", "Question", "ResourceRecord", "ResourceRecord", "ResourceRecord"]
    ps = b[1]
    if T.is_imprecise(ps):
        R.undecided("packet %s:layout" % u, "serialised form not fully known", e["span"], "layout")
        return
    srcs = [None] + [("arg", m) for m in SETTERS]
    ok = len(ps) == 5
    if ok:
        for n, (pc, k) in enumerate(zip(ps, kinds)):
            if n == 0:
                ok = ok and pc[0] == "Enc" and pc[1].rstrip("~") == k
                continue
            if pc[0] != "star" or pc[1] != ZERO or pc[2] != s.facts.norm(length(srcs[n])) or len(pc[4]) != 1 or pc[4][0][0] != "Enc" or pc[4][0][1].rstrip("~") != k:
                ok = False
                break
            el = elem_val(srcs[n], L(pc[3]), None) if False else None
            if ("elem", srcs[n], L(pc[3])) != base_term(pc[4][0][2]):
                ok = False
    if ok:
        R.proven("packet %s: header, then the four sections in order" % u, e["span"], "layout")
    else:
        R.undecided("packet %s:layout" % u, "layout not recognised", e["span"], "layout")


def base_term(v):
    """the term all parts of a value are parts of"""
    x = v
    for _ in range(12):
        if not isinstance(x, tuple) or not x:
            return None
        if x[0] == "sym":
            x = x[1]
        elif x[0] == "adt":
            if not x[3]:
                return None
            x = x[3][0]
        elif x[0] == "seq":
            if len(x[1]) != 1 or x[1][0][0] != "Blob":
                return None
            x = x[1][0][1]
        elif x[0] == "fld":
            x = x[1]
        elif x[0] == "elem":
            return x
        else:
            return None
    return None


def from_bytes(R, p, u):
    """whatever the bytes: as many elements as the counts say, one after the other"""
    d = parser(p)
    c = ctx(p)
    log = []
    ty, dd, q = buffer_fields(p)

    def mk(k):
        def f(c, st, inst, args, r):
            b = args[0]
            while True:
                bv = c.read(st, b[1], b[2])
                if bv[0] == "ref":
                    b = bv
                    continue
                break
            pos = bv[3][q[0]]
            ln = bv[3][dd[0]][4]
            at = st.facts.norm(pos)
            out = []
            flag = ("bv", ("parsed?", k, at))
            vs = tinfo(r)["v"]
            for i, x in enumerate(vs):
                s = st.assume(flag if x["n"] == "Ok" else neg(flag))
                if s is None:
                    continue
                if x["n"] == "Ok":
                    fs = list(bv[3])
                    nx = s.facts.norm(at + length(("extent", k, at)))
                    fs[q[0]] = nx
                    s = s.copy()
                    c.write(s, b[1], b[2], ("adt", bv[1], bv[2], tuple(fs)))
                out.append((s, ("adt", r, i, (mk_sym(("parsed", k, at) if x["n"] == "Ok" else ("error", k, at), x["f"][0][1]),))))
            return out
        return f
    for k in ("Header", "Question", "ResourceRecord"):
        c.contracts[decoder(p, k)["name"]] = mk(k)
    st = State()
    w = ("wire",)
    pos = length(("pre",))
    r = mk_buffer(p, st, (("Blob", w, ZERO, length(w)),), pos)
    st = st.assume(ge0(length(w) - pos))
    st.trail = ()
    try:
        outs = c.call(d, [r], st, rty(d))
    except Budget as x:
        R.undecided("packet bytes:budget", str(x), d["span"], "counts read")
        return
    R.use(c)
    for s, v in outs:
        R.count("packet paths")
        if v[0] != "adt":
            R.undecided("packet bytes:result", "result unknown", d["span"], "counts read")
            continue
        if not is_ok(v):
            e = v[3][0]
            R.proven("packet bytes: failure of a part is reported", d["span"], "failures propagate") if e[0] == "sym" and e[1][0] == "error" else \
                R.undecided("packet bytes:error", "fails with %s" % show_val(e)[:200], d["span"], "failures propagate")
            continue
        pk = v[3][0]
        pt = p.types[pk[1]]["v"][0]["f"]
        names = [f[0] for f in pt]
        val = dict(zip(names, pk[3]))
        # the header is the one read at the start
        hd = [n for n in names if isinstance(val[n], tuple) and val[n][0] in ("adt", "sym") and last(p.types[dict((f[0], f[1]) for f in pt)[n]]["def"]) == "Header"]
        h = val[hd[0]] if hd else None
        hsrc = mk_sym(("parsed", "Header", s.facts.norm(pos)), dict((f[0], f[1]) for f in pt)[hd[0]]) if hd else None
        if h is None:
            R.undecided("packet bytes:header", "no header in the result", d["span"], "counts read")
            continue
        pr = precise_trail(s)
        verdict(R, p, "packet bytes:header", equal(h, s.facts.norm(hsrc), s.facts, []), pr, s, "the header of the packet is not the one read first", d)
        lists = [n for n in names if isinstance(val[n], tuple) and val[n][0] == "seq"]
        cnts = [f[0] for f in p.types[hsrc[1]]["v"][0]["f"]]
        hv = dict(zip(cnts, s.facts.norm(hsrc)[3]))
        cur = s.facts.norm(pos + length(("extent", "Header", s.facts.norm(pos))))
        for (ln, st_, cn) in SECTIONS:
            if ln not in val or cn not in hv:
                R.undecided("packet bytes:%s" % ln, "no list of that name", d["span"], "counts read")
                continue
            got = s.facts.norm(seq_len(val[ln]))
            n = s.facts.norm(hv[cn])
            verdict(R, p, "packet bytes: number of %s" % ln, same_lin(s.facts, got - n), pr and not T.is_imprecise(got), s,
                    "%s holds %s elements, the header announces %s" % (ln, show_lin(got)[:120], show_lin(n)[:120]), d)


def verdict(R, p, key, q, pr, s, why, d, rule="counts read"):
    if q is True:
        R.proven(key, d["span"], rule)
    elif q is False and pr and sample.feasible(s.facts):
        R.refuted(key, why, d["span"], rule)
    else:
        R.undecided(key, why + " (not decided)", d["span"], rule)


def mutators(R, p, u):
    """every method that changes a section keeps header counts and lists in step"""
    pty = [n for n, t in enumerate(p.types) if t["k"] == "adt" and t.get("crate") == "maybe_dns" and last(t["def"]) == "Packet"][0]
    for ln, setter, cn in SECTIONS:
        stem = {"questions": "question", "answers": "answer", "authorities": "authority", "additional": "additional"}[ln]
        plural = {"additional": "additionals"}.get(ln, ln)
        for m, what in (("add_" + stem, "add"), (setter, "set"), ("take_" + plural, "take")):
            i = inherent(p, "Packet", m)
            if i is None:
                continue
            R.count("mutators")
            R.fn(i)
            with rules():
                c = ctx(p, fit=True)
                cur, cell = start(p, c)
                for s0 in cur:
                    old = s0.mem[cell]
                    args = [("ref", cell, ())]
                    if i["body"]["argc"] == 2:
                        args.append(mk_sym(("arg", "new"), argty(i, 1)))
                    # one more must still be countable
                    nm = [f[0] for f in p.types[pty]["v"][0]["f"]]
                    ol = old[3][nm.index(ln)]
                    s1 = s0.assume(ge0(K(65534) - seq_len(ol)))
                    if what == "set":
                        s1 = s1.assume(ge0(K(65534) - length(("arg", "new"))))
                    s1.trail = ()
                    for s, v in c.call(i, args, s1, rty(i)):
                        new = dict(zip(nm, s.facts.norm(s.mem[cell])[3]))
                        was = dict(zip(nm, s.facts.norm(old)[3]))
                        if what == "add":
                            want = ("seq", norm_pieces(ol[1] + (("B", args[1]),), ol[2]), ol[2])
                        elif what == "set":
                            want = args[1]
                        else:
                            want = ("seq", (), ol[2])
                        pr = precise_trail(s)
                        verdict(R, p, "%s: list" % m, equal(new[ln], s.facts.norm(want), s.facts, []), pr, s, "%s leaves another list than expected" % m, i, "mutators")
                        hn = [f[0] for f in p.types[was["header"][1]]["v"][0]["f"]]
                        hv = dict(zip(hn, new["header"][3])) if new["header"][0] == "adt" else {}
                        if cn in hv:
                            verdict(R, p, "%s: count" % m, same_lin(s.facts, hv[cn] - seq_len(want)), pr, s, "%s leaves the count at %s for a list of %s" % (m, show_lin(hv[cn])[:100], show_lin(seq_len(want))[:100]), i, "mutators")
                        if what == "take":
                            verdict(R, p, "%s: result" % m, equal(v, s.facts.norm(ol), s.facts, []), pr, s, "%s does not hand out the list" % m, i, "mutators")
                        for o, _, oc in SECTIONS:
                            if o != ln:
                                verdict(R, p, "%s: %s untouched" % (m, o), equal(new[o], was[o], s.facts, []), pr, s, "%s changes %s" % (m, o), i, "mutators")
                                oh = dict(zip(hn, was["header"][3]))
                                if oc in hv:
                                    verdict(R, p, "%s: %s untouched" % (m, oc), same_lin(s.facts, hv[oc] - oh[oc]), pr, s, "%s changes %s" % (m, oc), i, "mutators")
                R.use(c)


def final(R, ps, tier):
    R.floor("parts", 4 * len(ps))
    R.floor("mutators", 8 * len(ps))
