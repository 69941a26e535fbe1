"""Name compression: offsets and pointers."""
from rt import *
from models import reify, some, none, payload_ty

EXPLAIN = """Every compressed serialiser is interpreted abstractly.  For types that contain names: the offset handed to
the serialiser of each name is the offset of the whole plus the number of bytes written before it, the
table of names handed on has only seen what was written at the offset it was told, and apart from the
names the bytes are those of the plain form.  For names: each name suffix entered into the table is
entered with the offset at which it is written, and only if a pointer can hold that offset; a pointer is
written only in place of the rest of the name, for the offset the table has for exactly that rest, with
both top bits set; and the labels before it are written as in the plain form.  For packets: the offset
handed to each question and record is its position in the message (induction over the four loops)."""
ASSUME = ["names with different labels have different hashes in the table of names", "a label is 1 to 63 bytes long, empty labels are skipped"]


def kinds(p):
    return sorted(p.impls.get(("CompressedByteConvertible", "to_bytes_compressed"), {}))


def units(p, tier):
    return ["Packet", "FQDN"] + [k for k in kinds(p) if k not in ("FQDN", "RecordData", "Header")]


def run(R, p, u, tier):
    R.count("compressed serialisers")
    if u == "FQDN":
        return fqdn(R, p)
    if u == "Packet":
        return packet(R, p)
    nested(R, p, u)


def verdict(R, key, q, s, why, where, rule):
    if q is True:
        R.proven(key, where, rule)
    elif q is False and precise_trail(s) and sample.feasible(s.facts):
        R.refuted(key, why, where, rule)
    else:
        R.undecided(key, why, where, rule)


def table(nm, base, emitted, empty=True):
    """has the table only seen encodings that were written where they were said to be?"""
    if nm == base:
        return True
    if isinstance(nm, tuple) and nm and nm[0] == "seq" and not nm[1]:
        return True
    t = None
    if isinstance(nm, tuple) and nm and nm[0] == "seq" and len(nm[1]) == 1 and nm[1][0][0] == "Blob":
        t = nm[1][0][1]
    elif isinstance(nm, tuple) and nm and nm[0] == "sym":
        t = nm[1]
    while isinstance(t, tuple) and t and t[0] in ("map", "set") and len(t) == 2:
        t = t[1]
    if isinstance(t, tuple) and t and t[0] == "names":
        _, k, v, cx = t
        if (k + "~", v, cx) not in emitted:
            return False
        return table(cx[1], base, emitted)
    return None


def nested(R, p, u):
    e = method(p, u, "CompressedByteConvertible", "to_bytes_compressed")
    pl = method(p, u, "ByteConvertible", "to_bytes")
    inner = ("FQDN", "RecordData") if u == "ResourceRecord" else ("FQDN",)

    def mk():
        c = ctx(p, fit=True)
        c.con = Contracts(p, inner)
        c.con.install(c)
        return c
    c = mk()
    off = None
    with Rules({}):
        try:
            outs = encode_all(c, e, u)
        except Budget as x:
            R.undecided("%s:budget" % u, str(x), e["span"], "offsets")
            return
        plain = []
        if u != "ResourceRecord":
            c2 = mk()
            try:
                plain = encode_all(c2, pl, u)
            except Budget:
                plain = []
        R.use(c)
        offset = mk_sym(("arg", "offset"), argty(e, 2))
        base = mk_sym(("arg", "names"), p.types[argty(e, 1)]["e"])
        for s, b, v in outs:
            if b[0] != "seq":
                R.undecided("%s:bytes" % u, "bytes unknown", e["span"], "offsets")
                continue
            emitted = {(x[1], x[2], x[3]) for x in b[1] if x[0] == "Enc" and x[1].endswith("~")}
            pre = ()
            n = 0
            for x in b[1]:
                if x[0] == "Enc" and x[1].endswith("~"):
                    n += 1
                    R.count("names at offsets")
                    want = s.facts.norm(offset + pieces_len(pre))
                    got = s.facts.norm(x[3][2])
                    q = same_lin(s.facts, got, want)
                    verdict(R, "%s:offset of part %d" % (u, n), q, s, "a part written at %s is told to be at %s" % (show_lin(want)[:200], show_lin(got)[:200]), e["span"], "offsets")
                    verdict(R, "%s:table of part %d" % (u, n), table(x[3][1], base, emitted), s, "the table of names was told about bytes that are not written there", e["span"], "table of names")
                pre = pre + (x,)
            # the rest is as in the plain form
            if plain and not T.is_imprecise(b[1]):
                mine = tuple(("Enc", x[1].rstrip("~"), x[2], None) if x[0] == "Enc" else x for x in b[1])
                for s2, b2, v2 in plain:
                    if b2[0] != "seq" or v2 != v:
                        continue
                    both = s
                    for t in s2.trail:
                        both = both.assume(t) if both is not None else None
                    if both is None:
                        continue
                    q = eq_pieces(mine, b2[1], both.facts, u8_ty())
                    verdict(R, "%s:same as plain" % u, q, both,
                            "compressed form %s differs from the plain form beyond its names" % show_val(b)[:300], e["span"], "same as the plain form")


def packet(R, p):
    e = inherent(p, "Packet", "to_bytes_compressed")
    c = ctx(p, fit=True)
    c.con = Contracts(p, ("Header", "Question", "ResourceRecord"), pos=True)
    c.con.install(c)
    sty = p.types[argty(e, 0)]["e"]
    st = State()
    st.mem[("S", 0)] = mk_sym(("arg", "self"), sty)
    with Rules({}):
        try:
            outs = c.call(e, [("ref", ("S", 0), ())], st, rty(e))
        except Budget as x:
            R.undecided("Packet:budget", str(x), e["span"], "offsets")
            return
        R.use(c)
        for s, b in outs:
            if b[0] != "seq":
                R.undecided("Packet:bytes", "bytes unknown", e["span"], "offsets")
                continue
            pre = ZERO
            for n, x in enumerate(b[1]):
                if x[0] == "star":
                    ix = S.index_atom() if hasattr(S, "index_atom") else T.index_atom()
                    at = pre + star_sum(L(ix), x[3], pieces_len(x[4])) - star_sum(x[1], x[3], pieces_len(x[4]))
                    f = s.facts.assume(ge0(L(ix) - x[1]))
                    f = f.assume(ge0(x[2] - L(ix) - 1)) if f else None
                    if f is not None:
                        for y in subst(x[4], {x[3]: L(ix)}):
                            part(R, p, e, s, f, y, at, n)
                            at = at + piece_len(y)
                else:
                    part(R, p, e, s, s.facts, x, pre, n)
                pre = pre + piece_len(x)


def part(R, p, e, s, f, y, at, n):
    if y[0] == "Blob" and T.is_imprecise(y):
        R.undecided("Packet:section %d" % n, "contents unknown", e["span"], "offsets")
        return
    if y[0] != "Enc" or not y[1].endswith("~"):
        return
    R.count("names at offsets")
    got, want = f.norm(y[3][1]), f.norm(at)
    s2 = s.copy()
    s2.facts = f
    q = same_lin(f, got, want)
    verdict(R, "Packet:offset of %s in section %d" % (y[1].rstrip("~"), n), q, s2, "an element written at %s is told to be at %s" % (show_lin(want)[:200], show_lin(got)[:200]), e["span"], "offsets")
    verdict(R, "Packet:table in section %d" % n, not y[3][2], s2, "the table of names was told about bytes that are not written there", e["span"], "table of names")


# ---------------------------------------------------------------- names
def install(p, c):
    def get(c, st, inst, args, r):
        k = reify(c, st, args[1])
        fl = ("bv", ("known", k))
        if tk(r) == "bool":
            return [(st, ("b", fl))]
        out = []
        a = st.assume(fl)
        if a is not None:
            a = a.copy()
            cell = ("P", k)
            a.mem[cell] = var(("pointer", k), 0, 0x3fff)
            out.append((a, some(r, ("ref", cell, ()))))
        b = st.assume(neg(fl))
        if b is not None:
            out.append((b, none(r)))
        return out

    def index(c, st, inst, args, r):
        k = reify(c, st, args[1])
        st = st.copy()
        cell = ("P", k)
        st.mem[cell] = var(("pointer", k), 0, 0x3fff)
        return [(st, ("ref", cell, ()))]

    def ins(c, st, inst, args, r):
        k = reify(c, st, args[1])
        st = st.copy()
        v = st.facts.norm(c.as_int(args[2]))
        st.event(("reg", k, v, st.facts.decide(ge0(K(0x3fff) - v))))
        return [(st, mk_sym(("app", "old", k), r))]
    for i in p.insts:
        d = i["def"]
        if "HashMap" in d and "u64, usize" in i["name"]:
            m = d.split("::")[-1]
            if m in ("get", "contains_key"):
                c.contracts[i["name"]] = get
            elif m == "insert":
                c.contracts[i["name"]] = ins
            elif m == "index":
                c.contracts[i["name"]] = index


def suffix_of(k, n=None):
    """the label list a key stands for: the only list that went into the hash"""
    found = []

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "seq":
                found.append(x)
                return
            for y in x:
                go(y)
        elif isinstance(x, Lin):
            if x.const is None:
                for a, _ in x.t:
                    go(a.key)
        elif isinstance(x, Atom):
            go(x.key)
    go(k)
    return found


def key_items(k):
    """what went into the hash, in order, or None"""
    if isinstance(k, Lin):
        k = k.atom()
        k = k.key if k is not None else None
    if not (isinstance(k, tuple) and k[0] in ("var", "app")):
        return None
    t = k[1] if k[0] == "var" else k
    if not (isinstance(t, tuple) and t[:2] == ("app", "hash")):
        return None
    t = t[2]
    out = []
    while isinstance(t, tuple) and len(t) == 3 and t[0] == "hasher":
        out.append(t[2])
        t = t[1]
    if t != ("hasher", ()):
        return None
    return out[::-1]


def key_means(k, labels, ety, f):
    """("end", m): the key stands for exactly the labels from m on; ("bad", why): two different names have this key; None"""
    items = key_items(k)
    if not items:
        return None
    n = len(labels)
    for m in range(n + 1):
        if len(items) == 1 and equal(items[0], ("seq", tuple(("B", l) for l in labels[m:]), ety), f, []) is True:
            return "end", m
    # label by label, perhaps with numbers in between
    got = []
    loose = 0
    num = False
    for x in items:
        raw = isinstance(x, tuple) and x and x[0] == "raw"
        if raw:
            x = x[1]
        if isinstance(x, Lin):
            num = True
            continue
        if not (isinstance(x, tuple) and x[0] == "seq"):
            return None
        if x[2] == ety:
            if len(items) != 1:
                return None
            got = [p[1] for p in x[1] if p[0] == "B"]
            if len(got) != len(x[1]):
                return None
            break
        got.append(x)
        if raw and not num:
            loose += 1
        num = False
    at = []
    for x in got:
        j = [j for j, l in enumerate(labels) if equal(x, l, f, []) is True]
        if len(j) != 1:
            return None
        at.append(j[0])
    if at == list(range(n - len(at), n)):
        if loose >= 2:
            return "bad", "names whose labels add up to the same bytes share a table entry"
        if loose == 0 or len(at) == 1:
            return "end", n - len(at)
        return None
    if loose == 0:
        return "bad", "a table entry is kept under labels %s of %s only" % (at, n)
    return None


def events(ev):
    for x in ev:
        if x[0] == "loop":
            for d in x[2]:
                yield from events(d)
        elif x[0] == "reg":
            yield x


def fqdn(R, p):
    e = method(p, "FQDN", "CompressedByteConvertible", "to_bytes_compressed")
    pl = method(p, "FQDN", "ByteConvertible", "to_bytes")
    R.count("names at offsets")
    if fqdn_any(R, p, e, pl):
        return
    fqdn_few(R, p, e)


def fqdn_any(R, p, e, pl):
    """names of any number of labels; True when everything is settled"""
    c = ctx(p, fit=True)
    install(p, c)
    res = []
    with Rules({}):
        try:
            outs = encode_all(c, e, "FQDN")
            c2 = ctx(p, fit=True)
            plain = [b for s, b, v in encode_all(c2, pl, "FQDN")]
        except Budget as x:
            return False
        R.use(c)
        if len(plain) != 1 or plain[0][0] != "seq" or len(plain[0][1]) != 2 or plain[0][1][0][0] != "star" or plain[0][1][1] != ("B", ZERO):
            return False
        _, lo, hi, v, body = plain[0][1][0]
        src = None
        offset = mk_sym(("arg", "offset"), argty(e, 2))
        for s, b, val in outs:
            if b[0] != "seq" or not b[1]:
                return False
            data = [x for x in val[3] if x[0] == "seq"][0]
            term = data[1][0][1]
            ps = b[1]
            if ps[0][0] == "star" and ps[0][1] == lo and ps[0][3] == v and ps[0][4] == body:
                m, tail = ps[0][2], ps[1:]
            else:
                m, tail = ZERO, ps
            if tail == (("B", ZERO),):
                if m != hi:
                    return False
            else:
                k = pointer_key(tail)
                if k is None:
                    return False
                sf = suffix_of(k)
                if len(sf) != 1 or s.facts.norm(sf[0]) != s.facts.norm(("seq", (("Blob", term, m, hi - m),), sf[0][2])):
                    return False
            for _, k, o, fits in events(s.ev):
                sf = suffix_of(k)
                if len(sf) != 1 or len(sf[0][1]) != 1 or sf[0][1][0][0] != "Blob" or sf[0][1][0][1] != term:
                    return False
                at = sf[0][1][0][2]
                if s.facts.norm(sf[0][1][0][3] - hi + at) != ZERO or fits is not True:
                    return False
                want = offset + star_sum(at, v, pieces_len(body)) - star_sum(lo, v, pieces_len(body))
                if s.facts.norm(o - want) != ZERO:
                    return False
            res.append(s)
        for n, s in enumerate(res):
            R.proven("FQDN:bytes, pointer and table entries, way %d" % n, e["span"], "names of any number of labels")
    return bool(res)


def pointer_key(tail):
    """the table key whose offset these two bytes point to"""
    if len(tail) != 2 or tail[0][0] != "B" or tail[1][0] != "B":
        return None
    w = T.from_bits(T.to_bits(tail[1][1], 8) + T.to_bits(tail[0][1], 8)) - 0xC000
    at = w.atom()
    if at is None or at.key[0] != "var" or at.key[1][0] != "pointer":
        return None
    return at.key[1][1]


def fqdn_few(R, p, e, few=5):
    """names of up to five labels, labels and offset arbitrary"""
    sty = p.types[argty(e, 0)]["e"]
    fty = p.types[sty]["v"][0]["f"][0][1]
    lty = p.types[fty]["args"][0] if p.types[fty].get("args") else None
    offset = mk_sym(("arg", "offset"), argty(e, 2))
    decided = True
    for n in range(few + 1):
        with Rules({("arg", "l%d" % j): (1, 63) for j in range(n)}):
            c = ctx(p, fit=True)
            c.insist = True
            install(p, c)
            probe = mk_sym(("arg", "x"), fty)
            ety = probe[2] if probe[0] == "seq" else None
            if ety is None:
                R.undecided("FQDN:labels", "representation of names not recognised", e["span"], "names of up to five labels")
                return
            labels = [mk_sym(("arg", "l%d" % j), ety) for j in range(n)]
            st = State()
            st.mem[("S", 0)] = ("adt", sty, 0, (("seq", tuple(("B", l) for l in labels), ety),))
            st.mem[("N", 0)] = mk_sym(("arg", "names"), p.types[argty(e, 1)]["e"])
            try:
                outs = c.call(e, [("ref", ("S", 0), ()), ("ref", ("N", 0), ()), offset], st, rty(e))
            except Budget as x:
                R.undecided("FQDN:%d labels" % n, str(x), e["span"], "names of up to five labels")
                continue
            R.use(c)

            def enc(ls):
                out = ()
                for l in ls:
                    out += (("B", seq_len(l)),) + l[1]
                return out
            for s, b in outs:
                key = "FQDN:%d labels" % n
                if b[0] != "seq":
                    R.undecided(key, "bytes unknown", e["span"], "names of up to five labels")
                    continue
                verdicts = []
                why = "bytes %s" % show_val(b)[:300]
                for m in range(n + 1):
                    pre = enc(labels[:m])
                    if m == n:
                        verdicts.append(eq_pieces(b[1], norm_pieces(pre + (("B", ZERO),), u8_ty()), s.facts, u8_ty()))
                    if len(b[1]) >= 2:
                        head = eq_pieces(b[1][:-2], norm_pieces(pre, u8_ty()), s.facts, u8_ty())
                        if head is not True:
                            verdicts.append(head)
                            continue
                        k = pointer_key(b[1][-2:])
                        if k is None:
                            # two last bytes that are no pointer from the table
                            verdicts.append(None if T.is_imprecise(b[1][-2:]) else False)
                            continue
                        mean = key_means(k, labels, ety, s.facts)
                        verdicts.append(None if mean is None else mean == ("end", m))
                        if mean is not None and mean != ("end", m):
                            why = "after %d labels of %d a pointer stands for %s" % (m, n, mean[1] if mean[0] == "bad" else "the labels from %d on" % mean[1])
                q = True if any(x is True for x in verdicts) else False if verdicts and all(x is False for x in verdicts) else None
                verdict(R, key + ": bytes", q, s, why, e["span"], "names of up to five labels")
                # table entries
                for _, k, o, fits in events(s.ev):
                    mean = key_means(k, labels, ety, s.facts)
                    if mean is None:
                        R.undecided(key + ": entry", "key of a table entry not recognised", e["span"], "table of names")
                        continue
                    if mean[0] == "bad":
                        verdict(R, key + ": entry", False, s, mean[1], e["span"], "table of names")
                        continue
                    at = mean[1]
                    want = s.facts.norm(offset + pieces_len(enc(labels[:at])))
                    q = same_lin(s.facts, o, want)
                    verdict(R, key + ": entry offset", q, s, "the end of the name after %d labels is written at %s and entered with %s" % (at, show_lin(want)[:150], show_lin(o)[:150]), e["span"], "table of names")
                    if fits is not True:
                        f = s.facts.assume(ge0(o - 0x4000))
                        s2 = s.copy()
                        if f is not None:
                            s2.facts = f
                        verdict(R, key + ": entry range", True if f is None else False, s2, "an offset beyond 14 bits is entered", e["span"], "table of names")
                    else:
                        R.proven(key + ": entry range", e["span"], "table of names")


def final(R, ps, tier):
    R.floor("compressed serialisers", 12 * len(ps))
