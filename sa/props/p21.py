"""The canonical form of a record set."""
from api import *
from rrsets import *
from seqs import index_atom, mk_star, piece_len

EXPLAIN = """The serialiser of record sets is interpreted abstractly with names and record data as opaque encodings: once on a set with any number of records, where the
bytes must be the repetition of (owner, type, class, TTL, data length, data) over the encodings of all records in sorted order; and on sets of up to three
(thorough four) spelled out records, where on every path, that is for every outcome of the comparisons, the blocks must be a permutation of the records in
ascending byte order. The reordering operation is interpreted on the same spelled out sets."""
ASSUME = ["records of a set have pairwise different data", "data of a record fits the 16-bit length field", "names are written as given (no case folding)"]
RULE = "canonical form: owner, type, class, TTL, length, data of every record, in ascending order of the data"


def units(p, tier):
    return ["any"] + ["%s:%d" % (k, n) for k in ("bytes", "reorder") for n in range(4 if tier == "quick" else 5)]


def u(n, v):
    b = T.bits_or_opaque(v, 64)
    return tuple(("B", T.from_bits(b[8 * k:8 * k + 8])) for k in reversed(range(n)))


def head(c, p, st, vals, fs):
    """owner, type, class and TTL as written before every record; [(state, pieces)]"""
    w = code_writers(p)
    out = []
    for s, tc in run(c, w[type_named(p, "RecordType")], [vals[fs["type"]]], st):
        for s2, cc in run(c, w[type_named(p, "RecordClass")], [vals[fs["class"]]], s):
            nm = vals[fs["name"]]
            nm = c.read(s2, nm[1], nm[2]) if nm[0] == "ref" else nm
            out.append((s2, (("Enc", "FQDN", nm, None),) + u(2, tc) + u(2, cc) + u(4, vals[fs["ttl"]])))
    return out


def run_unit(R, p, unit, tier):
    R.count("units")
    e = method(p, "ResourceRecordSet", "ByteConvertible", "to_bytes")
    if e is None:
        R.refuted("to_bytes", "no serialiser of record sets", "", RULE)
        return
    if unit == "any":
        general(R, p, e)
    else:
        k, n = unit.split(":")
        spelled(R, p, e, int(n)) if k == "bytes" else reorder(R, p, int(n))


def general(R, p, e):
    c = context(p)
    x = start(c, p, e)
    if x is None:
        R.undecided("any set", "cannot tell the parts of a record set apart", e["span"], RULE)
        return
    st, vals, fs = x
    rec = vals[fs["records"]]
    for s0, h in head(c, p, st, vals, fs):
        for s, v in run(c, e, [("ref", ("S", 0), ())], s0):
            R.count("paths")
            f = s.facts
            v = f.norm(v)
            if v[0] != "seq":
                R.undecided("any set", "bytes not represented", e["span"], RULE)
                continue
            so = find_sorted(v)
            if so is None and T.is_imprecise(v):
                R.undecided("any set", "order not represented", e["span"], RULE)
                continue
            q = None
            w = []
            if so is not None and so[1] == "id" and all_records(p, c, s, so[2], rec, fs):
                ix = index_atom()
                d = ("elem", so, L(ix))
                el = elem_val(so, L(ix), bytes_ty(p))
                ln = seq_len(el) if el[0] == "seq" else length(el[1])
                bs = el[1] if el[0] == "seq" else (("Blob", el[1], ZERO, ln),)
                n = pieces_len(so[2])
                want = ("seq", tuple(mk_star(ZERO, n, tuple(h) + u(2, ln) + tuple(bs), ix, u8_ty())), u8_ty())
                q = equal(v, f.norm(want), f, w)
            elif so is None:
                q = False
                w = ["the records are not put in order: %s" % show_val(v)[:200]]
            verdict(R, "any set", q, s, "; ".join(w)[:400], e["span"], RULE)
    R.use(c)


def find_sorted(x):
    if isinstance(x, Lin):
        for a, _ in x.t:
            r = find_sorted(a.key)
            if r is not None:
                return r
        return None
    if isinstance(x, T.Atom):
        return find_sorted(x.key)
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "sorted":
            return x
        for y in x:
            r = find_sorted(y)
            if r is not None:
                return r
    return None


def bytes_ty(p):
    for n, t in enumerate(p.types):
        if t["k"] == "adt" and last(t["def"]) == "Vec" and "u8" in t.get("s", ""):
            return n


def all_records(p, c, s, ps, rec, fs):
    """are the sorted elements the encodings of all the records?"""
    if rec[0] == "seq" and len(rec[1]) == 1 and rec[1][0][0] == "Blob":
        t, ety = rec[1][0][1], rec[2]
    elif rec[0] == "sym":
        t, ety = rec[1], elem_ty(p, rec[2])
    else:
        return False
    if len(ps) != 1 or ps[0][0] != "star":
        return False
    _, lo, hi, v, body = ps[0]
    if lo != ZERO or s.facts.norm(hi) != s.facts.norm(length(t)) or len(body) != 1 or body[0][0] != "B":
        return False
    b = body[0][1]
    if b[0] != "seq" or len(b[1]) != 1 or b[1][0][0] != "Enc" or b[1][0][1] != "RecordData":
        return False
    return b[1][0][2] == target(c, s, elem_val(t, L(v), ety))


def target(c, st, v):
    for _ in range(4):
        if v[0] == "ref":
            v = c.read(st, v[1], v[2])
    return v


def distinct(c, st, es):
    """facts: the encodings of the records differ pairwise"""
    from models import lexcmp, reify
    for a in range(len(es)):
        for b in range(a):
            x, y = enc_of(c, st, es[a]), enc_of(c, st, es[b])
            st = st.assume(neg(eq0(lexcmp(st, reify(c, st, x), reify(c, st, y)))))
    st.trail = ()
    return st


def enc_of(c, st, e):
    return ("seq", (("Enc", "RecordData", target(c, st, e), None),), u8_ty())


def ascending(c, s, es, order):
    """True if the facts say the records are in ascending order of their encodings, False if some pair is known to descend"""
    from models import lexcmp, reify
    r = True
    for a, b in zip(order, order[1:]):
        d = s.facts.norm(lexcmp(s, reify(c, s, enc_of(c, s, es[a])), reify(c, s, enc_of(c, s, es[b]))))
        k = s.facts.decide(ge0(ZERO - d - 1))
        if k is not True:
            r = k if k is not None else None if r is not False else r
    return r


def spelled(R, p, e, n):
    c = context(p)
    c.explicit_order = True
    x = start(c, p, e, elems(p, e, n))
    if x is None:
        R.undecided("set of %d" % n, "cannot tell the parts of a record set apart", e["span"], RULE)
        return
    st, vals, fs = x
    es = elems(p, e, n)
    for s0, h in head(c, p, distinct(c, st, es), vals, fs):
        for s, v in run(c, e, [("ref", ("S", 0), ())], s0):
            R.count("paths")
            f = s.facts
            v = f.norm(v)
            key = "set of %d" % n
            if v[0] != "seq":
                R.undecided(key, "bytes not represented", e["span"], RULE)
                continue
            if T.is_imprecise(v) or find_sorted(v) is not None:
                R.undecided(key, "order not represented", e["span"], RULE)
                continue
            # which record stands in which block
            order = []
            for q in v[1]:
                if q[0] == "Enc" and q[1] == "RecordData":
                    order += [k for k in range(n) if q[2] == target(c, s, es[k])]
            want = ()
            for k in order:
                en = enc_of(c, s, es[k])[1][0]
                want += tuple(h) + u(2, f.norm(piece_len(en))) + (en,)
            w = []
            q = equal(v, f.norm(("seq", want, u8_ty())), f, w)
            verdict(R, key + ": blocks", q, s, "a block is not owner, type, class, TTL, length and data of a record: %s" % "; ".join(w)[:300], e["span"], RULE)
            verdict(R, key + ": every record once", sorted(order) == list(range(n)), s, "records written: %s of %d" % (order, n), e["span"], RULE)
            if sorted(order) == list(range(n)):
                q = ascending(c, s, es, order)
                verdict(R, key + ": ascending", True if q is True else False, s, "the records are written in the order %s whatever their data" % (order,), e["span"], RULE)
    R.use(c)


def reorder(R, p, n):
    i = inherent(p, "ResourceRecordSet", "canonical_reorder")
    if i is None:
        R.undecided("reorder", "no such operation", "", RULE)
        return
    c = context(p)
    c.explicit_order = True
    x = start(c, p, i, elems(p, i, n))
    if x is None:
        R.undecided("reordering %d" % n, "cannot tell the parts of a record set apart", i["span"], RULE)
        return
    st, vals, fs = x
    es = elems(p, i, n)
    for s, r in run(c, i, [("ref", ("S", 0), ())], distinct(c, st, es)):
        R.count("paths")
        key = "reordering %d" % n
        v = s.mem[("S", 0)]
        if v[0] != "adt" or v[3][fs["records"]][0] != "seq" or T.is_imprecise(v) or find_sorted(v) is not None:
            R.undecided(key, "order not represented", i["span"], RULE)
            continue
        order = []
        for q in v[3][fs["records"]][1]:
            order += [k for k in range(n) if q == ("B", es[k])]
        same = all(v[3][k] == vals[k] for k in range(len(vals)) if k != fs["records"])
        verdict(R, key + ": nothing else changes", same, s, "another part of the set is changed", i["span"], RULE)
        verdict(R, key + ": every record once", sorted(order) == list(range(n)) and len(v[3][fs["records"]][1]) == n, s, "records left: %s of %d" % (order, n), i["span"], RULE)
        if sorted(order) == list(range(n)):
            q = ascending(c, s, es, order)
            verdict(R, key + ": ascending", True if q is True else False, s, "the records end up in the order %s whatever their data: %s" % (order, [show_cond(x)[:200] for x in s.trail]), i["span"], RULE)
    R.use(c)


def final(R, ps, tier):
    R.floor("units", 9 * len(ps))
    R.floor("paths", 12 * len(ps))
