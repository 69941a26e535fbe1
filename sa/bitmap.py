"""Type bitmaps of NSEC and CSYNC on spelled out sets: what is written, announced and read."""
from api import *
from codec import Contracts
from itertools import combinations

RULE = "window blocks of RFC 4034 section 4.1.2"
STEP = 16


def holders(p):
    """(type name, index of the field with the set of types)"""
    rt = type_named(p, "RecordType")
    out = []
    for n, t in enumerate(p.types):
        if t["k"] == "adt" and t.get("crate") == "maybe_dns" and t.get("ak") == "struct":
            for k, f in enumerate(t["v"][0]["f"]):
                ft = p.types[f[1]]
                if ft["k"] == "adt" and last(ft["def"]) in ("BTreeSet", "Vec") and [a for a in ft["args"] if isinstance(a, int)][:1] == [rt] and decoder(p, last(t["def"])) is not None:
                    out.append((last(t["def"]), n, k))
    return sorted(set(out))


def known(p):
    rt = type_named(p, "RecordType")
    return sorted((v["d"], k) for k, v in enumerate(p.types[rt]["v"]))


def sets(p, tier):
    ks = [c for c, _ in known(p)]
    out = [()] + [(k,) for k in ks] + [tuple(ks)] + [tuple(x for x in ks if x != k) for k in ks[::1 if tier == "thorough" else 5]]
    if tier == "quick":
        hi = [k for k in ks if k > 255]
        out += sorted(set(list(zip(ks, ks[1:])) + [(a, b) for a in ks for b in hi if a < b] + [(ks[0], k) for k in ks[1:]]))
    else:
        out += list(combinations(ks, 2))
    return out


def blocks(codes, pad=False):
    """RFC 4034 section 4.1.2"""
    out = []
    for w in sorted({c >> 8 for c in codes}):
        low = [c & 255 for c in codes if c >> 8 == w]
        n = 32 if pad else max(low) // 8 + 1
        bm = [0] * n
        for x in low:
            bm[x // 8] |= 128 >> x % 8
        out += [w, n] + bm
    return out


def show(codes):
    return "{%s}" % ", ".join(map(str, codes[:6])) + ("..%d" % len(codes) if len(codes) > 6 else "")


def context(p, names=True):
    c = ctx(p, fit=True)
    c.unroll = 300
    c.enum_order = True
    if names:
        Contracts(p, ("FQDN",)).install(c)
    return c


def some(p):
    """a few sets for the properties that are about more than bitmaps"""
    ks = [c for c, _ in known(p)]
    hi = [k for k in ks if k > 255]
    return [()] + [(k,) for k in ks] + [tuple(ks)] + [(ks[0], k) for k in hi] + [(ks[len(ks) // 2], ks[-3])] + [tuple(hi)]


def write(R, p, tn, ty, fi, todo, what=("bytes", "size"), rule=RULE, back=False):
    num = dict(known(p))
    rt = type_named(p, "RecordType")
    for comp in (False, True):
        tr = "CompressedByteConvertible" if comp else "ByteConvertible"
        e = method(p, tn, tr, "to_bytes_compressed" if comp else "to_bytes")
        z = method(p, tn, tr, "byte_size_compressed" if comp else "byte_size")
        if e is None or z is None:
            continue
        for codes in todo:
            R.count("sets written")
            c = context(p)
            st = State()
            v = mk_sym(("arg", "self"), ty)
            fs = list(v[3]) if v[0] == "adt" else list(sym_fields(v, 0))
            pre = prefix(p, ty, fs, fi)
            fs[fi] = ("seq", tuple(("B", ("adt", rt, num[x], ())) for x in codes), rt)
            st.mem[("S", 0)] = ("adt", ty, 0, tuple(fs))
            args = [("ref", ("S", 0), ())]
            if comp:
                st.mem[("M", 0)] = mk_sym(("arg", "names"), p.types[argty(e, 1)]["e"])
                args += [("ref", ("M", 0), ()), L(T.mk_atom(("var", ("arg", "offset")), 0, 65535))]
            key = "%s%s %s" % (tn, " compressed" if comp else "", show(codes))
            want = tuple(("B", K(b)) for b in blocks(codes))
            size = None
            outs = run(c, e, args, st.copy())
            if not outs:
                fails(R, c, key, e, rule)
            for s, r in outs:
                r = s.facts.norm(r)
                if r[0] != "seq" or T.is_imprecise(r):
                    R.undecided(key, "bytes not represented", e["span"], rule)
                    continue
                ps = tuple(r[1])
                size = pieces_len(ps)
                k = next((n for n in range(len(ps) + 1) if n == len(ps) or done(ps[:n], pre)), 0)
                got = ps[k:]
                q = None
                w = []
                if not done(ps[:k], pre):
                    R.undecided(key, "cannot tell the fields before the blocks", e["span"], rule)
                    continue
                if all(x[0] == "B" and isinstance(x[1], Lin) and x[1].const is not None for x in got):
                    q = [x[1].const for x in got] == blocks(codes)
                    if not q:
                        w.append("written %s instead of %s" % (short([x[1].const for x in got]), short(blocks(codes))))
                if "bytes" in what:
                    verdict(R, key, q, s, "; ".join(w), e["span"], rule)
                if back and all(x[0] == "B" and isinstance(x[1], Lin) and x[1].const is not None for x in got):
                    read(R, p, tn, ty, fi, [(codes, [x[1].const for x in got])], rule, " back")
            for s, r in run(c, z, args, st.copy()) if "size" in what else ():
                q = None
                if isinstance(r, Lin) and size is not None:
                    d = s.facts.norm(r - size)
                    q = None if d.const is None else d.const == 0
                verdict(R, key + ": size", q, s, "%s bytes more are announced than are written" % (d.const if q is False else "?"), z["span"], rule)
            R.use(c)


def fails(R, c, key, i, rule):
    if c.panics and all(x.precise for x in c.panics):
        R.refuted(key, "does not return: %s" % c.panics[0].kind, i["span"], rule)
    else:
        R.undecided(key, "no result", i["span"], rule)


def short(bs):
    return str(bs if len(bs) < 12 else bs[:5] + ["..."] + bs[-5:])


def prefix(p, ty, fs, fi):
    """what stands before the blocks: the other fields in order"""
    return [(p.types[f[1]], fs[n]) for n, f in enumerate(p.types[ty]["v"][0]["f"]) if n != fi]


def done(ps, pre):
    """do these pieces encode all the fields before the blocks"""
    n = 0
    for p in ps:
        n += 1 if p[0] == "B" else 0
    names = sum(1 for t, _ in pre if t["k"] == "adt" and last(t["def"]) == "FQDN")
    fixed = sum(t["bits"] // 8 if t["k"] == "uint" else 2 if last(t.get("def", "")) == "Flags" else 0 for t, _ in pre)
    return n == fixed and sum(1 for p in ps if p[0] != "B") == names


def before(p, ty, fi):
    """bytes that stand for the parts before the bitmap"""
    t = p.types[ty]["v"][0]["f"]
    head = ()
    for n, f in enumerate(t):
        if n == fi:
            continue
        ft = p.types[f[1]]
        if ft["k"] == "uint":
            head += tuple(("B", L(T.mk_atom(("var", ("arg", "%s%d" % (f[0], k))), 0, 255))) for k in range(ft["bits"] // 8))
        elif last(ft["def"]) == "FQDN":
            head += (("B", K(0)),)
        else:
            head += (("B", K(0)), ("B", K(0)))
    return head


LONG = (33, 34, 64, 255)


def windows():
    """[(number, bitmap)] with nothing, everything, or only the last bit set, of lengths around and beyond what fits a window"""
    return [(w, m) for w in (0, 1, 255) for n in (1, 31, 32) + LONG for m in ([0] * n, [0] * (n - 1) + [1], [255] + [0] * (n - 1))]


def refuse(R, p, tn, ty, fi, rule=RULE):
    """a window longer than 32 octets is refused"""
    i = decoder(p, tn)
    for w, m in windows():
        if len(m) not in LONG:
            continue
        R.count("blocks read")
        c = context(p, False)
        st = State()
        key = "%s window %d with %d octets, first %d, last %d" % (tn, w, len(m), m[0], m[-1])
        outs = run(c, i, [mk_buffer(p, st, before(p, ty, fi) + tuple(("B", K(b)) for b in [w, len(m)] + m), ZERO)], st)
        if not outs:
            fails(R, c, key, i, rule)
        for s, r in outs:
            if r[0] != "adt":
                R.undecided(key, "result not represented", i["span"], rule)
            else:
                verdict(R, key, variants(r[1])[r[2]]["n"] == "Err", s, "a window longer than 32 octets is accepted", i["span"], rule)
        R.use(c)


def read_panics(R, p, tn, ty, fi):
    """reading a window of any length does not fail"""
    i = decoder(p, tn)
    for w, m in windows():
        c = context(p, False)
        st = State()
        key = "%s window %d with %d octets, first %d, last %d" % (tn, w, len(m), m[0], m[-1])
        outs = run(c, i, [mk_buffer(p, st, before(p, ty, fi) + tuple(("B", K(b)) for b in [w, len(m)] + m), ZERO)], st)
        bad = [x for x in c.panics if x.precise]
        if bad:
            R.refuted(key, "%s fails" % bad[0].kind, i["span"], "no panic")
        elif c.panics or not outs:
            R.undecided(key, "not excluded", i["span"], "no panic")
        else:
            R.proven(key, i["span"], "no panic")
        R.use(c)


def read(R, p, tn, ty, fi, todo, rule=RULE, note=None):
    i = decoder(p, tn)
    num = dict(known(p))
    rt = type_named(p, "RecordType")
    head = before(p, ty, fi)
    for codes, bs in todo:
        R.count("blocks read")
        c = context(p, False)
        st = State()
        key = "%s read %s%s" % (tn, show(codes), note or (" padded" if bs != blocks(codes) else ""))
        unknown = [x for x in codes if x not in num]
        outs = run(c, i, [mk_buffer(p, st, head + tuple(("B", K(b)) for b in bs), ZERO)], st)
        if not outs:
            fails(R, c, key, i, rule)
        for s, r in outs:
            if r[0] != "adt":
                R.undecided(key, "result not represented", i["span"], rule)
                continue
            if variants(r[1])[r[2]]["n"] == "Err":
                verdict(R, key, bool(unknown), s, "the blocks of known types are refused", i["span"], rule)
                continue
            v = r[3][0]
            if unknown:
                verdict(R, key, False, s, "a bit that stands for no known type is accepted", i["span"], rule)
                continue
            x = v[3][fi] if v[0] == "adt" else None
            if x is None or x[0] != "seq" or not all(e[0] == "B" and e[1][0] == "adt" for e in x[1]):
                R.undecided(key, "set not represented", i["span"], rule)
                continue
            got = sorted({p.types[rt]["v"][e[1][2]]["d"] for e in x[1]})
            verdict(R, key, got == sorted(codes), s, "read as %s" % show(got), i["span"], rule)
        R.use(c)


def panics(R, p, tn, ty, fi, todo):
    """no operation on the set fails"""
    num = dict(known(p))
    rt = type_named(p, "RecordType")
    for comp in (False, True):
        tr = "CompressedByteConvertible" if comp else "ByteConvertible"
        for m in ("to_bytes", "byte_size"):
            i = method(p, tn, tr, m + "_compressed" if comp else m)
            for codes in todo if i is not None else ():
                R.count("sets")
                c = context(p)
                st = State()
                v = mk_sym(("arg", "self"), ty)
                fs = list(v[3]) if v[0] == "adt" else list(sym_fields(v, 0))
                fs[fi] = ("seq", tuple(("B", ("adt", rt, num[x], ())) for x in codes), rt)
                st.mem[("S", 0)] = ("adt", ty, 0, tuple(fs))
                args = [("ref", ("S", 0), ())]
                if comp:
                    st.mem[("M", 0)] = mk_sym(("arg", "names"), p.types[argty(i, 1)]["e"])
                    args += [("ref", ("M", 0), ()), L(T.mk_atom(("var", ("arg", "offset")), 0, 65535))]
                key = "%s::%s %s" % (tn, m, show(codes))
                outs = run(c, i, args, st)
                bad = [x for x in c.panics if x.precise]
                if bad:
                    R.refuted(key + ": panic", "%s fails" % bad[0].kind, i["span"], "no panic")
                elif c.panics or not outs:
                    R.undecided(key + ": panic", "not excluded", i["span"], "no panic")
                else:
                    R.proven(key + ": panic", i["span"], "no panic")
                R.use(c)
