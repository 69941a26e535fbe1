"""The cursor over received bytes: what each operation yields, and where it leaves the cursor."""
from api import *
from panic import symbolic_buffer

EXPLAIN = """Every operation of the byte cursor is analysed by abstract interpretation of its MIR on arbitrary bytes, an arbitrary
position within them and arbitrary arguments (up to the largest length the machine can express).  On each path
the success condition, the bytes or number yielded and the position afterwards are compared with the contract:
succeed exactly when enough bytes remain, yield the bytes at the position in network order, move by exactly
what was read, and leave the cursor alone on failure."""
ASSUME = ["the position lies within the data (established by every constructor and kept by every operation: P01 and the obligations here)"]

DATA = ("arg", "bytes")
N = L(T.mk_atom(("var", ("arg", "n")), 0, (1 << 64) - 1))


def ops(p):
    return ["from", "position", "remaining", "as_slice", "set_position", "advance", "peek_bytes", "extract_bytes",
            "extract_u8", "extract_u16", "extract_u32", "extract_character_string", "extract_string", "sub_buffer"]


def units(p, tier):
    return ops(p) + ["extract_u16_as"]


def expect(R, key, s, cond, why, where, rule):
    """cond must hold on this path"""
    q = cond if isinstance(cond, bool) else s.facts.decide(cond)
    s2 = s
    if q is None:
        s2 = s.assume(neg(cond))
        q = True if s2 is None else False if not T.is_imprecise(cond) else None
    verdict(R, key, q, s2 if s2 is not None else s, why, where, rule)


def byte(i):
    return seq_elem(("seq", (("Blob", DATA, ZERO, length(DATA)),), u8_ty()), i, Facts())


def number(s, pos, n):
    v = ZERO
    for k in range(n):
        v = v.scale(256) + at(s, pos + k)
    return v


def at(s, i):
    return seq_elem(("seq", (("Blob", DATA, ZERO, length(DATA)),), u8_ty()), s.facts.norm(i), s.facts)


def bytes_of(c, s, v):
    """a slice or vector as (pieces)"""
    if v[0] == "sl":
        q = c.read(s, v[1], v[2])
        if q[0] != "seq":
            return None
        try:
            return ("seq", tuple(slice_pieces(q[1], s.facts.norm(v[3]), s.facts.norm(v[4]), s.facts, u8_ty())), u8_ty())
        except (Fork, Imprecise):
            return None
    if v[0] == "seq":
        return v
    return None


def view(c, s, v):
    """(first byte, number of bytes) of a slice of the data"""
    if v[0] == "sl":
        q = c.read(s, v[1], v[2])
        if q[0] == "seq" and len(q[1]) == 1 and q[1][0][0] == "Blob" and q[1][0][1] == DATA:
            return s.facts.norm(v[3] + q[1][0][2]), s.facts.norm(v[4])
        b = bytes_of(c, s, v)
        v = b if b is not None else v
    if v[0] == "seq":
        ps = v[1]
        if not ps:
            return ZERO, ZERO
        if len(ps) == 1 and ps[0][0] == "Blob" and ps[0][1] == DATA:
            return ps[0][2], ps[0][3]
        if len(ps) == 1 and ps[0][0] == "star" and False:
            pass
    return None


def cursor(p, s, v):
    """(position, slice) of a cursor value"""
    ty, d, q = buffer_fields(p)
    return v[3][q[0]], v[3][d[0]]


def run_unit(R, p, u, tier):
    c = ctx(p)
    rule = "cursor contract"
    if u == "from":
        return run_from(R, p, c, rule)
    insts = [i for i in p.inherent.get(("DnsBuffer", u), [])]
    if not insts:
        if u != "extract_u16_as":
            R.refuted(u + ":missing", "no such operation", "", rule)
        else:
            R.proven(u, "", "not used")
        return
    for i in insts:
        one(R, p, c, u, i, rule)
    R.use(c)


def one(R, p, c, u, i, rule):
    R.count("operations")
    w = i["span"]
    st = State()
    r, pos, ln = symbolic_buffer(p, st)
    st = st.assume(ge0(ln - pos))
    st.trail = ()
    rem = ln - pos
    args = [r]
    if i["body"]["argc"] == 2:
        args.append(N)
    outs = c.call(i, args, st, rty(i))
    if not outs:
        R.undecided(u, "no outcome", w, rule)
    for s, v in outs:
        b = s.mem[("B", 0)]
        if b[0] != "adt":
            R.undecided(u, "cursor unknown", w, rule)
            continue
        np, sl = cursor(p, s, b)
        vw = view(c, s, sl)
        verdict(R, u + " data", None if vw is None else both(same_lin(s.facts, vw[0]), same_lin(s.facts, vw[1], ln)), s, "%s changes the data under the cursor" % u, w, rule)

        def stays(key="position"):
            verdict(R, "%s %s" % (u, key), same_lin(s.facts, np, pos), s, "%s moves the cursor to %s from %s" % (u, show_lin(s.facts.norm(np))[:80], show_lin(pos)), w, rule)

        def moves(to):
            verdict(R, u + " position", same_lin(s.facts, np, to), s, "%s leaves the cursor at %s instead of %s" % (u, show_lin(s.facts.norm(np))[:80], show_lin(s.facts.norm(to))[:80]), w, rule)

        def yields(val, start, n):
            g = view(c, s, val)
            if g is None:
                x = bytes_of(c, s, val)
                try:
                    want = ("seq", tuple(slice_pieces((("Blob", DATA, ZERO, ln),), s.facts.norm(start), s.facts.norm(n), s.facts, u8_ty())), u8_ty())
                    q = equal(x, want, s.facts, []) if x is not None else None
                except (Fork, Imprecise):
                    q = None
                verdict(R, u + " bytes", q, s, "%s yields %s" % (u, show_val(val)[:120]), w, rule)
                return
            n = s.facts.norm(n)
            q = same_lin(s.facts, g[1], n)
            if q is True and s.facts.decide(eq0(n)) is not True:
                q = same_lin(s.facts, g[0], start)
                if q is False:
                    s1 = s.assume(ge0(n - 1))
                    q = True if s1 is None else same_lin(s1.facts, g[0], start)
            verdict(R, u + " bytes", q, s, "%s yields %s bytes from %s instead of %s from %s" % (u, show_lin(g[1])[:60], show_lin(g[0])[:60], show_lin(n)[:60], show_lin(s.facts.norm(start))[:60]), w, rule)

        if u == "position":
            verdict(R, u, same_lin(s.facts, v, pos), s, "position() is %s" % show_val(v)[:80], w, rule)
            stays("unmoved")
            continue
        if u == "remaining":
            verdict(R, u, same_lin(s.facts, v, rem), s, "remaining() is %s" % show_val(v)[:80], w, rule)
            stays()
            continue
        if u == "as_slice":
            yields(v, ZERO, ln)
            stays()
            continue
        if v[0] != "adt":
            R.undecided(u, "result unknown: %s" % show_val(v)[:100], w, rule)
            continue
        ok = is_ok(v)
        val = v[3][0]
        fixed = {"extract_u8": 1, "extract_u16": 2, "extract_u16_as": 2, "extract_u32": 4}
        if u == "set_position":
            fits = ge0(ln - N)
        elif u in ("advance", "peek_bytes", "extract_bytes", "sub_buffer"):
            fits = ge0(rem - N)
        elif u in fixed:
            fits = ge0(rem - fixed[u])
        else:
            fits = ge0(rem - 1)
            if s.facts.decide(fits) is None:
                for cc in (fits, neg(fits)):
                    s2 = s.assume(cc)
                    if s2 is not None:
                        strings(R, p, c, u, s2, v, ok, val, np, pos, rem, w, rule, moves, yields)
                continue
            strings(R, p, c, u, s, v, ok, val, np, pos, rem, w, rule, moves, yields)
            continue
        if not ok:
            if u == "extract_u16_as" and s.facts.decide(fits) is True:
                R.proven(u + " value", w, rule)     # the number is no code of that kind: P09
                continue
            expect(R, u + " fails only short of bytes", s, neg(fits), "%s fails although enough bytes are there" % u, w, rule)
            stays("position on failure")
            continue
        expect(R, u + " needs the bytes", s, fits, "%s succeeds beyond the end of the data" % u, w, rule)
        s = s.assume(fits)
        if s is None:
            continue
        if u == "set_position":
            moves(N)
        elif u == "advance":
            moves(pos + N)
        elif u == "peek_bytes":
            yields(val, pos, N)
            stays()
        elif u == "extract_bytes":
            yields(val, pos, N)
            moves(pos + N)
        elif u in ("extract_u8", "extract_u16", "extract_u32"):
            verdict(R, u + " value", same_lin(s.facts, val, number(s, pos, fixed[u])), s, "%s yields %s" % (u, show_val(val)[:120]), w, rule)
            moves(pos + fixed[u])
        elif u == "extract_u16_as":
            moves(pos + 2)
        elif u == "sub_buffer":
            stays()
            if val[0] != "adt":
                R.undecided(u + " view", "unknown view", w, rule)
                continue
            p2, s2 = cursor(p, s, val)
            yields(s2, ZERO, pos + N)
            verdict(R, u + " view position", same_lin(s.facts, p2, pos), s, "the view of sub_buffer starts at %s" % show_lin(s.facts.norm(p2))[:80], w, rule)


def both(a, b):
    return False if a is False or b is False else None if a is None or b is None else True


def strings(R, p, c, u, s, v, ok, val, np, pos, rem, w, rule, moves, yields):
    if s.facts.decide(ge0(rem - 1)) is not True:
        expect(R, u + " needs the length", s, not ok, "%s succeeds without a length byte" % u, w, rule)
        return
    n = at(s, pos)
    fits = ge0(rem - 1 - n)
    if not ok:
        if u == "extract_string" and any(utf8(x) for x in s.trail):
            R.proven(u + " text", w, rule)
            return
        expect(R, u + " fails only short of bytes", s, neg(fits), "%s fails although the string is complete" % u, w, rule)
        return
    expect(R, u + " needs the bytes", s, fits, "%s succeeds beyond the end of the data" % u, w, rule)
    s2 = s.assume(fits)
    if s2 is None:
        return
    moves(pos + 1 + n)
    yields(val, pos + 1, n)


def utf8(x):
    return "utf8" in repr(x)


def run_from(R, p, c, rule):
    l = [i for t, l in p.impls.get(("From", "from"), {}).items() if t == "DnsBuffer" for a, i in l]
    R.count("operations")
    if not l:
        R.refuted("from:missing", "no such operation", "", rule)
        return
    i = l[0]
    ln = length(DATA)
    st = State()
    for s, v in c.call(i, [("sl", ("C", ("seq", (("Blob", DATA, ZERO, ln),), u8_ty())), (), ZERO, ln)], st, rty(i)):
        if v[0] != "adt":
            R.undecided("from", "result unknown", i["span"], rule)
            continue
        np, sl = cursor(p, s, v)
        g = view(c, s, sl)
        verdict(R, "from position", same_lin(s.facts, np), s, "a new cursor starts at %s" % show_lin(np)[:80], i["span"], rule)
        verdict(R, "from data", None if g is None else both(same_lin(s.facts, g[0]), same_lin(s.facts, g[1], ln)), s, "a new cursor does not cover the data", i["span"], rule)
    R.use(c)


def final(R, ps, tier):
    R.floor("operations", 14 * len(ps))
