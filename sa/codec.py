"""Encoders and decoders as abstract functions: running them on symbolic values, and the
assume/guarantee contracts that stand for an already analysed nested encoder/decoder pair."""
from lib import *


def pattern(t):
    """a term with every index forgotten"""
    if isinstance(t, Lin):
        return "*" if t.const is None else t.const
    if isinstance(t, tuple):
        return tuple(pattern(x) for x in t)
    return t


def scan_lengths(x, out):
    """widths with which lengths are written: {length term pattern: bits}"""
    if isinstance(x, Lin):
        for a, _ in x.t:
            scan_lengths(a, out)
    elif isinstance(x, Atom):
        k = x.key
        if k[0] == "bits" and k[1].key[0] == "len":
            p = pattern(k[1].key[1])
            out[p] = max(out.get(p, 0), k[2] + k[3])
            return
        if k[0] == "val" and k[2].atom() is not None and k[2].atom().key[0] == "len":
            p = pattern(k[2].atom().key[1])
            out[p] = max(out.get(p, 0), k[1])
            return
        if k[0] == "trunc":
            out.setdefault("trunc", set()).add((k[1], k[2], x))
            return
        for y in k[1:]:
            scan_lengths(y, out)
    elif isinstance(x, tuple):
        for y in x:
            scan_lengths(y, out)


def scan_written(ps, out):
    for p in ps:
        if p[0] == "B":
            scan_lengths(p[1], out)
        elif p[0] == "star":
            scan_written(p[4], out)
        elif p[0] == "Ite":
            scan_written(p[2], out)
            scan_written(p[3], out)


class Rules:
    """length assumptions in force while a block runs"""

    def __init__(self, table):
        self.table = table

    def __enter__(self):
        self.saved = list(T.LEN_RULES)
        tb = self.table

        def rule(t):
            if t[0] == "enc":
                k = t[1].rstrip("~")
                hi = tb.get(pattern(t), (0, T.LEN_MAX))[1]
                if k == "Header":
                    return (12, 12)
                return ({"Param": 4, "RecordData": 0}.get(k, 1), hi)
            return tb.get(pattern(t))
        T.LEN_RULES[:] = [rule] + self.saved
        T.reset_lengths()
        return self

    def __exit__(self, *a):
        T.LEN_RULES[:] = self.saved
        T.reset_lengths()


def self_ref(ty, name="self"):
    return ("ref", ("d", ("arg", name), ty), ())


def run_encode(c, enc, st=None):
    sty = c.prog.types[argty(enc, 0)]["e"]
    return c.call(enc, [self_ref(sty)], st or State(), rty(enc)), sty


def is_ok(v):
    return v[0] == "adt" and tinfo(v[1])["v"][v[2]]["n"] == "Ok"


# ---------------------------------------------------------------- contracts
def read_self(c, st, a):
    """the value behind a reference argument"""
    while isinstance(a, tuple) and a and a[0] == "ref":
        a = c.read(st, a[1], a[2])
    return st.facts.norm(a)


def ok_val(r, v):
    vs = tinfo(r)["v"]
    i = [n for n, x in enumerate(vs) if x["n"] == "Ok"][0]
    return ("adt", r, i, (v,))


def enc_piece(kind, v, cx=None):
    return ("Enc", kind, v, cx)


def open_first(rest, facts):
    """empty repetitions dropped, the first element of a non-empty one written out"""
    while rest and rest[0][0] == "star":
        _, lo, hi, v, body = rest[0]
        n = facts.norm(hi - lo)
        if facts.decide(eq0(n)) is True:
            rest = rest[1:]
        elif facts.decide(ge0(n - 1)) is True:
            rest = tuple(norm_pieces(subst(body, {v: lo}), u8_ty())) + tuple(norm_pieces((("star", lo + 1, hi, v, body),), u8_ty())) + tuple(rest[1:])
        else:
            break
    return rest


HAVOC = ("FQDN", "Question", "ResourceRecord", "Header")


def havoc_decode(c, st, b, bv, sl, pos, q, r):
    """parsing bytes that are not known to be an encoding: anything may come out"""
    flag = ("bv", ("?", fresh_id(), "parse of other bytes"))
    out = []
    for nm, cc in (("Ok", flag), ("Err", neg(flag))):
        s = st.assume(cc)
        if nm == "Err":
            # wherever the cursor stood, it is not moved past the end of the bytes by an attempt that fails
            inside = s.assume(ge0(sl[4] - pos))
            if inside is None:
                vs = tinfo(r)["v"]
                i = [n for n, x in enumerate(vs) if x["n"] == nm][0]
                out.append((s, ("adt", r, i, (mk_sym(fresh_term("parsed"), vs[i]["f"][0][1]),))))
                continue
        np = L(gen_atom(0, T.LEN_MAX, True))
        s = s.assume(ge0(np - pos - (1 if nm == "Ok" else 0)))
        if s is None:
            continue
        s = s.assume(ge0(s.facts.norm(sl[4] - np)))
        if s is None:
            continue
        fs = list(bv[3])
        fs[q] = np
        c.write(s, b[1], b[2], ("adt", bv[1], bv[2], tuple(fs)))
        vs = tinfo(r)["v"]
        i = [n for n, x in enumerate(vs) if x["n"] == nm][0]
        out.append((s, ("adt", r, i, (mk_sym(fresh_term("parsed"), vs[i]["f"][0][1]),))))
    return out


def polluted(x):
    if isinstance(x, tuple):
        return x == ("polluted",) or any(polluted(y) for y in x)
    return False


class Contracts:
    """kind -> what stands for its encoder, its size and its decoder"""

    def __init__(self, prog, kinds, plain=True, compressed=True, decode=True, pos=False):
        self.prog = prog
        self.pos = pos          # compressed encodings told apart by where they stand only
        self.uses = {}
        self.table = {}
        self.windows = []
        self.types_read = []
        for k in kinds:
            m = method(prog, k, "ByteConvertible", "to_bytes")
            if m and plain:
                self.table[m["name"]] = self.mk_enc(k)
            m = method(prog, k, "ByteConvertible", "byte_size")
            if m and plain:
                self.table[m["name"]] = self.mk_size(k)
            m = method(prog, k, "CompressedByteConvertible", "to_bytes_compressed")
            if m and compressed:
                self.table[m["name"]] = self.mk_encc(k)
            m = method(prog, k, "CompressedByteConvertible", "byte_size_compressed")
            if m and compressed:
                self.table[m["name"]] = self.mk_sizec(k)
            if decode:
                m = decoder(prog, k)
                if m:
                    self.table[m["name"]] = self.mk_dec(k)
                if k == "FQDN":
                    m = inherent(prog, "DnsBuffer", "extract_fqdn")
                    if m:
                        self.table[m["name"]] = self.mk_dec(k)

            if decode and k == "RecordData":
                m = inherent(prog, "RecordData", "from")
                if m:
                    self.table[m["name"]] = self.mk_dec(k, 1)

    def install(self, c):
        c.contracts.update(self.table)

    def used(self, what):
        self.uses[what] = self.uses.get(what, 0) + 1

    def window(self, c, st, k, room, r):
        self.windows.append((st, k, room, [x[0] for x in c.stack]))
        if k != "RecordData":
            return None
        vs = tinfo(r)["v"]
        out = []
        flag = ("bv", ("?", fresh_id(), "parse of a wrong window"))
        for i, x in enumerate(vs):
            s = st.assume(flag if x["n"] == "Ok" else neg(flag))
            out.append((s, ("adt", r, i, (mk_sym(fresh_term("parsed"), x["f"][0][1]),))))
        return out

    def mk_enc(self, k):
        def f(c, st, inst, args, r):
            self.used(k + " encode")
            v = read_self(c, st, args[0])
            return [(st, ("seq", (enc_piece(k, v),), u8_ty()))]
        return f

    def mk_size(self, k):
        def f(c, st, inst, args, r):
            self.used(k + " size")
            v = read_self(c, st, args[0])
            return [(st, S.enc_len(enc_piece(k, v)))]
        return f

    def names(self, c, st, a):
        m = read_self(c, st, a)
        return m

    def mk_encc(self, k):
        def f(c, st, inst, args, r):
            self.used(k + " compressed encode")
            v = read_self(c, st, args[0])
            nm = read_self(c, st, args[1])
            off = st.facts.norm(c.as_int(args[2]))
            if self.pos:
                # the table of names is only followed as far as telling whether it was written to without output
                return [(st, ("seq", (enc_piece(k + "~", v, ("pos", off, polluted(nm))),), u8_ty()))]
            cx = ("cx", nm, off)
            st = st.copy()
            c.write(st, args[1][1], args[1][2], mk_sym(("names", k, v, cx), c.prog.types[argty(inst, 1)]["e"]))
            return [(st, ("seq", (enc_piece(k + "~", v, cx),), u8_ty()))]
        return f

    def mk_sizec(self, k):
        def f(c, st, inst, args, r):
            self.used(k + " compressed size")
            v = read_self(c, st, args[0])
            nm = read_self(c, st, args[1])
            off = st.facts.norm(c.as_int(args[2]))
            if self.pos:
                st = st.copy()
                c.write(st, args[1][1], args[1][2], mk_sym(("polluted",), c.prog.types[argty(inst, 1)]["e"]))
                return [(st, S.enc_len(enc_piece(k + "~", v, ("pos", off, False))))]
            cx = ("cx", nm, off)
            st = st.copy()
            c.write(st, args[1][1], args[1][2], mk_sym(("names", k, v, cx), c.prog.types[argty(inst, 1)]["e"]))
            return [(st, S.enc_len(enc_piece(k + "~", v, cx)))]
        return f

    def mk_dec(self, k, arg=0):
        ty, d, q = buffer_fields(self.prog)

        def f(c, st, inst, args, r):
            b = args[arg]
            while True:
                bv = c.read(st, b[1], b[2])
                if bv[0] == "ref":
                    b = bv
                    continue
                break
            if bv[0] != "adt":
                return None
            sl, pos = bv[3][d[0]], bv[3][q[0]]
            try:
                s = c.read(st, sl[1], sl[2])
                _, rest = split_at(s[1], st.facts.norm(pos + sl[3]), st.facts, u8_ty())
            except (Fork, Imprecise):
                return havoc_decode(c, st, b, bv, sl, pos, q[0], r) if k in HAVOC else None
            rest = open_first(rest, st.facts)
            if not rest or rest[0][0] != "Enc" or rest[0][1] not in (k, k + "~"):
                return havoc_decode(c, st, b, bv, sl, pos, q[0], r) if k in HAVOC else None
            ln = S.enc_len(rest[0])
            self.used(k + " decode")
            out = []
            tail = st.facts.norm(pieces_len(s[1]) - sl[3] - sl[4])
            room = st.facts.norm(pieces_len(rest[1:]) - tail)
            # what follows the encoding has a length, so there is room whenever the slice is the whole sequence
            if st.facts.decide(eq0(tail)) is not True and st.facts.decide(ge0(room)) is not True:
                return self.window(c, st, k, room, r) or (havoc_decode(c, st, b, bv, sl, pos, q[0], r) if k in HAVOC else None)
            if k == "RecordData":
                # the data of a record is everything its window holds, read under the type it was written with
                if st.facts.decide(eq0(room)) is not True:
                    return self.window(c, st, k, room, r)
                self.types_read.append((st, args[0], rest[0]))
            st = st.copy()
            fs = list(bv[3])
            fs[q[0]] = st.facts.norm(pos + ln)
            c.write(st, b[1], b[2], ("adt", bv[1], bv[2], tuple(fs)))
            return [(st, ok_val(r, rest[0][2]))]
        return f
