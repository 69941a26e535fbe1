"""Abstract values: sequences of pieces, symbolic values of a type, structural equality.

Values are nested tuples (so that `subst` reaches every expression in them):
  Lin                              integer / char
  ("b", cond)                      bool
  ("adt", ty, variant, fields)     struct / enum value
  ("tup", fields) ("clo", ty, fields)
  ("sym", term, ty)                value only known by name (enums, foreign types)
  ("seq", pieces, elemty)          contents of Vec / array / str / String / set / map
  ("ref", cell, path)              thin reference       ("sl", cell, path, start, len) fat reference
  ("fn", inst) ("it", ...)         function item, iterator
  ("top", id)                      nothing known
Pieces:
  ("B", value)                     one element
  ("Blob", term, off, len)         elements off..off+len of the named sequence
  ("star", lo, hi, v, pieces)      concatenation for v in lo..hi
  ("Ite", cond, pieces, pieces)    depending on a condition
  ("Enc", kind, value, ctx)        the encoding of `value` by the (separately checked) encoder `kind`
"""
from terms import *
import terms as T


class Dead(Exception):
    """the path ends here"""


class Fork(Exception):
    """the current instruction needs this condition decided: split the state and retry"""

    def __init__(self, cond):
        self.cond = cond


class Imprecise(Exception):
    pass


PROG = None  # set by Ctx


def set_program(p):
    global PROG
    PROG = p
    _SYM.clear()


# ---------------------------------------------------------------- types
def tk(ty):
    if isinstance(ty, tuple):
        return ty[0]
    return PROG.types[ty]["k"]


def tinfo(ty):
    return PROG.types[ty]


def int_range(ty):
    t = PROG.types[ty]
    if t["k"] == "uint":
        return 0, (1 << t["bits"]) - 1
    if t["k"] == "int":
        return -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
    if t["k"] == "char":
        return 0, 0x10FFFF
    if t["k"] == "bool":
        return 0, 1
    return None


def adt_kind(ty):
    """our classification of std containers"""
    if isinstance(ty, tuple):
        return None
    t = PROG.types[ty]
    if t["k"] != "adt":
        return None
    d = t["def"].split("::")[-1]
    if t["crate"] in ("alloc", "std", "core"):
        if d == "Vec":
            return "vec"
        if d == "String":
            return "string"
        if d in ("BTreeSet", "HashSet", "BinaryHeap", "VecDeque"):
            return "set" if "Set" in d else "vec"
        if d in ("HashMap", "BTreeMap"):
            return "map"
        if d == "Cow":
            a = [x for x in t["args"] if isinstance(x, int)]
            if a and tk(a[0]) == "str":
                return "string"
    return None


def elem_ty(ty):
    t = PROG.types[ty]
    if t["k"] in ("array", "slice"):
        return t["e"]
    if t["k"] == "str":
        return u8_ty()
    k = adt_kind(ty)
    a = [x for x in t["args"] if isinstance(x, int)]
    if k in ("vec", "set"):
        return a[0]
    if k == "string":
        return u8_ty()
    if k == "map":
        return ("kv", a[0], a[1])
    raise KeyError(t["s"])


_u8 = {}


def u8_ty():
    r = _u8.get(id(PROG))
    if r is None:
        r = next(i for i, t in enumerate(PROG.types) if t["k"] == "uint" and t["bits"] == 8)
        _u8.clear()
        _u8[id(PROG)] = r
    return r


def is_byte_ty(ty):
    return not isinstance(ty, tuple) and PROG.types[ty]["k"] == "uint" and PROG.types[ty]["bits"] == 8


def variants(ty):
    return PROG.types[ty].get("v")


# ---------------------------------------------------------------- symbolic values
_SYM = {}
UNIT = ("tup", ())


def fld(term, ty, variant, i):
    v = variants(ty)[variant]
    return ("fld", term, tinfo(ty)["def"], variant, i, v["f"][i][0])


def mk_sym(term, ty):
    k = (term, ty)
    r = _SYM.get(k)
    if r is None:
        r = _mk_sym(term, ty)
        _SYM[k] = r
    return r


def _mk_sym(term, ty):
    if isinstance(ty, tuple):  # ("kv", k, v)
        return ("tup", (mk_sym(("fld", term, "kv", 0, 0, "key"), ty[1]), mk_sym(("fld", term, "kv", 0, 1, "value"), ty[2])))
    t = PROG.types[ty]
    k = t["k"]
    if k == "bool":
        return ("b", ("bv", term))
    if k in ("int", "uint", "char"):
        lo, hi = int_range(ty)
        for r in T.VAL_RULES:
            b = r(term)
            if b is not None:
                lo, hi = max(lo, b[0]), min(hi, b[1])
        return var(term, lo, hi)
    if k == "tuple":
        return ("tup", tuple(mk_sym(("fld", term, "tuple", 0, i, str(i)), f) for i, f in enumerate(t["f"])))
    if k == "array":
        return mk_seq((("Blob", term, ZERO, K(t["n"])),), t["e"])
    if k in ("slice",):
        return mk_seq((("Blob", term, ZERO, length(term)),), t["e"])
    if k == "str":
        s = ("str", term)
        return mk_seq((("Blob", s, ZERO, length(s)),), u8_ty())
    if k in ("ref", "ptr"):
        e = t["e"]
        ek = tk(e)
        if ek == "slice":
            return ("sl", ("d", term, e), (), ZERO, length(term))
        if ek == "str":
            return ("sl", ("d", term, e), (), ZERO, length(("str", term)))
        return ("ref", ("d", term, e), ())
    if k == "adt":
        ak = adt_kind(ty)
        if ak == "string":
            s = ("str", term)
            return mk_seq((("Blob", s, ZERO, length(s)),), u8_ty())
        if ak in ("vec", "set", "map"):
            s = term if ak == "vec" else (ak, term)
            return mk_seq((("Blob", s, ZERO, length(s)),), elem_ty(ty))
        v = t.get("v")
        if v is not None and t["ak"] == "struct":
            return ("adt", ty, 0, tuple(mk_sym(fld(term, ty, 0, i), f[1]) for i, f in enumerate(v[0]["f"])))
        return ("sym", term, ty)
    if k == "closure":
        return ("sym", term, ty)
    if k == "fndef":
        return ("fn", t["inst"])
    return ("sym", term, ty)


def discr_atom(term, ty):
    ds = sorted(v["d"] for v in variants(ty))
    a = mk_atom(("discr", term, ty), ds[0], ds[-1])
    if a not in T.DOM:
        T.DOM[a] = frozenset(ds)
    return a


def _dom(a):
    vs = variants(a.key[2])
    return frozenset(v["d"] for v in vs) if vs else None


T.DOM.make = _dom


def sym_fields(v, variant):
    """fields of a symbolic enum value assumed to be `variant`"""
    _, term, ty = v
    return tuple(mk_sym(fld(term, ty, variant, i), f[1]) for i, f in enumerate(variants(ty)[variant]["f"]))


def variant_by_discr(ty, d):
    for i, v in enumerate(variants(ty)):
        if v["d"] == d:
            return i
    return None


def as_sym(v, ty):
    """the term t with mk_sym(t, ty) == v, or None"""
    c = _guess(v)
    for _ in range(6):
        if c is None or not isinstance(c, tuple):
            return None
        if mk_sym(c, ty) == v:
            return c
        if c[0] == "fld":
            c = c[1]
        elif c[0] in ("str", "set", "map"):
            c = c[1]
        else:
            return None
    return None


def _guess(v):
    if isinstance(v, Lin):
        a = v.atom()
        if a is not None and a.key[0] == "var":
            return a.key[1]
        return None
    k = v[0]
    if k == "b":
        c = v[1]
        if isinstance(c, tuple) and c[0] == "bv":
            return c[1]
        return None
    if k == "sym":
        return v[1]
    if k == "adt":
        for f in v[3]:
            g = _guess(f)
            if g is not None:
                return g
        return None
    if k == "tup":
        for f in v[1]:
            g = _guess(f)
            if g is not None:
                return g
        return None
    if k == "seq":
        if len(v[1]) == 1 and v[1][0][0] == "Blob":
            return v[1][0][1]
        return None
    if k in ("ref", "sl") and isinstance(v[1], tuple) and v[1] and v[1][0] == "d" and v[2] == ():
        return v[1][1]
    return None


# ---------------------------------------------------------------- pieces
def piece_len(p):
    k = p[0]
    if k == "B":
        return ONE
    if k == "Blob":
        return p[3]
    if k == "star":
        _, lo, hi, v, body = p
        b = pieces_len(body)
        return star_sum(hi, v, b) - star_sum(lo, v, b)
    if k == "Ite":
        return mk_ite(p[1], pieces_len(p[2]), pieces_len(p[3]))
    if k == "Enc":
        return enc_len(p)
    raise ValueError(p)


def star_sum(n, v, b):
    """the body of a repetition may bind more than its length does: the sum gets its own bound variable"""
    if v.key[1] > 0:
        d = max_bound(subst(b, {v: ZERO})) + 1
        if d < v.key[1]:
            b = subst(b, {v: L(bound_var(d))})
            v = bound_var(d)
    return mk_sum(n, v, b)


def enc_term(p):
    if isinstance(p[3], tuple) and p[3] and p[3][0] == "pos":
        return ("enc", p[1], p[2], None)
    return ("enc",) + p[1:]


def enc_len(p):
    return length(enc_term(p))


def pieces_len(ps):
    out = ZERO
    for p in ps:
        out = out + piece_len(p)
    return out


def elem_val(term, idx, ty):
    return mk_sym(("elem", term, idx), ty)


def max_bound(x):
    """highest bound variable index in x"""
    m = -1
    if isinstance(x, Lin):
        for a, _ in x.t:
            for d in a.deps:
                if d.key[0] == "bound":
                    m = max(m, d.key[1])
            m = max(m, _bound_in_atom(a))
        return m
    if isinstance(x, Atom):
        return _bound_in_atom(x)
    if isinstance(x, tuple):
        for y in x:
            m = max(m, max_bound(y))
        return m
    return m


_BIA = {}


def _bound_in_atom(a):
    r = _BIA.get(a)
    if r is None:
        r = a.key[1] if a.key[0] == "bound" else max_bound(a.key[1:])
        _BIA[a] = r
    return r


def mk_star(lo, hi, body, ix, ety):
    """pieces for ix in lo..hi of body (ix an index atom occurring in body)"""
    d = max_bound(body) + 1
    v = bound_var(d)
    return norm_pieces((("star", lo, hi, v, subst(body, {ix: L(v)})),), ety)


def mk_sum_ix(n, body, ix):
    d = max_bound(body) + 1
    v = bound_var(d)
    return mk_sum(n, v, subst(body, {ix: L(v)}))


def norm_pieces(ps, ety):
    out = []
    for p in ps:
        p = _norm1(p, ety)
        for q in p:
            if out:
                m = _merge(out[-1], q, ety)
                if m is not None:
                    out[-1] = m
                    continue
            out.append(q)
    return tuple(out)


def _norm1(p, ety):
    k = p[0]
    if k == "B":
        t = as_elem(p[1], ety)
        if t is not None:
            return (("Blob", t[0], t[1], ONE),)
        return (p,)
    if k == "Blob":
        if p[3] == ZERO:
            return ()
        return (p,)
    if k == "star":
        _, lo, hi, v, body = p
        if lo == hi or body == ():
            return ()
        n = (hi - lo).const
        if n is not None and n < 0:
            return ()
        if n is not None and n <= 24:
            out = ()
            for i in range(n):
                out += subst(body, {v: lo + i})
            return norm_pieces(out, ety)
        body = norm_pieces(body, ety)
        if len(body) == 1 and body[0][0] == "Blob" and body[0][3] == ONE and not _has(body[0][1], v):
            off = body[0][2]
            c = off - L(v)
            if not any(v is a or v in a.deps for a, _ in c.t):
                return (("Blob", body[0][1], lo + c, hi - lo),)
        return (("star", lo, hi, v, body),)
    if k == "Ite":
        if p[1] is True:
            return norm_pieces(p[2], ety)
        if p[1] is False:
            return norm_pieces(p[3], ety)
        a, b = norm_pieces(p[2], ety), norm_pieces(p[3], ety)
        if a == b:
            return a
        c = p[1]
        n = neg(c)
        if repr(n) < repr(c):
            c, a, b = n, b, a
        return (("Ite", c, a, b),)
    return (p,)


def _has(x, atom):
    if isinstance(x, Lin):
        return any(a is atom or atom in a.deps for a, _ in x.t)
    if isinstance(x, tuple):
        return any(_has(y, atom) for y in x)
    return x is atom


def as_elem(v, ety):
    t = as_sym(v, ety)
    if t is not None and t[0] == "elem":
        return t[1], t[2]
    return None


def _merge(p, q, ety):
    if p[0] == "Blob" and q[0] == "Blob" and p[1] == q[1] and p[2] + p[3] == q[2]:
        return ("Blob", p[1], p[2], p[3] + q[3])
    if p[0] == "star" and q[0] == "star" and p[2] == q[1] and p[3] is q[3] and p[4] == q[4]:
        return ("star", p[1], q[2], p[3], p[4])
    return None


def mk_seq(pieces, ety):
    return ("seq", norm_pieces(pieces, ety), ety)


def _rebuild_seq(r):
    return mk_seq(r[1], r[2])


def _rebuild_star(r):
    return r


T.REBUILD["seq"] = _rebuild_seq
T.REBUILD["star"] = _rebuild_star


def unsorted_sum(n, v, body):
    r = _unsorted_sum(n, v, body)
    if r is body:
        return None
    ix = index_atom()
    out = ZERO
    r = subst(r, {v: L(ix)})
    for a, k in r.t:
        out = out + mk_sum_ix(n, L(a), ix).scale(k)
    return out + n.scale(r.c)


def _unsorted_sum(n, v, body):
    """the sum over a sorted arrangement is the sum over the elements"""
    for a, k in body.t:
        if a.key[0] == "len" and a.key[1][0] == "elem" and a.key[1][1][0] == "sorted" and a.key[1][2] == L(v):
            ps = a.key[1][1][2]
            if len(ps) == 1 and ps[0][0] == "star" and ps[0][1] == ZERO and ps[0][2] == n and len(ps[0][4]) == 1 and ps[0][4][0][0] == "B":
                x = ps[0][4][0][1]
                if isinstance(x, tuple) and x[0] == "seq":
                    w = seq_len(subst(x, {ps[0][3]: L(v)}))
                    return _unsorted_sum(n, v, body - L(a).scale(k) + w.scale(k))
    return body


T.UNSORTED[0] = unsorted_sum


def seq_len(s):
    return pieces_len(s[1])


# ---------------------------------------------------------------- slicing (needs facts)
def expand_head(ps, facts, ety):
    """make the first piece concrete enough to look at"""
    return ps


def split_at(ps, off, facts, ety, inside=False):
    """(before, after) with len(before) == off; may raise Fork / Imprecise"""
    off = facts.norm(off)
    before = []
    ps = list(ps)
    guard = 0
    while True:
        guard += 1
        if guard > 300:
            raise Imprecise("split guard")
        if off.const == 0:
            return tuple(before), tuple(ps)
        if not ps:
            if facts.decide(eq0(off)) is True:
                return tuple(before), ()
            raise Imprecise("split past end by %r" % (off,))
        p = ps[0]
        ln = facts.norm(piece_len(p))
        d = facts.decide(ge0(off - ln))
        if d is None and facts.decide(eq0(off - ln)) is True:
            d = True
        if d is True:
            before.append(p)
            ps.pop(0)
            off = facts.norm(off - ln)
            continue
        k = p[0]
        if k == "Ite":
            c = facts.decide(p[1])
            if c is None:
                raise Fork(p[1])
            ps[0:1] = list(p[2] if c else p[3])
            continue
        if k == "Blob":
            if d is None:
                raise Fork(ge0(off - ln))
            before.append(("Blob", p[1], p[2], off))
            ps[0] = ("Blob", p[1], p[2] + off, p[3] - off)
            return tuple(before), tuple(ps)
        if k == "star":
            r = split_star(p, off, facts, ety)
            if r is None:
                # empty star or unknown relation
                e = facts.decide(eq0(ln))
                if e is None and facts.decide(eq0(off)) is None:
                    raise Imprecise("cannot locate %r in %s" % (off, "star"))
                raise Imprecise("cannot locate %r in star" % (off,))
            pre, rest, off = r
            before.extend(pre)
            ps[0:1] = rest
            continue
        if k == "Enc" and d is None and inside:
            raise Fork(ge0(off - ln))
        raise Imprecise("cannot split %s at %r of %r" % (k, off, ln))


def split_star(p, off, facts, ety):
    """split the star so that off lies right at (or inside the body after) an iteration boundary"""
    _, lo, hi, v, body = p
    bl = pieces_len(body)
    cands = []
    for a, k in off.t:
        for d in list(a.deps) + [a]:
            if d.key[0] in ("ix", "first") and d not in cands:
                cands.append(d)
    cands = [L(c) for c in cands]
    # the index with constant body length
    if bl.const is not None and bl.const > 0:
        q = [(a, k) for a, k in off.t]
        if all(k % bl.const == 0 for _, k in q):
            cands.append(Lin(off.c // bl.const, tuple((a, k // bl.const) for a, k in q)))
    # rewritten indices: try every index known to the facts
    for a, val in facts.rew.items():
        if a.key[0] in ("ix", "first") and val not in cands:
            cands.append(val)
    cands.append(ZERO)
    seen = []
    for c0 in cands:
        for base in (c0, lo + c0):
            for dlt in (0, 1):
                c = facts.norm(base + dlt)
                if c in seen:
                    continue
                seen.append(c)
                pre = facts.norm(star_sum(c, v, bl) - star_sum(lo, v, bl))
                rest = facts.norm(off - pre)
                in_range = facts.decide(ge0(hi - c - 1)) is True and facts.decide(ge0(c - lo)) is True
                if not in_range:
                    continue
                if facts.decide(ge0(rest)) is not True:
                    continue
                bc = facts.norm(subst(bl, {v: c}))
                if rest.const == 0 or facts.decide(ge0(bc - rest)) is True:
                    b = list(norm_pieces(subst(body, {v: c}), ety))
                    prep = [("star", lo, c, v, body)] if c != lo else []
                    prep = list(norm_pieces(tuple(prep), ety))
                    after = ("star", c + 1, hi, v, body)
                    after = list(norm_pieces((after,), ety))
                    return prep, b + after, rest
    if facts.decide(ge0(hi - lo - 1)) is None:
        raise Fork(ge0(hi - lo - 1))
    return None


def slice_pieces(ps, start, ln, facts, ety, inside=False):
    _, rest = split_at(ps, start, facts, ety, inside)
    mid, _ = split_at(rest, ln, facts, ety, inside)
    return norm_pieces(mid, ety)


def head_piece(ps, facts, ety):
    """first piece of a non-empty sequence, with Ite / star opened; returns (piece, rest)"""
    ps = list(ps)
    for _ in range(50):
        if not ps:
            return None, ()
        p = ps[0]
        if p[0] == "Ite":
            c = facts.decide(p[1])
            if c is None:
                raise Fork(p[1])
            ps[0:1] = list(p[2] if c else p[3])
            continue
        if p[0] == "star":
            _, lo, hi, v, body = p
            c = facts.decide(ge0(hi - lo - 1))
            if c is None:
                raise Fork(ge0(hi - lo - 1))
            if c is False:
                ps.pop(0)
                continue
            b = list(norm_pieces(subst(body, {v: lo}), ety))
            after = list(norm_pieces((("star", lo + 1, hi, v, body),), ety))
            ps[0:1] = b + after
            continue
        if p[0] == "Blob":
            c = facts.decide(ge0(p[3] - 1))
            if c is None:
                raise Fork(ge0(p[3] - 1))
            if c is False:
                ps.pop(0)
                continue
        return p, tuple(ps[1:])
    raise Imprecise("head_piece")


def seq_elem(s, idx, facts):
    _, ps, ety = s
    _, rest = split_at(ps, idx, facts, ety)
    p, _ = head_piece(rest, facts, ety)
    if p is None:
        raise Imprecise("element past the end")
    if p[0] == "B":
        return p[1]
    if p[0] == "Blob":
        return elem_val(p[1], facts.norm(p[2]), ety)
    raise Imprecise("element inside %s" % (p[0],))


def seq_set(s, idx, val, facts):
    _, ps, ety = s
    before, rest = split_at(ps, idx, facts, ety)
    p, tail = head_piece(rest, facts, ety)
    if p is None:
        raise Imprecise("element past the end")
    if p[0] == "B":
        return mk_seq(before + (("B", val),) + tail, ety)
    if p[0] == "Blob":
        t2 = (("Blob", p[1], p[2] + 1, p[3] - 1),) + tail
        return mk_seq(before + (("B", val),) + t2, ety)
    raise Imprecise("element inside %s" % (p[0],))


# ---------------------------------------------------------------- equality under facts
def _simp_val(v, facts):
    return facts.norm(v)


def equal(a, b, facts, why=None):
    """True / False / None.  `why` collects a description of the first difference."""
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        df = facts.resolve(facts.norm(a - b))
        d = facts.decide(eq0(df))
        if d is True:
            return True
        if d is None:
            for at, _ in df.t:
                if at.key[0] in ("ite", "b2i"):
                    rs = []
                    for cc in (at.key[1], neg(at.key[1])):
                        f2 = facts.assume(cc)
                        if f2 is not None:
                            rs.append(equal(df, ZERO, f2, why))
                    if rs:
                        return _all(rs)
        if why is not None:
            why.append("%s vs %s" % (show_lin(a), show_lin(b)))
        if d is False:
            return False
        return _maybe(a, b, facts)
    if isinstance(a, Lin) or isinstance(b, Lin):
        return None
    if a[0] == "b" and b[0] == "b":
        ca, cb = a[1], b[1]
        da, db = facts.decide(ca), facts.decide(cb)
        if da is not None and da == db:
            return True
        if da is not None and db is not None:
            if why is not None:
                why.append("%s vs %s" % (show_cond(ca), show_cond(cb)))
            return False
        f1 = facts.assume(ca)
        f2 = facts.assume(neg(ca)) if ca is not True and ca is not False else None
        r1 = f1 is None or f1.decide(cb) is True
        r2 = f2 is None or f2.decide(cb) is False
        if f1 is not None and f2 is not None and r1 and r2:
            return True
        if why is not None:
            why.append("%s vs %s" % (show_cond(ca), show_cond(cb)))
        if T.is_imprecise(ca) or T.is_imprecise(cb):
            return None
        import sample
        return False if sample.cond_differs(facts, facts.norm(ca), facts.norm(cb)) is True else None
    if a[0] == "sym" and b[0] == "adt":
        a, b = b, a
    if a[0] == "adt" and b[0] == "sym" and b[2] == a[1] and variants(a[1]) is not None:
        da = discr_atom(b[1], b[2])
        d = facts.decide(eq0(L(da) - variants(a[1])[a[2]]["d"]))
        if d is not True:
            if why is not None:
                why.append("%s::%s vs %s" % (tinfo(a[1])["def"].split("::")[-1], variants(a[1])[a[2]]["n"], show_term(b[1])))
            return False if d is False or not T.is_imprecise(b) else None
        b = ("adt", a[1], a[2], sym_fields(b, a[2]))
        return equal(a, b, facts, why)
    if a[0] != b[0]:
        if why is not None:
            why.append("%s vs %s" % (a[0], b[0]))
        return None
    if a[0] == "adt":
        if a[1] != b[1]:
            return None
        if a[2] != b[2]:
            if why is not None:
                why.append("variant %s vs %s" % (variants(a[1])[a[2]]["n"], variants(b[1])[b[2]]["n"]))
            return False
        return _all([equal_named(x, y, facts, why, a[1], a[2], i) for i, (x, y) in enumerate(zip(a[3], b[3]))])
    if a[0] == "tup":
        return _all([equal(x, y, facts, why) for x, y in zip(a[1], b[1])])
    if a[0] == "seq":
        pa, pb = a[1], b[1]
        if isinstance(a[2], tuple):
            # maps are equal whatever order their entries were put in
            pa, pb = T.unho(pa), T.unho(pb)
        return eq_pieces(pa, pb, facts, a[2], why)
    if a[0] == "sym":
        if facts.norm(a) == facts.norm(b):
            return True
        if why is not None:
            why.append("%s vs %s" % (show_term(a[1]), show_term(b[1])))
        return None if T.is_imprecise(a) or T.is_imprecise(b) else False
    if a[0] == "ref":
        return None
    return None


def equal_named(x, y, facts, why, ty, var_, i):
    w = []
    r = equal(x, y, facts, w)
    if r is not True and why is not None:
        why.append("field %s: %s" % (variants(ty)[var_]["f"][i][0], "; ".join(w)))
    return r


def _maybe(a, b, facts):
    """undecided difference of two precise expressions: False when they differ as functions of the input"""
    if T.is_imprecise(a) or T.is_imprecise(b):
        return None
    import sample
    return False if sample.lin_differs(facts, facts.norm(a - b)) is True else None


def _all(rs):
    if any(r is False for r in rs):
        return False
    if any(r is None for r in rs):
        return None
    return True


def simp_pieces(ps, facts, ety):
    out = []
    for p in ps:
        if p[0] == "Ite":
            c = facts.decide(facts.norm(p[1]))
            if c is not None:
                out.extend(simp_pieces(p[2] if c else p[3], facts, ety))
                continue
        if p[0] == "star":
            _, lo, hi, v, body = p
            if facts.decide(eq0(facts.norm(hi - lo))) is True:
                continue
        if p[0] == "Blob" and facts.decide(eq0(facts.norm(p[3]))) is True:
            continue
        out.append(facts.norm(p))
    return norm_pieces(tuple(out), ety)


DEBUG = None


def eq_pieces(ps, qs, facts, ety, why=None, fuel=6):
    if DEBUG is not None:
        print("EQ", fuel, show_pieces(ps), "====", show_pieces(qs))
    ps = simp_pieces(ps, facts, ety)
    qs = simp_pieces(qs, facts, ety)
    if ps == qs:
        return True
    # lock-step
    ps, qs = list(ps), list(qs)
    n = 0
    res = True
    while ps or qs:
        n += 1
        if n > 200:
            return None
        if not ps or not qs:
            rest = ps or qs
            ln = facts.norm(pieces_len(rest))
            d = facts.decide(eq0(ln))
            if d is True:
                return res
            if why is not None:
                why.append("extra %s" % show_pieces(rest))
            return False if (d is False or _maybe(ln, ZERO, facts) is False) else None
        p, q = ps[0], qs[0]
        if p == q:
            ps.pop(0)
            qs.pop(0)
            continue
        if p[0] == "B" and q[0] == "B":
            w = []
            r = equal(p[1], q[1], facts, w)
            if r is not True:
                if why is not None:
                    why.append("element: " + "; ".join(w))
                return r
            ps.pop(0)
            qs.pop(0)
            continue
        if p[0] == "Enc" and q[0] == "Enc" and p[1] == q[1]:
            w = []
            r = equal(p[2], q[2], facts, w)
            if r is True and p[3] is not None and q[3] is not None and p[3] != q[3]:
                r = _all([equal(x, y, facts, w) for x, y in zip(p[3][1:], q[3][1:])])
                if r is not True:
                    if why is not None:
                        why.append("encoded in a different place: " + "; ".join(w))
                    return r
                ps.pop(0)
                qs.pop(0)
                continue
            if r is True and p[3] == q[3]:
                ps.pop(0)
                qs.pop(0)
                continue
            if why is not None:
                why.append("encoded: " + "; ".join(w) + " ctx %s vs %s" % (show_term(p[3]), show_term(q[3])))
            return False if r is False or r is True else None
        if "Blob" in (p[0], q[0]) and {p[0], q[0]} <= {"B", "Blob"}:
            swap = p[0] == "B"
            if p[0] == "Blob" and q[0] == "Blob" and p[1] == q[1] and facts.decide(eq0(p[2] - q[2])) is True:
                d = facts.decide(eq0(p[3] - q[3]))
                if d is True:
                    ps.pop(0)
                    qs.pop(0)
                    continue
                g = facts.decide(ge0(p[3] - q[3]))
                if g is None:
                    if why is not None:
                        why.append("%s vs %s" % (show_pieces([p]), show_pieces([q])))
                    return _maybe(p[3], q[3], facts) if len(ps) == 1 and len(qs) == 1 else None
                if g:
                    ps[0] = ("Blob", p[1], p[2] + q[3], p[3] - q[3])
                    qs.pop(0)
                else:
                    qs[0] = ("Blob", q[1], q[2] + p[3], q[3] - p[3])
                    ps.pop(0)
                continue
            if p[0] == "Blob" and q[0] == "Blob" and p[1][0] == "sorted" and q[1][0] == "sorted" and p[1][1] == q[1][1] and p[2] == ZERO and q[2] == ZERO \
                    and facts.decide(eq0(p[3] - q[3])) is True and eq_pieces(p[1][2], q[1][2], facts, ety) is True:
                ps.pop(0)
                qs.pop(0)
                continue
            if p[0] != q[0]:
                bl, ot = (q, p) if swap else (p, q)
                d = facts.decide(ge0(bl[3] - 1))
                if d is True:
                    e = elem_val(bl[1], bl[2], ety)
                    w = []
                    r = equal(e, ot[1], facts, w)
                    if r is not True:
                        if why is not None:
                            why.append("element: " + "; ".join(w))
                        return r
                    nb = ("Blob", bl[1], bl[2] + 1, bl[3] - 1)
                    if swap:
                        ps.pop(0)
                        qs[0] = nb
                    else:
                        qs.pop(0)
                        ps[0] = nb
                    continue
        if p[0] == "star" and q[0] == "star" and p[3] is q[3] and facts.norm(p[1]) == facts.norm(q[1]) and facts.norm(p[2]) == facts.norm(q[2]):
            f2 = facts
            for c in (ge0(L(p[3]) - p[1]), ge0(p[2] - L(p[3]) - 1)):
                g = f2.assume(c)
                if g is None:
                    break
                f2 = g
            w = []
            r = eq_pieces(p[4], q[4], f2, ety, w)
            if r is True:
                ps.pop(0)
                qs.pop(0)
                continue
            if why is not None:
                why.append("repeated part: " + "; ".join(w))
            return r
        if {p[0], q[0]} == {"star", "Blob"}:
            # element by element: the i-th body is the i-th element of the blob
            sp, bp = (p, q) if p[0] == "star" else (q, p)
            _, lo, hi, v, body = sp
            if facts.norm(pieces_len(body)) == ONE:
                f2 = facts
                for c in (ge0(L(v) - lo), ge0(hi - L(v) - 1)):
                    g = f2.assume(c)
                    f2 = g if g is not None else f2
                cnt = facts.norm(hi - lo)
                if facts.decide(ge0(bp[3] - cnt)) is True and eq_pieces(body, (("Blob", bp[1], bp[2] + L(v) - lo, ONE),), f2, ety) is True:
                    rest = facts.norm(bp[3] - cnt)
                    nb = [] if rest == ZERO else [("Blob", bp[1], facts.norm(bp[2] + cnt), rest)]
                    if p[0] == "star":
                        ps.pop(0)
                        qs[0:1] = nb
                    else:
                        qs.pop(0)
                        ps[0:1] = nb
                    continue
        if p[0] == "Ite" or q[0] == "Ite":
            c = p[1] if p[0] == "Ite" else q[1]
            rs = []
            for cc in (c, neg(c)):
                f2 = facts.assume(cc)
                if f2 is None:
                    continue
                rs.append(eq_pieces(tuple(ps), tuple(qs), f2, ety, why, fuel))
            return _all(rs)
        # a star against something: known non-empty / empty?
        if p[0] == "star" or q[0] == "star":
            st = p if p[0] == "star" else q
            if p[0] == "star" and q[0] == "star":
                # the same progression over two adjacent ranges: cut at the shorter end
                dd = facts.norm(p[2] - q[2])
                if facts.norm(p[1]) == facts.norm(q[1]) and dd.const not in (None, 0) and same_body(p, q):
                    if dd.c > 0:
                        ps[0:1] = [("star", p[1], q[2], p[3], p[4])] + list(norm_pieces((("star", q[2], p[2], p[3], p[4]),), ety))
                    else:
                        qs[0:1] = [("star", q[1], p[2], q[3], q[4])] + list(norm_pieces((("star", p[2], q[2], q[3], q[4]),), ety))
                    if fuel <= 0:
                        return None
                    fuel -= 1
                    continue
            if fuel <= 0:
                return None
            d = facts.decide(ge0(st[2] - st[1] - 1))
            if d is None:
                rs = []
                for cc in (ge0(st[2] - st[1] - 1), ge0(st[1] - st[2])):
                    f2 = facts.assume(cc)
                    if f2 is None:
                        continue
                    rs.append(eq_pieces(tuple(ps), tuple(qs), f2, ety, why if False not in rs else None, fuel - 1))
                return _all(rs) if rs else None
            # non-empty: open it once
            _, lo, hi, v, body = st
            opened = list(norm_pieces(subst(body, {v: lo}), ety)) + list(norm_pieces((("star", lo + 1, hi, v, body),), ety))
            fuel -= 1
            if p[0] == "star":
                ps[0:1] = opened
            else:
                qs[0:1] = opened
            if len(opened) and opened[0] == st:
                return None
            continue
        if why is not None:
            why.append("%s vs %s" % (show_pieces([p]), show_pieces([q])))
        if T.is_imprecise(p) or T.is_imprecise(q):
            return None
        return False
    return res


def same_body(p, q):
    return p[4] == q[4] if p[3] is q[3] else subst(q[4], {q[3]: L(p[3])}) == p[4]


# ---------------------------------------------------------------- display
def show_val(v, depth=0):
    if isinstance(v, Lin):
        return show_lin(v)
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == "b":
        return show_cond(v[1])
    if k == "adt":
        t = tinfo(v[1])
        n = t["def"].split("::")[-1]
        if t["ak"] == "enum":
            n += "::" + variants(v[1])[v[2]]["n"]
        vs = variants(v[1])
        names = [f[0] for f in vs[v[2]]["f"]] if vs else []
        return "%s{%s}" % (n, ", ".join("%s: %s" % (a, show_val(b)) for a, b in zip(names, v[3])))
    if k == "tup":
        return "(%s)" % ", ".join(show_val(x) for x in v[1])
    if k == "clo":
        return "closure(%s)" % ", ".join(show_val(x) for x in v[2])
    if k == "sym":
        return show_term(v[1])
    if k == "seq":
        return show_pieces(v[1])
    if k == "ref":
        return "&%s%s" % (show_cell(v[1]), show_path(v[2]))
    if k == "sl":
        return "&%s%s[%s;%s]" % (show_cell(v[1]), show_path(v[2]), show_lin(v[3]), show_lin(v[4]))
    if k == "fn":
        return "fn#%s" % v[1]
    if k == "it":
        return "it(%s)" % ", ".join(show_val(x) for x in v[1:])
    return str(v)


def show_cell(c):
    if isinstance(c, tuple) and c and c[0] == "d":
        return show_term(c[1])
    return str(c)


def show_path(p):
    return "".join("." + (str(e[1]) if e[0] != "e" else "[%s]" % show_lin(e[1])) for e in p)


def show_pieces(ps):
    out = []
    for p in ps:
        if p[0] == "B":
            out.append(show_val(p[1]))
        elif p[0] == "Blob":
            out.append("%s[%s;%s]" % (show_term(p[1]), show_lin(p[2]), show_lin(p[3])))
        elif p[0] == "star":
            out.append("(%s){$%d=%s..%s}" % (show_pieces(p[4]), p[3].key[1], show_lin(p[1]), show_lin(p[2])))
        elif p[0] == "Ite":
            out.append("if %s {%s} else {%s}" % (show_cond(p[1]), show_pieces(p[2]), show_pieces(p[3])))
        elif p[0] == "Enc":
            out.append("%s<%s>%s" % (p[1], show_val(p[2]), "" if p[3] is None else "@" + show_term(p[3])))
        else:
            out.append(str(p))
    return "[" + " | ".join(out) + "]"
