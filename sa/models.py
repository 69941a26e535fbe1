"""Summaries of library functions (std collections, integers, strings, iterators, crypto crates).

Each summary maps abstract arguments to abstract outcomes.  Functions of third-party crates are
uninterpreted: the result is named by the function and its arguments.
"""
import re
from terms import *
import terms as T
from seqs import *
import seqs as S
from interp import fresh_term, top, State, get_at

EXACT = {}
REGEX = []


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def rmodel(*pats):
    def d(f):
        for p in pats:
            REGEX.append((re.compile(p + r"$"), f))
        return f
    return d


PURE_CRATES = ("core", "alloc", "std")


class Models:
    def __init__(self):
        self.cache = {}

    def find(self, inst):
        d = inst["def"]
        if inst["crate"] == S.PROG.crate:
            return None
        if d in self.cache:
            return self.cache[d]
        f = EXACT.get(d)
        if f is None:
            for r, g in REGEX:
                if r.match(d):
                    f = g
                    break
        if f is None and "body" not in inst and inst["crate"] not in PURE_CRATES:
            f = foreign
        self.cache[d] = f
        return f


# ---------------------------------------------------------------- helpers
def deref(ctx, st, v):
    if v[0] == "ref":
        return ctx.read(st, v[1], v[2])
    if v[0] == "sl":
        ps, ety = pieces(ctx, st, v)
        return ("seq", ps, ety)
    if v[0] == "box":
        return ctx.read(st, v[1], ())
    raise Imprecise("deref of %s" % (v[0],))


def deref_all(ctx, st, v):
    for _ in range(4):
        if isinstance(v, tuple) and v and v[0] in ("ref", "sl", "box"):
            v = deref(ctx, st, v)
        else:
            break
    return v


def to_slice(ctx, st, v):
    """fat pointer for &[T], &Vec<T>, &[T;N], &str, &String, &&.."""
    for _ in range(4):
        if v[0] == "sl":
            return v
        if v[0] == "ref":
            w = ctx.read(st, v[1], v[2])
            if isinstance(w, tuple) and w[0] == "seq":
                return ("sl", v[1], v[2], ZERO, seq_len(w))
            if isinstance(w, tuple) and w[0] in ("ref", "sl"):
                v = w
                continue
            if isinstance(w, tuple) and w[0] == "adt" and len(w[3]) == 1 and isinstance(w[3][0], tuple) and w[3][0][0] == "seq":
                return ("sl", v[1], v[2] + (("f", 0),), ZERO, seq_len(w[3][0]))
            raise Imprecise("slice of %s" % (w[0] if isinstance(w, tuple) else "int"))
        if v[0] == "box":
            v = ("ref", v[1], ())
            continue
        break
    raise Imprecise("not a slice: %s" % (v[0] if isinstance(v, tuple) else "int",))


def pieces(ctx, st, sl):
    s = ctx.read(st, sl[1], sl[2])
    if not isinstance(s, tuple) or s[0] != "seq":
        raise Imprecise("slice base is %s" % (s[0] if isinstance(s, tuple) else "int"))
    start, ln = st.facts.norm(sl[3]), st.facts.norm(sl[4])
    if start == ZERO and ln == st.facts.norm(seq_len(s)):
        return s[1], s[2]
    return slice_pieces(s[1], start, ln, st.facts, s[2]), s[2]


def bytes_of(ctx, st, v):
    """pieces of any sequence-like argument"""
    if v[0] == "seq":
        return v[1], v[2]
    sl = to_slice(ctx, st, v)
    return pieces(ctx, st, sl)


def new_cell(st, v):
    c = ("T", fresh_id())
    st.mem[c] = v
    return c


def elem_ref(sl, ix):
    return ("ref", sl[1], sl[2] + (("e", sl[3] + ix),))


def vname(ty, name):
    for i, v in enumerate(variants(ty)):
        if v["n"] == name:
            return i
    raise KeyError(name)


def mkv(ty, name, *fs):
    return ("adt", ty, vname(ty, name), tuple(fs))


def some(ty, v):
    return mkv(ty, "Some", v)


def none(ty):
    return mkv(ty, "None")


def payload_ty(ty, name, i=0):
    return variants(ty)[vname(ty, name)]["f"][i][1]


def option_split(ctx, st, v):
    """[(st, payload or None)] for an Option value"""
    if v[0] == "adt":
        n = variants(v[1])[v[2]]["n"]
        return [(st, v[3][0] if n == "Some" else None)]
    if v[0] == "sym":
        a = discr_atom(v[1], v[2])
        out = []
        s = st.assume(eq0(L(a) - variants(v[2])[vname(v[2], "Some")]["d"]))
        if s is not None:
            out.append((s, sym_fields(v, vname(v[2], "Some"))[0]))
        s = st.assume(eq0(L(a) - variants(v[2])[vname(v[2], "None")]["d"]))
        if s is not None:
            out.append((s, None))
        return out
    raise Imprecise("option_split %s" % (v[0],))


def sizes(ctx, st, v, w):
    return ctx.untrunc(st, v, w)


def emit(ctx, st, v, ety):
    if isinstance(v, Lin) and is_byte_ty(ety):
        return ctx.untrunc(st, v, 8)
    return v


def reify(ctx, st, v, depth=0):
    """a memory independent description of a value"""
    if depth > 12:
        return ("deep",)
    if isinstance(v, Lin) or not isinstance(v, tuple) or not v:
        return v
    k = v[0]
    if k in ("ref", "sl", "box"):
        try:
            return reify(ctx, st, deref(ctx, st, v), depth + 1)
        except Imprecise:
            return fresh_term("reify")
    if k == "adt":
        return ("adt", v[1], v[2], tuple(reify(ctx, st, x, depth + 1) for x in v[3]))
    if k == "tup":
        return ("tup", tuple(reify(ctx, st, x, depth + 1) for x in v[1]))
    if k == "seq":
        return ("seq", tuple(("B", reify(ctx, st, p[1], depth + 1)) if p[0] == "B" else p for p in v[1]), v[2])
    if k == "top":
        return ("?", v[1], "top")
    if k == "clo":
        return ("clo", v[1], tuple(reify(ctx, st, x, depth + 1) for x in v[2]))
    return v


# ---------------------------------------------------------------- Vec / String construction
@rmodel(r"std::vec::Vec::<T(, A)?>::(new|with_capacity)", r"<std::vec::Vec<T> as std::default::Default>::default",
        r"std::string::String::(new|with_capacity)", r"<std::string::String as std::default::Default>::default",
        r"std::collections::(BTreeSet|HashSet)::<T(, \w+)*>::new", r"<std::collections::(BTreeSet|HashSet)<T.*> as std::default::Default>::default",
        r"std::collections::(HashMap|BTreeMap)::<K, V(, \w+)*>::(new|with_capacity)", r"<std::collections::(HashMap|BTreeMap)<.*> as std::default::Default>::default")
def m_new(ctx, st, inst, args, rty):
    return [(st, ("seq", (), elem_ty(rty)))]


@model("std::vec::from_elem")
def m_from_elem(ctx, st, inst, args, rty):
    v, n = args
    n = st.facts.norm(n)
    ety = elem_ty(rty)
    ix = index_atom()
    return [(st, ("seq", mk_star(ZERO, n, (("B", v),), ix, ety), ety))]


@rmodel(r"<std::(vec::Vec|string::String|collections::BTreeSet|collections::HashMap|collections::HashSet|collections::BTreeMap).* as std::clone::Clone>::clone", r"std::array::<impl std::clone::Clone for \[T; N\]>::clone",
        r"<std::net::Ipv\dAddr as std::clone::Clone>::clone", r"std::slice::<impl \[T\]>::(to_vec|to_owned|into_vec)",
        r"<std::string::String as std::convert::From<&str>>::from", r"std::str::<impl std::borrow::ToOwned for str>::to_owned",
        r"std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned", r"std::string::String::into_bytes",
        r"std::str::<impl str>::to_owned", r"<std::vec::Vec<T> as std::convert::From<.*>>::from", r"std::borrow::Cow::<.*>::into_owned",
        r"<std::borrow::Cow<.*> as std::clone::Clone>::clone")
def m_clone(ctx, st, inst, args, rty):
    v = args[0]
    if v[0] in ("ref", "sl"):
        v = deref(ctx, st, v)
        if v[0] in ("ref", "sl"):
            v = deref(ctx, st, v)
    return [(st, v)]


@rmodel(r"<T as std::string::ToString>::to_string", r"std::string::ToString::to_string")
def m_to_string(ctx, st, inst, args, rty):
    v = deref_all(ctx, st, args[0])
    if isinstance(v, tuple) and v[0] == "seq":
        return [(st, v)]
    t = ("str", ("app", "to_string", reify(ctx, st, v)))
    return [(st, ("seq", (("Blob", t, ZERO, length(t)),), u8_ty()))]


@rmodel(r"std::vec::Vec::<T(, A)?>::push", r"std::collections::VecDeque::<T(, A)?>::push_back")
def m_push(ctx, st, inst, args, rty):
    r, v = args
    s = deref(ctx, st, r)
    if s[0] != "seq":
        raise Imprecise("push on %s" % s[0])
    v = emit(ctx, st, v, s[2])
    ctx.write(st, r[1], r[2], mk_seq(s[1] + (("B", v),), s[2]))
    return [(st, UNIT)]


@rmodel(r"std::string::String::push")
def m_push_char(ctx, st, inst, args, rty):
    r, v = args
    s = deref(ctx, st, r)
    if v.const is None or v.const > 127:
        raise Imprecise("push char")
    ctx.write(st, r[1], r[2], mk_seq(s[1] + (("B", v),), s[2]))
    return [(st, UNIT)]


@rmodel(r"std::vec::Vec::<T(, A)?>::(extend_from_slice)", r"std::string::String::push_str")
def m_extend_slice(ctx, st, inst, args, rty):
    r, v = args
    s = deref(ctx, st, r)
    if s[0] != "seq":
        raise Imprecise("extend on %s" % s[0])
    ps, _ = bytes_of(ctx, st, v)
    ctx.write(st, r[1], r[2], mk_seq(s[1] + ps, s[2]))
    return [(st, UNIT)]


@rmodel(r"std::vec::Vec::<T(, A)?>::append")
def m_append(ctx, st, inst, args, rty):
    r, v = args
    s, o = deref(ctx, st, r), deref(ctx, st, v)
    if s[0] != "seq" or o[0] != "seq":
        raise Imprecise("append")
    ctx.write(st, r[1], r[2], mk_seq(s[1] + o[1], s[2]))
    ctx.write(st, v[1], v[2], ("seq", (), o[2]))
    return [(st, UNIT)]


@rmodel(r"std::vec::Vec::<T(, A)?>::(clear)", r"std::string::String::clear")
def m_clear(ctx, st, inst, args, rty):
    s = deref(ctx, st, args[0])
    ctx.write(st, args[0][1], args[0][2], ("seq", (), s[2]))
    return [(st, UNIT)]


@rmodel(r"std::vec::Vec::<T(, A)?>::(reserve|reserve_exact|shrink_to_fit)", r"std::string::String::(reserve|shrink_to_fit)")
def m_nop(ctx, st, inst, args, rty):
    return [(st, UNIT)]


@rmodel(r"std::vec::Vec::<T(, A)?>::insert")
def m_insert(ctx, st, inst, args, rty):
    r, ix, v = args
    s = deref(ctx, st, r)
    ln = seq_len(s)
    st = ctx.require(st, ge0(st.facts.norm(ln - ix)), "Vec::insert index")
    if st is None:
        return []
    at = ix.atom()
    if at is not None and at.key[0] == "var" and at.key[1][0] == "bspos":
        inner = unsorted(s[1])
        if inner is not None and at.key[1][1] == st.facts.norm(s) and at.key[1][2] == reify(ctx, st, v):
            ctx.write(st, r[1], r[2], ("seq", sorted_pieces(ctx, st, norm_pieces(inner + (("B", v),), s[2]), s[2], "id"), s[2]))
            return [(st, UNIT)]
    b, a = split_at(s[1], ix, st.facts, s[2])
    ctx.write(st, r[1], r[2], mk_seq(b + (("B", v),) + a, s[2]))
    return [(st, UNIT)]


def unsorted(ps):
    """the elements of a sequence known to be sorted, in some order"""
    if not ps or len(ps) == 1 and ps[0][0] == "B":
        return ps
    if len(ps) == 1 and ps[0][0] == "Blob" and ps[0][2] == ZERO:
        t = ps[0][1]
        if t[0] == "sorted" and t[1] == "id" and pieces_len(t[2]) == ps[0][3]:
            return t[2]
        if t[0] in ("genv", "loop", "genseq") or "gen" in str(t[0]):
            return ps
    return None


@rmodel(r"core::slice::<impl \[T\]>::binary_search")
def m_bsearch(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    ps, ety = pieces(ctx, st, sl)
    if explicit(ctx, ps):
        for n, p in enumerate(ps):
            d = compare(ctx, st, p[1], args[1])
            if d >= 0:
                return [(st, ("adt", rty, vname(rty, "Ok" if d == 0 else "Err"), (K(n),)))]
        return [(st, ("adt", rty, vname(rty, "Err"), (K(len(ps)),)))]
    k = reify(ctx, st, deref(ctx, st, args[1]))
    n = pieces_len(ps)
    p = var(("bspos", ("seq", ps, ety), k), 0, T.LEN_MAX)
    st = st.assume(ge0(st.facts.norm(n - p)))
    if st is None:
        return []
    c = ("bv", ("app", "bsfound", ("seq", ps, ety), k))
    out = []
    for nm, cc in (("Ok", c), ("Err", neg(c))):
        s2 = st.assume(cc)
        if s2 is not None and (nm == "Err" or s2.assume(ge0(n - p - 1)) is not None):
            if nm == "Ok":
                s2 = s2.assume(ge0(n - p - 1))
            out.append((s2, ("adt", rty, vname(rty, nm), (p,))))
    return out


@rmodel(r"core::slice::<impl \[T\]>::(binary_search_by|binary_search_by_key|partition_point)")
def m_bsearch_by(ctx, st, inst, args, rty):
    """a search of a spelled out list by a function, which is taken to be sorted accordingly"""
    ps, ety = pieces(ctx, st, to_slice(ctx, st, args[0]))
    m = inst["def"].split("::")[-1]
    f = args[-1]
    i = ctx.prog.insts[ctx.prog.types[f[1]]["inst"]] if f[0] == "clo" else ctx.prog.insts[f[1]] if f[0] == "fn" else None
    if not explicit(ctx, ps) or i is None:
        raise Imprecise("searching by an unknown function")
    res = lambda n, hit: K(n) if m == "partition_point" else ("adt", rty, vname(rty, "Ok" if hit else "Err"), (K(n),))
    out, cur = [], [st]
    for n, p in enumerate(ps):
        nxt = []
        for s in cur:
            s = s.copy()
            for s2, o in ctx.call_value(f, [("ref", new_cell(s, p[1]), ())], s, ret_ty(i)):
                if m == "partition_point":
                    for c, go in ((o[1], True), (neg(o[1]), False)):
                        s3 = s2 if c is True else None if c is False else s2.assume(c)
                        if s3 is not None:
                            nxt.append(s3) if go else out.append((s3, res(n, False)))
                elif m == "binary_search_by":
                    if o[0] != "adt":
                        raise Imprecise("order not represented")
                    d = variants(o[1])[o[2]]["n"]
                    nxt.append(s2) if d == "Less" else out.append((s2, res(n, d == "Equal")))
                else:
                    for s3, d in by_cases(lambda s3: [(s3, compare(ctx, s3, o, args[1]))], s2):
                        nxt.append(s3) if d < 0 else out.append((s3, res(n, d == 0)))
        cur = nxt
    return out + [(s, res(len(ps), False)) for s in cur]


@rmodel(r"core::slice::<impl \[T\]>::(reverse|swap)")
def m_reorder(ctx, st, inst, args, rty):
    """reordering of a spelled out list"""
    d = to_slice(ctx, st, args[0])
    base = ctx.read(st, d[1], d[2])
    b, rest = split_at(base[1], d[3], st.facts, base[2])
    mid, a = split_at(rest, d[4], st.facts, base[2])
    if not all(p[0] == "B" for p in mid):
        raise Imprecise("reordering a list of unknown length")
    mid = list(mid)
    if inst["def"].endswith("reverse"):
        mid.reverse()
    else:
        i, j = (st.facts.norm(x).const for x in args[1:])
        if i is None or j is None or max(i, j) >= len(mid):
            raise Imprecise("swapping unknown places")
        mid[i], mid[j] = mid[j], mid[i]
    ctx.write(st, d[1], d[2], mk_seq(b + tuple(mid) + a, base[2]))
    return [(st, UNIT)]


@rmodel(r"std::vec::Vec::<T(, A)?>::(dedup|retain)")
def m_thin(ctx, st, inst, args, rty):
    """elements of a spelled out list removed"""
    r = args[0]
    v = deref(ctx, st, r)
    if v[0] != "seq" or len(v[1]) > 5 or not all(p[0] == "B" for p in v[1]):
        raise Imprecise("thinning a list of unknown length")
    f = args[1] if len(args) > 1 else None
    i = None if f is None else ctx.prog.insts[ctx.prog.types[f[1]]["inst"]] if f[0] == "clo" else ctx.prog.insts[f[1]] if f[0] == "fn" else None
    if f is not None and i is None:
        raise Imprecise("retaining by an unknown function")
    cur = [(st, ())]
    for p in v[1]:
        nxt = []
        for s, done in cur:
            if f is not None:
                s = s.copy()
                tests = [(s2, o[1]) for s2, o in ctx.call_value(f, [("ref", new_cell(s, p[1]), ())], s, ret_ty(i))]
            elif done:
                tests = [(s, neg(veq(ctx, s, done[-1][1], p[1])))]
            else:
                tests = [(s, True)]
            for s2, c in tests:
                for k, more in ((c, (p,)), (neg(c), ())):
                    s3 = s2.copy() if k is True else None if k is False else s2.assume(k)
                    if s3 is not None:
                        nxt.append((s3, done + more))
        cur = nxt
    out = []
    for s, done in cur:
        ctx.write(s, r[1], r[2], mk_seq(done, v[2]))
        out.append((s, UNIT))
    return out


@rmodel(r"std::vec::Vec::<T(, A)?>::truncate")
def m_truncate(ctx, st, inst, args, rty):
    r, n = args
    s = deref(ctx, st, r)
    ln = seq_len(s)
    c = ge0(st.facts.norm(n - ln))
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if not d:
        ctx.write(st, r[1], r[2], mk_seq(slice_pieces(s[1], ZERO, n, st.facts, s[2], True), s[2]))
    return [(st, UNIT)]


@rmodel(r"std::vec::Vec::<T(, A)?>::resize")
def m_resize(ctx, st, inst, args, rty):
    r, n, v = args
    s = deref(ctx, st, r)
    ln = seq_len(s)
    n = st.facts.norm(n)
    c = ge0(st.facts.norm(n - ln))
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if d:
        ix = index_atom()
        ps = s[1] + mk_star(ZERO, st.facts.norm(n - ln), (("B", v),), ix, s[2])
    else:
        ps = slice_pieces(s[1], ZERO, n, st.facts, s[2])
    ctx.write(st, r[1], r[2], mk_seq(ps, s[2]))
    return [(st, UNIT)]


@rmodel(r"std::vec::Vec::<T(, A)?>::pop")
def m_pop(ctx, st, inst, args, rty):
    r = args[0]
    s = deref(ctx, st, r)
    ln = st.facts.norm(seq_len(s))
    c = ge0(ln - 1)
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if not d:
        return [(st, none(rty))]
    v = seq_elem(s, ln - 1, st.facts)
    ctx.write(st, r[1], r[2], mk_seq(slice_pieces(s[1], ZERO, ln - 1, st.facts, s[2]), s[2]))
    return [(st, some(rty, v))]


@rmodel(r"std::vec::Vec::<T(, A)?>::remove")
def m_remove(ctx, st, inst, args, rty):
    r, ix = args
    s = deref(ctx, st, r)
    ln = seq_len(s)
    st = ctx.require(st, ge0(st.facts.norm(ln - ix - 1)), "Vec::remove index")
    if st is None:
        return []
    v = seq_elem(s, ix, st.facts)
    b, a = split_at(s[1], ix, st.facts, s[2])
    _, a = split_at(a, ONE, st.facts, s[2])
    ctx.write(st, r[1], r[2], mk_seq(b + a, s[2]))
    return [(st, v)]


@rmodel(r"std::vec::Vec::<T(, A)?>::split_off")
def m_split_off(ctx, st, inst, args, rty):
    r, ix = args
    s = deref(ctx, st, r)
    ln = seq_len(s)
    st = ctx.require(st, ge0(st.facts.norm(ln - ix)), "Vec::split_off index")
    if st is None:
        return []
    b, a = split_at(s[1], ix, st.facts, s[2])
    ctx.write(st, r[1], r[2], mk_seq(b, s[2]))
    return [(st, mk_seq(a, s[2]))]


# ---------------------------------------------------------------- length, views
@rmodel(r"std::vec::Vec::<T(, A)?>::(len|is_empty)", r"std::string::String::(len|is_empty)", r"core::slice::<impl \[T\]>::(len|is_empty)",
        r"core::str::<impl str>::(len|is_empty)", r"std::collections::(BTreeSet|HashSet)::<T.*>::(len|is_empty)",
        r"std::collections::(HashMap|BTreeMap)::<K, V.*>::(len|is_empty)")
def m_len(ctx, st, inst, args, rty):
    v = args[0]
    if v[0] == "sl":
        n = v[4]
    else:
        s = deref(ctx, st, v)
        if s[0] == "sl":
            n = s[4]
        elif s[0] == "seq":
            n = seq_len(s)
        else:
            raise Imprecise("len of %s" % s[0])
    n = st.facts.norm(n)
    if inst["def"].endswith("is_empty"):
        return [(st, ("b", eq0(n)))]
    return [(st, n)]


@rmodel(r"<std::vec::Vec<T(, A)?> as std::ops::Deref(Mut)?>::deref(_mut)?", r"<std::vec::Vec<T(, A)?> as std::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)",
        r"<std::vec::Vec<T(, A)?> as std::convert::AsRef<.*>>::as_ref", r"<std::vec::Vec<T(, A)?> as std::borrow::Borrow(Mut)?<\[T\]>>::borrow(_mut)?",
        r"std::vec::Vec::<T(, A)?>::as_(mut_)?slice", r"std::string::String::as_(bytes|str)", r"core::str::<impl str>::as_bytes",
        r"<std::string::String as std::ops::Deref>::deref", r"<std::string::String as std::convert::AsRef<.*>>::as_ref",
        r"core::array::<impl \[T; N\]>::as_slice", r"std::array::<impl std::convert::AsRef<\[T\]> for \[T; N\]>::as_ref",
        r"core::slice::<impl std::convert::AsRef<\[T\]> for \[T\]>::as_ref", r"std::convert::.*AsRef<\[T\]> for \[T\]>::as_ref",
        r"core::str::<impl std::convert::AsRef<.*> for str>::as_ref", r"<std::borrow::Cow<.*> as std::ops::Deref>::deref",
        r"std::array::<impl .* for \[T; N\]>::(as_ref|borrow|as_mut)", r"core::str::.*as_ref", r"std::convert::<impl .* for \[T\]>::as_ref")
def m_view(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    t = tinfo(rty)
    if t["k"] == "ref" and tk(t["e"]) not in ("slice", "str"):
        return [(st, args[0])]
    return [(st, sl)]


def get_bounds(ctx, st, idx, ln):
    """(start, end, inclusive?) for a usize / range index value; None for usize"""
    if isinstance(idx, Lin):
        return None
    if idx[0] == "adt":
        n = tinfo(idx[1])["def"].split("::")[-1]
        f = idx[3]
        if n == "Range":
            return f[0], f[1]
        if n == "RangeFrom":
            return f[0], ln
        if n == "RangeTo":
            return ZERO, f[0]
        if n == "RangeFull":
            return ZERO, ln
        if n == "RangeInclusive":
            return f[0], f[1] + 1
        if n == "RangeToInclusive":
            return ZERO, f[0] + 1
    if idx[0] == "sym" and tinfo(idx[2])["s"].endswith("RangeFull"):
        return ZERO, ln
    raise Imprecise("index")


@rmodel(r"core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?", r"<std::vec::Vec<T(, A)?> as std::ops::Index(Mut)?<I>>::index(_mut)?",
        r"std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?", r"core::str::.*Index(Mut)?<I> for str>::index(_mut)?",
        r"<std::string::String as std::ops::Index<I>>::index")
def m_index(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    ln = st.facts.norm(sl[4])
    b = get_bounds(ctx, st, args[1], ln)
    if b is None:
        ix = st.facts.norm(args[1])
        st = ctx.require(st, ge0(ln - ix - 1), "slice index")
        if st is None:
            return []
        return [(st, elem_ref(sl, ix))]
    lo, hi = st.facts.norm(b[0]), st.facts.norm(b[1])
    st = ctx.require(st, ge0(hi - lo), "slice range order")
    if st is None:
        return []
    st = ctx.require(st, ge0(st.facts.norm(ln - hi)), "slice range end")
    if st is None:
        return []
    return [(st, ("sl", sl[1], sl[2], sl[3] + lo, hi - lo))]


def checked(ctx, st, cond, what):
    """the precondition of an unsafe operation, when it is the library's own code that relies on it"""
    up = [f[0] for f in ctx.stack[-2:]]
    if ctx.local_frame() or len(up) == 2 and "unwrap_unchecked" in up[1] and "maybe_dns::" in up[0]:
        return ctx.require(st, cond, "unsafe: " + what)
    return st.assume(cond) if cond is not False else None


@rmodel(r"core::slice::<impl \[T\]>::get_unchecked(_mut)?", r"core::str::<impl str>::get_unchecked(_mut)?")
def m_slice_unchecked(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    ln = st.facts.norm(sl[4])
    b = get_bounds(ctx, st, args[1], ln)
    if b is None:
        ix = st.facts.norm(args[1])
        st = checked(ctx, st, ge0(ln - ix - 1), "unchecked index")
        return [] if st is None else [(st, elem_ref(sl, ix))]
    lo, hi = st.facts.norm(b[0]), st.facts.norm(b[1])
    for c in (ge0(hi - lo), ge0(ln - hi)):
        st = checked(ctx, st, c, "unchecked range")
        if st is None:
            return []
    return [(st, ("sl", sl[1], sl[2], sl[3] + lo, hi - lo))]


@rmodel(r"std::string::String::from_utf8_unchecked", r"(std|core)::str::(converts::)?from_utf8_unchecked(_mut)?", r"core::str::<impl str>::from_utf8_unchecked(_mut)?")
def m_utf8_unchecked(ctx, st, inst, args, rty):
    ps, ety = bytes_of(ctx, st, args[0])
    st = checked(ctx, st, utf8_cond(ps), "text taken to be UTF-8")
    return [] if st is None else [(st, args[0])]


@rmodel(r"std::hint::unreachable_unchecked", r"core::hint::unreachable_unchecked")
def m_unreachable_unchecked(ctx, st, inst, args, rty):
    checked(ctx, st, False, "code taken to be unreachable")
    return []


@rmodel(r"(std|core)::hint::assert_unchecked")
def m_assert_unchecked(ctx, st, inst, args, rty):
    st = checked(ctx, st, args[0][1], "condition taken to hold")
    return [] if st is None else [(st, UNIT)]


@rmodel(r"std::vec::Vec::<T(, A)?>::set_len")
def m_set_len(ctx, st, inst, args, rty):
    r, n = args
    s = deref(ctx, st, r)
    n = st.facts.norm(n)
    c = ge0(seq_len(s) - n)
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if not d:
        if any(t["k"] == "ptr" for t in (ctx.prog.types[x] for x in ctx.prog.by_name[ctx.stack[-1][0]]["body"]["locals"])):
            raise Imprecise("memory written through pointers")
        checked(ctx, st, False, "elements that were never written")
        return []
    ctx.write(st, r[1], r[2], mk_seq(slice_pieces(s[1], ZERO, n, st.facts, s[2], True), s[2]))
    return [(st, UNIT)]


@rmodel(r"core::slice::<impl \[T\]>::get(_mut)?", r"core::str::<impl str>::get")
def m_get(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    ln = st.facts.norm(sl[4])
    b = get_bounds(ctx, st, args[1], ln)
    if b is None:
        c = ge0(ln - st.facts.norm(args[1]) - 1)
    else:
        c = c_and(ge0(st.facts.norm(b[1] - b[0])), ge0(st.facts.norm(ln - b[1])))
    d = st.facts.decide(c)
    if d is None:
        out = []
        s = st.assume(c)
        if s is not None:
            v = elem_ref(sl, args[1]) if b is None else ("sl", sl[1], sl[2], sl[3] + b[0], b[1] - b[0])
            out.append((s, some(rty, v)))
        if isinstance(c, tuple) and c[0] == "and":
            s = st.assume(neg(c[1]))
            if s is not None:
                out.append((s, none(rty)))
            s = st.assume(c[1])
            s = s.assume(neg(c[2])) if s is not None else None
            if s is not None:
                out.append((s, none(rty)))
        else:
            s = st.assume(neg(c))
            if s is not None:
                out.append((s, none(rty)))
        return out
    if not d:
        return [(st, none(rty))]
    return [(st, some(rty, elem_ref(sl, args[1]) if b is None else ("sl", sl[1], sl[2], sl[3] + b[0], b[1] - b[0])))]


@rmodel(r"core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)")
def m_first(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    ln = st.facts.norm(sl[4])
    c = ge0(ln - 1)
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if not d:
        return [(st, none(rty))]
    return [(st, some(rty, elem_ref(sl, ZERO if "::first" in inst["def"] else ln - 1)))]


@rmodel(r"core::slice::<impl \[T\]>::split_at(_mut)?")
def m_split_at(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    st = ctx.require(st, ge0(st.facts.norm(sl[4] - args[1])), "split_at")
    if st is None:
        return []
    return [(st, ("tup", (("sl", sl[1], sl[2], sl[3], args[1]), ("sl", sl[1], sl[2], sl[3] + args[1], sl[4] - args[1]))))]


@rmodel(r"core::slice::<impl \[T\]>::split_(first|last)")
def m_split_first(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    ln = st.facts.norm(sl[4])
    c = ge0(ln - 1)
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if not d:
        return [(st, none(rty))]
    if inst["def"].endswith("split_first"):
        return [(st, some(rty, ("tup", (elem_ref(sl, ZERO), ("sl", sl[1], sl[2], sl[3] + 1, ln - 1)))))]
    return [(st, some(rty, ("tup", (elem_ref(sl, ln - 1), ("sl", sl[1], sl[2], sl[3], ln - 1)))))]


@rmodel(r"core::slice::<impl \[T\]>::copy_from_slice", r"core::slice::<impl \[T\]>::clone_from_slice")
def m_copy_from_slice(ctx, st, inst, args, rty):
    d, s = to_slice(ctx, st, args[0]), to_slice(ctx, st, args[1])
    st = ctx.require(st, eq0(st.facts.norm(d[4] - s[4])), "copy_from_slice length")
    if st is None:
        return []
    ps, _ = pieces(ctx, st, s)
    base = ctx.read(st, d[1], d[2])
    b, rest = split_at(base[1], d[3], st.facts, base[2])
    _, a = split_at(rest, d[4], st.facts, base[2])
    ctx.write(st, d[1], d[2], mk_seq(b + ps + a, base[2]))
    return [(st, UNIT)]


@rmodel(r"core::slice::<impl \[T\]>::fill")
def m_fill(ctx, st, inst, args, rty):
    d = to_slice(ctx, st, args[0])
    base = ctx.read(st, d[1], d[2])
    b, rest = split_at(base[1], d[3], st.facts, base[2])
    _, a = split_at(rest, d[4], st.facts, base[2])
    ix = index_atom()
    ps = mk_star(ZERO, d[4], (("B", args[1]),), ix, base[2])
    ctx.write(st, d[1], d[2], mk_seq(b + ps + a, base[2]))
    return [(st, UNIT)]


@rmodel(r"std::slice::<impl \[T\]>::concat", r"std::slice::.*Concat<T> for \[V\]>::concat")
def m_concat(ctx, st, inst, args, rty):
    ps, ety = bytes_of(ctx, st, args[0])
    out = ()
    e2 = elem_ty(rty)
    for p in ps:
        if p[0] != "B":
            raise Imprecise("concat")
        q, _ = bytes_of(ctx, st, p[1])
        out += q
    return [(st, mk_seq(out, e2))]


# ---------------------------------------------------------------- arrays
@rmodel(r"std::array::<impl std::convert::TryFrom<&(mut )?\[T\]> for (&\w* ?)?\[T; N\]>::try_from", r"std::vec::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for \[T; N\]>::try_from",
        r"std::array::<impl std::convert::TryFrom<&'a \[T\]> for &'a \[T; N\]>::try_from")
def m_arr_try(ctx, st, inst, args, rty):
    aty = payload_ty(rty, "Ok")
    byref = tk(aty) == "ref"
    n = tinfo(tinfo(aty)["e"])["n"] if byref else tinfo(aty)["n"]
    v = args[0]
    ln = seq_len(v) if v[0] == "seq" else to_slice(ctx, st, v)[4]
    c = eq0(st.facts.norm(ln) - n)
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if not d:
        ety = payload_ty(rty, "Err")
        if adt_kind(ety) == "vec":
            return [(st, mkv(rty, "Err", v))]
        return [(st, mkv(rty, "Err", ("sym", ("zst", "TryFromSliceError"), ety)))]
    ps, ety = bytes_of(ctx, st, v)
    if byref:
        if v[0] == "sl" and st.facts.decide(eq0(v[3])) is True:
            pass
        c = new_cell(st, ("seq", ps, ety))
        return [(st, mkv(rty, "Ok", ("ref", c, ())))]
    return [(st, mkv(rty, "Ok", ("seq", ps, ety)))]


@rmodel(r"std::array::<impl std::default::Default for \[T; .*\]>::default")
def m_arr_default(ctx, st, inst, args, rty):
    t = tinfo(rty)
    if tk(t["e"]) != "uint":
        raise Imprecise("array default")
    return [(st, mk_seq((("B", ZERO),) * t["n"], t["e"]))]


@model("std::boxed::Box::<T>::new_uninit")
def m_new_uninit(ctx, st, inst, args, rty):
    c = ("T", fresh_id())
    st.mem[c] = ("uninit",)
    return [(st, ("box", c))]


@rmodel("std::boxed::box_assume_init_into_vec_unsafe", r"std::slice::<impl \[T\]>::into_vec")
def m_box_vec(ctx, st, inst, args, rty):
    v = args[0]
    if v[0] != "box":
        raise Imprecise("box")
    w = ctx.read(st, v[1], ())
    for _ in range(5):
        if isinstance(w, tuple) and w[0] == "seq":
            return [(st, w)]
        if isinstance(w, tuple) and w[0] == "tup" and w[1]:
            w = w[1][-1]
        elif isinstance(w, tuple) and w[0] == "adt" and w[3]:
            w = w[3][-1]
    raise Imprecise("box content")


@rmodel(r"std::boxed::Box::<T>::new")
def m_box_new(ctx, st, inst, args, rty):
    return [(st, ("box", new_cell(st, args[0])))]


# ---------------------------------------------------------------- integers <-> bytes
def width(inst):
    m = re.search(r"<impl ([ui])(\d+|size)>", inst["def"])
    return 64 if m.group(2) == "size" else int(m.group(2))


def be_bytes(ctx, st, x, w):
    x = ctx.untrunc(st, st.facts.norm(x), w)
    bits = bits_or_opaque(x, w)
    return [from_bits(bits[w - 8 * (i + 1): w - 8 * i]) for i in range(w // 8)]


@rmodel(r"core::num::<impl u(\d+|size)>::to_(be|le|ne)_bytes", r"core::num::<impl i(\d+|size)>::to_(be|le|ne)_bytes")
def m_to_be(ctx, st, inst, args, rty):
    w = width(inst)
    x = args[0]
    if "<impl i" in inst["def"]:
        raise Imprecise("signed bytes")
    bs = be_bytes(ctx, st, ctx.as_int(x), w)
    if not inst["def"].endswith("be_bytes"):
        bs = bs[::-1]
    return [(st, mk_seq(tuple(("B", b) for b in bs), u8_ty()))]


def elems(ctx, st, s, n):
    out = []
    for i in range(n):
        v = seq_elem(s, K(i), st.facts)
        if not isinstance(v, Lin):
            raise Imprecise("byte")
        out.append(st.facts.norm(v))
    return out


def from_be(ctx, st, s, w):
    bs = elems(ctx, st, s, w // 8)
    bits = []
    for b in bs[::-1]:
        bits += bits_or_opaque(b, 8)
    return st.facts.norm(from_bits(bits))


@rmodel(r"core::num::<impl u(\d+|size)>::from_(be|le|ne)_bytes")
def m_from_be(ctx, st, inst, args, rty):
    w = width(inst)
    s = args[0]
    if s[0] != "seq":
        raise Imprecise("from_be")
    if not inst["def"].endswith("be_bytes"):
        bs = elems(ctx, st, s, w // 8)
        s = mk_seq(tuple(("B", b) for b in bs[::-1]), u8_ty())
    return [(st, from_be(ctx, st, s, w))]


@rmodel(r"core::num::<impl u(\d+|size)>::(to_be|from_be|swap_bytes|to_le|from_le)")
def m_swap(ctx, st, inst, args, rty):
    w = width(inst)
    if inst["def"].endswith("_le"):
        return [(st, args[0])]
    bits = bits_or_opaque(st.facts.norm(args[0]), w)
    out = []
    for i in range(w // 8):
        out = bits[8 * i:8 * i + 8] + out
    return [(st, from_bits(out))]


def overflow_cond(ctx, st, op, x, y, ty):
    v, ov = ctx.binop(st, op, x, y, ty, True)
    return v, ov


@rmodel(r"core::num::<impl [ui](\d+|size)>::(checked|saturating|wrapping|overflowing)_(add|sub|mul)")
def m_arith(ctx, st, inst, args, rty):
    m = re.search(r"::(checked|saturating|wrapping|overflowing)_(add|sub|mul)$", inst["def"])
    kind, op = m.group(1), {"add": "Add", "sub": "Sub", "mul": "Mul"}[m.group(2)]
    w = width(inst)
    sg = "<impl i" in inst["def"]
    ty = next(i for i, t in enumerate(ctx.prog.types) if t["k"] == ("int" if sg else "uint") and t["bits"] == w)
    v, ov = overflow_cond(ctx, st, op, args[0], args[1], ty)
    if kind == "wrapping":
        return [(st, ctx.binop(st, op, args[0], args[1], ty))]
    if kind == "overflowing":
        return [(st, ("tup", (ctx.binop(st, op, args[0], args[1], ty), ("b", ov))))]
    d = st.facts.decide(ov)
    out = []
    for c, isov in ((ov, True), (neg(ov), False)):
        s = st.assume(c)
        if s is None:
            continue
        if kind == "checked":
            out.append((s, none(rty) if isov else some(rty, v)))
        else:
            lo, hi = int_range(ty)
            if isov:
                out.append((s, K(hi) if op != "Sub" else K(lo)))
            else:
                out.append((s, v))
    if isinstance(ov, tuple) and ov[0] == "or":
        pass
    return out


@rmodel(r"std::intrinsics::integer_(min|max)")
def m_minmax(ctx, st, inst, args, rty):
    x, y = ctx.as_int(args[0]), ctx.as_int(args[1])
    mn = "integer_min" in inst["def"]
    out = []
    for c, v in ((ge0(y - x), x if mn else y), (ge0(x - y - 1), y if mn else x)):
        s = st.assume(c)
        if s is not None:
            out.append((s, v))
    return out


@rmodel(r"core::num::<impl u(\d+|size)>::(div_ceil|is_power_of_two|count_ones|count_zeros|leading_zeros|trailing_zeros|pow|rotate_left|rotate_right|reverse_bits|leading_ones|trailing_ones|abs_diff)")
def m_int_misc(ctx, st, inst, args, rty):
    n = inst["def"].split("::")[-1]
    x = st.facts.norm(ctx.as_int(args[0]))
    w = width(inst)
    if n == "pow" and len(args) == 2 and x.const is not None and args[1].const is not None:
        return [(st, K(x.const ** args[1].const))]
    if n == "div_ceil" and args[1].const is not None:
        ty = next(i for i, t in enumerate(ctx.prog.types) if t["k"] == "uint" and t["bits"] == w)
        return [(st, ctx.divmod(st, x + (args[1].const - 1), args[1], ty)[0])]
    if tk(rty) == "bool":
        return [(st, ("b", ("bv", ("app", n, x))))]
    return [(st, L(mk_atom(("fn", n, x) + tuple(args[1:]), 0, int_range(rty)[1])))]


@rmodel(r"core::num::<impl u(\d+|size)>::unchecked_add::precondition_check", r"core::num::<impl \w+>::\w+::precondition_check", r"std::intrinsics::cold_path", r"core::\w+::\w+::precondition_check", r"std::hint::assert_unchecked::precondition_check", r".*::precondition_check")
def m_nop2(ctx, st, inst, args, rty):
    return [(st, UNIT)]


@rmodel(r"core::num::<impl [ui](\d+|size)>::unchecked_(add|sub|mul)")
def m_unchecked(ctx, st, inst, args, rty):
    op = {"add": "AddUnchecked", "sub": "SubUnchecked", "mul": "MulUnchecked"}[inst["def"].rsplit("_", 1)[1]]
    if ctx.local_frame() and tk(rty) == "uint" and (op != "MulUnchecked" or args[0].const is not None or args[1].const is not None):
        x, y = (st.facts.norm(a) for a in args)
        r = x + y if op[0] == "A" else x - y if op[0] == "S" else y * x.const if x.const is not None else x * y.const
        for c in (ge0(r), ge0(K(int_range(rty)[1]) - r)):
            st = checked(ctx, st, c, "arithmetic taken not to overflow")
            if st is None:
                return []
    return [(st, ctx.binop(st, op, args[0], args[1], rty))]


@rmodel(r"(std|core)::.*Sh([lr])<\w+> for &?\w+>::sh[lr]", r"<&'?\w* ?\w+ as std::ops::Sh[lr]<&?'?\w* ?\w+>>::sh[lr]", r"<\w+ as std::ops::Sh[lr]<&?'?\w* ?\w+>>::sh[lr]")
def m_shift(ctx, st, inst, args, rty):
    x = deref_all(ctx, st, args[0])
    y = deref_all(ctx, st, args[1])
    w = tinfo(rty)["bits"]
    y = st.facts.norm(y)
    st = ctx.require(st, ge0(K(w - 1) - y), "Overflow(Sh)")
    if st is None:
        return []
    return [(st, ctx.binop(st, "Shl" if "shl" in inst["def"] else "Shr", x, y, rty))]


# ---------------------------------------------------------------- net
@rmodel(r"<std::net::Ipv4Addr as std::convert::From<u32>>::from", r"<std::net::Ipv6Addr as std::convert::From<u128>>::from",
        r"std::net::Ipv[46]Addr::from_bits")
def m_ip_from(ctx, st, inst, args, rty):
    w = 32 if "Ipv4" in inst["def"] else 128
    bs = be_bytes(ctx, st, args[0], w)
    return [(st, ("adt", rty, 0, (mk_seq(tuple(("B", b) for b in bs), u8_ty()),)))]


@rmodel(r"core::net::ip_addr::<impl std::convert::From<std::net::Ipv[46]Addr> for u(32|128)>::from", r"std::net::Ipv[46]Addr::to_bits")
def m_ip_to(ctx, st, inst, args, rty):
    w = tinfo(rty)["bits"]
    a = args[0]
    if a[0] != "adt":
        raise Imprecise("ip")
    return [(st, from_be(ctx, st, a[3][0], w))]


@model("std::net::Ipv4Addr::new")
def m_ip4_new(ctx, st, inst, args, rty):
    return [(st, ("adt", rty, 0, (mk_seq(tuple(("B", b) for b in args), u8_ty()),)))]


@rmodel(r"std::net::Ipv[46]Addr::octets")
def m_octets(ctx, st, inst, args, rty):
    a = deref_all(ctx, st, args[0])
    if a[0] != "adt":
        raise Imprecise("ip")
    return [(st, a[3][0])]


@rmodel(r"<std::net::Ipv[46]Addr as std::convert::From<\[u8; \d+\]>>::from", r"std::net::Ipv[46]Addr::from_octets")
def m_ip_octs(ctx, st, inst, args, rty):
    return [(st, ("adt", rty, 0, (args[0],)))]


@rmodel(r"<std::net::Ipv6Addr as std::convert::From<\[u16; 8\]>>::from", r"std::net::Ipv6Addr::(new|segments)")
def m_ip6_seg(ctx, st, inst, args, rty):
    raise Imprecise("segments")


# ---------------------------------------------------------------- equality / ordering
def veq(ctx, st, a, b):
    """condition for structural equality"""
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return eq0(st.facts.norm(a - b))
    if isinstance(a, Lin) or isinstance(b, Lin):
        return ("bv", fresh_term("eq"))
    if a[0] == "seq" and b[0] == "seq":
        la, lb = seq_len(a), seq_len(b)
        e = eq0(st.facts.norm(la - lb))
        d = st.facts.decide(e)
        if d is False:
            return False
        n = la.const if la.const is not None else lb.const
        if n is not None and n <= 64:
            f = st.facts.assume(e)
            try:
                xs = [seq_elem(a, K(i), f) for i in range(n)]
                ys = [seq_elem(b, K(i), f) for i in range(n)]
                return c_and(e, *[veq(ctx, st, x, y) for x, y in zip(xs, ys)])
            except (Fork, Imprecise):
                pass
        if equal(a, b, st.facts) is True:
            return True
        x, y = reify(ctx, st, a), reify(ctx, st, b)
        if repr(y) < repr(x):
            x, y = y, x
        return ("bv", ("app", "==", x, y))
    if a[0] == "b" and b[0] == "b":
        return c_or(c_and(a[1], b[1]), c_and(neg(a[1]), neg(b[1])))
    if a[0] == "tup" and b[0] == "tup":
        return c_and(*[veq(ctx, st, x, y) for x, y in zip(a[1], b[1])])
    if a[0] == "adt" and b[0] == "adt" and a[1] == b[1]:
        if a[2] != b[2]:
            return False
        return c_and(*[veq(ctx, st, x, y) for x, y in zip(a[3], b[3])])
    if a[0] in ("ref", "sl") and b[0] in ("ref", "sl"):
        return veq(ctx, st, deref(ctx, st, a), deref(ctx, st, b))
    x, y = reify(ctx, st, a), reify(ctx, st, b)
    if repr(y) < repr(x):
        x, y = y, x
    return ("bv", ("app", "==", x, y))


@rmodel(r".*(Vec|slice|str|String|array|BTreeSet|HashMap|HashSet|Ipv4Addr|Ipv6Addr|Cow).*PartialEq.*>::(eq|ne)", r"(std|core|alloc)::(vec|slice|collections|string|borrow|net|str)::.*<impl .*PartialEq.*::(eq|ne)", r"std::array::equality::.*::(eq|ne)", r"core::str::traits::.*::(eq|ne)")
def m_eq(ctx, st, inst, args, rty):
    a, b = deref_all(ctx, st, args[0]), deref_all(ctx, st, args[1])
    c = veq(ctx, st, a, b)
    return [(st, ("b", neg(c) if inst["def"].endswith("::ne") else c))]


@rmodel(r".*(Vec|slice|str|String|array|BTreeSet).*(Ord|PartialOrd).*>::(cmp|partial_cmp|lt|le|gt|ge)")
def m_cmp(ctx, st, inst, args, rty):
    a, b = reify(ctx, st, deref_all(ctx, st, args[0])), reify(ctx, st, deref_all(ctx, st, args[1]))
    m = inst["def"].split("::")[-1]
    d = lexcmp(st, a, b)
    if m in ("lt", "le", "gt", "ge"):
        return [(st, ("b", {"lt": ge0(ZERO - d - 1), "le": ge0(ZERO - d), "gt": ge0(d - 1), "ge": ge0(d)}[m]))]
    if m == "cmp":
        return [(st, ordering(st, d, rty))]
    return [(st, some(rty, ordering(st, d, payload_ty(rty, "Some"))))]


def lexcmp(st, a, b):
    """-1, 0 or 1: how two values of one ordered type compare"""
    a, b = st.facts.norm(a), st.facts.norm(b)
    if a == b:
        return ZERO
    if repr(a) < repr(b):
        return var(("lexcmp", a, b), 0, 2) - 1
    return K(1) - var(("lexcmp", b, a), 0, 2)


def ordering(st, d, rty):
    d = st.facts.norm(d)
    for n, c in (("Less", ge0(ZERO - d - 1)), ("Equal", eq0(d))):
        k = st.facts.decide(c)
        if k is None:
            raise Fork(c)
        if k:
            return ("adt", rty, vname(rty, n), ())
    return ("adt", rty, vname(rty, "Greater"), ())


def compare(ctx, st, a, b):
    """difference of two elements of an explicit list, as -1, 0, 1 under the facts"""
    a, b = deref_all(ctx, st, a), deref_all(ctx, st, b)
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = st.facts.norm(a - b)
    elif a[0] == b[0] == "tup":
        for x, y in zip(a[1], b[1]):
            k = compare(ctx, st, x, y)
            if k:
                return k
        return 0
    elif a[0] in ("adt", "tup"):
        raise Imprecise("order of structures")
    else:
        d = st.facts.norm(lexcmp(st, reify(ctx, st, a), reify(ctx, st, b)))
    for v, c in ((-1, ge0(ZERO - d - 1)), (0, eq0(d))):
        k = st.facts.decide(c)
        if k is None:
            raise Fork(c)
        if k:
            return v
    return 1


def explicit(ctx, ps):
    return getattr(ctx, "explicit_order", False) and len(ps) <= 5 and all(p[0] == "B" for p in ps)


def sort_explicit(ctx, st, inst, args, ps):
    """insertion sort of a spelled out list; [(state, pieces)]"""
    m = inst["def"].split("::")[-1]
    by_key = m in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
    by = m in ("sort_by", "sort_unstable_by")
    outs = [(st, ())]
    for p in ps:
        nxt = []
        for s, done in outs:
            nxt += place(ctx, s, p, done, len(done), args[1] if by or by_key else None, by_key)
        outs = nxt
    return outs


def by_cases(f, st):
    try:
        return f(st)
    except Fork as k:
        out = []
        for c in (k.cond, neg(k.cond)):
            s = st.assume(c)
            if s is not None:
                out += by_cases(f, s)
        return out


def place(ctx, st, p, done, k, f, by_key):
    if k == 0:
        return [(st, (p,) + done)]
    out = []
    for s, d in order_of(ctx, st, done[k - 1][1], p[1], f, by_key):
        if d <= 0:
            out.append((s, done[:k] + (p,) + done[k:]))
        else:
            out += place(ctx, s, p, done, k - 1, f, by_key)
    return out


def order_of(ctx, st, a, b, f, by_key):
    if f is None:
        return by_cases(lambda s: [(s, compare(ctx, s, a, b))], st)
    i = ctx.prog.insts[ctx.prog.types[f[1]]["inst"]] if f[0] == "clo" else ctx.prog.insts[f[1]] if f[0] == "fn" else None
    if i is None:
        raise Imprecise("sorting by an unknown function")
    st = st.copy()
    ca, cb = ("ref", new_cell(st, a), ()), ("ref", new_cell(st, b), ())
    out = []
    if by_key:
        for s, x in ctx.call_value(f, [ca], st, ret_ty(i)):
            for s2, y in ctx.call_value(f, [cb], s, ret_ty(i)):
                out += by_cases(lambda s3: [(s3, compare(ctx, s3, x, y))], s2)
        return out
    for s, o in ctx.call_value(f, [ca, cb], st, ret_ty(i)):
        if o[0] != "adt":
            raise Imprecise("order not represented")
        out.append((s, {"Less": -1, "Equal": 0, "Greater": 1}[variants(o[1])[o[2]]["n"]]))
    return out


# ---------------------------------------------------------------- strings
def utf8_cond(ps):
    cs = []
    for p in ps:
        if p[0] == "Blob" and p[1][0] == "str" and p[2] == ZERO and p[3] == length(p[1]):
            continue
        if p[0] == "B" and isinstance(p[1], Lin) and p[1].const is not None and p[1].const < 128:
            continue
        cs.append(p)
    if not cs:
        return True
    return ("bv", ("app", "is_utf8", tuple(ps)))


@rmodel(r"std::string::String::from_utf8", r"(std|core)::str::(converts::)?from_utf8", r"core::str::<impl str>::from_utf8")
def m_from_utf8(ctx, st, inst, args, rty):
    ps, ety = bytes_of(ctx, st, args[0])
    c = utf8_cond(ps)
    out = []
    s = st.assume(c)
    if s is not None:
        out.append((s, mkv(rty, "Ok", args[0])))
    s = st.assume(neg(c))
    if s is not None:
        out.append((s, mkv(rty, "Err", mk_sym(("app", "utf8_error", tuple(ps)), payload_ty(rty, "Err")))))
    return out


@rmodel(r"std::string::String::from_utf8_lossy(_owned)?")
def m_lossy(ctx, st, inst, args, rty):
    ps, ety = bytes_of(ctx, st, args[0])
    if ctx.utf8:
        st = st.assume(utf8_cond(ps)) or st
    if st.facts.decide(utf8_cond(ps)) is True:
        return [(st, ("seq", ps, ety))]
    t = ("str", ("app", "utf8_lossy", tuple(ps)))
    return [(st, ("seq", (("Blob", t, ZERO, length(t)),), ety))]


def text_pred(ctx, st, n, args):
    """predicates of spelled out sequences"""
    if n not in ("starts_with", "ends_with", "eq_ignore_ascii_case"):
        return None
    a, _ = bytes_of(ctx, st, args[0])
    b = tuple(("B", K(c)) for c in sep_of(ctx, st, args[1])) if isinstance(args[1], Lin) else bytes_of(ctx, st, args[1])[0]
    if tuple(a) == tuple(b):
        return True
    if n == "eq_ignore_ascii_case" and st.facts.decide(eq0(pieces_len(a) - pieces_len(b))) is False:
        return False
    if not all(p[0] == "B" and isinstance(p[1], Lin) for p in tuple(a) + tuple(b)):
        return None
    if len(b) > len(a):
        return False
    if n == "eq_ignore_ascii_case":
        if len(a) != len(b):
            return False
    else:
        a = a[:len(b)] if n == "starts_with" else a[len(a) - len(b):]
    for x, y in zip(a, b):
        if n == "eq_ignore_ascii_case":
            if x[1] == y[1]:
                continue
            if y[1].const is None and x[1].const is not None:
                x, y = y, x
            c = y[1].const
            if c is None or c >= 128:
                return None
            ok = is_byte(st, x[1], sorted({ord(chr(c).lower()), ord(chr(c).upper())}))
        else:
            e = eq0(st.facts.norm(x[1] - y[1]))
            ok = st.facts.decide(e)
            if ok is None:
                raise Fork(e)
        if not ok:
            return False
    return True


@rmodel(r"core::str::<impl str>::(starts_with|ends_with|contains|eq_ignore_ascii_case|is_ascii|is_char_boundary)", r"core::slice::<impl \[T\]>::(starts_with|ends_with|contains)", r"core::slice::ascii::<impl \[u8\]>::(is_ascii|eq_ignore_ascii_case)")
def m_str_pred(ctx, st, inst, args, rty):
    n = inst["def"].split("::")[-1]
    try:
        r = text_pred(ctx, st, n, args)
        if r is not None:
            return [(st, ("b", r))]
    except Imprecise:
        pass
    a = [reify(ctx, st, x) for x in args]
    return [(st, ("b", ("bv", ("app", n) + tuple(a))))]


def sep_of(ctx, st, pat):
    """the bytes a pattern stands for: a character, some characters or a text of one byte"""
    if isinstance(pat, Lin):
        c = st.facts.norm(pat).const
        if c is not None and c < 128:
            return (c,)
    elif isinstance(pat, tuple) and pat[0] in ("sl", "ref", "seq"):
        ps, ety = bytes_of(ctx, st, pat)
        if all(p[0] == "B" and isinstance(p[1], Lin) and p[1].const is not None and p[1].const < 128 for p in ps) and (len(ps) == 1 or ety != u8_ty()):
            return tuple(p[1].const for p in ps)
    raise Imprecise("pattern")


def ascii_bytes(ctx, st, v):
    """[(position, byte or None for a text without special characters, length)]"""
    ps, _ = pieces(ctx, st, to_slice(ctx, st, v))
    at, out = ZERO, []
    for p in ps:
        if p[0] == "B" and isinstance(p[1], Lin):
            if st.facts.decide(ge0(K(127) - p[1])) is not True:
                raise Imprecise("text")
            out.append((at, p[1], K(1)))
            at = at + 1
        elif p[0] == "Blob" and p[1] in ctx.plain:
            if st.facts.decide(eq0(p[3])) is True:
                continue
            out.append((at, None, p[3]))
            at = at + p[3]
        else:
            raise Imprecise("text")
    return out


def is_byte(st, b, cs):
    if b is None:
        return False
    for c in cs:
        e = eq0(st.facts.norm(b - c))
        d = st.facts.decide(e)
        if d is None:
            raise Fork(e)
        if d:
            return True
    return False


def sub_text(sl, a, b):
    return ("sl", sl[1], sl[2], sl[3] + a, b - a)


def text_fn(ctx, st, n, args, rty):
    """operations on texts whose special characters are all spelled out"""
    sl = to_slice(ctx, st, args[0])
    end = st.facts.norm(sl[4])
    bs = ascii_bytes(ctx, st, sl)
    if n in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
        lo = 65 if n.endswith("lowercase") else 97
        out = []
        for _, b, _ in bs:
            if b is None:
                raise Imprecise(n)
            hit = True
            for e in (ge0(b - lo), ge0(K(lo + 25) - b)):
                d = st.facts.decide(e)
                if d is None:
                    raise Fork(e)
                hit = hit and d
            out.append(("B", b + (32 if lo == 65 else -32) if hit else b))
        return [(st, mk_seq(tuple(out), u8_ty()))]
    if n in ("chars", "char_indices"):
        if any(b is None for _, b, _ in bs):
            raise Imprecise("chars")
        el = tuple(("B", b if n == "chars" else ("tup", (a, b))) for a, b, _ in bs)
        return [(st, ("it", "val", ("seq", el, None), ZERO, K(len(el))))]
    if n in ("trim_end_matches", "trim_start_matches", "trim_matches", "strip_suffix", "strip_prefix"):
        c = sep_of(ctx, st, args[1])
        a, z = 0, len(bs)
        while n in ("trim_end_matches", "trim_matches", "strip_suffix") and z > a and is_byte(st, bs[z - 1][1], c):
            z -= 1
            if n == "strip_suffix":
                break
        while n in ("trim_start_matches", "trim_matches", "strip_prefix") and a < z and is_byte(st, bs[a][1], c):
            a += 1
            if n == "strip_prefix":
                break
        lo = bs[a][0] if a < len(bs) else end
        hi = bs[z][0] if z < len(bs) else end
        if n.startswith("strip"):
            if a == 0 and z == len(bs):
                return [(st, none(rty))]
            return [(st, some(rty, sub_text(sl, lo, hi)))]
        return [(st, sub_text(sl, lo, hi))]
    pat = args[2] if n in ("splitn", "rsplitn") else args[1]
    c = sep_of(ctx, st, pat)
    at = [a for a, b, _ in bs if is_byte(st, b, c)]
    if n in ("find", "rfind"):
        if not at:
            return [(st, none(rty))]
        return [(st, some(rty, at[0] if n == "find" else at[-1]))]
    if n in ("split_once", "rsplit_once"):
        if not at:
            return [(st, none(rty))]
        a = at[0] if n == "split_once" else at[-1]
        return [(st, some(rty, ("tup", (sub_text(sl, ZERO, a), sub_text(sl, a + 1, end)))))]
    if n == "splitn":
        k = st.facts.norm(ctx.as_int(args[1])).const
        if k is None or k < 1:
            raise Imprecise("splitn")
        at = at[:k - 1]
    elif n == "rsplitn":
        k = st.facts.norm(ctx.as_int(args[1])).const
        if k is None or k < 1:
            raise Imprecise("rsplitn")
        at = at[len(at) - min(len(at), k - 1):]
    elif n not in ("split", "rsplit", "split_terminator", "split_inclusive"):
        raise Imprecise(n)
    lo, segs = ZERO, []
    for a in at + [end]:
        segs.append((lo, a + 1 if n == "split_inclusive" and a is not end else a))
        lo = a + 1
    if n in ("split_terminator", "split_inclusive"):
        e = eq0(st.facts.norm(segs[-1][1] - segs[-1][0]))
        d = st.facts.decide(e)
        if d is None:
            raise Fork(e)
        if d:
            segs.pop()
    if n in ("rsplit", "rsplitn"):
        segs = segs[::-1]
    el = tuple(("B", sub_text(sl, a, b)) for a, b in segs)
    return [(st, ("it", "val", ("seq", el, None), ZERO, K(len(el))))]


TEMPLATE = {"new_display": "d", "new_upper_hex": "X", "new_lower_hex": "x"}


def hex_digit(nib, how):
    if nib.const is not None:
        return K(ord(("%" + how) % nib.const))
    return mk_sym(("app", "hex" + how, nib), u8_ty())


def render_arg(ctx, st, a, flags, width, prec):
    """pieces of one formatted argument, or None"""
    if not (isinstance(a, tuple) and a[0] == "sym" and a[1][0] == "app" and a[1][1] in TEMPLATE and len(a[1]) == 4):
        return None
    how, v, ty = TEMPLATE[a[1][1]], a[1][2], a[1][3][1]
    while ty is not None and tk(ty) == "ref":
        ty = tinfo(ty)["e"]
    if how == "d":
        if width is not None or flags not in (0, None) and prec is None:
            return None
        if isinstance(v, tuple) and v[0] == "seq" and v[2] == u8_ty():
            if prec is None:
                return v[1]
            if all(p[0] == "B" and isinstance(p[1], Lin) and st.facts.decide(ge0(K(127) - p[1])) is True for p in v[1]):
                return v[1][:prec]
            return None
        if prec is not None:
            return None
        if isinstance(v, Lin) and ty is not None and tinfo(ty)["s"] == "char" and st.facts.decide(ge0(K(127) - v)) is True:
            return (("B", v),)
        return None
    if isinstance(v, Lin) and v.const is not None and v.const >= 0 and prec is None and (flags in (0, None) and width is None or flags & (1 << 24)):
        t = ("%" + how) % v.const
        return tuple(("B", K(ord(x))) for x in t.rjust(width or 0, "0"))
    if isinstance(v, Lin) and ty is not None and tinfo(ty)["s"] == "u8" and width == 2 and prec is None and flags is not None and flags & (1 << 24):
        bits = bits_or_opaque(v, 8)
        return tuple(("B", hex_digit(from_bits(b), how)) for b in (bits[4:], bits[:4]))
    return None


def render(ctx, st, v):
    """pieces of formatted text, or None"""
    if not (isinstance(v, tuple) and v[0] == "sym" and v[1][0] == "app"):
        return None
    a = v[1][2:]
    if v[1][1] in ("from_str", "new_const") and a and isinstance(a[0], tuple) and a[0][0] == "seq" and v[1][1] == "from_str":
        return a[0][1]
    if v[1][1] != "new" or len(a) < 2 or not all(isinstance(x, tuple) and x[0] == "seq" for x in a[:2]):
        return None
    t = []
    for p in a[0][1]:
        if p[0] != "B" or not isinstance(p[1], Lin) or p[1].const is None:
            return None
        t.append(p[1].const)
    av = []
    for p in a[1][1]:
        if p[0] != "B":
            return None
        av.append(p[1])
    out, i, nx = (), 0, 0

    def num(k):
        nonlocal i
        r = int.from_bytes(bytes(t[i:i + k]), "little")
        i += k
        return r
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80 or b == 0x80:
            if b == 0x80:
                b = num(2)
            out += tuple(("B", K(x)) for x in t[i:i + b])
            i += b
            continue
        if b < 0xc0 or b & 0x30:
            return None
        fl = num(4) if b & 1 else 0
        w = num(2) if b & 2 else None
        pr = num(2) if b & 4 else None
        if b & 8:
            nx = num(2)
        if nx >= len(av):
            return None
        ps = render_arg(ctx, st, av[nx], fl, w, pr)
        if ps is None:
            return None
        out += tuple(ps)
        nx += 1
    return out


@rmodel(r"std::slice::<impl \[T\]>::join", r"std::str::<impl std::slice::Join<&str> for \[S\]>::join", r"std::slice::<impl std::slice::Join<&T> for \[V\]>::join", r"std::slice::<impl std::slice::Join<&\[T\]> for \[V\]>::join")
def m_join(ctx, st, inst, args, rty):
    ps, ety = bytes_of(ctx, st, args[0])
    sep = args[1]
    try:
        sep, _ = bytes_of(ctx, st, sep)
    except Imprecise:
        sep = (("B", deref(ctx, st, sep)),)
    out = ()
    for n, p in enumerate(ps):
        if p[0] != "B":
            raise Imprecise("join")
        v = p[1]
        if isinstance(v, tuple) and v[0] == "ref":
            v = deref(ctx, st, v)
        q, _ = bytes_of(ctx, st, v)
        out += (tuple(sep) if n else ()) + tuple(q)
    return [(st, mk_seq(out, elem_ty(rty)))]


@rmodel(r"core::str::<impl str>::parse", r"core::str::<impl str>::(trim|trim_end|trim_start|trim_matches|trim_end_matches|trim_start_matches|split|to_lowercase|to_uppercase|to_ascii_lowercase|chars|char_indices|split_terminator|strip_suffix|strip_prefix|rsplit|splitn|rsplitn|find|rfind|split_once|rsplit_once|split_inclusive)",
        r"std::str::<impl str>::(to_lowercase|to_uppercase|to_ascii_lowercase|replace|to_ascii_uppercase)", r"core::slice::ascii::<impl \[u8\]>::(to_ascii_lowercase|to_ascii_uppercase)", r"std::slice::<impl \[u8\]>::to_ascii_(lower|upper)case")
def m_str_fn(ctx, st, inst, args, rty):
    n = inst["def"].split("::")[-1]
    try:
        return text_fn(ctx, st, n, args, rty)
    except Imprecise:
        pass
    a = [reify(ctx, st, x) for x in args]
    if n == "chars":
        return [(st, ("sym", ("app", n, tinfo(rty)["s"]) + tuple(a), rty))]
    return [(st, mk_sym(("app", n, tinfo(rty)["s"]) + tuple(a), rty))]


@rmodel(r"<std::str::Chars<'a> as std::iter::Iterator>::count")
def m_char_count(ctx, st, inst, args, rty):
    """as many as there are bytes in ASCII text, fewer in any other"""
    it = args[0]
    if it[0] == "it":
        return [(st, st.facts.norm(it[4] - it[3]))]
    if it[0] != "sym" or it[1][:2] != ("app", "chars") or it[1][3][0] != "seq":
        raise Imprecise("characters")
    n = st.facts.norm(seq_len(it[1][3]))
    k = st.facts.decide(ge0(n - 2))
    if k is None:
        raise Fork(ge0(n - 2))
    if not k:
        return [(st, n)]
    c = ("bv", ("ascii", it[1][3]))
    k = st.facts.decide(c)
    if k is None:
        raise Fork(c)
    if k:
        return [(st, n)]
    w = var(("wide", it[1][3]), 1, 1 << 62)
    s2 = st.assume(ge0(n.scale(3) - w.scale(4)))
    return [(s2, n - w)] if s2 is not None else []


# ---------------------------------------------------------------- characters
ASCII = {"is_ascii": [(0, 127)], "is_ascii_digit": [(48, 57)], "is_ascii_uppercase": [(65, 90)], "is_ascii_lowercase": [(97, 122)], "is_ascii_alphabetic": [(65, 90), (97, 122)],
         "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)], "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)], "is_ascii_control": [(0, 31), (127, 127)],
         "is_ascii_graphic": [(33, 126)], "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)], "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)]}


def within(st, x, ranges):
    """whether a number lies in one of the ranges; splits the state where that is open"""
    for lo, hi in ranges:
        k = st.facts.decide(ge0(x - lo))
        if k is None:
            raise Fork(ge0(x - lo))
        if not k:
            return False
        k = st.facts.decide(ge0(K(hi) - x))
        if k is None:
            raise Fork(ge0(K(hi) - x))
        if k:
            return True
    return False


@rmodel(r"(core|std)::(num|char::methods)::<impl (u8|char)>::(is_ascii\w*|to_ascii_(lower|upper)case|eq_ignore_ascii_case)")
def m_ascii(ctx, st, inst, args, rty):
    n = inst["def"].split("::")[-1]
    xs = [deref_all(ctx, st, a) for a in args]
    if not all(isinstance(x, Lin) for x in xs):
        raise Imprecise("character")

    def lower(x):
        return x + 32 if within(st, x, [(65, 90)]) else x
    if n in ASCII:
        return [(st, ("b", within(st, xs[0], ASCII[n])))]
    if n == "to_ascii_lowercase":
        return [(st, lower(xs[0]))]
    if n == "to_ascii_uppercase":
        return [(st, xs[0] - 32 if within(st, xs[0], [(97, 122)]) else xs[0])]
    if n == "eq_ignore_ascii_case":
        return [(st, ("b", eq0(lower(xs[0]) - lower(xs[1]))))]
    raise Imprecise("character")


# ---------------------------------------------------------------- modular_bitfield
def bit_width(inst):
    m = re.search(r"prelude::B(\d+)", inst["name"])
    if m:
        return int(m.group(1))
    if "bool" in inst["name"]:
        return 1
    raise Imprecise("specifier width")


@rmodel(r"modular_bitfield::private::(\w+::)?read_specifier")
def m_read_spec(ctx, st, inst, args, rty):
    w = bit_width(inst)
    sl = to_slice(ctx, st, args[0])
    ps, ety = pieces(ctx, st, sl)
    off = args[1].const
    n = st.facts.norm(sl[4]).const
    if off is None or n is None:
        raise Imprecise("read_specifier")
    bits = []
    for b in elems(ctx, st, ("seq", ps, ety), n):
        bits += bits_or_opaque(b, 8)
    return [(st, from_bits(bits[off:off + w]))]


@rmodel(r"modular_bitfield::private::(\w+::)?write_specifier")
def m_write_spec(ctx, st, inst, args, rty):
    w = bit_width(inst)
    sl = to_slice(ctx, st, args[0])
    ps, ety = pieces(ctx, st, sl)
    off = args[1].const
    n = st.facts.norm(sl[4]).const
    if off is None or n is None:
        raise Imprecise("write_specifier")
    bits = []
    for b in elems(ctx, st, ("seq", ps, ety), n):
        bits += bits_or_opaque(b, 8)
    v = args[2]
    v = b2i(v[1]) if isinstance(v, tuple) and v[0] == "b" else st.facts.norm(ctx.as_int(v))
    bits[off:off + w] = bits_or_opaque(v, w)
    bs = tuple(("B", from_bits(bits[8 * i:8 * i + 8])) for i in range(n))
    base = ctx.read(st, sl[1], sl[2])
    b, rest = split_at(base[1], sl[3], st.facts, base[2])
    _, a = split_at(rest, sl[4], st.facts, base[2])
    ctx.write(st, sl[1], sl[2], mk_seq(b + bs + a, base[2]))
    return [(st, UNIT)]


@rmodel(r"<modular_bitfield::prelude::B\d+ as modular_bitfield::Specifier>::into_bytes")
def m_into_bytes(ctx, st, inst, args, rty):
    w = bit_width(inst)
    x = st.facts.norm(ctx.as_int(args[0]))
    c = ge0(K((1 << w) - 1) - x)
    out = []
    s = st.assume(c)
    if s is not None:
        out.append((s, mkv(rty, "Ok", s.facts.norm(x))))
    s = st.assume(neg(c))
    if s is not None:
        out.append((s, mkv(rty, "Err", ("sym", ("zst", "OutOfBounds"), payload_ty(rty, "Err")))))
    return out


@rmodel(r"<modular_bitfield::prelude::B\d+ as modular_bitfield::Specifier>::from_bytes")
def m_from_bytes(ctx, st, inst, args, rty):
    w = bit_width(inst)
    x = st.facts.norm(ctx.as_int(args[0]))
    c = ge0(K((1 << w) - 1) - x)
    out = []
    s = st.assume(c)
    if s is not None:
        out.append((s, mkv(rty, "Ok", x)))
    s = st.assume(neg(c))
    if s is not None:
        out.append((s, mkv(rty, "Err", ("sym", ("zst", "InvalidBitPattern"), payload_ty(rty, "Err")))))
    return out


# ---------------------------------------------------------------- iterators
@rmodel(r"core::slice::<impl \[T\]>::iter(_mut)?", r"core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter", r"<&'a (mut )?std::vec::Vec<T(, A)?> as std::iter::IntoIterator>::into_iter",
        r"std::collections::(BTreeSet|HashSet)::<T.*>::iter", r"<&'a std::collections::(BTreeSet|HashSet)<T.*> as std::iter::IntoIterator>::into_iter",
        r"std::array::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter", r"std::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter")
def m_iter(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    if "BTree" in inst["def"]:
        s = deref(ctx, st, args[0])
        if s[0] == "seq":
            t = in_order(ctx, st, s, "id")
            if t is not s:
                sl = ("sl", new_cell(st, t), (), ZERO, seq_len(t))
    return [(st, ("it", "ref", sl, ZERO, st.facts.norm(sl[4])))]


def in_order(ctx, st, s, key):
    """a B-tree seen in the order of its keys: what was inserted, sorted"""
    ps = s[1]
    if not ps or (len(ps) == 1 and ps[0][0] in ("B", "Blob") and not has_ho_cells(ctx, st, ps)):
        return s
    return ("seq", sorted_pieces(ctx, st, ps, s[2], key), s[2])


@rmodel(r"<std::vec::Vec<T(, A)?> as std::iter::IntoIterator>::into_iter", r"std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter",
        r"<std::collections::(BTreeSet|HashSet)<T.*> as std::iter::IntoIterator>::into_iter", r"std::array::<impl std::iter::IntoIterator for \[T; N\]>::into_iter",
        r"core::str::<impl str>::bytes")
def m_into_iter(ctx, st, inst, args, rty):
    s = args[0]
    if s[0] == "sl":
        s = deref(ctx, st, s)
    if s[0] != "seq":
        raise Imprecise("into_iter")
    if "BTree" in inst["def"]:
        s = in_order(ctx, st, s, "id")
    return [(st, ("it", "val", s, ZERO, st.facts.norm(seq_len(s))))]


def hash_order(ps):
    """the same elements in an unspecified order"""
    return tuple(("Blob", ("ho", p[1]), p[2], p[3]) if p[0] == "Blob" and p[1][0] == "map" else p for p in ps)


@rmodel(r"std::collections::(HashMap|BTreeMap)::<K, V.*>::(iter|keys|values|iter_mut|values_mut)", r"<&'a (mut )?std::collections::(HashMap|BTreeMap)<K, V.*> as std::iter::IntoIterator>::into_iter")
def m_map_iter(ctx, st, inst, args, rty):
    r = args[0]
    s = deref(ctx, st, r)
    if s[0] != "seq":
        raise Imprecise("map iter")
    kind = inst["def"].split("::")[-1]
    kind = "kv" if kind in ("iter", "into_iter") else kind
    if kind.endswith("_mut"):
        raise Imprecise("iter_mut")
    if "HashMap" in inst["def"]:
        c = new_cell(st, ("seq", hash_order(s[1]), s[2]))
        sl = ("sl", c, (), ZERO, seq_len(s))
    else:
        t = in_order(ctx, st, s, "map:key")
        sl = ("sl", r[1], r[2], ZERO, seq_len(s)) if t is s else ("sl", new_cell(st, t), (), ZERO, seq_len(t))
    return [(st, ("it", kind, sl, ZERO, st.facts.norm(seq_len(s))))]


@rmodel(r"<std::collections::(HashMap|BTreeMap)<K, V.*> as std::iter::IntoIterator>::into_iter")
def m_map_into_iter(ctx, st, inst, args, rty):
    s = args[0]
    if s[0] != "seq":
        raise Imprecise("map into_iter")
    if "HashMap" in inst["def"]:
        s = ("seq", hash_order(s[1]), s[2])
    else:
        s = in_order(ctx, st, s, "map:key")
    return [(st, ("it", "val", s, ZERO, st.facts.norm(seq_len(s))))]


def it_elem(ctx, st, it, ix):
    k = it[1]
    if k == "ref":
        return elem_ref(it[2], ix)
    if k == "val":
        return seq_elem(it[2], ix, st.facts)
    r = elem_ref(it[2], ix)
    a, b = ("ref", r[1], r[2] + (("f", 0),)), ("ref", r[1], r[2] + (("f", 1),))
    if k == "kv":
        return ("tup", (a, b))
    if k == "keys":
        return a
    if k == "values":
        return b
    if k == "chunks":
        raise Imprecise("chunks elem")
    raise Imprecise("it_elem")


@rmodel(r"<std::(slice::(Iter|IterMut|Chunks|ChunksExact)|vec::IntoIter|array::IntoIter|collections::\w+::\w+|str::\w+)<.*> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)", r"<std::str::Bytes<'_> as std::iter::Iterator>::next")
def m_next(ctx, st, inst, args, rty):
    r = args[0]
    it = deref(ctx, st, r)
    if it[0] != "it":
        raise Imprecise("next on %s" % it[0])
    i, j = st.facts.norm(it[3]), st.facts.norm(it[4])
    c = ge0(j - i - 1)
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if not d:
        return [(st, none(rty))]
    if it[1] == "chunks":
        n = it[5]
        # remaining length j - i; chunk = min(n, rest)
        c2 = ge0(j - i - n)
        d2 = st.facts.decide(c2)
        if d2 is None:
            raise Fork(c2)
        sl = it[2]
        w = n if d2 else j - i
        v = ("sl", sl[1], sl[2], sl[3] + i, w)
        ctx.write(st, r[1], r[2], ("it", "chunks", sl, i + w, j, n))
        return [(st, some(rty, v))]
    if inst["def"].endswith("next_back"):
        v = it_elem(ctx, st, it, j - 1)
        ctx.write(st, r[1], r[2], it[:4] + (j - 1,) + it[5:])
    else:
        v = it_elem(ctx, st, it, i)
        ctx.write(st, r[1], r[2], it[:3] + (i + 1,) + it[4:])
    return [(st, some(rty, v))]


@rmodel(r"core::slice::<impl \[T\]>::chunks(_exact)?")
def m_chunks(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    n = st.facts.norm(args[1])
    st = ctx.require(st, ge0(n - 1), "chunk size")
    if st is None:
        return []
    j = st.facts.norm(sl[4])
    if inst["def"].endswith("exact"):
        if n.const is None:
            raise Imprecise("chunks_exact")
        q, r = ctx.divmod(st, j, n, next(i for i, t in enumerate(ctx.prog.types) if t["k"] == "uint" and t["bits"] == 64))
        j = q.scale(n.const)
    return [(st, ("it", "chunks", sl, ZERO, j, n))]


@rmodel(r"<std::(slice::\w+|vec::IntoIter|array::IntoIter|collections::\w+::\w+)<.*> as std::iter::(Iterator|ExactSizeIterator)>::(len|count|size_hint)")
def m_it_len(ctx, st, inst, args, rty):
    it = args[0]
    if it[0] == "ref":
        it = deref(ctx, st, it)
    if it[0] != "it" or it[1] == "chunks":
        raise Imprecise("it len")
    n = st.facts.norm(it[4] - it[3])
    if inst["def"].endswith("size_hint"):
        oty = tinfo(rty)["f"][1]
        return [(st, ("tup", (n, some(oty, n))))]
    return [(st, n)]


@rmodel(r"<std::(slice::\w+|vec::IntoIter|array::IntoIter|collections::\w+::\w+)<.*> as std::clone::Clone>::clone")
def m_it_clone(ctx, st, inst, args, rty):
    return [(st, deref(ctx, st, args[0]))]


@rmodel(r"core::slice::iter::Iter::<'a, T>::as_slice", r"std::slice::Iter::<'a, T>::as_slice")
def m_it_slice(ctx, st, inst, args, rty):
    it = deref(ctx, st, args[0])
    if it[0] != "it" or it[1] != "ref":
        raise Imprecise("as_slice")
    sl = it[2]
    return [(st, ("sl", sl[1], sl[2], sl[3] + it[3], it[4] - it[3]))]


@rmodel(r"<std::(slice::\w+|vec::IntoIter|array::IntoIter)<.*> as std::iter::Iterator>::nth")
def m_nth(ctx, st, inst, args, rty):
    r = args[0]
    it = deref(ctx, st, r)
    if it[0] != "it" or it[1] == "chunks":
        raise Imprecise("nth")
    i, j = st.facts.norm(it[3] + args[1]), st.facts.norm(it[4])
    c = ge0(j - i - 1)
    d = st.facts.decide(c)
    if d is None:
        raise Fork(c)
    if not d:
        ctx.write(st, r[1], r[2], it[:3] + (j,) + it[4:])
        return [(st, none(rty))]
    v = it_elem(ctx, st, it, i)
    ctx.write(st, r[1], r[2], it[:3] + (i + 1,) + it[4:])
    return [(st, some(rty, v))]


def drive(ctx, st, it, nexter, body, key):
    """run `body(st, elem)` for every element; body -> [(st, continue?)].  Exits: (st, finished?)"""
    itc = new_cell(st, it)
    flag = {}

    def step(s):
        out = []
        for s2, e in nexter(s, itc):
            if e is None:
                out.append(("exit", s2, 0))
            else:
                for s3, cont in body(s2, e):
                    out.append(("back", s3) if cont else ("exit", s3, 1))
        return out
    return [(o[1], o[2] == 0) for o in ctx.loop(st, step, key)]


def native_next(ctx):
    """`next` on one of our own iterator values, forking on emptiness"""
    def f(s, itc):
        it = s.mem[itc]
        i, j = s.facts.norm(it[3]), s.facts.norm(it[4])
        c = ge0(j - i - 1)
        out = []
        a = s.assume(c)
        if a is not None:
            try:
                for s2, v in forked(ctx, a, lambda z: it_elem(ctx, z, it, i)):
                    s2.mem[itc] = it[:3] + (i + 1,) + it[4:]
                    out.append((s2, v))
            except Imprecise:
                raise
        b = s.assume(neg(c))
        if b is not None:
            out.append((b, None))
        return out
    return f


def forked(ctx, st, f, depth=0):
    try:
        s = st.copy()
        return [(s, f(s))]
    except Fork as e:
        if depth > 10:
            raise Imprecise("fork depth")
        out = []
        for c in (e.cond, neg(e.cond)):
            s = st.assume(c)
            if s is not None:
                out += forked(ctx, s, f, depth + 1)
        return out


@rmodel(r"<std::(slice::(Iter|IterMut)|vec::IntoIter|array::IntoIter)<.*> as std::iter::Iterator>::__iterator_get_unchecked")
def m_get_unchecked(ctx, st, inst, args, rty):
    it = deref(ctx, st, args[0])
    if it[0] != "it" or it[1] not in ("ref", "val"):
        raise Imprecise("element")
    return [(st, it_elem(ctx, st, it, st.facts.norm(it[3] + ctx.as_int(args[1]))))]


def inst_next(ctx, next_inst, opt_ty):
    def f(s, itc):
        out = []
        for s2, v in ctx.call(next_inst, [("ref", itc, ())], s, opt_ty):
            out += option_split(ctx, s2, v)
        return out
    return f


def ret_ty(inst):
    return inst["body"]["locals"][0] if "body" in inst else None


ITER_OPS = r"<std::(slice::(Iter|IterMut)|vec::IntoIter|array::IntoIter|collections::\w+::\w+)<.*> as std::iter::Iterator>::"


@rmodel(ITER_OPS + r"fold")
def m_fold(ctx, st, inst, args, rty):
    it, init, f = args
    if it[0] != "it" or it[1] == "chunks":
        raise Imprecise("fold on %s" % it[0])
    acc = new_cell(st, init)
    fc = new_cell(st, f)   # the closure keeps its state from call to call

    def body(s, e):
        r = []
        for s2, v in ctx.call_value(("ref", fc, ()), [s.mem[acc], e], s, rty):
            s2 = s2.copy()
            s2.mem[acc] = v
            r.append((s2, True))
        return r
    outs = drive(ctx, st, it, native_next(ctx), body, ("native", inst["name"], 0))
    return [(s, s.mem[acc]) for s, _ in outs]


@rmodel(ITER_OPS + r"for_each")
def m_for_each(ctx, st, inst, args, rty):
    it, f = args
    if it[0] != "it" or it[1] == "chunks":
        raise Imprecise("for_each on %s" % it[0])
    fc = new_cell(st, f)

    def body(s, e):
        return [(s2, True) for s2, v in ctx.call_value(("ref", fc, ()), [e], s, rty)]
    return [(s, UNIT) for s, _ in drive(ctx, st, it, native_next(ctx), body, ("native", inst["name"], 0))]


@rmodel(ITER_OPS + r"(all|any|find|find_map|position|rposition)")
def m_all(ctx, st, inst, args, rty):
    op = inst["def"].split("::")[-1]
    r, f = args
    it = deref(ctx, st, r)
    if it[0] != "it" or it[1] != "ref":
        raise Imprecise("all")
    # uninterpreted predicate of the elements: named by the closure and the sequence
    if op in ("all", "any"):
        ix = index_atom()
        n = st.facts.norm(it[4] - it[3])
        if n.const is not None and n.const <= 24:
            states = [(st, None)]
            out = []
            cur = [st]
            for q in range(n.const):
                nxt = []
                for s in cur:
                    e = it_elem(ctx, s, it, it[3] + q)
                    for s2, v in ctx.call_value(f, [e], s, rty):
                        c = v[1] if isinstance(v, tuple) and v[0] == "b" else ("bv", fresh_term("pred"))
                        a, b = s2.assume(c), s2.assume(neg(c))
                        go, stop = (a, b) if op == "all" else (b, a)
                        if stop is not None:
                            out.append((stop, ("b", op == "any")))
                        if go is not None:
                            nxt.append(go)
                cur = nxt
            return out + [(s, ("b", op == "all")) for s in cur]
        s = st.copy()
        k = L(index_atom())
        rec, ctx.record = ctx.record, ctx.record
        body_s = s.assume(ge0(k))
        body_s = body_s.assume(ge0(n - k - 1)) if body_s is not None else None
        conds = []
        if body_s is not None:
            ctx.generic += 1
            try:
                for s2, v in ctx.call_value(f, [it_elem(ctx, body_s, it, it[3] + k)], body_s, rty):
                    c = v[1] if isinstance(v, tuple) and v[0] == "b" else ("bv", fresh_term("pred"))
                    path = s2.trail[len(body_s.trail):]
                    conds.append(c_and(*(path + (c,))))
            finally:
                ctx.generic -= 1
        c = c_or(*conds) if conds else False
        v = bound_var(max_bound(c) + 1 if isinstance(c, tuple) else 0)
        c = subst(c, {k.atom(): L(v)}) if isinstance(c, tuple) else c
        if c is True:
            return [(st, ("b", True if op == "all" else ge0(n - 1)))]
        if c is False:
            return [(st, ("b", False if op == "any" else eq0(n)))]
        return [(st, ("b", ("bv", (op, n, v, c))))]
    if op == "rposition":
        raise Imprecise(op)
    n = st.facts.norm(it[4] - it[3])
    if (n.const is None or n.const > 24) and ctx.rounds is None:
        raise Imprecise(op)
    # up to the first hit
    fc, res = new_cell(st, f), new_cell(st, mkv(rty, "None"))
    while True:
        x = ctx.read(st, r[1], r[2])
        if isinstance(x, tuple) and x[0] == "ref":
            r = x
            continue
        break
    itc = new_cell(st, it)
    nexter = native_next(ctx)

    def step(s):
        out = []
        i0 = s.facts.norm(s.mem[itc][3])
        for s2, e in nexter(s, itc):
            if e is None:
                out.append(("exit", s2, 0))
                continue
            arg = ("ref", new_cell(s2, e), ()) if op == "find" else e
            for s3, v in ctx.call_value(("ref", fc, ()), [arg], s2, rty):
                if op == "find_map":
                    hits = option_split(ctx, s3, v)
                else:
                    c = v[1] if isinstance(v, tuple) and v[0] == "b" else ("bv", fresh_term("pred"))
                    hit = e if op == "find" else i0 - it[3]
                    hits = [(z, h) for z, h in ((s3.assume(c), hit), (s3.assume(neg(c)), None)) if z is not None]
                for z, h in hits:
                    z = z.copy()
                    if h is not None:
                        z.mem[res] = mkv(rty, "Some", h)
                    out.append(("back", z) if h is None else ("exit", z, 1))
        return out
    outs = []
    for o in ctx.loop(st, step, ("native", inst["name"], 0)):
        z = o[1].copy()
        ctx.write(z, r[1], r[2], z.mem[itc])
        outs.append((z, z.mem[res]))
    return outs


def iter_info(ctx, inst, k=None):
    l = inst.get("iters") or []
    if not l:
        raise Imprecise("no iterator info for %s" % inst["name"])
    return l[-1] if k is None else l[k]


def into_it(ctx, st, inst, v):
    """call IntoIterator::into_iter when needed; -> [(st, it, next_inst)]"""
    tyid, into, nxt = iter_info(ctx, inst)
    if isinstance(v, tuple) and v[0] == "it":
        return [(st, v, nxt)]
    if into is None:
        return [(st, v, nxt)]
    ii = ctx.prog.insts[into]
    return [(s, w, nxt) for s, w in ctx.call(ii, [v], st, None if "body" not in ii else ret_ty(ii))]


def next_opt_ty(ctx, nxt):
    i = ctx.prog.insts[nxt]
    if "body" in i:
        return ret_ty(i)
    return i.get("ret")


def copy_through(ctx, st, e):
    """`extend` over &T copies the element"""
    return deref(ctx, st, e) if isinstance(e, tuple) and e[0] == "ref" else e


def feed(ctx, st, inst, v, target, put, byref, ety):
    """push all items of the (into-)iterator v into the sequence in cell/path `target`"""
    res = []
    for s, it, nxt in into_it(ctx, st, inst, v):
        if it[0] == "it" and it[1] in ("ref", "val") and (byref or it[1] == "val"):
            src = it[2] if it[1] == "val" else ctx.read(s, it[2][1], it[2][2])
            base = ZERO if it[1] == "val" else it[2][3]
            if src[0] == "seq":
                ps = slice_pieces(src[1], s.facts.norm(base + it[3]), s.facts.norm(it[4] - it[3]), s.facts, src[2])
                t = ctx.read(s, *target)
                ctx.write(s, target[0], target[1], mk_seq(t[1] + ps, t[2]))
                res.append(s)
                continue
        if nxt is None:
            raise Imprecise("no next")
        ni = ctx.prog.insts[nxt]

        def body(s2, e):
            if byref:
                e = copy_through(ctx, s2, e)
            t = ctx.read(s2, *target)
            if isinstance(e, Lin):
                e = emit(ctx, s2, e, ety)
            ctx.write(s2, target[0], target[1], put(t, e))
            return [(s2, True)]
        if it[0] == "it" and it[1] != "chunks":
            nx = native_next(ctx)
        else:
            oty = next_opt_ty(ctx, nxt)
            if oty is None:
                raise Imprecise("next without type")
            nx = inst_next(ctx, ni, oty)
        for s3, _ in drive(ctx, s, it, nx, body, ("native", inst["name"], 0)):
            res.append(s3)
    return res


def put_end(t, e):
    return mk_seq(t[1] + (("B", e),), t[2])


def put_kv(t, e):
    return ("seq", norm_pieces(t[1] + (("B", e),), t[2]), t[2])


@rmodel(r"<std::vec::Vec<T(, A)?> as std::iter::Extend<.*>>::extend", r"<std::string::String as std::iter::Extend<.*>>::extend", r"<std::collections::(BTreeSet|HashMap|HashSet|BTreeMap)<.*> as std::iter::Extend<.*>>::extend")
def m_extend(ctx, st, inst, args, rty):
    r, v = args
    t = deref(ctx, st, r)
    if t[0] != "seq":
        raise Imprecise("extend on %s" % t[0])
    byref = "Extend<&" in inst["def"]
    return [(s, UNIT) for s in feed(ctx, st, inst, v, (r[1], r[2]), put_end, byref, t[2])]


@rmodel(r"<std::(vec::Vec|string::String|collections::\w+)<?.*>? as std::iter::FromIterator<.*>>::from_iter", r"<std::collections::\w+<.*> as std::convert::From<\[.*\]>>::from")
def m_from_iter(ctx, st, inst, args, rty):
    ety = elem_ty(rty)
    c = new_cell(st, ("seq", (), ety))
    return [(s, s.mem[c]) for s in feed(ctx, st, inst, args[0], (c, ()), put_end, False, ety)]


@rmodel(r"<std::result::Result<V, E> as std::iter::FromIterator<.*>>::from_iter", r"<std::option::Option<V> as std::iter::FromIterator<.*>>::from_iter")
def m_try_from_iter(ctx, st, inst, args, rty):
    """collect into Result<V, E> / Option<V>: stops at the first Err / None"""
    good = "Ok" if "Result" in inst["def"] else "Some"
    vs = variants(rty)
    gi = next(n for n, v in enumerate(vs) if v["n"] == good)
    vty = vs[gi]["f"][0][1]
    ety = elem_ty(vty)
    c = new_cell(st, ("seq", (), ety))
    out = []
    for s, it, nxt in into_it(ctx, st, inst, args[0]):
        if nxt is None:
            raise Imprecise("no next")
        oty = next_opt_ty(ctx, nxt)
        if oty is None:
            raise Imprecise("next without type")
        res = new_cell(s, ("uninit",))

        def body(s2, e):
            r = []
            for s3, i, fs in variant_split(ctx, s2, e):
                if variants(ctx.type_of(e))[i]["n"] == good:
                    x = fs[0]
                    if isinstance(x, Lin):
                        x = emit(ctx, s3, x, ety)
                    ctx.write(s3, c, (), put_end(ctx.read(s3, c, ()), x))
                    r.append((s3, True))
                else:
                    bi = 1 - gi
                    s3.mem[res] = ("adt", rty, bi, fs)
                    r.append((s3, False))
            return r
        nx = native_next(ctx) if it[0] == "it" and it[1] != "chunks" else inst_next(ctx, ctx.prog.insts[nxt], oty)
        for s3, fin in drive(ctx, s, it, nx, body, ("native", inst["name"], 0)):
            out.append((s3, ("adt", rty, gi, (s3.mem[c],)) if fin else s3.mem[res]))
    return out


def variant_split(ctx, st, v):
    """[(state, variant index, fields)] of an enum value"""
    if v[0] == "adt":
        return [(st, v[2], v[3])]
    if v[0] != "sym" or not variants(v[2]):
        raise Imprecise("variants of %s" % v[0])
    d = L(discr_atom(v[1], v[2]))
    out = []
    for i, w in enumerate(variants(v[2])):
        s = st.assume(eq0(d - w["d"]))
        if s is not None:
            out.append((s, i, sym_fields(v, i)))
    return out


@rmodel(r"std::slice::<impl \[T\]>::(sort|sort_unstable|sort_by|sort_by_key|sort_by_cached_key)", r"core::slice::<impl \[T\]>::(sort_unstable|sort_unstable_by|sort_unstable_by_key)")
def m_sort(ctx, st, inst, args, rty):
    sl = to_slice(ctx, st, args[0])
    base = ctx.read(st, sl[1], sl[2])
    ps, ety = pieces(ctx, st, sl)
    if sl[3] != ZERO or st.facts.norm(sl[4]) != st.facts.norm(seq_len(base)):
        raise Imprecise("partial sort")
    if explicit(ctx, ps) and len(ps) > 1:
        out = []
        for s, q in sort_explicit(ctx, st, inst, args, ps):
            s = s.copy()
            ctx.write(s, sl[1], sl[2], ("seq", tuple(q), ety))
            out.append((s, UNIT))
        return out
    key = inst["def"].split("::")[-1]
    if key in ("sort", "sort_unstable"):
        key = "id"
    key += ":" + sort_key(ctx, st, args[1], ps, ety) if len(args) > 1 else ""
    new = sorted_pieces(ctx, st, ps, ety, key)
    ctx.write(st, sl[1], sl[2], ("seq", new, ety))
    return [(st, UNIT)]


def sort_key(ctx, st, f, ps, ety):
    """what a sort_by_key closure looks at: 'key' when it is the map key"""
    if not ps or ps[0][0] not in ("star", "Blob", "B"):
        return "?"
    if f[0] != "clo":
        return "?"
    i = ctx.prog.insts[ctx.prog.types[f[1]]["inst"]]
    probe = ("tup", (("ref", ("d", ("probe", 0), u8_ty()), ()), ("ref", ("d", ("probe", 1), u8_ty()), ())))
    s = st.copy()
    c = new_cell(s, probe)
    try:
        outs = ctx.call_value(f, [("ref", c, ())], s, ret_ty(i))
    except Exception:
        return "?"
    if len(outs) == 1:
        v = outs[0][1]
        if v == var(("probe", 0), 0, 255) or v == ("ref", ("d", ("probe", 0), u8_ty()), ()):
            return "key"
    return "?"


def sorted_pieces(ctx, st, ps, ety, key):
    def unho(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "ho":
                return x[1]
            return tuple(unho(y) for y in x)
        if isinstance(x, Lin):
            return x
        return x
    if has_ho_cells(ctx, st, ps) and key.endswith(":key"):
        # entries of a map in key order: the canonical order of the map
        out = []
        for p in ps:
            out.append(p)
        return retarget(ctx, st, tuple(out))
    if all(p[0] == "B" for p in ps) and len(ps) <= 1:
        return ps
    if getattr(ctx, "enum_order", False) and all(p[0] == "B" and isinstance(p[1], tuple) and p[1][0] == "adt" and not p[1][3] for p in ps):
        # enumerations are ordered by their discriminants
        return tuple(sorted(set(ps), key=lambda p: variants(p[1][1])[p[1][2]]["d"]))
    t = ("sorted", key, reify_pieces(ctx, st, ps))
    return (("Blob", t, ZERO, pieces_len(ps)),)


def reify_pieces(ctx, st, ps):
    return tuple(ps)


def ho_cells(x, st, out):
    if isinstance(x, tuple):
        if x and x[0] in ("ref", "sl"):
            v = st.mem.get(x[1])
            if isinstance(v, tuple) and v[0] == "seq" and any(p[0] == "Blob" and p[1][0] == "ho" for p in v[1]):
                out.add(x[1])
            return
        for y in x:
            ho_cells(y, st, out)


def has_ho_cells(ctx, st, ps):
    out = set()
    ho_cells(ps, st, out)
    return bool(out)


def retarget(ctx, st, ps):
    """references into the hash-ordered view become references into the canonical order"""
    out = set()
    ho_cells(ps, st, out)
    m = {}
    for c in out:
        v = st.mem[c]
        n = new_cell(st, ("seq", tuple(("Blob", p[1][1], p[2], p[3]) if p[0] == "Blob" and p[1][0] == "ho" else p for p in v[1]), v[2]))
        m[c] = n

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] in ("ref", "sl") and x[1] in m:
                return (x[0], m[x[1]]) + x[2:]
            return tuple(go(y) for y in x)
        return x
    return go(ps)


# ---------------------------------------------------------------- sets and maps
@rmodel(r"std::collections::(BTreeSet|HashSet)::<T.*>::insert")
def m_set_insert(ctx, st, inst, args, rty):
    r, v = args
    s = deref(ctx, st, r)
    if s[0] != "seq":
        raise Imprecise("set insert")
    ctx.write(st, r[1], r[2], mk_seq(s[1] + (("B", v),), s[2]))
    if not s[1]:
        return [(st, ("b", True))]
    return [(st, ("b", ("bv", ("app", "fresh_in_set", s, v))))]


@rmodel(r"std::collections::(HashMap|BTreeMap)::<K, V.*>::insert")
def m_map_insert(ctx, st, inst, args, rty):
    r, k, v = args
    s = deref(ctx, st, r)
    if s[0] != "seq":
        raise Imprecise("map insert")
    st.event(("map_insert", reify(ctx, st, s), reify(ctx, st, k), reify(ctx, st, v)))
    ctx.write(st, r[1], r[2], mk_seq(s[1] + (("B", ("tup", (k, v))),), s[2]))
    return [(st, mk_sym(("app", "map_insert_old", reify(ctx, st, s), reify(ctx, st, k)), rty))]


@rmodel(r"std::collections::(HashMap|BTreeMap)::<K, V.*>::(get|get_mut|contains_key)")
def m_map_get(ctx, st, inst, args, rty):
    r, k = args
    s = deref(ctx, st, r)
    k = reify(ctx, st, k)
    t = ("app", "map_get", reify(ctx, st, s), k)
    st.event(("map_get", reify(ctx, st, s), k))
    if s[0] == "seq" and not s[1]:
        return [(st, ("b", False) if tk(rty) == "bool" else none(rty))]
    c = ("bv", t)
    if tk(rty) == "bool":
        return [(st, ("b", c))]
    if inst["def"].endswith("get_mut"):
        raise Imprecise("get_mut")
    out = []
    a = st.assume(c)
    if a is not None:
        vt = tinfo(payload_ty(rty, "Some"))["e"]
        out.append((a, some(rty, ("ref", ("d", ("mapval", t), vt), ()))))
    b = st.assume(neg(c))
    if b is not None:
        out.append((b, none(rty)))
    return out


@rmodel(r"std::collections::(HashMap|BTreeMap|HashSet|BTreeSet)::<.*>::(remove|contains|clear|retain|entry|get_or_insert_with|first|last|first_key_value|last_key_value|pop_first)")
def m_map_misc(ctx, st, inst, args, rty):
    raise Imprecise("map operation")


# ---------------------------------------------------------------- hashing
@model("std::hash::DefaultHasher::new")
def m_hasher(ctx, st, inst, args, rty):
    return [(st, ("sym", ("hasher", ()), rty))]


@rmodel(r"core::hash::impls::<impl std::hash::Hash for .*>::hash", r"<std::vec::Vec<T, A> as std::hash::Hash>::hash", r"<std::\w+::\w+.* as std::hash::Hash>::hash")
def m_hash(ctx, st, inst, args, rty):
    h = deref(ctx, st, args[1])
    v = reify(ctx, st, args[0])
    if h[0] != "sym":
        raise Imprecise("hasher")
    ctx.write(st, args[1][1], args[1][2], ("sym", ("hasher", h[1], v), h[2]))
    return [(st, UNIT)]


@rmodel(r"<std::hash::DefaultHasher as std::hash::Hasher>::finish")
def m_finish(ctx, st, inst, args, rty):
    h = deref(ctx, st, args[0])
    return [(st, mk_sym(("app", "hash", h[1] if h[0] == "sym" else fresh_term("h")), rty))]


@rmodel(r"<std::hash::DefaultHasher as std::hash::Hasher>::(write.*)")
def m_hwrite(ctx, st, inst, args, rty):
    h = deref(ctx, st, args[0])
    v = reify(ctx, st, args[1])
    if inst["def"].endswith("::write") or inst["def"].endswith("::write_str"):
        v = ("raw", v)      # bytes without their number
    ctx.write(st, args[0][1], args[0][2], ("sym", ("hasher", h[1], v), h[2]))
    return [(st, UNIT)]


# ---------------------------------------------------------------- time, fmt, misc
@rmodel(r"std::time::(Duration|SystemTime|Instant)::.*", r"<std::time::.*> as .*")
def m_time(ctx, st, inst, args, rty):
    return [(st, mk_sym(("app", inst["def"].split("::")[-1]) + tuple(reify(ctx, st, a) for a in args), rty))]


@rmodel(r"core::fmt::rt::.*", r"std::fmt::Arguments::<'a>::.*", r"std::fmt::rt::.*")
def m_fmt_arg(ctx, st, inst, args, rty):
    n = inst["def"].split("::")[-1]
    a = tuple(reify(ctx, st, a) for a in args)
    if n in TEMPLATE:
        ty = [x for x in inst["args"] if isinstance(x, int)]
        a += (("ty", ty[-1] if ty else None),)
    return [(st, ("sym", ("app", n) + a, rty))]


def fmt_out(ctx, st, what, rty):
    c = ("F", 0)
    s = st.mem.get(c)
    if s is None:
        s = ("seq", (), u8_ty())
    st.mem[c] = ("seq", s[1] + (("B", ("tup", (what,))),), s[2])
    if tk(rty) == "adt":
        return [(st, mk_sym(("app", "fmt_result", what), rty))]
    return [(st, mk_sym(("app", "fmt", what), rty))]


@rmodel(r"std::fmt::Formatter::<'a>::.*", r"std::fmt::Write::write_fmt", r"std::fmt::(DebugStruct|DebugTuple|DebugList|DebugSet|DebugMap)::.*", r"<std::string::String as std::fmt::Write>::.*", r"core::fmt::.*::fmt", r"<.* as std::fmt::(Display|Debug|UpperHex|LowerHex)>::fmt")
def m_fmt(ctx, st, inst, args, rty):
    if inst["crate"] not in PURE_CRATES:
        raise Imprecise("fmt")
    n = inst["def"].split("::")[-1]
    if n in ("write_fmt", "write_str", "write_char") and args and isinstance(args[0], tuple) and args[0][0] == "ref":
        v = deref(ctx, st, args[0])
        if isinstance(v, tuple) and v[0] == "seq":      # a String: cannot fail
            ps = None
            if n == "write_str":
                ps = bytes_of(ctx, st, args[1])[0]
            elif n == "write_fmt":
                ps = render(ctx, st, args[1])
            elif isinstance(args[1], Lin) and st.facts.decide(ge0(K(127) - args[1])) is True:
                ps = (("B", args[1]),)
            if ps is None:
                t = ("str", ("app", "format" if n == "write_fmt" else n) + tuple(reify(ctx, st, a) for a in args[1:]))
                ps = (("Blob", t, ZERO, length(t)),)
            st = st.copy()
            ctx.write(st, args[0][1], args[0][2], mk_seq(v[1] + tuple(ps), v[2]))
            return [(st, mkv(rty, "Ok", UNIT))]
    what = ("app", inst["def"].split("::")[-1]) + tuple(reify(ctx, st, a) for a in args[1:])
    return fmt_out(ctx, st, ("sym", what, rty), rty)


@rmodel(r"std::fmt::format", r"alloc::fmt::format", r"std::fmt::format::.*")
def m_format(ctx, st, inst, args, rty):
    ps = render(ctx, st, args[0])
    if ps is not None:
        return [(st, mk_seq(tuple(ps), u8_ty()))]
    t = ("str", ("app", "format") + tuple(reify(ctx, st, a) for a in args))
    return [(st, ("seq", (("Blob", t, ZERO, length(t)),), u8_ty()))]


@rmodel(r"std::io::_e?print", r"std::io::stdio::_e?print")
def m_print(ctx, st, inst, args, rty):
    st.event(("io", inst["def"]))
    return [(st, UNIT)]


@rmodel(r"(std|core)::option::(unwrap_failed|expect_failed)", r"(std|core)::result::unwrap_failed(::.*)?", r"(std|core)::panicking::.*", r"std::rt::(begin_panic|panic_fmt).*", r"core::slice::index::slice_.*_fail.*", r"std::process::(abort|exit)")
def m_panic(ctx, st, inst, args, rty):
    ctx.panic(st, inst["def"].split("::")[-1].replace("_inner", ""), ctx.stack[-1][1] if ctx.stack else 0)
    return []


@rmodel(r"std::mem::(size_of|align_of)", r"core::mem::size_of", r"std::intrinsics::size_of")
def m_size_of(ctx, st, inst, args, rty):
    for a in inst["args"]:
        if isinstance(a, int):
            n = ctx.sizeof(a)
            if n is not None:
                return [(st, K(n))]
    raise Imprecise("size_of")


@rmodel(r"std::mem::(take)")
def m_take(ctx, st, inst, args, rty):
    r = args[0]
    v = deref(ctx, st, r)
    if isinstance(v, tuple) and v[0] == "seq":
        ctx.write(st, r[1], r[2], ("seq", (), v[2]))
        return [(st, v)]
    if isinstance(v, Lin):
        ctx.write(st, r[1], r[2], ZERO)
        return [(st, v)]
    if rty is not None and tk(rty) == "adt" and tinfo(rty)["def"].endswith("option::Option"):
        ctx.write(st, r[1], r[2], none(rty))
        return [(st, v)]
    if rty is not None and tk(rty) == "bool":
        ctx.write(st, r[1], r[2], ("b", False))
        return [(st, v)]
    if "body" in inst:
        return ctx.call_body(inst, args, st, rty)
    raise Imprecise("take")


@rmodel(r"std::mem::replace", r"core::mem::replace")
def m_replace(ctx, st, inst, args, rty):
    r, n = args
    v = deref(ctx, st, r)
    ctx.write(st, r[1], r[2], n)
    return [(st, v)]


@rmodel(r"std::mem::swap", r"core::mem::swap")
def m_swapm(ctx, st, inst, args, rty):
    a, b = args
    x, y = deref(ctx, st, a), deref(ctx, st, b)
    ctx.write(st, a[1], a[2], y)
    ctx.write(st, b[1], b[2], x)
    return [(st, UNIT)]


@rmodel(r"std::mem::(drop|forget)", r"core::mem::(drop|forget)")
def m_drop(ctx, st, inst, args, rty):
    return [(st, UNIT)]


# ---------------------------------------------------------------- third-party crates: uninterpreted
MUTATORS = ("update", "fill", "finalize_into", "finalize_reset")


def foreign(ctx, st, inst, args, rty):
    n = inst["name"]
    short = re.sub(r"::<[^:]*>$", "", inst["def"])
    vals = tuple(reify(ctx, st, a) for a in args)
    t = ("app", n) + vals
    st.event(("call", n, vals))
    if inst["def"].split("::")[-1] in MUTATORS and args and args[0][0] == "ref":
        v = deref(ctx, st, args[0])
        ty = ctx.type_of(v)
        ctx.write(st, args[0][1], args[0][2], ("sym", t, ty if ty is not None else rty))
    if rty is not None and tk(rty) == "never":
        return []
    return [(st, mk_sym(t, rty) if rty is not None else top())]
