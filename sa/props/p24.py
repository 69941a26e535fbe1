"""Names as text and as lists of labels."""
import itertools
from rt import *
import api
from api import type_named, same, run as call

EXPLAIN = """The conversions between names, text and lists of labels are interpreted abstractly.  Text is given as up to
four (thorough: five) stretches without dots, each empty or of any length and content, with dots between
them, and again as up to four (thorough: six) spelled out characters each of which is a dot or any other ASCII
character; names are given with up to three (thorough: five) labels of any length and content, and where no
list has to be spelled out with any number of labels.  The labels made of text must be the non-empty stretches
in order, the text made of a name its labels with dots between them, and every query about a name the
answer its labels give."""
ASSUME = ["labels that are printed are UTF-8 (others are printed with replacement characters)", "a name has at most 255 labels"]


def units(p, tier):
    n = 5 if tier == "thorough" else 4
    return ["text:%d" % k for k in range(1, n + 1)] + ["chars:%d" % k for k in range(0, (7 if tier == "thorough" else 5))] + ["long", "lists", "append", "queries", "local", "display", "iterators"]


def verdict(R, key, q, s, why, where, rule):
    if q is False and (any(loose(t) for t in s.trail) or "app" in why and loose(why)):
        q = None
    api.verdict(R, key, q, s, why, where, rule)


def loose(t):
    """a condition on the inside of a text given as a whole: its characters are not open"""
    x = show_cond(t) if not isinstance(t, str) else t
    return any(w in x for w in ("part0[", "part1[", "part2[", "part3[", "part4[", "starts_with(", "ends_with(", "contains(", "eq_ignore_ascii_case(", "find(", "split("))


class Name:
    def __init__(self, p):
        self.ty = type_named(p, "FQDN")
        fs = p.types[self.ty]["v"][0]["f"] if self.ty is not None else []
        self.fields = fs
        self.at = [i for i, f in enumerate(fs) if p.types[f[1]]["s"] == "std::vec::Vec<std::vec::Vec<u8>>"]
        self.ok = len(fs) == 1 and len(self.at) == 1
        if self.ok:
            self.vec = fs[0][1]
            self.lab = [a for a in p.types[self.vec]["args"] if isinstance(a, int)][0]

    def of(self, labels):
        return ("adt", self.ty, 0, (("seq", tuple(("B", l) for l in labels), self.lab),))

    def any(self, name="self"):
        return mk_sym(("arg", name), self.ty)


def text(*ps):
    return ("seq", tuple(ps), u8_ty())


def blob(name):
    t = ("arg", name)
    return ("Blob", t, ZERO, length(t))


def find(p, pat):
    r = [i for i in p.insts if i["crate"] == "maybe_dns" and "body" in i and i["name"] == pat]
    return r[0] if r else None


F = "maybe_dns::fqdn::FQDN"


def run(R, p, u, tier):
    ctx(p)
    N = Name(p)
    if not N.ok:
        R.undecided(u, "names are not held as lists of labels", "", "names")
        return
    k, _, n = u.partition(":")
    {"text": from_text, "long": long_text, "chars": from_chars, "lists": lists, "append": append, "queries": queries, "local": local,
     "display": display, "iterators": iterators}[k](R, p, N, int(n) if n else 0, tier)


def labels_of(o):
    if isinstance(o, tuple) and o[0] == "adt" and o[3] and isinstance(o[3][0], tuple) and o[3][0][0] == "seq":
        return o[3][0]
    return None


def judge(R, key, c, s, o, want, N, where, rule, why):
    q = same(o, N.of(want), s.facts)
    l = labels_of(o)
    if q is False and l is not None and any(opaque(x[1][1]) for x in l[1] if x[0] == "B" and isinstance(x[1], tuple) and x[1][0] == "seq"):
        q = None
    if q is None:
        # a different number of labels is a different name
        if l is not None and all(x[0] == "B" for x in l[1]) and len(l[1]) != len(want) and not T.is_imprecise(l[1]):
            q = False
    verdict(R, key, q, s, "%s gives %s" % (why, show_val(o)[:300]), where, rule)


def readers(p):
    out = []
    for i in (find(p, F + "::new"), find(p, "<%s as std::convert::From<&str>>::from" % F)):
        if i is not None:
            out.append(i)
    return out


def from_text(R, p, N, n, tier):
    rule = "labels are the non-empty stretches between dots"
    for i in readers(p):
        R.fn(i)
        for pat in itertools.product("en", repeat=n):
            R.count("texts")
            ps, want = [], []
            plain = set()
            st = State()
            for j, x in enumerate(pat):
                if j:
                    ps.append(("B", K(46)))
                if x == "n":
                    b = blob("part%d" % j)
                    plain.add(b[1])
                    st = st.assume(ge0(b[3] - 1))
                    ps.append(b)
                    want.append(text(b))
            go(R, p, N, i, plain, ps, want, st, "text of %d parts" % n, rule, "name of the text %s" % ".".join("" if x == "e" else "x" for x in pat))


def go(R, p, N, i, plain, ps, want, st, key, rule, why):
    c = ctx(p, plain=frozenset(plain), insist=True)
    c.unroll = max(c.unroll, len(ps) + 2 if not plain else 0)
    st.mem[("A", 0)] = text(*ps)
    arg = ("sl", ("A", 0), (), ZERO, st.facts.norm(pieces_len(tuple(ps))))
    key = "%s:%s" % (last(i["def"]), key)
    try:
        outs = call(c, i, [arg], st)
    except Budget as x:
        R.undecided(key, str(x), i["span"], rule)
        return
    R.use(c)
    for s, o in outs:
        judge(R, key, c, s, o, want, N, i["span"], rule, why)


def from_chars(R, p, N, n, tier):
    rule = "labels are the non-empty stretches between dots"
    for i in readers(p):
        for pat in itertools.product(".x", repeat=n):
            R.count("texts")
            st, ps, want, cur = State(), [], [], []
            for j, x in enumerate(pat):
                if x == ".":
                    ps.append(("B", K(46)))
                    if cur:
                        want.append(text(*cur))
                    cur = []
                else:
                    v = var(("arg", "char%d" % j), 1, 127)
                    st = st.assume(neg(eq0(v - 46)))
                    ps.append(("B", v))
                    cur.append(("B", v))
            if cur:
                want.append(text(*cur))
            go(R, p, N, i, (), ps, want, st, "text of %d characters" % n, rule, "name of the text %s" % "".join(pat))


def long_text(R, p, N, n, tier):
    """long labels, many labels"""
    rule = "labels are the non-empty stretches between dots"
    for i in readers(p):
        for m, w in ((1, 70), (130, 1), (3, 90)):
            R.count("texts")
            st, ps, want = State(), [], []
            for j in range(m):
                if j:
                    ps.append(("B", K(46)))
                cs = [("B", K(97 + (7 * j + k) % 26)) for k in range(w)]
                want.append(text(*cs))
                ps += cs
            go(R, p, N, i, (), ps, want, st, "text of %d labels of %d characters" % (m, w), rule, "name of a text of %d labels of %d characters" % (m, w))


def lists(R, p, N, n, tier):
    rule = "a list of labels becomes those labels"
    k = 5 if tier == "thorough" else 3
    i = find(p, "<%s as std::convert::From<&[&str]>>::from" % F)
    if i is not None:
        R.fn(i)
        ety = p.types[p.types[argty(i, 0)]["e"]]["e"]
        for m in list(range(k + 1)) + [130]:
            R.count("lists")
            c = ctx(p, insist=True)
            c.unroll = max(c.unroll, m + 2)
            st = State()
            el, want = [], []
            for j in range(m):
                b = blob("part%d" % j)
                st.mem[("A", j)] = text(b)
                el.append(("B", ("sl", ("A", j), (), ZERO, b[3])))
                want.append(text(b))
            st.mem[("L", 0)] = ("seq", tuple(el), ety)
            for s, o in call(c, i, [("sl", ("L", 0), (), ZERO, K(m))], st):
                judge(R, "from texts", c, s, o, want, N, i["span"], rule, "the name of %d texts" % m)
            R.use(c)
    for nm in ("std::vec::Vec<std::vec::Vec<u8>>", "&[std::vec::Vec<u8>]"):
        i = find(p, "<%s as std::convert::From<%s>>::from" % (F, nm))
        if i is None:
            continue
        R.fn(i)
        R.count("lists")
        c = ctx(p)
        st = State()
        v = mk_sym(("arg", "labels"), N.vec)
        if nm[0] == "&":
            st.mem[("L", 0)] = v
            arg = ("sl", ("L", 0), (), ZERO, S.seq_len(v))
        else:
            arg = v
        for s, o in call(c, i, [arg], st):
            q = same(o, ("adt", N.ty, 0, (v,)), s.facts)
            if q is None:
                l = labels_of(o)
                if l is not None and not T.is_imprecise(l[1]) and l[1] != v[1] and s.facts.decide(eq0(S.seq_len(l) - S.seq_len(v))) is False:
                    q = False
            verdict(R, "from labels:%s" % nm, q, s, "the labels become %s" % show_val(o)[:300], i["span"], rule)
        R.use(c)
        # spelled out
        for m in list(range(k + 1)) + [130]:
            c = ctx(p, insist=True)
            c.unroll = max(c.unroll, m + 2)
            st = State()
            want = [text(blob("part%d" % j)) for j in range(m)]
            v = ("seq", tuple(("B", x) for x in want), N.lab)
            if nm[0] == "&":
                st.mem[("L", 0)] = v
                arg = ("sl", ("L", 0), (), ZERO, K(m))
            else:
                arg = v
            for s, o in call(c, i, [arg], st):
                judge(R, "from %d labels:%s" % (m, nm), c, s, o, want, N, i["span"], rule, "the name of %d labels" % m)


def append(R, p, N, n, tier):
    i = find(p, F + "::append_label")
    rule = "appending adds the label at the end"
    if i is None:
        R.undecided("append", "no such operation", "", rule)
        return
    R.fn(i)
    b = blob("new")
    v = var(("arg", "char0"), 1, 127)
    news = [text(b)] + [text(*[("B", x) for x in cs]) for cs in ((), (K(46),), (v,), (v, K(46)), (K(46), v), (v, K(46), v))] + [text(*[("B", K(97 + k % 26)) for k in range(70)])]
    for m in range(4):
        for new in news:
            R.count("names")
            c = ctx(p)
            st = State().assume(neg(eq0(v - 46)))
            old = [text(blob("label%d" % j)) for j in range(m)]
            st.mem[("S", 0)] = N.of(old)
            st.mem[("A", 0)] = new
            for s, o in call(c, i, [("ref", ("S", 0), ()), ("sl", ("A", 0), (), ZERO, S.seq_len(new))], st):
                judge(R, "append", c, s, s.mem[("S", 0)], old + [new], N, i["span"], rule, "appending %s to %d labels" % (show_val(new)[:60], m))
            R.use(c)


def queries(R, p, N, n, tier):
    k = 5 if tier == "thorough" else 3
    for m in range(k + 1):
        for pat in itertools.product("en", repeat=m):
            R.count("names")
            st0 = State()
            ls = []
            for j, x in enumerate(pat):
                b = blob("label%d" % j)
                if x == "n":
                    st0 = st0.assume(ge0(b[3] - 1))
                    ls.append(text(b))
                else:
                    ls.append(text())
            size = K(1)
            for x, l in zip(pat, ls):
                if x == "n":
                    size = size + 1 + S.seq_len(l)
            for fn, want, what in (("is_empty", ("b", m == 0), "has no labels"), ("label_count", K(m), "number of labels"),
                                   ("is_root", ("b", "n" not in pat), "is the root"), ("len", size, "length")):
                i = find(p, F + "::" + fn)
                if i is None or fn == "label_count" and "e" in pat:
                    continue
                R.fn(i)
                c = ctx(p)
                st = st0.copy()
                st.mem[("S", 0)] = N.of(ls)
                try:
                    outs = call(c, i, [("ref", ("S", 0), ())], st)
                except Budget as x:
                    R.undecided(fn, str(x), i["span"], what)
                    continue
                for s, o in outs:
                    verdict(R, fn, same(o, want, s.facts), s, "%s of a name with labels %s is %s" % (fn, pat, show_val(o)[:200]), i["span"], what)
                R.use(c)
    # many labels
    i = find(p, F + "::label_count")
    if i is not None:
        for m in (127, 128, 200, 255):
            c = ctx(p, insist=True)
            c.unroll = max(c.unroll, m + 2)
            st = State()
            st.mem[("S", 0)] = N.of([text(("B", K(97))) for _ in range(m)])
            for s, o in call(c, i, [("ref", ("S", 0), ())], st):
                verdict(R, "label_count", same(o, K(m), s.facts), s, "label count of a name of %d labels is %s" % (m, show_val(o)[:200]), i["span"], "number of labels")


LOCAL = b"local"


def local(R, p, N, n, tier):
    i = find(p, F + "::is_link_local")
    rule = "link-local means the last label is local"
    if i is None:
        R.undecided("local", "no such query", "", rule)
        return
    R.fn(i)

    def ask(ls, st, want, why):
        R.count("names")
        c = ctx(p, utf8=True)
        st = st.copy()
        st.mem[("S", 0)] = N.of(ls)
        try:
            outs = call(c, i, [("ref", ("S", 0), ())], st)
        except Budget as x:
            R.undecided("local", str(x), i["span"], rule)
            return
        for s, o in outs:
            verdict(R, "local", None if loose(show_val(o)) else same(o, ("b", want), s.facts), s, "%s is%s link-local" % (why, " not" if want else ""), i["span"], rule)
        R.use(c)
    lit = text(*[("B", K(b)) for b in LOCAL])
    ask([], State(), False, "the empty name")
    for m in range(3):
        pre = [text(blob("label%d" % j)) for j in range(m)]
        ask(pre + [lit], State(), True, "a name of %d labels that ends in local" % (m + 1))
        # another length
        b = blob("last")
        for st in (State().assume(ge0(b[3] - len(LOCAL) - 1)), State().assume(ge0(K(len(LOCAL) - 1) - b[3]))):
            ask(pre + [text(b)], st, False, "a name of %d labels whose last label has another length" % (m + 1))
        # more around it
        v = var(("arg", "char"), 1, 127)
        l5 = [("B", K(b)) for b in LOCAL]
        for cs in ([("B", v)] + l5, l5 + [("B", v)], l5[1:], l5[:-1], []):
            ask(pre + [text(*cs)], State(), False, "a name of %d labels whose last label is more or less than local" % (m + 1))
        # another character somewhere
        for j in range(len(LOCAL)):
            st, cs = State(), []
            for k, x in enumerate(LOCAL):
                v = var(("arg", "char%d" % k), 1, 127)
                if k == j:
                    st = st.assume(neg(eq0(v - x))).assume(neg(eq0(v - (x - 32))))
                cs.append(("B", v))
            ask(pre + [text(*cs)], st, False, "a name of %d labels whose last label differs from local" % (m + 1))
        # local somewhere else
        if m:
            v = var(("arg", "char"), 1, 127)
            st = State().assume(neg(eq0(v - LOCAL[0]))).assume(neg(eq0(v - (LOCAL[0] - 32))))
            for j in range(m):
                ls = list(pre)
                ls[j] = lit
                ask(ls + [text(("B", v), *[("B", K(b)) for b in LOCAL[1:]])], st, False, "a name with local before its last label")


def display(R, p, N, n, tier):
    i = find(p, "<%s as std::fmt::Display>::fmt" % F)
    rule = "the text of a name is its labels with dots between them"
    if i is None:
        R.undecided("display", "no such operation", "", rule)
        return
    R.fn(i)
    for m in list(range(6 if tier == "thorough" else 4)) + [-2, -130]:
        R.count("names")
        c = ctx(p, utf8=True, insist=True)
        c.unroll = max(c.unroll, abs(m) + 2)
        st = State()
        ls, ps = [], []
        for j in range(abs(m)):
            b = blob("label%d" % j)
            st = st.assume(ge0(b[3] - 1))
            bs = [b] if m >= 0 else [("B", K(97 + k % 26)) for k in range(70 if m > -100 else 1)]
            ls.append(text(*bs))
            if j:
                ps.append(("B", K(46)))
            ps += bs
        st.mem[("S", 0)] = N.of(ls)
        st.mem[("X", 0)] = text()
        try:
            outs = call(c, i, [("ref", ("S", 0), ()), ("ref", ("X", 0), ())], st)
        except Budget as x:
            R.undecided("display", str(x), i["span"], rule)
            continue
        for s, o in outs:
            # which texts are UTF-8 is not ours to know
            if any(isinstance(t, tuple) and t[0] == "not" and "is_utf8" in str(t) for t in s.trail):
                continue
            got = s.mem[("X", 0)]
            q = None
            if got[0] == "seq":
                q = eq_pieces(got[1], tuple(ps), s.facts, u8_ty())
                if T.is_imprecise(got[1]) or opaque(got[1]):
                    q = q or None
            if is_ok(o) is False and o[0] == "adt":
                q = False if q is not None else None
            verdict(R, "display", q, s, "a name of %d labels prints as %s" % (abs(m), show_val(got)[:300]), i["span"], rule)
        R.use(c)


def opaque(ps):
    return any(x[0] == "Blob" and x[1][0] == "str" for x in ps)


def iterators(R, p, N, n, tier):
    rule = "iteration gives every label in order"
    for nm in (F + "::iter", F + "::iter_mut", "<&%s as std::iter::IntoIterator>::into_iter" % F, "<&mut %s as std::iter::IntoIterator>::into_iter" % F, "<%s as std::iter::IntoIterator>::into_iter" % F):
        i = find(p, nm)
        if i is None:
            continue
        R.fn(i)
        R.count("iterators")
        c = ctx(p)
        st = State()
        v = N.any()
        l = v[3][0]
        st.mem[("S", 0)] = v
        arg = v if nm.startswith("<maybe") else ("ref", ("S", 0), ())
        for s, o in call(c, i, [arg], st):
            q = None
            if isinstance(o, tuple) and o[0] == "it" and o[1] in ("ref", "val"):
                el = o[2] if o[1] == "val" else None
                if o[1] == "ref":
                    sl = o[2]
                    base = get_seq(s, sl)
                    if base is not None and equal(base, l, s.facts, []) is True:
                        a = s.facts.decide(eq0(sl[3] + o[3]))
                        b = s.facts.decide(eq0(sl[3] + o[4] - S.seq_len(l)))
                        q = True if a and b else False if a is False or b is False else None
                else:
                    q = True if equal(el, l, s.facts, []) is True and s.facts.decide(eq0(o[3])) and s.facts.decide(eq0(o[4] - S.seq_len(l))) else None
                    if q is None and el[0] == "seq" and not T.is_imprecise(el[1]) and s.facts.decide(eq0(S.seq_len(el) - S.seq_len(l))) is False:
                        q = False
            verdict(R, "iterators:%s" % nm.replace(F, "FQDN"), q, s, "iterating over the labels gives %s" % show_val(o)[:200], i["span"], rule)
        R.use(c)


def get_seq(s, sl):
    v = s.mem.get(sl[1])
    for x in sl[2]:
        if not (isinstance(v, tuple) and v[0] in ("adt", "tup") and x[0] == "f"):
            return None
        v = v[3][x[1]] if v[0] == "adt" else v[1][x[1]]
    return v if isinstance(v, tuple) and v[0] == "seq" else None


def final(R, ps, tier):
    R.floor("texts", 20)
    R.floor("names", 20)
