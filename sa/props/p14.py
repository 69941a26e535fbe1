"""Reading names: labels, pointers, and where the cursor ends up."""
from api import *

EXPLAIN = """The name reader is analysed by abstract interpretation of its MIR on messages of given shape: runs of labels
(lengths 1 to 63 and contents arbitrary), each run ended by the root or by a pointer to a label of an earlier
run, at arbitrary places of a message that is arbitrary elsewhere.  For every shape the name read must be the
concatenation of the labels along the pointers and the cursor must stand right behind the name where it was
read.  On arbitrary bytes the first steps of the reader are followed exactly: a pointer that does not lead
backwards, a label or pointer that is cut off by the end of the data and a missing end must be errors."""
ASSUME = ["label lengths are below 64 (the two reserved label types are not specified here)"]

A = ("arg", "bytes")
# runs of labels in message order: (labels, None | (run pointed to, label pointed to)); the last run is the one read
def chains(runs, most):
    """every shape of this many runs of up to so many labels, each run but the first ended by a pointer to the run before"""
    if runs == 1:
        return [[(k, None)] for k in range(most + 1)]
    return [c + [(k, (runs - 2, j))] for c in chains(runs - 1, most) for j in range(c[-1][0] + 1) for k in range(most + 1)]


def shapes(tier):
    u = {"plain": chains(1, 5), "pointer": chains(2, 3)}
    for k in range(3):
        u["two pointers %d" % k] = [c for c in chains(3, 2) if c[0][0] == k]
    u["three pointers"] = chains(4, 1)
    u["skipping a run"] = [[(2, None), (1, (0, 1)), (2, (0, 1))], [(1, None), (2, None), (1, (0, 0))], [(1, None), (1, None), (2, (1, 0))]]
    if tier == "thorough":
        for k in range(4):
            for j in range(k + 1):
                u["two pointers, long %d.%d" % (k, j)] = [c for c in chains(3, 3) if c[0][0] == k and c[1][1][1] == j]
    return u


def units(p, tier):
    return ["shape:" + s for s in shapes(tier)] + ["bytes:" + f for f in ("buffer", "name")]


def readers(p):
    out = []
    i = inherent(p, "DnsBuffer", "extract_fqdn")
    if i is not None:
        out.append(("extract_fqdn", i))
    i = decoder(p, "FQDN")
    if i is not None:
        out.append(("try_from", i))
    return out


def ref_arg(p, i, st, r):
    return r


def build(sh):
    """(state, pieces, start, end, labels)"""
    st = State()
    ps, pos, starts, labels = [], ZERO, [], []
    used = {r[1] for r in sh if r[1]}
    for n, (k, to) in enumerate(sh):
        at, ls, off = [], [], ZERO
        for j in range(k + 1):
            at.append(off)
            if j < k:
                t = ("lab", n, j)
                ls.append(t)
                off = off + 1 + length(t)
        # the run is placed so that what it is referred to by is a number of its own
        ref = [x[1] for x in sorted(used) if x[0] == n]
        gap = ("gap", n)
        if ref:
            tv = L(T.mk_atom(("var", ("target", n)), 0, 16383))
            g = tv - at[ref[0]] - pos
            st = st.assume(ge0(g))
        else:
            g = length(gap)
        ps.append(("Blob", gap, ZERO, g))
        begin = pos + g
        starts.append([begin + x for x in at])
        for t in ls:
            ps += [("B", length(t)), ("Blob", t, ZERO, length(t))]
        pos = begin + off
        if to is None:
            ps.append(("B", ZERO))
            pos = pos + 1
            labels.append(ls)
        else:
            tv = T.to_bits(starts[to[0]][to[1]], 14)
            ps += [("B", T.from_bits(list(tv[8:14]) + [T.to_bits(K(3), 2)[0], T.to_bits(K(3), 2)[1]])), ("B", T.from_bits(tv[:8]))]
            pos = pos + 2
            labels.append(ls + labels[to[0]][to[1]:])
    end = pos
    ps.append(("Blob", ("post",), ZERO, length(("post",))))
    st.trail = ()
    return st, ps, starts[-1][0], end, labels[-1]


def label_rule(t):
    return (1, 63) if isinstance(t, tuple) and t and t[0] == "lab" else None


def shape(R, p, name, sh):
    rule = "labels along the pointers"
    for rn, i in readers(p):
        R.count("readings")
        key = "%s:%s" % (rn, name)
        c = ctx(p, insist=True)
        st, ps, start, end, labels = build(sh)
        r = mk_buffer(p, st, ps, start)
        outs = c.call(i, [r], st, rty(i))
        R.use(c)
        if not outs:
            R.undecided(key, "no outcome", i["span"], rule)
        for s, v in outs:
            if v[0] != "adt":
                R.undecided(key, "result unknown", i["span"], rule)
                continue
            if not is_ok(v):
                verdict(R, key, False, s, "reading a well-formed name (%s) fails with %s" % (name, show_val(v[3][0])[:80]), i["span"], rule)
                continue
            got = name_labels(v[3][0])
            if got is None:
                R.undecided(key, "name unknown: %s" % show_val(v[3][0])[:120], i["span"], rule)
                continue
            want = ("seq", tuple(("B", ("seq", (("Blob", t, ZERO, length(t)),), u8_ty())) for t in labels), got[2])
            why = []
            verdict(R, key, equal(got, want, s.facts, why), s, "the name read (%s) is %s: %s" % (name, show_val(got)[:200], "; ".join(why)[:150]), i["span"], rule)
            np = buf_pos(p, s)[0]
            verdict(R, key + " position", same_lin(s.facts, np, end), s, "after the name (%s) the cursor stands at %s instead of %s" % (name, show_lin(s.facts.norm(np))[:120], show_lin(s.facts.norm(end))[:120]), i["span"], "cursor behind the name")


def name_labels(v):
    if v[0] == "adt":
        l = [x for x in v[3] if isinstance(x, tuple) and x[0] == "seq"]
        return l[0] if len(l) == 1 else None
    return None


def arbitrary(R, p, which):
    rule = "malformed names are errors"
    for rn, i in readers(p):
        if (rn == "extract_fqdn") != (which == "buffer"):
            continue
        for lead in (0, 1, 2):
            T.LEN_RULES.insert(0, label_rule)
            T.reset_lengths()
            R.count("readings")
            key = "%s:after %d labels" % (rn, lead)
            c = ctx(p, insist=True)
            st = State()
            pre, rest = length(("pre",)), length(("rest",))
            ps, pos = [("Blob", ("pre",), ZERO, pre)], pre
            for j in range(lead):
                t = ("lab", 0, j)
                ps += [("B", length(t)), ("Blob", t, ZERO, length(t))]
                pos = pos + 1 + length(t)
            ps.append(("Blob", ("rest",), ZERO, rest))
            rs = ("seq", (("Blob", ("rest",), ZERO, rest),), u8_ty())
            st.trail = ()
            cases = []
            s0 = st.assume(eq0(rest))
            if s0:
                cases.append(("nothing follows", s0, "err"))
            s1 = st.assume(ge0(rest - 1))
            b = seq_elem(rs, ZERO, s1.facts)
            low = s1.assume(ge0(K(63) - b)).assume(ge0(b - 1))
            cases.append(("label cut off", low.assume(ge0(b - rest)), "err"))
            z = s1.assume(eq0(b))
            cases.append(("root", z, "ok"))
            ptr = s1.assume(ge0(b - 192))
            cases.append(("pointer cut off", ptr.assume(eq0(rest - 1)), "err"))
            p2 = ptr.assume(ge0(rest - 2))
            b2 = seq_elem(rs, K(1), p2.facts)
            target = T.from_bits(list(T.to_bits(b2, 8)) + list(T.to_bits(b, 8)[:6]))
            cases.append(("pointer to itself or behind", p2.assume(ge0(target - pos)), "err"))
            if lead:
                mid = p2.assume(ge0(target - pre))
                cases.append(("pointer into the name itself", mid.assume(ge0(pos - 1 - target)), "err"))
            for nm, sc, want in cases:
                if sc is None:
                    continue
                sc = sc.copy()
                sc.trail = ()
                r = mk_buffer(p, sc, ps, pre)
                outs = c.call(i, [r], sc, rty(i))
                k = "%s, %s" % (key, nm)
                for s, v in outs:
                    if v[0] != "adt":
                        R.undecided(k, "result unknown", i["span"], rule)
                        continue
                    if want == "err":
                        verdict(R, k, not is_ok(v), s, "a malformed name (%s) is accepted" % k, i["span"], rule)
                    else:
                        verdict(R, k, is_ok(v), s, "a name that ends is rejected", i["span"], rule)
            R.use(c)


def run_unit(R, p, u, tier):
    k, n = u.split(":")
    if k == "shape":
        T.LEN_RULES.insert(0, label_rule)
        T.reset_lengths()
        for sh in shapes(tier)[n]:
            shape(R, p, " ".join("%d%s" % (k, "." if to is None else ">%d.%d" % to) for k, to in sh), sh)
    else:
        arbitrary(R, p, n)


def final(R, ps, tier):
    R.floor("readings", 400 * len(ps))
