"""Sequences of public calls on symbolic values, judged by what can be observed of the outcome."""
from rt import *


def verdict(R, key, q, s, why, where, rule):
    if q is True:
        R.proven(key, where, rule)
    elif q is False and precise_trail(s) and sample.feasible(s.facts):
        R.refuted(key, why + (" when %s" % [show_cond(x)[:160] for x in s.trail][-5:] if s.trail else ""), where, rule)
    else:
        R.undecided(key, why, where, rule)


def type_named(p, name, crate="maybe_dns"):
    for n, t in enumerate(p.types):
        if t["k"] == "adt" and t.get("crate") == crate and last(t["def"]) == name:
            return n
    return None


def consts(p, ty):
    """values of a parameter that is enumerated: [(text, value)], or None"""
    t = p.types[ty]
    if t["k"] == "bool":
        return [("false", ("b", False)), ("true", ("b", True))]
    if t["k"] == "adt" and t["ak"] == "enum" and t.get("v") and all(not v["f"] for v in t["v"]):
        return [(v["n"], ("adt", ty, i, ())) for i, v in enumerate(t["v"])]
    return None


def discr(p, v):
    return p.types[v[1]]["v"][v[2]]["d"]


def same(a, b, f):
    """are two values the same: True, False (shown at a sample point), None"""
    if isinstance(a, Lin) and isinstance(b, Lin):
        return same_lin(f, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "b" and b[0] == "b":
        if a[1] == b[1]:
            return True
        x, y = f.decide(a[1]) if not isinstance(a[1], bool) else a[1], f.decide(b[1]) if not isinstance(b[1], bool) else b[1]
        if x is not None and y is not None:
            return x == y
        if x is None and y is None and f.decide(a[1]) is None:
            # both open: the same condition?
            fa, fb = f.assume(a[1]), f.assume(neg(a[1]))
            qa = fa is None or fa.decide(b[1]) is True
            qb = fb is None or fb.decide(neg(b[1])) is True
            if qa and qb:
                return True
        if T.is_imprecise(a[1]) or T.is_imprecise(b[1]):
            return None
        if sample.cond_differs(f, a[1], b[1]) is True:
            return False
        # where exactly one of the two holds
        for u, w in ((a[1], b[1]), (b[1], a[1])):
            f2 = f if u is True else None if u is False else f.assume(u)
            f2 = f2.assume(neg(w)) if f2 is not None and not isinstance(w, bool) else f2 if w is False else None
            if f2 is not None and sample.feasible(f2):
                return False
        return None
    if isinstance(a, tuple) and a and a[0] == "b" or isinstance(b, tuple) and b and b[0] == "b":
        return None
    q = equal(a, b, f, [])
    if q is None and isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "seq" and not T.is_imprecise(a) and not T.is_imprecise(b):
        n, m = pieces_len(a[1]), pieces_len(b[1])
        if not T.is_imprecise(n) and not T.is_imprecise(m) and same_lin(f, n, m) is False:
            return False
    return q


def run(c, i, args, st):
    return c.call(i, args, st, rty(i))


def code_writers(p):
    """conversions of a code enum into its number, by type"""
    out = {}
    for i in p.insts:
        if i["crate"] == "maybe_dns" and "body" in i and "::from" == i["def"][-6:] and i["body"]["argc"] == 1:
            a, r = p.types[argty(i, 0)], p.types[rty(i)]
            if r["k"] == "uint" and a["k"] == "adt" and a.get("crate") == "maybe_dns":
                out[argty(i, 0)] = i
    return out
