"""Unsafe operations only where they are sound."""
from ops import *

EXPLAIN = """Every function of the library is searched for operations the compiler does not vouch for: reinterpreted values (transmute),
calls of unsafe functions, accesses through raw pointers.  Each one found is analysed from the exported functions that reach it
(abstract interpretation of the MIR on arbitrary arguments, or on arbitrary bytes for parsers): the precondition of the operation
(the bits are a value of the type they are taken as, the index lies within the slice, the text is UTF-8, the code is not reached,
the sum fits, the elements were written) is an obligation, discharged when the facts of the path imply it, violated when an input
that reaches it with the precondition false is found.  Functions without such operations are sound by the compiler's own rules."""
ASSUME = ["the standard library and the other dependencies are sound behind their safe interfaces", "operations without a stated precondition here are reported as undecided"]
SOUND = "unsafe operations have their preconditions"
IGNORE = ("box_assume_init_into_vec_unsafe", "std::fmt::")  # expansions of vec! and format macros


def walk(x):
    if isinstance(x, (list, tuple)):
        yield x
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from walk(y)


def callee(p, x):
    """the instance an operand of a call stands for"""
    if isinstance(x, list) and len(x) > 1 and x[0] == "k" and isinstance(x[1], int):
        t = p.types[x[1]]
        if t.get("inst") is not None:
            return p.insts[t["inst"]]
    return None


def sites(p, i):
    """[(what, callee name or None)] of one function"""
    out = []
    b = i["body"]
    for bb in b["bb"]:
        for s in bb["s"]:
            for x in walk(s):
                if len(x) > 2 and x[0] == "cast" and x[1] == "Transmute":
                    out.append(("reinterpreted value", None))
                if x and isinstance(x[0], int) and len(x) > 1 and x[1] == "*" and x[0] < len(b["locals"]) and p.types[b["locals"][x[0]]]["k"] == "ptr" and not boxed(p, b, x[0]):
                    out.append(("access through a pointer", None))
        t = bb["t"]
        if t[0] == "call":
            j = callee(p, t[1])
            if j is not None and j.get("unsafe") and not any(n in j["def"] for n in IGNORE):
                out.append(("call of an unsafe function", j["def"]))
    return out


def boxed(p, b, l):
    """pointers that stand for a box"""
    for bb in b["bb"]:
        for s in bb["s"]:
            if s[0] == "=" and s[1] == [l]:
                return any(len(x) > 1 and x[0] == "cast" and "Box" in str(x[1]) for x in walk(s[2]))
    return False


def refs(p, i):
    out = set()
    for x in walk(i["body"]["bb"]):
        for y in x if isinstance(x, (list, tuple)) else ():
            if isinstance(y, list) and len(y) > 1 and y[0] == "k" and isinstance(y[1], int) and p.types[y[1]].get("inst") is not None:
                out.add(p.types[y[1]]["inst"])
    for l in i["body"]["locals"]:
        if p.types[l].get("inst") is not None:
            out.add(p.types[l]["inst"])
    return out


def local(p):
    return [i for i in p.insts if i["crate"] == "maybe_dns" and "body" in i]


def units(p, tier):
    return sorted({i["span"].split(":")[0] for i in local(p)})


def callers(p):
    up = {}
    for i in local(p):
        for j in refs(p, i):
            up.setdefault(j, set()).add(i["id"])
    return up


def entries(p, up, f):
    """exported functions through which f is reached first, and everything in between"""
    seen, todo, out = {f["id"]}, [f], []
    while todo:
        i = todo.pop()
        if i.get("exported") and "{closure#" not in i["def"]:
            out.append(i)
            continue
        for j in sorted(up.get(i["id"], ())):
            if j not in seen:
                seen.add(j)
                todo.append(p.insts[j])
    return out, {p.insts[n]["name"] for n in seen}


def run_unit(R, p, u, tier):
    up = None
    for i in sorted(local(p), key=lambda x: x["name"]):
        if i["span"].split(":")[0] != u:
            continue
        R.count("functions")
        R.functions.add(i["name"])
        ss = sites(p, i)
        n = short_fn(i["name"])
        if not ss:
            R.proven("%s: no unsafe operation" % n, i["span"], SOUND)
            continue
        R.count("unsafe operations", len(ss))
        up = up or callers(p)
        es, between = entries(p, up, i)
        if not es:
            R.proven("%s: not reached from an exported function" % n, i["span"], SOUND)
        calls = {x[1] for x in ss if x[1]}
        for e in es:
            enter(R, p, i, e, between, calls)
        if any(e["name"].endswith("Header::response_code") for e in es):
            held(R, p, i, between, tier)


def judge(R, key, f, span, c, calls=None):
    n = short_fn(f["name"])
    seen = set()
    for (fn, kind, line), m in c.proved.items():
        if fn == f["name"] and mine(kind):
            R.proven("%s: %s" % (key, plain(kind)), span, SOUND)
            seen.add(line)
    for x in c.panics:
        if f["name"] not in x.stack or not mine(x.kind):
            continue
        seen.add(x.line)
        if x.precise and sample.feasible(x.facts):
            R.refuted("%s:%s" % (key, plain(x.kind)), "%s in %s without its precondition when %s" % (plain(x.kind), n, [show_cond(y) for y in x.trail][-6:]), "%s line %s" % (span, x.line), SOUND)
        else:
            R.undecided("%s:%s" % (key, plain(x.kind)), "not excluded when %s" % [show_cond(y)[:120] for y in x.trail][-4:], "%s line %s" % (span, x.line), SOUND)
    if not seen and calls is not None:
        R.undecided("%s:no rule" % key, "no precondition is stated for %s" % (sorted(calls) or "an operation"), span, SOUND)


def mine(kind):
    """checks the compiler inserts for unsafe operations count, too"""
    return kind.startswith("unsafe: ") or kind in ("InvalidEnumConstruction", "NullPointerDereference", "MisalignedPointerDereference")


def plain(kind):
    return kind[8:] if kind.startswith("unsafe: ") else "value of an enumeration made from bits" if kind == "InvalidEnumConstruction" else kind


def enter(R, p, f, e, between, calls):
    par = {i["name"] for i in parsers(p).values()}
    n = short_fn(f["name"])
    key = n if f is e else "%s from %s" % (n, short_fn(e["name"]))
    c = analysis(p, fit=True, skip=between)
    for k in between:
        c.contracts.pop(k, None)
    st = State()
    sts = [st]
    if e["name"] in par:
        args, pos, ln = args_for(p, st, e)
        if pos is not None:
            sts = [st.assume(ge0(ln - pos))]
    else:
        args = [mk_sym(("arg", "a%d" % k), argty(e, k)) for k in range(e["body"]["argc"])]
        for k, a in enumerate(args):
            sts = [x for s in sts for x in valid(p, c, s, argty(e, k), a)]
    try:
        for s in sts:
            s.trail = ()
            c.call(e, args, s, rty(e))
    except (Budget, Imprecise, Fork) as x:
        R.undecided("%s:analysis" % key, str(x) or "fork", e["span"], SOUND)
    R.use(c)
    judge(R, key, f, e["span"], c, calls)


def held(R, p, f, between, tier):
    """whatever holds a response code: it is defined after every operation and after parsing"""
    n = short_fn(f["name"])
    for m, i in sorted(makers(p).items()):
        parsed(R, p, m, i, lambda c: judge(R, "%s after %s" % (n, m), f, i["span"], c))
    for m, i in sorted(ops(p).items()):
        tys = [rty(i)] + [argty(i, k) for k in range(i["body"]["argc"])]
        if any(coded(p, t)[0] is not None for t in tys):
            one(R, p, m, i, tier, lambda c: judge(R, "%s after %s" % (n, m), f, i["span"], c))


def final(R, ps, tier):
    R.floor("functions", 400 * len(ps))
