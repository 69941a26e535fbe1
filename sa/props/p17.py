"""Results depend on the arguments only."""
from rt import *

EXPLAIN = """Effect analysis: the call graph of the library (every call, function value and closure in the MIR of every feature set) is searched for
operations with effects or inputs beyond the arguments: input and output, the clock, the environment, threads and shared state, mutable
statics, randomness, addresses of memory. Randomness may be reached only by operations that also reach a signing primitive. Secondly every
serialiser is interpreted abstractly with the order of hash maps kept as an unknown: the bytes must not depend on it."""
ASSUME = ["functions of other crates have no effects beyond the ones their names in the effect table say"]

EFFECTS = [
    ("prints or does other input and output", r"^std::(io|fs|os)::|^<std::(io|fs)::|std::io::|std::net::(Tcp|Udp|ToSocketAddrs)|std::fs::"),
    ("reads the clock", r"std::time::(SystemTime|Instant)::(now|elapsed)$"),
    ("reads the environment", r"^std::(env|process)::|std::backtrace|std::thread::|std::panic::(catch_unwind|set_hook|take_hook)"),
    ("uses shared mutable state", r"(std|core)::sync::|std::thread::LocalKey|::LocalKey<|::atomic::|std::cell::(OnceCell|LazyCell)<.*static"),
    ("uses the random state of a hasher", r"std::hash::RandomState|std::hash::BuildHasher::hash_one|std::collections::hash_map::RandomState"),
    ("uses memory addresses as numbers", r"Argument::<'_>::new_pointer|::ptr::.*::addr$|::expose_provenance$"),
]
RANDOM = r"^rand::|^rand_core::|^getrandom::|SystemRandom|OsRng|ThreadRng|::thread_rng|SecureRandom"
SIGN = r"::sign(_\w+)?(::<.*)?$|Signer.*>::sign"
RULE = "no effects beyond the arguments"
ORDER = "independent of hash map order"


def mentions(p, i):
    """functions and closures an instance mentions, and casts of addresses to numbers"""
    b = i["body"]
    out = []
    tys = list(b["locals"])

    def walk(x, line):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == "k" and isinstance(x[1], int):
                t = p.types[x[1]]
                if t["k"] == "fndef":
                    out.append((t["inst"], t["s"], line))
                tys.append(x[1])
            elif len(x) >= 2 and x[0] == "cast" and isinstance(x[1], str) and "PointerExpose" in x[1]:
                out.append((None, "addr of memory ::expose_provenance", line))
            for y in x:
                walk(y, line)
    for bb in b["bb"]:
        for s in bb["s"]:
            walk(s, s[-1] if isinstance(s[-1], int) else None)
        t = bb["t"]
        walk(t, t[-1] if t and isinstance(t[-1], int) else None)
    for ty in set(tys):
        t = p.types[ty]
        if t["k"] == "closure" and t.get("inst") is not None:
            out.append((t["inst"], t["s"], None))
    return out


def graph(p):
    g, leaf = {}, {}
    clo = {}
    for i in p.insts:
        if "{closure#" in i["def"]:
            clo.setdefault(i["def"].rsplit("::{closure#", 1)[0], []).append(i["id"])
    for i in p.insts:
        if "body" not in i:
            continue
        es = set()
        for j, s, line in mentions(p, i):
            if j is not None:
                es.add((j, line))
            else:
                leaf.setdefault(i["id"], set()).add((s, line))
        for j in clo.get(i["def"], []):
            es.add((j, None))
        g[i["id"]] = es
    return g, leaf


def reach(g, start):
    seen, todo, par = {start}, [start], {}
    while todo:
        x = todo.pop()
        for y, _ in g.get(x, ()):
            if y not in seen:
                seen.add(y)
                par[y] = x
                todo.append(y)
    return seen, par


def path(p, par, x, start):
    out = [x]
    while x != start:
        x = par[x]
        out.append(x)
    return " -> ".join(short(p.insts[y]["name"]) for y in reversed(out))


def short(n):
    return re.sub(r"maybe_dns::", "", n)[:90]


def units(p, tier):
    return ["effects", "statics", "order"]


def run_unit(R, p, u, tier):
    {"effects": effects, "statics": statics, "order": order}[u](R, p)


def effects(R, p):
    g, leaf = graph(p)
    R.count("functions in the call graph", len(p.insts))
    R.count("calls", sum(len(x) for x in g.values()))
    pats = [(w, re.compile(r)) for w, r in EFFECTS]
    rnd, sign = re.compile(RANDOM), re.compile(SIGN)
    hit = {}
    for i in p.insts:
        ns = [i["name"], i["def"]] + [s for s, _ in leaf.get(i["id"], ())]
        for w, r in pats:
            if any(r.search(n) for n in ns):
                hit.setdefault(i["id"], []).append(w)
        if i["crate"] != "maybe_dns" and any(rnd.search(n) for n in ns):
            hit.setdefault(i["id"], []).append("random")
    ops = [i for i in p.insts if i["crate"] == "maybe_dns" and "body" in i and i.get("exported") and "{closure#" not in i["def"]]
    R.count("operations", len(ops))
    for i in ops:
        seen, par = reach(g, i["id"])
        R.functions.update(p.insts[x]["name"] for x in seen if "body" in p.insts[x] and p.insts[x]["crate"] == "maybe_dns")
        signs = any(sign.search(re.sub(r"::<.*", "", p.insts[x]["name"])) or sign.search(p.insts[x]["def"]) for x in seen if p.insts[x]["crate"] != "maybe_dns")
        bad = []
        for x in sorted(seen):
            for w in hit.get(x, ()):
                if w == "random":
                    if not signs:
                        bad.append((x, "uses randomness although it signs nothing"))
                else:
                    bad.append((x, w))
        n = short(i["def"])
        for x, w in bad[:3]:
            R.refuted("%s %s" % (n, w), "%s: %s" % (w, path(p, par, x, i["id"])), i["span"], RULE)
        if not bad:
            R.proven("%s has no effect beyond its arguments" % n, i["span"], RULE)


def statics(R, p):
    """statics the library refers to are immutable data"""
    bad = 0
    for s in p.statics:
        R.count("statics")
        if isinstance(s, dict) and (s.get("mut") or s.get("interior") or s.get("thread_local")):
            bad += 1
            R.refuted("static %s" % short(s.get("name", "?")), "mutable or interior-mutable static", s.get("span", ""), "no shared mutable state")
    if not bad:
        R.proven("no mutable static is referred to", "", "no shared mutable state")


def has_order(x, sorted_=False):
    """an unspecified map order that shows in a value"""
    if isinstance(x, Lin):
        return any(has_order(getattr(a, "key", a), sorted_) for a in x.atoms()) if hasattr(x, "atoms") else False
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "ho":
            return not sorted_
        if x and x[0] == "sorted":
            return any(has_order(y, sorted_ or x[1] == "id") for y in x[1:])
        return any(has_order(y, sorted_) for y in x)
    return False


def order(R, p):
    for (tr, m), d in sorted(p.impls.items()):
        if m not in ("to_bytes", "to_bytes_compressed"):
            continue
        for t, l in sorted(d.items()):
            for a, i in l:
                one(R, p, t, m, i)


def maps(p, ty, seen=None):
    """does a type hold a hash map of its own (not in another type of the library)"""
    t = p.types[ty]
    return t["k"] == "adt" and t.get("crate") == "maybe_dns" and any("HashMap" in p.types[f[1]]["s"] or "HashSet" in p.types[f[1]]["s"] for v in t.get("v") or [] for f in v["f"])


def one(R, p, t, m, i):
    ty = p.types[argty(i, 0)]["e"] if p.types[argty(i, 0)]["k"] == "ref" else argty(i, 0)
    key = "%s::%s" % (t, m)
    R.count("serialisers")
    if not maps(p, ty):
        R.proven("%s: nothing it writes is kept in a hash map" % key, i["span"], ORDER)
        return
    c = ctx(p, fit=True)
    con = Contracts(p, ("FQDN",))
    con.install(c)
    try:
        st = State()
        outs = c.call(i, [mk_sym(("arg", "self"), argty(i, 0))] + [mk_sym(("arg", "a%d" % k), argty(i, k)) for k in range(1, i["body"]["argc"])], st, rty(i))
    except Budget as x:
        R.undecided("%s: order" % key, str(x), i["span"], ORDER)
        return
    R.use(c)
    for s, v in outs:
        v = s.facts.norm(v) if isinstance(v, tuple) and v[0] == "seq" else v
        if not (isinstance(v, tuple) and v[0] == "seq"):
            R.undecided("%s: order" % key, "result not represented", i["span"], ORDER)
        elif star_order(v[1]):
            R.refuted("%s: order" % key, "the bytes follow the unspecified order of a hash map: %s" % show_val(v)[:300], i["span"], ORDER)
        elif T.is_imprecise(v):
            names = [p.insts[j]["def"] for j in reach(graph(p)[0], i["id"])[0]]
            if any(re.search(r"Hash(Map|Set).*(iter|keys|values|drain)", n) for n in names) and not any(re.search(r"sort|BTree|BinaryHeap|::cmp\b|min|max", n) for n in names):
                R.refuted("%s: order" % key, "walks a hash map and nothing on the way to the bytes puts the entries in an order", i["span"], ORDER)
            else:
                R.undecided("%s: order" % key, "bytes not represented", i["span"], ORDER)
        elif has_order(v):
            R.undecided("%s: order" % key, "sorted by a key that may not tell all entries apart", i["span"], ORDER)
        else:
            R.proven("%s: the bytes do not depend on the order of the map" % key, i["span"], ORDER)


def star_order(ps):
    for x in ps:
        if x[0] == "sorted":
            continue
        if x[0] == "star" and has_order(x[4]):
            return True
        if x[0] == "Blob" and isinstance(x[1], tuple) and x[1][0] == "ho":
            return True
    return False


def final(R, ps, tier):
    R.floor("operations", 200 * len(ps))
    R.floor("serialisers", 30 * len(ps))
