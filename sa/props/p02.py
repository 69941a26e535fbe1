"""Parsing terminates."""
from panic import *

EXPLAIN = """Every loop reached from a parser (arbitrary bytes, arbitrary cursor position) must have a ranking
argument found by the abstract interpretation of its MIR: a number of iterations given by a value
fixed before the loop, an iterator over a finite sequence, or a lexicographic combination of loop
variables of which every way through the body decreases one and that are bounded (the cursor position
by the data length, for instance).  A loop is a violation when one of its iterations can leave
everything it works on as it was, on a path whose conditions are satisfiable."""
ASSUME = ["functions of the standard library and of dependencies terminate"]


def run(R, p, u, tier):
    i = parsers(p)[u]
    R.count("parsers")
    c = analysis(p, flat=u == "RecordData::from", want_stuck=True, first_iterations=3 if tier == "thorough" else 2,
                 skip=(i["name"],) + (tuple(x["name"] for x in fqdn_decoders(p)) if "fqdn" in u or u.startswith("FQDN") else ()))
    st = State()
    args, pos, ln = args_for(p, st, i)
    if pos is not None:
        st = st.assume(ge0(ln - pos))
    st.trail = ()
    try:
        outs = c.call(i, args, st, rty(i))
    except Budget as x:
        R.use(c)
        R.undecided("%s:budget" % u, str(x), i["span"], "terminates")
        return
    R.use(c)
    bad = set()
    tried = {}
    for key, f, trail, stack in c.stuck:
        tried[key] = tried.get(key, 0) + 1
        if key in bad or tried[key] > 20:
            continue
        if any(T.is_imprecise(x) for x in trail) or not sample.feasible(f):
            continue
        fn = [x for x in stack if "maybe_dns" in x][-1]
        k = "%s:loop in %s" % (u, short_fn(fn))
        bad.add(key)
        R.refuted(k, "an iteration can leave the loop where it was when %s" % [show_cond(x) for x in trail][-6:], "%s line %s" % (i["span"], key[2]), "loops make progress")
    seen = set()
    for key, how, ranked, stack in c.loops_log:
        if (key, ranked) in seen:
            continue
        seen.add((key, ranked))
        if key in bad:
            continue
        R.count("loops")
        if ranked:
            R.proven("%s: loop in %s: %s" % (u, short_fn(key[0]), how), i["span"], "loops make progress")
        else:
            R.undecided("%s:loop in %s" % (u, short_fn(key[0])), "no ranking found: %s" % how, "%s line %s" % (i["span"], key[2]), "loops make progress")
    R.proven("%s: acyclic part" % u, i["span"], "every path through the body ends or is a loop above")


def final(R, ps, tier):
    R.floor("parsers", 50 * len(ps))
