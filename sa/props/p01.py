"""Parsing never panics."""
import bitmap
from panic import *

EXPLAIN = """Every parser is analysed on an arbitrary byte sequence with an arbitrary cursor position within it
(abstract interpretation of the MIR with interval, affine and length facts): every arithmetic check,
bounds check, slice, conversion and unwrap reached is an obligation, discharged when the facts of the
path exclude its failure.  Parsers called by parsers are represented by the contract they are proven
to keep: the position only moves forward and stays within the data.  Type bitmaps are also read for spelled out
windows of lengths around and beyond what fits a window."""
ASSUME = ["memory allocation succeeds"]


def run(R, p, u, tier):
    i = parsers(p)[u]
    R.count("parsers")
    for h in bitmap.holders(p):
        if u == h[0] + "::try_from":
            bitmap.read_panics(R, p, *h)
    c = analysis(p, flat=u == "RecordData::from", skip=(i["name"],) + (tuple(x["name"] for x in fqdn_decoders(p)) if "fqdn" in u or u.startswith("FQDN") else ()))
    st = State()
    args, pos, ln = args_for(p, st, i)
    if pos is not None:
        st = st.assume(ge0(ln - pos))
    st.trail = ()
    try:
        outs = c.call(i, args, st, rty(i))
    except Budget as x:
        R.use(c)
        R.undecided("%s:budget" % u, str(x), i["span"], "no panic")
        return
    R.use(c)
    report_panics(R, p, c, u, i["span"])
    if not c.panics:
        R.proven("%s: no operation on any path can fail" % u, i["span"], "no panic")
    # the contract the callers rely on
    if pos is not None:
        for s, v in outs:
            bp, sl = buf_pos(p, s)
            d1 = s.facts.decide(ge0(s.facts.norm(sl[4] - bp)))
            pr = d1 is False and precise_trail(s) and not T.is_imprecise(bp) and sample.feasible(s.facts)
            st_ = "proven" if d1 is True else "refuted" if d1 is False and pr else "undecided"
            R.ob("%s: position stays within the data%s" % (u, "" if st_ == "proven" else ":" + st_), st_, "position %s of %s when %s" % (show_lin(bp), show_lin(sl[4]), [show_cond(x) for x in s.trail][-5:]), i["span"], "cursor contract")
            if isinstance(v, tuple) and v[0] == "adt" and variants(v[1]) and is_ok_named(v) and u in ("DnsBuffer::extract_fqdn", "FQDN::try_from", "Param::try_from", "Question::try_from", "ResourceRecord::try_from", "Header::try_from"):
                d2 = s.facts.decide(ge0(s.facts.norm(bp - pos - 1)))
                R.ob("%s: consumes at least a byte%s" % (u, "" if d2 is True else ":unknown"), "proven" if d2 is True else "undecided", "position %s" % show_lin(bp), i["span"], "cursor contract")
    if not outs and not c.panics:
        R.undecided("%s:none" % u, "no outcome", i["span"], "no panic")


def final(R, ps, tier):
    R.floor("parsers", 50 * len(ps))
