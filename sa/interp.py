"""Abstract interpreter over the MIR dump.

Abstract domain: value numbers (terms.py), sequences of pieces (seqs.py), path facts (affine).
Control flow is partitioned by the outcome of undecided branches; outcomes of a call are joined when
they only differ in a value the facts explain; loops are summarised by induction (closed forms over an
iteration index, or inductive bounds).  Nothing is executed and no solver is involved.
"""
import os
import sys
from terms import *
import terms as T
from seqs import *
import seqs as S

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


DEBUG = bool(os.environ.get("SA_DEBUG"))


def internal(e):
    """an analysis failure becomes an imprecision, except for a budget (and when debugging)"""
    if isinstance(e, Budget) or (DEBUG and not isinstance(e, Imprecise)):
        raise e


class State:
    __slots__ = ("mem", "facts", "trail", "ev")

    def __init__(self, mem=None, facts=None, trail=(), ev=()):
        self.mem = {} if mem is None else mem
        self.facts = Facts() if facts is None else facts
        self.trail = trail
        self.ev = ev

    def copy(self):
        return State(dict(self.mem), self.facts, self.trail, self.ev)

    def assume(self, c):
        """copy with c assumed (and recorded in the trail), or None"""
        f = self.facts.assume(c)
        if f is None:
            return None
        st = State(dict(self.mem), f, self.trail, self.ev)
        if f is not self.facts:
            st.trail = self.trail + (c,)
        return st

    def event(self, e):
        self.ev = self.ev + (e,)


class Panic:
    __slots__ = ("fn", "kind", "line", "stack", "facts", "cond", "precise", "trail")


TOPS = [0]


def top(tag=""):
    TOPS[0] += 1
    return ("top", TOPS[0])


def fresh_term(tag):
    return ("?", fresh_id(), tag)


# ================================================================ CFG helpers
class Cfg:
    """per-body control flow information: successors, natural loops, liveness"""

    def __init__(self, body):
        self.body = body
        n = len(body["bb"])
        self.succ = [succs(b["t"]) for b in body["bb"]]
        self.n = n
        self._loops()
        self._live()

    def _loops(self):
        n = self.n
        # reachable order
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        dom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in dom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = dom[x]
                                while idx[y] > idx[x]:
                                    y = dom[y]
                            new = x
                if dom.get(b) != new:
                    dom[b] = new
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if dom[b] == b:
                    return False
                b = dom[b]
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body:
                            continue
                        body.add(x)
                        wl.extend(preds[x])
        self.preds = preds
        self.reach = set(rpo)
        self.irreducible = any(idx[s] <= idx[b] and not dominates(s, b) for b in rpo for s in self.succ[b])

    def _live(self):
        """live locals at block entry (direct uses); address-taken locals handled by reachability"""
        use = []
        dfn = []
        for bb in self.body["bb"]:
            u, d = set(), set()

            def rd(x):
                if x not in d:
                    u.add(x)

            def rplace(p):
                rd(p[0])
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == "i":
                        rd(e[1])

            def rop(o):
                if o[0] in ("c", "m"):
                    rplace(o[1])

            def wplace(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    if "*" in p[1:]:
                        rplace(p)
                    else:
                        # partial write: keeps the rest alive only if it is read later
                        for e in p[1:]:
                            if isinstance(e, list) and e[0] == "i":
                                rd(e[1])
            for s in bb["s"]:
                if s[0] == "=":
                    r = s[2]
                    for x in r[1:]:
                        if r[0] in ("ref", "addr", "discr", "len") and isinstance(x, list):
                            rplace(x)
                        elif isinstance(x, list) and x and x[0] in ("c", "m", "k"):
                            rop(x)
                        elif r[0] == "agg" and isinstance(x, list) and x is r[2]:
                            for o in x:
                                rop(o)
                    wplace(s[1])
                elif s[0] == "sd":
                    wplace(s[1])
            t = bb["t"]
            if t[0] == "switch":
                rop(t[1])
            elif t[0] == "call":
                rop(t[1])
                for o in t[2]:
                    rop(o)
                wplace(t[3])
            elif t[0] == "assert":
                rop(t[1])
            elif t[0] == "ret":
                rd(0)
            use.append(u)
            dfn.append(d)
        live = [set() for _ in use]
        ch = True
        while ch:
            ch = False
            for b in range(self.n - 1, -1, -1):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    return []


# ================================================================ values <-> tuple paths
def get_at(v, p):
    for i in p:
        v = v[i]
    return v


def set_at(v, p, x):
    if not p:
        return x
    l = list(v)
    l[p[0]] = set_at(v[p[0]], p[1:], x)
    return tuple(l)


def leaf_diffs(a, b, path, out):
    """paths at which the tuple trees differ"""
    if a is b or a == b:
        return
    if isinstance(a, Lin) or isinstance(b, Lin):
        out.append(path)
        return
    if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b) or not a:
        out.append(path)
        return
    k = a[0]
    if isinstance(k, str):
        if b[0] != k or k in ("seq", "b", "sym", "top", "ref"):
            out.append(path)
            return
        if k == "adt" and (a[1] != b[1] or a[2] != b[2]):
            out.append(path)
            return
        if k == "sl":
            if a[1] != b[1] or a[2] != b[2]:
                out.append(path)
                return
        if k == "it" and a[1] != b[1]:
            out.append(path)
            return
    for i, (x, y) in enumerate(zip(a, b)):
        leaf_diffs(x, y, path + (i,), out)


def refs_in(v, out):
    if isinstance(v, tuple) and v:
        if v[0] in ("ref", "sl"):
            out.add(v[1])
            return
        if v[0] == "it":
            for x in v[1:]:
                if isinstance(x, tuple):
                    if x and x[0] == "cell":
                        out.add(x[1])
                    else:
                        refs_in(x, out)
            return
        if v[0] == "seq":
            for p in v[1]:
                refs_in(p, out)
            return
        for x in v:
            if isinstance(x, tuple):
                refs_in(x, out)


class Ctx:
    def __init__(self, prog, models, **opts):
        self.prog = prog
        S.set_program(prog)
        self.models = models
        self.contracts = {}
        self.panics = []
        self.proved = {}
        self.unknown = {}
        self.notes = []
        self.loops_log = []
        self.stuck = []
        self.want_stuck = opts.get("want_stuck", False)
        self.assumptions = set()
        self.cfgs = {}
        self.born = {}
        self.fid = 0
        self.steps = 0
        self.max_steps = opts.get("max_steps", 400000)
        self.stack = []
        self.visited = set()
        self.opaque = opts.get("opaque", False)
        self.unroll = opts.get("unroll", 24)
        self.assume_sizes = opts.get("assume_sizes", True)
        self.record = True
        self.probe = 0
        self.join_all = opts.get("join_all", False)
        self.max_paths = opts.get("max_paths", 600)
        self.hook_call = None
        self.mode = opts.get("mode", "")
        self.generic = 0
        self.keep_apart = opts.get("keep_apart", 24)
        self.fit = opts.get("fit", False)
        self.fitted = set()
        self.utf8 = opts.get("utf8", False)          # text read from the wire is UTF-8
        self.plain = opts.get("plain", ())           # terms of texts without special characters
        self.rounds = opts.get("rounds")             # analyse only the first rounds of loops
        self.cut = 0
        self.first_iterations = opts.get("first_iterations", 0)
        self.trace = opts.get("trace")
        self.insist = opts.get("insist", False)      # unroll whatever ends within the limit
        self.nested = False

    # ------------------------------------------------------------ memory
    def read_cell(self, st, cell):
        v = st.mem.get(cell)
        if v is not None:
            return v
        if isinstance(cell, tuple):
            if cell[0] == "d":
                return mk_sym(cell[1], cell[2])
            if cell[0] == "C":
                return cell[1]
            if cell[0] == "K":
                return ("seq", norm_pieces(tuple(("B", K(b)) for b in cell[1]), u8_ty()), u8_ty())
        return top("uninit")

    def nav(self, v, path, facts):
        for e in path:
            v = self.nav1(v, e, facts)
        return v

    def nav1(self, v, e, facts):
        k = e[0]
        if k == "f":
            if v[0] == "adt":
                return v[3][e[1]] if e[1] < len(v[3]) else top()
            if v[0] == "tup":
                return v[1][e[1]]
            if v[0] == "clo":
                return v[2][e[1]] if e[1] < len(v[2]) else top()
            if v[0] == "box":
                return v
            if v[0] == "sym":
                vs = variants(v[2]) if tk(v[2]) == "adt" else None
                if vs:
                    var_ = e[2] if len(e) > 2 and e[2] is not None else 0
                    return sym_fields(v, var_)[e[1]]
                if tk(v[2]) == "closure":
                    return top()
            return top()
        if k == "e":
            if v[0] == "seq":
                return seq_elem(v, e[1], facts)
            return top()
        return top()

    def read(self, st, cell, path):
        return self.nav(self.read_cell(st, cell), path, st.facts)

    def write(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self.upd(self.read_cell(st, cell), path, val, st.facts)

    def upd(self, v, path, val, facts):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            if v[0] == "adt":
                l = list(v[3])
                while len(l) <= e[1]:
                    l.append(top())
                l[e[1]] = self.upd(l[e[1]], path[1:], val, facts)
                return ("adt", v[1], v[2], tuple(l))
            if v[0] == "tup":
                l = list(v[1])
                l[e[1]] = self.upd(l[e[1]], path[1:], val, facts)
                return ("tup", tuple(l))
            if v[0] == "clo":
                l = list(v[2])
                l[e[1]] = self.upd(l[e[1]], path[1:], val, facts)
                return ("clo", v[1], tuple(l))
            if v[0] == "sym":
                vs = variants(v[2]) if tk(v[2]) == "adt" else None
                if vs:
                    var_ = e[2] if len(e) > 2 and e[2] is not None else 0
                    return self.upd(("adt", v[2], var_, sym_fields(v, var_)), path, val, facts)
            if v[0] == "top":
                # partially initialised aggregate
                if len(path) == 1 and len(e) > 3:
                    pass
                l = [top() for _ in range(e[1])] + [self.upd(top(), path[1:], val, facts)]
                return ("tup", tuple(l))
            return top()
        if e[0] == "e":
            if v[0] == "seq":
                try:
                    old = seq_elem(v, e[1], facts)
                    return seq_set(v, e[1], self.upd(old, path[1:], val, facts), facts)
                except Imprecise:
                    t = fresh_term("wr")
                    return ("seq", (("Blob", t, ZERO, seq_len(v)),), v[2])
        return top()

    # ------------------------------------------------------------ places
    def place(self, st, fid, p, body):
        """-> (cell, path, window) ; window=None or (start,len)"""
        cell, path, win = (fid, p[0]), (), None
        variant = None
        for e in p[1:]:
            if e == "*":
                v = self.read(st, cell, path)
                if v[0] == "ref":
                    cell, path, win = v[1], v[2], None
                elif v[0] == "sl":
                    cell, path, win = v[1], v[2], (v[3], v[4])
                elif v[0] == "box":
                    cell, path, win = v[1], (), None
                else:
                    c = ("T", fresh_id())
                    st.mem[c] = top("deref")
                    cell, path, win = c, (), None
                variant = None
            elif e[0] == "f":
                if variant is not None:
                    path = path + (("f", e[1], variant),)
                    # remember type for uninitialised enum payloads
                else:
                    path = path + (("f", e[1]),)
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                ix = self.read(st, (fid, e[1]), ())
                if not isinstance(ix, Lin):
                    ix = L(gen_atom(0, LEN_MAX, True))
                if win is not None:
                    ix = ix + win[0]
                path = path + (("e", ix),)
                win = None
            elif e[0] == "ci":
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    ln = win[1] if win is not None else seq_len(self.as_seq(self.read(st, cell, path)))
                    ix = ln - off
                else:
                    ix = K(off)
                if win is not None:
                    ix = ix + win[0]
                path = path + (("e", ix),)
                win = None
            elif e[0] == "ss":
                frm, to, fe = e[1], e[2], e[3]
                if win is None:
                    win = (ZERO, seq_len(self.as_seq(self.read(st, cell, path))))
                end = win[1] - to if fe else K(to)
                win = (win[0] + frm, end - frm)
            else:
                pass
        return cell, path, win, variant

    def as_seq(self, v):
        if v[0] == "seq":
            return v
        t = fresh_term("seq")
        return ("seq", (("Blob", t, ZERO, length(t)),), u8_ty())

    def load(self, st, fid, p, body):
        cell, path, win, variant = self.place(st, fid, p, body)
        v = self.read(st, cell, path)
        if isinstance(v, tuple) and v[0] == "top" and len(p) > 1:
            pass
        return v

    def store(self, st, fid, p, val, body):
        cell, path, win, variant = self.place(st, fid, p, body)
        if path and st.mem.get(cell) == ("uninit",):
            path = ()
        self.write(st, cell, path, val)

    # ------------------------------------------------------------ operands
    def const(self, ty, c):
        t = self.prog.types[ty]
        k = t["k"]
        if k == "fndef":
            return ("fn", t["inst"], ty)
        if k == "closure":
            return ("clo", ty, ())
        if "zst" in c:
            if k == "tuple":
                return UNIT
            if k == "adt":
                if t.get("v") and t["ak"] == "struct":
                    return ("adt", ty, 0, tuple(self.const(f[1], {"zst": 1}) for f in t["v"][0]["f"]))
                return ("sym", ("zst", t["s"]), ty)
            if k == "array":
                return ("seq", (), t["e"])
            return ("sym", ("zst", t["s"]), ty)
        if "u" in c:
            return K(c["u"])
        if "o" in c:
            return ("sym", ("const", 0, c["o"][:80]), ty) if k not in ("int", "uint") else L(gen_atom(*int_range(ty), imp=True))
        b = c["b"]
        prov = {o: x for o, x in c.get("p", [])}
        return self.decode(ty, b, 0, prov)

    def sizeof(self, ty):
        t = self.prog.types[ty]
        k = t["k"]
        if "lay" in t:
            return t["lay"]["size"]
        if k in ("int", "uint"):
            return t["bits"] // 8
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k in ("ref", "ptr"):
            return 16 if tk(t["e"]) in ("slice", "str", "opaque") else 8
        if k == "array":
            e = self.sizeof(t["e"])
            return None if e is None else e * t["n"]
        if k == "tuple" and not t["f"]:
            return 0
        if k == "adt" and t.get("v"):
            if t["ak"] == "enum" and all(not v["f"] for v in t["v"]):
                r = t["repr"]
                if "U8" in r or "I8" in r or r == "None":
                    return 1 if len(t["v"]) <= 256 and max(v["d"] for v in t["v"]) < 256 else 2
            if t["ak"] == "struct":
                s, al = 0, 1
                for f in t["v"][0]["f"]:
                    x = self.sizeof(f[1])
                    if x is None:
                        return None
                    a = self.alignof(f[1])
                    al = max(al, a)
                    s += x
                return (s + al - 1) // al * al
        return None

    def alignof(self, ty):
        t = self.prog.types[ty]
        k = t["k"]
        if k == "array":
            return self.alignof(t["e"])
        if k == "adt" and t.get("v") and t["ak"] == "struct":
            return max([self.alignof(f[1]) for f in t["v"][0]["f"]] + [1])
        if k in ("ref", "ptr"):
            return 8
        return self.sizeof(ty) or 1

    def decode(self, ty, b, off, prov):
        t = self.prog.types[ty]
        k = t["k"]
        if k in ("uint", "int", "char"):
            n = t["bits"] // 8 if k != "char" else 4
            bs = b[off:off + n]
            if any(x < 0 for x in bs) or len(bs) < n:
                return L(gen_atom(*int_range(ty), imp=True))
            v = int.from_bytes(bytes(bs), "little", signed=(k == "int"))
            return K(v)
        if k == "bool":
            return ("b", b[off] != 0)
        if k in ("ref", "ptr"):
            pr = prov.get(off)
            ek = tk(t["e"])
            if pr is None:
                return top("ptr")
            if "mem" in pr:
                m = pr["mem"]
                mb = m["b"]
                mp = {o: x for o, x in m.get("p", [])}
                if ek in ("slice", "str"):
                    n = int.from_bytes(bytes(b[off + 8:off + 16]), "little")
                    e = u8_ty() if ek == "str" else self.prog.types[t["e"]]["e"]
                    if is_byte_ty(e):
                        return ("sl", ("K", tuple(mb[:n])), (), ZERO, K(n))
                    sz = self.sizeof(e)
                    if sz:
                        vals = tuple(("B", self.decode(e, mb, i * sz, mp)) for i in range(n))
                        return ("sl", ("C", ("seq", norm_pieces(vals, e), e)), (), ZERO, K(n))
                    return top("slice const")
                if tk(t["e"]) == "array" and is_byte_ty(self.prog.types[t["e"]]["e"]):
                    return ("ref", ("K", tuple(mb)), ())
                return ("ref", ("C", self.decode(t["e"], mb, 0, mp)), ())
            if "static" in pr:
                return ("ref", ("d", ("static", pr["static"]), pr.get("ty", t["e"])), ())
            return top("ptr")
        if k == "array":
            sz = self.sizeof(t["e"])
            if sz is None:
                return top("array const")
            return ("seq", norm_pieces(tuple(("B", self.decode(t["e"], b, off + i * sz, prov)) for i in range(t["n"])), t["e"]), t["e"])
        if k == "tuple":
            if not t["f"]:
                return UNIT
            if "lay" in t and t["lay"]["f"] is not None:
                return ("tup", tuple(self.decode(f, b, off + o, prov) for f, o in zip(t["f"], t["lay"]["f"])))
            return top("tuple const")
        if k == "adt":
            vs = t.get("v")
            lay = t.get("lay")
            if vs and lay and t["ak"] != "union":
                lv = lay["v"]
                if lv and "one" in lv:
                    i, offs = lv["one"], lay["f"] or []
                elif lv:
                    to, ts = lv["tag"]
                    bs = b[off + to:off + to + ts]
                    i = None
                    if off + to in prov and lv["niche"]:
                        i = lv["niche"][0]
                    elif len(bs) == ts and all(x >= 0 for x in bs):
                        tag = int.from_bytes(bytes(bs), "little")
                        if lv["niche"]:
                            u, lo, hi, start = lv["niche"]
                            d = (tag - start) % (1 << (8 * ts))
                            i = lo + d if d <= hi - lo else u
                        else:
                            i = next((n for n, v in enumerate(vs) if v["d"] % (1 << (8 * ts)) == tag), None)
                    offs = lv["off"][i] if i is not None else None
                else:
                    i = None
                if i is not None and len(offs) == len(vs[i]["f"]):
                    return ("adt", ty, i, tuple(self.decode(f[1], b, off + o, prov) for f, o in zip(vs[i]["f"], offs)))
            if vs and t["ak"] == "enum" and all(not v["f"] for v in vs):
                n = len(b) - off
                sz = self.sizeof(ty) or n
                bs = b[off:off + sz]
                d = int.from_bytes(bytes(x & 255 for x in bs), "little")
                i = variant_by_discr(ty, d)
                if i is not None:
                    return ("adt", ty, i, ())
            if vs and t["ak"] == "struct":
                fs = vs[0]["f"]
                if len(fs) == 1:
                    return ("adt", ty, 0, (self.decode(fs[0][1], b, off, prov),))
                if not fs:
                    return ("adt", ty, 0, ())
            return ("sym", ("const", 0, tuple(b), t["s"]), ty)
        return ("sym", ("const", 0, tuple(b), t["s"]), ty)

    def operand(self, st, fid, o, body):
        if o[0] == "k":
            return self.const(o[1], o[2])
        if o[0] == "rc":
            return ("b", True)
        return self.load(st, fid, o[1], body)

    def opty(self, o, body):
        """type id of an operand (locals only exact for plain locals)"""
        if o[0] == "k":
            return o[1]
        if o[0] == "rc":
            return None
        return self.place_ty(o[1], body)

    def place_ty(self, p, body):
        ty = body["locals"][p[0]]
        for e in p[1:]:
            t = self.prog.types[ty]
            if e == "*":
                ty = t.get("e", ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = t.get("e", ty)
        return ty

    # ------------------------------------------------------------ arithmetic
    def norm(self, st, v):
        return st.facts.norm(v)

    def as_int(self, v, ty=None):
        if isinstance(v, Lin):
            return v
        if isinstance(v, tuple):
            if v[0] == "b":
                return b2i(v[1])
            if v[0] == "adt" and variants(v[1]):
                return K(variants(v[1])[v[2]]["d"])
            if v[0] == "sym" and tk(v[2]) == "adt" and variants(v[2]) and tinfo(v[2])["ak"] == "enum":
                return L(discr_atom(v[1], v[2]))
        lo, hi = int_range(ty) if ty is not None and int_range(ty) else (None, None)
        return L(gen_atom(lo, hi, True))

    def in_range(self, st, l, lo, hi):
        f = st.facts
        return f.prove_ge(l - lo) and f.prove_ge(K(hi) - l)

    def size_like(self, l):
        """non-negative combination of in-memory sizes (bounded by the address space)"""
        if l.c > (1 << 32):
            return False
        for a, k in l.t:
            if k < 0 or k > (1 << 16):
                return False
            if a.key[0] not in ("len", "sum", "ix", "first", "found", "bound", "b2i", "ite", "mul", "trunc", "bits", "val", "gen") and not (a.hi is not None and a.lo is not None and a.lo >= 0 and a.hi < (1 << 33)):
                return False
        return True

    def as_signed(self, st, v, ty):
        """discriminants of signed enumerations are kept as their bits"""
        if not isinstance(v, Lin):
            return v
        hi = int_range(ty)[1]
        x = st.facts.norm(v)
        a = x.atom()
        if x.const is None and a is not None and a.key[0] == "discr":
            for d in sorted(T.DOM.get(a, ())):
                if d > hi:
                    c = eq0(x - d)
                    k = st.facts.decide(c)
                    if k is None:
                        raise Fork(c)
                    if k:
                        x = K(d)
                        break
        if x.const is not None and x.const > hi:
            return x - 2 * (hi + 1)
        return v if x.const is None else x

    def binop(self, st, op, a, b, ty, checked=False):
        """returns value (and overflow condition when checked)"""
        facts = st.facts
        rng = int_range(ty) if ty is not None else None
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if ty is not None and tk(ty) == "int":
                a, b = self.as_signed(st, a, ty), self.as_signed(st, b, ty)
            return self.compare(st, op, a, b)
        if isinstance(a, tuple) and a[0] == "b" and isinstance(b, tuple) and b[0] == "b":
            ca, cb = a[1], b[1]
            if op == "BitAnd":
                return ("b", c_and(ca, cb))
            if op == "BitOr":
                return ("b", c_or(ca, cb))
            if op == "BitXor":
                return ("b", c_or(c_and(ca, neg(cb)), c_and(neg(ca), cb)))
        x = facts.norm(self.as_int(a, ty))
        y = facts.norm(self.as_int(b, ty))
        if op == "Offset":
            return top()
        lo, hi = rng if rng else (None, None)
        if op in ("Add", "AddUnchecked", "AddWithOverflow"):
            r = x + y
        elif op in ("Sub", "SubUnchecked", "SubWithOverflow"):
            r = x - y
        elif op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            r = mk_mul(x, y)
        elif op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, op, x, y, ty)
        elif op in ("Shl", "ShlUnchecked"):
            w = self.prog.types[ty]["bits"]
            if y.const is None:
                if x.const is not None and x.const & (x.const - 1) == 0 and x.const > 0:
                    return L(mk_atom(("shl", x, y, w), 0, (1 << w) - 1))
                return L(mk_atom(("shl", x, y, w), 0, (1 << w) - 1))
            n = y.const % w
            bits = bits_or_opaque(x, w) if facts.prove_ge(x) else None
            if bits is None:
                return L(gen_atom(lo, hi, True))
            return from_bits([0] * n + bits[:w - n])
        elif op in ("Shr", "ShrUnchecked"):
            w = self.prog.types[ty]["bits"]
            if y.const is None:
                return L(mk_atom(("shr", x, y, w), 0, (1 << w) - 1))
            n = y.const % w
            bits = bits_or_opaque(x, w) if facts.prove_ge(x) else None
            if bits is None:
                return L(gen_atom(lo, hi, True))
            return from_bits(bits[n:])
        elif op == "Div":
            return self.divmod(st, x, y, ty)[0]
        elif op == "Rem":
            return self.divmod(st, x, y, ty)[1]
        else:
            return L(gen_atom(lo, hi, True))
        if checked:
            if lo is None:
                return r, False
            if self.in_range(st, r, lo, hi):
                return r, False
            if self.assume_sizes and self.prog.types[ty].get("bits") == 64 and lo == 0 and facts.prove_ge(r) and self.size_like(r):
                self.assumptions.add("sums of in-memory sizes do not exceed the address space")
                return r, False
            return r, c_or(ge0(r - (hi + 1)), ge0(K(lo - 1) - r))
        if lo is not None and not self.in_range(st, r, lo, hi):
            if op.endswith("Unchecked"):
                return r
            if self.size_like(r) and self.prog.types[ty].get("bits") == 64 and facts.prove_ge(r):
                return r
            return L(mk_atom(("wrap", self.prog.types[ty]["bits"], r), lo, hi))
        return r

    def divmod(self, st, x, y, ty):
        lo, hi = int_range(ty)
        n = y.const
        if n is not None and n > 0 and st.facts.prove_ge(x):
            if x.const is not None:
                return K(x.const // n), K(x.const % n)
            if n & (n - 1) == 0:
                s = n.bit_length() - 1
                w = self.prog.types[ty]["bits"]
                b = bits_or_opaque(x, w)
                return from_bits(b[s:]), from_bits(b[:s])
            h = hi_of(x, st.facts.bnd)
            q = L(mk_atom(("div", x, y), 0, (h if h is not None else hi) // n))
            r = L(mk_atom(("rem", x, y), 0, n - 1))
            return q, r
        return L(mk_atom(("div", x, y), 0, hi)), L(mk_atom(("rem", x, y), 0, hi))

    def bitop(self, st, op, x, y, ty):
        t = self.prog.types[ty]
        w = t.get("bits", 64)
        if x.const is not None and y.const is not None and x.const >= 0 and y.const >= 0:
            f = {"BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "BitXor": lambda p, q: p ^ q}[op]
            return K(f(x.const, y.const))
        if not (st.facts.prove_ge(x) and st.facts.prove_ge(y)):
            return L(mk_atom(("bitop", op, x, y), *int_range(ty)))
        bx, by = bits_or_opaque(x, w), bits_or_opaque(y, w)
        out = []
        for p, q in zip(bx, by):
            if op == "BitAnd":
                r = 0 if p == 0 or q == 0 else (q if p == 1 else (p if q == 1 else (p if p == q else None)))
            elif op == "BitOr":
                r = 1 if p == 1 or q == 1 else (q if p == 0 else (p if q == 0 else (p if p == q else None)))
            else:
                r = q if p == 0 else (p if q == 0 else (0 if p == q else None))
            if r is None:
                return L(mk_atom(("bitop", op, x, y), *int_range(ty)))
            out.append(r)
        return from_bits(out)

    def compare(self, st, op, a, b):
        if isinstance(a, tuple) and a[0] == "b" and isinstance(b, tuple) and b[0] == "b":
            ca, cb = a[1], b[1]
            e = c_or(c_and(ca, cb), c_and(neg(ca), neg(cb)))
            if op == "Eq":
                return ("b", e)
            if op == "Ne":
                return ("b", neg(e))
        if (isinstance(a, tuple) and a[0] in ("top", "ref", "sl")) or (isinstance(b, tuple) and b[0] in ("top", "ref", "sl")):
            return ("b", ("bv", fresh_term("cmp")))
        x = st.facts.norm(self.as_int(a))
        y = st.facts.norm(self.as_int(b))
        if op == "Eq":
            return ("b", eq0(x - y))
        if op == "Ne":
            return ("b", neg(eq0(x - y)))
        if op == "Lt":
            return ("b", ge0(y - x - 1))
        if op == "Le":
            return ("b", ge0(y - x))
        if op == "Gt":
            return ("b", ge0(x - y - 1))
        if op == "Ge":
            return ("b", ge0(x - y))
        d = st.facts.decide(ge0(y - x - 1))
        if d is None:
            raise Fork(ge0(y - x - 1))
        if d:
            i = -1
        else:
            e = st.facts.decide(eq0(x - y))
            if e is None:
                raise Fork(eq0(x - y))
            i = 0 if e else 1
        oty = self.ordering_ty()
        return ("adt", oty, variant_by_discr(oty, i & 0xFF if variant_by_discr(oty, i) is None else i), ())

    def local_frame(self):
        return bool(self.stack) and "maybe_dns::" in self.stack[-1][0]

    def reinterpret(self, st, x, ty, t):
        """the bits of a number taken as a value of a type that not all bits are values of"""
        x = st.facts.norm(x)
        for n in range(2) if t["k"] == "bool" else range(len(t["v"])):
            d = n if t["k"] == "bool" else t["v"][n]["d"]
            c = eq0(x - d)
            k = st.facts.decide(c)
            if k is None:
                raise Fork(c)
            if k:
                if self.local_frame():
                    self.discharge("unsafe: reinterpreted as %s" % t["s"], self.stack[-1][1])
                return ("b", bool(n)) if t["k"] == "bool" else ("adt", ty, n, ())
        if self.local_frame():
            self.panic(st, "unsafe: reinterpreted as %s" % t["s"], self.stack[-1][1])
        raise Dead()

    def ordering_ty(self):
        for i, t in enumerate(self.prog.types):
            if t["k"] == "adt" and t["def"].endswith("cmp::Ordering"):
                return i
        raise Imprecise("no Ordering")

    def cast(self, st, kind, v, ty, fty):
        t = self.prog.types[ty]
        if kind.startswith("PointerCoercion(Unsize"):
            if v[0] == "ref" and t["k"] in ("ref", "ptr") and tk(t["e"]) == "slice":
                s = self.read(st, v[1], v[2])
                n = seq_len(s) if s[0] == "seq" else None
                if n is None and fty is not None:
                    ft = self.prog.types[fty]
                    et = self.prog.types[ft["e"]] if "e" in ft else None
                    if et and et["k"] == "array":
                        n = K(et["n"])
                if n is None:
                    return top()
                return ("sl", v[1], v[2], ZERO, n)
            return v
        if kind.startswith("PointerCoercion"):
            return v
        if kind == "IntToInt":
            return self.int_cast(st, self.as_int(v, fty), fty, ty)
        if kind == "Transmute" or kind == "Subtype":
            if t["k"] in ("int", "uint"):
                if isinstance(v, Lin) or v[0] in ("b", "adt", "sym"):
                    x = self.as_int(v, ty)
                    if kind == "Transmute" and self.local_frame():
                        self.discharge("unsafe: reinterpreted as %s" % t["s"], self.stack[-1][1])
                    return x
                if v[0] == "seq":
                    return top()
            if kind == "Transmute" and fty is not None and self.prog.types[fty]["k"] in ("int", "uint", "bool") \
                    and (t["k"] == "bool" or t["k"] == "adt" and t.get("ak") == "enum" and t.get("v") and not any(x["f"] for x in t["v"])):
                return self.reinterpret(st, self.as_int(v, fty), ty, t)
            return v if kind == "Subtype" else ("sym", ("transmute", v, t["s"]), ty)
        if kind == "BoxDerefTransmute":
            if v[0] in ("box",):
                return ("ref", v[1], ())
            return v
        if kind.startswith("PtrToPtr"):
            return v
        if t["k"] in ("int", "uint"):
            return L(gen_atom(*int_range(ty), imp=True))
        return top()

    def int_cast(self, st, x, fty, ty):
        x = st.facts.norm(x)
        lo, hi = int_range(ty)
        if self.in_range(st, x, lo, hi):
            return x
        t = self.prog.types[ty]
        w = t["bits"] if t["k"] != "char" else 32
        if x.const is not None:
            v = x.const & ((1 << w) - 1)
            if t["k"] == "int" and v >= 1 << (w - 1):
                v -= 1 << w
            return K(v)
        if lo == 0 and st.facts.prove_ge(x):
            b = to_bits(x, 128)
            if b is not None:
                return from_bits(b[:w])
            if self.fit and self.size_like(x):
                f = st.facts.assume(ge0(K(hi) - x))
                if f is not None:
                    st.facts = f
                    self.fitted.add(w)
                    self.assumptions.add("lengths written to the wire fit the width of their field")
                    return x
            return L(mk_atom(("trunc", w, x), 0, hi))
        return L(mk_atom(("trunc%s" % ("s" if lo else ""), w, x), lo, hi))

    def untrunc(self, st, x, w):
        """a length written out with w bits is assumed to be representable with w bits"""
        x = st.facts.norm(x)
        for _ in range(3):
            for a, k in x.t:
                if a.key[0] == "trunc" and a.key[1] == w and self.size_like(a.key[2]):
                    f = st.facts.assume(eq0(L(a) - a.key[2]))
                    if f is not None:
                        self.assumptions.add("lengths written to the wire fit the width of their field")
                        st.facts = f
                        x = f.norm(x)
                        break
            else:
                break
        return x

    # ------------------------------------------------------------ statements
    def rvalue(self, st, fid, r, body, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1], body)
        if k in ("ref", "addr"):
            p = r[2] if k == "ref" else r[1]
            cell, path, win, variant = self.place(st, fid, p, body)
            if win is not None:
                return ("sl", cell, path, win[0], win[1])
            # reference to an unsized place that was reached through a fat pointer keeps its window
            return ("ref", cell, path)
        if k == "agg":
            kind = r[1]
            ops = [self.operand(st, fid, o, body) for o in r[2]]
            if kind[0] == "tuple":
                return ("tup", tuple(ops))
            if kind[0] == "array":
                e = kind[1]
                return mk_seq(tuple(("B", o) for o in ops), e)
            if kind[0] == "adt":
                if kind[3] is not None:  # union
                    return top("union")
                return ("adt", kind[1], kind[2], tuple(ops))
            if kind[0] == "closure":
                return ("clo", kind[1], tuple(ops))
            if kind[0] == "rawptr":
                return ops[0]
            return top("agg")
        if k == "bin":
            ty = self.opty(r[2], body)
            if ty is not None and tk(ty) not in ("int", "uint", "char", "bool"):
                ty = None
            a, b = self.operand(st, fid, r[2], body), self.operand(st, fid, r[3], body)
            return self.binop(st, r[1], a, b, ty)
        if k == "chk":
            ty = self.opty(r[2], body)
            a, b = self.operand(st, fid, r[2], body), self.operand(st, fid, r[3], body)
            v, ov = self.binop(st, r[1], a, b, ty, True)
            return ("tup", (v, ("b", ov)))
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fid, r[2], body), r[3], self.opty(r[2], body))
        if k == "discr":
            v = self.load(st, fid, r[1], body)
            return self.discr(v, self.place_ty(r[1], body))
        if k == "len":
            cell, path, win, _ = self.place(st, fid, r[1], body)
            if win is not None:
                return win[1]
            v = self.read(st, cell, path)
            return seq_len(v) if v[0] == "seq" else L(gen_atom(0, LEN_MAX, True))
        if k == "rep":
            v = self.operand(st, fid, r[1], body)
            n = r[2]
            t = self.prog.types[dty]
            e = t["e"] if t["k"] == "array" else u8_ty()
            return mk_seq((("B", v),) * n, e) if n is not None and n <= 300 else top("rep")
        if k == "un":
            v = self.operand(st, fid, r[2], body)
            if r[1] == "Not":
                if isinstance(v, tuple) and v[0] == "b":
                    return ("b", neg(v[1]))
                ty = self.opty(r[2], body)
                if ty is not None and tk(ty) == "uint":
                    hi = int_range(ty)[1]
                    return K(hi) - self.as_int(v, ty)
                if tk(ty) == "bool":
                    return ("b", ("bv", fresh_term("not")))
                return L(gen_atom(*int_range(ty), imp=True))
            if r[1] == "Neg":
                return -self.as_int(v)
            if r[1] == "PtrMetadata":
                if v[0] == "sl":
                    return v[4]
                return L(gen_atom(0, LEN_MAX, True))
        return top("rv")

    def discr(self, v, ty):
        if isinstance(v, tuple):
            if v[0] == "adt":
                vs = variants(v[1])
                return K(vs[v[2]]["d"]) if vs else ZERO
            if v[0] == "sym" and tk(v[2]) == "adt" and variants(v[2]):
                return L(discr_atom(v[1], v[2]))
        if tk(ty) == "adt" and variants(ty):
            t = fresh_term("discr")
            return L(discr_atom(t, ty))
        return L(gen_atom(0, 255, True))

    # ------------------------------------------------------------ panics
    def panic(self, st, kind, line, cond=None):
        p = Panic()
        p.fn = self.stack[-1][0] if self.stack else "?"
        p.kind = kind
        p.line = line
        p.stack = [s[0] for s in self.stack]
        p.facts = st.facts
        p.trail = st.trail
        p.cond = cond
        imp = any(T.is_imprecise(c) for c in st.trail)
        if cond is not None:
            imp = imp or T.is_imprecise(cond)
        p.precise = not imp and not self.generic
        if self.record and kind != "unreachable" and st.facts.absurd(4):
            k = (p.fn, kind, line)
            self.proved[k] = self.proved.get(k, 0) + 1
            return
        if self.record:
            self.panics.append(p)

    def discharge(self, kind, line):
        if self.record and self.stack:
            k = (self.stack[-1][0], kind, line)
            self.proved[k] = self.proved.get(k, 0) + 1

    def require(self, st, cond, kind, line=None):
        """st with cond assumed; records a panic when it may fail; None when it surely fails"""
        d = st.facts.decide(cond)
        line = line if line is not None else (self.stack[-1][1] if self.stack else 0)
        if d is True:
            self.discharge(kind, line)
            return st
        bad = st.assume(neg(cond))
        if bad is not None:
            self.panic(bad, kind, line, cond)
        if d is False:
            return None
        return st.assume(cond)

    def log_loop(self, key, how, ranked):
        if self.record:
            self.loops_log.append((key, how, ranked, [s[0] for s in self.stack]))

    def drop_generic(self, outs):
        pass

    # ------------------------------------------------------------ execution
    def cfg(self, inst):
        c = self.cfgs.get(inst["id"])
        if c is None:
            c = Cfg(inst["body"])
            self.cfgs[inst["id"]] = c
        return c

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")

    def call(self, inst, args, st, rty):
        """all outcomes [(state, value)] of calling inst"""
        self.tick()
        if len(self.stack) > 80:
            raise Budget("call depth")
        c = self.contracts.get(inst["name"])
        if c is not None:
            r = c(self, st, inst, args, rty)
            if r is not None:
                return r
        if inst["name"].startswith("<fn(") and inst["args"] and isinstance(inst["args"][0], int):
            ft = self.prog.types[inst["args"][0]]
            if ft["k"] == "fndef" and ft.get("inst") is not None and len(args) == 2:
                return self.call_value(("fn", ft["inst"], inst["args"][0]), [args[1]] if args[1][0] != "tup" else list(args[1][1]), st, rty)
        if inst.get("ikind", "").startswith("Ctor") and rty is not None and variants(rty):
            nm = inst["def"].split("::")[-1]
            vs = variants(rty)
            i = next((n for n, v in enumerate(vs) if v["n"] == nm), 0 if len(vs) == 1 else None)
            if i is not None and len(vs[i]["f"]) == len(args):
                return [(st, ("adt", rty, i, tuple(args)))]
        m = self.models.find(inst)
        if m is not None:
            return self.native(m, inst, args, st, rty)
        if "body" in inst:
            return self.call_body(inst, args, st, rty)
        return self.unknown_call(inst, args, st, rty)

    def native(self, m, inst, args, st, rty):
        self.stack.append((inst["name"], self.stack[-1][1] if self.stack else 0, inst))
        # attribute obligations of a library call to its caller
        self.stack.pop()
        work = [(st, 0)]
        out = []
        while work:
            s, d = work.pop()
            try:
                r = m(self, s.copy(), inst, args, rty)
                out.extend(r)
            except Fork as f:
                if d > 10:
                    out.extend(self.unknown_call(inst, args, s, rty))
                    continue
                a, b = s.assume(f.cond), s.assume(neg(f.cond))
                for x in (b, a):
                    if x is not None:
                        work.append((x, d + 1))
            except Exception as e:
                internal(e)
                self.note("imprecise %s: %s" % (inst["name"][:90], e))
                out.extend(self.unknown_call(inst, args, s, rty, quiet=True))
        return out

    def note(self, s):
        if self.mode == "dbg" and not self.record:
            self.trace("  (quiet) " + s[:300])
        if self.record and len(self.notes) < 400:
            self.notes.append((self.stack[-1][0] if self.stack else "", s))

    def unknown_call(self, inst, args, st, rty, quiet=False):
        if not quiet:
            self.unknown[inst["name"]] = self.unknown.get(inst["name"], 0) + 1
        st = st.copy()
        muts = inst.get("muts", ())
        for n, a in enumerate(args):
            self.havoc_mut(st, a)
            if n in muts and isinstance(a, tuple) and a and a[0] == "sl":
                self.havoc_slice(st, a)
        if rty is not None and tk(rty) == "never":
            return []
        return [(st, self.any_val(rty))]

    def any_val(self, rty):
        if rty is None:
            return top()
        return mk_sym(fresh_term("ret"), rty)

    def havoc_mut(self, st, a, depth=0):
        # only references to memory; immutable borrows cannot be told apart here, so only havoc
        # what the models flag; unknown callee: havoc everything reachable one level
        if isinstance(a, tuple) and a and a[0] in ("ref",):
            try:
                v = self.read(st, a[1], a[2])
            except (Fork, Imprecise):
                return
            ty = self.type_of(v)
            nv = self.any_val(ty) if ty is not None else top()
            try:
                self.write(st, a[1], a[2], nv)
            except (Fork, Imprecise):
                st.mem[a[1]] = top()

    def havoc_slice(self, st, a):
        """forget the elements of a mutable slice"""
        try:
            v = self.read(st, a[1], a[2])
            n = st.facts.norm(seq_len(v))
            self.write(st, a[1], a[2], ("seq", (("Blob", fresh_term("ret"), ZERO, n),), v[2]))
        except (Fork, Imprecise, TypeError, IndexError):
            st.mem[a[1]] = top()

    def type_of(self, v):
        if isinstance(v, tuple) and v and v[0] in ("adt", "clo"):
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "sym":
            return v[2]
        return None

    def call_body(self, inst, args, st, rty):
        self.visited.add(inst["id"])
        body = inst["body"]
        self.fid += 1
        fid = self.fid
        self.born[fid] = fresh_id()
        entry = st
        st = st.copy()
        n = body["argc"]
        args = list(args)
        if body.get("spread") is not None or "{closure#" in inst["def"].split("::")[-1]:
            if len(args) == 2 and n != 2 or (len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == "tup" and "{closure#" in inst["def"]):
                if isinstance(args[1], tuple) and args[1][0] == "tup" and body.get("spread") is None:
                    args = [args[0]] + list(args[1][1])
        if "{closure#" in inst["def"].split("::")[-1] and args:
            lt = self.prog.types[body["locals"][1]]
            if lt["k"] == "ref" and args[0][0] not in ("ref",):
                c = ("T", fresh_id())
                st.mem[c] = args[0]
                args[0] = ("ref", c, ())
            elif lt["k"] != "ref" and args[0][0] == "ref":
                args[0] = self.read(st, args[0][1], args[0][2])
        for i in range(n):
            st.mem[(fid, i + 1)] = args[i] if i < len(args) else top()
        self.stack.append((inst["name"], 0, inst))
        base_trail = len(st.trail)
        try:
            outs = self.run(inst, fid, st, 0, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            assert o[0] == "ret", o
            s = o[1]
            v = s.mem.get((fid, 0), UNIT)
            v = s.facts.norm(v)
            for i in range(len(body["locals"])):
                s.mem.pop((fid, i), None)
            self.gc(s, entry, v)
            res.append((s, v))
        if len(res) > 1:
            res = self.merge(entry, res)
        return res

    def gc(self, s, entry, v):
        extra = [c for c in s.mem if c not in entry.mem]
        if not extra:
            return
        keep = set()
        refs_in(v, keep)
        for c in entry.mem:
            w = s.mem.get(c)
            if w is not entry.mem[c]:
                refs_in(w, keep)
        wl = list(keep)
        seen = set(wl)
        while wl:
            c = wl.pop()
            w = s.mem.get(c)
            if w is not None:
                r = set()
                refs_in(w, r)
                for x in r:
                    if x not in seen:
                        seen.add(x)
                        wl.append(x)
        for c in extra:
            if c not in seen and not (isinstance(c, tuple) and c[0] == "d"):
                del s.mem[c]

    # ---- joins
    def merge(self, entry, res):
        """join outcomes that the facts can explain by a single value"""
        out = list(res)
        ch = True
        out = self.merge_equal(entry, out)
        if len(out) > 1:
            out = self.merge_enum(entry, out)
        if len(out) > 1 and self.join_all:
            out = self.merge_join(entry, out)
        return out

    def merge_equal(self, entry, res):
        groups = []
        for s, v in res:
            for g in groups:
                if g[1] == v and g[0].ev == s.ev and self.same_mem(g[0], s):
                    g[2].append(s)
                    break
            else:
                groups.append([s, v, [s]])
        out = []
        for s, v, l in groups:
            if len(l) == 1:
                out.append((s, v))
            else:
                j = exact_join(entry, l)
                if j is None and len(res) <= self.keep_apart:
                    out.extend((x, v) for x in l)
                    continue
                m = State(dict(s.mem), join_facts(entry.facts, [x.facts for x in l]), entry.trail, s.ev)
                m.trail = join_trail(entry.trail, [x.trail for x in l])
                if j is None:
                    com = m.trail[len(entry.trail):]
                    m.trail = m.trail + (("bv", fresh_term("joined")),)
                else:
                    com = j[1]
                    m.trail = entry.trail + j[1]
                for c in com:
                    f = m.facts.assume(c)
                    if f is not None:
                        m.facts = f
                out.append((m, v))
        return out

    def same_mem(self, a, b):
        if len(a.mem) != len(b.mem):
            return False
        for c, v in a.mem.items():
            w = b.mem.get(c)
            if w is not v and w != v:
                return False
        return True

    def merge_enum(self, entry, res):
        """outcomes differing by a C-like enum constant or integer that equals an atom's value"""
        # find atoms decided differently in the outcomes
        cand = {}
        for s, v in res:
            for a, val in s.facts.rew.items():
                if val.const is not None and a not in entry.facts.rew:
                    cand.setdefault(a, []).append((s, v, val.const))
        best = None
        for a, l in cand.items():
            if len(l) > 1 and (best is None or len(l) > len(best[1])):
                best = (a, l)
        if best is None:
            return res
        a, l = best
        groups = []
        for s, v, c in l:
            g = self.generalise(v, a, c)
            mem = {}
            for cell, w in s.mem.items():
                if cell in entry.mem and entry.mem[cell] is w:
                    mem[cell] = w
                else:
                    mem[cell] = self.generalise(w, a, c)
            for x in groups:
                if x[1] == g and x[2] == mem and x[0].ev == s.ev:
                    x[3].append((s, c))
                    break
            else:
                groups.append([s, g, mem, [(s, c)]])
        used = set(id(x[0]) for x in l)
        out = [(s, v) for s, v in res if id(s) not in used]
        for s, g, mem, m in groups:
            if len(m) == 1:
                v0 = next(v for s2, v in res if s2 is s)
                out.append((s, v0))
            else:
                j = exact_join(entry, [x for x, _ in m], a)
                if j is None and len(res) <= self.keep_apart:
                    for s2, v2 in res:
                        if any(x is s2 for x, _ in m):
                            out.append((s2, v2))
                    continue
                f = join_facts(entry.facts, [x.facts for x, _ in m])
                if j is None:
                    tr = join_trail(entry.trail, [x.trail for x, _ in m]) + (("bv", fresh_term("joined")),)
                    conds = value_set(a, {c for _, c in m}, f) or ()
                else:
                    tr = entry.trail + j[1]
                    conds = j[1]
                for c in conds:
                    f2 = f.assume(c)
                    if f2 is not None:
                        f = f2
                ns = State(mem, f, tr, s.ev)
                out.append((ns, g))
        return out

    def generalise(self, v, a, c):
        """replace constants equal to c by the atom where the types allow it"""
        if a.key[0] == "discr":
            term, ty = a.key[1], a.key[2]

            def go(x):
                if isinstance(x, tuple) and x:
                    if x[0] == "adt" and x[1] == ty and variants(ty)[x[2]]["d"] == c and x[3] == sym_fields(("sym", term, ty), x[2]):
                        return ("sym", term, ty)
                    if x[0] == "ref" or x[0] == "sl":
                        return x
                    if x[0] == "adt":
                        return ("adt", x[1], x[2], tuple(go(y) for y in x[3]))
                    if x[0] == "tup":
                        return ("tup", tuple(go(y) for y in x[1]))
                    return x
                if isinstance(x, Lin) and x.const == c:
                    return L(a)
                return x
            return go(v)

        def go2(x):
            if isinstance(x, Lin) and x.const == c:
                return L(a)
            if isinstance(x, tuple) and x:
                if x[0] == "adt":
                    if variants(x[1]) and tinfo(x[1])["ak"] == "enum" and not x[3] and all(not v_["f"] for v_ in variants(x[1])) and variants(x[1])[x[2]]["d"] == c:
                        return ("enumof", L(a), x[1])
                    return ("adt", x[1], x[2], tuple(go2(y) for y in x[3]))
                if x[0] == "tup":
                    return ("tup", tuple(go2(y) for y in x[1]))
            return x
        r = go2(v)
        return v if has_enumof(r) else r

    def merge_join(self, entry, res):
        """over-approximating join (used when only bounds matter): one outcome per result variant"""
        groups = {}
        for s, v in res:
            key = (v[0], v[1], v[2]) if isinstance(v, tuple) and v[0] == "adt" else ("x",)
            groups.setdefault(key, []).append((s, v))
        out = []
        for key, l in groups.items():
            if len(l) == 1:
                out.append(l[0])
                continue
            s0, v0 = l[0]
            f = join_facts(entry.facts, [x.facts for x, _ in l])
            cells = set()
            for s, _ in l:
                cells |= set(s.mem)
            mem = {}
            ok = True
            for c in cells:
                vals = [self.read_cell(s, c) if c not in s.mem else s.mem[c] for s, _ in l]
                mem[c] = self.join_vals(vals)
            v = self.join_vals([x for _, x in l])
            out.append((State(mem, f, join_trail(entry.trail, [x.trail for x, _ in l]), s0.ev), v))
        return out

    def join_vals(self, vals):
        a = vals[0]
        if all(x is a or x == a for x in vals):
            return a
        if all(isinstance(x, Lin) for x in vals):
            los = [lo_of(x) for x in vals]
            his = [hi_of(x) for x in vals]
            lo = None if any(x is None for x in los) else min(los)
            hi = None if any(x is None for x in his) else max(his)
            return L(gen_atom(lo, hi, True))
        if any(isinstance(x, Lin) for x in vals):
            return top()
        k = a[0]
        if any(x[0] != k for x in vals):
            tys = {self.type_of(x) for x in vals}
            if len(tys) == 1 and None not in tys:
                return mk_sym(fresh_term("join"), tys.pop())
            return top()
        if k == "adt":
            if all(x[1] == a[1] and x[2] == a[2] for x in vals):
                return ("adt", a[1], a[2], tuple(self.join_vals([x[3][i] for x in vals]) for i in range(len(a[3]))))
            if all(x[1] == a[1] for x in vals):
                return mk_sym(fresh_term("join"), a[1])
            return top()
        if k == "tup" and all(len(x[1]) == len(a[1]) for x in vals):
            return ("tup", tuple(self.join_vals([x[1][i] for x in vals]) for i in range(len(a[1]))))
        if k == "clo" and all(x[1] == a[1] for x in vals):
            return ("clo", a[1], tuple(self.join_vals([x[2][i] for x in vals]) for i in range(len(a[2]))))
        if k == "seq":
            t = fresh_term("joinseq")
            return ("seq", (("Blob", t, ZERO, length(t)),), a[2])
        if k == "sym":
            if all(x[2] == a[2] for x in vals):
                return mk_sym(fresh_term("join"), a[2])
        if k == "b":
            return ("b", ("bv", fresh_term("join")))
        return top()

    # ---- running blocks
    def run(self, inst, fid, st, bb, loop):
        """explore from bb.  loop=(header, blocks) or None.
        outcomes: ("ret", st) ("back", st) ("exit", st, bb)"""
        cfg = self.cfg(inst)
        body = inst["body"]
        out = []
        work = [(st, bb, True)]
        first = True
        while work:
            st, b, entering = work.pop()
            if len(out) + len(work) > self.max_paths:
                raise Budget("paths in %s" % inst["name"])
            if loop is not None and not first:
                if b == loop[0]:
                    out.append(("back", st))
                    continue
                if b not in loop[1]:
                    out.append(("exit", st, b))
                    continue
            if b in cfg.loops and not (loop is not None and b == loop[0] and first):
                first = False
                for o in self.run_loop(inst, fid, st, b, cfg):
                    if o[0] == "exit":
                        work.append((o[1], o[2], True))
                    else:
                        out.append(o)
                continue
            first = False
            self.tick()
            for o in self.block(inst, fid, st, b, body):
                if o[0] == "ret":
                    out.append(o)
                else:
                    work.append((o[1], o[0], True))
        return out

    def block(self, inst, fid, st, b, body):
        """execute one block -> [(next_bb, st)] or ("ret", st)"""
        bb = body["bb"][b]
        states = [(st, 0)]
        res = []
        stmts = bb["s"]
        while states:
            st, i = states.pop()
            depth = 0
            while i < len(stmts):
                s = stmts[i]
                try:
                    if s[0] == "=":
                        self.stack[-1] = (self.stack[-1][0], s[3], inst)
                        dty = self.place_ty(s[1], body)
                        v = self.rvalue(st, fid, s[2], body, dty)
                        self.store(st, fid, s[1], v, body)
                    elif s[0] == "sd":
                        cell, path, _, _ = self.place(st, fid, s[1], body)
                        v = self.read(st, cell, path)
                        ty = self.place_ty(s[1], body)
                        if isinstance(v, tuple) and v[0] == "tup":
                            self.write(st, cell, path, ("adt", ty, s[2], v[1]))
                        else:
                            self.write(st, cell, path, ("adt", ty, s[2], ()))
                    elif s[0] == "cno":
                        self.note("copy_nonoverlapping")
                except Dead:
                    st = None
                    break
                except Fork as f:
                    a, b2 = st.assume(f.cond), st.assume(neg(f.cond))
                    if b2 is not None and a is not None and len(states) < 60:
                        states.append((b2, i))
                    elif a is None and b2 is not None:
                        a = b2
                    elif a is None:
                        st = None
                        break
                    st = a
                    continue
                except Exception as e:
                    internal(e)
                    self.note("imprecise stmt: %s" % e)
                    dty = self.place_ty(s[1], body)
                    try:
                        self.store(st, fid, s[1], self.any_val(dty), body)
                    except Exception as e:
                        internal(e)
                        raise Budget("cannot represent an assignment: %s" % e)
                i += 1
            if st is None:
                continue
            res.extend(self.terminator(inst, fid, st, bb["t"], body))
        return res

    def terminator(self, inst, fid, st, t, body):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "drop":
            return [(t[2], st)]
        if k in ("unreach", "resume", "abort", "asm"):
            return []
        try:
            if k == "switch":
                return self.switch(st, fid, t, body)
            if k == "assert":
                self.stack[-1] = (self.stack[-1][0], t[6], inst)
                c = self.operand(st, fid, t[1], body)
                cond = c[1] if isinstance(c, tuple) and c[0] == "b" else ("bv", fresh_term("assert"))
                if not t[2]:
                    cond = neg(cond)
                s = self.require(st, cond, t[3], t[6])
                return [] if s is None else [(t[5], s)]
            if k == "call":
                self.stack[-1] = (self.stack[-1][0], t[5], inst)
                return self.do_call(inst, fid, st, t, body)
        except Fork as f:
            out = []
            for c in (f.cond, neg(f.cond)):
                s = st.assume(c)
                if s is not None:
                    out.extend(self.terminator(inst, fid, s, t, body))
            return out
        except Exception as e:
            internal(e)
            self.note("imprecise term: %s" % e)
            if k == "call":
                st = st.copy()
                if t[4] is None:
                    return []
                self.store(st, fid, t[3], self.any_val(self.place_ty(t[3], body)), body)
                return [(t[4], st)]
            raise Budget("cannot represent a branch: %s" % e)
        raise ValueError(t)

    def switch(self, st, fid, t, body):
        v = self.operand(st, fid, t[1], body)
        out = []
        if isinstance(v, tuple) and v[0] == "b":
            conds = []
            for val, bb in t[2]:
                conds.append((v[1] if val == 1 else neg(v[1]), bb))
            rest = t[3]
            cur = st
            for c, bb in conds:
                d = cur.facts.decide(c)
                if d is False:
                    continue
                s = cur.assume(c)
                if s is not None:
                    out.append((bb, s))
                if d is True:
                    return out
                cur = cur.assume(neg(c))
                if cur is None:
                    return out
            out.append((rest, cur))
            return out
        ty = self.opty(t[1], body)
        x = st.facts.norm(self.as_int(v, ty))
        if x.const is not None:
            c = x.const
            w = self.prog.types[ty].get("bits", 64) if ty is not None else 64
            for val, bb in t[2]:
                if val == c or val == (c & ((1 << w) - 1)):
                    return [(bb, st)]
            return [(t[3], st)]
        cur = st
        tk_ = self.prog.types[ty] if ty is not None else None
        for val, bb in t[2]:
            if tk_ is not None and tk_["k"] == "int":
                w = tk_["bits"]
                if val >= 1 << (w - 1):
                    val -= 1 << w
            c = eq0(x - val)
            d = cur.facts.decide(c)
            if d is False:
                continue
            s = cur.assume(c)
            if s is not None:
                out.append((bb, s))
            if d is True:
                return out
            cur = cur.assume(neg(c))
            if cur is None:
                return out
        out.append((t[3], cur))
        return out

    def do_call(self, inst, fid, st, t, body):
        f = t[1]
        args = [self.operand(st, fid, o, body) for o in t[2]]
        rty = self.place_ty(t[3], body)
        callee = None
        if f[0] == "k":
            ty = self.prog.types[f[1]]
            if ty.get("inst") is not None:
                callee = self.prog.insts[ty["inst"]]
        else:
            v = self.operand(st, fid, f, body)
            if v[0] == "fn" and v[1] is not None:
                callee = self.prog.insts[v[1]]
        if callee is None:
            outs = self.unknown_call({"name": "indirect call", "def": "?"}, args, st, rty)
        else:
            outs = self.call(callee, args, st, rty)
        res = []
        if t[4] is None:
            return []
        for s, v in outs:
            if s is st:
                s = st.copy()
            self.store(s, fid, t[3], v, body)
            res.append((t[4], s))
        return res

    def call_value(self, f, args, st, rty):
        """call a closure / fn item value with a list of arguments"""
        if f[0] == "ref":
            g = self.read(st, f[1], f[2])
            if g[0] == "clo":
                i = self.prog.types[g[1]]["inst"]
                return self.call(self.prog.insts[i], [f, ("tup", tuple(args))], st, rty)
            return self.call_value(g, args, st, rty)
        if f[0] == "clo":
            i = self.prog.types[f[1]]["inst"]
            c = ("T", fresh_id())
            st = st.copy()
            st.mem[c] = f
            return self.call(self.prog.insts[i], [("ref", c, ()), ("tup", tuple(args))], st, rty)
        if f[0] == "fn" and f[1] is not None:
            return self.call(self.prog.insts[f[1]], list(args), st, rty)
        return self.unknown_call({"name": "indirect call", "def": "?"}, args, st, rty)

    # ------------------------------------------------------------ loops
    def run_loop(self, inst, fid, st, header, cfg):
        blocks = cfg.loops[header]
        live = cfg.live[header]
        born = self.born.get(fid, 0)
        nloc = len(inst["body"]["locals"])

        def prune(s):
            keep = set((fid, l) for l in live)
            wl = list(keep)
            # other frames stay
            for c in s.mem:
                if not (isinstance(c, tuple) and len(c) == 2 and c[0] == fid):
                    if not (isinstance(c, tuple) and c[0] == "T" and c[1] > born):
                        if c not in keep:
                            keep.add(c)
                            wl.append(c)
            while wl:
                c = wl.pop()
                v = s.mem.get(c)
                if v is None:
                    continue
                r = set()
                refs_in(v, r)
                for x in r:
                    if x not in keep:
                        keep.add(x)
                        wl.append(x)
            s.mem = {c: v for c, v in s.mem.items() if c in keep}
            return s

        def step(s):
            outs = self.run(inst, fid, s, header, (header, blocks))
            res = []
            for o in outs:
                if o[0] == "back":
                    res.append(("back", prune(o[1])))
                else:
                    res.append(o)
            return res
        key = (inst["name"], header, min((s[3] for b in blocks for s in inst["body"]["bb"][b]["s"] if s[0] == "="), default=0))
        return self.loop(prune(st.copy()), step, key)

    def loop(self, st, step, key):
        """summarise `while step()`; outcomes other than ("back", st) are exits"""
        from loops import summarise
        return summarise(self, st, step, key)


def has_enumof(x):
    if isinstance(x, tuple):
        return bool(x) and (x[0] == "enumof" or any(has_enumof(y) for y in x))
    return False


def join_facts(base, fs):
    f = Facts()
    f0 = fs[0]
    f.rew = {a: v for a, v in f0.rew.items() if all(g.rew.get(a) == v for g in fs[1:])}
    # inequalities entailed by all (syntactically present in one, provable in the others)
    ine = []
    cand = list(base.ineqs) + [x for g in fs for x in g.ineqs]
    for g in fs:
        for a, v in g.rew.items():
            if a not in f.rew:
                cand += [L(a) - v, v - L(a)]
    for l in dict.fromkeys(cand):
        if l.t and all(l in g.ineqs or g.prove_ge(g.norm(l)) for g in fs):
            ine.append(l)
    # atoms rewritten in some branch lose their rewriting: restate as inequalities when common
    f.ineqs = tuple(ine)
    f.nes = frozenset(x for x in f0.nes if all(x in g.nes for g in fs[1:]))
    f.bools = {t: v for t, v in f0.bools.items() if all(g.bools.get(t) == v for g in fs[1:])}
    atoms = set(f0.bnds)
    for g in fs[1:]:
        atoms &= set(g.bnds) | set(g.rew)
    for a in atoms:
        los, his = [], []
        for g in fs:
            if a in g.rew and g.rew[a].const is not None:
                los.append(g.rew[a].const)
                his.append(g.rew[a].const)
            else:
                lo, hi = g.bnd(a)
                los.append(lo)
                his.append(hi)
        lo = None if any(x is None for x in los) else min(los)
        hi = None if any(x is None for x in his) else max(his)
        f.bnds[a] = (lo, hi)
    return f


def value_set(a, vals, facts):
    """conditions equivalent to `a in vals` (within its domain and bounds), or None"""
    lo, hi = min(vals), max(vals)
    dom = T.DOM.get(a)
    if dom is None and hi - lo > 600:
        return None
    out = []
    if lo == hi:
        return (eq0(L(a) - lo),)
    out.append(ge0(L(a) - lo))
    out.append(ge0(K(hi) - L(a)))
    for q in range(lo, hi + 1) if dom is None else sorted(dom):
        if lo < q < hi and q not in vals:
            out.append(("ne", Lin(-q, ((a, 1),))))
    return tuple(c for c in out if facts.decide(c) is not True)


def covers(trails):
    """the disjunction of these conjunctions is always true (a complete decision tree)"""
    if any(not t for t in trails):
        return True
    for c in trails[0]:
        n = neg(c)
        yes, no, ok = [], [], True
        for t in trails:
            if c in t:
                yes.append([x for x in t if x != c])
            elif n in t:
                no.append([x for x in t if x != n])
            else:
                ok = False
                break
        if ok and no and covers(yes) and covers(no):
            return True
    return False


def only_atom(c):
    """the atom a condition is about, when it is about one"""
    if isinstance(c, tuple) and c[0] in ("eq", "ne", "ge") and len(c[1].t) == 1:
        return c[1].t[0][0]
    return None


def exact_join(entry, states, a=None):
    """(common conditions as facts, trail suffix) when the states' union is exactly describable; else None"""
    n = len(entry.trail)
    sufs = [list(s.trail[n:]) for s in states]
    common = [c for c in sufs[0] if all(c in t for t in sufs[1:])]
    rest = [[c for c in t if c not in common] for t in sufs]
    if covers(rest):
        return (None, tuple(common))
    atoms = {only_atom(c) for t in rest for c in t}
    if len(atoms) != 1 or None in atoms:
        return None
    b = atoms.pop()
    if a is not None and b is not a:
        return None
    vals = set()
    for s in states:
        v = s.facts.rew.get(b)
        if v is None or v.const is None:
            return None
        vals.add(v.const)
    conds = value_set(b, vals, entry.facts)
    if conds is None:
        return None
    return (None, tuple(common) + conds)


def join_trail(base, trails):
    n = len(base)
    t0 = trails[0][n:]
    out = tuple(c for c in t0 if all(c in t[n:] for t in trails[1:]))
    return base + out
