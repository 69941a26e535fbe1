"""Loop summaries by induction over an iteration index.

A loop is given by its state on entry and a step function (one pass through the body from the header).
The summary is a closed form of every memory location the body changes, as a function of the iteration
index (affine progressions, sums, appended pieces); each closed form is verified by one generic pass.
Locations without a verified closed form are havocked and constrained by inductive bounds only.
"""
from terms import *
import terms as T
from seqs import *
import seqs as S
from interp import State, get_at, set_at, leaf_diffs, top, fresh_term, Budget


class Leaf:
    __slots__ = ("cell", "path", "v0", "gen", "kind", "closed", "bad", "gatom", "inv", "lenonly")


VAGUE_OPEN = True

def val_at(ctx, st, cell, path):
    v = st.mem.get(cell)
    if v is None:
        v = ctx.read_cell(st, cell)
    try:
        return get_at(v, path)
    except (IndexError, TypeError, KeyError):
        return None


def diffs(ctx, a, b):
    out = []
    for c in set(a.mem) | set(b.mem):
        if c not in a.mem:
            if not (isinstance(c, tuple) and c[0] in ("d", "F")):
                continue
            x = ctx.read_cell(a, c) if c[0] == "d" else ("seq", (), u8_ty())
        else:
            x = a.mem[c]
        if c not in b.mem:
            continue
        y = b.mem[c]
        if x is y or x == y:
            continue
        ps = []
        leaf_diffs(a.facts.norm(x) if False else x, y, (), ps)
        out += [(c, p) for p in ps]
    return out


def semantic(ctx, st, leaves):
    """drop leaves that are equal under the facts"""
    return leaves


def minimal(leaves):
    """remove leaves whose prefix is also a leaf"""
    s = set(leaves)
    out = []
    for c, p in s:
        if any((c, p[:i]) in s for i in range(len(p))):
            continue
        out.append((c, p))
    out.sort(key=repr)
    return out


def put(ctx, st, cell, path, v):
    base = st.mem.get(cell)
    if base is None:
        base = ctx.read_cell(st, cell)
        if isinstance(cell, tuple) and cell[0] == "F":
            base = ("seq", (), u8_ty())
    st.mem[cell] = set_at(base, path, v)


class Quiet:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.rec = self.ctx.record
        self.ctx.record = False

    def __exit__(self, *a):
        self.ctx.record = self.rec


class Nested:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.ctx.nested = True

    def __exit__(self, *a):
        self.ctx.nested = False


def make_gen(ctx, st, v0, imp):
    if isinstance(v0, Lin):
        a = gen_atom(0 if st.facts.prove_ge(v0) else None, None, imp)
        return L(a), a
    if isinstance(v0, tuple):
        if v0[0] == "seq":
            t = ("?", fresh_id(), "loop") if imp else ("genseq", fresh_id())
            return ("seq", v0[1] + (("Blob", t, ZERO, length(t)),), v0[2]), t
        if v0[0] == "b":
            t = fresh_term("loopb") if imp else ("genb", fresh_id())
            return ("b", ("bv", t)), t
        ty = ctx.type_of(v0)
        if ty is not None and tk(ty) == "adt" and variants(ty) and tinfo(ty)["ak"] == "enum":
            t = fresh_term("loopv") if imp else ("genv", fresh_id())
            return ("sym", t, ty), t
    return top(), None


def contains(x, needles):
    """does the structure mention any of the generated names"""
    if isinstance(x, Lin):
        for a, _ in x.t:
            if a in needles or (a.deps & needles) or contains_key(a.key, needles):
                return True
        return False
    if isinstance(x, tuple):
        if x in needles:
            return True
        return any(contains(y, needles) for y in x)
    if isinstance(x, Atom):
        return x in needles or bool(x.deps & needles) or contains_key(x.key, needles)
    return False


_ck = {}


def contains_key(k, needles):
    for y in k[1:]:
        if isinstance(y, (tuple, Lin, Atom)) and contains(y, needles):
            return True
    return False


def summarise(ctx, st, step, key, peeled=0):
    ctx.tick()
    r = try_unroll(ctx, st, step, key)
    if r is not None:
        return r
    if ctx.rounds is not None:
        return bounded(ctx, st, step, key)
    return Summary(ctx, st, step, key, peeled).run()


def bounded(ctx, st, step, key):
    """the first rounds of a loop, path by path; longer runs are left out and counted"""
    cur, done = [st], []
    for it in range(ctx.rounds + 1):
        nxt = []
        for s in cur:
            for o in step(s.copy()):
                (nxt if o[0] == "back" else done).append(o[1] if o[0] == "back" else o)
        cur = nxt
        if len(done) + len(cur) > 400:
            break
    ctx.cut += len(cur)
    ctx.log_loop(key, "first %d rounds" % ctx.rounds, not cur)
    return done


def try_unroll(ctx, st, step, key):
    mark = (len(ctx.panics), dict(ctx.proved), len(ctx.loops_log), len(ctx.notes))
    cur = [st]
    done = []
    for it in range(ctx.unroll + 1):
        nxt = []
        for s in cur:
            outs = step(s.copy())
            backs = [o[1] for o in outs if o[0] == "back"]
            exits = [o for o in outs if o[0] != "back"]
            stop = [o for o in exits if o[0] == "exit"]
            bad = False
            if backs and stop:
                bad = True
            elif backs and exits or len(backs) > 1:
                # only continue when a constant counter drives the loop
                if not const_counter(ctx, s, backs):
                    bad = True
            elif backs and it == 0 and not const_counter(ctx, s, backs) and not progress_const(ctx, s, backs):
                bad = True
            if bad and not ctx.insist:
                rollback(ctx, mark)
                return None
            done += exits
            nxt += backs
        if len(done) + len(nxt) > 260:
            rollback(ctx, mark)
            return None
        cur = nxt
        if not cur:
            ctx.log_loop(key, "unrolled %d" % it, True)
            return done
    rollback(ctx, mark)
    return None


def progress_const(ctx, s, backs):
    return False


def rollback(ctx, mark):
    del ctx.panics[mark[0]:]
    ctx.proved = mark[1]
    del ctx.loops_log[mark[2]:]
    del ctx.notes[mark[3]:]


def const_counter(ctx, s, backs):
    for b in backs:
        ok = False
        for c, p in diffs(ctx, s, b):
            x, y = val_at(ctx, s, c, p), val_at(ctx, b, c, p)
            if isinstance(x, Lin) and isinstance(y, Lin):
                x, y = s.facts.norm(x), b.facts.norm(y)
                if x.const is not None and y.const is not None and x.const != y.const:
                    ok = True
                    break
        if not ok:
            return False
    return True


class Summary:
    def __init__(self, ctx, st, step, key, peeled):
        self.ctx = ctx
        self.s0 = st
        self.step_ = step
        self.key = key
        self.peeled = peeled
        self.leaves = []
        self.n = None
        self.n_src = None
        self.bad = set()
        self.nohyp = set()
        self.nolen = set()
        self.invs = []
        self.parts = [()]
        self.found = None

    def step(self, s):
        return self.step_(s)

    # ---------------------------------------------------------- main
    def run(self):
        ctx = self.ctx
        with Quiet(ctx):
            outs = self.step(self.s0.copy())
        backs = [o[1] for o in outs if o[0] == "back"]
        if not backs:
            ctx.log_loop(self.key, "at most once", True)
            return self.step(self.s0.copy())
        self.discover(backs)
        # precise first iterations, for the obligations only
        if ctx.record and not ctx.generic and ctx.first_iterations:
            self.first(self.s0, ctx.first_iterations)
        for attempt in range(8):
            r = self.solve()
            if r is not None:
                return r
        raise Budget("loop %s" % (self.key,))

    def first(self, s, n):
        outs = self.step(s.copy())
        for o in outs:
            if o[0] == "back" and self.ctx.want_stuck:
                self.stuck(s, o[1])
        if n > 1:
            for o in [o for o in outs if o[0] == "back"][:3]:
                self.first(o[1], n - 1)

    def stuck(self, s, b):
        """can the iteration leave everything it works on as it was (growing collections aside)?"""
        f = b.facts
        for c, p in diffs(self.ctx, s, b):
            x, y = val_at(self.ctx, s, c, p), val_at(self.ctx, b, c, p)
            if isinstance(x, Lin) and isinstance(y, Lin):
                f = f.assume(eq0(f.norm(y - x)))
                if f is None:
                    return
            elif isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] == "seq":
                if y[1][:len(x[1])] != x[1]:
                    return
            elif f.norm(x) != f.norm(y):
                return
        self.ctx.stuck.append((self.key, f, b.trail, [z[0] for z in self.ctx.stack]))

    def discover(self, backs):
        ctx = self.ctx
        m = []
        for b in backs:
            m += diffs(ctx, self.s0, b)
        m = minimal(m)
        for _ in range(4):
            self.mk_leaves(m)
            hdr = self.header(None)
            with Quiet(ctx):
                outs = self.step(hdr.copy())
            new = []
            for o in outs:
                if o[0] == "back":
                    for c, p in diffs(ctx, hdr, o[1]):
                        if not any(c == c2 and p[:len(p2)] == p2 for c2, p2 in m):
                            new.append((c, p))
            if not new:
                break
            m = minimal(m + new)
        self.m = m
        self.mk_leaves(m)

    def mk_leaves(self, m):
        self.leaves = []
        for c, p in m:
            l = Leaf()
            l.cell, l.path = c, p
            l.v0 = val_at(self.ctx, self.s0, c, p)
            if l.v0 is None and c[0] == "F":
                l.v0 = ("seq", (), u8_ty())
            if l.v0 is None:
                l.v0 = top()
            l.closed = None
            l.bad = (c, p) in self.bad
            l.lenonly = False
            l.gen, l.gatom = make_gen(self.ctx, self.s0, l.v0, l.bad)
            l.inv = []
            self.leaves.append(l)

    def header(self, k, facts=None):
        """state at the loop header: closed forms at index k where known, generated names elsewhere"""
        s = self.s0.copy()
        if facts is not None:
            s.facts = facts
        for l in self.leaves:
            v = l.gen if l.closed is None or k is None else subst(l.closed, {self.k: k})
            put(self.ctx, s, l.cell, l.path, v)
        return s

    # ---------------------------------------------------------- closed forms
    def solve(self):
        ctx = self.ctx
        self.mk_leaves(self.m)
        self.k = index_atom()
        self.found = None
        self.n = None
        kk = L(self.k)
        # 1. hypotheses for cursors standing in front of a repeated part
        self.hyps = set()
        hyp = self.star_hypothesis()
        # 2. constant progressions
        hdr = self.header(None)
        with Quiet(ctx):
            outs = self.step(hdr.copy())
        backs = [o[1] for o in outs if o[0] == "back"]
        if not backs:
            # body cannot be repeated from a generic state: imprecise state space, give up on precision
            backs = []
        for l in self.leaves:
            if l.closed is not None or l.bad or not isinstance(l.v0, Lin):
                continue
            ds = set()
            for b in backs:
                v = val_at(ctx, b, l.cell, l.path)
                if not isinstance(v, Lin):
                    ds.add(None)
                    continue
                d = v - l.gen
                ds.add(d if d.const is not None else b.facts.norm(d))
            if len(ds) == 1:
                d = ds.pop()
                if d is not None and d.const is not None:
                    l.closed = l.v0 + kk.scale(d.const)
        self.find_n(self.header(kk))
        # 3. everything that accumulates
        for rnd in range(4):
            open_ = [l for l in self.leaves if l.closed is None and not l.bad]
            if not open_:
                break
            facts = self.generic_facts()
            if facts is None:
                break
            hdr = self.header(kk, facts)
            with Quiet(ctx):
                outs = self.step(hdr.copy())
            backs = [o[1] for o in outs if o[0] == "back"]
            if not backs:
                break
            progress = False
            needles = {l.gatom for l in open_ if l.gatom is not None}
            for l in open_:
                c = self.accumulate(l, hdr, backs, needles)
                if c is not None:
                    l.closed = c
                    progress = True
            if progress:
                if self.n is None:
                    self.find_n(self.header(kk))
            else:
                break
        self.lengths_only()
        reset = [l for l in self.leaves if l.closed is None and not l.bad and self.is_reset(l)]
        if reset and self.peeled < 1 and not (ctx.generic > 2):
            return self.peel()
        for l in self.leaves:
            if l.closed is None:
                l.bad = True
                self.bad.add((l.cell, l.path))
        # fresh imprecise names for the rest
        for l in self.leaves:
            if l.bad:
                l.closed = None
                l.gen, l.gatom = make_gen(ctx, self.s0, l.v0, True)
        return self.verify()

    def lengths_only(self):
        """collections whose contents have no closed form may still have one for their length"""
        ctx = self.ctx
        kk = L(self.k)
        open_ = [l for l in self.leaves if l.closed is None and not l.bad and isinstance(l.v0, tuple) and l.v0[0] == "seq" and (l.cell, l.path) not in self.nolen]
        facts = self.generic_facts() if open_ and self.n is not None else None
        if facts is None:
            return
        hdr = self.header(kk, facts)
        with Quiet(ctx):
            outs = self.step(hdr.copy())
        backs = [o[1] for o in outs if o[0] == "back"]
        base = len(hdr.trail)
        needles = {l.gatom for l in self.leaves if l.closed is None and l.gatom is not None}
        for l in open_:
            ds = []
            for b in backs:
                v = val_at(ctx, b, l.cell, l.path)
                v = b.facts.norm(v) if v is not None else None
                if v is None or v[0] != "seq":
                    break
                d = self.suffix(v[1], b.facts.norm(l.gen)[1], l, b)
                if d is None or d and d[0] == "sorted!":
                    break
                g = pieces_len(d)
                if contains(g, needles):
                    break
                ds.append(g)
            if not ds or len(ds) != len(backs):
                continue
            g = self.tree(ds, [b.trail[base:] for b in backs], mk_ite)
            if g is None or contains(g, needles) or T.is_imprecise(g):
                continue
            l.lenonly = True
            l.closed = ("seq", l.v0[1] + (("Blob", ("?", fresh_id(), "loop contents", kk), ZERO, mk_sum_ix(kk, g, self.k)),), l.v0[2])

    def is_reset(self, l):
        return getattr(self, "resets", None) is not None and (l.cell, l.path) in self.resets

    def peel(self):
        ctx = self.ctx
        outs = self.step(self.s0.copy())
        res = [o for o in outs if o[0] != "back"]
        for o in outs:
            if o[0] == "back":
                res += summarise(ctx, o[1], self.step_, self.key, self.peeled + 1)
        return res

    def generic_facts(self):
        f = self.s0.facts
        kk = L(self.k)
        if self.n is not None:
            f = f.assume(ge0(f.norm(self.n - kk - 1)))
            if f is None:
                return None
            f = self.lemmas(f)
        return f

    def lemmas(self, f):
        """monotonicity of partial sums: sum(k) + a(k) <= sum(n) for k < n"""
        kk = L(self.k)
        for l in self.leaves:
            if l.closed is None:
                continue
            for at in self.sum_atoms(l.closed):
                _, cnt, v, body = at.key
                if cnt != kk:
                    continue
                tot = mk_sum(f.norm(self.n), v, L(body))
                one = subst(L(body), {v: kk})
                g = f.assume(ge0(f.norm(tot - L(at) - one)))
                if g is not None:
                    f = g
        return f

    def sum_atoms(self, x, out=None):
        out = set() if out is None else out
        if isinstance(x, Lin):
            for a, _ in x.t:
                if a.key[0] == "sum":
                    out.add(a)
        elif isinstance(x, tuple):
            for y in x:
                self.sum_atoms(y, out)
        return out

    def find_n(self, hdr):
        """trip count from the guard"""
        if self.n is not None:
            return
        ctx = self.ctx
        with Quiet(ctx):
            outs = self.step(hdr.copy())
        base = len(hdr.trail)
        needles = {l.gatom for l in self.leaves if l.closed is None and l.gatom is not None}
        backs = [o[1].trail[base:] for o in outs if o[0] == "back"]
        exits = [o[1].trail[base:] for o in outs if o[0] != "back"]
        if not backs:
            return
        for c in backs[0]:
            if not all(c in b for b in backs):
                continue
            n = self.guard_count(c, needles)
            if n is None:
                continue
            if any(neg(c) in e for e in exits):
                self.n = n
                return

    def guard_count(self, c, needles):
        if not isinstance(c, tuple) or c[0] not in ("ge", "ne"):
            return None
        l = c[1]
        ck = 0
        for a, k in l.t:
            if a is self.k:
                ck = k
            elif self.k in a.deps or a in needles or contains(L(a), needles):
                return None
        if c[0] == "ne":
            if abs(ck) != 1:
                return None
            rest = Lin(l.c, tuple(x for x in l.t if x[0] is not self.k))
            n = rest if ck == -1 else -rest
            return n if self.s0.facts.prove_ge(n) else None
        if ck >= 0:
            return None
        cc = -ck
        rest = Lin(l.c, tuple(x for x in l.t if x[0] is not self.k))
        # rest - cc*k >= 0  <=>  k <= floor(rest/cc)
        if cc == 1:
            return rest + 1
        if any(k % cc for _, k in rest.t):
            return None
        q = Lin(rest.c // cc, tuple((a, k // cc) for a, k in rest.t))
        return q + 1

    def star_hypothesis(self):
        ctx = self.ctx
        found = False
        sls = []

        def scan(v, d=0):
            if isinstance(v, tuple) and v:
                if v[0] == "sl":
                    if v not in sls:
                        sls.append(v)
                    return
                if d > 8:
                    return
                if v[0] == "seq":
                    for p in v[1]:
                        if p[0] == "B":
                            scan(p[1], d + 1)
                    return
                for x in v:
                    if isinstance(x, tuple):
                        scan(x, d + 1)
        for c, v in self.s0.mem.items():
            scan(v)
        kk = L(self.k)
        for l in self.leaves:
            if l.bad or not isinstance(l.v0, Lin) or (l.cell, l.path) in self.nohyp:
                continue
            for sl in sls:
                # the leaf is a cursor into the window, or the start of the window itself
                for base in (sl[3],):
                    try:
                        s = ctx.read(self.s0, sl[1], sl[2])
                    except (Fork, Imprecise):
                        continue
                    if s[0] != "seq" or not any(p[0] == "star" for p in s[1]):
                        continue
                    off = l.v0 + base
                    if self.is_start(l, sl):
                        off = l.v0
                    try:
                        _, rest = split_at(s[1], off, self.s0.facts, s[2])
                    except (Fork, Imprecise):
                        continue
                    if not rest or rest[0][0] != "star":
                        continue
                    _, lo, hi, v, body = rest[0]
                    bl = pieces_len(body)
                    n = self.s0.facts.norm(hi - lo)
                    cl = l.v0 + star_sum(self.s0.facts.norm(lo + kk), v, bl) - star_sum(self.s0.facts.norm(lo), v, bl)
                    if lo != ZERO:
                        pass
                    l.closed = cl
                    self.hyps.add((l.cell, l.path))
                    if self.n is None:
                        self.n = n
                    found = True
                    break
                if l.closed is not None:
                    break
        return found

    def is_start(self, l, sl):
        v = self.s0.mem.get(l.cell)
        if v is None or len(l.path) < 1:
            return False
        try:
            parent = get_at(v, l.path[:-1])
        except Exception:
            return False
        return parent == sl and l.path[-1] == 3

    def accumulate(self, l, hdr, backs, needles):
        ctx = self.ctx
        news = []
        for b in backs:
            v = val_at(ctx, b, l.cell, l.path)
            if v is None:
                return None
            news.append(b.facts.norm(v))
        kk = L(self.k)
        base = len(hdr.trail)
        others = needles
        if all(v == b.facts.norm(l.gen) for b, v in zip(backs, news)):
            return l.v0
        if isinstance(l.v0, Lin):
            ds = []
            for b, v in zip(backs, news):
                if not isinstance(v, Lin):
                    return None
                d = v - l.gen
                if contains(d, others):
                    self.note_reset(l, v, others)
                    return None
                ds.append(d)
            d = self.tree(ds, [b.trail[base:] for b in backs], mk_ite)
            if d is None or contains(d, others):
                return None
            if d.const is None and max_bound(d) >= 0 and False:
                return None
            return l.v0 + mk_sum_ix(kk, d, self.k)
        if isinstance(l.v0, tuple) and l.v0[0] == "seq":
            ds = []
            for b, v in zip(backs, news):
                if v[0] != "seq":
                    return None
                g = b.facts.norm(l.gen)
                d = self.suffix(v[1], g[1], l, b)
                if d is None:
                    return None
                if contains(d, others):
                    d = self.own_length(d, l, others)
                    if d is None:
                        return None
                ds.append(d)
            ety = l.v0[2]
            srt = {d[1] for d in ds if d and d[0] == "sorted!"}
            if srt:
                if len(srt) != 1 or not all(d and d[0] == "sorted!" for d in ds):
                    return None
                ds = [d[2] for d in ds]

            def ite(c, x, y):
                return norm_pieces((("Ite", c, x, y),), ety)
            d = self.tree(ds, [b.trail[base:] for b in backs], ite)
            if d is None or contains(d, others):
                return None
            if srt:
                ps = norm_pieces(self.sorted0(l.v0[1], list(srt)[0]) + mk_star(ZERO, kk, d, self.k, ety), ety)
                return ("seq", (("Blob", ("sorted", list(srt)[0], ps), ZERO, pieces_len(ps)),), ety)
            return ("seq", norm_pieces(l.v0[1] + mk_star(ZERO, kk, d, self.k, ety), ety), ety)
        # last value / flags
        if all(v == news[0] for v in news) and not contains(news[0], others):
            v = news[0]
            prev = subst(v, {self.k: kk - 1})
            at0 = subst(v, {self.k: K(-1)})
            if at0 == l.v0:
                return prev
            self.note_reset(l, v, others)
        return None

    def own_length(self, d, l, others):
        """what is appended mentions how much was appended before: the length is solved first"""
        g = pieces_len(d) if not (d and d[0] == "sorted!") else None
        if g is None or contains(g, others) :
            return None
        at = length(l.gatom)
        if len(at.t) != 1 or at.t[0][1] != 1:
            return None
        m = {at.t[0][0]: mk_sum_ix(L(self.k), g, self.k)}
        d = subst(d, m)
        return None if contains(d, others) else d

    def note_reset(self, l, v, others):
        if contains(v, others):
            return
        if not hasattr(self, "resets"):
            self.resets = set()
        self.resets.add((l.cell, l.path))

    def suffix(self, v, g, l, b):
        """pieces appended to g in v"""
        if len(v) == 1 and v[0][0] == "Blob" and v[0][1][0] == "sorted" and self.sorted0(l.v0[1], v[0][1][1]) is not None:
            # kept in order: what counts is what was added
            inner = v[0][1][2]
            if inner and inner[0][0] == "Blob" and inner[0][1] == l.gatom and len(g) == 1:
                return ("sorted!", v[0][1][1], inner[1:])
            return None
        # g = v0 pieces ++ Blob(gen)
        idx = None
        for i, p in enumerate(v):
            if p[0] == "Blob" and p[1] == l.gatom:
                idx = i
        if idx is None:
            return None
        p = v[idx]
        if p[2] != ZERO or p[3] != b.facts.norm(length(l.gatom)):
            return None
        if v[:idx] != g[:-1]:
            if eq_pieces(v[:idx], g[:-1], b.facts, l.v0[2]) is not True:
                return None
        return v[idx + 1:]

    def sorted0(self, ps, key):
        if not ps:
            return ()
        if len(ps) == 1 and ps[0][0] == "Blob" and ps[0][1][0] == "sorted" and ps[0][1][1] == key:
            return ps[0][1][2]
        return None

    def tree(self, ds, trails, ite):
        if all(d == ds[0] for d in ds):
            return ds[0]
        for c in trails[0]:
            n = neg(c)
            yes, no = [], []
            ok = True
            for d, t in zip(ds, trails):
                if c in t:
                    yes.append((d, [x for x in t if x != c]))
                elif n in t:
                    no.append((d, [x for x in t if x != n]))
                else:
                    ok = False
                    break
            if not ok or not no:
                continue
            a = self.tree([x[0] for x in yes], [x[1] for x in yes], ite)
            b = self.tree([x[0] for x in no], [x[1] for x in no], ite)
            if a is None or b is None:
                return None
            return ite(c, a, b)
        return self.by_value(ds, trails, ite)

    def by_value(self, ds, trails, ite):
        """alternatives told apart by the value of one finite-domain atom"""
        rest = [c for t in trails for c in t if not all(c in u for u in trails)]
        atoms = {x for c in rest for x in (c[1].t if isinstance(c, tuple) and c[0] in ("eq", "ne", "ge") else ((None, 0),))}
        atoms = {a for a, _ in atoms}
        if len(atoms) != 1 or None in atoms:
            return None
        a = atoms.pop()
        if a not in T.DOM:
            return None

        def holds(c, v):
            x = subst(c[1], {a: K(v)})
            if x.const is None:
                return True
            return {"eq": x.const == 0, "ne": x.const != 0, "ge": x.const >= 0}[c[0]]
        groups = {}
        for v in sorted(T.DOM[a]):
            g = [i for i, t in enumerate(trails) if all(holds(c, v) for c in t if c in rest)]
            if len(g) != 1:
                return None
            groups.setdefault(g[0], []).append(v)
        order = sorted(groups, key=lambda i: len(groups[i]))
        out = ds[order[-1]]
        for i in order[-2::-1]:
            for v in groups[i]:
                out = ite(eq0(L(a) - v), ds[i], out)
        return out

    # ---------------------------------------------------------- verification
    def verify(self):
        ctx = self.ctx
        kk = L(self.k)
        out = []
        base = self.s0
        if self.n is not None:
            n = base.facts.norm(self.n)
            self.n = n
            if not base.facts.prove_ge(n):
                # zero iterations when the count is negative
                z = base.assume(ge0(-n - 1))
                if z is not None:
                    o0 = self.step(z.copy())
                    if any(o[0] == "back" for o in o0):
                        self.n = None
                    else:
                        out += o0
                        f = base.facts.assume(ge0(n))
                        if f is None:
                            return out
                        base = base.assume(ge0(n))
                        self.s0 = base
        facts = self.generic_facts()
        if facts is None:
            # no iteration possible
            hdrs = []
            outs = []
        else:
            fs, ok = self.houdini(facts)
            hdr = self.header(kk, fs[0])
            ctx.generic += 1
            outs, froms = [], []
            try:
                for pt, f in zip(self.parts, fs):
                    h = self.part_header(pt, f)
                    for o in self.step(h.copy()):
                        outs.append(o)
                        froms.append(h)
            finally:
                ctx.generic -= 1
            failed = []
            for o, h in zip(outs, froms):
                if o[0] != "back":
                    continue
                b = o[1]
                for c, p in diffs(ctx, h, b):
                    if not any(c == l.cell and p[:len(l.path)] == l.path for l in self.leaves):
                        # newly modified location
                        self.m = minimal(self.m + [(c, p)])
                        return None
                for l in self.leaves:
                    if l.closed is None:
                        continue
                    want = subst(l.closed, {self.k: kk + 1})
                    got = val_at(ctx, b, l.cell, l.path)
                    if got is not None and l.lenonly:
                        ok = got[0] == "seq" and b.facts.decide(eq0(b.facts.norm(seq_len(got) - seq_len(want)))) is True
                    else:
                        ok = got is not None and self.same(got, want, b.facts) is True
                    if not ok:
                        failed.append(l)
                        if ctx.trace and got is not None:
                            ctx.trace("   got %s\n   want %s" % (show_val(b.facts.norm(got))[:1500], show_val(b.facts.norm(want))[:1500]))
            if failed:
                for l in failed:
                    if ctx.trace:
                        ctx.trace("loop %s: leaf %s %s not inductive" % (self.key, l.cell, l.path))
                    if l.lenonly:
                        self.nolen.add((l.cell, l.path))
                    elif (l.cell, l.path) in self.hyps:
                        self.nohyp.add((l.cell, l.path))
                    else:
                        self.bad.add((l.cell, l.path))
                ctx.drop_generic(outs)
                return None
            ctx.log_loop(self.key, *self.rank(hdr, outs))
            outs = self.name_exit(hdr, outs)
        # nothing is recorded about the rounds before an exit that has no name: what follows is an over-approximation
        vague = ()
        if self.found is None and any(o[0] != "back" for o in outs) and (self.n is not None or VAGUE_OPEN):
            vague = (("bv", ("?", "rounds", fresh_id())),)
            if not ctx.generic and not ctx.nested:
                # exits in the first two rounds are known exactly
                with Quiet(ctx), Nested(ctx):
                    cur = [base]
                    for rnd in range(2):
                        nxt = []
                        for s in cur[:8]:
                            for o in self.step(s.copy()):
                                if o[0] == "back":
                                    nxt.append(o[1])
                                else:
                                    out.append(o)
                        cur = nxt
        evs = self.events(outs, base)
        for o in outs:
            if o[0] != "back":
                s = o[1]
                s.ev = evs + s.ev[len(base.ev):]
                s.trail = s.trail + vague
                out.append(o)
        if self.n is not None:
            ff = base.facts
            if self.found is not None:
                ff = ff.assume(eq0(L(self.found)))
                if ff is None:
                    return out
            o2 = []
            for pt in self.parts:
                fp = ff
                for q, c in self.invs:
                    if q == pt:
                        fp = self.force(fp, subst(c, {self.k: self.n}))
                fin = self.header(self.n, fp)
                fin.trail = fin.trail + vague
                for c, p, vi in pt:
                    l = [l for l in self.leaves if l.cell == c and l.path == p][0]
                    put(self.ctx, fin, c, p, ("adt", l.gen[2], vi, sym_fields(l.gen, vi)))
                fin.ev = evs
                o2 += self.step(fin.copy())
            if any(o[0] == "back" for o in o2):
                # the guard is not what we thought: fall back to an unbounded index
                self.n_failed = True
                self.n = None
                return self.verify_unbounded(out)
            out += o2
        return out

    def name_exit(self, hdr, outs):
        """early exits of a counted loop happen at the first index satisfying their condition: name that
        index by the condition, so that two loops looking for the same thing stop at the same place"""
        ctx = self.ctx
        if self.n is None or ctx.generic or not any(o[0] != "back" for o in outs) or any(l.closed is None for l in self.leaves):
            return outs
        base = len(hdr.trail)
        conds = set()
        for o in outs:
            if o[0] != "back":
                conds.add(tuple(c for c in o[1].trail[base:]))
        if T.is_imprecise(tuple(conds)) or T.is_imprecise(self.n):
            return outs
        b = bound_var(max([max_bound(c) for c in conds] + [max_bound(self.n), -1]) + 1)
        sig = tuple(sorted((subst(c, {self.k: L(b)}) for c in conds), key=repr))
        if contains(sig, {self.k}):
            return outs
        k, found = first_atoms(self.n, sig)
        old = self.k
        for l in self.leaves:
            l.closed = subst(l.closed, {old: L(k)})
        self.k = k
        facts = self.s0.facts.assume(eq0(L(found) - 1))
        if facts is None:
            self.found = found
            return [o for o in outs if o[0] == "back"]
        save = self.s0
        self.s0 = save.copy()
        self.s0.facts = facts
        facts = self.generic_facts()
        self.s0 = save
        self.found = found
        if facts is None:
            return [o for o in outs if o[0] == "back"]
        ctx.drop_generic(outs)
        ctx.generic += 1
        try:
            return self.step(self.header(L(k), facts).copy())
        finally:
            ctx.generic -= 1

    def verify_unbounded(self, out):
        self.find_n = lambda h: None
        self.star_hypothesis_off = True
        for l in self.leaves:
            l.bad = True
            self.bad.add((l.cell, l.path))
        return None

    def events(self, outs, base):
        ds = []
        n = len(base.ev)
        for o in outs:
            if o[0] == "back":
                d = o[1].ev[n:]
                if d and d not in ds:
                    ds.append(d)
        if ds:
            return base.ev + (("loop", self.key[0], tuple(ds)),)
        return base.ev

    def same(self, got, want, facts):
        if got == want:
            return True
        if isinstance(got, tuple) and isinstance(want, tuple) and got and want and got[0] == "it" and want[0] == "it":
            return got == want
        return equal(got, want, facts)

    # ---------------------------------------------------------- inductive bounds
    def houdini(self, facts):
        """strongest subset of candidate bounds that is inductive.  Integer payloads of an enum that changes
        in the loop are bounded like integers: the bound says nothing when another variant is held."""
        ctx = self.ctx
        self.invs = []
        items = []          # (expression, atom, getter of the next value, initial value)
        for l in self.leaves:
            if l.closed is None and isinstance(l.v0, Lin):
                items.append((l.gen, l.gatom, (l, None), l.v0))
            elif l.closed is not None and isinstance(l.closed, Lin) and self.n is None:
                items.append((l.closed, None, (l, None), l.v0))
            elif l.closed is None and isinstance(l.gen, tuple) and l.gen[0] == "sym" and tk(l.gen[2]) == "adt":
                for vi in range(len(variants(l.gen[2]))):
                    for fi, x in enumerate(sym_fields(l.gen, vi)):
                        if isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] == 1:
                            v0 = l.v0
                            init = v0[3][fi] if v0[0] == "adt" and v0[2] == vi else None
                            if v0[0] == "adt":
                                items.append((x, x.t[0][0], (l, (vi, fi)), init))
        self.parts = [()]
        if not items:
            return [facts], True
        ups = []
        for c, v in self.s0.mem.items():
            self.lens(v, ups)
        lows = []
        for e, a, g, v0 in items:
            if isinstance(v0, Lin):
                v0 = self.s0.facts.norm(v0)
                if v0 not in lows:
                    lows.append(v0)
        cands = []

        def base(part, c):
            if not self.start_in(part):
                return True
            m = {self.k: ZERO}
            for e, a, g, v0 in items:
                if a is None:
                    continue
                if v0 is None:
                    if contains(c, {a}):
                        return True
                    continue
                m[a] = v0
            return self.s0.facts.decide(subst(c, m)) is True
        self.parts = self.partition()
        for e, a, g, v0 in items:
            cs = []
            if a is not None:
                cs.append(ge0(e))
                for w in (8, 16, 32, 64):
                    cs.append(ge0(K((1 << w) - 1) - e))
                for e2, a2, g2, v2 in items:
                    if a2 is not a:
                        cs.append(ge0(e2 - e))
            for v in lows[:4]:
                cs.append(ge0(e - v))
                cs.append(ge0(v - e))
            for u in ups[:8]:
                u = self.s0.facts.norm(u)
                cs.append(ge0(u - e))
                if g[1] is not None:
                    cs.append(ge0(u - e - 1))
                    cs.append(ge0(e - u))
            for c in cs:
                for pt in self.parts:
                    if isinstance(c, tuple) and (pt, c) not in cands and self.relevant(pt, g, c) and base(pt, c):
                        cands.append((pt, c))
        for _ in range(16):
            outs, fs = [], []
            for pt in self.parts:
                f = facts
                for q, c in cands:
                    if q == pt:
                        f = self.force(f, c)
                fs.append(f)
                hdr = self.part_header(pt, f)
                with Quiet(ctx):
                    outs += [(pt, o[1]) for o in self.step(hdr.copy()) if o[0] == "back"]
            keep = []
            for q, c in cands:
                if all(self.inductive(pt, q, c, items, b) for pt, b in outs):
                    keep.append((q, c))
            if ctx.trace:
                ctx.trace("dropped %s" % [show_cond(c[1]) for c in cands if c not in keep])
            if len(keep) == len(cands):
                self.invs = cands
                return fs, True
            cands = keep
        return [facts] * len(self.parts), False

    def force(self, f, c):
        """add c even when the facts imply it: it shortens later arguments"""
        g = f.assume(c)
        if g is None:
            return f
        if g is f and c[0] == "ge" and len(f.ineqs) < 60:
            l = f.norm(c[1])
            if l not in f.ineqs and l.t:
                g = f.copy()
                g.ineqs = g.ineqs + (l,)
        return g

    def partition(self):
        """variants of the enums changing in the loop, told apart at the loop header"""
        parts = [()]
        for l in self.leaves:
            if l.closed is None and isinstance(l.gen, tuple) and l.gen[0] == "sym" and tk(l.gen[2]) == "adt" and l.v0[0] == "adt":
                n = len(variants(l.gen[2]))
                if 1 < n and n * len(parts) <= 4:
                    parts = [pt + ((l.cell, l.path, vi),) for pt in parts for vi in range(n)]
        return parts

    def start_in(self, part):
        for c, p, vi in part:
            l = [l for l in self.leaves if l.cell == c and l.path == p][0]
            if l.v0[2] != vi:
                return False
        return True

    def relevant(self, part, g, c):
        l, path = g
        if path is not None:
            for cc, p, vi in part:
                if cc == l.cell and p == l.path and vi != path[0]:
                    return False
        return True

    def part_header(self, part, facts):
        s = self.header(L(self.k), facts)
        for c, p, vi in part:
            l = [l for l in self.leaves if l.cell == c and l.path == p][0]
            put(self.ctx, s, c, p, ("adt", l.gen[2], vi, sym_fields(l.gen, vi)))
        return s

    def inductive(self, pt, q, c, items, b):
        m = {self.k: L(self.k) + 1}
        for cc, p, vi in q:
            nv = val_at(self.ctx, b, cc, p)
            if isinstance(nv, tuple) and nv[0] == "adt" and nv[2] != vi:
                return True
        for e, a, (l, path), v0 in items:
            if a is None or not contains(c, {a}):
                continue
            nv = val_at(self.ctx, b, l.cell, l.path)
            if path is not None:
                if nv == l.gen:
                    nv = e
                elif isinstance(nv, tuple) and nv[0] == "adt":
                    if nv[2] != path[0]:
                        return True
                    nv = nv[3][path[1]]
                else:
                    return False
            if not isinstance(nv, Lin):
                return False
            m[a] = nv
        return b.facts.decide(subst(c, m), 3) is True

    def lens(self, v, out, d=0):
        if isinstance(v, tuple) and v:
            if v[0] == "sl":
                for x in (v[4],):
                    if x not in out:
                        out.append(x)
                return
            if d > 6:
                return
            if v[0] == "seq":
                return
            for x in v:
                if isinstance(x, tuple):
                    self.lens(x, out, d + 1)

    # ---------------------------------------------------------- termination
    def rank(self, hdr, outs):
        backs = [o[1] for o in outs if o[0] == "back"]
        if not backs:
            return ("no repetition", True)
        if self.n is not None:
            return ("counted: %s" % show_lin(self.n), True)
        ups = []
        for c, v in hdr.mem.items():
            self.lens(v, ups)
        meas = []
        for l in self.leaves:
            old = val_at(self.ctx, hdr, l.cell, l.path)
            if not isinstance(old, Lin):
                continue
            meas.append((l, old))
        rem = list(backs)
        used = []
        for _ in range(6):
            if not rem:
                break
            progress = False
            for l, old in meas:
                for sign, bound in [(-1, ZERO)] + [(1, u) for u in ups[:8]]:
                    ok = True
                    strict = []
                    for b in rem:
                        new = val_at(self.ctx, b, l.cell, l.path)
                        if not isinstance(new, Lin):
                            ok = False
                            break
                        if sign < 0:
                            noninc = b.facts.decide(ge0(b.facts.norm(old - new)))
                            st_ = b.facts.decide(ge0(b.facts.norm(old - new - 1))) is True and b.facts.decide(ge0(b.facts.norm(new))) is True
                        else:
                            noninc = b.facts.decide(ge0(b.facts.norm(new - old)))
                            st_ = b.facts.decide(ge0(b.facts.norm(new - old - 1))) is True and b.facts.decide(ge0(b.facts.norm(bound - new))) is True
                        if noninc is not True:
                            ok = False
                            break
                        if st_:
                            strict.append(b)
                    if ok and strict:
                        rem = [b for b in rem if b not in strict]
                        used.append("%s%s" % ("-" if sign > 0 else "", self.lname(l)))
                        progress = True
                        break
                if progress:
                    break
            if not progress:
                break
        if not rem:
            return ("lexicographic: " + ", ".join(used), True)
        return ("unranked", False)

    def lname(self, l):
        return "%s%s" % (l.cell if not isinstance(l.cell, tuple) else l.cell[-1], "".join("." + str(x) for x in l.path))
