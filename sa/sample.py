"""Telling two precise expressions apart.

Expressions that normalise differently may still denote the same function.  Before such a pair is
reported as different, both are compared at sample points of the term algebra (lengths 0..3, values
from their domains, uninterpreted functions given by a consistent table) that satisfy the facts of
the path; no program code is involved."""
import time
from terms import *
import terms as T


class NoValue(Exception):
    pass


class Point:
    def __init__(self, seed, facts):
        self.seed = seed
        self.facts = facts
        self.memo = {}
        self.fuel = 4000
        self.kb = None
        self.hints = {}
        self.byname = {}
        if facts is not None:
            for a, v in facts.rew.items():
                if a.key[0] == "bits" and v.const is not None:
                    self.hints.setdefault(a.key[1], []).append((a.key[2], a.key[3], v.const))

    def pick(self, key, lo, hi, dom=None):
        h = hash((self.seed, key)) & 0x7FFFFFFFFFFF
        if dom is not None:
            d = sorted(dom)
            return d[h % len(d)]
        lo = 0 if lo is None else lo
        if hi is None:
            hi = lo + 1000
        if hi < lo:
            raise NoValue("empty")
        m = (h >> 20) % 4
        n = hi - lo + 1
        if m == 0:
            return lo + h % min(n, 4)
        if m == 1:
            return hi - h % min(n, 4)
        return lo + h % n

    def key(self, x, env):
        if isinstance(x, Lin):
            return self.lin(x, env)
        if isinstance(x, Atom):
            return self.atom(x, env)
        if isinstance(x, tuple):
            return tuple(self.key(y, env) for y in x)
        return x

    def lin(self, l, env=None):
        env = env or {}
        n = l.c
        for a, k in l.t:
            n += k * self.atom(a, env)
        return n

    def atom(self, a, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise NoValue("fuel")
        if a in env:
            return env[a]
        if not any(b in env for b in a.deps):
            if a in self.memo:
                return self.memo[a]
            r = self.atom0(a, env)
            self.memo[a] = r
            return r
        return self.atom0(a, env)

    def atom0(self, a, env):
        if self.facts is not None and a in self.facts.rew:
            return self.lin(self.facts.rew[a], env)
        return self.structural(a, env)

    def structural(self, a, env):
        k = a.key
        o = k[0]
        if o == "bound":
            raise NoValue("free bound variable")
        if o in ("first", "found"):
            return self.search(k, env)[0 if o == "first" else 1]
        if o in ("ix", "gen"):
            lo, hi = self.facts.bnd(a) if self.facts is not None else (a.lo, a.hi)
            return self.pick(("at", a.id), lo, min(hi, (lo or 0) + 3) if hi is not None else None)
        if o == "sum":
            n = self.lin(k[1], env)
            if n > 12:
                raise NoValue("long sum")
            t = 0
            for i in range(max(n, 0)):
                e = dict(env)
                e[k[2]] = i
                t += self.atom(k[3], e)
            return t
        if o == "ite":
            return self.lin(k[2] if self.cond(k[1], env) else k[3], env)
        if o == "b2i":
            return 1 if self.cond(k[1], env) else 0
        if o == "bits":
            return (self.atom(k[1], env) >> k[2]) & ((1 << k[3]) - 1)
        if o == "val":
            return self.lin(k[2], env) & ((1 << k[1]) - 1)
        if o == "trunc":
            return self.lin(k[2], env) & ((1 << k[1]) - 1)
        if o in ("wrap", "truncs"):
            v = self.lin(k[2], env) & ((1 << k[1]) - 1)
            return v - (1 << k[1]) if a.lo is not None and a.lo < 0 and v >> (k[1] - 1) else v
        if o in ("div", "rem"):
            x, y = self.lin(k[1], env), self.lin(k[2], env)
            if y <= 0 or x < 0:
                raise NoValue("division")
            return x // y if o == "div" else x % y
        if o in ("shl", "shr"):
            x, y = self.lin(k[1], env), self.lin(k[2], env)
            if x < 0 or not 0 <= y < k[3]:
                raise NoValue("shift")
            return x >> y if o == "shr" else (x << y) & ((1 << k[3]) - 1)
        if o == "bitop":
            x, y = self.lin(k[2], env), self.lin(k[3], env)
            if x < 0 or y < 0:
                raise NoValue("sign")
            return x & y if k[1] == "BitAnd" else x | y if k[1] == "BitOr" else x ^ y
        if o == "fn":
            raise NoValue("function")
        if o == "mul":
            return self.lin(k[1], env) * self.lin(k[2], env)
        lo, hi = (a.lo, a.hi)
        kk = (o,) + tuple(self.key(x, env) for x in k[1:])
        # the same element may be known under several names
        if kk in self.byname:
            return self.byname[kk]
        if self.facts is not None:
            if not (a.deps & env.keys()):
                lo, hi = self.facts.bnd(a)
            if o in ("len", "var", "discr"):
                kb = self.known()[0].get(kk)
                if kk in self.byname:
                    return self.byname[kk]
                if isinstance(kb, int):
                    self.byname[kk] = kb
                    return kb
                if kb is not None:
                    lo = kb[0] if lo is None else lo if kb[0] is None else max(lo, kb[0])
                    hi = kb[1] if hi is None else hi if kb[1] is None else min(hi, kb[1])
        v = self.leaf(a, o, kk, lo, hi)
        for l, n, x in self.hints.get(a, ()):
            v = v & ~(((1 << n) - 1) << l) | x << l
        self.byname[kk] = v
        return v

    def leaf(self, a, o, kk, lo, hi):
        if o == "len":
            lo = lo or 0
            if hash((self.seed, kk, "big")) % 6 == 0:
                big = [x for x in (63, 64, 127, 128, 255, 256, 300, 16383, 16384, 65535, 65536) if lo <= x and (hi is None or x <= hi)]
                if big:
                    return big[hash((self.seed, kk)) % len(big)]
            return self.pick(kk, lo, min(hi, lo + 3) if hi is not None else lo + 3)
        return self.pick(kk, lo, hi, T.DOM[a] if a in T.DOM else None)

    def search(self, k, env):
        """(first index below the bound at which one of the conditions holds, whether there is one)"""
        n = self.lin(k[1], env)
        from seqs import max_bound
        b = T.bound_var(max_bound(k[2]))
        if n > 600:
            raise NoValue("long search")
        for i in range(max(n, 0)):
            e = dict(env)
            e[b] = i
            if any(all(self.cond(c, e) for c in cs) for cs in k[2]):
                return i, 1
        return max(n, 0), 0

    def known(self):
        """bounds and truth values the facts give, by the value of the subject at this point"""
        if self.kb is None:
            self.kb = ({}, {})
            f = self.facts
            for a, v in f.rew.items():
                if a.key[0] in ("len", "var", "discr") and v.const is not None:
                    self.kb[0][(a.key[0],) + tuple(self.key(x, {}) for x in a.key[1:])] = v.const
            for a, v in f.bnds.items():
                if a.key[0] in ("len", "var", "discr"):
                    self.kb[0].setdefault((a.key[0],) + tuple(self.key(x, {}) for x in a.key[1:]), v)
            for t, v in f.bools.items():
                self.kb[1][self.key(t, {})] = v
        return self.kb

    def cond(self, c, env=None):
        env = env or {}
        if c is True or c is False:
            return c
        o = c[0]
        if o == "ge":
            return self.lin(c[1], env) >= 0
        if o == "eq":
            return self.lin(c[1], env) == 0
        if o == "ne":
            return self.lin(c[1], env) != 0
        if o in ("bv", "nbv"):
            if self.facts is not None and c[1] in self.facts.bools:
                v = self.facts.bools[c[1]]
            else:
                kk = self.key(c[1], env)
                v = self.known()[1].get(kk) if self.facts is not None and env else None
                if v is None:
                    v = self.pick(("bv", kk), 0, 1) == 1
            return v == (o == "bv")
        if o == "and":
            return all(self.cond(x, env) for x in c[1:])
        if o == "or":
            return any(self.cond(x, env) for x in c[1:])
        raise NoValue(o)

    def ok(self):
        f = self.facts
        if f is None:
            return True
        return (all(self.lin(l) >= 0 for l in f.ineqs) and all(self.lin(l) != 0 for l in f.nes)
                and all(self.consistent(a, v) for a, v in f.rew.items()))

    def consistent(self, a, v):
        if a.key[0] not in ("bits", "val", "sum", "ite", "b2i", "mul", "trunc", "first", "found", "wrap", "truncs", "div", "rem", "shl", "shr", "bitop"):
            return True
        return self.structural(a, {}) == self.lin(v)


def _probe(facts, diff, want=40, tries=400):
    """(samples that satisfy the facts, samples among them where diff holds)"""
    good = hit = 0
    end = time.time() + 2
    for i in range(tries):
        if time.time() > end:
            break
        p = Point(i, facts)
        try:
            if not p.ok():
                continue
            d = diff(p)
        except NoValue:
            continue
        except (KeyError, TypeError, RecursionError):
            return None
        good += 1
        if d:
            hit += 1
        if hit or good >= want:
            break
    return good, hit


_memo = {}


def differs(facts, diff, key=None):
    """True: at some point; False: at no point; None: nothing to go by"""
    r = _probe(facts, diff)
    if r is None:
        return None
    if r[0] == 0:
        r = _probe(None, diff)
        if r is None or r[0] == 0:
            return None
        if r[1] == 0:
            return False
        return None
    return r[1] > 0


def feasible(facts):
    """is there a sample point satisfying the facts"""
    r = _probe(facts, lambda p: True, want=1, tries=3000)
    return r is not None and r[1] > 0


def lin_differs(facts, d):
    return differs(facts, lambda p: p.lin(d) != 0)


def cond_differs(facts, a, b):
    return differs(facts, lambda p: p.cond(a) != p.cond(b))
