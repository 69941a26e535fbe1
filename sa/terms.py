"""Value-numbering terms: interned atoms, affine expressions, bit slices, conditions.

Everything here is an *abstract* description of a run-time integer.  Atoms are uninterpreted
names (a field of an input value, the length of a collection, a byte of the input buffer ...),
`Lin` is an affine combination of atoms with integer coefficients.  Two expressions are equal
iff their normal forms are identical; there is no search.
"""
from functools import lru_cache

INF = None
class _Dom(dict):
    """atom -> possible values; atoms made by substitution are looked up through `make`"""
    make = None

    def __contains__(self, a):
        if dict.__contains__(self, a):
            return True
        if a.key[0] == "discr" and self.make is not None:
            v = self.make(a)
            if v is not None:
                self[a] = v
                return True
        return False

    def get(self, a, d=None):
        return self[a] if a in self else d


DOM = _Dom()  # atom -> frozenset of possible values (enum discriminants)
LEN_MAX = 1 << 40


class Atom:
    __slots__ = ("id", "key", "lo", "hi", "imp", "deps")

    def __repr__(self):
        return show_atom(self)


_TABLE = {}
_ATOMS = []


def _deps(x, out):
    if isinstance(x, Lin):
        for a, _ in x.t:
            out |= a.deps
    elif isinstance(x, Atom):
        out |= x.deps
    elif isinstance(x, tuple):
        for y in x:
            _deps(y, out)


def _imp(x):
    if isinstance(x, Lin):
        return any(a.imp for a, _ in x.t)
    if isinstance(x, Atom):
        return x.imp
    if isinstance(x, tuple):
        if x and x[0] == "?":
            return True
        return any(_imp(y) for y in x)
    return False


def is_imprecise(x):
    return _imp(x)


def mk_atom(key, lo, hi, imp=None):
    a = _TABLE.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_ATOMS)
    a.key = key
    a.lo = lo
    a.hi = hi
    a.imp = _imp(key) if imp is None else imp
    d = set()
    if key[0] in ("bound", "gen", "ix", "first"):
        d.add(a)
    _deps(key, d)
    a.deps = frozenset(d)
    _TABLE[key] = a
    _ATOMS.append(a)
    return a


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, tuple((a.id, k) for a, k in t)))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return Lin(self.c + o.c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, n):
        if n == 0:
            return ZERO
        return Lin(self.c * n, tuple((a, k * n) for a, k in self.t))

    @property
    def const(self):
        return self.c if not self.t else None

    def atom(self):
        """the atom if this is exactly one atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def __repr__(self):
        return show_lin(self)


ZERO = Lin(0)
ONE = Lin(1)


def K(n):
    return Lin(n)


def L(a):
    return Lin(0, ((a, 1),))


# ---------------------------------------------------------------- display
def show_term(t):
    if isinstance(t, Lin):
        return show_lin(t)
    if isinstance(t, Atom):
        return show_atom(t)
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if k == "arg":
        return str(t[1])
    if k == "fld":
        n = t[5] if len(t) > 5 else t[4]
        return "%s.%s" % (show_term(t[1]), n)
    if k == "elem":
        return "%s[%s]" % (show_term(t[1]), show_term(t[2]))
    if k == "deref":
        return "*" + show_term(t[1])
    if k == "app":
        return "%s(%s)" % (t[1], ", ".join(show_term(x) for x in t[2:]))
    if k == "?":
        return "?%s" % (t[1],)
    return "(" + " ".join(show_term(x) for x in t) + ")"


def show_atom(a):
    k = a.key
    if k[0] == "var":
        return show_term(k[1])
    if k[0] == "len":
        return "len(%s)" % show_term(k[1])
    if k[0] == "discr":
        return "discr(%s)" % show_term(k[1])
    if k[0] == "bits":
        return "%s[%d+:%d]" % (show_atom(k[1]), k[2], k[3])
    if k[0] == "bound":
        return "$%d" % k[1]
    if k[0] == "sum":
        return "sum($%d<%s: %s)" % (k[2].key[1], show_lin(k[1]), show_atom(k[3]))
    if k[0] == "b2i":
        return "[%s]" % show_cond(k[1])
    return "%s(%s)" % (k[0], ", ".join(show_term(x) for x in k[1:]))


def show_lin(l):
    s = []
    for a, k in l.t:
        s.append(("%d*" % k if k != 1 else "") + show_atom(a))
    if l.c or not s:
        s.append(str(l.c))
    return "+".join(s)


def show_cond(c):
    if c is True or c is False:
        return str(c)
    if c[0] == "ge":
        return "%s >= 0" % show_lin(c[1])
    if c[0] == "eq":
        return "%s == 0" % show_lin(c[1])
    if c[0] == "ne":
        return "%s != 0" % show_lin(c[1])
    if c[0] == "bv":
        return show_term(c[1])
    if c[0] == "nbv":
        return "!" + show_term(c[1])
    return "(%s)" % (" %s " % c[0]).join(show_cond(x) for x in c[1:])


# ---------------------------------------------------------------- atom constructors
def var(term, lo, hi):
    return L(mk_atom(("var", term), lo, hi))


VAL_RULES = []  # callables term -> (lo, hi) or None : assumptions on integer values
LEN_RULES = []  # callables term -> (lo, hi) or None : representability assumptions on lengths


def length(term):
    if term[0] == "const":
        return K(term[1])
    lo, hi = 0, LEN_MAX
    if term[0] == "enc":
        # a name has its end, a question and a record have a name
        lo = {"FQDN": 1, "Question": 1, "ResourceRecord": 1}.get(str(term[1]).rstrip("~"), 0)
    for r in LEN_RULES:
        b = r(term)
        if b:
            lo, hi = b
            break
    return L(mk_atom(("len", term), lo, hi))


def reset_lengths():
    for k in [k for k in _TABLE if k[0] == "len"]:
        del _TABLE[k]


def bound_var(depth):
    return mk_atom(("bound", depth), 0, LEN_MAX)


_gen = [0]


def fresh_id():
    _gen[0] += 1
    return _gen[0]


def gen_atom(lo, hi, imp=False):
    return mk_atom(("gen", fresh_id()), lo, hi, imp)


def index_atom():
    return mk_atom(("ix", fresh_id()), 0, LEN_MAX, False)


def first_atoms(n, sig):
    """(the first index at which a loop of at most n rounds is left early, whether it is)"""
    return mk_atom(("first", n, sig), 0, LEN_MAX), mk_atom(("found", n, sig), 0, 1)


def width_of(a):
    """number of bits of a non-negative atom, or None"""
    if a.lo is None or a.lo < 0 or a.hi is None:
        return None
    return a.hi.bit_length()


def mk_bits(a, lo, n):
    """value of bits [lo, lo+n) of atom a, as Lin"""
    w = width_of(a)
    if lo >= w:
        return ZERO
    n = min(n, w - lo)
    if n <= 0:
        return ZERO
    k = a.key
    if lo == 0 and n >= w:
        if k[0] == "val":
            return k[2]
        return L(a)
    if k[0] == "bits":
        return mk_bits(k[1], k[2] + lo, n)
    hi = (1 << n) - 1
    if lo + n >= w:
        hi = min(hi, a.hi >> lo)
    return L(mk_atom(("bits", a, lo, n), 0, hi))


def mk_val(l, w):
    """an opaque w-bit atom standing for l (known to lie in range)"""
    a = l.atom()
    if a is not None and width_of(a) is not None and width_of(a) <= w:
        return a
    return mk_atom(("val", w, l), 0, (1 << w) - 1)


def to_bits(l, w):
    """list of w bits (0, 1 or (atom, k)) or None if l is not a disjoint bit combination"""
    bits = [0] * w
    if l.c < 0:
        return None
    for i in range(l.c.bit_length()):
        if (l.c >> i) & 1:
            if i >= w:
                return None
            bits[i] = 1
    for a, k in l.t:
        if k <= 0 or k & (k - 1):
            return None
        s = k.bit_length() - 1
        m = width_of(a)
        if m is None or s + m > w:
            return None
        base, off = a, 0
        if a.key[0] == "bits":
            base, off = a.key[1], a.key[2]
        for i in range(m):
            if bits[s + i] != 0:
                return None
            bits[s + i] = (base, off + i)
    return bits


def bits_or_opaque(l, w):
    b = to_bits(l, w)
    if b is None:
        a = mk_val(l, w)
        b = [(a, i) for i in range(min(w, width_of(a)))]
        b += [0] * (w - len(b))
    return b


def from_bits(bits):
    c = 0
    out = ZERO
    i = 0
    n = len(bits)
    while i < n:
        b = bits[i]
        if b == 0:
            i += 1
            continue
        if b == 1:
            c += 1 << i
            i += 1
            continue
        a, k = b
        j = i + 1
        while j < n and isinstance(bits[j], tuple) and bits[j][0] is a and bits[j][1] == k + (j - i):
            j += 1
        out = out + mk_bits(a, k, j - i).scale(1 << i)
        i = j
    return out + c


# ---------------------------------------------------------------- ranges
def lo_of(l, bnd=None):
    s = l.c
    for a, k in l.t:
        lo, hi = (a.lo, a.hi) if bnd is None else bnd(a)
        x = lo if k > 0 else hi
        if x is None:
            return None
        s += k * x
    return s


def hi_of(l, bnd=None):
    s = l.c
    for a, k in l.t:
        lo, hi = (a.lo, a.hi) if bnd is None else bnd(a)
        x = hi if k > 0 else lo
        if x is None:
            return None
        s += k * x
    return s


# ---------------------------------------------------------------- products, sums
def mk_mul(x, y):
    if x.const is not None:
        return y.scale(x.const)
    if y.const is not None:
        return x.scale(y.const)
    out = K(0)
    # distribute
    for a, k in x.t:
        for b, m in y.t:
            p, q = (a, b) if a.id <= b.id else (b, a)
            lo = hi = None
            if p.lo is not None and q.lo is not None and p.lo >= 0 and q.lo >= 0:
                lo = p.lo * q.lo
                if p.hi is not None and q.hi is not None:
                    hi = p.hi * q.hi
            out = out + L(mk_atom(("mul", L(p), L(q)), lo, hi)).scale(k * m)
    out = out + y.scale(x.c) + x.scale(y.c) - x.c * y.c
    return out


UNSORTED = [None]


def mk_sum(n, v, body):
    """sum of body for v in 0..n   (v a bound atom)"""
    if n.const is not None:
        if 0 <= n.const <= 64:
            out = ZERO
            for i in range(n.const):
                out = out + subst(body, {v: K(i)})
            return out
    elif n.c != 0 and -8 <= n.c <= 8:
        m = Lin(0, n.t)
        out = mk_sum(m, v, body)
        if n.c > 0:
            for i in range(n.c):
                out = out + subst(body, {v: m + i})
        else:
            for i in range(n.c, 0):
                out = out - subst(body, {v: m + i})
        return out
    if UNSORTED[0] is not None:
        r = UNSORTED[0](n, v, body)
        if r is not None:
            return r
    at = n.atom()
    if at is not None and at.key[0] == "len":
        body = unordered(body, at.key[1])
    out = n.scale(body.c)
    for a, k in body.t:
        if v in a.deps:
            lo = 0 if (a.lo is not None and a.lo >= 0) else None
            out = out + L(mk_atom(("sum", n, v, a), lo, None)).scale(k)
        else:
            out = out + mk_mul(n, L(a)).scale(k)
    return out


def unordered(body, m):
    """a sum over all elements does not depend on the order they are visited in"""
    h = ("ho", m)

    def go(x):
        if x == h:
            return m
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    out = K(body.c)
    for a, k in body.t:
        if a.key[0] == "len":
            t = go(a.key[1])
            out = out + (length(t) if t != a.key[1] else L(a)).scale(k)
        elif a.key[0] == "var":
            t = go(a.key[1])
            out = out + (L(a) if t == a.key[1] else var(t, a.lo, a.hi)).scale(k)
        else:
            out = out + L(a).scale(k)
    return out


def unho(x):
    """forget that entries were visited in an unspecified order"""
    return _unho(x) if has_ho(x) else x


def has_ho(x, memo=None):
    """does a hash-ordered view occur anywhere"""
    memo = set() if memo is None else memo
    if isinstance(x, Lin):
        return any(has_ho(a, memo) for a, _ in x.t)
    if isinstance(x, Atom):
        if x in memo:
            return False
        memo.add(x)
        return has_ho(x.key, memo)
    if isinstance(x, tuple):
        return (len(x) == 2 and x[0] == "ho") or any(has_ho(y, memo) for y in x)
    return False


def _unho(x):
    if isinstance(x, Lin):
        out = K(x.c)
        for a, k in x.t:
            out = out + _unho_atom(a).scale(k)
        return out
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "ho":
            return _unho(x[1])
        return tuple(_unho(y) for y in x)
    return x


def _unho_atom(a):
    if not has_ho(a):
        return L(a)
    k = a.key
    if k[0] == "len":
        return length(_unho(k[1]))
    if k[0] == "var":
        return var(_unho(k[1]), a.lo, a.hi)
    if k[0] == "sum":
        return L(a)
    return L(mk_atom((k[0],) + tuple(_unho(y) for y in k[1:]), a.lo, a.hi))


# ---------------------------------------------------------------- substitution
REBUILD = {}


def subst(x, m):
    """deep substitution of atoms by Lin in any nested structure"""
    if not m:
        return x
    keys = frozenset(m)
    memo = {}
    return _subst(x, m, keys, memo)


def _subst(x, m, keys, memo):
    if isinstance(x, Lin):
        if not any(a in m or (a.deps & keys) for a, _ in x.t):
            return x
        out = Lin(x.c)
        for a, k in x.t:
            out = out + _subst_atom(a, m, keys, memo).scale(k)
        return out
    if isinstance(x, tuple):
        if x and x[0] == "star":
            return _subst_star(x, m, keys, memo)
        r = None
        for i, y in enumerate(x):
            z = _subst(y, m, keys, memo)
            if z is not y:
                if r is None:
                    r = list(x)
                r[i] = z
        if r is None:
            return x
        r = tuple(r)
        if r[0] in REBUILD:
            return REBUILD[r[0]](r)
        return r
    return x


def _subst_star(x, m, keys, memo):
    f = REBUILD.get("star")
    _, lo, hi, v, body = x
    lo2 = _subst(lo, m, keys, memo)
    hi2 = _subst(hi, m, keys, memo)
    body2 = _subst(body, m, keys, memo)
    if lo2 is lo and hi2 is hi and body2 is body:
        return x
    return f(("star", lo2, hi2, v, body2))


def _subst_atom(a, m, keys, memo):
    if a in m:
        return m[a]
    if not (a.deps & keys):
        return L(a)
    r = memo.get(a)
    if r is not None:
        return r
    k = a.key
    kind = k[0]
    args = [(_subst_atom(y, m, keys, memo) if isinstance(y, Atom) and y.key[0] != "bound" else _subst(y, m, keys, memo)) for y in k[1:]]
    if kind == "sum":
        n, v = args[0], k[2]
        r = mk_sum(n, v, _subst_atom(k[3], m, keys, memo))
    elif kind == "bits":
        b = bits_or_opaque(args[0], 128)
        r = from_bits(b[k[2]:k[2] + k[3]])
    elif kind == "mul":
        r = mk_mul(args[0], args[1])
    elif kind == "len":
        r = length(args[0])
    elif kind == "val":
        r = args[1]
    elif kind == "b2i":
        r = b2i(args[0])
    elif kind == "ite":
        r = mk_ite(args[0], args[1], args[2])
    else:
        r = L(mk_atom((kind,) + tuple(args), a.lo, a.hi))
    memo[a] = r
    return r


# ---------------------------------------------------------------- conditions
def ge0(l):
    if l.const is not None:
        return l.const >= 0
    lo = lo_of(l)
    if lo is not None and lo >= 0:
        return True
    hi = hi_of(l)
    if hi is not None and hi < 0:
        return False
    return ("ge", l)


def eq0(l):
    if l.const is not None:
        return l.const == 0
    lo, hi = lo_of(l), hi_of(l)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    # a single 0/1 atom standing for a condition
    if len(l.t) == 1:
        a, k = l.t[0]
        if l.c % k != 0:
            return False
        v = -l.c // k
        if a.key[0] == "b2i":
            if v == 1:
                return a.key[1]
            if v == 0:
                return neg(a.key[1])
            return False
        l = Lin(-v, ((a, 1),))
    elif l.t[0][1] < 0:
        l = -l
    return ("eq", l)


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == "ge":
        return ge0(-c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "bv":
        return ("nbv", c[1])
    if k == "nbv":
        return ("bv", c[1])
    if k == "and":
        return c_or(*[neg(x) for x in c[1:]])
    if k == "or":
        return c_and(*[neg(x) for x in c[1:]])
    raise ValueError(c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True or c in out:
            continue
        if c[0] == "and":
            out.extend(x for x in c[1:] if x not in out)
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and",) + tuple(out)


def c_or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False or c in out:
            continue
        if c[0] == "or":
            out.extend(x for x in c[1:] if x not in out)
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or",) + tuple(out)


def b2i(c):
    if c is True:
        return ONE
    if c is False:
        return ZERO
    return L(mk_atom(("b2i", c), 0, 1))


def mk_ite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if x == y:
        return x
    d = x - y
    if d.const is not None:
        return y + b2i(c).scale(d.const)
    lx, ly, hx, hy = lo_of(x), lo_of(y), hi_of(x), hi_of(y)
    lo = None if lx is None or ly is None else min(lx, ly)
    hi = None if hx is None or hy is None else max(hx, hy)
    # put the negated form first deterministically
    n = neg(c)
    if repr(n) < repr(c):
        c, x, y = n, y, x
    return L(mk_atom(("ite", c, x, y), lo, hi))


def _rebuild_cond(r):
    if r[0] == "ge":
        return ge0(r[1])
    if r[0] == "eq":
        return eq0(r[1])
    if r[0] == "ne":
        return neg(eq0(r[1]))
    if r[0] == "and":
        return c_and(*r[1:])
    return c_or(*r[1:])


for _k in ("ge", "eq", "ne", "and", "or"):
    REBUILD[_k] = _rebuild_cond


EPOCH = [0]  # bumped when the length assumptions change


PREFER = set()      # atoms that equations are solved for first


class Facts:
    """A conjunction of conditions (path refinement).  Copied on extension."""
    __slots__ = ("ineqs", "rew", "nes", "bools", "bnds", "_pg")

    def __init__(self):
        self._pg = None
        self.ineqs = ()
        self.rew = {}
        self.nes = frozenset()
        self.bools = {}
        self.bnds = {}

    def copy(self):
        f = Facts()
        f.ineqs = self.ineqs
        f.rew = self.rew
        f.nes = self.nes
        f.bools = self.bools
        f.bnds = self.bnds
        f._pg = self._pg
        return f

    def bnd(self, a):
        b = self.bnds.get(a)
        if b is None:
            b = (a.lo, a.hi)
        k = a.key
        if k[0] == "bits":
            # a slice of a value whose higher bits are known
            w = self.bnds.get(k[1])
            if w is not None and w[0] is not None and w[1] is not None and 0 <= w[0] <= w[1]:
                lo, hi = w[0] >> k[2], w[1] >> k[2]
                if lo >> k[3] == hi >> k[3]:
                    m = (1 << k[3]) - 1
                    return (max(b[0], lo & m), min(b[1], hi & m))
        return b

    def norm(self, x):
        if not self.rew:
            return x
        for _ in range(4):
            y = subst(x, self.rew)
            if y == x:
                return y
            x = y
        return x

    def resolve(self, l):
        """replace conditional atoms whose condition is decided"""
        for _ in range(8):
            hit = None
            for a, k in l.t:
                if a.key[0] in ("ite", "b2i"):
                    d = self.decide(a.key[1], 1)
                    if d is not None:
                        if a.key[0] == "b2i":
                            hit = (a, K(1 if d else 0))
                        else:
                            hit = (a, a.key[2] if d else a.key[3])
                        break
            if hit is None:
                return l
            l = self.norm(subst(l, {hit[0]: hit[1]}))
        return l

    # -- decide a condition: True / False / None
    def decide(self, c, depth=2):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "bv" or k == "nbv":
            t = self.norm(c[1])
            v = self.bools.get(t)
            if v is None:
                return None
            return v if k == "bv" else not v
        if k == "and":
            r = True
            for x in c[1:]:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        if k == "or":
            r = False
            for x in c[1:]:
                d = self.decide(x)
                if d is True:
                    return True
                if d is None:
                    r = None
            return r
        l = self.resolve(self.norm(c[1]))
        if k == "ge":
            if self.prove_ge(l, depth):
                return True
            if self.prove_ge(-l - 1, depth):
                return False
            return None
        # eq / ne
        e = eq0(l)
        if e is True or e is False:
            return e if k == "eq" else not e
        if e[0] not in ("eq", "ne"):
            d = self.decide(e)
            if d is None:
                return None
            return d if k == "eq" else not d
        if e[1] in self.nes:
            return k == "ne"
        if len(e[1].t) == 1 and e[1].t[0][0] in DOM and -e[1].c not in DOM[e[1].t[0][0]]:
            return k == "ne"
        if self.prove_ge(l - 1, depth) or self.prove_ge(-l - 1, depth):
            return k == "ne"
        if len(l.t) > 1 and self.prove_ge(l, depth) and self.prove_ge(-l, depth):
            return k == "eq"
        return None

    def prove_ge(self, l, depth=2):
        if not l.t:
            return l.c >= 0
        lo = lo_of(l, self.bnd)
        if lo is not None and lo >= 0:
            return True
        if depth <= 0:
            return False
        g = self._pg
        if g is None or g[0] is not self.ineqs or g[1] is not self.bnds or g[2] != EPOCH[0]:
            g = self._pg = (self.ineqs, self.bnds, EPOCH[0], {})
        key = (l, depth)
        r = g[3].get(key)
        if r is None:
            r = g[3][key] = self._prove_ge(l, depth)
        return r

    def absurd(self, depth):
        """a deeper search for a contradiction"""
        return any(self.prove_ge(-l - 1, depth) for l in self.ineqs[-1:-6:-1])

    def _lo_diff(self, l, f, q):
        """is the lower bound of l - q*f non-negative"""
        d = dict(l.t)
        for a, k in f.t:
            d[a] = d.get(a, 0) - q * k
        s = l.c - q * f.c
        for a, k in d.items():
            if k:
                b = self.bnd(a)[0 if k > 0 else 1]
                if b is None:
                    return False
                s += k * b
        return s >= 0

    def _prove_ge(self, l, depth):
        # bits of a value are at most the value
        for a, k in l.t:
            if k < 0 and a.key[0] == "bits" and k % (1 << a.key[2]) == 0:
                r = Lin(l.c, tuple(x for x in l.t if x[0] is not a)) + L(a.key[1]).scale(k >> a.key[2])
                if self.prove_ge(r, depth - 1):
                    return True
        # a sum of n terms of at least m is at least n*m
        for a, k in l.t:
            if k > 0 and a.key[0] == "sum":
                m = lo_of(L(a.key[3]), self.bnd)
                if m is not None and m > 0 and self.prove_ge(a.key[1], depth - 1):
                    r = Lin(l.c, tuple(x for x in l.t if x[0] is not a)) + a.key[1].scale(k * m)
                    if self.prove_ge(r, depth - 1):
                        return True
        # a longer sum of the same terms exceeds a shorter one by the terms between
        for a, k in l.t:
            if k > 0 and a.key[0] == "sum":
                for b, j in l.t:
                    if j == -k and b.key[0] == "sum" and b.key[2:] == a.key[2:]:
                        m = lo_of(L(a.key[3]), self.bnd)
                        if m is not None and m >= 0 and self.prove_ge(a.key[1] - b.key[1], depth - 1):
                            r = Lin(l.c, tuple(x for x in l.t if x[0] is not a and x[0] is not b)) + (a.key[1] - b.key[1]).scale(k * m)
                            if self.prove_ge(r, depth - 1):
                                return True
        for f in self.ineqs:
            # use f only when it shares a "bad" atom: cancels a term of l
            for a, k in f.t:
                kl = 0
                for b, m in l.t:
                    if b is a:
                        kl = m
                        break
                if kl and (kl < 0) == (k < 0):
                    # l - q*f with q = kl/k positive
                    if kl % k == 0:
                        q = kl // k
                        if self._lo_diff(l, f, q) or (depth > 1 and self.prove_ge(l - f.scale(q), depth - 1)):
                            return True
                    elif depth > 1 and k % kl == 0:
                        q = k // kl
                        if self.prove_ge(l.scale(q) - f, depth - 1):
                            return True
        return False

    def _tighten(self, f):
        """derive atom bounds from f >= 0 when it has one atom, or by interval reasoning"""
        ch = False
        if len(f.t) > 6:
            return False
        for a, k in f.t:
            rest = Lin(f.c, tuple(x for x in f.t if x[0] is not a))
            hi = hi_of(rest, self.bnd)
            if hi is None:
                continue
            lo0, hi0 = self.bnd(a)
            if k > 0:  # a >= -rest/k ; weakest: a >= ceil(-hi/k)
                v = -((hi) // k)
                if lo0 is None or v > lo0:
                    self.bnds = dict(self.bnds)
                    self.bnds[a] = (v, hi0)
                    ch = True
            else:  # a <= rest/(-k)
                v = hi // (-k)
                if hi0 is None or v < hi0:
                    self.bnds = dict(self.bnds)
                    self.bnds[a] = (lo0, v)
                    ch = True
        return ch

    def assume(self, c):
        """a new Facts with c added, or None when contradictory"""
        d = self.decide(c)
        if d is True:
            return self
        if d is False:
            return None
        f = self.copy()
        if not f._add(c):
            return None
        return f

    def _add(self, c):
        if c is True:
            return True
        if c is False:
            return False
        k = c[0]
        if k in ("bv", "nbv"):
            t = self.norm(c[1])
            v = k == "bv"
            if t in self.bools:
                return self.bools[t] == v
            self.bools = dict(self.bools)
            self.bools[t] = v
            return True
        if k == "and":
            for x in c[1:]:
                if not self._add(x):
                    return False
            return True
        if k == "or":
            alive = [x for x in c[1:] if self.decide(x) is not False]
            if not alive:
                return False
            if len(alive) == 1:
                return self._add(alive[0])
            return True  # weaker, sound
        l = self.norm(c[1])
        if k == "ge":
            g = ge0(l)
            if g is True or g is False:
                return g
            if self.prove_ge(-l - 1):
                return False
            if -l in self.ineqs:
                return self._solve(l)
            if l not in self.ineqs:
                self.ineqs = self.ineqs + (l,)
            if self._tighten(l):
                for _ in range(3):
                    ch = False
                    for f in self.ineqs:
                        ch |= self._tighten(f)
                    if not ch:
                        break
            for a, _ in l.t:
                lo, hi = self.bnd(a)
                if lo is not None and hi is not None:
                    if lo > hi:
                        return False
                    if lo == hi and a not in self.rew:
                        if not self._rewrite(a, K(lo)):
                            return False
            for x in self.nes:
                y = self.norm(x)
                if y.const == 0:
                    return False
            self._drop_ne_edges()
            return self.dom_ok()
        e = eq0(l)
        if e is True or e is False:
            return e if k == "eq" else not e
        if e[0] not in ("eq", "ne"):
            return self._add(e if k == "eq" else neg(e))
        l = e[1]
        if len(l.t) == 1 and l.t[0][0] in DOM and -l.c not in DOM[l.t[0][0]]:
            return (k == "ne") == (e[0] == "eq")
        if k == "ne":
            if e[0] == "ne":
                return self._add(("eq", l))
            self.nes = self.nes | {l}
            self._drop_ne_edges()
            for a, _ in l.t:
                lo, hi = self.bnd(a)
                if lo is not None and lo == hi and a not in self.rew and not self._rewrite(a, K(lo)):
                    return False
            return self.dom_ok() and all(self.bnd(a)[0] is None or self.bnd(a)[1] is None or self.bnd(a)[0] <= self.bnd(a)[1] for a, _ in l.t)
        if e[0] == "ne":
            return self._add(("ne", l))
        # equality: solve for an atom
        return self._solve(l)

    def _digits(self, l):
        """the only digits of a number in mixed radix, e.g. 256*a+b = 2 over bytes"""
        ts = sorted(l.t, key=lambda x: -abs(x[1]))
        sg = 1 if ts[0][1] > 0 else -1
        n = -l.c * sg
        if len(ts) < 2 or any(k * sg < 0 for _, k in ts):
            return None
        bs = [self.bnd(a) for a, _ in ts]
        if any(lo is None or hi is None for lo, hi in bs):
            return None
        out = []
        for i, (a, k) in enumerate(ts):
            k *= sg
            lo_rest = sum(abs(ts[j][1]) * bs[j][0] for j in range(i + 1, len(ts)))
            hi_rest = sum(abs(ts[j][1]) * bs[j][1] for j in range(i + 1, len(ts)))
            if hi_rest - lo_rest >= k:
                return None
            d = (n - lo_rest) // k
            if d < bs[i][0] or d > bs[i][1]:
                return False
            out.append((a, d))
            n -= d * k
        return out if n == 0 else False

    def _solve(self, l):
        ds = self._digits(l)
        if ds is False:
            return False
        if ds:
            for a, d in ds:
                e = eq0(self.norm(L(a)) - d)
                if e is False or e is not True and not self._add(e):
                    return False
            return True
        cand = [(a, k) for a, k in l.t if abs(k) == 1]
        # prefer index / generated atoms, then plain variables
        order = {"ix": 0, "first": 0, "gen": 1, "discr": 2, "var": 3, "len": 4, "bits": 5, "val": 6}

        def ok(a):
            rest = [b for b, _ in l.t if b is not a]
            return not any(a in b.deps or a is b for b in rest)
        cand = [x for x in cand if ok(x[0])]
        cand.sort(key=lambda x: (x[0] not in PREFER, order.get(x[0].key[0], 9), -x[0].id))
        if not cand:
            self.ineqs = self.ineqs + (l, -l)
            return True
        a, k = cand[0]
        rest = Lin(l.c, tuple(x for x in l.t if x[0] is not a))
        val = rest.scale(-1) if k == 1 else rest
        # value must be inside the bounds of a
        lo, hi = self.bnd(a)
        if lo is not None:
            h = hi_of(val, self.bnd)
            if h is not None and h < lo:
                return False
            if val.const is None and not self.prove_ge(val - lo, 1):
                self.ineqs = self.ineqs + (val - lo,)
        if hi is not None:
            w = lo_of(val, self.bnd)
            if w is not None and w > hi:
                return False
            if val.const is None and not self.prove_ge(K(hi) - val, 1):
                self.ineqs = self.ineqs + (K(hi) - val,)
        return self._rewrite(a, val)

    def _rewrite(self, a, val):
        m = {a: val}
        rew = {}
        for b, w in self.rew.items():
            rew[b] = subst(w, m)
        rew[a] = val
        self.rew = rew
        ineqs, fresh = [], []
        for f in self.ineqs:
            g = ge0(subst(f, m))
            if g is False:
                return False
            if g is True:
                continue
            ineqs.append(g[1])
            if g[1] != f:
                fresh.append(g[1])
        self.ineqs = tuple(ineqs)
        for f in fresh:
            self._tighten(f)
        nes = set()
        for x in self.nes:
            e = eq0(subst(x, m))
            if e is True:
                return False
            if e is False:
                continue
            if e[0] == "eq":
                nes.add(e[1])
        self.nes = frozenset(nes)
        if self.bools:
            nb = {}
            for t, v in self.bools.items():
                t2 = subst(t, m)
                if t2 in nb and nb[t2] != v:
                    return False
                nb[t2] = v
            self.bools = nb
        for f in fresh:
            for b, _ in f.t:
                lo, hi = self.bnd(b)
                if lo is not None and hi is not None and lo >= hi and b not in self.rew:
                    if lo > hi or not self._rewrite(b, K(lo)):
                        return False
        # if atom is a bit slice etc. nothing else to do
        if val.const is not None and a.key[0] == "bits":
            return self._top_slice(a.key, val.const)
        return True

    def _top_slice(self, k, v):
        """the leading bits of a value bound it"""
        base = k[1]
        if base in self.rew or width_of(base) != k[2] + k[3]:
            return True
        lo, hi = self.bnd(base)
        lo2, hi2 = max(lo, v << k[2]), min(hi, ((v + 1) << k[2]) - 1)
        if lo2 > hi2:
            return False
        if (lo2, hi2) != (lo, hi):
            self.bnds = dict(self.bnds)
            self.bnds[base] = (lo2, hi2)
            for f in self.ineqs:
                if any(a is base for a, _ in f.t):
                    self._tighten(f)
        return True

    def dom_ok(self):
        """finite-domain atoms: drop excluded values; False when a domain becomes empty"""
        touched = set()
        for x in self.nes:
            if len(x.t) == 1 and x.t[0][0] in DOM:
                touched.add(x.t[0][0])
        for a in self.bnds:
            if a in DOM:
                touched.add(a)
        for a in touched:
            if a in self.rew:
                continue
            lo, hi = self.bnd(a)
            vals = [v for v in DOM[a] if (lo is None or v >= lo) and (hi is None or v <= hi) and Lin(-v, ((a, 1),)) not in self.nes]
            if not vals:
                return False
            if len(vals) == 1:
                if not self._rewrite(a, K(vals[0])):
                    return False
            elif min(vals) != lo or max(vals) != hi:
                self.bnds = dict(self.bnds)
                self.bnds[a] = (min(vals), max(vals))
        return True

    def _drop_ne_edges(self):
        for x in self.nes:
            if len(x.t) == 1 and x.t[0][1] == 1:
                a = x.t[0][0]
                v = -x.c
                lo, hi = self.bnd(a)
                ch = False
                if lo is not None and lo == v:
                    lo += 1
                    ch = True
                if hi is not None and hi == v:
                    hi -= 1
                    ch = True
                if ch:
                    self.bnds = dict(self.bnds)
                    self.bnds[a] = (lo, hi)
