"""Shared plumbing of the checks: locating functions by trait and type, building argument values."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from mir import Program
from interp import *
from models import Models
import seqs as S
import terms as T
from seqs import *
from terms import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_PROG = {}


def program(cfg):
    if cfg not in _PROG:
        p = Program("%s/build/%s.json" % (HERE, cfg))
        p.cfgname = cfg
        index(p)
        _PROG[cfg] = p
    return _PROG[cfg]


def last(s):
    """last path segment without generics"""
    s = re.sub(r"<.*", "", s.strip())
    return s.rstrip(":").split("::")[-1]


def index(p):
    p.impls = {}
    p.inherent = {}
    p.free = {}
    for i in p.insts:
        if i["crate"] != "maybe_dns" or "body" not in i:
            continue
        d = i["def"]
        if "{closure#" in d:
            continue
        m = re.match(r"^<(.+?) as (.+)>::(\w+)$", d)
        if m:
            ty, tr, meth = m.groups()
            tr0 = last(tr)
            arg = ""
            m2 = re.search(r"<(.*)>$", tr)
            if m2:
                arg = m2.group(1)
            p.impls.setdefault((tr0, meth), {}).setdefault(tyname(ty), []).append((arg, i))
        else:
            parts = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", d)).replace("::::", "::").split("::")
            parts = [x for x in parts if x]
            if len(parts) >= 2 and parts[-2][:1].isupper():
                p.inherent.setdefault((parts[-2], parts[-1]), []).append(i)
            else:
                p.free.setdefault(parts[-1], []).append(i)


def tyname(s):
    s = s.strip()
    s = re.sub(r"^&(mut )?('\w+ )?", "", s)
    return last(s)


def method(p, tname, trait, meth, arg=None):
    for a, i in p.impls.get((trait, meth), {}).get(tname, []):
        if arg is None or arg in a:
            return i
    return None


def inherent(p, tname, meth):
    l = p.inherent.get((tname, meth), [])
    return l[0] if l else None


def decoder(p, tname):
    return method(p, tname, "TryFrom", "try_from", "DnsBuffer")


def rty(i):
    return i["body"]["locals"][0]


def argty(i, n):
    return i["body"]["locals"][n + 1]


def ctx(p, **o):
    return Ctx(p, Models(), **o)


def buffer_ty(p):
    for n, t in enumerate(p.types):
        if t["k"] == "adt" and last(t["def"]) == "DnsBuffer":
            return n


def is_buffer(p, ty):
    t = p.types[ty]
    return t["k"] == "adt" and last(t["def"]) == "DnsBuffer"


def buffer_fields(p):
    """(type, index of the slice field, index of the position field)"""
    ty = buffer_ty(p)
    fs = p.types[ty]["v"][0]["f"]
    d = [n for n, f in enumerate(fs) if p.types[f[1]]["k"] == "ref"]
    q = [n for n, f in enumerate(fs) if p.types[f[1]]["k"] == "uint"]
    return ty, d, q


def mk_buffer(p, st, pieces, pos, cell=("B", 0)):
    """a cursor over the given bytes; returns the &mut reference"""
    ty, d, q = buffer_fields(p)
    assert len(d) == 1 and len(q) == 1
    pieces = norm_pieces(tuple(pieces), u8_ty())
    n = pieces_len(pieces)
    fs = [None] * 2
    fs[d[0]] = ("sl", ("C", ("seq", pieces, u8_ty())), (), ZERO, n)
    fs[q[0]] = pos
    st.mem[cell] = ("adt", ty, 0, tuple(fs))
    return ("ref", cell, ())


def buf_pos(p, st, cell=("B", 0)):
    ty, d, q = buffer_fields(p)
    v = st.mem[cell]
    return v[3][q[0]], v[3][d[0]]


