import re
"""Loader and pretty printer for the MIR dump written by the driver."""
import json, sys


def mut_params(s):
    """positions of the parameters of a function type's text that are mutable references"""
    a = s.find("fn(")
    if a < 0:
        return []
    depth, k, start, out = 0, a + 3, a + 3, []
    prev = ""
    while k < len(s):
        ch = s[k]
        if ch in "([<{":
            depth += 1
        elif ch in ")]}" or (ch == ">" and prev != "-"):
            depth -= 1
        if depth < 0 or (ch == "," and depth == 0):
            out.append(s[start:k].strip())
            start = k + 1
            if depth < 0:
                break
        prev = ch
        k += 1
    return [n for n, x in enumerate(out) if re.match(r"&('\w+ )?mut ", x)]


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.types = d["types"]
        self.insts = d["insts"]
        self.generic = d["generic"]
        self.statics = d["statics"]
        for i, t in enumerate(self.types):
            t["id"] = i
        for i, t in enumerate(self.insts):
            t["id"] = i
        for t in self.types:
            if t["k"] == "fndef" and t.get("inst") is not None and "muts" not in self.insts[t["inst"]]:
                self.insts[t["inst"]]["muts"] = mut_params(t["s"])
        self.by_name = {}
        for x in self.insts:
            self.by_name.setdefault(x["name"], x)
        self.adt_by_def = {}
        for t in self.types:
            if t["k"] == "adt":
                self.adt_by_def.setdefault(t["def"], []).append(t)

    def adt_variant(self, d, i):
        for t in self.adt_by_def.get(d, []):
            if t.get("v"):
                return t["v"][i]["n"] if i < len(t["v"]) else None
        return None

    def local_fns(self):
        return [x for x in self.insts if x["crate"] == self.crate and "body" in x]

    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        return self.types[i]["s"]

    def pp(self, inst, out=sys.stdout):
        b = inst["body"]
        w = out.write
        w("fn %s  [%s]\n" % (inst["name"], inst["span"]))
        names = {}
        for l, n in b["names"]:
            names[l] = n
        for i, t in enumerate(b["locals"]):
            w("  _%d%s: %s\n" % (i, "(%s)" % names[i] if i in names else "", self.tname(t)))
        for bi, bb in enumerate(b["bb"]):
            w(" bb%d:\n" % bi)
            for s in bb["s"]:
                w("    %s\n" % self.st(s))
            w("    %s\n" % self.term(bb["t"]))

    def pl(self, p):
        s = "_%d" % p[0]
        for e in p[1:]:
            if e == "*":
                s = "(*%s)" % s
            elif e[0] == "f":
                s += ".%d" % e[1]
            elif e[0] == "d":
                s += " as v%d" % e[1]
            elif e[0] == "i":
                s += "[_%d]" % e[1]
            else:
                s += "%s" % (e,)
        return s

    def op(self, o):
        if o[0] == "c":
            return self.pl(o[1])
        if o[0] == "m":
            return "move " + self.pl(o[1])
        if o[0] == "k":
            t = self.types[o[1]]
            if t["k"] == "fndef":
                i = t["inst"]
                return "fn{%s}" % (self.insts[i]["name"] if i is not None else t["s"])
            v = o[2]
            return "const(%s:%s)" % (t["s"], str(v)[:60])
        return str(o)

    def rv(self, r):
        if r[0] == "use":
            return self.op(r[1])
        if r[0] in ("bin", "chk"):
            return "%s%s(%s, %s)" % (r[1], "?" if r[0] == "chk" else "", self.op(r[2]), self.op(r[3]))
        if r[0] == "ref":
            return "&%s%s" % ("mut " if r[1] else "", self.pl(r[2]))
        if r[0] == "agg":
            k = r[1]
            n = k[0] if k[0] not in ("adt", "closure") else self.tname(k[1]) + ("::%d" % k[2] if k[0] == "adt" else "")
            return "%s{%s}" % (n, ", ".join(self.op(x) for x in r[2]))
        if r[0] == "cast":
            return "cast[%s](%s) as %s" % (r[1], self.op(r[2]), self.tname(r[3]))
        if r[0] in ("discr", "len", "addr"):
            return "%s(%s)" % (r[0], self.pl(r[1]))
        if r[0] == "un":
            return "%s(%s)" % (r[1], self.op(r[2]))
        return str(r)

    def st(self, s):
        if s[0] == "=":
            return "%s = %s" % (self.pl(s[1]), self.rv(s[2]))
        return str(s)

    def term(self, t):
        if t[0] == "call":
            return "%s = call %s(%s) -> bb%s" % (self.pl(t[3]), self.op(t[1]), ", ".join(self.op(x) for x in t[2]), t[4])
        if t[0] == "switch":
            return "switch %s %s else bb%s" % (self.op(t[1]), t[2], t[3])
        if t[0] == "assert":
            return "assert %s == %s (%s) -> bb%s" % (self.op(t[1]), t[2], t[3], t[5])
        if t[0] == "drop":
            return "drop %s -> bb%s" % (self.pl(t[1]), t[2])
        return str(t)


if __name__ == "__main__":
    p = Program(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else None
    for x in p.insts:
        if pat is None:
            print(x["crate"], x["name"], "BODY" if "body" in x else "")
        elif pat in x["name"] and "body" in x:
            p.pp(x)
