#!/usr/bin/env python3
"""automut.py SEED N OUT.py: N random small changes of the library's code that build and pass its tests, as a spec for mut.py.  Development aid only."""
import os, random, re, shutil, subprocess, sys
W = "/tmp/automut%d" % os.getpid()
OPS = [
    (r" < ", [" <= ", " != "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != ", " >= "]), (r" != ", [" == ", " > "]),
    (r" \+ ", [" - ", " | "]), (r" - ", [" + "]), (r" & ", [" | "]), (r" \| ", [" ^ ", " + "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\b(\d+)\b(?![\]\w.])", [lambda m: str(int(m.group(1)) + 1), lambda m: str(max(0, int(m.group(1)) - 1))]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"extract_u16\(\)", ["extract_u8()"]), (r"\.remaining\(\)", [".len()"]), (r"as u8\b", ["as u8 & 0x7f"]), (r"as u16\b", ["as u8 as u16"]),
    (r"to_be_bytes", ["to_le_bytes"]), (r"\.iter\(\)", [".iter().skip(1)", ".iter().take(3)", ".iter().rev()"]), (r"^\s*[a-z_.]+(\([^;{}]*\))?[^;{}=]*;$", [""]),
    (r"\.is_empty\(\)", [".len() == 1"]), (r"\.len\(\)", [".len().min(127)"]), (r"!(?=[a-z(])(?<![=\w]!)", [""]),
]


def code(f):
    """line numbers that are library code"""
    out = []
    for n, l in enumerate(open(f).read().split("\n")):
        if l.startswith("#[cfg(test)]"):
            break
        s = l.strip()
        if re.search(r"=> \d+,$|\d+ => Ok|^\w+ = \d+,", s.split("//")[0].strip()):
            continue
        if s and not s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod")):
            out.append(n)
    return out


def main():
    random.seed(int(sys.argv[1]))
    files = subprocess.check_output("cd /repo && find src -name '*.rs'", shell=True, text=True).split()
    files = sorted(f for f in files if not f.endswith("lib.rs"))
    os.makedirs(W)
    subprocess.run("cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C %s" % W, shell=True)
    spots = [(f, n) for f in files for n in code("/repo/" + f)]
    got, seen = [], set()
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/target")
    while len(got) < int(sys.argv[2]):
        f, n = random.choice(spots)
        lines = open("/repo/" + f).read().split("\n")
        l = lines[n]
        c = [(p, r) for p, rs in OPS for r in rs if re.search(p, l.split("//")[0])]
        if not c:
            continue
        p, r = random.choice(c)
        ms = list(re.finditer(p, l.split("//")[0]))
        m = random.choice(ms)
        x = l[:m.start()] + (r(m) if callable(r) else r) + l[m.end():]
        if x == l or (f, n, x) in seen:
            continue
        seen.add((f, n, x))
        lo, hi = n, n + 1
        src = "\n".join(lines)
        while src.count("\n".join(lines[lo:hi])) > 1:
            lo, hi = lo - 1, hi + 1
        old = "\n".join(lines[lo:hi])
        new = "\n".join(lines[lo:n] + [x] + lines[n + 1:hi])
        open(W + "/" + f, "w").write(src.replace(old, new, 1))
        t = subprocess.run("timeout 120 cargo test --offline --all-features --lib 2>&1 | grep -E '^test result|^error' | head -5", shell=True, cwd=W, env=env, capture_output=True, text=True).stdout
        open(W + "/" + f, "w").write(src)
        if "ok." in t and "FAILED" not in t and "error" not in t:
            got.append(("g%d" % len(got), f, old, new, "?"))
            print(f, n + 1, x.strip()[:90], flush=True)
    with open(sys.argv[3], "w") as o:
        o.write("MUTS = [\n" + "".join("    %r,\n" % (g,) for g in got) + "]\n")
    shutil.rmtree(W)


main()
