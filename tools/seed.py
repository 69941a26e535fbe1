#!/usr/bin/env python3
"""seed.py SPEC.py: build seeded changes in a scratch copy of /repo, confirm them, store them.

A spec defines a list BUGS of dicts: id, property, edits=[(file, old, new)], demo (Rust main), needs, breaks, features."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# builds main.rs against the library in /repo and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -e /repo/Cargo.lock ] && cp /repo/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "seed-demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
maybe-dns = { path = "/repo", features = [%s] }
%s
EOT
cd "$d" && timeout 250 cargo run --offline -q
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        one(b)
    sh("git -C /repo checkout -- .")


def demo(d):
    return sh("bash %s/demo.sh" % d, cwd="/repo")


def one(b):
    sh("git -C /repo checkout -- .")
    d = "/tmp/seeddemo/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    f = b.get("features", ["mdns", "dnssec"])
    open(d + "/demo.sh", "w").write(DEMO % (", ".join('"%s"' % x for x in f), b.get("deps", "")))
    open(d + "/main.rs", "w").write(b["demo"])
    r0 = demo(d)
    if r0.returncode != 0:
        print(b["id"], "DEMO FAILS ON CLEAN TREE", (r0.stdout + r0.stderr)[-1500:])
        return
    try:
        for fn, old, new in b["edits"]:
            p = "/repo/" + fn
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT", fn, "matches", s.count(old))
                return
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        t = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedout.json")
        try:
            o = json.load(open("/tmp/seedout.json"))
        except Exception:
            print(b["id"], "BUILD", t.stdout[-2500:] + t.stderr[-2500:])
            return
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base["stable"])
        got = set(o.get("passed", []))
        if not want <= got:
            print(b["id"], "TESTS FAIL", sorted(want - got)[:5])
            return
        r1 = demo(d)
        if r1.returncode == 0:
            print(b["id"], "DEMO DOES NOT FAIL")
            return
        if "error: could not compile" in r1.stderr or "error[E" in r1.stderr:
            print(b["id"], "DEMO BUILD", r1.stderr[-1500:])
            return
        # which checks see it
        hits = []
        for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
            if b["property"] != c["property"] and not os.environ.get("SEED_ALL"):
                continue
            x = sh(c["quick_cmd"], cwd=V)
            hits.append("%s=%d%s" % (c["property"], x.returncode, " " + x.stdout.strip().splitlines()[1][:160] if x.returncode == 1 else ""))
    finally:
        sh("git -C /repo checkout -- .")
    out = "%s/seeded/%s" % (V, b["id"])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    shutil.copy(d + "/demo.sh", out)
    shutil.copy(d + "/main.rs", out)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"], "caught_by": [h.split("=")[0] for h in hits if h.split("=")[1][0] == "1"]}, open(out + "/meta.json", "w"), indent=1)
    print(b["id"], "OK", "; ".join(hits))


main()
