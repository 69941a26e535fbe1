#!/usr/bin/env python3
"""mut.py SPEC.py [-t] [ids]: try changes on scratch copies, eight at a time, and tell which checks speak up.

SPEC defines MUTS = [(id, file, old, new, "P01,P02" expected | "" for a refactoring)], file/old/new possibly lists.
-t also runs the repository's tests in the copy.  Development aid only; no check reads this."""
import json
import os
import shutil
import subprocess
import sys
import threading
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut%d" % os.getpid()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    tests = "-t" in sys.argv
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    muts = [m for m in spec["MUTS"] if not only or m[0] in only]
    checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    extra = os.environ.get("MUT_CHECKS")
    q = queue.Queue()
    for m in muts:
        q.put(m)
    lock = threading.Lock()
    res = {}

    def worker(n):
        w = "%s/%d" % (W, n)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        sh("rsync -a --exclude seeded --exclude evidence --exclude .git %s/ %s/verif/" % (V, w) if shutil.which("rsync") else "mkdir -p %s/verif && cd %s && tar c --exclude=./seeded --exclude=./.git . | tar x -C %s/verif" % (w, V, w))
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            id, files, olds, news, want = m
            if isinstance(olds, str):
                olds, news = [olds], [news]
            if isinstance(files, str):
                files = [files] * len(olds)
            shutil.rmtree(w + "/repo", ignore_errors=True)
            sh("mkdir %s/repo && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C %s/repo" % (w, w))
            bad = None
            for f, o, nw in zip(files, olds, news):
                p = "%s/repo/%s" % (w, f)
                s = open(p).read()
                if s.count(o) < 1:
                    bad = "EDIT %s matches %d" % (f, s.count(o))
                    break
                open(p, "w").write(s.replace(o, nw) if o.count("\n") == 0 and "ALL" in id else s.replace(o, nw, 1))
            out = []
            if not bad and tests:
                t = sh("cargo test --offline --all-features 2>&1 | grep -E '^test result|error' | head -5", cwd=w + "/repo", env=dict(os.environ, CARGO_TARGET_DIR=w + "/tt"))
                if "FAILED" in t.stdout or "error" in t.stdout:
                    out.append("TESTS:" + t.stdout[:150].replace("\n", " "))
            if not bad:
                cs = extra.split(",") if extra else (want.split(",") if want and not os.environ.get("MUT_ALL") else checks)
                for c in cs:
                    x = sh("python3 check.py %s quick" % c, cwd=w + "/verif", env=dict(os.environ, SA_REPO=w + "/repo"))
                    if x.returncode == 2:
                        out.append("BUILD " + x.stdout[-700:])
                        break
                    l = [y for y in x.stdout.splitlines() if y.startswith("  ")]
                    und = x.stdout.split(" undecided")[0].split(", ")[-1]
                    out.append("%s=%d(u%s)%s" % (c, x.returncode, und, " " + l[0][:260] if x.returncode == 1 and l else ""))
                    if x.returncode == 1 and os.environ.get("MUT_FIRST"):
                        break
            with lock:
                ok = bad or any("BUILD" in x or "TESTS" in x for x in out)
                hit = [x for x in out if "=1(" in x]
                tag = "??" if ok else ("caught" if hit else "MISSED") if want else ("ALARM" if hit else "quiet")
                res[id] = tag
                print("%-8s %s: %s" % (tag, id, bad or "\n      ".join(hit or out) if want or tag != "quiet" else ""), flush=True)
        shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(n,)) for n in range(min(int(os.environ.get('MUT_N', 4)), len(muts)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print({k: sum(1 for v in res.values() if v == k) for k in set(res.values())})


main()
