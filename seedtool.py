#!/usr/bin/env python3
"""seedtool.py SPEC.py [ID..]: makes /verif/seeded/<id>/ from specs and verifies each one in a scratch copy of /repo.
A spec file calls B(id, property, edits, needs, breaks, demo, flags) where edits is [(file, old, new)]."""
import re, sys, os, subprocess, shutil, tempfile, json, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
SPECS = []
def B(id, prop, edits, needs, breaks, demo, flags="-fsanitize=address"): SPECS.append((id, prop, edits, needs, breaks, demo, flags))
DEMO_SH = r'''#!/bin/bash
# cwd /repo, after build.sh. Exit 0: behaves as it should.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
cfg=$(dirname "$(dirname "$(find "$PWD/_build/main" -name lcu_build_config.h | head -1)")")
srcs=$(find src -name '*.c' ! -path '*win*' ! -name '*windows*')
gcc -g -w -std=gnu11 -D_GNU_SOURCE -D_DEBUG -I inc -I "$cfg" -I . @FLAGS@ "$d/demo.c" $srcs -o "$t/demo" -lpthread -lm -ldl || exit 99
cd "$t" && ASAN_OPTIONS=detect_leaks=@LEAKS@ timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(s):
    id, prop, edits, needs, breaks, demo, flags = s
    out = os.path.join(V, "seeded", id)
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp"); r = w + "/repo"
    try:
        sh("cp -a /repo " + r)
        for f, old, new in edits:
            p = r + "/" + f; t = open(p, newline="").read(); crlf = "\r\n" in t
            if crlf: t = t.replace("\r\n", "\n")
            if t.count(old) != 1: return id, "edit matches %d times in %s" % (t.count(old), f)
            t = t.replace(old, new)
            open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
        patch = sh("git -C %s diff --binary" % r).stdout
        patch = subprocess.run(["git", "-C", r, "diff"], capture_output=True).stdout
        for f, old, new in edits:   # lines of the original repository only
            l0 = sh("git -C /repo show HEAD:%s" % f).stdout.replace("\r\n", "\n").split(old)[0].count("\n") + 1
            l1 = l0 + old.rstrip("\n").count("\n")
            bl = sh("git -C /repo blame -s -L %d,%d HEAD -- %s" % (l0, l1, f)).stdout.strip().split("\n")
            print(id, sum(not x.startswith("^") for x in bl), "of", len(bl), "context lines are newer than the original") if any(not x.startswith("^") for x in bl) else 0
        for x in ("build", "test"):
            t = open("/opt/vp/%s.sh" % x).read().replace("/opt/vp/build.sh", w + "/build.sh"); t = re.sub(r"/repo\b(?!rt)", r, t)
            open(w + "/%s.sh" % x, "w").write(t)
        sh("rm -rf %s/_build" % r)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(patch)
        open(out + "/demo.c", "w").write(demo)
        open(out + "/demo.sh", "w").write(DEMO_SH.replace("@FLAGS@", flags.replace("LEAKS", "")).replace("@LEAKS@", "1" if "LEAKS" in flags else "0"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        d0 = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        if d0.returncode: return id, "demo fails on the clean tree (%d): %s" % (d0.returncode, (d0.stdout + d0.stderr)[-1500:])
        b = sh("bash %s/build.sh" % w)
        if b.returncode: return id, "does not build: " + (b.stdout + b.stderr)[-800:]
        d1 = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
        if d1.returncode in (0, 99): return id, "demo does not fail: %d %s" % (d1.returncode, (d1.stdout + d1.stderr)[-800:])
        t = sh("bash %s/test.sh %s/o.json" % (w, w))
        o = json.load(open(w + "/o.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [x for x in st if x not in o["passed"]]
        if miss: return id, "stable tests fail: %d %s %s" % (len(miss), str(miss[:4]), (t.stdout+t.stderr)[-300:])
        c = subprocess.run(["python3", V + "/check.py", prop], cwd=V, env=dict(os.environ, HX_REPO=r), capture_output=True, text=True)
        return id, "ok, demo says: %s | check %s: %s" % ((d1.stdout + d1.stderr).strip()[:120].replace("\n", " "), "CAUGHT" if c.returncode == 1 else "missed (%d)" % c.returncode, c.stdout.strip().split("\n")[0][:200])
    finally:
        shutil.rmtree(w)
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    todo = [s for s in SPECS if len(sys.argv) < 3 or s[0] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for id, m in ex.map(one, todo): print(id, "|", m, flush=True)
