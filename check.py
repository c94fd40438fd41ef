#!/usr/bin/env python3
"""check.py ID            run the check of one property (tier from VERIF_TIER)
   check.py --replay FILE   re-run one recorded counterexample, printing its trace
   check.py --setup         sanity check of the toolchain

Builds /repo's current working tree in a scratch directory, explores it with the
harnesses registered below and rewrites evidence/<ID>.json.
Exit 0: held on everything explored; 1: VIOLATION line; 2: the machinery failed."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HX_REPO", "/repo")
sys.path.insert(0, VERIF)
from registry import PROPS, ENGINES

BASE = ["-std=gnu11", "-D_GNU_SOURCE", "-D_DEBUG", "-D_PLATFORM=linux", "-D_PLATFORM_ABI=x64",
        "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-g", "-w", "-fno-pie", "-fno-common",
        "-fno-omit-frame-pointer", "-fno-stack-protector", "-fcf-protection=none"]


class Broken(Exception):
    pass


class NoBuild(Broken):
    """a program that uses the library as documented, or one of its build flavours, does not compile"""


def run_user(cmd):
    try:
        return run(cmd)
    except Broken as e:
        raise NoBuild(str(e)) if re.search(r": error: |undefined reference", str(e)) else e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise Broken("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def gen_config(dst):
    os.makedirs(os.path.join(dst, "config"), exist_ok=True)
    for t in glob.glob(REPO + "/inc/config/*.h.in"):
        s = open(t, encoding="utf-8", errors="replace").read()
        s = re.sub(r"@PRJ_WIN_PTHREAD_MODE@", "0", s)
        s = re.sub(r"@\w+@", "hx", s)
        open(os.path.join(dst, "config", os.path.basename(t)[:-3]), "w").write(s)


def build(part, out):
    """one harness binary: repo objects (instrumented, rerouted) + engine + harness"""
    eng = ENGINES[part["engine"]]
    gen = os.path.join(out, "gen")
    gen_config(gen)
    inc = ["-I" + REPO + "/inc", "-I" + gen, "-I" + os.path.join(VERIF, "lib")]
    objdir = os.path.join(out, "obj")
    os.makedirs(objdir)
    srcs = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True) + glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if not srcs:
        raise Broken("no sources under %s/src" % REPO)
    jobs = []
    objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(objdir, "%03d_%s.o" % (i, os.path.basename(s)))
        objs.append(o)
        jobs.append(["gcc"] + BASE + eng["repo_flags"] + part.get("repo_flags", []) + inc + ["-c", s, "-o", o])
    # harness code that must itself be scheduled/instrumented goes in with the repo objects
    har = os.path.join(VERIF, "harness", part["file"])
    ho = os.path.join(objdir, "harness.o")
    jobs.append(["gcc"] + BASE + eng["harness_flags"] + part.get("flags", []) + inc + ["-I" + os.path.join(VERIF, "harness"), "-c", har, "-o", ho])
    # other flavours are built only after the plain one was: what fails then is the library
    lib = run_user if part.get("flavour") else run
    user = set()
    xobjs = []
    for k, (xf, fl) in enumerate(part.get("more", [])):
        xobjs.append(os.path.join(objdir, "x%d.o" % k))
        jobs.append(["gcc"] + BASE + eng["harness_flags"] + fl + inc + ["-I" + os.path.join(VERIF, "harness"), "-x", "c", "-c", os.path.join(VERIF, "harness", xf), "-o", xobjs[-1]])
        user.add(xobjs[-1])
    iobjs = []
    for e in eng.get("inner_sources", []):
        iobjs.append(os.path.join(objdir, "i_" + e + ".o"))
        jobs.append(["gcc"] + BASE + eng["repo_flags"] + inc + ["-c", os.path.join(VERIF, "lib", e), "-o", iobjs[-1]])
    eobjs = []
    for e in ["core.c"] + eng["sources"] + part.get("sources", []):
        o = os.path.join(objdir, "e_" + e + ".o")
        eobjs.append(o)
        fl = eng["engine_flags"] if e != "core.c" else ["-O2"]
        jobs.append(["gcc"] + BASE + fl + inc + ["-c", os.path.join(VERIF, "lib", e), "-o", o])
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run_user if j[-1] in user else lib if j[-1] in objs else run, j) for j in jobs]:
            f.result()
    inner = objs + iobjs + ([ho] if eng["harness_inside"] else [])
    comb = os.path.join(out, "repo_raw.o")
    run(["ld", "-r", "-o", comb] + inner)
    redef = os.path.join(out, "redef.txt")
    with open(redef, "w") as f:
        for a, b in dict(eng["redefine"], **part.get("redefine", {})).items():
            f.write("%s %s\n" % (a, b))
    comb2 = os.path.join(out, "repo.o")
    run(["objcopy", "--redefine-syms=" + redef, "--rename-section", ".data=hxdata",
         "--rename-section", ".bss=hxbss,alloc", comb, comb2])
    binp = os.path.join(out, "bin")
    lib(["gcc", "-no-pie", "-g"] + eng["link_flags"] + ["-o", binp, comb2] + ([] if eng["harness_inside"] else [ho]) + xobjs + eobjs
        + ["-lpthread", "-lm", "-ldl"] + part.get("libs", []))
    return binp


def known_for(pid):
    keys = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                keys.append((m.group(2), m.group(3).strip()))
    return keys


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:print_legend=0:detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=8:handle_abort=0:fast_unwind_on_malloc=1"
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e


def sample_text(binp, vec, out):
    tr = os.path.join(out, "sample.trace")
    subprocess.run([binp, "--replay", vec, "--trace", tr, "--errdir", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(), cwd=out)
    try:
        return [l.rstrip("\n") for l in open(tr, errors="replace")][:60]
    except OSError:
        return []


def check(pid):
    prop = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="hx_%s_" % pid)
    os.chmod(scratch, 0o755)
    rc = 0
    scen = []
    samples = []
    viol = None
    known = known_for(pid)
    seen = set()
    try:
        for i, part in enumerate(prop["parts"]):
            if tier == "quick" and part.get("thorough_only"):
                continue
            out = os.path.join(scratch, "p%d" % i)
            os.makedirs(out)
            try:
                binp = build(part, out)
            except NoBuild as e:
                tr = os.path.join(out, "viol.trace")
                open(tr, "w").write(str(e))
                first = [l for l in str(e).split("\n") if re.search(r": error: |undefined reference", l)]
                viol = ({"name": "build", "bound": 0, "vector": "", "key": "does-not-build", "message": first[0] if first else str(e)[:300]}, tr, part)
                break
            work = os.path.join(out, "work")
            os.makedirs(work)
            js = os.path.join(out, "out.json")
            tr = os.path.join(out, "viol.trace")
            budget = part.get("budget", 500) if tier == "quick" else part.get("budget_thorough", 3000)
            left = 800 - (time.time() - t0) if tier == "quick" else 1e9
            cmd = [binp, "--tier", tier, "--out", js, "--errdir", out, "--trace", tr, "--budget", str(max(5, min(budget, left))),
                   "--workers", str(part.get("workers", os.cpu_count() or 8))]
            for k, _ in known:
                cmd += ["--known", k]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env(), cwd=work)
            try:
                res = json.load(open(js))
            except Exception:
                raise Broken("explorer gave no result (exit %d)\n%s" % (p.returncode, p.stdout[-2000:]))
            seen |= set(res["known_seen"])
            for s in res["scenarios"]:
                s["part"] = part["file"] + (" " + " ".join(part.get("flags", [])) if part.get("flags") else "") + (", " + part["flavour"] if part.get("flavour") else "")
                scen.append(s)
                if s["verdict"] == 1 and not viol:
                    viol = (s, tr, part)
                elif s["verdict"] == 2:
                    print("MACHINERY: %s %s: %s\n  on replay: %s" % (pid, s["name"], s.get("message"), s.get("replay_message")))
                    rc = 2
            if viol or rc:
                break
            for s in res["scenarios"]:
                if len(samples) < 6 and s.get("samples"):
                    samples.append({"scenario": s["name"], "vector": s["samples"][-1][:400], "trace": sample_text(binp, s["samples"][-1], out)})
        if viol:
            s, tr, part = viol
            os.makedirs(VERIF + "/replays", exist_ok=True)
            rp = VERIF + "/replays/%s.json" % pid
            trace = open(tr, errors="replace").read().split("\n")[:4000] if os.path.exists(tr) else []
            json.dump({"property": pid, "part": prop["parts"].index(part), "vector": s["vector"], "key": s["key"],
                       "message": s["message"], "trace": trace}, open(rp, "w"), indent=1)
            print("%s: scenario %s, %d deviation(s): %s\n%s" % (pid, s["name"], s["bound"], s["key"], s["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        write_evidence(pid, prop, tier, seed, scen, samples, time.time() - t0, 1 if viol else 0)
        if rc == 0:
            for k, text in known:
                if k in seen:
                    print("KNOWN-FINDING: property=%s %s" % (pid, text))
            print("%s: held; %d scenarios, %d executions, %d states, %.1f s" % (
                pid, len(scen), sum(s.get("executions", 0) for s in scen), sum(s.get("states", 0) for s in scen), time.time() - t0))
    except Broken as e:
        print("MACHINERY: %s: %s" % (pid, e))
        rc = 2
    finally:
        if os.environ.get("HX_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


def write_evidence(pid, prop, tier, seed, scen, samples, wall, viols):
    g = lambda k: sum(s.get(k, 0) for s in scen)
    cov = {
        "states": g("states"), "transitions": g("transitions"),
        "traces_validated_against_impl": g("executions"),
        "oracle_comparisons": g("comparisons"),
        "distinct_outcomes": g("outcomes"), "choice_points": g("choice_points"),
        "rule": "every vector of choices within the bounds named per scenario is executed on the real code; states: distinct hashes reported at the named points; no sampling",
        "exhaustive": bool(scen) and not any(s.get("capped") for s in scen) and not viols,
        "samples": samples or [{"vector": s.get("vector", "")[:400]} for s in scen if s.get("vector")] or ["none"],
        "scenarios": [{k: s[k] for k in ("name", "part", "desc", "bound", "executions", "states", "transitions", "comparisons", "outcomes", "longest", "pruned", "capped", "wall_s", "key", "vector") if k in s} for s in scen],
        "bounds": "bound = number of deviations (preemptions / injected faults / non-default environment answers) fully explored per scenario",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"), "coverage": cov,
          "assumptions": prop.get("assumptions", []), "wall_s": round(wall, 2), "violations": viols}
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)


def replay(path):
    r = json.load(open(path))
    part = PROPS[r["property"]]["parts"][r["part"]]
    scratch = tempfile.mkdtemp(prefix="hx_replay_")
    try:
        try:
            binp = build(part, scratch)
        except NoBuild as e:
            print(e)
            return 1
        p = subprocess.run([binp, "--replay", r["vector"], "--trace", "/dev/stdout", "--errdir", scratch], env=env(), cwd=scratch, text=True, stdout=subprocess.PIPE)
        print(p.stdout)
        err = os.path.join(scratch, "err.replay.31")
        if os.path.exists(err):
            print(open(err, errors="replace").read()[:6000])
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    for t in ("gcc", "ld", "objcopy", "cmake"):
        if not shutil.which(t):
            print("missing", t)
            return 2
    d = tempfile.mkdtemp(prefix="hx_setup_")
    try:
        for f in glob.glob(VERIF + "/lib/*.c"):
            run(["gcc", "-w", "-std=gnu11", "-D_GNU_SOURCE", "-I" + VERIF + "/lib", "-fsyntax-only", f])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print("ok")
    return 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--replay"]:
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1:2] == ["--setup"]:
        sys.exit(setup())
    if sys.argv[1:2] == ["--thorough"]:
        os.environ["VERIF_TIER"] = "thorough"
        del sys.argv[1]
    elif not os.environ.get("HX_TIER_ENV"):
        os.environ["VERIF_TIER"] = "quick"
    try:
        sys.exit(check(sys.argv[1]))
    except Exception as e:  # never let a machinery problem look like a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
