#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decides one property by symbolic execution of /repo's current sources.

Builds the executor and the LLVM bitcode of the harness and of the repository sources named in specs.py, explores every
entry point of the property, replays what the solver found, and writes evidence/<ID>.json."""
import argparse
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
sys.path.insert(0, V)
NCPU = min(8, os.cpu_count() or 1)
CLANG = "clang++-18"
COMMON = ["-std=c++20", "-fno-exceptions", "-fno-rtti", "-D_NO_EXCEPTION", "-fno-access-control", "-w"]
BCF = ["-O1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-threadsafe-statics",
       "-gline-tables-only", "-emit-llvm"]
NATF = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function,null,nonnull-attribute,returns-nonnull-attribute"]
LIBS = ["-I" + V + "/stubs/lib", "-I" + V + "/rt", "-I" + V + "/harness"]
INC = ["-I" + REPO + "/src", "-I" + REPO + "/3rdparty", "-I" + REPO + "/3rdparty/bech32", "-I" + REPO + "/src/parsec"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)


def fhash(p, cache={}):
    if p not in cache:
        try:
            with open(p, "rb") as f:
                cache[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            cache[p] = "-"
    return cache[p]


class BuildError(Exception):
    pass


def compile_one(src, kind, extra):
    """Compile src to bitcode (kind 'bc') or to a native object (kind 'nat'); cached on the content of every header."""
    if kind == "bc":
        cmd = [CLANG] + COMMON + BCF + ["-I" + V + "/stubs/std"] + LIBS + INC + extra
        ext = ".bc"
    else:
        cmd = [CLANG] + COMMON + NATF + ["-DVERIF_NATIVE"] + LIBS + INC + extra
        ext = ".o"
    key = hashlib.sha256("\0".join([src] + cmd).encode()).hexdigest()[:20]
    d = os.path.join(B, kind)
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, os.path.basename(src).replace(".", "_") + "-" + key)
    out, dep, st = base + ext, base + ".d", base + ".hash"
    def state():
        if not os.path.exists(dep):
            return None
        deps = re.sub(r"\\\n", " ", open(dep).read()).split(":", 1)[1].split()
        return hashlib.sha256("".join(fhash(x) for x in deps).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == state():
        return out
    tmp = base + ".%d.tmp" % os.getpid()
    r = sh(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp])
    if r.returncode != 0:
        raise BuildError("%s does not compile for the check:\n%s" % (src, "\n".join([l for l in r.stderr.splitlines() if " error: " in l][:20] or [r.stderr[-3000:]])))
    os.rename(tmp, out)
    with open(st, "w") as f:
        f.write(state())
    return out


def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j4", "-C", os.path.join(V, "engine"), "BUILD=" + B])
        if r.returncode != 0:
            raise BuildError("engine: " + r.stderr[-2000:])


def expand(srcs):
    out = []
    for s in srcs:
        p = s if s.startswith("/") else os.path.join(REPO, "src", s)
        m = sorted(glob.glob(p))
        if not m:
            raise BuildError("missing source " + s)
        out += [x for x in m if x not in out]
    return out


def undefined(bcs):
    und, defd = set(), set()
    for f in bcs:
        r = sh(["llvm-nm-18", f])
        for l in r.stdout.splitlines():
            t = l.split()
            if len(t) == 2 and t[0] == "U":
                und.add(t[1])
            elif len(t) >= 2:
                defd.add(t[-1])
    return und - defd


def autolink(srcs, bcs, extra, pool):
    """Repository functions that are referenced but not defined by the listed sources: add the files beside them."""
    dirs = sorted({os.path.dirname(s) for s in srcs})
    missing = {u for u in undefined(bcs) if u.startswith(("_ZN4cbdc", "_ZNK4cbdc"))}
    if not missing:
        return []
    cand = [f for d in dirs for f in sorted(glob.glob(d + "/*.cpp")) if f not in srcs]
    res = []
    def one(f):
        try:
            bc = compile_one(f, "bc", extra)
        except BuildError:
            return None
        r = sh(["llvm-nm-18", "--defined-only", bc])
        names = {l.split()[-1] for l in r.stdout.splitlines() if l.strip()}
        return f if names & missing and "main" not in names else None
    for f in pool.map(one, cand):
        if f:
            res.append(f)
    return res


def run_symex(job):
    e, part, parts, bcs, ov, tier, tl, out, extra = job
    args = [os.path.join(B, "symex"), "-entry=" + e["fn"], "-src=" + REPO + "/", "-time=%g" % tl, "-out=" + out]
    if parts > 1:
        args.append("-part=%d/%d" % (part, parts))
    if not any(x.startswith("-steps=") for x in args):
        args.append("-steps=40000000")
    args += ["-seed=" + str(int(os.environ.get("VERIF_SEED", "1")))]
    for o in e.get("opts", {}).get(tier, e.get("opts", {}).get("any", [])):
        args.append(o)
    for o in ov:
        args.append("-override=" + o)
    args += extra + bcs
    t = time.time()
    try:
        r = sh(args, timeout=tl + 120)
        rc, err = r.returncode, r.stderr
        if os.environ.get("VERIF_CMD"):
            print(" ".join("'%s'" % a for a in args), file=sys.stderr)
            print(err[-3000:], file=sys.stderr)
    except subprocess.TimeoutExpired:
        rc, err = 99, "executor did not stop"
    try:
        j = json.load(open(out))
    except Exception:
        j = None
    return e, part, rc, err, j, time.time() - t


def native(spec, e, harness, srcs, defs, pool):
    """Native build of one harness: the entry, the replay runtime, the real sources, with sanitizers."""
    ls = [harness] + srcs + [V + "/rt/crypto.cpp"]
    objs = list(pool.map(lambda s: compile_one(s, "nat", defs if s == harness else []), ls))
    rt = compile_one(V + "/rt/replay_rt.cpp", "nat", ["-DVERIF_ENTRY=" + e["fn"]])
    exe = os.path.join(B, "nat", "run-%s-%d" % (e["fn"], os.getpid()))
    link = [CLANG, "-fsanitize=address,undefined", "-Wl,--no-demangle", "-o", exe] + objs + [rt] + spec.get("ldlibs", []) + ["-lpthread"]
    r = sh(link)
    und = sorted(set(re.findall(r"undefined reference to [`']([A-Za-z0-9_.$]+)'", r.stderr)))
    if r.returncode != 0 and und:
        # code no entry reaches (network stacks, ...) is left out: calling it traps
        asm = exe + "-undef.s"
        with open(asm, "w") as f:
            f.write(".text\n" + "".join(".globl %s\n%s:\n ud2\n .zero 64\n" % (u, u) for u in und) + '.section .note.GNU-stack,"",@progbits\n')
        r = sh(link + [asm])
        os.unlink(asm)
    if r.returncode != 0:
        raise BuildError("native link: " + r.stderr[-2000:])
    return exe


def run_native(exe, replay, timeout=20, exit_ok=False):
    env = dict(os.environ, VERIF_REPLAY=replay,
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=300:abort_on_error=0",
               UBSAN_OPTIONS="print_stacktrace=0")
    d = tempfile.mkdtemp(prefix="verif-nat-")
    try:
        r = sh([exe], env=env, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        return "timeout", "the run did not end within %d s" % timeout
    finally:
        shutil.rmtree(d, ignore_errors=True)
    txt = (r.stdout + r.stderr)[-3000:]
    if "REPLAY-OK" in r.stdout or (exit_ok and "REPLAY-EXIT" in r.stdout):
        return "ok", txt
    if "REPLAY-DIVERGED" in r.stdout:
        return "diverged", txt
    return "failed", txt


def xok(e):
    return any("-exit-ok" in v for v in e.get("opts", {}).values())


def findings():
    p = os.path.join(V, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--entry", action="append")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--time", type=float)
    ap.add_argument("--opt", help="options of the executor instead of those in specs.py")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    import specs
    spec = specs.SPECS[a.id]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    outdir = os.path.join(V, "out", a.id)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    pool = cf.ThreadPoolExecutor(NCPU)
    tierdef = ["-DTIER=%d" % (1 if a.tier == "thorough" else 0)]
    entries = [e for e in spec["entries"] if a.tier in e.get("tiers", ["quick", "thorough"])]
    if a.entry:
        entries = [e for e in entries if e["fn"] in a.entry]
    if a.opt is not None:
        entries = [dict(e, opts={"any": a.opt.split()}) for e in entries]
    try:
        eng = pool.submit(build_engine)
        rtf = [pool.submit(compile_one, V + "/rt/rt.cpp", "bc", ["-fno-access-control"]),
               pool.submit(compile_one, V + "/rt/crypto.cpp", "bc", [])]
        if spec.get("summaries", True):
            rtf.append(pool.submit(compile_one, V + "/rt/summaries.cpp", "bc", []))
        plans = {}
        for e in entries:
            hs = os.path.join(V, "harness", e["file"])
            srcs = expand(e.get("srcs", spec.get("srcs", [])))
            defs = tierdef + e.get("defs", [])
            plans[e["fn"]] = (hs, srcs, defs)
        futs = {}
        for fn, (hs, srcs, defs) in plans.items():
            for s in [hs] + srcs:
                k = (s, tuple(defs) if s == hs else ())
                if k not in futs:
                    futs[k] = pool.submit(compile_one, s, "bc", defs if s == hs else [])
        eng.result()
        rtb = [f.result() for f in rtf]
        for f in futs.values():
            f.result()
        bcs = {}
        al = {}
        for fn, (hs, srcs, defs) in plans.items():
            l = [futs[(s, tuple(defs) if s == hs else ())].result() for s in [hs] + srcs]
            ex = al.get(tuple(srcs))
            if ex is None:
                ex = autolink(srcs, l + rtb, [], pool)
                al[tuple(srcs)] = ex
            plans[fn] = (hs, srcs + ex, defs)
            bcs[fn] = l + [compile_one(s, "bc", []) for s in ex]
    except BuildError as x:
        log(str(x))
        print("ERROR property=%s the code could not be encoded" % a.id)
        return 2
    t_build = time.time() - t0
    # ---- exploration
    jobs = []
    for e in entries:
        parts = e.get("parts", {}).get(a.tier, 1) if isinstance(e.get("parts"), dict) else e.get("parts", 1)
        tl = e.get("time", {}).get(a.tier, 120 if a.tier == "quick" else 600)
        if a.time:
            tl = a.time
        for p in range(parts):
            jobs.append((e, p, parts, bcs[e["fn"]], rtb, a.tier, tl, os.path.join(outdir, "%s-%d.json" % (e["fn"], p)),
                         ["-v"] if a.v else []))
    agg = dict(paths=0, paths_assumed_away=0, forks=0, instructions=0, asserts_evaluated=0, assert_queries=0, queries=0,
               solver_calls=0, sat=0, unsat=0, unknown=0, context_switches=0, max_path_constraints=0, max_threads=0)
    solver_s = 0.0
    covers, missing_all, incomplete, functions, samples, viol = {}, {}, [], set(), [], []
    errors = []
    per = {}
    for e, part, rc, err, j, wall in pool.map(run_symex, jobs):
        if a.v:
            log(err)
        if j is None:
            errors.append("%s: executor failed (%s) %s" % (e["fn"], rc, err[-1500:]))
            continue
        for k in agg:
            agg[k] = max(agg[k], j[k]) if k.startswith("max_") else agg[k] + j[k]
        solver_s += j["solver_s"]
        covers.setdefault(e["fn"], set()).update(j["covers"])
        missing_all.setdefault(e["fn"], set()).update(j["covers"] + j["covers_missing"])
        incomplete += ["%s: %s" % (e["fn"], x) for x in j["incomplete"]]
        functions |= set(j["functions"])
        samples += [(e, x) for x in j["samples"]]
        viol += [(e, x) for x in j["violations"]]
        q = per.setdefault(e["fn"], dict(paths=0, wall_s=0, queries=0, solver_s=0))
        q["paths"] += j["paths"]
        q["queries"] += j["queries"]
        q["solver_s"] = round(q["solver_s"] + j["solver_s"], 2)
        q["wall_s"] = round(max(q["wall_s"], wall), 1)
    t_sym = time.time() - t0
    # ---- vacuity
    vac = []
    for e in entries:
        m = missing_all.get(e["fn"], set()) - covers.get(e["fn"], set())
        opt = set(e.get("optional_covers", []))
        for c in sorted(m - opt):
            vac.append((e, c))
    # ---- replay
    kf = [k for k in findings() if k.get("property") == a.id and k.get("status") == "open"]
    exes = {}
    def exe_for(e):
        if e["fn"] not in exes:
            hs, srcs, defs = plans[e["fn"]]
            try:
                exes[e["fn"]] = native(spec, e, hs, srcs, defs, pool)
            except BuildError as x:
                log("native replay not built:", str(x)[-1500:])
                exes[e["fn"]] = None
        return exes[e["fn"]]
    nviol = 0
    unconfirmed = []
    known = []
    seen = {}
    for e, v in viol:
        k = (e["fn"], v["kind"], v["msg"], v["where"] if v["kind"] != "assert" else "")
        if k in seen:
            continue
        seen[k] = 1
        path = os.path.join(outdir, "%s-%d.replay" % (e["fn"], len(seen)))
        with open(path, "w") as f:
            f.write(v["replay"] + "".join("# " + l + "\n" for l in v["trace"].splitlines()))
        how, txt = "none", ""
        if e.get("replay", spec.get("replay", "native")) == "native" and not a.no_native:
            exe = exe_for(e)
            if exe:
                how, txt = run_native(exe, path, exit_ok=xok(e))
                how = "native:" + how
        if not how.startswith(("native:failed", "native:timeout")):
            r = run_symex((e, 0, 1, bcs[e["fn"]], rtb, a.tier, 300, path + ".json", ["-replay=" + path]))
            j = r[4]
            ok = j is not None and any(x["kind"] == v["kind"] and x["msg"] == v["msg"] for x in j["violations"])
            how += " executor:" + ("failed" if ok else "not reproduced")
            if not ok:
                unconfirmed.append("%s: %s %s" % (e["fn"], v["kind"], v["msg"]))
                with open(path, "a") as f:
                    f.write("# replay: %s\n%s" % (how, "".join("# " + l + "\n" for l in txt.splitlines())))
                log("unconfirmed, not reported:", k, how, txt)
                continue
        with open(path, "a") as f:
            f.write("# replay: %s\n%s" % (how, "".join("# " + l + "\n" for l in txt.splitlines())))
        hit = None
        for q in kf:
            if q["entry"] == e["fn"] and q["kind"] == v["kind"] and q["msg"] == v["msg"] and q.get("where", "") in v["where"]:
                hit = q
        if hit:
            if hit["what"] not in known:
                known.append(hit["what"])
                print("KNOWN-FINDING: property=%s %s" % (a.id, hit["what"]))
            continue
        nviol += 1
        log("%s %s: %s at %s\n%s" % (e["fn"], v["kind"], v["msg"], v["where"], v["trace"]))
        print("VIOLATION property=%s replay=%s" % (a.id, path))
    if not incomplete and not errors and nviol == 0:
        for e, c in vac:
            path = os.path.join(outdir, "%s-unreachable-%s.replay" % (e["fn"], re.sub(r"\W+", "_", c)))
            with open(path, "w") as f:
                f.write("# harness %s\n# unreachable: within the bounds no execution reaches the required outcome '%s'\n" % (e["fn"], c))
            nviol += 1
            log("no execution reaches", c, "in", e["fn"])
            print("VIOLATION property=%s replay=%s" % (a.id, path))
    # ---- validate sample paths against the native build
    validated, disagree = 0, []
    if not a.no_native and nviol == 0:
        bye = {}
        for e, x in samples:
            if e.get("replay", spec.get("replay", "native")) == "native":
                bye.setdefault(e["fn"], (e, []))[1].append(x)
        lim = 1 if a.tier == "quick" else 8
        budget = time.time() + (60 if a.tier == "quick" else 240)
        for fn, (e, xs) in bye.items():
            if time.time() > budget:
                break
            exe = exe_for(e)
            if not exe:
                continue
            for i, x in enumerate(xs[:lim * 4]):
                p = os.path.join(outdir, "%s-sample-%d.txt" % (fn, i))
                with open(p, "w") as f:
                    f.write(x)
                how, txt = run_native(exe, p, exit_ok=xok(e))
                if how == "ok":
                    validated += 1
                else:
                    disagree.append("%s sample %d: %s %s" % (fn, i, how, txt[-400:]))
                    log("sample disagrees", fn, i, how, txt[-600:])
    for x in exes.values():
        if x and os.path.exists(x):
            os.unlink(x)
    wall = time.time() - t0
    ev = {
        "property": a.id, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": agg["paths"] + agg["paths_assumed_away"] + agg["forks"],
            "transitions": agg["instructions"],
            "traces_validated_against_impl": validated,
            "samples": [s for _, s in samples[:4]] or ["no path completed"],
            "rule": "symbolic execution of the LLVM bitcode of the sources in /repo: one path per feasible combination of branch outcomes, every value on it symbolic; assertions decided by Z3 for all values",
            "paths": agg["paths"], "paths_outside_assumptions": agg["paths_assumed_away"], "forks": agg["forks"],
            "asserts_evaluated": agg["asserts_evaluated"], "assertions_sent_to_solver": agg["assert_queries"],
            "queries": agg["queries"], "solver_calls": agg["solver_calls"], "solver_sat": agg["sat"],
            "solver_unsat": agg["unsat"], "solver_unknown": agg["unknown"], "solver_s": round(solver_s, 2),
            "context_switches": agg["context_switches"], "max_threads": agg["max_threads"],
            "functions_encoded_count": len(functions),
            "functions_encoded": sorted(functions)[:400],
            "per_entry": per, "bounds": spec.get("bounds", ""), "outside_the_bounds": spec.get("outside", ""),
            "covers_reached": sorted({c for s in covers.values() for c in s}),
            "covers_missing": ["%s: %s" % (e["fn"], c) for e, c in vac],
            "incomplete": incomplete[:20], "executor_errors": errors,
            "exhaustive": not incomplete and not errors,
            "unconfirmed_counterexamples": unconfirmed, "native_disagreements": disagree[:10],
            "known_findings": known, "build_s": round(t_build, 1), "explore_s": round(t_sym - t_build, 1),
        },
        "assumptions": specs.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": nviol,
    }
    with open(os.path.join(V, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: paths %d queries %d solver %.1fs funcs %d validated %d build %.1fs wall %.1fs%s%s%s" % (
        a.id, a.tier, agg["paths"], agg["queries"], solver_s, len(functions), validated, t_build, wall,
        " INCOMPLETE " + str(incomplete[:3]) if incomplete else "", " ERRORS " + str(errors)[:1500] if errors else "",
        " MISSING " + str([c for _, c in vac]) if vac else ""))
    if nviol:
        return 1
    if errors:
        return 2
    print("OK property=%s" % a.id)
    return 0


if __name__ == "__main__":
    sys.exit(main())
