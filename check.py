#!/usr/bin/env python3
"""check.py <property> <quick|thorough> | check.py <property> --replay FILE

Builds the harness of one property from /repo's current working tree, runs its
generated-input search on all cores, shrinks and re-runs failures, writes
evidence/<property>.json.  Exit 0: held on everything explored (findings listed in
known_findings.txt are printed as KNOWN-FINDING).  Exit 1: VIOLATION lines.
Exit 2: the check itself could not run.
"""
import sys, os, json, subprocess, hashlib, time, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NCPU = os.cpu_count() or 8

DEFS = "-DCDT_ONLY -DDISALLOW_DENORMALS -DHAVE_GMSH -DHAVE_SILO -DREDUCED -DTRILIBRARY -DNDEBUG".split()
INC = [f"-I{H}", f"-I{REPO}/contrib", f"-I{REPO}/libdiskpp/include", f"-I{REPO}/libdiskpp/contrib/jburkardt/include",
       f"-I{REPO}/libdiskpp/contrib/triangle", "-I/usr/include/lua5.4", "-isystem", "/usr/include/eigen3"]
DFLAGS = ["-O1", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS"]     # assertions on: an out-of-range access is a failure
BASE = ["-fpermissive", "-w"]
LIBS = ["-lsiloh5", "-llua5.4", "-lgmsh", "-lm", "-lpthread"]


def deps_ok(obj):
    try:
        with open(obj + ".sig") as f:
            sig = json.load(f)
    except Exception:
        return None
    return sig


def filehash(p, cache={}):
    if p not in cache:
        try:
            with open(p, "rb") as f:
                cache[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            cache[p] = None
    return cache[p]


def compile_one(src, obj, flags):
    cc = "gcc" if src.endswith(".c") else "g++"
    cmd = [cc] + flags + ["-c", src, "-o", obj, "-MD", "-MF", obj + ".d"]
    key = " ".join(cmd)
    sig = deps_ok(obj)
    if sig and os.path.exists(obj) and sig["cmd"] == key and all(filehash(p) == h for p, h in sig["deps"].items()):
        return 0, ""
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        txt = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
        # system headers do not change between runs
        deps = {d: filehash(d) for d in txt if not d.startswith("/usr/")}
        with open(obj + ".sig", "w") as f:
            json.dump({"cmd": key, "deps": deps}, f)
    return p.returncode, p.stdout


def build(pid, cfg):
    bdir = os.path.join(BUILD, pid)
    os.makedirs(bdir, exist_ok=True)
    opt = cfg.get("flags", DFLAGS)
    cxx = BASE + ["-std=gnu++20"] + DEFS + INC + opt
    jobs = []
    srcs = sorted(glob.glob(os.path.join(H, pid + "*.cpp")), key=lambda s: -os.path.getsize(s))
    for s in srcs:
        jobs.append((s, os.path.join(bdir, os.path.basename(s) + ".o"), cxx))
    # a case definition may be instantiated once per mesh family, in parallel translation units
    for s, var in cfg.get("variants", []):
        jobs.insert(0, (os.path.join(H, s), os.path.join(bdir, s + "." + "_".join(var).replace("-D", "").replace("=", "") + ".o"), cxx + var))
    jobs.append((os.path.join(H, "pbt_main.cpp"), os.path.join(bdir, "pbt_main.o"), ["-std=gnu++20", "-O1", "-I" + H]))
    for s in sorted(glob.glob(f"{REPO}/libdiskpp/src/common/*.cpp")):
        jobs.append((s, os.path.join(bdir, "lib_" + os.path.basename(s) + ".o"), BASE + ["-std=gnu++17"] + DEFS + INC + opt))
    for s in sorted(glob.glob(f"{REPO}/libdiskpp/contrib/jburkardt/src/*.cpp")):
        jobs.append((s, os.path.join(bdir, "jb_" + os.path.basename(s) + ".o"), BASE + ["-std=gnu++17"] + DEFS + INC + ["-O1"]))
    if True:
        s = f"{REPO}/libdiskpp/contrib/triangle/triangle_mesher.c"
        jobs.append((s, os.path.join(bdir, "triangle.o"), ["-w", "-O1"] + DEFS))
    errs = []
    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        futs = {ex.submit(compile_one, *j): j for j in jobs}
        for f in cf.as_completed(futs):
            rc, out = f.result()
            if rc:
                errs.append((futs[f][0], out))
    if errs:
        for s, o in errs:
            print(f"harness build error: {s}\n{o[:2500]}", file=sys.stderr)
        sys.exit(2)
    exe = os.path.join(bdir, "harness")
    link = ["g++"] + [j[1] for j in jobs] + opt + ["-fuse-ld=gold", "-o", exe] + LIBS
    p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[:2500], file=sys.stderr)
        sys.exit(2)
    return exe


def main():
    pid, mode = sys.argv[1], sys.argv[2]
    t0 = time.time()
    cfg = json.load(open(os.path.join(H, "props.json"))).get(pid, {})
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    exe = build(pid, cfg)
    t_build = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4096"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    env["OMP_NUM_THREADS"] = "1"
    if "hang" in cfg:
        env["PBT_HANG"] = str(cfg["hang"])
    env["EIGEN_NUM_THREADS"] = "1"
    if mode == "--replay":
        sys.exit(subprocess.run([exe, "--replay", sys.argv[3]], env=env).returncode)
    tier = mode
    if tier not in ("quick", "thorough"):
        sys.exit(2)
    known = {}
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                rest = line.split(" ", 2)[2]          # key=<key> <what fails>
                k, what = rest.split(" ", 1)
                known[k[len("key="):]] = what
    bdir = os.path.join(BUILD, pid)
    kpath = os.path.join(bdir, "known.lst")
    open(kpath, "w").write("".join(k + "\n" for k in known))
    out = os.path.join(bdir, f"result-{tier}.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--tier", tier, "--seed", str(seed), "--shards", str(NCPU), "--out", out, "--known", kpath,
           "--max-secs", str((560 if tier == "quick" else 640) - int(min(t_build, 300)))]
    if os.environ.get("VERIF_FACTOR"):
        cmd += ["--factor", os.environ["VERIF_FACTOR"]]
    if os.environ.get("VERIF_SUB"):
        cmd += ["--sub", os.environ["VERIF_SUB"]]
    p = subprocess.run(cmd, env=env)
    if p.returncode or not os.path.exists(out):
        print(f"harness of {pid} ended with {p.returncode}", file=sys.stderr)
        sys.exit(2)
    r = json.load(open(out))
    evals = sum(s["evaluations"] for s in r["subs"])
    dn = sum(s["distinct_nontrivial"] for s in r["subs"])
    samples = [f'{s["name"]}: {x}'[:600] for s in r["subs"] for x in s["samples"][:1]][:40]
    prop = {}
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        if line.strip():
            q = json.loads(line)
            if q["id"] == pid:
                prop = q
    viol = [f for f in r["failures"] if not f["known"] and f["stable"]]
    unstable = [f for f in r["failures"] if not f["known"] and not f["stable"]]
    knownhit = [f for f in r["failures"] if f["known"]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": dn,
                       "rule": cfg.get("rule", "every case is drawn from the generators described in DESIGN.md; non-trivial as marked by each sub-check"),
                       "samples": samples or ["(no non-trivial sample)"],
                       "per_subcheck": [{k: s[k] for k in ("name", "evaluations", "discards", "nontrivial", "distinct_nontrivial", "labels")} for s in r["subs"]],
                       "stopped_by_time_budget": r["truncated"], "known_finding_hits": {f["key"]: f["count"] for f in knownhit},
                       "unstable": [f["key"] for f in unstable]},
          "assumptions": cfg.get("assumptions", []) + ["harness compiled with " + " ".join(cfg.get("flags", DFLAGS)) + " instead of the project's -O3 -DNDEBUG -ffast-math"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier} seed={seed}: {evals} cases, {dn} distinct non-trivial, build {t_build:.1f}s, total {time.time()-t0:.1f}s")
    for k, what in known.items():
        print(f"KNOWN-FINDING: property={pid} {what}")
    for f in unstable:
        print(f"note: not reproducible in isolation, not reported: {f['key']}: {f['msg'][:300]}")
    if viol:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, f in enumerate(viol):
            rp = os.path.join(rd, f"{pid}-{f['key'].replace('/', '_').replace(' ', '_')[:80]}.replay")
            with open(rp, "w") as o:
                o.write(f"property {pid}\nsub {f['sub']}\ntier {tier}\nkey {f['key']}\nmsg {f['msg']}\ncase {f['note']}\ntape {' '.join(map(str, f['tape']))}\n")
            print(f"VIOLATION property={pid} replay={rp}")
            print(f"  {f['key']} (x{f['count']}): {f['msg'][:500]}\n  case: {f['note'][:500]}")
        sys.exit(1)
    if evals == 0:
        print("no case was evaluated", file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


main()
