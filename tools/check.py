#!/usr/bin/env python3
"""Builds and runs one check against the current working tree of the repository.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--seed N] [--cases N] [--no-fuzz]
"""
import argparse, collections, concurrent.futures, glob, hashlib, json, os, subprocess, sys
import threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VECMEM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
if REPO != "/repo":
    BUILD = os.path.join(BUILD, "alt-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
CLANG, GCC = "clang++", "g++"
DEFS = ["-DVECMEM_DEBUG_MSG_LVL=0", "-DVECMEM_HAVE_BUILTIN_CLZL",
        "-DVECMEM_HAVE_PMR_MEMORY_RESOURCE", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC",
        "-DVECMEM_SOURCE_DIR_LENGTH=6", "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF", "-DNDEBUG"]
# The second configuration of the library that every check runs a share of its cases on: assertions
# on, C++20 (std::atomic_ref, standard concepts), the fallbacks for the optional features, and another
# compiler (which e.g. evaluates the arguments of a function in the opposite order).
VARIANT = "debug20"
VARIANT_SHARE = 0.25
VARIANT_DROPS = {"-DNDEBUG", "-DVECMEM_HAVE_BUILTIN_CLZL", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC",
                 "-DVECMEM_HAVE_SYCL_MEMSET", "-std=gnu++17"}
VARIANT_ADDS = ["-std=gnu++20"]
UB = ("undefined,float-divide-by-zero,float-cast-overflow")
NOUB = "null,nonnull-attribute,pointer-overflow,returns-nonnull-attribute,vptr,object-size"
BASE = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w"]
MODES = {
    "asan": ["-fsanitize=address," + UB, "-fno-sanitize=" + NOUB, "-fno-sanitize-recover=all"],
    # own runtime behind the instrumentation: see engine/sched.cpp
    "sched": ["-fsanitize=thread,signed-integer-overflow,shift,bounds,alignment,integer-divide-by-zero,return",
              "-fsanitize-trap=all"],
    "plain": [],
}
# back ends that are compiled against models of their runtimes (see fake/)
BACKENDS = ("cuda", "hip", "sycl")
BACKEND_DEFS = ["-DVECMEM_HAVE_SYCL_MEMSET"]
MODES["fuzz"] = MODES["asan"] + ["-fsanitize=fuzzer-no-link"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def gen_headers():
    d = os.path.join(BUILD, "gen", "vecmem")
    os.makedirs(d, exist_ok=True)
    files = {
        "vecmem_core_export.hpp": "#pragma once\n#define VECMEM_CORE_EXPORT\n"
                                  "#define VECMEM_CORE_NO_EXPORT\n#define VECMEM_CORE_DEPRECATED\n",
        "version.hpp": "#pragma once\n#define VECMEM_VERSION_MAJOR 0\n#define VECMEM_VERSION_MINOR 0\n"
                       "#define VECMEM_VERSION_PATCH 0\n#define VECMEM_VERSION 0\n",
    }
    for b in BACKENDS:
        files["vecmem_%s_export.hpp" % b] = "#pragma once\n#define VECMEM_%s_EXPORT\n" % b.upper()
    for n, t in files.items():
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            with open(p, "w") as f:
                f.write(t)
    return os.path.dirname(d)


def file_hash(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in cache:
        with open(path, "rb") as f:
            cache[k] = hashlib.sha1(f.read()).hexdigest()
    return cache[k]


def read_deps(d):
    try:
        txt = open(d).read().replace("\\\n", " ")
    except OSError:
        return None
    return txt.split(":", 1)[1].split() if ":" in txt else None


OBJ_LOCKS = collections.defaultdict(threading.Lock)


def compile_one(cxx, src, obj, flags):
    """Compile unless the object was made from identical inputs."""
    with OBJ_LOCKS[obj]:
        return compile_locked(cxx, src, obj, flags)


def compile_locked(cxx, src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if cxx == CLANG:
        flags = flags + ["-fno-sanitize=function"]
    cmd = [cxx] + flags + (["-x", "c++"] if src.endswith(".sycl") else []) + ["-c", src, "-o", obj]

    def key(deps):
        h = hashlib.sha1(" ".join(cmd).encode())
        for p in sorted(set(deps)):
            h.update(p.encode())
            h.update(file_hash(p).encode())
        return h.hexdigest()
    deps = read_deps(obj + ".d")
    if deps and os.path.exists(obj) and os.path.exists(obj + ".key"):
        if open(obj + ".key").read() == key(deps):
            return None
    r = sh(cmd + ["-MMD", "-MF", obj + ".d"])
    if r.returncode != 0:
        return r.stdout
    with open(obj + ".key", "w") as f:
        f.write(key(read_deps(obj + ".d")))
    return None


def config(pid):
    """Settings in the leading comment of the harness: `// check: key=value ...`"""
    cfg = {"mode": "asan", "lib": "all", "opt": "-O1"}
    with open(os.path.join(VERIF, "checks", pid + ".cpp")) as f:
        for _, line in zip(range(20), f):
            if line.startswith("// check:"):
                for kv in line[len("// check:"):].split():
                    k, _, v = kv.partition("=")
                    cfg[k] = v
    return cfg


def build(pid, fuzz=False, variant=False):
    cfg = config(pid)
    mode = cfg["mode"]
    if fuzz:
        mode = "fuzz"
    # g++ keeps what a weak compare-exchange is apart from a strong one, which the schedules need
    cxx = os.environ.get("CXX_CHECK") or (GCC if variant != (mode == "sched") else CLANG)
    inc = ["-I" + gen_headers(), "-I" + os.path.join(REPO, "core/include"),
           "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "checks")]
    if "inc" in cfg:
        inc.append("-I" + os.path.join(VERIF, cfg["inc"]))
    libs = cfg["lib"].split(",")
    back = [b for b in BACKENDS if b in libs]
    if back:
        inc.append("-I" + os.path.join(VERIF, "fake"))
        inc += ["-I" + os.path.join(REPO, b, "include") for b in back]
    base = [f for f in BASE if not f.startswith("-O")] + [cfg["opt"]] + inc + DEFS
    flags = base + MODES[mode]
    plain = list(base)  # the engine itself does not change with the variant
    if variant:
        base = [f for f in base if f not in VARIANT_DROPS] + VARIANT_ADDS
        flags = [f for f in flags if f not in VARIANT_DROPS] + VARIANT_ADDS
    eng = ["pbt.cpp", "fuzz_main.cpp" if fuzz else "main.cpp"]
    jobs = []  # (src, obj, flags)
    edir = os.path.join(BUILD, mode + cfg["opt"] + ("-gcc" if cxx == GCC else ""))
    odir = edir + ("-" + VARIANT if variant else "")
    srcs = [os.path.join(VERIF, "checks", pid + ".cpp")]
    srcs += sorted(glob.glob(os.path.join(VERIF, "checks", pid + "_*.cpp")))
    for s in srcs:
        jobs.append((s, os.path.join(odir, "checks", os.path.basename(s) + ".o"), flags))
    for e in eng:
        ef = plain + (MODES["plain"] if mode == "sched" else MODES["asan"] if not fuzz else MODES[mode])
        jobs.append((os.path.join(VERIF, "engine", e), os.path.join(edir, "engine", e + ".o"), ef))
    if mode == "sched":
        s = os.path.join(VERIF, "engine", "sched.cpp")
        jobs.append((s, os.path.join(edir, "engine", "sched.cpp.o"), plain))
    if cfg["lib"] != "none":
        for s in sorted(glob.glob(os.path.join(REPO, "core/src/**/*.cpp"), recursive=True)):
            if s.endswith("default_resource_polyfill.cpp"):
                continue
            rel = os.path.relpath(s, os.path.join(REPO, "core/src"))
            if cfg["lib"] != "all" and not any(rel.startswith(x) for x in libs):
                continue
            jobs.append((s, os.path.join(odir, "lib", rel.replace("/", "__") + ".o"), flags))
    for b in back:
        top = os.path.join(REPO, b, "src")
        for s in sorted(glob.glob(top + "/**/*.cpp", recursive=True) + glob.glob(top + "/**/*.sycl", recursive=True)):
            if "polyfill" in s:
                continue
            rel = b + "__" + os.path.relpath(s, top).replace("/", "__")
            bd = [f for f in BACKEND_DEFS if not variant or f not in VARIANT_DROPS]
            jobs.append((s, os.path.join(odir, "lib", rel + ".o"), flags + bd))
        s = os.path.join(VERIF, "fake", "fake_" + b + ".cpp")
        jobs.append((s, os.path.join(odir, "fake", b + ".o"), flags))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(cxx, *j), jobs) if e]
    if errs:
        sys.stderr.write("BUILD FAILED\n" + errs[0][:6000] + "\n")
        return None
    exe = os.path.join(BUILD, pid + ("-fuzz" if fuzz else "") + ("-" + VARIANT if variant else ""))
    link = [cxx] + [j[1] for j in jobs] + ["-o", exe, "-pthread"]
    if mode == "asan":
        link += MODES["asan"]
    elif mode == "fuzz":
        link += MODES["asan"] + ["-fsanitize=fuzzer"]
    r = sh(link)
    if r.returncode != 0:
        sys.stderr.write("LINK FAILED\n" + r.stdout[:6000] + "\n")
        return None
    return exe


def known_findings(pid):
    """Open (unrepaired) findings listed for this property: {key: text}"""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("open: property=" + pid + " "):
                rest = line[len("open: property=" + pid + " "):]
                out[rest.split()[0]] = rest
    except OSError:
        pass
    return out


def fuzz_campaign(pid, seed, budget_runs, seconds, repl_dir, driver):
    exe = build(pid, fuzz=True)
    if exe is None:
        return None, 2
    root = os.path.join(BUILD, "fuzz-" + pid)
    subprocess.run(["rm", "-rf", root])
    procs = []
    for k in range(os.cpu_count() or 4):
        d = os.path.join(root, str(k))
        os.makedirs(os.path.join(d, "corpus"))
        env = dict(os.environ, PBT_RECORD=os.path.join(d, "record"))
        log = open(os.path.join(d, "log"), "w")
        procs.append((subprocess.Popen(
            [exe, os.path.join(d, "corpus"), "-seed=%d" % (seed * 100 + k + 1),
             "-runs=%d" % budget_runs, "-max_total_time=%d" % seconds, "-timeout=60",
             "-max_len=%d" % (400 if k % 2 else 1500), "-rss_limit_mb=3500", "-print_final_stats=1",
             "-artifact_prefix=" + d + "/"],
            stdout=log, stderr=subprocess.STDOUT, env=env, cwd=d), d))
    runs = 0
    cov = 0
    rc = 0
    notes = []
    for p, d in procs:
        p.wait()
        txt = open(os.path.join(d, "log"), errors="replace").read()
        for line in txt.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                runs += int(line.split(":")[-1])
            if " cov: " in line:
                try:
                    cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
                except ValueError:
                    pass
        if p.returncode != 0 and rc == 0:
            r = sh([driver, "--raw", os.path.join(d, "record"), "--seed", str(seed), "--tier",
                    "thorough", "--replay-dir", repl_dir])
            sys.stdout.write(r.stdout)
            if r.returncode == 1:
                rc = 1
            else:
                notes.append("a fuzzing process ended with %d without a reproducible failure" % p.returncode)
    subprocess.run(["rm", "-rf", root])
    return {"executions": runs, "max_edge_coverage": cov, "notes": notes}, rc


def drive(exe, a, repl, cases, tag=None):
    """Runs a driver; its exit code and statistics"""
    stats = exe + ".stats.json"
    if os.path.exists(stats):
        os.unlink(stats)
    cmd = [exe, "--tier", a.tier, "--seed", str(a.seed), "--stats", stats, "--replay-dir", repl]
    if cases:
        cmd += ["--cases", str(cases)]
    if tag:
        # other cases than those of the first configuration
        cmd += ["--tag", tag, "--offset", str(1 << 32)]
    rc = subprocess.run(cmd).returncode
    try:
        return rc, json.load(open(stats))
    except (OSError, ValueError):
        sys.stderr.write("no statistics written\n")
        return rc, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--no-fuzz", action="store_true")
    ap.add_argument("--main-only", action="store_true", help="skip the second configuration")
    ap.add_argument("--fuzz-seconds", type=int, default=240)
    a = ap.parse_args()
    if a.setup:
        # Every check builds what it needs itself
        return max(subprocess.run([c, "--version"]).returncode for c in (CLANG, GCC))
    t0 = time.time()
    if a.replay:
        exe = build(a.id, variant=("-" + VARIANT) in os.path.basename(a.replay))
        if exe is None:
            return 2
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = env["UBSAN_OPTIONS"] = "symbolize=1"
        return subprocess.run([exe, "--replay", a.replay], env=env).returncode
    repl = os.path.join(VERIF, "replay")
    os.makedirs(repl, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(max_workers=2) as ex:
        both = [ex.submit(build, a.id, variant=v) for v in ((False,) if a.main_only else (False, True))]
        exe, vexe = both[0].result(), both[-1].result()
    if exe is None or vexe is None:
        return 2
    tb = time.time() - t0
    rc, st = drive(exe, a, repl, a.cases)
    if rc not in (0, 1) or st is None:
        return rc if rc else 2
    vst = None
    if rc == 0 and not a.main_only:
        rc, vst = drive(vexe, a, repl, int(VARIANT_SHARE * (st["evaluations"])) + 8, VARIANT)
        if rc not in (0, 1) or vst is None:
            return rc if rc else 2
    fz = None
    if rc == 0 and a.tier == "thorough" and not a.no_fuzz and config(a.id)["mode"] == "asan":
        fz, rc = fuzz_campaign(a.id, a.seed, 100000000, a.fuzz_seconds, repl, exe)
    ev = {
        "property": a.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": st["evaluations"] + (vst["evaluations"] if vst else 0) + (fz["executions"] if fz else 0),
            "distinct_nontrivial": st["distinct_nontrivial"],
            "rule": st["rule"],
            "samples": st["samples"] or ["(none)"],
            "discarded": st["discarded"],
            "labels": st["labels"],
            "unreproducible": st["unreproducible"],
        },
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(tb, 2),
        "violations": 1 if rc == 1 else 0,
        "assumptions": assumptions(a.id),
    }
    if vst:
        ev["coverage"]["with_assertions_cxx20_and_fallbacks"] = {
            k: vst[k] for k in ("evaluations", "distinct_nontrivial", "discarded", "unreproducible")}
    if fz:
        ev["coverage"]["fuzz"] = fz
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return rc


def assumptions(pid):
    out = ["nothing is established beyond the generated cases"]
    with open(os.path.join(VERIF, "checks", pid + ".cpp")) as f:
        for line in f:
            if line.startswith("// assume:"):
                out.append(line[len("// assume:"):].strip())
    return out


if __name__ == "__main__":
    sys.exit(main())
