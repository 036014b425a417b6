#!/usr/bin/env python3
"""Development helper (not used by any check): confirms planted bugs in scratch copies of /repo.

usage: seeds.py verify ID...     patch applies, builds, passes the stable tests; demo passes without and fails with it
       seeds.py check ID...      runs the check of its property against the patched copy (expects a VIOLATION)
       seeds.py check-all ID...  runs every check against the patched copy
"""
import concurrent.futures, json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/seedwork"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def copy(k):
    d = f"{WORK}/{k}"
    if not os.path.isdir(d):
        os.makedirs(WORK, exist_ok=True)
        assert sh(f"cp -a /repo {d}").returncode == 0
    sh(f"git -C {d} fetch -q /repo HEAD && git -C {d} reset -q --hard FETCH_HEAD && git -C {d} clean -fdq")
    return d


def in_ns(d, cmd, timeout=1500):
    """Run with the scratch copy in the place of /repo"""
    return sh(["unshare", "-Urm", "bash", "-c", f"mount --bind {d} /repo && cd /repo && {cmd}"], timeout=timeout)


def tests(d):
    r = in_ns(d, f"bash /opt/vp/test.sh {d}/_build/out.json")
    if r.returncode:
        return "tests do not build: " + r.stdout[-1500:]
    out = json.load(open(f"{d}/_build/out.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = sorted(set(stable) - set(out["passed"]))
    return "stable tests fail: " + ", ".join(bad) if bad else None


def verify(i, k=0):
    s = f"{VERIF}/seeded/{i}"
    d = copy(k)
    demo = f"{WORK}/demo{k}"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(s, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    # unpatched first
    r = in_ns(d, "bash /opt/vp/build.sh")
    if r.returncode:
        return f"{i}: base does not build {r.stdout[-800:]}"
    r = in_ns(d, f"bash {demo}/demo.sh", 400)
    if r.returncode != 0:
        return f"{i}: demo fails without the patch: {r.stdout[-800:]}"
    r = sh(f"git -C {d} apply {s}/patch.diff")
    if r.returncode:
        return f"{i}: patch does not apply: {r.stdout}"
    try:
        r = in_ns(d, "bash /opt/vp/build.sh")
        if r.returncode:
            return f"{i}: does not build: {r.stdout[-1500:]}"
        t = tests(d)
        if t:
            return f"{i}: {t}"
        r = in_ns(d, f"bash {demo}/demo.sh", 400)
        if r.returncode == 0:
            return f"{i}: demo does not fail with the patch"
        return f"{i}: ok (demo: {r.stdout.strip().splitlines()[-1][:120] if r.stdout.strip() else r.returncode})"
    finally:
        sh(f"git -C {d} checkout -q -- .")


def check(i, props, k=0):
    s = f"{VERIF}/seeded/{i}"
    d = copy(k)
    res = []
    r = sh(f"git -C {d} apply {s}/patch.diff")
    if r.returncode:
        return f"{i}: patch does not apply"
    env = dict(os.environ, VECMEM_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    for p in props or [json.load(open(f"{s}/meta.json"))["property"]]:
        r = sh([sys.executable, f"{VERIF}/tools/check.py", p], env=env)
        line = [l for l in r.stdout.splitlines() if l.startswith("FAILURE")]
        hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
        if not props or hit or r.returncode not in (0, 1):
            res.append(f"{p}: {'caught' if hit else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-300:])} {line[0][:200] if line and hit else ''}")
    sh(f"git -C {d} checkout -q -- .")
    return f"{i}: " + "\n    ".join(res)


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    if ids == ["all"] or not ids:
        ids = sorted(os.listdir(f"{VERIF}/seeded"))
    if what == "verify":
        n = min(4, len(ids))
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            def work(k):
                for i in ids[k::n]:
                    print(verify(i, k), flush=True)
            list(ex.map(work, range(n)))
    elif what == "check":
        for i in ids:
            print(check(i, None), flush=True)
    elif what == "check-all":
        allp = [json.loads(l)["id"] for l in open(f"{VERIF}/properties.jsonl")]
        allp = [p for p in allp if os.path.exists(f"{VERIF}/checks/{p}.cpp")]
        for i in ids:
            print(check(i, allp), flush=True)


main()
