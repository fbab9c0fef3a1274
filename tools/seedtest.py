#!/usr/bin/env python3
"""seedtest.py [-c] [-n] ID... : try planted changes in a scratch copy of /repo.

Shows whether the patch applies, builds, passes the tests and is exposed by its
demonstration, and whether the check of its property reports it (-n: without the
check, -c: only the check).  A development tool: no check uses it."""
import sys, os, json, subprocess, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = os.environ.get("SEED_TREE", "/tmp/m")


def sh(c, t=900, **kw):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **kw)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = b"timeout"
        return R


def tree():
    if not os.path.isdir(M):
        sh("git clone -q /repo %s" % M)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (M, M))
    if not os.path.exists(M + "/_build/build.ninja"):
        sh("CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO='-O2 -g' -DENABLE_TESTING=ON -DUSE_THIRDPARTY_LIBRARIES=OFF -DENABLE_PULL=ON -DENABLE_PUSH=ON -DENABLE_COMPRESSION=ON", cwd=M)
    return sh("cmake --build _build -j8", cwd=M)


def main():
    a = sys.argv[1:]
    docheck = "-n" not in a
    only = "-c" in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    assert tree().returncode == 0
    if not only:
        clean = {i: sh("bash %s/seeded/%s/demo.sh" % (V, i), 300, cwd=M) for i in ids}
    for i in ids:
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        sh("git -C %s reset -q --hard" % M)
        r = sh("git -C %s apply %s/patch.diff" % (M, d))
        line = "%-28s %s" % (i, meta["property"])
        if r.returncode:
            print(line + " DOES NOT APPLY " + r.stdout.decode()); continue
        if not only:
            b = sh("cmake --build _build -j8", cwd=M)
            if b.returncode:
                print(line + " DOES NOT BUILD\n" + b.stdout.decode()[-1500:]); continue
            t = sh("ctest --test-dir _build -LE Benchmark -j8 --timeout 120", cwd=M)
            dm = sh("bash %s/demo.sh" % d, 300, cwd=M)
            line += " tests:%s demo clean:%d patched:%d" % ("ok" if t.returncode == 0 else "FAIL", clean[i].returncode, dm.returncode)
            if clean[i].returncode:
                line += "\n" + clean[i].stdout.decode()[-800:]
            if t.returncode:
                line += "\n" + "\n".join(x for x in t.stdout.decode().splitlines() if "FAIL" in x or "***" in x)[-600:]
            if dm.returncode in (0, 3):
                line += "\n" + dm.stdout.decode()[-500:]
        if docheck:
            t0 = time.time()
            c = sh("VERIF_SEED=1 VERIF_TIER=quick VP_REPO=%s python3 %s/tools/check.py %s" % (M, V, meta["property"]), 1000)
            o = c.stdout.decode()
            hit = c.returncode == 1 and "VIOLATION property=" + meta["property"] in o
            line += "  check: %s (%.0f s)" % ("CAUGHT" if hit else "MISSED rc=%d" % c.returncode, time.time() - t0)
            if not hit:
                line += "\n" + o[-1500:]
            else:
                ce = [x for x in o.splitlines() if x.startswith("counterexample")][0]
                line += " " + ce[:150]
            f = V + "/seed_results.json"
            res = json.load(open(f)) if os.path.exists(f) else {}
            res[i] = "caught by " + ce.split(": ", 1)[1].split(" [")[0] if hit else "missed"
            json.dump(res, open(f, "w"), indent=0, sort_keys=True)
        print(line, flush=True)
        sh("git -C %s reset -q --hard" % M)


main()
