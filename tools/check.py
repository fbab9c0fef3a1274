#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property by symbolic execution of /repo's code.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Other options: --keep (keep the work directory), --entry NAME, --replay FILE."""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NJ = int(os.environ.get("VP_JOBS", "8"))
HARD = 3 * 3600 if THOROUGH else 840      # seconds for the whole check
INC = ["-I" + V + "/rt", "-I" + V + "/rt/include"] + ["-I%s/%s" % (REPO, d) for d in
       ("core/include", "push/include", "pull/include", "util/include", "pull/src", "push/src", "core/src")]
T0 = time.time()


def sources():
    r = []
    for d in ("core/src", "push/src", "pull/src"):
        for p, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(p, f) for f in fs if f.endswith((".cc", ".cpp"))]
    return sorted(r)


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def must(cmd, timeout=600):
    r = run(cmd, timeout)
    if r.returncode:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stderr.decode(errors="replace")[-3000:])
    return r


class Harness:
    def __init__(self, path):
        self.path = path
        self.entries = []
        self.bounds = []
        self.assumes = []
        self.sources = None
        self.defs = []
        self.mt = False
        for line in open(path):
            m = re.match(r"//@\s*(\w+)\s*(.*)", line)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == "entry":
                parts = v.split()
                e = {"name": parts[0], "reach": [], "leak": False, "args": [], "tier": "both"}
                for p in parts[1:]:
                    if p.startswith("reach="):
                        e["reach"] = p[6:].split(",")
                    elif p == "leak":
                        e["leak"] = True
                    elif p == "mt":
                        e["mt"] = True
                        self.mt = True
                    elif p in ("quick", "thorough"):
                        e["tier"] = p
                    elif "=" in p:
                        a, b = p.split("=", 1)
                        if a.startswith("t:"):
                            if THOROUGH:
                                e["args"] += ["--" + a[2:], b]
                        elif a.startswith("q:"):
                            if not THOROUGH:
                                e["args"] += ["--" + a[2:], b]
                        else:
                            e["args"] += ["--" + a, b]
                if e["tier"] in ("both", TIER):
                    self.entries.append(e)
            elif k == "bounds":
                self.bounds.append(v)
            elif k == "assume":
                self.assumes.append(v)
            elif k == "sources":
                self.sources = v.split()
            elif k == "define":
                self.defs += v.split()

    def repo_sources(self):
        if not self.sources:
            return sources()
        return [s for s in sources() if any(s[len(REPO) + 1:].startswith(p) for p in self.sources)]


CFLAGS = ["-std=c++11", "-ffp-contract=off", "-DHAVE_ZLIB", "-DVP_THOROUGH=%d" % THOROUGH]


def build_bc(h, w):
    """bitcode of harness + model + repository sources, optimised"""
    base = ["clang++-18"] + CFLAGS + ["-D_GLIBCXX_TSAN=1", "-O2", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-w", "-include", V + "/rt/find.h"] + INC
    jobs = []
    for i, s in enumerate(h.repo_sources()):
        jobs.append(base + ["-emit-llvm", "-c", s, "-o", "%s/r%d.bc" % (w, i)])
    for n in ("model.cc", "shared.cc", "tree.cc"):
        jobs.append(base + ["-fno-access-control", "-emit-llvm", "-c", V + "/rt/" + n, "-o", "%s/m_%s.bc" % (w, n)])
    jobs.append(base + ["-DVP_SYMBOLIC=1"] + h.defs + ["-emit-llvm", "-c", h.path, "-o", w + "/h.bc"])
    jobs.append(["clang-18", "-x", "c", "-O2", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-w", "-emit-llvm", "-c", V + "/rt/libc.c", "-o", w + "/m_libc.bc"])
    with ThreadPoolExecutor(NJ) as ex:
        list(ex.map(must, jobs))
    bcs = sorted(glob.glob(w + "/r*.bc")) + sorted(glob.glob(w + "/m_*.bc"))
    must(["llvm-link-18", w + "/h.bc"] + bcs + ["-o", w + "/all.bc"])
    names = ",".join(e["name"] for e in h.entries)
    must(["opt-18", "-passes=internalize,globaldce,default<O2>,globaldce", "-internalize-public-api-list=" + names,
          "-vectorize-loops=false", "-vectorize-slp=false", w + "/all.bc", "-o", w + "/x.bc"])
    return w + "/x.bc"


def build_native(h, w):
    """the same harness against the real library code, ASan + UBSan"""
    if h.mt:
        cc = ["clang++-18"] + CFLAGS + ["-O1", "-g1", "-w", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVP_MT=1"]
        link = ["clang++-18", "-rdynamic"]
    else:
        cc = ["g++"] + CFLAGS + ["-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        link = ["g++", "-fsanitize=address,undefined", "-rdynamic"]
    os.makedirs(w + "/n", exist_ok=True)
    with open(w + "/n/entries.cc", "w") as f:
        for e in h.entries:
            f.write('extern "C" void %s();\n' % e["name"])
        f.write("struct VpEntry { const char* name; void (*fn)(); };\nextern VpEntry vp_entries[];\nVpEntry vp_entries[] = {\n")
        for e in h.entries:
            f.write('{"%s", %s},\n' % (e["name"], e["name"]))
        f.write("{0, 0}};\n")
    jobs, objs = [], []
    srcs = h.repo_sources() + [V + "/rt/native.cc", V + "/rt/shared.cc", w + "/n/entries.cc", h.path]
    for i, s in enumerate(srcs):
        o = "%s/n/%d.o" % (w, i)
        objs.append(o)
        x = ["-DVP_SYMBOLIC=0"] + h.defs if s == h.path else []
        jobs.append(cc + INC + x + ["-c", s, "-o", o])
    if h.mt:
        o = w + "/n/mt.o"
        objs.append(o)
        jobs.append(["clang++-18", "-std=c++17", "-fno-threadsafe-statics", "-O1", "-g1", "-w", "-I" + V + "/rt", "-c", V + "/rt/native_mt.cc", "-o", o])
        o = w + "/n/tree.o"
        objs.append(o)
        jobs.append(cc + INC + ["-fno-access-control", "-c", V + "/rt/tree.cc", "-o", o])
        jobs[-2].insert(1, "-fno-access-control")
    with ThreadPoolExecutor(NJ) as ex:
        list(ex.map(must, jobs))
    if h.mt:
        redir = []
        for n in ("malloc", "calloc", "free", "realloc", "memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "memchr", "strcmp", "strstr"):
            redir += ["--redefine-sym", "%s=vpi_%s" % (n, n)]
        for o in objs:
            if not o.endswith("/mt.o"):
                must(["objcopy"] + redir + [o])
    must(link + objs + ["-o", w + "/native", "-lpthread", "-ldl"])
    return w + "/native"


def write_vals(path, rec):
    with open(path, "w") as f:
        for x in rec["vals"]:
            f.write("%s %s\n" % (x["n"], x["v"]))
        for i, t in enumerate(rec.get("sched", [])):
            f.write("sched!%d %d\n" % (i, t))


def replay(native, entry, valfile, leak=False, tmo=20):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:detect_odr_violation=0" % (1 if leak else 0)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66"
    env["LC_ALL"] = "C"
    try:
        r = run([native, entry, valfile], timeout=tmo, env=env)
    except subprocess.TimeoutExpired:
        return {"rc": None, "out": "", "what": "does not terminate within %d s" % tmo}
    out = r.stdout.decode(errors="replace")
    err = r.stderr.decode(errors="replace")
    what = ""
    if r.returncode == 77:
        m = re.search(r"VP_FAIL (.*)", out)
        what = m.group(1) if m else "assertion"
    elif r.returncode == 78:
        what = "diverged"
    elif r.returncode != 0:
        m = re.search(r"(ERROR: \w+Sanitizer[^\n]*|SUMMARY: [^\n]*|runtime error[^\n]*|terminate called[^\n]*|VP_\w+ [^\n]*)", err + out)
        what = m.group(1) if m else "exit status %d" % r.returncode
    return {"rc": r.returncode, "out": out, "err": err[-3000:], "what": what, "outs": re.findall(r"^OUT (\d+)", out, re.M)}


def known_findings():
    r = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=\"([^\"]*)\"\s*(.*)", line)
            if m:
                r.append(m.groups())
    return r


def main():
    pid = sys.argv[1]
    keep = "--keep" in sys.argv
    only = sys.argv[sys.argv.index("--entry") + 1] if "--entry" in sys.argv else None
    files = sorted(glob.glob(V + "/harness/%s*.cc" % pid.lower()))
    if not files:
        die("no harness for " + pid)
    symx = must([V + "/engine/build.sh"], 900).stdout.decode().strip()
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    ev = {"property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "model_checking"}
    tot = dict(paths=0, instrs=0, queries=0, sat=0, unsat=0, unknown=0, asserts=0, asserts_symbolic=0, solver_s=0.0, sched_points=0, forks=0, pruned=0)
    per, viols, notes, funcs, bounds, assumes, samples, validated, mismatches = [], [], [], set(), [], [], [], 0, []
    try:
        for fi, path in enumerate(files):
            h = Harness(path)
            if only:
                h.entries = [e for e in h.entries if e["name"] == only]
            if not h.entries:
                continue
            if fi and os.path.exists("%s/%d/stop" % (work, fi - 1)):
                break
            bounds += h.bounds
            assumes += h.assumes
            w = "%s/%d" % (work, fi)
            os.makedirs(w)
            with ThreadPoolExecutor(1) as nx:
                try:
                    bc = build_bc(h, w)
                except RuntimeError as e:
                    die("build failed: " + str(e))
                natf = nx.submit(build_native, h, w)

                def one(e):
                    out = "%s/%s.json" % (w, e["name"])
                    left = max(20, HARD - (time.time() - T0) - 60)
                    a = list(e["args"])
                    secs = left if THOROUGH else min(left, 300)
                    if "--secs" in a:
                        i = a.index("--secs")
                        secs = min(left, float(a[i + 1]))
                        del a[i:i + 2]
                    nsamp = "24" if THOROUGH else "6"
                    cmd = [symx, bc, "--entry", e["name"], "--out", out, "--secs", str(secs), "--seed", str(SEED), "--samples", nsamp, "--tmp", w] + a
                    if e["leak"]:
                        cmd.append("--leak")
                    try:
                        r = run(cmd, timeout=left + 45)
                    except subprocess.TimeoutExpired:
                        return e, None, "timeout"
                    if r.returncode or not os.path.exists(out):
                        return e, None, "symx exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-500:])
                    res = json.load(open(out))
                    for k, v in enumerate(res["violations"]):   # once one is confirmed, the other entries need not go on for long
                        try:
                            nat = natf.result()
                        except RuntimeError:
                            break
                        f = "%s/%s.v%d.vals" % (w, e["name"], k)
                        write_vals(f, v)
                        v["replayed"] = replay(nat, e["name"], f, leak=e["leak"])
                        if v["replayed"]["rc"] not in (0, 78) and not any(x[0] == pid and x[1] == e["name"] and x[2] in v["msg"] for x in known_findings()):
                            open(w + "/stop", "w").close()
                            break
                    return e, res, r.stderr.decode(errors="replace")
                with ThreadPoolExecutor(NJ) as ex:
                    results = list(ex.map(one, h.entries))
                try:
                    native = natf.result()
                except RuntimeError as e:
                    die("native build failed: " + str(e))
            for e, res, err in results:
                if res is None:
                    notes.append("%s: no result (%s)" % (e["name"], err))
                    continue
                for k in tot:
                    tot[k] += res.get(k, 0)
                funcs |= set(res["functions"])
                per.append({k: res[k] for k in ("entry", "status", "paths", "instrs", "forks", "queries", "sat", "unsat", "unknown", "asserts", "asserts_symbolic", "solver_s", "wall_s", "rss_mb", "threads", "sched_points", "pruned", "reach", "incomplete")})
                for m in res["incomplete"]:
                    notes.append("%s: incomplete: %s" % (e["name"], m))
                if not res["violations"]:
                    for l in e["reach"]:
                        if l and l not in res["reach"]:
                            notes.append("%s: vacuity guard: '%s' was not reached" % (e["name"], l))
                for k, v in enumerate(res["violations"]):
                    f = "%s/%s.v%d.vals" % (w, e["name"], k)
                    r = v.get("replayed")
                    if not r:
                        write_vals(f, v)
                        r = replay(native, e["name"], f, leak=e["leak"])
                    ok = r["rc"] not in (0, 78)
                    viols.append((e, v, r, ok, f))

                def val(it):
                    k, s = it
                    f = "%s/%s.s%d.vals" % (w, e["name"], k)
                    write_vals(f, s)
                    return s, replay(native, e["name"], f, leak=e["leak"])
                with ThreadPoolExecutor(NJ) as ex:
                    for s, r in ex.map(val, list(enumerate(res["samples"]))):
                        if r["rc"] == 0 and r["outs"] == s["outs"]:
                            validated += 1
                            if len(samples) < 6:
                                samples.append({"entry": e["name"], "values": {x["n"]: x["v"] for x in s["vals"][:24]}, "outputs": s["outs"][:24], "schedule": s["sched"][:60]})
                        else:
                            mismatches.append({"entry": e["name"], "native": r["what"] or r["outs"][:20], "engine": s["outs"][:20], "values": {x["n"]: x["v"] for x in s["vals"][:24]}, "native_rc": r["rc"], "err": r.get("err", "")[-600:]})
        # verdict
        kf = known_findings()
        status = 0
        shown = set()
        for e, v, r, ok, f in viols:
            desc = "%s: %s [%s] at %s" % (e["name"], v["msg"], v["kind"], v["loc"])
            if not ok:
                notes.append("UNCONFIRMED counterexample (native replay: %s): %s" % (r["what"] or "passes", desc))
                continue
            hit = [k for k in kf if k[0] == pid and k[1] == e["name"] and k[2] in v["msg"]]
            if hit:
                if hit[0] not in shown:
                    print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][3]))
                shown.add(hit[0])
                continue
            d = V + "/build/replay/" + pid
            os.makedirs(d, exist_ok=True)
            rp = "%s/%s-%s.json" % (d, e["name"], hashlib.sha256(v["msg"].encode()).hexdigest()[:8])
            json.dump({"property": pid, "entry": e["name"], "kind": v["kind"], "message": v["msg"], "location": v["loc"], "trace": v["trace"], "values": v["vals"], "schedule": v["sched"], "native": r["what"], "native_stderr": r.get("err", "")}, open(rp, "w"), indent=1)
            print("counterexample: %s\n  values: %s\n  native replay: %s" % (desc, " ".join("%s=%s" % (x["n"], x["v"]) for x in v["vals"][:40]), r["what"]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            status = 1
        for m in mismatches[:5]:
            notes.append("encoding mismatch on a passing path: " + json.dumps(m))
        for n in notes:
            print("NOTE: " + n)
        ev["coverage"] = {
            "states": tot["paths"] + tot["forks"], "transitions": tot["instrs"], "traces_validated_against_impl": validated,
            "samples": samples or [{"none": True}],
            "paths_completed": tot["paths"], "schedule_points": tot["sched_points"], "schedules_pruned": tot["pruned"],
            "solver_queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
            "assertions_checked": tot["asserts"], "assertions_with_symbolic_condition": tot["asserts_symbolic"], "solver_s": round(tot["solver_s"], 2),
            "functions_encoded": sorted(funcs), "bounds": bounds, "assumptions": assumes, "entries": per,
            "complete": not any("incomplete" in n or "no result" in n or "vacuity" in n for n in notes), "notes": notes,
            "validation_mismatches": len(mismatches), "violations": sum(1 for x in viols if x[3])}
        ev["wall_s"] = round(time.time() - T0, 2)
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
        print("%s %s: paths=%d queries=%d (sat %d, unsat %d, unknown %d) asserts=%d solver=%.1fs validated=%d mismatches=%d wall=%.1fs" % (
            pid, TIER, tot["paths"], tot["queries"], tot["sat"], tot["unsat"], tot["unknown"], tot["asserts"], tot["solver_s"], validated, len(mismatches), ev["wall_s"]))
        if "-v" in sys.argv:
            for p in per:
                print("  %-28s %-10s paths=%d instrs=%d queries=%d wall=%.1fs" % (p["entry"], p["status"], p["paths"], p["instrs"], p["queries"], p["wall_s"]))
        sys.exit(status)
    finally:
        if keep:
            print("work: " + work)
        else:
            shutil.rmtree(work, ignore_errors=True)


main()
