#!/usr/bin/env python3
"""Runner: builds the harness of a property from /repo's working tree, runs it under monitoring, judges, writes evidence.

usage: check.py ID            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
       check.py --build ID..  (only build)       check.py --setup
       check.py --replay FILE (re-run a recorded violation)
exit 0: held on everything explored; 1 + VIOLATION line: broken; 2: the check itself failed (inconclusive)
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
from config import HARNESSES, PROPS, LIBS

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CXX = "/usr/bin/g++"
INC = ["CPPQEDutils", "CPPQEDcore", "CPPQEDcore/high", "CPPQEDcore/composites", "CPPQEDcore/structure", "CPPQEDcore/quantumdata",
       "CPPQEDcore/quantumoperator", "CPPQEDcore/quantumtrajectory", "CPPQEDelements/frees", "CPPQEDelements/interactions", "CPPQEDelements/utils"]
DEFS = ["-DBZ_HAVE_BOOST_SERIALIZATION", "-DCPPQED_HAS_GSL", "-DBOOST_IOSTREAMS_DYN_LINK", "-DBOOST_SERIALIZATION_DYN_LINK"]
VARIANTS = {
    "rel": ["-O1", "-DNDEBUG"],
    "dbg": ["-O1"],
    "san": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-sanitize=pointer-overflow", "-include", os.path.join(VERIF, "shim", "bz_monitor.h"), "-DVF_SANITIZED"],
}
LINK = ["-lblitz", "-lgsl", "-lgslcblas", "-lboost_serialization", "-lboost_iostreams"]
HARNESS_FLAGS = ["-include", "boost/preprocessor/iteration/iterate.hpp"]


def sha(path):
    try:
        with open(path, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
    except OSError: return None


class BuildError(Exception): pass


def compile_one(src, variant, extra=()):
    """content-hash cached compilation; returns the object path"""
    tag = src.replace(REPO, "repo").replace(VERIF, "verif").replace("/", "_")
    d = os.path.join(BUILD, variant); os.makedirs(d, exist_ok=True)
    obj, meta, dep = (os.path.join(d, tag + e) for e in (".o", ".json", ".d"))
    cmd = [CXX, "-std=c++20", "-w", "-fno-gnu-unique", *VARIANTS[variant], *DEFS, *extra, "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness"),
           *["-I" + os.path.join(REPO, i) for i in INC], "-isystem", "/usr/include/eigen3", "-MMD", "-MF", dep, "-c", src, "-o", obj]
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmd and os.path.exists(obj) and all(sha(f) == h for f, h in m["deps"].items()): return obj
    except (OSError, ValueError, KeyError): pass
    for f in (meta, obj):
        if os.path.exists(f): os.unlink(f)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode: raise BuildError(src + "\n" + "\n".join(p.stdout.splitlines()[:40]))
    deps = re.sub(r"\\\n", " ", open(dep).read()).split(":", 1)[1].split()
    deps = {f: sha(f) for f in map(os.path.abspath, deps) if f.startswith((REPO + "/", VERIF + "/"))}
    json.dump({"cmd": cmd, "deps": deps}, open(meta, "w"))
    return obj


def renamed(src, variant, name):
    """a program of the repository, compiled as it is, its entry point renamed so that a harness can run it"""
    obj = compile_one(src, variant, HARNESS_FLAGS); out = obj[:-2] + "." + name + ".o"
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(obj): subprocess.run(["objcopy", "--redefine-sym", "main=" + name, obj, out], check=True)
    return out


EXCLUDED = ("CPPQEDutils/Version.cc", "CPPQEDcore/quantumoperator/Transformation.cc", "CPPQEDcore/quantumdata/Transformation.cc")


def lib_sources():
    """every library source in the tree"""
    fs = [f for d in ("CPPQEDutils", "CPPQEDcore", "CPPQEDelements") for f in glob.glob(os.path.join(REPO, d, "**", "*.cc"), recursive=True)]
    return sorted(f for f in fs if not re.search(r"/(examples|testsuite|doc|tests?|testing)/", f, re.I) and os.path.relpath(f, REPO) not in EXCLUDED and not f.endswith("Transformation.cc"))


def extra_sources():
    """library sources which did not exist when the groups of config.py were written"""
    known = {os.path.join(REPO, f) for l in LIBS.values() for f in l}
    return [f for f in lib_sources() if f not in known]


def sources(h):
    H = HARNESSES[h]
    libs = []
    for l in H["libs"]:
        libs += [os.path.join(REPO, f) for f in LIBS[l]]
    libs += extra_sources()
    return [os.path.join(VERIF, "harness", t) for t in H["tus"]] + [os.path.join(VERIF, "harness/main.cc"), os.path.join(VERIF, "shim/versionHelper.cc")], list(dict.fromkeys(libs))


def built(v): return "rel" if v == "vg" else v      # memcheck watches the ordinary build


def build(pairs):
    """pairs: [(harness, variant)]; returns {(harness,variant): exe}"""
    wanted, pairs = pairs, list(dict.fromkeys((h, built(v)) for h, v in pairs))
    exes = build_(pairs)
    return {(h, v): exes[(h, built(v))] for h, v in wanted}


def build_(pairs):
    jobs = {}
    for h, v in pairs:
        tus, libs = sources(h)
        for s in tus: jobs[(s, v)] = HARNESS_FLAGS
        for s in libs:
            if os.path.exists(s): jobs[(s, v)] = ()
        for f in HARNESSES[h].get("scripts", {}).values(): jobs[(os.path.join(REPO, "CPPQEDscripts", f), v)] = HARNESS_FLAGS
    objs, errs, soft = {}, [], set(extra_sources())
    # longest first: harness translation units
    order = sorted(jobs, key=lambda k: (not k[0].startswith(VERIF), -os.path.getsize(k[0]) if os.path.exists(k[0]) else 0))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, s, v, jobs[(s, v)]): (s, v) for s, v in order}
        for f in cf.as_completed(futs):
            try: objs[futs[f]] = f.result()
            except BuildError as e:
                if futs[f][0] not in soft: errs.append(str(e))
    if errs: raise BuildError("\n".join(errs))
    exes = {}
    def link(hv):
        h, v = hv
        tus, libs = sources(h)
        exe = os.path.join(BUILD, v, h)
        o = [objs[(s, v)] for s in tus + libs if (s, v) in objs] + [renamed(os.path.join(REPO, "CPPQEDscripts", f), v, n) for n, f in HARNESSES[h].get("scripts", {}).items()]
        if os.path.exists(exe) and all(os.path.getmtime(x) <= os.path.getmtime(exe) for x in o): return exe
        def ld(os_): return subprocess.run([CXX, *VARIANTS[v], "-o", exe, *os_, *LINK], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        p = ld(o)
        if p.returncode and "undefined reference" in p.stdout:   # definitions may have moved between files: take the whole library
            with cf.ThreadPoolExecutor(JOBS) as ex2:
                more = list(ex2.map(lambda s: compile_one(s, v), [s for s in lib_sources() if s not in libs]))
            ar = exe + ".a"
            if os.path.exists(ar): os.unlink(ar)
            subprocess.run(["ar", "rcs", ar, *more], check=True)
            p = ld(o + [ar])
        if p.returncode: raise BuildError("link " + h + "\n" + p.stdout[-3000:])
        return exe
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for hv, exe in zip(pairs, ex.map(link, pairs)): exes[hv] = exe
    return exes


SAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=0:malloc_context_size=12",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1", "LSAN_OPTIONS": "exitcode=23"}


VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--num-callers=14", "--error-limit=no"]


def vg_key(text):
    """a stable key for a memcheck report: kind + first function of the library on the stack"""
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param|Source and destination overlap|Argument)", text)
    kind = (m.group(1) if m else "error").replace(" ", "-").lower()
    for f in re.findall(r"==\d+==    (?:at|by) 0x[0-9A-F]+: ([\w:~]+)", text[m.start() if m else 0:][:6000]):
        if not f.startswith(("blitz", "std", "boost", "vf", "_", "mem", "str", "operator")): return kind + "@" + f
    return kind + "@?"


def san_key(text):
    """a stable key for a sanitizer report: kind + first frame in the library (line numbers stripped)"""
    m = re.search(r"(?:AddressSanitizer|LeakSanitizer): ([A-Za-z0-9-]+)", text)
    kind = m.group(1) if m else ("runtime-error" if "runtime error" in text else "abort")
    m2 = re.search(r"runtime error: ([a-z -]+)", text)
    if kind == "runtime-error" and m2: kind = "ub:" + m2.group(1).strip().replace(" ", "-")[:40]
    fr = re.search(r"/repo/([\w/+.-]+?):\d+", text)
    return kind + "@" + (fr.group(1) if fr else "?")


def run_one(exe, variant, seed, scale, timeout, only=None, case=None, shard=0, shards=1):
    """returns dict(report=..., crash=...)"""
    scratch = tempfile.mkdtemp(prefix="vf_")
    try:
        out, prog = os.path.join(scratch, "out.json"), os.path.join(scratch, "progress")
        work = os.path.join(scratch, "work"); os.mkdir(work)
        cmd = [exe, "--seed", str(seed), "--scale", str(scale), "--out", out, "--progress", prog]
        if variant == "vg": cmd = VALGRIND + cmd
        if only: cmd += ["--only", only]
        if case: cmd += ["--case", str(case)]
        if shards > 1: cmd += ["--shard", str(shard), "--shards", str(shards)]
        env = dict(os.environ, VF_SCRATCH=work, LC_ALL="C", **SAN_ENV)
        logf = os.path.join(scratch, "log")
        t = time.time()
        with open(logf, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, cwd=work, env=env, start_new_session=True)
            try: rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait(); rc = "timeout"
        sz = os.path.getsize(logf)
        with open(logf, "rb") as f:
            text = f.read(400000) if sz < 400000 else f.read(200000) + b"\n...\n" + (f.seek(sz - 200000), f.read())[1]
        text = text.decode("utf8", "replace")
        rep = None
        try: rep = json.load(open(out))
        except (OSError, ValueError): pass
        where = ""
        try: where = open(prog).read().split("\n")[0].split()
        except OSError: pass
        return dict(rc=rc, report=rep, log=text, where=where, wall=time.time() - t)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings():
    try: return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except OSError: return []


def judge(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    runs = [dict(r) for r in P["runs"] if tier == "thorough" or not r.get("thorough_only")]
    pairs = list(dict.fromkeys((r["harness"], r.get("variant", "rel")) for r in runs))
    try: exes = build(pairs)
    except BuildError as e:
        print("BUILD-ERROR (inconclusive): the harness of %s does not build against the current tree\n%s" % (pid, e)); return 2
    t1 = time.time()
    timeout = 200 if tier == "quick" else 6 * 3600
    hashes = set(); viol, tot, inconclusive = [], dict(evaluations=0, checks=0, distinct=0, counters={}, samples=[]), []
    def go(r):
        v = r.get("variant", "rel"); exe = exes[(r["harness"], v)]
        scale = r.get("quick", 1) if tier == "quick" else r.get("thorough", 10)
        a = (exe, v, seed, scale, timeout, r.get("only"), None, r["shard"], JOBS)
        x = run_one(*a)
        if x["rc"] == "timeout" or x["report"] is None or x["rc"] != 0:
            x2 = run_one(*a)     # confirm before reporting
            if x["rc"] == "timeout" and x2["rc"] != "timeout": x = x2
            elif x2["rc"] == 0 and x2["report"] is not None: x = dict(x2, flaky=x["rc"])
        return r, x
    with cf.ThreadPoolExecutor(JOBS) as ex: results = list(ex.map(go, [dict(r, shard=i) for r in runs for i in range(JOBS)]))
    for r, x in results:
        name = r["harness"] + "/" + r.get("variant", "rel")
        rep = x["report"]
        if rep:
            tot["evaluations"] += rep["evaluations"]; tot["checks"] += rep["checks"]; hashes.update(name + h for h in rep["hashes"])
            for k, n in rep["counters"].items(): tot["counters"][name + ":" + k] = tot["counters"].get(name + ":" + k, 0) + n
            tot["samples"] += rep["samples"][:40]
            if not r.get("ignore_violations"):
                for v in rep["violations"]: viol.append(dict(v, harness=r["harness"], variant=r.get("variant", "rel")))
        sc = x["where"][0] if x["where"] else "?"; cs = x["where"][1] if len(x["where"]) > 1 else "0"
        if x["rc"] == "timeout":
            viol.append(dict(key="hang:" + sc, msg="no answer within %d s, twice" % timeout, scenario=sc, case=cs, harness=r["harness"], variant=r.get("variant", "rel")))
        elif x["rc"] != 0 or rep is None:
            san = bool(re.search("Sanitizer|runtime error:", x["log"]))
            key = ("sanitizer:" + san_key(x["log"])) if san else "crash:%s" % sc
            i = x["log"].find("ERROR:") if san else -1
            if i < 0: i = x["log"].find("runtime error") - 200
            vg = re.search(r"==\d+== (?!\s)", x["log"]) if r.get("variant") == "vg" else None
            if vg: san, i, key = True, vg.start(), "memcheck:" + vg_key(x["log"])
            msg = "rc=%s " % x["rc"] + (x["log"][max(0, i):max(0, i) + 1500] if san else x["log"][-1500:])
            viol.append(dict(key=key, msg=msg, scenario=sc, case=cs, harness=r["harness"], variant=r.get("variant", "rel")))
    tot["distinct"] = len(hashes); tot["samples"] = sorted(set(tot["samples"]))
    known = {(k["property"], k["key"]): k for k in known_findings() if k.get("status") == "known"}
    hit, new = {}, []
    for v in viol:
        k = known.get((pid, v["key"]))
        if k: hit[v["key"]] = k
        else: new.append(v)
    for k in sorted(hit): print("KNOWN-FINDING: property=%s %s" % (pid, hit[k]["what"]))
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*.json")): os.unlink(f)
    seen = set(); nv = 0
    for v in new:
        if v["key"] in seen: continue
        seen.add(v["key"]); nv += 1
        if nv > 8: continue
        path = os.path.join(rdir, "%s-%d.json" % (pid, nv))
        json.dump(dict(v, property=pid, tier=tier, seed=seed, replay_cmd="python3 check.py --replay " + os.path.relpath(path, VERIF)), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key: %s\n  scenario: %s case %s (%s/%s)\n  %s" % (v["key"], v["scenario"], v["case"], v["harness"], v["variant"], v["msg"][:700]))
    minev = P.get("min_distinct", 10)
    if not new and tot["distinct"] < minev:
        print("INCONCLUSIVE: only %d distinct non-trivial cases were observed" % tot["distinct"]); rc = 2
    else: rc = 1 if new else 0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=len(seen),
              coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"], rule=P["rule"], samples=tot["samples"][:60] or ["none"],
                            oracle_checks=tot["checks"], events=tot["counters"], known_findings_observed=sorted(hit), build_s=round(t1 - t0, 2),
                            builds=["%s/%s" % p for p in pairs]),
              assumptions=P.get("assumptions", []))
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, %d oracle checks, %d violations, build %.1fs total %.1fs" % (pid, tier, seed, tot["evaluations"], tot["distinct"], tot["checks"], len(seen), t1 - t0, time.time() - t0))
    return rc


def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--setup":
        # a smoke build only: every check builds for itself from the current tree
        build([("utils_smoke", "rel")]) if "utils_smoke" in HARNESSES else None
        return 0
    if a[0] == "--build":
        ids = a[1:] or list(PROPS)
        pairs = list(dict.fromkeys((r["harness"], r.get("variant", "rel")) for i in ids for r in PROPS[i]["runs"]))
        try: build(pairs)
        except BuildError as e: print(e); return 2
        return 0
    if a[0] == "--replay":
        v = json.load(open(a[1]))
        exe = build([(v["harness"], v["variant"])])[(v["harness"], v["variant"])]
        x = run_one(exe, v["variant"], v["seed"], 1, 900, v["scenario"], v["case"])
        print(x["rc"], json.dumps(x["report"], indent=1) if x["report"] else x["log"][-4000:]); return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1: tier = a[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try: return judge(pid, tier, seed)
    except Exception as e:
        import traceback; traceback.print_exc(); print("ERROR of the check:", e); return 2


if __name__ == "__main__": sys.exit(main())
