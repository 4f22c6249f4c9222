#!/usr/bin/env python3
"""Driver of the bounded-exhaustive checks: build the explorers from /repo's working tree, run them,
confirm what they report by replaying it, write the evidence file.

    run.py C03 [--tier quick|thorough]      one check
    run.py --replay replays/C03-1.json      replay one recorded violation
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

CXX = "g++"
COMMON = ["-std=c++14", "-include", "cstdint", "-D_GLIBCXX_ASSERTIONS",
          "-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(ROOT, "harness"),
          "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "shims"),
          "-DREPO_DIR=\"" + REPO + "\"", "-w"]
VARIANTS = {
    # pragmas ignored: what the sequential program does, with undefined behaviour trapped
    "asan": ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "fast": ["-O2", "-g1", "-fopenmp", "-DMC_MEMORY_GB=6"],
    "plain": ["-O1", "-DMC_MEMORY_GB=3"],
    "tsan": ["-O2", "-g1", "-fopenmp", "-fsanitize=thread", "-DMC_OMP_TSAN"],
}
COMPILER = {"asan": "clang++"}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "plain": [],
    "fast": [],
    "tsan": [],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=6000:abort_on_error=1:"
                        "detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=4000",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1",
           OMP_NUM_THREADS="3")
STALL_S = 150       # no new case for that long: the running case is a candidate hang
REPLAY_S = 200


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    for base, sub in ((REPO, "include"), (REPO, "src"), (ROOT, "lib"), (ROOT, "harness"), (ROOT, "shims")):
        for d, ds, fs in sorted(os.walk(os.path.join(base, sub))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        err = [x for x in r.stdout.splitlines() if "error" in x or "undefined" in x] or r.stdout.splitlines()
        raise BuildError(" ".join(cmd) + "\n" + "\n".join(err)[:2000])
    return r.stdout


_lock = threading.Lock()
_omp = {}


def omp_lib(variant, outdir):
    kind = "tsan" if variant == "tsan" else "plain"
    with _lock:
        if kind in _omp:
            return _omp[kind]
        out = os.path.join(outdir, "libmcomp-%s.so" % kind)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            sh([CXX, "-std=c++14", "-O2", "-g1", "-fPIC", "-shared", "-Wl,-Bsymbolic"]
               + (["-DMC_OMP_TSAN"] if kind == "tsan" else [])
               + [os.path.join(ROOT, "lib", "mc_omp.cpp"), "-o", tmp])
            os.rename(tmp, out)
        _omp[kind] = out
        return out


def build(src, variant, flags, libs, outdir):
    """Compile one explorer; returns the binary's path."""
    key = hashlib.sha256(repr((src, variant, flags, libs)).encode()).hexdigest()[:12]
    exe = os.path.join(outdir, "%s-%s" % (os.path.basename(src).split(".")[0], key))
    if os.path.exists(exe):
        return exe
    lib = omp_lib(variant, outdir) if "-fopenmp" in VARIANTS[variant] else None
    obj = exe + ".%d.o" % os.getpid()
    cxx = COMPILER.get(variant, CXX)
    sh([cxx] + COMMON + VARIANTS[variant] + flags + ["-c", os.path.join(ROOT, "harness", src), "-o", obj])
    if lib:
        args = []
        if variant == "tsan":
            for f in ("memcpy", "memmove", "memset"):
                args += ["--redefine-sym", "%s=mc_%s" % (f, f)]
        args += ["--redefine-sym", "__cxa_guard_acquire=mc_guard_acquire",
                 "--redefine-sym", "__cxa_guard_release=mc_guard_release"]
        sh(["objcopy"] + args + [obj])
    tmp = exe + ".%d.tmp" % os.getpid()
    sh([cxx] + LINK[variant] + [obj] + ([lib, "-Wl,-rpath," + outdir, "-lpthread"] if lib else []) + libs + ["-o", tmp])
    os.unlink(obj)
    os.rename(tmp, exe)
    return exe


_running = set()  # process groups of the explorers


def stopped(signum, _):
    for pid in list(_running):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    os._exit(128 + signum)


def case_of(shm):
    try:
        with open(shm, "rb") as f:
            return int.from_bytes(f.read(8), "little")
    except OSError:
        return 0


def execute(exe, part, tier, workdir, extra=(), limit=None, stall=STALL_S):
    """Run an explorer part. Returns (status, result, case, stderr-tail); status: ok, violated, crash, hang."""
    os.makedirs(workdir, exist_ok=True)
    out = os.path.join(workdir, "out.json")
    shm = os.path.join(workdir, "shm")
    err = os.path.join(workdir, "stderr")
    for p in (out, shm):
        if os.path.exists(p):
            os.unlink(p)
    with open(err, "wb") as ef:
        p = subprocess.Popen([exe, "--part", part, "--tier", tier, "--out", out, "--shm", shm] + list(extra),
                             stdout=ef, stderr=ef, cwd=workdir, env=ENV, start_new_session=True)
        _running.add(p.pid)
        t0 = time.time()
        last, last_t = -1, t0
        status = None
        delay = 0.005
        while True:
            try:
                p.wait(timeout=delay)
                break
            except subprocess.TimeoutExpired:
                pass
            delay = min(delay * 1.5, 0.5)
            c = case_of(shm)
            now = time.time()
            if c != last:
                last, last_t = c, now
            if now - last_t > stall or (limit and now - t0 > limit):
                status = "hang"
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    _running.discard(p.pid)
    with open(err, "rb") as f:
        tail = f.read()[-6000:].decode("utf-8", "replace")
    case = case_of(shm)
    res = None
    if os.path.exists(out):
        try:
            with open(out) as f:
                res = json.load(f)
        except ValueError:
            res = None
    if status == "hang":
        return "hang", res, case, tail
    if p.returncode == 0 and res is not None:
        return "ok", res, case, tail
    if p.returncode == 1 and res is not None:
        return "violated", res, case, tail
    if p.returncode == 3:
        raise BuildError("explorer refused to run: " + tail)
    return "crash", res, case, tail


def known_findings():
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                fields = dict(x.split("=", 1) for x in line[7:].split(" | ")[0].split() if "=" in x)
                out[(fields.get("property"), fields.get("key"))] = line[7:].strip()
    return out


def confirm(job, tier, case, want, workdir, key=None):
    """Replay before report. want: 'violated', 'crash' or 'hang'."""
    for extra, label in ((["--only", str(case), "--trace"], "only"), (["--upto", str(case)], "upto")):
        st, res, c, tail = execute(job["exe"], job["part"], tier, workdir, extra,
                                   limit=REPLAY_S if label == "only" else 700)
        if st == "hang" and want != "hang":
            continue
        if want == "violated" and st == "violated" and any(v["case"] == case for v in res["violations"]):
            return label, tail
        if want in ("crash", "hang") and st == want and c == case:
            return label, tail
    return None, ""


def run_check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    outdir = os.path.join(BUILD, tree_hash()[:16])
    os.makedirs(outdir, exist_ok=True)
    replays = os.path.join(ROOT, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    work = os.path.join(outdir, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)

    units = spec["units"]
    jobs = []
    built = {}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = {}
        for u in units:
            k = (u["src"], u.get("variant", "asan"), tuple(u.get("flags", [])), tuple(u.get("libs", [])))
            if k not in futs:
                futs[k] = ex.submit(build, k[0], k[1], list(k[2]), list(k[3]), outdir)
        for k, f in futs.items():
            built[k] = f.result()
    for u in units:
        k = (u["src"], u.get("variant", "asan"), tuple(u.get("flags", [])), tuple(u.get("libs", [])))
        parts = u.get("parts")
        if tier == "thorough" and "thorough_parts" in u:
            parts = parts + u["thorough_parts"]
        for p in parts:
            jobs.append(dict(exe=built[k], part=p, src=u["src"], variant=k[1]))
    build_s = time.time() - t0

    def go(i):
        j = jobs[i]
        return execute(j["exe"], j["part"], tier, os.path.join(work, "j%d" % i))

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(go, range(len(jobs))))

    counters, info, samples, distinct, cases = {}, {}, [], 0, 0
    violations = []
    unconfirmed = []
    complete = True
    for i, (st, res, case, tail) in enumerate(results):
        j = jobs[i]
        if res:
            for k, v in res["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in res["info"].items():
                info[j["part"] + "." + k] = v
            samples += ["%s: %s" % (j["part"], s) for s in res["samples"]]
            distinct += res["distinct"]
            cases += res["cases"]
            complete = complete and res["complete"]
        if st == "violated":
            seen = set()
            for v in res["violations"]:
                vk = v["key"] or ("%s#%d" % (j["part"], v["case"]))
                if vk in seen:
                    continue
                seen.add(vk)
                violations.append(dict(job=j, kind="violated", case=v["case"], key=vk, desc=v["desc"], msg=v["msg"]))
        elif st in ("crash", "hang"):
            violations.append(dict(job=j, kind=st, case=case, key="%s#%d" % (j["part"], case), desc="",
                                   msg="the code under test %s\n%s" % (
                                       "crashed" if st == "crash" else "did not return", tail)))
    known = known_findings()
    reported, known_hit = [], []
    n_conf = 0
    for v in violations:
        kf = known.get((pid, v["key"]))
        if kf is not None:
            known_hit.append(kf)
            continue
        if n_conf >= 4:
            continue
        how, tail = confirm(v["job"], tier, v["case"], v["kind"], os.path.join(work, "confirm"))
        if how is None:
            unconfirmed.append(v)
            continue
        n_conf += 1
        if not v["desc"]:
            for line in tail.splitlines():
                if line.startswith("case %d: " % v["case"]):
                    v["desc"] = line
        v["how"] = how
        path = os.path.join(replays, "%s-%d.json" % (pid, len(reported) + 1))
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, src=v["job"]["src"], variant=v["job"]["variant"],
                           part=v["job"]["part"], case=v["case"], how=how, kind=v["kind"], key=v["key"],
                           case_text=v["desc"], message=v["msg"],
                           replay="python3 run.py --replay " + os.path.relpath(path, ROOT)), f, indent=1)
        v["path"] = path
        reported.append(v)

    cov = dict(counters)
    level = spec["level"]
    if level == "model_checking":
        cov.setdefault("states", 0)
        cov.setdefault("transitions", 0)
        cov["traces_validated_against_impl"] = cov.pop("traces", 0)
        cov["cases"] = cases
        cov["distinct"] = distinct
    else:
        cov["evaluations"] = cases
        cov["distinct_nontrivial"] = distinct
    cov["rule"] = spec["rule"]
    cov["samples"] = samples[:40] or ["(none)"]
    cov["exhaustive"] = bool(complete and not violations and not counters.get("capped", 0))
    if info:
        cov["info"] = info
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(reported))
    cov["build_s"] = round(build_s, 2)
    tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    shutil.rmtree(work, ignore_errors=True)

    for k in sorted(set(known_hit)):
        text = k.split(" | ", 1)[1] if " | " in k else k
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    for v in reported:
        print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
        print("  part %s case %d [%s]: %s" % (v["job"]["part"], v["case"], v["desc"][:300], v["msg"][:600]))
    if reported:
        return 1
    if unconfirmed:
        for v in unconfirmed:
            print("ERROR: %s in part %s case %d did not reproduce: %s" % (v["kind"], v["job"]["part"], v["case"],
                                                                           v["msg"][:800]))
        return 2
    print("OK property=%s tier=%s cases=%d distinct=%d %s wall=%.1fs (build %.1fs)" % (
        pid, tier, cases, distinct, " ".join("%s=%d" % kv for kv in sorted(counters.items())), time.time() - t0,
        build_s))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    spec = CHECKS[r["property"]]
    outdir = os.path.join(BUILD, tree_hash()[:16])
    os.makedirs(outdir, exist_ok=True)
    for u in spec["units"]:
        if u["src"] == r["src"] and u.get("variant", "asan") == r["variant"] \
                and r["part"] in u["parts"] + u.get("thorough_parts", []):
            exe = build(u["src"], u.get("variant", "asan"), list(u.get("flags", [])), list(u.get("libs", [])), outdir)
            st, res, case, tail = execute(exe, r["part"], r["tier"], os.path.join(outdir, "replay"),
                                          ["--" + r["how"], str(r["case"]), "--trace"], limit=REPLAY_S)
            print(tail)
            print("replay:", st, "at case", case)
            return 1 if st != "ok" else 0
    print("no such part")
    return 2


def main():
    args = sys.argv[1:]
    signal.signal(signal.SIGTERM, stopped)
    signal.signal(signal.SIGINT, stopped)
    if args == ["--setup"]:  # every check builds what it needs; make sure the tools are there
        print(sh([CXX, "--version"]).splitlines()[0])
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if args and args[0] == "--replay":
        return replay(args[1])
    rc = 0
    for pid in (args or sorted(CHECKS)):
        try:
            rc = max(rc, run_check(pid, tier))
        except BuildError as e:
            print("ERROR: %s cannot be built: %s" % (pid, e))
            rc = max(rc, 2)
    return rc


if __name__ == "__main__":
    sys.exit(main())
