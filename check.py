#!/usr/bin/env python3
"""Driver: builds a property's harnesses from /repo's working tree, runs their workloads under the
monitors, and turns what the monitors saw into a verdict, an evidence file and replay files.

  check.py P05 [--tier quick|thorough] [--seed N] [--replay FILE] [--only workload]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed
(harness does not build or run, nothing observed, inconclusive)."""
import sys, os, re, json, time, hashlib, subprocess, threading, argparse, struct, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
REPLAYS = os.path.join(VERIF, "replays")

SAN = {
    "asan": (["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fsanitize-ignorelist=" + os.path.join(VERIF, "harness", "ignore.txt"), "-DVT_SAN_HOOKS"], ["-fsanitize=address,undefined"]),
    "tsan": (["-fsanitize=thread", "-fno-omit-frame-pointer", "-DVT_TSAN", "-DVT_FILL_MAX=0u"], ["-fsanitize=thread"]),
    "none": ([], []),
}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:allocator_may_return_null=0:max_allocation_size_mb=8192:detect_stack_use_after_return=1:quarantine_size_mb=64:strict_string_checks=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("CHECK-ERROR: " + msg)
    sys.exit(2)


# ---------------------------------------------------------------- build
_tree = {}


def tree_hash(with_src):
    """Content hash of everything a file is compiled from; only the library's own sources include each other."""
    if with_src not in _tree:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "include"), os.path.join(VERIF, "harness")) + ((os.path.join(REPO, "src"),) if with_src else ()):
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    if root.endswith("harness") and f.endswith(".cc"):
                        continue
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
        _tree[with_src] = h.hexdigest()
    return _tree[with_src]


def compile_one(job):
    src, flags, cc = job
    with open(src, "rb") as fh:
        body = fh.read()
    key = hashlib.sha256((tree_hash(src.startswith(REPO + "/")) + repr(flags) + cc + src).encode() + body).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", os.path.basename(src).replace(".cc", "") + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        r = subprocess.run([cc] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return (None, "compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[:6000]))
        os.replace(tmp, obj)
    return (obj, None)


def build(bins):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs, index = [], {}
    for name, b in bins.items():
        cflags, lflags = SAN[b.get("san", "asan")]
        cc = b.get("cc", "clang++")
        base = ["-std=" + b.get("std", "c++14"), b.get("opt", "-O1"), "-gline-tables-only" if cc == "clang++" else "-g1", "-w", "-pthread", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
        srcs = [os.path.join(VERIF, "harness", s) for s in b["src"]] + [os.path.join(VERIF, "harness", s) for s in ("vt_main.cc", "vt_alloc.cc")]
        srcs += [os.path.join(REPO, "src", s) for s in b.get("repo_src", [])]

        def flags(s):
            fl = base + cflags + b.get("flags", []) + (b.get("repo_flags", []) if s.startswith(REPO + "/") else [])
            return tuple(f.replace("$REPO", REPO) for f in fl)
        for s in srcs:
            j = (s, flags(s), cc)
            if j not in index:
                index[j] = None
                jobs.append(j)
        b["_jobs"] = [(s, flags(s), cc) for s in srcs]
    # the slowest translation units first
    jobs.sort(key=lambda j: -(9 if j[0].startswith(REPO) else 1) * os.path.getsize(j[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        for j, (obj, err) in zip(jobs, ex.map(lambda j: compile_one((j[0], list(j[1]), j[2])), jobs)):
            if err:
                die(err)
            index[j] = obj
    for name, b in bins.items():
        objs = [index[j] for j in b["_jobs"]]
        key = hashlib.sha256("".join(objs).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, name + "-" + key)
        if not os.path.exists(exe):
            r = subprocess.run([b.get("cc", "clang++")] + SAN[b.get("san", "asan")][1] + ["-pthread"] + objs + ["-o", exe + ".tmp", "-lyaml"] + b.get("ldflags", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                die("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[:4000]))
            os.replace(exe + ".tmp", exe)
        b["_exe"] = exe


# ---------------------------------------------------------------- run
def crash_key(err, rc):
    """Classify a crash by sanitizer verdict and the first frames inside the library."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = m.group(1)
    if not kind:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+|'[^']*'", "", m.group(1).lower()))[:60].strip("-")
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
        if m:
            kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"(Assertion .*failed|terminate called.*|libc\+\+abi.*)", err)
        if m:
            kind = "abort-" + re.sub(r"[^A-Za-z]+", "-", m.group(1))[:60]
    if not kind:
        kind = "signal%d" % -rc if rc < 0 else "exit%d" % rc
    frames = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+)", err):
        fn, path = m.groups()
        if "/include/dart" in path or path.startswith(os.path.join(REPO, "src")):
            fn = re.sub(r"<.*", "", re.sub(r"\(.*", "", fn)).strip().split(" ")[-1]
            f = os.path.relpath(path.split(":")[0], REPO) + ":" + fn.split("::")[-1]
            if f not in frames:
                frames.append(f)
        if len(frames) >= 2:
            break
    return "crash:" + kind + (":" + "<".join(frames) if frames else "")


class Results:
    def __init__(self):
        self.fails = {}      # key -> list of dict
        self.counters, self.samples, self.hash = {}, [], set()
        self.cases = self.evals = self.chunks = self.crashes = 0
        self.inconclusive = []
        self.lk = threading.Lock()


def one_run(prop, b, w, seed, lo, hi, tmp, timeout, extra=()):
    tag = "%s-%s-%d" % (b["_name"], w["name"], lo)
    st, hs = os.path.join(tmp, tag + ".state"), os.path.join(tmp, tag + ".hash")
    for f in (st, hs):
        if os.path.exists(f):
            os.remove(f)
    cmd = [b["_exe"], "--workload", w["name"], "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--state", st, "--hashes", hs]
    if w.get("leak"):
        cmd.append("--leak")
    for (p, k) in load_known():
        if p == prop:
            cmd += ["--known", k]
    cmd += list(extra)
    env = dict(ENV)
    env.update(w.get("env", {}))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=tmp, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    case = None
    if os.path.exists(st):
        with open(st, "rb") as fh:
            d = fh.read(8)
        if len(d) == 8:
            case = struct.unpack("<Q", d)[0]
        os.remove(st)
    hashes = set()
    if os.path.exists(hs):
        with open(hs, "rb") as fh:
            d = fh.read()
        hashes = set(struct.unpack("<%dQ" % (len(d) // 8), d))
        os.remove(hs)
    return rc, out.decode(errors="replace"), err.decode(errors="replace"), case, hashes


def absorb(res, b, w, seed, out, hashes):
    done = None
    for line in out.splitlines():
        f = line.split("\t")
        if f[0] == "FAIL" and len(f) >= 5:
            res.fails.setdefault(f[3], []).append({"bin": b["_name"], "workload": f[1], "case": int(f[2]), "seed": seed, "detail": f[4]})
        elif f[0] == "SUMMARY":
            if f[1] == "cases":
                res.cases += int(f[2])
            elif f[1] == "evals":
                res.evals += int(f[2])
        elif f[0] == "COUNTER":
            res.counters[f[1]] = res.counters.get(f[1], 0) + int(f[2])
        elif f[0] == "SAMPLE" and len(res.samples) < 6:
            res.samples.append({"bin": b["_name"], "workload": w["name"], "seed": seed, "case": f[1][:900]})
        elif f[0] == "DONE":
            done = int(f[1])
    res.hash |= hashes
    return done


def run_chunk(prop, res, b, w, seed, lo, hi, tmp):
    cur, crashes = lo, 0
    limit = w.get("timeout", 240)
    while cur < hi:
        rc, out, err, case, hashes = one_run(prop, b, w, seed, cur, hi, tmp, limit)
        with res.lk:
            done = absorb(res, b, w, seed, out, hashes)
        if rc == "timeout":
            c = case if case is not None else cur
            # Run the single case twice more, alone: only a reproduced hang is a verdict.
            hung = 0
            for _ in range(2):
                rc2, out2, err2, _, _ = one_run(prop, b, w, seed, c, c + 1, tmp, 90)
                hung += rc2 == "timeout"
            with res.lk:
                if hung == 2:
                    res.fails.setdefault("hang:" + w["name"], []).append({"bin": b["_name"], "workload": w["name"], "case": c, "seed": seed, "detail": "case does not finish within 90 s (others take milliseconds)"})
                else:
                    res.inconclusive.append("%s/%s from %d: slower than %d s" % (b["_name"], w["name"], cur, limit))
            return
        if done is not None and rc == 0:
            return          # finished, or stopped after enough failures
        if rc == 3 and "SUMMARY" not in out:
            with res.lk:
                res.inconclusive.append("harness error: " + err[-400:])
            return
        if case is None:
            with res.lk:
                res.inconclusive.append("%s died before its first case: rc=%s %s" % (b["_name"], rc, err[-1500:]))
            return
        key = crash_key(err, rc)
        with res.lk:
            res.crashes += 1
            res.cases += case - cur + 1
            res.fails.setdefault(key, []).append({"bin": b["_name"], "workload": w["name"], "case": case, "seed": seed, "detail": err[:6000]})
        crashes += 1
        if crashes >= 4:
            return
        cur = case + 1


def load_known():
    """KNOWN_FINDINGS.txt:  finding: property=<id> key=<key> :: <what>   (fixed: lines suppress nothing)"""
    known = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(.+?) :: (.*)", line.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    from checks import CHECKS
    if a.prop not in CHECKS:
        die("unknown property " + a.prop)
    spec = CHECKS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    bins = spec["bins"]
    for n, b in bins.items():
        b["_name"] = n
    if a.replay:
        rp = json.load(open(a.replay))
        build({rp["bin"]: bins[rp["bin"]]})
        w = next(w for w in spec["runs"] if w["name"] == rp["workload"] and w["bin"] == rp["bin"])
        rc, out, err, case, _ = one_run(a.prop, bins[rp["bin"]], w, rp["seed"], rp["case"], rp["case"] + 1, "/tmp", 300, ["-v"])
        print(out)
        print(err)
        bad = rc != 0 or "FAIL\t" in out
        print("reproduced" if bad else "not reproduced")
        sys.exit(1 if bad else 0)
    build(bins)
    t_build = time.time() - t0
    if a.build_only:
        log("built in %.1f s" % t_build)
        return
    tmp = os.path.join(BUILD, "run-%s-%d" % (a.prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    res = Results()
    tasks = []
    for w in spec["runs"]:
        if a.only and w["name"] != a.only:
            continue
        n = int(w[tier] * a.scale)
        if n <= 0:
            continue
        chunk = max(1, min(w.get("chunk", 10 ** 9), -(-n // w.get("split", JOBS))))
        for lo in range(0, n, chunk):
            tasks.append((bins[w["bin"]], w, lo, min(n, lo + chunk)))
    try:
        par = spec.get("parallel", JOBS)
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(lambda t: run_chunk(a.prop, res, t[0], t[1], a.seed, t[2], t[3], tmp), tasks))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = load_known()
    viol, seen_known = [], []
    for key, fs in sorted(res.fails.items()):
        if (a.prop, key) in known:
            seen_known.append((key, fs))
        else:
            viol.append((key, fs))
    for (p, key), what in known.items():
        if p == a.prop:
            log("KNOWN-FINDING: property=%s %s (%s)%s" % (p, what, key, "" if any(k == key for k, _ in seen_known) else " [not reached in this run]"))

    missing = [c for c in spec.get("require", []) if res.counters.get(c, 0) == 0]
    cov = {
        "evaluations": res.evals,
        "distinct_nontrivial": len(res.hash),
        "rule": spec["rule"],
        "samples": res.samples or ["(none)"],
        "cases": res.cases,
        "observed": dict(sorted(res.counters.items())),
        "workloads": [{"bin": w["bin"], "workload": w["name"], "cases": int(w[tier] * a.scale)} for w in spec["runs"] if w[tier] > 0],
        "crashes_seen": res.crashes,
        "violations": [k for k, _ in viol],
        "known_findings_seen": [k for k, _ in seen_known],
        "inconclusive": res.inconclusive,
        "build_s": round(t_build, 1),
    }
    ev = {"property": a.prop, "tier": tier, "seed": a.seed, "level": spec.get("level", "exploration"), "coverage": cov, "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", a.prop + ".json")
    with open(p + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(p + ".tmp", p)

    if viol:
        os.makedirs(REPLAYS, exist_ok=True)
        for key, fs in viol:
            f = dict(fs[0])
            rp = os.path.join(REPLAYS, "%s-%s.json" % (a.prop, hashlib.sha256(key.encode()).hexdigest()[:10]))
            f.update({"property": a.prop, "key": key, "times": len(fs), "how": "python3 check.py %s --replay %s" % (a.prop, rp)})
            with open(rp, "w") as fh:
                json.dump(f, fh, indent=1)
            log("  %s (x%d) %s case %d: %s" % (key, len(fs), f["workload"], f["case"], f["detail"][:700]))
            log("VIOLATION property=%s replay=%s" % (a.prop, rp))
        sys.exit(1)
    if res.inconclusive:
        die("inconclusive: " + "; ".join(res.inconclusive)[:3000])
    if res.cases == 0 or res.evals == 0 or len(res.hash) == 0:
        die("nothing was observed")
    if missing and a.scale >= 1 and not a.only:
        die("the monitors never saw: " + ", ".join(missing))
    log("OK property=%s tier=%s cases=%d evaluations=%d distinct=%d build=%.0fs total=%.0fs" % (a.prop, tier, res.cases, res.evals, len(res.hash), t_build, time.time() - t0))


if __name__ == "__main__":
    main()
