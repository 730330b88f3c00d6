#!/usr/bin/env python3
"""Builds /repo's current working tree with the monitors of one property, runs
them, decides, and writes evidence/<id>.json.

  run.py <property>          the check (tier from VERIF_TIER, default quick)
  run.py --setup             build everything
"""
import hashlib, json, os, re, subprocess, sys, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
JOBS = 8
sys.path.insert(0, VERIF)
import checks as CH


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            if ".git" in ds:
                ds.remove(".git")
            for f in sorted(fs):
                p = os.path.join(root, f)
                if os.path.splitext(f)[1] in (".hpp", ".h", ".cpp", ".cc", ".c", ".s", ".S", ".inc", ".txt", ".py", ".cmake"):
                    h.update(p.encode())
                    h.update(read(p))
    return h.hexdigest()


_th = None


def repo_hash():
    global _th
    if _th is None:
        _th = tree_hash([os.path.join(REPO, x) for x in
                         ("include", "src", "thirdparties/spqlios", "thirdparties/randen", "tutorial")]
                        + [os.path.join(VERIF, "harness")])
    return _th


class BuildError(Exception):
    pass


def lib_sources():
    s = sorted(glob.glob(REPO + "/src/*.cpp"))
    sp = REPO + "/thirdparties/spqlios/"
    s += [sp + x for x in CH.SPQLIOS]
    s += [REPO + "/thirdparties/randen/randen.cc"]
    return s


def compile_one(cc, flags, src):
    key = sha(cc, " ".join(flags), src, repo_hash())
    os.makedirs(BUILD + "/obj", exist_ok=True)
    out = "%s/obj/%s.o" % (BUILD, key)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        fl = list(flags)
        if src.endswith(".s"):
            fl = [f for f in fl if not f.startswith("-fsanitize") and not f.startswith("-ftrivial")]
        elif src.endswith("randen.cc"):
            # as in the project: this file is the generator core (AES intrinsics)
            pass
        cmd = [cc] + fl + ["-c", src, "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        os.rename(tmp, out)
    return out


def build(jobs):
    """jobs: list of job dicts; returns map job-name -> executable"""
    exes = {}
    plan = []
    for j in jobs:
        cc, flags, ldflags = CH.variant(j["variant"], REPO, VERIF)
        srcs = [os.path.join(VERIF, "harness", s) for s in j["src"]]
        srcs += [os.path.join(REPO, s) for s in j.get("reposrc", [])]
        if j.get("lib", True):
            srcs += lib_sources()
        srcs += [os.path.join(VERIF, "harness", s) for s in CH.variant_extra(j["variant"])]
        plan.append((j, cc, flags + j.get("flags", []), ldflags, srcs))
    todo = {}
    for j, cc, flags, ld, srcs in plan:
        for s in srcs:
            # per-job flags only for harness sources, so that library objects are shared
            _, vf, _ = CH.variant(j["variant"], REPO, VERIF)
            fl = flags if s.startswith(VERIF) else vf
            todo[(cc, tuple(fl), s)] = None
    with ThreadPoolExecutor(JOBS) as ex:
        # longest first: harness sources tend to be the slowest
        keys = sorted(todo, key=lambda k: (not k[2].startswith(VERIF), k[2]))
        futs = {k: ex.submit(compile_one, k[0], list(k[1]), k[2]) for k in keys}
        for k, f in futs.items():
            try:
                todo[k] = f.result()
            except BuildError as e:
                todo[k] = e
    for j, cc, flags, ld, srcs in plan:
        _, vf, _ = CH.variant(j["variant"], REPO, VERIF)
        bad = [todo[k] for k in ((cc, tuple(flags if s.startswith(VERIF) else vf), s) for s in srcs) if isinstance(todo[k], BuildError)]
        if bad:
            # a configuration that does not build is the finding where configurations are judged
            if not j.get("config"):
                raise bad[0]
            exes[j["name"]] = bad[0]
            continue
        objs = [todo[(cc, tuple(flags if s.startswith(VERIF) else vf), s)] for s in srcs]
        key = sha(cc, " ".join(ld), *objs)
        os.makedirs(BUILD + "/bin", exist_ok=True)
        exe = "%s/bin/%s-%s" % (BUILD, j["name"], key)
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            r = subprocess.run([cc] + objs + ld + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("link failed: %s\n%s" % (j["name"], r.stdout[-4000:]))
            os.rename(tmp, exe)
        exes[j["name"]] = exe
    return exes


def parse_sanitizer(err, job):
    """fail records from sanitizer output"""
    fails = {}
    def add(key, detail):
        if key in fails:
            fails[key]["times"] += 1
        else:
            fails[key] = {"key": key, "detail": detail[:1500], "times": 1}
    for m in re.finditer(r"^(\S+?):(\d+):(?:\d+:)? runtime error: (.*)$", err, re.M):
        msg = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(3))
        msg = re.sub(r"0x[0-9a-fN]+", "ADDR", msg)
        msg = re.sub(r"'[^']*'", "T", msg)[:100]
        add("ubsan:%s:%s" % (os.path.basename(m.group(1)), msg), "%s:%s: %s" % (m.group(1), m.group(2), m.group(3)))
    for m in re.finditer(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)", err):
        kind = re.sub(r"0x[0-9a-f]+|\d+", "", m.group(2)).split(" on ")[0].strip()[:60]
        tail = err[m.start():m.start() + 3500]
        frame = ""
        for f in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+)", tail):
            if "TFHEpp" in f.group(1) or "FFT_Processor" in f.group(1) or "randen" in f.group(1) or "fft" in f.group(1):
                frame = re.sub(r"[<(].*", "", f.group(1))
                break
        add("%s:%s:%s" % (m.group(1), kind, frame), tail)
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]*)", err):
        tail = err[m.start():m.start() + 3500]
        frame = ""
        for f in re.finditer(r"#\d+ (\S+)", tail):
            if "TFHEpp" in f.group(1) or "FFT_Processor" in f.group(1) or "randen" in f.group(1):
                frame = re.sub(r"[<(].*", "", f.group(1))
                break
        add("tsan:%s:%s" % (m.group(1).strip(), frame), tail)
    for m in re.finditer(r"==\d+== (Invalid (?:read|write|free)[^\n]*|Conditional jump[^\n]*|Use of uninit[^\n]*|Mismatched free[^\n]*|Syscall param [^\n]*uninit[^\n]*)", err):
        tail = err[m.start():m.start() + 2500]
        frame = ""
        for f in re.finditer(r"(?:at|by) 0x[0-9A-F]+: (\S+)", tail):
            frame = re.sub(r"[<(].*", "", f.group(1))
            if "TFHEpp" in frame or "FFT" in frame:
                break
        add("memcheck:%s:%s" % (re.sub(r"\d+", "N", m.group(1))[:50], frame), tail)
    return list(fails.values())


EXES = {}


def run_job(j, exe, workdir):
    if isinstance(exe, BuildError):
        m = re.search(r"^\S*?(?:/repo/|%s/)(\S*?:\d+):\d+: (?:fatal )?error: (.*)$" % re.escape(REPO), str(exe), re.M)
        return {"job": j["name"], "rc": 1, "wall": 0, "res": None, "cmd": [], "env": {},
                "fails": [{"key": "build:" + j["config"], "detail": "this configuration does not compile: %s" % (" ".join(m.groups()) if m else str(exe)[-600:]), "times": 1}]}
    out = os.path.join(workdir, j["name"] + ".json")
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ)
    env.update({"VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "OMP_WAIT_POLICY": "passive",
                "ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=0:halt_on_error=1:exitcode=66:strict_string_checks=1:detect_odr_violation=0:abort_on_error=0:allocator_may_return_null=0:malloc_context_size=12",
                "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0",
                "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:history_size=4:second_deadlock_stack=1",
                "VH_WORK": workdir})
    env.update({k: str(v) for k, v in j.get("env", {}).items()})
    cmd = j.get("wrap", []) + [exe] + j.get("args", []) + ["--out", out]
    if "script" in j:   # a driver of several built programs
        cmd = [sys.executable, os.path.join(VERIF, "harness", j["script"])] + [x[1:] and EXES[x[1:]] if x.startswith("@") else x for x in j.get("args", [])] + ["--out", out]
    t0 = time.time()
    limit = j.get("timeout", 420 if TIER == "quick" else 3600)
    so = open(os.path.join(workdir, j["name"] + ".log"), "wb")
    se = open(os.path.join(workdir, j["name"] + ".err"), "wb")
    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    hang = False
    p = subprocess.Popen(cmd, stdout=so, stderr=se, env=env, cwd=workdir, preexec_fn=pre)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        hang = True
        p.kill()
        rc = p.wait()
    so.close(); se.close()
    err = open(se.name, errors="replace").read()
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except Exception:
            res = None
    fails = parse_sanitizer(err, j)
    if res and not j.get("sanonly"):
        fails += res["fails"]
    if hang:
        fails.append({"key": "hang:" + j["name"], "detail": "did not end within %d s" % limit, "times": 1})
    elif res is None and not fails:
        fails.append({"key": "crash:" + j["name"], "detail": "exit %s, no result; stderr tail: %s" % (rc, err[-1200:]), "times": 1})
    elif rc not in (0, 66) and not fails:
        fails.append({"key": "exit:" + j["name"], "detail": "exit %s; stderr tail: %s" % (rc, err[-1200:]), "times": 1})
    return {"job": j["name"], "rc": rc, "wall": time.time() - t0, "res": res, "fails": fails,
            "cmd": cmd, "env": j.get("env", {})}


def known(pid):
    ks = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                ks.append((m.group(2), m.group(3)))
    return ks


def check(pid):
    t0 = time.time()
    spec = CH.CHECKS[pid]
    jobs = [j for j in spec["jobs"] if j.get("tier") in (None, TIER)]
    workdir = os.path.join(BUILD, "work-" + pid)
    os.makedirs(workdir, exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    try:
        exes = build([j for j in jobs if "script" not in j])
        EXES.update(exes)
    except BuildError as e:
        print("ERROR building monitors for %s: %s" % (pid, e))
        return 2
    tb = time.time() - t0
    for f in glob.glob(workdir + "/*.digest"):
        os.remove(f)
    results = []
    # run groups of jobs together: jobs with the same "group" run concurrently
    groups = {}
    for j in jobs:
        if j.get("aux"):   # only built, for a driver
            continue
        groups.setdefault(j.get("group", "g"), []).append(j)
    for g in sorted(groups):
        with ThreadPoolExecutor(CH.PAR if spec.get("par") is None else spec["par"]) as ex:
            results += list(ex.map(lambda j: run_job(j, exes.get(j["name"]), workdir), groups[g]))
    if "post" in spec:
        results += spec["post"](results, workdir, SEED, TIER)
    fails, evals, dist, counts, metrics, samples = [], 0, 0, {}, {}, []
    for r in results:
        for f in r["fails"]:
            f["job"] = r["job"]
            fails.append(f)
        if r["res"]:
            evals += r["res"]["evals"]
            dist += r["res"]["distinct"]
            for k, v in r["res"]["counts"].items():
                counts[k] = counts.get(k, 0) + v
            for k, v in r["res"]["metrics"].items():
                metrics[(r["job"] + "/" if len(jobs) > 1 else "") + k] = v
            samples += r["res"]["samples"][:12]
    ks = known(pid)
    new, seen = [], {}
    for f in fails:
        hit = [d for k, d in ks if k == f["key"]]
        if hit:
            seen[f["key"]] = hit[0]
        else:
            new.append(f)
    for k, d in seen.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, d, k))
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
          "coverage": {"evaluations": int(evals), "distinct_nontrivial": int(dist), "rule": spec["rule"],
                       "samples": samples[:24], "observed": counts, "metrics": metrics,
                       "executions": [{"job": r["job"], "wall_s": round(r["wall"], 2), "exit": r["rc"]} for r in results],
                       "build_s": round(tb, 1)},
          "assumptions": CH.ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if new:
        rep = os.path.join(BUILD, "replay-%s.json" % pid)
        with open(rep, "w") as f:
            json.dump({"property": pid, "seed": SEED, "tier": TIER, "violations": new,
                       "runs": [{"job": r["job"], "cmd": r["cmd"], "env": r["env"]} for r in results if r["fails"]]}, f, indent=1)
        for f in new[:12]:
            print("  [%s] %s: %s" % (f["job"], f["key"], f["detail"][:400].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s evaluations=%d distinct=%d build=%.0fs wall=%.0fs" % (pid, evals, dist, tb, time.time() - t0))
    return 0


def setup():
    """Checks the toolchain by building and running one monitor; every check builds what it needs from /repo."""
    t0 = time.time()
    try:
        build([j for j in CH.CHECKS["C04"]["jobs"]])
    except BuildError as e:
        print(e)
        return 1
    print("toolchain works (%.0f s); each check builds its monitors from /repo's working tree" % (time.time() - t0))
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        sys.exit(setup())
    sys.exit(check(sys.argv[1]))
