#!/usr/bin/env python3
"""Builds the monitors of one property from /repo's current tree, runs them, and judges what they observed.

usage: check.py <property> [--tier quick|thorough] [--job STAGE:N] [--run N] [--keep]
Exit status: 0 the property held on everything observed; 1 a violation (VIOLATION line); 2 the check itself failed.
Environment: VERIF_SEED (default 1), VERIF_TIER, VERIF_REPO (development only: another tree than /repo).
"""
import array, concurrent.futures, glob, hashlib, json, mmap, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS, CHECKS_EXTRA, FLAVORS

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF if REPO == "/repo" else BUILD, "evidence")
CXX = "/usr/bin/clang++-18"
BASE = ["-std=gnu++20", "-maes", "-mpclmul"]
for h in "cstring algorithm memory variant filesystem stdexcept functional".split():
    BASE += ["-include", h]
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
ENV = {k: v for k, v in os.environ.items() if k not in
       ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS", "LD_PRELOAD", "CPATH", "CPLUS_INCLUDE_PATH")}
ENV["LC_ALL"] = "C.UTF-8"


class CheckError(Exception):
    pass


def files_under(*dirs):
    out = []
    for d in dirs:
        for root, _, names in os.walk(d):
            out += [os.path.join(root, n) for n in names if n.endswith((".h", ".cpp", ".hpp", ".inc", ".cc"))]
    return sorted(out)


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


POOL = concurrent.futures.ThreadPoolExecutor(WORKERS)


def compile_one(src, obj, flags):
    cmd = [CXX] + BASE + flags + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-c", src, "-o", obj]
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise CheckError("compilation of %s failed:\n%s" % (src, r.stdout[-4000:]))


def build(harness, flavor):
    fl = FLAVORS[flavor]
    flags, libs = fl["cxx"], fl.get("ld", [])
    lib_src = files_under(os.path.join(REPO, "src"))
    lib_src = [s for s in lib_src if s.endswith(".cpp")]
    heads = files_under(os.path.join(REPO, "include")) + files_under(os.path.join(REPO, "src"))
    hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
    key = digest(heads + files_under(os.path.join(VERIF, "harness")), " ".join(BASE + flags + libs) + harness + REPO)
    libkey = digest(heads, " ".join(BASE + flags) + REPO)
    exe = os.path.join(BUILD, key, harness)
    if os.path.exists(exe):
        os.utime(os.path.dirname(exe))
        return exe
    prune()
    libdir = os.path.join(BUILD, "lib-" + libkey)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    os.makedirs(libdir, exist_ok=True)
    jobs, objs = [], []
    for n in [harness] + CHECKS_EXTRA.get(harness, []) + ["refs", "common"]:
        o = os.path.join(os.path.dirname(exe), n + ".o")
        jobs.append((os.path.join(VERIF, "harness", n + ".cpp"), o))
        objs.append(o)
    for s in lib_src:
        o = os.path.join(libdir, os.path.relpath(s, os.path.join(REPO, "src")).replace("/", "_") + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    jobs.sort(key=lambda j: (not j[0].startswith(VERIF), -os.path.getsize(j[0])))
    futs = []
    for s, o in jobs:
        tmp = o + ".tmp%d.%s" % (os.getpid(), harness)
        futs.append((POOL.submit(compile_one, s, tmp, flags), tmp, o))
    for f, tmp, o in futs:
        f.result()
        os.rename(tmp, o)
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run([CXX] + flags + objs + ["-o", tmp] + libs + ["-lcrypto", "-lgmpxx", "-lgmp", "-lpthread"],
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise CheckError("linking %s failed:\n%s" % (harness, r.stdout[-4000:]))
    os.rename(tmp, exe)
    return exe


def prune(keep=40):
    if not os.path.isdir(BUILD):
        return
    ds = sorted((d for d in glob.glob(BUILD + "/*") if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


class Run:
    """One workload: several workers of one instrumented program sharing a queue of jobs."""

    def __init__(self, prop, spec, index, tier, seed, scratch, job=None):
        self.prop, self.spec, self.index, self.tier, self.seed, self.job = prop, spec, index, tier, seed, job
        self.dir = os.path.join(scratch, "run%d" % index)
        os.makedirs(self.dir)
        self.fails, self.evals, self.classes, self.counters, self.samples = [], 0, set(), {}, []
        self.jobs_done, self.longest = 0, {}

    def argv(self, exe, w, out, queue, job=None):
        sp = self.spec
        a = list(FLAVORS[sp["flavor"]].get("wrap", []))
        a = [x.replace("%LOG%", os.path.join(self.dir, "tool.%d" % w)) for x in a]
        a += [exe, "--out", out, "--queue", queue, "--tier", self.tier, "--seed", str(self.seed), "--worker", str(w)]
        lim = FLAVORS[sp["flavor"]].get("limit_scale", 1)
        if lim != 1:
            a += ["--limit-scale", str(lim)]
        sc = sp.get("scale", {}).get(self.tier, 1)
        if sc != 1:
            a += ["--scale", str(sc)]
        if job:
            a += ["--job", job]
        return a

    def env(self):
        e = dict(ENV)
        e.update(FLAVORS[self.spec["flavor"]].get("env", {}))
        e.update(self.spec.get("env", {}))
        e["VERIF_DATA"] = os.path.join(VERIF, "data")
        e["VERIF_SCRATCH"] = self.dir
        e["VERIF_REPO_DIR"] = REPO
        return e

    def execute(self, exe):
        queue = os.path.join(self.dir, "queue")
        with open(queue, "wb") as f:
            f.write(b"\0" * 4096)
        nw = min(self.spec.get("workers", WORKERS), WORKERS) if not self.job else 1
        procs, restarts = {}, 0

        def start(w):
            out = os.path.join(self.dir, "out.%d" % w)
            err = open(os.path.join(self.dir, "err.%d" % w), "ab")
            errpos = err.tell()
            p = subprocess.Popen(self.argv(exe, w, out, queue, self.job), env=self.env(), cwd=self.dir,
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
            err.close()
            procs[w] = (p, errpos)

        for w in range(nw):
            start(w)
        nfail = 0
        while procs:
            time.sleep(0.02)
            for w in list(procs):
                if w not in procs:
                    continue
                p, errpos = procs[w]
                rc = p.poll()
                if rc is None:
                    continue
                del procs[w]
                if rc != 0:
                    self.crashed(exe, w, rc, errpos)
                    restarts += 1
                    if any(f["key"] == "no-termination" for f in self.fails):
                        self.stop(queue)
                        for other, _ in procs.values():
                            other.kill()
                            other.wait()
                        procs.clear()
                    elif restarts > 8:
                        self.stop(queue)
                    elif not self.job:
                        start(w)
            if len(self.fails) + self.count_fails() > 40:
                self.stop(queue)
        for w in range(nw):
            self.collect(os.path.join(self.dir, "out.%d" % w))

    def count_fails(self):
        n = 0
        for f in glob.glob(self.dir + "/out.*"):
            if f.endswith(".classes"):
                continue
            pos = self._pos.get(f, 0) if hasattr(self, "_pos") else 0
            with open(f, "rb") as fh:
                fh.seek(pos)
                d = fh.read()
            self._pos = getattr(self, "_pos", {})
            self._pos[f] = pos + len(d)
            self._nf = getattr(self, "_nf", 0) + d.count(b'{"fail"')
        return getattr(self, "_nf", 0)

    def stop(self, queue):
        with open(queue, "r+b") as f:
            f.seek(8)
            f.write(b"\1")

    def crashed(self, exe, w, rc, errpos):
        job = None
        hang = False
        out = os.path.join(self.dir, "out.%d" % w)
        try:
            for line in open(out, errors="replace"):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "start" in r:
                    job, hang = r["start"], False
                if "done" in r:
                    job = None
                if "hang" in r:
                    hang = True
        except OSError:
            pass
        with open(os.path.join(self.dir, "err.%d" % w), "rb") as f:
            f.seek(errpos)
            err = f.read().decode(errors="replace")
        for lf in glob.glob(os.path.join(self.dir, "tool.%d*" % w)):
            with open(lf, errors="replace") as f:
                err += f.read()
        if rc in (95, 96, 97, 98) or (job is None and not tool_report(err)):
            raise CheckError("worker ended with status %s outside a job: %s" % (rc, err[-2000:]))
        if rc == -9:
            raise CheckError("a worker was killed (memory?): %s" % err[-500:])
        if hang and any(f["key"] == "no-termination" for f in self.fails):
            return
        if hang and not self.job:
            # confirm with the job alone, so that a busy machine cannot raise an alarm
            q2 = os.path.join(self.dir, "queue.confirm")
            with open(q2, "wb") as f:
                f.write(b"\0" * 4096)
            o2 = os.path.join(self.dir, "confirm.%d" % w)
            r = subprocess.run(self.argv(exe, w, o2, q2, job), env=self.env(), cwd=self.dir, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode != 99:
                return
        if hang:
            self.fails.append({"key": "no-termination", "job": job, "detail": "did not finish within its CPU limit"})
            return
        key, detail = tool_report(err) or ("crash-signal-%d" % -rc if rc < 0 else "abnormal-exit-%d" % rc, err[-1500:])
        self.fails.append({"key": key, "job": job or "(exit)", "detail": detail})

    def collect(self, out):
        if not os.path.exists(out):
            return
        for line in open(out, errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "fail" in r:
                self.fails.append({"key": r["fail"], "job": r["job"], "detail": r["detail"]})
            elif "done" in r:
                self.jobs_done += 1
                stage = r["done"].rsplit(":", 1)[0]
                self.longest[stage] = max(self.longest.get(stage, 0), round(r.get("cpu_ms", 0) / 1000, 2))
            elif "summary" in r:
                self.evals += r["evals"]
                for k, v in r["counters"].items():
                    self.counters[k] = self.counters.get(k, 0) + v
                self.samples += r["samples"]
        cf = out + ".classes"
        if os.path.exists(cf):
            a = array.array("Q")
            with open(cf, "rb") as f:
                a.frombytes(f.read())
            self.classes.update(a)


def tool_report(err):
    """Extracts what a sanitizer or valgrind reported."""
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "ubsan: " + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:120], err[max(0, m.start() - 200):m.start() + 1800]
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    if m:
        return "asan: " + re.split(r" on | \(|:", m.group(1))[0][:80], err[m.start():m.start() + 2500]
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if m:
        return "tsan: " + m.group(1).strip(), err[m.start():m.start() + 2500]
    m = re.search(r"==\d+== (Conditional jump[^\n]*|Use of uninitialised[^\n]*|Invalid (?:read|write)[^\n]*|Syscall param[^\n]*|Process terminating[^\n]*)", err)
    if m:
        return "memcheck: " + re.sub(r"\d+", "N", m.group(1))[:100], err[m.start():m.start() + 2500]
    return None


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    job, keep, only_run = None, False, None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--job": job = args.pop(0)
        elif a == "--run": only_run = int(args.pop(0))
        elif a == "--keep": keep = True
        else: raise SystemExit("bad argument " + a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    rc = 2
    try:
        runs = []
        for i, rs in enumerate(spec["runs"]):
            if only_run is not None and i != only_run:
                continue
            if rs.get("tier", tier) != tier:
                continue
            runs.append(Run(prop, rs, i, tier, seed, scratch, job))
        exes, made = {}, {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r in runs:
                k = (r.spec["harness"], r.spec["flavor"])
                same = (k[0], tuple(FLAVORS[k[1]]["cxx"]))
                if same not in made:
                    made[same] = ex.submit(build, *k)
                exes[k] = made[same]
            exes = {k: f.result() for k, f in exes.items()}
        tb = time.time()
        timing = []
        for r in runs:
            ts = time.time()
            r.execute(exes[(r.spec["harness"], r.spec["flavor"])])
            timing.append({"workload": r.spec["harness"], "instrumentation": r.spec["flavor"], "jobs": r.jobs_done,
                           "evaluations": r.evals, "seconds": round(time.time() - ts, 1), "longest_job_cpu_s": r.longest})
            if r.fails:
                break
        rc = judge(prop, spec, tier, seed, runs, timing, t0, tb, job)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        rc = 2
    finally:
        if keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def judge(prop, spec, tier, seed, runs, timing, t0, tb, job):
    known = known_findings(prop)
    fails, seen_known = [], {}
    for r in runs:
        for f in r.fails:
            f["run"] = r.index
            f["harness"], f["flavor"] = r.spec["harness"], r.spec["flavor"]
            hit = [d for k, d in known if k == f["key"]]
            if hit:
                seen_known[f["key"]] = hit[0]
            else:
                fails.append(f)
    counters, samples, classes = {}, [], set()
    for r in runs:
        for k, v in r.counters.items():
            counters[k] = counters.get(k, 0) + v
        samples += r.samples[:6]
        classes |= {(r.spec["harness"], c) for c in r.classes}
    evals = sum(r.evals for r in runs)
    jobs = sum(r.jobs_done for r in runs)
    if not job and not fails and (evals == 0 or not classes):
        raise CheckError("the monitors observed nothing")
    if not job:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(classes), "rule": spec["rule"],
                           "samples": samples[:12], "observed": counters, "workloads": timing, "jobs": jobs},
              "assumptions": spec.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(EVIDENCE, prop + ".json"))
    for k, d in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    print("%s tier=%s seed=%d: %d observations, %d distinct classes, %d jobs, build %.1f s, total %.1f s" %
          (prop, tier, seed, evals, len(classes), jobs, tb - t0, time.time() - t0))
    if not fails:
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = set()
    for f in fails:
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha256((f["key"] + str(f["job"])).encode()).hexdigest()[:10]))
        with open(path, "w") as fh:
            json.dump({"property": prop, "what": f["key"], "detail": f["detail"], "workload": f["harness"],
                       "instrumentation": f["flavor"], "job": f["job"], "seed": seed, "tier": tier,
                       "replay_cmd": "cd /verif && VERIF_SEED=%d python3 check.py %s --tier %s --run %d --job %s" %
                       (seed, prop, tier, f["run"], f["job"])}, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s [%s %s] %s" % (f["key"], f["harness"], f["job"], f["detail"][:600]))
        if len(seen) >= 8:
            break
    return 1


if __name__ == "__main__":
    main()
