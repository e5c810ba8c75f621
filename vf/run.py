"""Runs one property's check: build from /repo, drive the harness over its cases in parallel processes,
collect the monitors' events, match known findings, write evidence, print verdicts.

usage: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself could not run.
"""
import argparse, importlib, json, os, re, signal, subprocess, sys, tempfile, threading, time, queue, shutil

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "150"))


def known_findings():
    """lines 'KNOWN property=<id> key=<exact key> | <what fails>'; 'fixed:' lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) key=(.*?) \| (.*)$", l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:detect_odr_violation=0:max_allocation_size_mb=3500:hard_rss_limit_mb=6000"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4"
    e["MALLOC_PERTURB_"] = "165"
    e["QT_QPA_PLATFORM"] = "offscreen"
    return e


def crash_kind(rc, err):
    """(stable key, text) for a worker that died."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    def frame():
        # first frame inside the library or harness, function name only
        for f in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", err):
            t = f.group(1)
            if "/lib/nikfemm/" in t or "harness/" in t:
                return re.split(r"[(<]", t.replace("nikfemm::", ""))[0].strip()
        return "?"
    if m:
        return "asan:%s@%s" % (m.group(1), frame()), err
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: ([^\n]*)", err)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(3))
        return "ubsan:%s@%s" % (msg[:80], os.path.basename(m.group(1))), err
    if "WARNING: ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
        locs = re.findall(r"#0 ([^\s(]+)", err)[:2]
        return "tsan:%s@%s" % (m.group(1).strip(), "+".join(sorted(set(locs)))), err
    m = re.search(r"^==\d+== (Invalid (?:read|write|free)|Conditional jump|Use of uninit\w+|Syscall param|Mismatched free|Source and destination overlap)[^\n]*", err, re.M)
    if m:   # valgrind
        f = re.search(r"==\d+==    (?:at|by) 0x[0-9A-F]+: (\S+?)[(<][^\n]*\((?:mesh|triangle|drawing|simulation|multilayer|math|simple|coo|csr|build|solvers|polygon|circle|segment|vector|c01)\w*\.[ch]pp", err)
        return "memcheck:%s@%s" % (m.group(1), (f.group(1).replace("nikfemm::", "") if f else "?")), err
    m = re.search(r"Assertion '([^']*)' failed", err) or re.search(r"Assertion `([^']*)' failed", err)
    if m:
        return "assert:%s" % m.group(1)[:80], err
    if rc is not None and rc < 0:
        try:
            n = signal.Signals(-rc).name
        except ValueError:
            n = str(-rc)
        m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
        return "crash:%s%s" % (n, ":" + m.group(1) if m else ""), err
    return "exit:%s" % rc, err


def cpu_seconds(pid):
    """Processor time of a process and of the children it has waited for."""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return sum(int(x) for x in f[11:15]) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


class Pool:
    """Runs (binary, suite, from, to) chunks; restarts after a crash at the next case; retries a hang once."""

    def __init__(self, jobs, seed, tier, wrapper=None, env=None, timeout=CASE_TIMEOUT, verbose=False):
        self.jobs, self.seed, self.tier, self.wrapper = jobs, seed, tier, wrapper or {}
        self.env = env or san_env()
        self.timeout = timeout
        self.viol, self.samples, self.counters, self.maxima = [], [], {}, {}
        self.cases = 0; self.evals = 0; self.skipped = 0; self.inconclusive = []
        self.sigs = set(); self.per_suite = {}
        self.lock = threading.Lock()
        self.q = queue.Queue()
        self.tmp = tempfile.mkdtemp(prefix="vf-")
        self.errors = []
        self.stop = False

    def add(self, flavour, binary, suite, a, b, retry=0):
        self.q.put((flavour, binary, suite, a, b, retry))

    def work(self):
        while not self.stop:
            try:
                item = self.q.get_nowait()
            except queue.Empty:
                with self.lock:
                    if self.active == 0:
                        return
                time.sleep(0.02)
                continue
            with self.lock:
                self.active += 1
            try:
                self.chunk(*item)
            except Exception as e:  # harness failure
                self.errors.append(repr(e))
            finally:
                with self.lock:
                    self.active -= 1

    def chunk(self, flavour, binary, suite, a, b, retry):
        fd, out = tempfile.mkstemp(dir=self.tmp); os.close(fd)
        errp = out + ".err"
        cmd = list(self.wrapper.get(flavour, [])) + [binary, "--suite", suite, "--from", str(a), "--to", str(b), "--seed", str(self.seed), "--out", out]
        if self.tier == "thorough":
            cmd.append("--thorough")
        work = out + ".d"; os.makedirs(work, exist_ok=True)
        with open(errp, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=self.env, cwd=work, start_new_session=True)
            last, seen, cpu = time.time(), -1, 0.0
            limit = self.timeout * (2 if suite in ("big", "huge") else 1)
            hung = False
            while True:
                try:
                    rc = p.wait(timeout=0.5 if time.time() - last > 2 else 0.05)
                    break
                except subprocess.TimeoutExpired:
                    sz = os.path.getsize(out)
                    if sz != seen:
                        seen, last, cpu = sz, time.time(), cpu_seconds(p.pid)
                    # a busy machine is not a hang: the case must have had the processor for most of its time
                    elif time.time() - last > limit and (cpu_seconds(p.pid) - cpu > 0.6 * limit or time.time() - last > 4 * limit):
                        hung = True
                        os.killpg(p.pid, signal.SIGKILL)
                        rc = p.wait()
                        break
        lines = open(out, errors="replace").read().split("\n")
        err = open(errp, errors="replace").read()[-20000:]
        shutil.rmtree(work, ignore_errors=True)
        begun = a - 1; finished = False; cur_open = False
        with self.lock:
            ps = self.per_suite.setdefault("%s/%s" % (flavour, suite), {"cases": 0, "evals": 0, "skipped": 0})
            for l in lines:
                if l.startswith("B "):
                    begun = int(l[2:]); cur_open = True
                elif l.startswith("C "):
                    _, i, sig, nt, ev, st = l.split(" ")
                    cur_open = False
                    self.cases += 1; self.evals += int(ev); ps["cases"] += 1; ps["evals"] += int(ev)
                    if st == "skip":
                        self.skipped += 1; ps["skipped"] += 1
                    elif nt == "1":
                        self.sigs.add((suite, sig))
                elif l.startswith("V "):
                    v = json.loads(l[2:]); v["flavour"] = flavour; self.viol.append(v)
                elif l.startswith("S "):
                    if len(self.samples) < 40:
                        self.samples.append(json.loads(l[2:]))
                elif l.startswith("N "):
                    d = json.loads(l[2:]); self.counters[d["k"]] = self.counters.get(d["k"], 0) + d["v"]
                elif l.startswith("M "):
                    d = json.loads(l[2:]); self.maxima[d["k"]] = max(self.maxima.get(d["k"], -1e308), d["v"])
                elif l == "F":
                    finished = True
        os.unlink(out); os.unlink(errp)
        if finished and rc == 0:
            return
        if hung:
            if retry == 0:
                self.add(flavour, binary, suite, begun, begun + 1, 1)   # re-run the same case once
            else:
                with self.lock:
                    self.viol.append({"suite": suite, "idx": begun, "key": "hang:%s" % suite, "flavour": flavour,
                                      "msg": "the case did not finish within %.0f s, twice" % self.timeout, "case": ""})
            if begun + 1 < b:
                self.add(flavour, binary, suite, begun + 1, b, 0 if retry == 0 else retry)
            return
        if not cur_open and begun < a:
            # died before the first case: the harness could not start
            self.errors.append("%s/%s did not start (rc=%s): %s" % (flavour, suite, rc, err[-1500:]))
            return
        if rc == -9 and retry == 0:
            # killed from outside (out of memory?): inconclusive, once
            self.add(flavour, binary, suite, begun, b, 1)
            return
        key, txt = crash_kind(rc, err)
        with self.lock:
            self.viol.append({"suite": suite, "idx": begun, "key": key, "flavour": flavour, "msg": txt[-6000:], "case": ""})
        if begun + 1 < b:
            self.add(flavour, binary, suite, begun + 1, b, retry)

    def run(self):
        self.active = 0
        ts = [threading.Thread(target=self.work) for _ in range(self.jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        shutil.rmtree(self.tmp, ignore_errors=True)


def list_suites(binary, env=None):
    o = subprocess.run([binary, "--list"], stdout=subprocess.PIPE, text=True, env=env or san_env(), check=True).stdout
    return [(l.split()[0], int(l.split()[1]), int(l.split()[2])) for l in o.strip().split("\n") if l]


def chunks(n, jobs, maxchunk):
    size = max(1, min(maxchunk, (n + jobs * 3 - 1) // (jobs * 3)))
    return [(i, min(n, i + size)) for i in range(0, n, size)]


def main():
    import props
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--suite", action="append")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    pid = a.property
    P = props.PROPS[pid]
    t0 = time.time()
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier = r["seed"], r["tier"]
        only = r
    try:
        extra = {}
        if P.get("runner"):
            mod = importlib.import_module(P["runner"])
            res = mod.run(pid, P, a.seed, a.tier, only)
        else:
            res = run_native(pid, P, a, only)
    except B.BuildError as e:
        print("BUILD-ERROR %s" % e)
        return 2
    return finish(pid, P, a, res, t0, bool(only))


def run_native(pid, P, a, only):
    pool = Pool(P.get("jobs", B.JOBS), a.seed, a.tier, wrapper=P.get("wrapper"), timeout=P.get("case_timeout", CASE_TIMEOUT))
    tb = time.time()
    byfl = {}
    for h, fl, opt in P["harness"]:
        if a.tier == "quick" and opt.get("thorough_only"):
            continue
        if only and (only["flavour"] != fl or only.get("harness", h) != h):
            continue
        byfl.setdefault(fl, []).append((h, opt))
    items = []
    for fl, hs in byfl.items():
        bins = B.build(sorted(set(h for h, _ in hs)), fl, P.get("extra_flags", ()), P.get("extra_link", ()))
        for h, opt in hs:
            for s, q, t in list_suites(bins[h]):
                if a.suite and s not in a.suite:
                    continue
                if opt.get("suites") and s not in opt["suites"]:
                    continue
                if s in opt.get("skip", ()):
                    continue
                n = q if a.tier == "quick" else t
                if s not in ("big", "huge"):   # the suites of single heavy cases stay as they are
                    n *= P.get("more", 1) if a.tier == "quick" else P.get("more_thorough", 1)
                n = int(n * opt.get("scale", 1.0)) if n else 0
                if opt.get("scale") and n == 0 and (q if a.tier == "quick" else t):
                    n = 1
                if only:
                    if only["suite"] == s:
                        pool.add(fl, bins[h], s, only["idx"], only["idx"] + 1)
                    continue
                for c in chunks(n, B.JOBS, opt.get("maxchunk", 200)):
                    items.append((fl, bins[h], s) + c)
    # interleave the suites so the slow ones do not all end up last
    items.sort(key=lambda it: (it[3], it[2]))
    for it in items:
        pool.add(*it)
    pool.build_s = time.time() - tb
    pool.run()
    return pool


def short(m):
    """the first informative part of a report"""
    m = m.strip()
    i = m.find("ERROR: ")
    return m[max(0, i):][:900]


def finish(pid, P, a, pool, t0, replay=False):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    kn = [k for k in known_findings() if k[0] == pid]
    hit = {}
    real = {}
    for v in pool.viol:
        k = next((k for k in kn if k[1] == v["key"]), None)
        if k:
            hit.setdefault(k, []).append(v)
        else:
            real.setdefault(v["key"], []).append(v)
    for k in kn:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    n = 0
    for key, vs in sorted(real.items(), key=lambda kv: kv[0])[:12]:
        v = vs[0]
        path = os.path.join(EVID, "replay", "%s-%d.json" % (pid, n)); n += 1
        json.dump({"property": pid, "seed": a.seed, "tier": a.tier, "suite": v["suite"], "idx": v["idx"], "flavour": v["flavour"],
                   "key": key, "msg": v["msg"], "case": v.get("case", ""), "occurrences": len(vs),
                   "how": "python3 /verif/vf/run.py %s --replay <this file>" % pid}, open(path, "w"), indent=1)
        print("  %s/%s case %s (%d times): %s: %s" % (v["flavour"], v["suite"], v["idx"], len(vs), key, short(v["msg"])))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    wall = time.time() - t0
    rule = P["rule"]
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": P.get("level", "exploration"),
        "coverage": {
            "evaluations": pool.evals, "distinct_nontrivial": len(pool.sigs), "rule": rule,
            "samples": pool.samples[:12] or [{"note": "no sample recorded"}],
            "cases_run": pool.cases, "cases_outside_domain": pool.skipped,
            "per_suite": pool.per_suite, "observed": pool.counters, "worst_observed": pool.maxima,
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": sum(len(x) for x in real.values()),
        "known_findings_seen": [k[2] for k in hit],
        "build_s": round(getattr(pool, "build_s", 0), 2),
    }
    if not replay:
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    if real:
        return 1
    if pool.errors:
        for e in pool.errors[:5]:
            print("CHECK-ERROR", e)
        return 2
    if not replay and (pool.evals == 0 or len(pool.sigs) == 0):
        print("CHECK-ERROR nothing was observed")
        return 2
    print("ok property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, a.tier, a.seed, pool.cases, pool.evals, len(pool.sigs), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
