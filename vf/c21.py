"""C21: builds the Python extension from /repo's sources (plain, and with the sanitizers), and drives it."""
import os, subprocess, sys, sysconfig, hashlib, types
import build as B

DRIVER = os.path.join(B.VERIF, "harness", "c21.py")


def build_ext(flavour):
    ref = B.build(["c21"], flavour)["c21"]
    d = os.path.dirname(ref); src = os.path.join(B.REPO, "python", "nikfemm.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    so = os.path.join(d, "nikfemm-%s.so" % h)
    if not os.path.exists(so):
        B._run(["g++"] + [f for f in B.BASE if not f.startswith("-std")] + B.FLAVOURS[flavour] + (["-fsanitize=float-cast-overflow"] if flavour == "asan" else []) + ["-I" + sysconfig.get_paths()["include"], "-shared", src, os.path.join(d, "libnikfemm.a"), "-o", so + ".tmp", "-lpthread"] + B.LINK[flavour], "building the Python extension")
        os.replace(so + ".tmp", so)
    return so, ref


def run(pid, P, a_seed, tier, only):
    import run as R, time
    t = time.time()
    env = R.san_env()
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    asan_env = dict(env)
    lib = lambda n: subprocess.check_output(["g++", "-print-file-name=" + n], text=True).strip()
    asan_env["LD_PRELOAD"] = lib("libasan.so") + " " + lib("libstdc++.so")
    asan_env["PYTHONMALLOC"] = "malloc"
    pools = []
    plan = {"plain": ["faithful", "errors", "leaks", "lifetime", "threads"], "asan": ["calls", "errors", "lifetime", "faithful"]}
    total = None
    for fl, e in (("plain", env), ("asan", asan_env)):
        if only and only["flavour"] != fl:
            continue
        so, ref = build_ext(fl)
        w = [sys.executable, DRIVER, so]
        pool = R.Pool(B.JOBS, a_seed, tier, wrapper={fl: w}, env=e, timeout=P.get("case_timeout", 150))
        o = subprocess.run(w + [ref, "--list"], stdout=subprocess.PIPE, text=True, env=e, check=True).stdout
        # the driver's first act is the import
        probe = subprocess.run(w + [ref, "--probe"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        if probe.returncode != 0:
            pool.viol.append({"suite": "import", "idx": 0, "key": "import", "flavour": fl, "case": "import nikfemm", "msg": "the extension cannot be imported (%d): %s" % (probe.returncode, probe.stdout[-1500:])})
            total = total or pool
            if total is not pool:
                total.viol.extend(pool.viol)
            continue
        items = []
        for l in o.strip().split("\n"):
            s, q, th = l.split()
            n = int(q) if tier == "quick" else int(th)
            if s not in plan[fl]:
                continue
            if fl == "asan" and s != "calls":
                n = max(1, n // 4)
            if only:
                if only["suite"] == s:
                    pool.add(fl, ref, s, only["idx"], only["idx"] + 1)
                continue
            for c in R.chunks(n, B.JOBS, 100):
                items.append((fl, ref, s) + c)
        items.sort(key=lambda it: (it[3], it[2]))
        for it in items:
            pool.add(*it)
        tb = time.time()
        pool.run()
        pool.build_s = tb - t
        if total is None:
            total = pool
        else:
            for k in ("viol", "samples", "errors"):
                getattr(total, k).extend(getattr(pool, k))
            for k, v in pool.counters.items():
                total.counters[k] = total.counters.get(k, 0) + v
            total.maxima.update(pool.maxima)
            total.cases += pool.cases; total.evals += pool.evals; total.skipped += pool.skipped
            total.sigs |= pool.sigs; total.per_suite.update(pool.per_suite)
    return total
