"""C13 runs two instrumented explorations: address/undefined (harness c13.cpp) and initialisation (c13_msan.c)."""
import os, re, shutil, subprocess, tempfile, time
from pathlib import Path


def run(R, pid, chk, tier, a, pool):
    t0 = time.time()
    d = Path(tempfile.mkdtemp(prefix="b.", dir=R.BUILD)) if R.BUILD.exists() else (R.BUILD.mkdir() or Path(tempfile.mkdtemp(prefix="b.", dir=R.BUILD)))
    R.version_header(d / "gen")
    inc = R.includes(d)
    drv = d / "msan"
    flags = ["clang", "-O1", "-g", "-w", "-fsanitize=memory", "-fno-omit-frame-pointer", "-DMBE_BUILDING"]
    objs = []
    jobs = []
    for simd in ([], ["-DMBELIB_ENABLE_SIMD=1"]):
        os_ = []
        for s in R.sources() + [R.H / "c13_msan.c"]:
            o = d / (("s" if simd else "p") + str(s).replace("/", "_") + ".o")
            os_.append(str(o))
            jobs.append(pool.submit(R.sh, flags + (simd or ["-DPFFFT_SIMD_DISABLE=1"]) + inc + ["-c", str(s), "-o", str(o)]))
        objs.append(os_)
    exe = d / "emit"
    jobs.append(pool.submit(R.sh, ["g++", "-std=c++17", "-O1", "-w"] + inc + ["-I" + str(R.H), "-I" + str(R.ROOT / "ref"), str(R.H / "c13.cpp"), "-o", str(exe), "-ldl", "-lm", "-lpthread"]))
    for j in jobs:
        j.result()
    for k, os_ in enumerate(objs):
        R.sh(["clang", "-fsanitize=memory"] + os_ + ["-o", str(drv) + str(k), "-lm"])
    evf = d / "events"
    subprocess.run([str(exe)], env=dict(os.environ, MBE_EMIT=str(evf)), check=True)
    env = dict(os.environ, MSAN_OPTIONS="exitcode=77:abort_on_error=0")
    extra_t = extra_c = 0
    violation = None
    only = a.case
    runs = [(0, "3"), (1, "3" if tier == "thorough" else "2")]
    for k, depth in runs:
        if only and not only.startswith(f"msan{k}:"):
            continue
        cmd = [str(drv) + str(k), str(evf), depth]
        pair = None
        if only:
            pair = only.split(":")[1].split(",")
        else:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
            m = re.search(r"events (\d+) transitions (\d+) cases (\d+)", p.stdout)
            if not m:
                raise RuntimeError("msan driver: " + p.stdout + p.stderr)
            extra_t += int(m.group(2))
            extra_c += int(m.group(3))
            f = re.search(r"FAILED (\d+) (\d+)", p.stdout)
            if f:
                pair = [f.group(1), f.group(2)]
        if pair:
            q = subprocess.run(cmd + pair, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
            if q.returncode:
                violation = {"key": f"msan{k}:{pair[0]},{pair[1]}", "message": "uninitialised memory used while decoding frame pair %s,%s of the emitted alphabet: %s" % (pair[0], pair[1], " | ".join(x.strip() for x in q.stderr.splitlines() if x.strip())[:900]), "reproduced": 1}
                break
    shutil.rmtree(d, ignore_errors=True)
    if only and only.startswith("msan"):
        return {"states": 0, "transitions": 0, "traces": 0, "cases": 1, "samples": [], "violation": violation} if violation else {"states": 0, "transitions": 0, "traces": 0, "cases": 1, "samples": []}
    r = R.run_harness(pid, chk, tier, a, pool, {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1"})
    r["transitions"] += extra_t
    r["traces"] += extra_c
    r["cases"] += extra_c
    r.setdefault("counters", {})["initialisation-tracked transitions"] = extra_t
    if violation and not r.get("violation"):
        r["violation"] = violation
        r["stderr_tail"] = ""
    r["samples"] = r["samples"] + ["%d frame pairs followed by every frame of the codec, outputs handed over uninitialised: every returned value initialised" % extra_c]
    return r
