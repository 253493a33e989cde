#!/usr/bin/env python3
"""Build the library variants a check needs from /repo's working tree, run the check, write its evidence.

    run.py C01 [--tier quick|thorough] [--case KEY]     exit 0: held;  exit 1: VIOLATION line
    run.py --setup                                      compile everything once as a self-test
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent
REPO = Path(os.environ.get("MBE_REPO", "/repo"))
BUILD = ROOT / "build"
H = ROOT / "harness"
sys.path.insert(0, str(ROOT / "tools"))
from checks import CHECKS  # noqa: E402

SAN = ["-fno-sanitize-recover=all"]
COMMON = ["-g", "-fPIC", "-DMBE_BUILDING", "-fvisibility=hidden"]
SCALAR = ["-DPFFFT_SIMD_DISABLE=1"]
SIMD = ["-DMBELIB_ENABLE_SIMD=1"]
LOGS = ["-DMBE_DEBUG", "-DIMBE_DEBUG", "-DAMBE_DEBUG"]
FAST = ["-ffast-math", "-fno-math-errno"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc calloc realloc free aligned_alloc posix_memalign pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once call_once mtx_lock mtx_unlock").split())]
WORK = ["-Wl," + ",".join("--wrap=" + f for f in "memcpy memmove memset malloc calloc aligned_alloc posix_memalign realloc free strlen nanosleep usleep sched_yield".split())]
NEON = ["-I" + str(H / "neon"), "-include", str(H / "neon" / "pre.h")]
# builds that need the stand-in for arm_neon.h: left out where the library uses something it does not have
OPTIONAL = {"neon", "neon_2", "neon32", "asanneon"}
VARIANTS = {  # name: (compiler, compile flags, link flags)
    "scalar": ("gcc", ["-O2"] + SCALAR, []),
    "scalar2": ("gcc", ["-O2"] + SCALAR, []),
    "scalar3": ("gcc", ["-O2"] + SCALAR, []),
    "O0": ("gcc", ["-O0"] + SCALAR, []),
    "simd": ("gcc", ["-O2"] + SIMD, []),
    "simd2": ("gcc", ["-O2"] + SIMD, []),
    "O3": ("gcc", ["-O3"] + SCALAR, []),
    "fast": ("gcc", ["-O3"] + SCALAR + FAST, []),
    "release": ("gcc", ["-O3", "-flto", "-DNDEBUG"] + SIMD + FAST, ["-O3", "-flto"]),
    "release2": ("gcc", ["-O3", "-flto", "-DNDEBUG"] + SIMD + FAST, ["-O3", "-flto"]),
    "clang": ("clang", ["-O2"] + SIMD, []),
    "notones": ("gcc", ["-O2", "-DDISABLE_AMBE_TONES"] + SCALAR, []),
    "notonessimd": ("gcc", ["-O2", "-DDISABLE_AMBE_TONES"] + SIMD, []),
    "debuglog": ("gcc", ["-O2"] + LOGS + SCALAR, []),
    "debuglogsimd": ("gcc", ["-O2"] + LOGS + SIMD, []),
    "strict": ("gcc", ["-O2", "-DMBELIB_STRICT_ORDER=1"] + SCALAR, []),
    "strictsimd": ("gcc", ["-O2", "-DMBELIB_STRICT_ORDER=1"] + SIMD, []),
    "uchar": ("gcc", ["-O2", "-funsigned-char"] + SCALAR, []),
    "ucharsimd": ("gcc", ["-O2", "-funsigned-char"] + SIMD, []),
    "tsan": ("clang", ["-O1", "-fsanitize=thread"] + SCALAR, WRAP),
    "tsansimd": ("clang", ["-O1", "-fsanitize=thread"] + SIMD, WRAP),
    "fault": ("gcc", ["-O2"] + SCALAR, WRAP),
    "fault2": ("gcc", ["-O2"] + SCALAR, WRAP),
    "faultsimd": ("gcc", ["-O2"] + SIMD, WRAP),
    "faultsimd2": ("gcc", ["-O2"] + SIMD, WRAP),
    "count": ("gcc", ["-O2", "-fsanitize-coverage=trace-pc"] + SCALAR, WORK),
    "countsimd": ("gcc", ["-O2", "-fsanitize-coverage=trace-pc"] + SIMD, WORK),
    # the ARM paths, on this machine: NEON intrinsics written out in C, library compiled as if for AArch64 / 32-bit ARM
    "neon": ("gcc", ["-O2"] + NEON + SIMD, []),
    "neon_2": ("gcc", ["-O2"] + NEON + SIMD, []),
    "neon32": ("gcc", ["-O2", "-DVERIF_ARM32"] + NEON + SIMD, []),
    "asanneon": ("gcc", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow"] + SAN + NEON + SIMD,
                 ["-fsanitize=address,undefined"]),
    "asan": ("gcc", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow"] + SAN + SCALAR,
             ["-fsanitize=address,undefined"]),
    "asansimd": ("gcc", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow"] + SAN + SIMD,
                 ["-fsanitize=address,undefined"]),
}

def sources():
    return sorted((REPO / "src").rglob("*.c"))

def tree_hash():
    h = hashlib.sha256()
    for p in sorted(list((REPO / "src").rglob("*")) + list((REPO / "include").rglob("*")) + [REPO / "CMakeLists.txt"]):
        if p.is_file() and p.suffix in (".c", ".h", ".in", ".txt", ".inc", ".def"):
            h.update(str(p.relative_to(REPO)).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()

def project_version():
    t = (REPO / "CMakeLists.txt").read_text()
    m = re.search(r"project\s*\([^)]*?VERSION\s+([0-9]+)\.([0-9]+)\.([0-9]+)", t, re.S)
    return m.groups() if m else ("0", "0", "0")

def version_header(dst: Path):
    t = None
    for p in (REPO / "include").rglob("version.h.in"):
        t = p.read_text()
    if t is None:
        for p in REPO.rglob("version.h.in"):
            t = p.read_text()
            break
    a, b, c = project_version()
    for k, v in (("PROJECT_VERSION_MAJOR", a), ("PROJECT_VERSION_MINOR", b), ("PROJECT_VERSION_PATCH", c), ("PROJECT_VERSION", f"{a}.{b}.{c}")):
        t = t.replace("@" + k + "@", v).replace("${" + k + "}", v)
        t = re.sub(r"@\w*" + k.replace("PROJECT_", "") + r"@", v, t)
    d = dst / "mbelib-neo"
    d.mkdir(parents=True, exist_ok=True)
    (d / "version.h").write_text(t)

def includes(bdir):
    return ["-I" + str(REPO / "include"), "-I" + str(bdir / "gen"), "-I" + str(REPO / "src/internal"), "-I" + str(REPO / "src/external/pffft")]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: " + " ".join(map(str, cmd)) + "\n" + r.stdout[-6000:])
    return r.stdout

def compile_(vs, missing, cmd):
    try:
        return sh(cmd)
    except RuntimeError:
        if not set(vs) <= OPTIONAL:
            raise
        missing.update(vs)

def build(chk, pool):
    """returns a private directory with the shared objects and the harness executable"""
    BUILD.mkdir(exist_ok=True)
    bdir = Path(tempfile.mkdtemp(prefix="b.", dir=BUILD))
    version_header(bdir / "gen")
    inc = includes(bdir)
    jobs = []
    objs = {}
    names = chk.get("variants", [])
    base = {}
    for v in names:
        key = json.dumps(VARIANTS[v] if v in VARIANTS else chk["extra_variants"][v])
        base.setdefault(key, []).append(v)
    srcs = sources()
    missing = set()
    for key, vs in base.items():
        cc, cf_, lf = json.loads(key)
        od = bdir / ("o." + vs[0])
        od.mkdir()
        objs[key] = []
        for s in srcs:
            o = od / (str(s.relative_to(REPO)).replace("/", "_") + ".o")
            objs[key].append(o)
            jobs.append(pool.submit(compile_, vs, missing, [cc] + COMMON + cf_ + inc + (["-Werror=implicit-function-declaration"] if set(vs) <= OPTIONAL else ["-w"]) + ["-c", str(s), "-o", str(o)]))
    exe = bdir / "check"
    hjob = None
    if "harness" in chk:
        hf = chk.get("harness_flags", ["-O2"])
        cxx = chk.get("cxx", "g++")
        hjob = pool.submit(sh, [cxx, "-std=c++17", "-g", "-w"] + hf + inc + ["-I" + str(H), "-I" + str(ROOT / "ref"), str(H / chk["harness"]), "-o", str(exe), "-ldl", "-lm", "-lpthread"] + chk.get("harness_libs", []))
    for j in jobs:
        j.result()
    links = []
    for key, vs in base.items():
        if missing & set(vs):
            continue
        cc, cf_, lf = json.loads(key)
        so = bdir / (vs[0] + ".so")
        links.append((vs, so, pool.submit(sh, [cc, "-shared", "-Wl,-Bsymbolic"] + lf + [str(o) for o in objs[key]] + ["-o", str(so), "-lm"])))
    for vs, so, j in links:
        j.result()
        for v in vs[1:]:
            shutil.copyfile(so, bdir / (v + ".so"))
    if hjob:
        hjob.result()
    for key, vs in base.items():
        shutil.rmtree(bdir / ("o." + vs[0]), ignore_errors=True)
    return bdir, exe

def known(pid):
    f = ROOT / "known-findings.txt"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.setup:
        t0 = time.time()
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
            bdir, _ = build({"variants": ["scalar", "simd"], "harness": "c01.cpp"}, pool)
            shutil.rmtree(bdir, ignore_errors=True)
        print(f"setup ok in {time.time() - t0:.1f}s")
        return 0
    pid = a.id
    chk = CHECKS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
        if "module" in chk:
            import importlib
            mod = importlib.import_module(chk["module"])
            res = mod.run(sys.modules[__name__], pid, chk, tier, a, pool)
        else:
            res = run_harness(pid, chk, tier, a, pool)
    return finish(pid, chk, tier, a, res, t0)

def run_harness(pid, chk, tier, a, pool, exe_env=None):
    t0 = time.time()
    bdir, exe = build(chk, pool)
    tb = time.time() - t0
    env = dict(os.environ, MBE_LIBS=str(bdir), MBE_REPO=str(REPO), MBE_KNOWN="\n".join(k for k, _ in known(pid)), **(exe_env or {}), **chk.get("env", {}))
    budget = chk.get("budget", {}).get(tier, 600 if tier == "quick" else 3600 * 3)
    cmd = [str(exe), "--tier", tier, "--budget", str(budget)]
    if a.case:
        cmd += ["--case", a.case]
    if "workers" in chk:
        cmd += ["--workers", str(chk["workers"])]
    cmd += chk.get("args", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=bdir)
    m = re.search(r"^MCRESULT (.*)$", p.stdout, re.M)
    if not m:
        raise RuntimeError(f"harness gave no result (rc {p.returncode})\n{p.stdout[-3000:]}\n{p.stderr[-3000:]}")
    r = json.loads(m.group(1))
    r["stderr_tail"] = p.stderr[-4000:]
    r["build_s"] = round(tb, 2)
    if not a.keep:
        shutil.rmtree(bdir, ignore_errors=True)
    else:
        print("kept", bdir)
    return r

def finish(pid, chk, tier, a, r, t0):
    ev_dir = ROOT / "evidence"
    ev_dir.mkdir(exist_ok=True)
    viol = r.get("violation")
    rc = 0
    nviol = 0
    for k, what in known(pid):
        if not viol or not re.fullmatch(k, viol["key"]):
            print(f"KNOWN-FINDING: property={pid} {what}")
    if viol and viol.get("reproduced"):
        kf = [w for k, w in known(pid) if re.fullmatch(k, viol["key"])]
        if kf:
            print(f"KNOWN-FINDING: property={pid} {kf[0]}")
        else:
            nviol = 1
            rc = 1
    cov = {
        "states": r["states"], "transitions": r["transitions"], "traces_validated_against_impl": r["traces"],
        "samples": r["samples"] or ["(no sample recorded)"], "cases": r["cases"], "workers": r.get("workers", 1),
        "exhaustive": r.get("capped", 0) == 0 and not viol,
        "bounds": chk.get("bounds", {}).get(tier, chk.get("bounds", {}).get("quick", "")) if isinstance(chk.get("bounds"), dict) else chk.get("bounds", ""),
        "counters": r.get("counters", {}),
    }
    if r.get("capped"):
        cov["cases_not_run_because_of_time_cap"] = r["capped"]
    if r.get("table_full"):
        cov["state_table_overflow"] = r["table_full"]
    level = chk.get("level", "model_checking")
    if level == "fault_enumeration":
        cov["evaluations"] = r["transitions"]
        cov["distinct_nontrivial"] = r["states"]
        cov["rule"] = chk["rule"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol,
          "build_s": r.get("build_s"), "explore_s": r.get("seconds")}
    if viol and not viol.get("reproduced"):
        ev["unreproduced_failure"] = viol
    if not a.case:
        (ev_dir / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    if rc:
        rp = ev_dir / f"{pid}.replay.json"
        rp.write_text(json.dumps({"property": pid, "tier": tier, "key": viol["key"], "message": viol["message"],
                                  "reproduced": viol.get("reproduced"),
                                  "replay_cmd": f"python3 {ROOT}/run.py {pid} --tier {tier} --case '{viol['key']}'"}, indent=1) + "\n")
        print(f"{pid}: case {viol['key']}: {viol['message']}")
        if r.get("stderr_tail"):
            print(r["stderr_tail"])
        print(f"VIOLATION property={pid} replay={rp}")
    else:
        extra = " (unreproduced failure: %s)" % viol["message"] if viol else ""
        print(f"{pid} {tier}: held on {r['cases']} cases, {r['states']} states, {r['transitions']} transitions, "
              f"{r['traces']} traces in {time.time() - t0:.1f}s (build {r.get('build_s')}s){extra}")
        if a.verbose:
            print(json.dumps(r.get("counters")), *r["samples"], sep="\n  ")
    return rc

if __name__ == "__main__":
    sys.exit(main())
