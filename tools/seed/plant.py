#!/usr/bin/env python3
"""Create and confirm the planted bugs in /verif/seeded: plant.py [--check] [--run] [id...]
default: write patch.diff, demo.*, meta.json;  --confirm: build, test and demo in /repo;  --detect: run this property's check."""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import glob
for m in sorted(glob.glob(str(HERE / "bugs*.py"))):
    mod = __import__(Path(m).stem)
BUGS = mod.BUGS
SEEDED = HERE.parent.parent / "seeded"
REPO = Path("/repo")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(b):
    d = SEEDED / b["id"]
    d.mkdir(parents=True, exist_ok=True)
    w = Path(tempfile.mkdtemp(prefix="plant."))
    try:
        out = ""
        files = []
        for f, old, new in b["edits"]:
            if f not in files:
                files.append(f)
                for side in ("a", "b"):
                    (w / side / f).parent.mkdir(parents=True, exist_ok=True)
                    shutil.copyfile(REPO / f, w / side / f)
            t = (w / "b" / f).read_text()
            n = t.count(old)
            if n != 1:
                return f"{b['id']}: pattern occurs {n} times in {f}: {old[:60]!r}"
            (w / "b" / f).write_text(t.replace(old, new))
        for f in files:
            out += sh(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, str(w / "a" / f), str(w / "b" / f)]).stdout
        (d / "patch.diff").write_text(out)
    finally:
        shutil.rmtree(w)
    shutil.copyfile(HERE / "common.h", d / "common.h")
    shutil.copyfile(HERE / "demo.sh", d / "demo.sh")
    os.chmod(d / "demo.sh", 0o755)
    (d / "demo.c").write_text("#include \"common.h\"\n" + b["demo"].strip() + "\n")
    if b["flags"]:
        (d / "flags").write_text(b["flags"] + "\n")
    (d / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    return None

def demo(b):
    r = sh([str(SEEDED / b["id"] / "demo.sh")], cwd=REPO)
    return r.returncode, r.stdout.strip().splitlines()[-1:] or [""]

def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    sel = [b for b in BUGS if not ids or b["id"] in ids]
    for b in sel:
        e = make(b)
        if e:
            print("ERR", e)
            continue
        if "--confirm" in sys.argv:
            r0, t0 = demo(b)
            p = str(SEEDED / b["id"] / "patch.diff")
            a = sh(["git", "-C", str(REPO), "apply", p])
            try:
                if a.returncode:
                    print("ERR", b["id"], a.stdout)
                    continue
                r1, t1 = demo(b)
                t = sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
                j = json.load(open("/tmp/plant.json"))
                base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                ok = set(j["passed"]) >= base
                print(("OK " if r0 == 0 and r1 not in (0, 98, 99) and ok else "BAD"), b["id"], "demo", r0, t0 if r0 else "", "->", r1, t1, "tests", len(j["passed"]), j["failed"] if not ok else "", flush=True)
                if "--detect" in sys.argv:
                    c = sh([sys.executable, str(HERE.parent.parent / "run.py"), b["prop"], "--tier", "quick"])
                    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                    print("    ", "CAUGHT" if c.returncode == 1 and v else "MISSED", c.returncode, v[:1] or c.stdout.splitlines()[-3:], flush=True)
            finally:
                sh(["git", "-C", str(REPO), "checkout", "--", "."])
main()
