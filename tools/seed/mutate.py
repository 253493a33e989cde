#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] [--file SUBSTR] [--func SUBSTR] [--out LOG]: small random mutants of the library's functions.

A mutant that changes the object code, compiles and passes the existing tests is given to the checks of the properties its
function is anchored to (primary one first); what every one of them is quiet on is listed for reading. Works on a scratch copy."""
import argparse, json, os, random, re, shutil, subprocess, time
from pathlib import Path
W = Path("/tmp/mut")
V = os.environ.get("VERIF_COPY", "/verif")
MAP = [  # (file, function regex, checks)
    ("ambe", r"_dump", None),   # not in the public header
    ("", r"_dump", ["C36"]),
    ("unvoiced", r"synthesizeUnvoiced", ["C23", "C20", "C26"]),
    ("ambe_common", r"init|erasure|Erasure|ensure", ["C10", "C29", "C30", "C11"]),
    ("ambe_common|ambe3600", r"ecc|demod", ["C03", "C33"]),
    ("2400", r"get_dct|decode", ["C08", "C11"]),
    ("2450", r"decode", ["C07", "C10"]),
    ("2400", r"process.*Dataf", ["C11", "C12", "C27", "C33"]),
    ("2450", r"process.*Dataf", ["C10", "C12", "C27", "C33"]),
    ("imbe7200", r"process.*Dataf", ["C09", "C12", "C33"]),
    ("ambe3600|imbe7", r"process.*Framef", ["C33", "C12", "C09", "C05"]),
    ("ambe3600|imbe7", r"process", ["C15", "C12"]),
    ("imbe7200", r"reset_headroom", ["C09", "C29"]),
    ("imbe7200", r"ecc|demod", ["C04", "C33", "C09"]),
    ("imbe7200", r"get_dct|decode", ["C06", "C09"]),
    ("imbe7100", r"", ["C05", "C33"]),
    ("ecc.c", r"olay", ["C01"]),
    ("ecc.c", r"amming", ["C02"]),
    ("unvoiced", r"plan_alloc|plan_free", ["C28", "C34", "C23"]),
    ("unvoiced", r"noise|Noise", ["C20", "C23", "C26"]),
    ("unvoiced", r"", ["C23", "C26", "C16"]),
    ("mbelib.c", r"get_fft_plan", ["C28", "C34"]),
    ("mbelib.c", r"Seed", ["C19", "C20"]),
    ("mbelib.c", r"printVersion|versionString|move|useLast|init|Silence", ["C30", "C12"]),
    ("mbelib.c", r"runtime_dispatch|floattoshort", ["C15"]),
    ("mbelib.c", r"voiced_block", ["C22"]),
    ("mbelib.c", r"spectralAmpEnhance", ["C24", "C14"]),
    ("mbelib.c", r"clip", ["C14", "C22"]),
    ("mbelib.c", r"[tT]one", ["C21", "C10"]),
    ("mbelib.c", r"synthesizeSpeechf", ["C22", "C20", "C23", "C14", "C09"]),
    ("mbelib.c", r"synthesizeSpeech", ["C15"]),
    ("adaptive", r"seedComfort|java|Comfort", ["C19", "C15"]),
    ("adaptive", r"", ["C25", "C09"]),
]
def checks_for(f, fn):
    for a, b, c in MAP:
        if re.search(a, f) and re.search(b, fn): return c
    return None
def functions(text):
    """(name, first line, last line) of every function body, by the house style: name at column 0, body closed by '}' at column 0."""
    lines = text.split("\n"); out = []; i = 0
    while i < len(lines):
        m = re.match(r"([a-zA-Z_]\w*)\(", lines[i])
        if m and not lines[i].startswith("#"):
            j = i
            while j < len(lines) and not lines[j].rstrip().endswith(("{", ";")): j += 1
            if j < len(lines) and lines[j].rstrip().endswith("{"):
                k = j
                while k < len(lines) and lines[k] != "}": k += 1
                out.append((m.group(1), j + 1, k)); i = k
        i += 1
    return out
def live(lines):
    """lines that the x86 builds compile: not comments, debug prints, NEON, MSVC"""
    ok = [True] * len(lines); stack = []; comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment or s.startswith(("//", "/*", "*")):
            ok[i] = False
            comment = (comment or s.startswith("/*")) and "*/" not in s
            continue
        if s.startswith("#"):
            ok[i] = False
            if s.startswith("#if"): stack.append("DEBUG" in s or "ARM" in s or "__i386__" in s and "x86_64" not in s or "DISABLE" in s)
            elif s.startswith("#elif"): stack[-1] = "ARM" in s or "aarch64" in s or "i386" in s
            elif s.startswith("#else"): stack[-1] = False
            elif s.startswith("#endif"): stack.pop()
        elif any(stack): ok[i] = False
    return ok
def mutants(text):
    lines = text.split("\n"); ok = live(lines)
    for fn, a, b in functions(text):
        for i in range(a, b):
            if not ok[i]: continue
            l = lines[i]; code = re.sub(r"/\*.*?\*/|//.*", lambda m: " " * len(m.group()), l)
            if not code.strip() or "fprintf" in code or '"' in code: continue
            def put(s, e, t, tag):
                return (fn, i, l[:s] + t + l[e:], tag)
            for m in re.finditer(r"(?<![<>=!+\-*/&|^%])(<=|>=|==|!=|<|>)(?![<>=])", code):
                if "->" in code[m.start() - 1:m.end()]: continue
                for t in {"<": ["<=", ">"], "<=": ["<", ">"], ">": [">=", "<"], ">=": [">", "<"], "==": ["!="], "!=": ["=="]}[m.group()]:
                    if "#include" in code: continue
                    yield put(*m.span(), t, "rel")
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                for d in (1, -1): yield put(*m.span(), str(int(m.group()) + d), "int")
            for m in re.finditer(r"(?<![\w.])(\d+\.\d*)(f?)(?!\w)", code):
                v = float(m.group(1))
                yield put(*m.span(), (repr(v * 1.02 + (0.5 if v == 0 else 0))) + m.group(2), "float")
            for m in re.finditer(r" (\+|-|\*|/|&|\||\^|&&|\|\||<<|>>) ", code):
                t = {"+": "-", "-": "+", "*": "/", "/": "*", "&": "|", "|": "&", "^": "|", "&&": "||", "||": "&&", "<<": ">>", ">>": "<<"}[m.group(1)]
                yield put(*m.span(1), t, "op")
            for m in re.finditer(r"\b(cur_mp|prev_mp|prev_mp_enhanced)->(\w+)", code):
                for t in {"cur_mp": ["prev_mp"], "prev_mp": ["cur_mp"], "prev_mp_enhanced": ["prev_mp"]}[m.group(1)]:
                    if re.search(r"\b%s\b" % t, "\n".join(lines[max(0, a - 12):a])): yield put(*m.span(1), t, "swap")
            if re.match(r"\s+[^=;{}]*[^\s=;{}][^;{}]*;\s*$", code) and not re.match(r"\s*(return|break|case|else|for|char|int|float|double|const|static|unsigned|uint\d+_t|struct|mbe_parms|__m128i?|goto|short)\b", code) and code.count("(") == code.count(")"):
                prev = next((lines[k] for k in range(i - 1, a - 1, -1) if lines[k].strip()), "")
                if prev.rstrip().endswith((";", "{", "}", "*/", ":")) or prev.strip().startswith("#"):
                    yield (fn, i, re.match(r"\s*", l).group() + ";", "del")
            for m in re.finditer(r"(\w+)\+\+;", code): yield put(*m.span(), m.group(1) + " += 2;", "inc")
            for m in re.finditer(r"\b(if|while) \((?=[^;]*\) \{\s*$)", code):
                yield put(m.start(), len(l), m.group(1) + " (!(" + l[m.end():].rstrip()[:-3] + ")) {", "neg")
def guarded(text, rnd):
    """the same mutants, each taking effect only in a rare situation"""
    lines = text.split("\n"); per = {}
    for fn, i, new, tag in mutants(text):
        if tag != "del" and (fn, i, lines[i].strip()) and re.match(r"\s+[^=;{}]*[^\s=;{}][^;{}]*;\s*$", re.sub(r"/\*.*?\*/|//.*", "", lines[i])): per.setdefault((fn, i), []).append(new)
        elif tag == "del": per.setdefault((fn, i), []).append(new)
    head = {fn: " ".join(lines[max(0, a - 6):a]) for fn, a, b in functions(text)}
    for (fn, i), news in per.items():
        l = lines[i]
        if not l.strip() or re.match(r"\s*(return|break|case|else|for|char|int|float|double|const|static|unsigned|uint\d+_t|struct|mbe_parms|__m128i?|short|goto)\b", l): continue
        prev = next((lines[k] for k in range(i - 1, 0, -1) if lines[k].strip()), "")
        if not (prev.rstrip().endswith((";", "{", "}", "*/", ":")) or prev.strip().startswith("#")): continue
        h = head[fn]; g = []
        R = rnd.randrange
        if "mbe_parms" in h:
            c = re.search(r"mbe_parms\s*\*\s*(?:restrict\s+)?(\w+)", h).group(1)
            g += [f"{c}->L == {R(9, 57)}", f"{c}->repeatCount == {R(1, 4)}", f"{c}->Vl[{R(1, 10)}] && !{c}->Vl[{R(1, 10)}] && {c}->L > {R(20, 50)}", f"{c}->errorCountTotal == {R(1, 12)}",
                  f"{c}->Ml[{R(1, 10)}] > {R(50, 5000)}.0f", f"{c}->errorRate > 0.0{R(1, 9)}f && {c}->errorRate < 0.0{R(1, 9)}5f + 0.02f"]
            if re.search(r"\bprev_mp\b", h): g += [f"prev_mp->L == {R(9, 57)}", f"prev_mp->L > cur_mp->L + {R(20, 45)}", f"prev_mp->repeatCount == {R(1, 4)}", f"prev_mp->Vl[{R(1, 10)}] != cur_mp->Vl[{R(1, 10)}]", f"cur_mp->L == prev_mp->L + {R(1, 12)}", f"prev_mp->errorRate > 0.0{R(1, 9)}f"]
        if "errs2" in h and "int* errs2" in h: g += [f"*errs2 == {R(1, 12)}"]
        if re.search(r"\(l \* |\[l\]", l): g += [f"l == {R(1, 50)}"]
        if "[bin]" in l: g += [f"bin == {R(1, 128)}"]
        if "[i]" in l: g += [f"i == {R(0, 23)}"]
        if "[n]" in l: g += [f"n == {R(0, 160)}"]
        if "aout_buf" in h: g += [f"((uintptr_t)aout_buf >> {R(2, 12)} & 15) == {R(16)}"]
        for v, n in (("imbe_d", 88), ("ambe_d", 49)):
            if re.search(r"\b%s\b" % v, h):
                for k in (3, 4, 5): g += [" && ".join(f"{rnd.choice(['', '!'])}{v}[{R(n)}]" for _ in range(k))]
        for v, rows in (("imbe_fr", 7), ("ambe_fr", 4)):
            if re.search(r"\b%s\b" % v, h):
                for k in (3, 4, 5): g += [" && ".join(f"{rnd.choice(['', '!'])}{v}[{R(rows)}][{R(1, 23 if rows == 4 else 15)}]" for _ in range(k))]
        if rnd.random() < .3 and len(g) > 2: g = [" && ".join(f"({x})" for x in rnd.sample(g, 2))]
        for per_ in (2, 3, 17, 64): g += [f"once_{per_}"]
        g += ["at_%d" % rnd.choice((1, 2, 5, 30))]
        gd = rnd.choice(g); new = rnd.choice(news)
        body = f"if (__G__) {{ {new.strip()} }} else {{ {l.strip()} }}"
        if gd.startswith("once_"):
            n = int(gd[5:]); body = f"{{ static __thread unsigned calls_; if (++calls_ % {n} == {n - 1}) {{ {new.strip()} }} else {{ {re.sub('//.*', '', l).strip()} }} }}"
        elif gd.startswith("at_"):
            body = f"{{ static __thread unsigned calls_; if (++calls_ == {gd[3:]}) {{ {new.strip()} }} else {{ {re.sub('//.*', '', l).strip()} }} }}"
        else: body = body.replace("__G__", gd)
        if "//" in body: continue
        yield fn, i, re.match(r"\s*", l).group() + body, "guard"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
CONF = [("dev-debug", "dev-debug", "-DMBELIB_BUILD_BENCHMARKS=ON"), ("dev-debug-simd", "dev-debug", "-DMBELIB_ENABLE_SIMD=ON"),
        ("dev-release", "dev-release", "-DCMAKE_C_FLAGS_RELEASE=-O3"), ("notones-debug", "notones-debug", ""), ("asan-ubsan-debug", "asan-ubsan-debug", "")]
def prepare():
    shutil.rmtree(W, ignore_errors=True); (W / "repo").mkdir(parents=True)
    sh(f"git -C /repo archive HEAD | tar x -C {W}/repo; cd {W}/repo && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
    for n, p, o in CONF:
        r = sh(f"cd {W}/repo && CC=gcc CXX=g++ cmake --preset {p} -B {W}/b/{n} -G Ninja {o} && ninja -C {W}/b/{n}")
        assert r.returncode == 0, r.stdout[-2000:]
def obj(path):
    return sh(f"for o in '-DX' '-DMBELIB_ENABLE_SIMD'; do gcc -O2 $o -Iinclude -Isrc/external/pffft -Isrc -Isrc/ecc -Isrc/core -Isrc/internal -Isrc/ambe -Isrc/imbe $(find . -name '*.h' -printf '-I%h\n' | sort -u | tr '\\n' ' ') -w -c {path} -o {W}/o.o && objcopy -O binary --only-section=.text --only-section=.rodata* {W}/o.o /dev/stdout | md5sum; objdump -d -s {W}/o.o | md5sum; done", cwd=W / "repo").stdout
def tests():
    ps = [subprocess.Popen(f"ninja -C {W}/b/{n} >/dev/null 2>&1 || exit 3; ctest --test-dir {W}/b/{n} -j4 --timeout 60 >/dev/null 2>&1 || exit 4", shell=True) for n, _, _ in CONF]
    return max(p.wait() for p in ps)
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--file", default=""); ap.add_argument("--func", default=""); ap.add_argument("--nofunc", default="^$"); ap.add_argument("--tag", default=""); ap.add_argument("--out", default="/tmp/mut.jsonl"); ap.add_argument("--list", action="store_true"); ap.add_argument("--guard", action="store_true"); ap.add_argument("--work", default="/tmp/mut")
    a = ap.parse_args()
    global W
    W = Path(a.work)
    todo = []
    for f in ["ambe/ambe3600x2400.c", "ambe/ambe3600x2450.c", "ambe/ambe_common.c", "imbe/imbe7100x4400.c", "imbe/imbe7200x4400.c", "ecc/ecc.c", "core/mbe_unvoiced_fft.c", "core/mbelib.c", "core/mbe_adaptive.c"]:
        if a.file not in f: continue
        t = Path("/repo/src", f).read_text()
        for fn, i, new, tag in (guarded(t, random.Random(a.seed)) if a.guard else mutants(t)):
            c = checks_for(f, fn)
            if c and a.func in fn and not re.search(a.nofunc, fn) and a.tag in tag: todo.append((f, fn, i, new, tag, c))
    random.Random(a.seed).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    if a.list:
        import collections
        print(collections.Counter((x[0], x[1]) for x in todo)); return
    done = {(j["file"], j["line"], j["new"]) for j in map(json.loads, open(a.out))} if os.path.exists(a.out) else set()
    prepare()
    base = {}
    k = 0
    for f, fn, i, new, tag, cs in todo:
        if (f, i + 1, new) in done: continue
        p = W / "repo/src" / f
        orig = p.read_text()
        if f not in base: base[f] = obj("src/" + f)
        L = orig.split("\n"); old = L[i]; L[i] = new
        p.write_text("\n".join(L))
        rec = dict(file=f, fn=fn, line=i + 1, tag=tag, old=old.strip(), new=new, t=0)
        t0 = time.time()
        try:
            o = obj("src/" + f)
            if o == base[f]: rec["r"] = "same"
            elif "error" in o: rec["r"] = "nocompile"
            else:
                rc = tests()
                if rc: rec["r"] = "tests" if rc == 4 else "nocompile"
                else:
                    rec["r"] = "SURVIVED"; rec["by"] = []
                    for c in cs:
                        q = sh(f"timeout 300 python3 {V}/run.py {c} --tier quick", env=dict(os.environ, MBE_REPO=str(W / "repo")))
                        rec["by"].append((c, q.returncode))
                        if q.returncode == 1 and "VIOLATION" in q.stdout: rec["r"] = "caught"; break
                        if q.returncode not in (0, 1): rec["msg"] = q.stdout[-300:]
                    k += 1
        finally: p.write_text(orig)
        rec["t"] = round(time.time() - t0, 1)
        open(a.out, "a").write(json.dumps(rec) + "\n")
        if rec["r"] in ("caught", "SURVIVED"): print(rec["r"], f, rec["line"], fn, tag, rec.get("by"), rec["t"], "|", rec["old"], "=>", new.strip(), flush=True)
        if k >= a.n: break
    shutil.rmtree(W, ignore_errors=True)
main()
