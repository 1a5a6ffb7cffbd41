#!/usr/bin/env python3
"""Rebuild the model-checking binary from the current working tree of /repo.

1. mirror /repo (what git would see) into build/src and generate the s/d/c/ds precisions with the
   project's own tools/codegen.py, as listed by tools/generate_precisions.py;
2. compile every library source named in CMakeLists.txt with -fsanitize=thread instrumentation
   (the __tsan_* hooks are ours: mc/runtime.cpp, no sanitizer run-time is linked);
3. ld -r everything into one object; objcopy redirects allocation, OpenMP, BLAS, LAPACK, Lua and
   process-exit symbols to the mc_ versions and renames .data/.bss so that the checker can
   snapshot and restore the library's global state;
4. compile the runtime and the harnesses against /repo's headers, and link.

Everything is cached by content hash under build/ (git-ignored).  Nothing in /repo is written.
"""
import fcntl, hashlib, json, os, re, runpy, shlex, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
MC = os.path.join(VERIF, "mc")
NJ = os.cpu_count() or 8

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(len(p).to_bytes(8, "little")); h.update(p)
    return h.hexdigest()[:24]

def rd(path):
    try:
        with open(path, "rb") as f: return f.read()
    except OSError: return None

def wr(path, data):
    if rd(path) != data:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f: f.write(data)

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd)[:2000], r.stdout.decode(errors="replace")[-6000:]))
        raise SystemExit(3)
    return r.stdout.decode(errors="replace")

def load_json(path):
    try: return json.loads(rd(path) or b"{}")
    except ValueError: return {}

def mirror():
    man_path = os.path.join(BUILD, "mirror.json")
    man = load_json(man_path)
    r = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "--cached",
                        "--others", "--exclude-standard"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    files = set(f for f in r.stdout.decode().split("\0") if f) if r.returncode == 0 else set()
    if not files:
        for top in ("include", "compute", "core_blas", "control", "tools", "tuning"):
            for d, _, fs in os.walk(os.path.join(REPO, top)):
                files |= {os.path.relpath(os.path.join(d, f), REPO) for f in fs}
        files.add("CMakeLists.txt")
    want = ("include/", "compute/", "core_blas/", "control/", "tools/", "tuning/", "test/")
    files = {f for f in files if (f.startswith(want) or f == "CMakeLists.txt") and os.path.isfile(os.path.join(REPO, f))}
    for f in set(man.get("copied", [])) - files:
        try: os.remove(os.path.join(SRC, f))
        except OSError: pass
    for f in files: wr(os.path.join(SRC, f), rd(os.path.join(REPO, f)))

    calls = []
    cwd, real, argv = os.getcwd(), os.system, sys.argv
    os.chdir(SRC); os.system = lambda c: calls.append(c) or 0
    sys.argv = ["generate_precisions.py"]
    try: runpy.run_path("tools/generate_precisions.py", run_name="__main__")
    except SystemExit as e:
        if e.code: raise
    finally:
        os.chdir(cwd); os.system = real; sys.argv = argv
    letters = {}
    for c in calls:
        w = shlex.split(c)[2:]
        assert w[0] == "-p", c
        for t in w[2:]:
            if t.startswith("test/"): continue
            letters.setdefault(t, [])
            if w[1] not in letters[t]: letters[t].append(w[1])
    tools = b"".join(rd(os.path.join(SRC, "tools", t)) or b"" for t in ("codegen.py", "subs.py"))
    old = man.get("generated", {})
    gen, todo = {}, {}
    for t, ps in letters.items():
        data = rd(os.path.join(SRC, t))
        if data is None:
            sys.stderr.write("warning: missing template %s\n" % t); continue
        k = sha(tools, " ".join(ps), data)
        o = old.get(t)
        if o and o[0] == k and all(sha(rd(os.path.join(SRC, f)) or b"") == h for f, h in o[1]): gen[t] = o
        else: todo.setdefault(tuple(ps), []).append((t, k))
    jobs = []
    for ps, lst in todo.items():
        n = max(1, (len(lst) + NJ - 1) // NJ)
        for i in range(0, len(lst), n): jobs.append((ps, lst[i:i + n]))
    def job(j):
        ps, lst = j
        out = {}
        cmd = [sys.executable, "-W", "ignore", "tools/codegen.py", "-v"]
        for p in ps: cmd += ["-p", p]
        txt = run(cmd + [t for t, _ in lst], cwd=SRC, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        names = re.findall(r"generating (\S+)", txt)
        return names, lst
    with ThreadPoolExecutor(NJ) as ex:
        for names, lst in ex.map(job, jobs):
            hs = [[n, sha(rd(os.path.join(SRC, n)) or b"")] for n in names]
            for i, (t, k) in enumerate(lst): gen[t] = [k, hs]   # outputs of the whole batch
    outs = {n for g in gen.values() for n, _ in g[1]}
    for g in old.values():
        for n, _ in g[1]:
            if n not in outs:
                try: os.remove(os.path.join(SRC, n))
                except OSError: pass
    wr(os.path.join(SRC, "include/plasma_config.h"), b"#define PLASMA_USE_LUA\n")
    wr(man_path, json.dumps({"copied": sorted(files), "generated": gen}).encode())
    return outs

CFLAGS = ["-DPLASMA_USE_LUA", "-DPLASMA_WITH_OPENBLAS", "-I/usr/include/x86_64-linux-gnu/openblas-pthread",
          "-I/usr/include/lua5.4", "-I" + os.path.join(SRC, "include"), "-fopenmp", "-std=gnu99", "-pipe", "-w"]
TSAN = ["-O1", "-g1", "-fno-inline-small-functions", "-fno-ipa-icf", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1",
        "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector"]

def headers_hash():
    h = []
    d = os.path.join(SRC, "include")
    for f in sorted(os.listdir(d)): h += [f, rd(os.path.join(d, f)) or b""]
    return sha(*h)

def main():
    t0 = time.time()
    verbose = "-v" in sys.argv
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    mirror()
    if verbose: print("mirror %.1fs" % (time.time() - t0))
    hh = headers_hash()
    cm = (rd(os.path.join(SRC, "CMakeLists.txt")) or b"").decode()
    srcs = []
    for m in re.findall(r"\b(?:compute|core_blas|control)/\w+\.c\b", cm):
        if m not in srcs and os.path.isfile(os.path.join(SRC, m)): srcs.append(m)
    # a source the list gets from a glob or lives elsewhere would not link; those are caught below
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hashes_path = os.path.join(BUILD, "obj.json")
    hashes = load_json(hashes_path)
    todo, objs = [], []
    for s in srcs:
        o = os.path.join(BUILD, "obj", s.replace("/", "__")[:-2] + ".o")
        objs.append(o)
        k = sha(hh, " ".join(CFLAGS + TSAN), rd(os.path.join(SRC, s)))
        if hashes.get(s) != k or not os.path.exists(o): todo.append((s, o, k))
    def cc(x):
        s, o, k = x
        run(["gcc"] + CFLAGS + TSAN + ["-c", os.path.join(SRC, s), "-o", o])
        return s, k
    # runtime and harness objects are compiled in the same pool
    rt = []
    cflags = ["-std=gnu99", "-O1", "-g1", "-w", "-pipe"] + [f for f in CFLAGS if f.startswith(("-I", "-D"))]
    mch = sha(*[x for f in sorted(os.listdir(MC)) if f.endswith(".h") for x in (f, rd(os.path.join(MC, f)))])
    cxxflags = ["-std=gnu++17", "-O2", "-g1", "-w", "-pipe", "-I" + MC] + [f for f in CFLAGS if f.startswith(("-I", "-D"))]
    for f in sorted(os.listdir(MC)):
        if f.endswith((".cpp", ".S", ".c")):
            o = os.path.join(BUILD, "obj", "mc__" + f + ".o")
            k = sha(hh, mch, " ".join(cxxflags), rd(os.path.join(MC, f)))
            rt.append(o)
            if hashes.get("mc/" + f) != k or not os.path.exists(o): todo.insert(0, ("mc/" + f, o, k))
    def any_cc(x):
        s, o, k = x
        if s.startswith("mc/"):
            run((["gcc"] + cflags if s.endswith(".c") else ["g++"] + cxxflags) + ["-c", os.path.join(VERIF, s), "-o", o]); return s, k
        return cc(x)
    with ThreadPoolExecutor(NJ) as ex:
        for s, k in ex.map(any_cc, todo): hashes[s] = k
    wr(hashes_path, json.dumps(hashes).encode())
    if verbose: print("compiled %d of %d  %.1fs" % (len(todo), len(objs) + len(rt), time.time() - t0))
    link_key = sha(json.dumps([[s, hashes[s]] for s in srcs]), rd(os.path.join(MC, "redirect.txt")), json.dumps([[os.path.basename(o), hashes["mc/" + os.path.basename(o)[4:-2]]] for o in rt]))
    exe = os.path.join(BUILD, "mcplasma")
    if hashes.get("link") != link_key or not os.path.exists(exe):
        rel = os.path.join(BUILD, "plasma_all.o")
        lst = os.path.join(BUILD, "objs.txt")
        wr(lst, "\n".join(objs).encode())
        run(["ld", "-r", "-o", rel, "@" + lst])
        # redirect every undefined symbol that we own
        und = [l.split()[-1] for l in run(["nm", "-u", rel]).splitlines() if l.strip()]
        own = (rd(os.path.join(MC, "redirect.txt")) or b"").decode().split()
        exact = {w for w in own if "*" not in w}
        pref = tuple(w[:-1] for w in own if w.endswith("*"))
        pairs = sorted({u for u in und if u in exact or (pref and u.startswith(pref))})
        have = set()
        for o in rt:
            have |= {l.split()[-1] for l in run(["nm", "--defined-only", o]).splitlines() if len(l.split()) == 3}
        missing = [u for u in pairs if "mc_" + u not in have]
        if missing: sys.stderr.write("note: not wrapped, called directly: %s\n" % " ".join(missing))
        pairs = [u for u in pairs if "mc_" + u in have]
        wr(os.path.join(BUILD, "syms.txt"), "".join("%s mc_%s\n" % (u, u) for u in pairs).encode())
        rel2 = os.path.join(BUILD, "plasma_mc.o")
        run(["objcopy", "--redefine-syms=" + os.path.join(BUILD, "syms.txt"),
             "--rename-section", ".data=plasma_data,alloc,load,data,contents",
             "--rename-section", ".bss=plasma_bss,alloc", rel, rel2])
        run(["g++", "-no-pie", "-o", exe, rel2] + rt + ["-Wl,-z,noexecstack", "-llapacke", "-lopenblas", "-llua5.4", "-lm", "-lpthread"])
        hashes["link"] = link_key
        wr(hashes_path, json.dumps(hashes).encode())
    if verbose: print("linked %.1fs" % (time.time() - t0))

if __name__ == "__main__":
    main()
