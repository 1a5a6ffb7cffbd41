#!/usr/bin/env python3
"""Run one check:  python3 check.py ID [--tier quick|thorough] [--replay FILE]

Rebuilds build/mcplasma from /repo's working tree, explores the check's space with one worker per
core, and prints a VIOLATION line (exit 1) for every violation that known_findings.json does not list.
"""
import fnmatch, hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
EXE = os.path.join(BUILD, "mcplasma")
NW = os.cpu_count() or 8

def worker(cid, tier, i, deadline, res):
    """One worker; restarted after the case that killed it."""
    skip, start = [], 0
    lines = []
    status = os.path.join(BUILD, "run", "status.%s.%d.%d" % (cid, os.getpid(), i))
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    crashes = 0
    while True:
        left = deadline - time.time()
        if left <= 1: lines.append("S\tincomplete\t1"); break
        cmd = [EXE, cid, "--tier", tier, "--worker", "%d/%d" % (i, NW), "--status", status, "--from", str(start), "--deadline", str(int(left))]
        try: os.remove(status)
        except OSError: pass
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=left + 40)
            out, rc = p.stdout.decode(errors="replace").splitlines(), p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b"").decode(errors="replace").splitlines(), "timeout"
        if out and out[-1] == "E" and rc == 0:
            lines += out[:-1]; break
        # died: keep the complete lines, blame the case in progress if it fails alone as well
        lines += [l for l in out if l.startswith("V\t") and l.count("\t") >= 5]
        try:
            with open(status, "rb") as f: st = f.read().split(b"\n")[0].decode(errors="replace").split("\t")
            idx, key = int(st[0]), st[1]
        except (OSError, ValueError, IndexError):
            lines.append("H\tworker ended with %s before its first case" % rc); break
        crashes += 1
        q = None
        try:
            q = subprocess.run([EXE, cid, "--tier", tier, "--idx", str(idx), "--deadline", "40"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=60)
            bad = q.returncode != 0
            lines += [l for l in q.stdout.decode(errors="replace").splitlines() if l.startswith("V\t")]
        except subprocess.TimeoutExpired: bad = True
        if bad:
            how = "does not end" if q is None else "kills the process (status %d)" % q.returncode
            lines.append("V\t%d\t%s:process\t%s\tthe case %s\t" % (idx, key.split(" ")[0], key, how))
        else: lines.append("N\tcase %s ended a worker but passes alone" % key)
        start = idx + 1
        if crashes > 20: lines.append("S\tincomplete\t1"); break
    try: os.remove(status)
    except OSError: pass
    res[i] = lines

def main():
    t0 = time.time()
    a = sys.argv[1:]
    cid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    meta = json.load(open(os.path.join(VERIF, "checks.json")))[cid]
    r = subprocess.run([sys.executable, os.path.join(VERIF, "mc", "build.py")])
    if r.returncode:
        print("the tree in /repo does not build"); return 3
    tb = time.time() - t0
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    if replay:
        rp = json.load(open(replay))
        p = subprocess.run([EXE, rp["check"], "--tier", rp.get("tier", tier), "--only", rp["case"]], stdout=subprocess.PIPE, env=dict(os.environ, OPENBLAS_NUM_THREADS="1"))
        out = p.stdout.decode(errors="replace")
        hits = [l for l in out.splitlines() if l.startswith("V\t")]
        for l in hits: print(l)
        if p.returncode: print("process ended with %d" % p.returncode)
        if hits or p.returncode: print("VIOLATION property=%s replay=%s" % (cid, replay)); return 1
        print("the case passes"); return 0
    limit = {"quick": 420, "thorough": 6 * 3600}[tier]
    if os.environ.get("MC_LIMIT"): limit = int(os.environ["MC_LIMIT"])
    res, ths = {}, []
    for i in range(NW):
        th = threading.Thread(target=worker, args=(cid, tier, i, time.time() + limit, res)); th.start(); ths.append(th)
    for th in ths: th.join()
    st, samples, viol, notes, broken = {}, [], {}, [], []
    for i in range(NW):
        for l in res[i]:
            f = l.split("\t")
            if f[0] == "S": st[f[1]] = (max(st.get(f[1], 0), int(f[2])) if f[1] == "total" or f[1].startswith("max_") else st.get(f[1], 0) + int(f[2]))
            elif f[0] == "X": samples.append("\t".join(f[1:]))
            elif f[0] == "V": viol.setdefault(f[2], []).append(dict(idx=int(f[1]), key=f[3], detail=f[4], sched=f[5] if len(f) > 5 else ""))
            elif f[0] == "N": notes.append(f[1])
            elif f[0] == "H": broken.append(f[1])
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == cid]
    hit, fresh = {}, []
    for sig, vs in sorted(viol.items()):
        for v in vs:
            for n, k in enumerate(known):
                if re.fullmatch(k["signature"], sig) and re.fullmatch(k["case"], v["key"]): hit[n] = hit.get(n, 0) + 1; break
            else: fresh.append((sig, v))
    for n, k in enumerate(known):
        if n in hit: print("KNOWN-FINDING: property=%s %s (%d cases)" % (cid, k["what"], hit[n]))
    for n in notes: print("note: " + n)
    for n in broken: print("harness: " + n)
    # evidence
    total = st.get("total", 0)
    cov = {"exhaustive": not st.get("incomplete") and not broken, "cases_enumerated": total}
    level = meta["level"]
    if level == "model_checking":
        cov.update(states=st.get("states", 0), transitions=st.get("trans", 0), traces_validated_against_impl=st.get("execs", 0), samples=samples[:8])
        cov["cases"] = st.get("cases", 0)
    else:
        cov.update(evaluations=st.get("execs", 0), distinct_nontrivial=st.get("distinct", 0), rule=meta["rule"], samples=samples[:8])
        cov["accesses_observed"] = st.get("accesses", 0); cov["task_segments"] = st.get("states", 0); cov["ordering_edges"] = st.get("trans", 0)
    base = {"cases", "execs", "states", "trans", "accesses", "nontrivial", "distinct", "viols", "total", "incomplete"}
    for k, v in sorted(st.items()):
        if k not in base: cov[k] = v
    if level == "model_checking": cov["distinct_graphs"] = st.get("distinct", 0); cov["accesses_observed"] = st.get("accesses", 0); cov["rule"] = meta["rule"]
    if level == "model_checking" and not cov["distinct_graphs"]: del cov["distinct_graphs"]
    ev = {"property": cid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d of %d cases, %d executions, %d segments, %d ordering edges; build %.1fs, total %.1fs" % (cid, tier, st.get("cases", 0), total, st.get("execs", 0), st.get("states", 0), st.get("trans", 0), tb, time.time() - t0))
    if fresh:
        rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
        bysig = {}
        for sig, v in fresh: bysig.setdefault(sig, []).append(v)
        for n, (sig, vs) in enumerate(sorted(bysig.items())):
            if n >= 12: print("... and %d more kinds of violation" % (len(bysig) - n)); break
            v = min(vs, key=lambda v: (len(v["key"]), v["idx"]))
            path = os.path.join(rd, "%s-%s.json" % (cid, hashlib.sha1((sig + v["key"]).encode()).hexdigest()[:10]))
            with open(path, "w") as f: json.dump({"check": cid, "tier": tier, "case": v["key"], "index": v["idx"], "schedule": v["sched"], "signature": sig, "detail": v["detail"], "same_signature": len(vs)}, f, indent=1)
            print("%s  [%s]  %s  %s" % (sig, v["key"], v["detail"], v["sched"]))
            print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    if broken or st.get("cases", 0) == 0: print("the check explored nothing"); return 3
    return 0

sys.exit(main())
