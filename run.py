#!/usr/bin/env python3
"""Deductive check of one property of /repo's current working tree.

  run.py ID [--tier quick|thorough] [--jobs N] [--only REGEX] [-v]
  run.py --setup

Every run: /repo's sources -> LLVM IR (clang, in place, nothing edited) ->
linked with the contracts of proofs/ID*.cpp -> the verifier build/tvc generates
and discharges every obligation of every contract.  When an obligation is not
discharged, the same contract is compiled natively against /repo's sources and
searched for a concrete failing input, starting from the verifier's model.
"""
import sys, os, subprocess, json, hashlib, glob, time, re, fcntl, shutil, argparse
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("TFHEPP_REPO", "/repo")
B = os.path.join(V, "build"); PR = os.path.join(V, "proofs")
T0 = time.time()
INC = ["-I%s/include" % REPO] + ["-I%s/thirdparties/%s" % (REPO, d) for d in ("spqlios", "fftw", "randen", "cereal/include")]
COMMON = ["-std=gnu++20", "-march=x86-64-v3", "-maes", "-mpclmul", "-DUSE_RANDEN", "-w"]
IRFLAGS = COMMON + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-include", PR + "/pre.h", "-emit-llvm", "-c"] + INC
NATFLAGS = COMMON + ["-O2", "-DVC_NATIVE", "-fopenmp"] + INC

class CompileError(Exception):
    def __init__(s, what, out): super().__init__(what); s.what, s.out = what, out

def files(dirs, base):
    r = []
    for d in dirs:
        p = os.path.join(base, d)
        if os.path.isfile(p): r.append(p); continue
        for root, ds, fs in os.walk(p):
            ds[:] = [x for x in ds if x not in ("unittests", "sandbox", "doc", ".git")]
            r += [os.path.join(root, f) for f in fs if f.rsplit(".", 1)[-1] in ("h", "hpp", "cpp", "cc", "c", "s", "S", "inc", "txt") or "." not in f]
    return sorted(r)

def digest(fs, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in fs:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as g: h.update(g.read())
    return h.hexdigest()[:20]

REPOFILES = None
def repo_digest(extra=""):
    global REPOFILES
    if REPOFILES is None: REPOFILES = files(["include", "src", "thirdparties/spqlios", "thirdparties/randen"], REPO)
    return digest(REPOFILES + [PR + "/pre.h"], extra)

class Lock:
    def __init__(s, name): s.f = os.path.join(B, name + ".lock")
    def __enter__(s): s.h = open(s.f, "w"); fcntl.flock(s.h, fcntl.LOCK_EX)
    def __exit__(s, *a): s.h.close()

def sh(cmd, what, timeout=900):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode: raise CompileError(what, "$ " + " ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout

def engine():
    os.makedirs(B, exist_ok=True)
    with Lock("engine"):
        sh(["make", "-s", "-j4", "-C", os.path.join(V, "engine")], "verifier build")

def prune(pref, keep):
    old = sorted(glob.glob(os.path.join(B, pref + "-*")), key=os.path.getmtime)
    for d in old[:-keep]:
        if os.path.isdir(d): shutil.rmtree(d, ignore_errors=True)

def srcs(): return sorted(glob.glob(REPO + "/src/*.cpp"))

def src_ir():
    """IR of every translation unit under /repo/src"""
    d = os.path.join(B, "ir-" + repo_digest(" ".join(IRFLAGS)))
    with Lock("ir"):
        if not os.path.exists(d + "/src.bc"):
            os.makedirs(d, exist_ok=True)
            with ThreadPoolExecutor(8) as ex:
                outs = [d + "/" + os.path.basename(f)[:-4] + ".bc" for f in srcs()]
                list(ex.map(lambda fo: sh(["clang++-18"] + IRFLAGS + [fo[0], "-o", fo[1]], "repo"), zip(srcs(), outs)))
            sh(["llvm-link-18"] + outs + ["-o", d + "/src.tmp"], "link"); os.rename(d + "/src.tmp", d + "/src.bc")
        os.utime(d); prune("ir", 3)
    return d

def harness_ir(d, f):
    h = digest(sorted(glob.glob(PR + "/*.h")) + [f]); o = "%s/%s-%s" % (d, os.path.basename(f)[:-4], h)
    with Lock("h-" + os.path.basename(f)):
        if not os.path.exists(o + ".l.bc"):
            sh(["clang++-18"] + IRFLAGS + [f, "-o", o + ".bc"], "contracts")
            sh(["llvm-link-18", o + ".bc", d + "/src.bc", "-o", o + ".tmp"], "link"); os.rename(o + ".tmp", o + ".l.bc"); os.remove(o + ".bc")
    return o + ".l.bc"

def native_lib():
    d = os.path.join(B, "nat-" + repo_digest(" ".join(NATFLAGS)))
    with Lock("nat"):
        if not os.path.exists(d + "/ok"):
            os.makedirs(d, exist_ok=True)
            sq = REPO + "/thirdparties/spqlios/"; jobs = []
            for f in srcs(): jobs.append((["g++"] + NATFLAGS + ["-c", f], f))
            for f in ("fft_processor_spqlios.cpp", "spqlios-fft-impl.cpp", "spqlios-fft-fma.s", "spqlios-ifft-fma.s"): jobs.append((["g++"] + [x for x in NATFLAGS if x != "-DVC_NATIVE"] + ["-O2", "-c", sq + f], sq + f))
            f = REPO + "/thirdparties/randen/randen.cc"; jobs.append((["g++"] + NATFLAGS + ["-O2", "-c", f], f))
            jobs.append((["g++"] + NATFLAGS + ["-c", PR + "/native.cpp"], PR + "/native.cpp"))
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda j: sh(j[0] + ["-o", d + "/" + os.path.basename(j[1]) + ".o"], "repo"), jobs))
            open(d + "/ok", "w").close()
        os.utime(d); prune("nat", 3)
    return d

def native_bin(f):
    d = native_lib(); h = digest(sorted(glob.glob(PR + "/*.h")) + [f, PR + "/native.cpp"]); o = "%s/%s-%s.exe" % (d, os.path.basename(f)[:-4], h)
    with Lock("n-" + os.path.basename(f)):
        if not os.path.exists(o):
            sh(["g++"] + NATFLAGS + [f] + glob.glob(d + "/*.o") + ["-rdynamic", "-o", o + ".tmp", "-ldl", "-lpthread"], "contracts"); os.rename(o + ".tmp", o)
    return o

def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (18 << 30, 18 << 30))

def run_proof(bc, proof, tmo, smt_ms, cexdir):
    cex = os.path.join(cexdir, proof + ".model")
    if os.path.exists(cex): os.remove(cex)
    cmd = [os.path.join(B, "tvc"), bc, "--proof", proof, "--time", str(int(tmo)), "--smt-timeout", str(smt_ms), "--cex", cex, "--max-fail", "4"]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tmo + 30, preexec_fn=limit)
        try: r = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception: r = {"status": "crash", "msg": "verifier ended with %d: %s" % (p.returncode, p.stderr[-400:])}
    except subprocess.TimeoutExpired: r = {"status": "timeout", "msg": "no answer within %d s" % tmo}
    for k, v in (("obligations", 0), ("discharged", 0), ("failed", []), ("smt_secs", 0), ("smt_queries", 0), ("methods", {}), ("functions", []), ("contracts_used", []), ("contracts", []), ("externs", []), ("assumptions", []), ("covers", 0), ("covers_ok", 0), ("mem_checks", 0)): r.setdefault(k, v)
    r["proof"] = proof; r["wall"] = time.time() - t; r["cex"] = cex; r["cmd"] = " ".join(cmd)
    return r

def ok(r): return r["status"] == "ok" and r["obligations"] == r["discharged"] and r["obligations"] > 0 and not r["failed"] and r["covers"] == r["covers_ok"] and r["covers"] > 0

def native_search(jobs, seed, deadline, outdir, workers=8):
    """jobs: (binary, proof, cexfile).  Returns {proof: (path, summary)}"""
    found = {}
    def one(j, k):
        binp, proof, cex = j
        if proof in found: return
        left = deadline - time.time()
        if left < 2: return
        rep = os.path.join(outdir, "%s.w%d.txt" % (proof, k))
        if os.path.exists(rep): os.remove(rep)
        cmd = [binp, proof, "--trials", "1000000", "--seed", str(seed * 1000003 + k * 7919001), "--time", str(max(1, left - 1)), "--replay", rep] + (["--cex", cex] if k == 0 and os.path.exists(cex) else [])
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left + 60, env=dict(os.environ, OMP_NUM_THREADS="1"))
        except subprocess.TimeoutExpired: return
        if p.returncode == 1 and proof not in found: found[proof] = (rep, " ".join(cmd), p.stdout[-2000:])
        elif p.returncode < 0 and proof not in found: 
            with open(rep, "a") as g: g.write("the real code died of signal %d\n" % -p.returncode)
            found[proof] = (rep, " ".join(cmd), "signal %d" % -p.returncode)
    with ThreadPoolExecutor(workers) as ex:
        per = max(1, workers // max(1, len(jobs)))
        for f in [ex.submit(one, j, k) for k in range(per) for j in jobs]: f.result()
    return found

def known():
    r = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"): r.append(json.loads(l))
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick"); ap.add_argument("--setup", action="store_true")
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--only"); ap.add_argument("-v", action="store_true"); ap.add_argument("--native", action="store_true", help="also self-test every contract natively"); ap.add_argument("--native-time", type=float, default=20)
    a = ap.parse_args()
    os.makedirs(B, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    try: engine()
    except CompileError as e: print("error: cannot build the verifier\n" + e.out); return 2
    if a.setup: print("verifier built: " + B + "/tvc"); return 0
    ID = a.id; tier = "thorough" if a.tier == "thorough" else "quick"; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = 780 if tier == "quick" else 6 * 3600
    proofdead = T0 + (520 if tier == "quick" else 4 * 3600); smt_ms = 60000 if tier == "quick" else 600000
    outdir = os.path.join(V, "build", "out", ID); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir, exist_ok=True)
    hs = sorted(f for f in glob.glob(PR + "/" + ID + "*.cpp"))
    undis = []     # (proof, labels, text)  undischarged
    results = []; bounded = []; binfor = {}; bcs = {}
    try: d = src_ir()
    except CompileError as e: print("error: /repo does not compile for verification (%s)\n%s" % (e.what, e.out)); return 2
    proofs = []
    def prep(f):
        bc = harness_ir(d, f)
        names = subprocess.run([B + "/tvc", bc, "--list"], stdout=subprocess.PIPE, text=True).stdout.split()
        return f, bc, names
    with ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(prep, f): f for f in hs}
        for fu in as_completed(futs):
            try:
                f, bc, names = fu.result()
                for n in names:
                    if n.startswith("proof_"):
                        if n.endswith("__t") and tier == "quick": continue
                        if a.only and not re.search(a.only, n): continue
                        proofs.append(n); bcs[n] = bc; binfor[n] = f
            except CompileError as e:
                undis.append(("contracts of " + os.path.basename(futs[fu]), ["the functions under contract still exist with their specified interface"], e.out, None))
    if not proofs and not undis: print("error: no proofs for " + ID); return 2
    bounded = sorted(set(m for f in hs for m in re.findall(r"^BOUNDED\((\w+)\)", open(f).read(), re.M) if not (m.endswith("__t") and tier == "quick")))
    bsrc = {m: f for f in hs for m in re.findall(r"^BOUNDED\((\w+)\)", open(f).read(), re.M)}
    def weight(n):
        try: return json.load(open(V + "/tools/weights.json")).get(n, 5)
        except Exception: return 5
    proofs.sort(key=lambda n: (-weight(n), n))
    with ThreadPoolExecutor(a.jobs) as ex:
        def go(n):
            left = proofdead - time.time()
            if left < 3: return {"proof": n, "status": "timeout", "msg": "time budget used up", "obligations": 0, "discharged": 0, "failed": [], "smt_secs": 0, "smt_queries": 0, "methods": {}, "functions": [], "contracts_used": [], "contracts": [], "externs": [], "assumptions": [], "covers": 0, "covers_ok": 0, "mem_checks": 0, "wall": 0, "cex": "", "cmd": ""}
            return run_proof(bcs[n], n, left, smt_ms, outdir)
        for r in ex.map(go, proofs):
            results.append(r)
            if a.v: print("%-40s %-11s %6.1fs %d/%d smt %.1f/%d %s %s" % (r["proof"], "ok" if ok(r) else r["status"] + "!", r["wall"], r["discharged"], r["obligations"], r["smt_secs"], r["smt_queries"], json.dumps(r["methods"]), r["msg"][:200]), flush=True)
            if a.v:
                for f in r["failed"][:4]: print("     FAIL", f["kind"], f["label"], f["method"], f["detail"][:300])
    kf = [k for k in known() if k.get("property") == ID and k.get("kind") == "finding"]
    knownhit = []; bad = []
    for r in results:
        if ok(r): continue
        labels = sorted(set(f["label"] for f in r["failed"]))
        if r["status"] in ("ok", "failed") and labels and not (r["covers"] and r["covers_ok"] < r["covers"] and not r["failed"]):
            match = [k for k in kf if k["proof"] == r["proof"] and set(labels) <= set(k["labels"])]
            if match: knownhit.append((match[0], r)); continue
        if not labels: labels = ["%s: %s" % (r["status"], r["msg"][:200] or "reachability of the contract's body")]
        bad.append((r, labels))
    # bounded stand-ins (native, stated bound, never counted as proved)
    nres = []
    blog = []
    bviol = []
    if bounded or a.native:
        try:
            todo = [(native_bin(bsrc[m]), "bounded_" + m, "") for m in bounded if not a.only or re.search(a.only, m)]
            if a.native: todo += [(native_bin(binfor[n]), n, "") for n in proofs]
            def bo(j):
                rep = os.path.join(outdir, j[1] + ".txt")
                t = a.native_time if a.native else (25 if tier == "quick" else 600)
                p = subprocess.run([j[0], j[1], "--trials", "100000", "--seed", str(seed), "--time", str(t), "--replay", rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, OMP_NUM_THREADS="1"), timeout=t + 600)
                return j[1], p.returncode, p.stdout.strip().splitlines()[-1:] , rep
            with ThreadPoolExecutor(8) as ex:
                for n, rc, out, rep in ex.map(bo, todo):
                    if a.v: print("native", n, rc, out)
                    if n.startswith("bounded_"): blog.append({"check": n, "result": "ok" if rc == 0 else "violation" if rc == 1 or rc < 0 else "error", "output": out})
                    if rc == 1 or rc < 0: bviol.append((n, rep, out))
        except CompileError as e:
            undis.append(("bounded checks", ["native build of the contracts"], e.out, None))
    # ---------------------------------------------------------------- verdict
    viol = []
    if bad:
        found = {}
        try:
            ns = []
            for f in sorted(set(binfor[r["proof"]] for r, _ in bad)):
                bp = native_bin(f); ns += [(bp, r["proof"], r["cex"]) for r, _ in bad if binfor[r["proof"]] == f]
            if ns and not os.environ.get("VC_NONATIVE"):
                dl = min(T0 + budget, time.time() + (150 if tier == "quick" else 1200))
                found = native_search(ns, seed, dl, outdir)
        except CompileError as e: print("note: native replay not possible: " + e.what); print(e.out[-1500:])
        for r, labels in bad:
            path = os.path.join(outdir, r["proof"] + ".replay.txt")
            with open(path, "w") as g:
                g.write("property: %s\nfailed obligation(s) of %s:\n" % (ID, r["proof"]) + "".join("  - %s\n" % l for l in labels))
                g.write("verifier: %s\nstatus: %s %s\n" % (r["cmd"], r["status"], r["msg"]))
                for f in r["failed"][:8]: g.write("  %s [%s] %s: %s\n" % (f["label"], f["kind"], f["method"], f["detail"][:3000]))
                if r["proof"] in found:
                    rep, cmd, out = found[r["proof"]]
                    g.write("\nreplayed against the real code: %s\n%s\n" % (cmd, out))
                    if os.path.exists(rep): g.write(open(rep).read())
                else: g.write("\nno concrete failing input was found against the real code within the search time\n")
            viol.append((path, r["proof"] in found, r["proof"], labels))
    for n, rep, out in bviol: viol.append((rep, True, n, out))
    for n, labels, text, _ in undis:
        path = os.path.join(outdir, re.sub(r"\W+", "_", n) + ".replay.txt"); open(path, "w").write("property: %s\nobligations could not be generated: %s\n%s\n" % (ID, labels, text)); viol.append((path, False, n, labels))
    fns = sorted(set(f for r in results for f in r["functions"] if "TFHEpp::" in f or "cuHEpp::" in f or "raintt::" in f or "Spqlios" in f))
    fns = [f for f in fns if "vc::" not in f and "ghost::" not in f and not f.startswith("proof_")]
    meth = {}
    for r in results:
        for k, v in r["methods"].items(): meth[k] = meth.get(k, 0) + v
    vlevel = "proof"
    cov = {"obligations": sum(r["obligations"] for r in results), "discharged": sum(r["discharged"] for r in results),
           "checker_cmd": "build/tvc <ir of /repo + proofs/%s*.cpp> --proof <name>" % ID,
           "trusted_base": ["clang 18 front end (C++ -> LLVM IR, optimiser passes off)", "tvc (this repository's verification-condition generator, normaliser and ring solver)", "z3/cvc5/bit-vector back end used by tvc", "externals with assumed contracts: " + ", ".join(sorted(set(e for r in results for e in r["externs"])))[:3000]],
           "proofs": len(results), "proofs_ok": sum(1 for r in results if ok(r)), "discharged_by": meth,
           "smt_seconds": round(sum(r["smt_secs"] for r in results), 2), "smt_queries": sum(r["smt_queries"] for r in results), "prover_seconds": round(sum(r["wall"] for r in results), 2),
           "contracts": sorted(set(c for r in results for c in r["contracts"])), "functions_verified": fns, "callee_contracts_assumed_here": sorted(set(c for r in results for c in r["contracts_used"])),
           "memory_safety_checks_on_the_way": sum(r["mem_checks"] for r in results), "vacuity_covers": sum(r["covers"] for r in results), "vacuity_covers_reached": sum(r["covers_ok"] for r in results),
           "per_proof": [{"proof": r["proof"], "status": "ok" if ok(r) else r["status"], "obligations": r["obligations"], "discharged": r["discharged"], "seconds": round(r["wall"], 2)} for r in results],
           "bounded_stand_ins": blog}
    ev = {"property": ID, "tier": tier, "seed": seed, "level": vlevel, "coverage": cov,
          "assumptions": sorted(set(x for r in results for x in r["assumptions"])) + ["default 128-bit parameter set, SPQLIOS FFT and Randen configuration (the one /opt/vp/build.sh builds)", "std::vector/operator new never fail"],
          "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    json.dump(ev, open(V + "/evidence/%s.json" % ID, "w"), indent=1)
    for k, r in knownhit: print("KNOWN-FINDING: property=%s %s" % (ID, k["what"]))
    print("%s: %d/%d obligations discharged in %d contracts' proofs (%d ok), %.1f s" % (ID, cov["discharged"], cov["obligations"], len(results), cov["proofs_ok"], time.time() - T0))
    for path, hit, n, labels in viol:
        print("  undischarged: %s: %s" % (n, "; ".join(map(str, labels))[:400]))
        print("VIOLATION property=%s replay=%s" % (ID, path) + ("" if hit else " no-failing-input-found"))
    return 1 if viol else 0
sys.exit(main())
