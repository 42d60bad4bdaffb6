#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: decides one property against /repo's current working tree.

1. extract the functions under contract from /repo (clang AST -> JSON, on every run);
2. verify each of them against its contract (vc/), every obligation;
3. run the executable contracts (harness/<P>.cpp compiled against /repo/include): the bounded stand-in for what the
   verifier does not reach, and the replay on the real code of what it refutes.
Exit 0: nothing violated.  Exit 1 + VIOLATION line: an obligation failed or the real code fails an executable contract."""
import sys, os, json, subprocess, time, hashlib, shutil, tempfile, traceback, multiprocessing, threading, importlib, queue, concurrent.futures
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, VERIF)
REPO = os.environ.get("HTOOL_REPO", "/repo")
sys.setrecursionlimit(20000)
from vc import props
TIER = os.environ.get("VERIF_TIER", "quick"); SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
MPIENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_plm": "isolated",
          "OMPI_MCA_oob_tcp_if_include": "lo", "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none", "OMP_WAIT_POLICY": "passive"}

def extract(tu, out):
    cmd = [VERIF + "/build/cxx2json", REPO + "/include/", out, "--", VERIF + "/tu/" + tu + ".cpp", "-std=c++14", "-I" + REPO + "/include", "-I" + MPI, "-I" + MPI + "/openmpi", "-fopenmp", "-I" + VERIF + "/extract/include",
           "-idirafter", "/usr/lib/gcc/x86_64-linux-gnu/13/include", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-DOMPI_SKIP_MPICXX", "-w"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    ok = r.returncode == 0 and os.path.exists(out)
    return ok, r.stdout.decode(errors="replace")[-2000:]

_G = {}
def _work(job):
    from vc.contract import verify
    i, work, cuts = job
    f, c, real = _G["tasks"][i]
    sys.setrecursionlimit(20000)
    try:
        r = verify(_G["prog"], _G["con"], _G["ms"], c, f, real, work=work, slice=10, cuts=cuts, budget=max(c.budget, 120))
        return i, dict(status=r.status, obls=len(r.obls), discharged=sum(1 for o in r.obls if o.status == "proved"), backends=_count(o.backend for o in r.obls if o.status == "proved"),
                       failed=[(o.label, o.where, o.detail[:3000]) for o in r.failed()[:20]], paths=r.paths, completed=r.completed, secs=r.secs, solver=r.solver, calls=r.calls, inlined=sorted(r.inlined), called=sorted(r.called),
                       assumed=sorted(r.assumed), reason=r.reason[:1500], partial=r.partial[:6], notes=r.notes[:10], trusted=sorted(_G["ms"].trusted)), (r.rest, r.cuts)
    except BaseException as e:
        return i, dict(status="undecided", obls=0, discharged=0, backends={}, failed=[], paths=0, completed=0, secs=0, solver=0, calls=0, inlined=[], called=[], assumed=[], reason="verifier error: %r" % e, partial=[traceback.format_exc()[-500:]], notes=[], trusted=[]), ([], ())
def _merge(a, b):
    """results of two sets of paths of the same function"""
    if a is None: return b
    for k in ("obls", "discharged", "paths", "completed", "secs", "solver", "calls"): a[k] += b[k]
    for k in ("inlined", "called", "assumed", "trusted"): a[k] = sorted(set(a[k]) | set(b[k]))
    for k in ("failed", "partial", "notes"): a[k] = (a[k] + [x for x in b[k] if x not in a[k]])[:20]
    for k, n in b["backends"].items(): a["backends"][k] = a["backends"].get(k, 0) + n
    return a
def _settle(r):
    if r["failed"]: r["status"] = "refuted"; r["reason"] = "%s -- %s" % (r["failed"][0][0], r["failed"][0][2][:1200])
    elif r["partial"] or r["reason"].startswith("verifier error"): r["status"] = "undecided"; r["reason"] = r["reason"] or "; ".join(r["partial"][:4])
    elif not r["completed"]: r["status"] = "undecided"; r["reason"] = "no path completes (vacuous)"
    elif not r["obls"]: r["status"] = "undecided"; r["reason"] = "no obligation generated"
    else: r["status"] = "proved"; r["reason"] = ""
def _count(xs):
    d = {}
    for x in xs: d[x] = d.get(x, 0) + 1
    return d

def deduce(P, tmp, log):
    """returns list of per-function dicts"""
    res = []; files = []; tus = P.get("tus", [])
    if not tus: return res, ["no deductive part"]
    notes = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        outs = {tu: ex.submit(extract, tu, os.path.join(tmp, tu + ".json")) for tu in tus}
        for tu, o in outs.items():
            ok, msg = o.result()
            if ok: files.append(os.path.join(tmp, tu + ".json"))
            else: notes.append("extraction of %s failed: %s" % (tu, msg))
    if notes: return res, notes
    from vc.engine import Program, base_name
    from vc.contract import Contracts, sigof
    from vc.models import Models
    prog = Program(files); mods = [importlib.import_module("vc.contracts." + m).C for m in P["mods"]]; con = Contracts(*mods); ms = Models()
    tasks = []; seen = set(); found = set()
    for f in prog.funcs:
        if "b" not in f: continue
        c = con.find(f)
        if c is None or not c.verify: continue
        if P.get("match") and not P["match"](f, c): continue
        sg = f["qn"] + str(f.get("ta")) + sigof(f)
        if sg in seen: continue
        seen.add(sg)
        real = "complex" not in sg
        found.add(c.title)
        if c.only and c.only != ("r" if real else "c"): continue
        tasks.append((f, c, real))
    # contracts whose function has disappeared from the sources
    for m in mods:
        for c in m:
            if c.verify and c.title not in found and (not P.get("match") or P["match"]({"qn": c.name, "p": [], "gone": True}, c)): notes.append("no function found for contract " + c.title)
    tasks.sort(key=lambda t: -t[1].budget)
    _G.update(prog=prog, con=con, ms=ms, tasks=tasks)
    out = [None] * len(tasks)
    mp = multiprocessing.get_context("fork"); limit = P.get("wall", 600)
    with mp.Pool(8, maxtasksperchild=16) as pool:
        q = queue.Queue(); open_ = {}; stopped = set(); cuts = {}      # cuts: the loops whose obligations have been generated
        def put(i, work): open_[i] = open_.get(i, 0) + 1; pool.apply_async(_work, ((i, work, tuple(cuts.get(i, ()))),), callback=q.put, error_callback=lambda e, i=i: q.put((i, None, ([], ()))))
        for i in range(len(tasks)): put(i, None)
        while open_:
            try: i, r, (rest, done_) = q.get(timeout=max(1, limit - (time.time() - T0)))
            except queue.Empty: notes.append("deductive part stopped at its time limit"); stopped |= set(open_); pool.terminate(); break
            open_[i] -= 1; cuts.setdefault(i, set()).update(done_)
            if r is None: stopped.add(i); r = None
            else: out[i] = _merge(out[i], r)
            if rest:
                if out[i]["paths"] > 20000 or out[i]["failed"]: 
                    if not out[i]["failed"]: stopped.add(i)
                else:
                    n = min(8, len(rest))
                    for k in range(n): put(i, rest[k::n])
            if not open_[i]: del open_[i]
    for i, r in enumerate(out):
        f, c, real = tasks[i]
        if r is None: continue
        if i in stopped: r["partial"] = (r["partial"] + ["time limit"])[:20]
        _settle(r); r["function"] = f["qn"]; r["contract"] = c.title; r["scalar"] = "real" if real else "complex"; r["where"] = "%s:%s" % (f.get("file"), f.get("l"))
    for i, r in enumerate(out):
        if r is None:
            f, c, real = tasks[i]; out[i] = dict(status="undecided", obls=0, discharged=0, backends={}, failed=[], paths=0, completed=0, secs=0, solver=0, calls=0, inlined=[], called=[], assumed=[], reason="time limit", partial=[], notes=[], trusted=[], function=f["qn"], contract=c.title, scalar="real" if real else "complex", where="")
    return out, notes

def native(P, tmp):
    """executable contracts on the real code"""
    H = P.get("harness"); res = dict(ran=False, fails=[], cases=0, distinct=0, samples=[], notes=[], cmds=[])
    for h in ([H] if isinstance(H, str) else H or []):
        src = VERIF + "/harness/" + h + ".cpp"; exe = os.path.join(tmp, h)
        extra = P.get("cflags", [])
        cmd = ["/usr/bin/g++", "-std=c++14", "-O1", "-w", "-fopenmp", "-I" + REPO + "/include", "-I" + VERIF + "/harness", "-I" + MPI, "-I" + MPI + "/openmpi", "-DOMPI_SKIP_MPICXX", *extra, src, "-o", exe, "-lmpi", "-llapack", "-lblas", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        if r.returncode: res["notes"].append("harness %s does not compile: %s" % (h, r.stdout.decode(errors="replace")[:1500])); continue
        env = dict(os.environ); env.update(MPIENV); env.pop("LD_PRELOAD", None)
        runs = P.get("runs", {}).get(h) if isinstance(P.get("runs"), dict) else P.get("runs")
        runs = runs or [(0, 2)]
        reps = P.get("reps", 6) if TIER == "quick" else 1; tn = time.time(); more = P.get("native_more", 20)
        jobs = [(SEED + 7919 * k, np, nt) for k in range(reps) for (np, nt) in runs]
        for (SEED_, np, nt) in jobs:
            if SEED_ != SEED and (time.time() - tn > more or res["fails"]): break
            env["OMP_NUM_THREADS"] = str(nt); env["TMPDIR"] = tmp
            args = [exe, str(SEED_), TIER, tmp]
            if np: args = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-np", str(np)] + args
            lim = P.get("native_limit", 240 if TIER == "quick" else 700)
            t0 = time.time()
            try:
                p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=lim, env=env, cwd=tmp)
                out, err, rc = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), p.returncode
            except subprocess.TimeoutExpired as e: 
                out, err, rc = (e.stdout or b"").decode(errors="replace"), "", "timeout"
            desc = "g++ ... %s (see bin/check.py native()); OMP_NUM_THREADS=%d %s%s SEED=%d TIER=%s" % (src, nt, ("mpirun -np %d " % np) if np else "", h, SEED_, TIER)
            res["cmds"].append(desc); last = ""; done = False
            for line in out.splitlines():
                if line.startswith("FAIL "):
                    key, _, d = line[5:].partition(" | "); res["fails"].append((h + ":" + key.strip(), d, desc, err[-500:]))
                elif line.startswith("CASES "): res["cases"] += int(line.split()[1]); res["distinct"] += int(line.split()[2]); done = True
                elif line.startswith("SAMPLE ") and len(res["samples"]) < 6: res["samples"].append(line[7:])
                elif line.startswith("AT "): last = line[3:]
            if rc == "timeout": res["notes"].append("harness %s stopped at its time limit of %d s (cases so far count; last: %s)" % (h, lim, last))
            elif rc != 0 or not done:
                res["fails"].append((h + ":abnormal-end " + last.split(" seed=")[0].split("#")[0].strip(), "the program under the contract ended abnormally (status %s) at: %s; stderr: %s" % (rc, last, err[-600:]), desc, err[-1500:]))
            res["ran"] = True; res["notes"].append("%s seed=%d np=%d threads=%d: %.1f s" % (h, SEED_, np, nt, time.time() - t0))
    return res

def known(pid):
    fn = VERIF + "/known_findings.json"
    return [k for k in json.load(open(fn))["findings"] if k["property"] == pid] if os.path.exists(fn) else []

def main():
    global T0
    pid = sys.argv[1]; P = props.PROPS[pid]; T0 = time.time()
    base = VERIF + "/build"; os.makedirs(base, exist_ok=True); os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    if not os.path.exists(base + "/cxx2json"):
        subprocess.run(["bash", VERIF + "/bin/setup.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    tmp = tempfile.mkdtemp(prefix="htool_%s_" % pid, dir=base)
    try: return run(pid, P, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def run(pid, P, tmp):
    nat = {}
    def bg():
        try: nat.update(native(P, tmp))
        except Exception as e: nat.update(dict(ran=False, fails=[], cases=0, distinct=0, samples=[], notes=["harness error %r" % e], cmds=[]))
    th = threading.Thread(target=bg)
    fns, notes, broken = [], [], False
    if os.environ.get("CHECK_ONLY") != "native":
        try: fns, notes = deduce(P, tmp, None)
        except Exception as e: notes = ["verifier error: " + traceback.format_exc()[-1500:]]; broken = True
    if os.environ.get("CHECK_ONLY") != "deduce": th.start(); th.join()
    else: nat.update(dict(ran=False, fails=[], cases=0, distinct=0, samples=[], notes=[], cmds=[]))
    kn = known(pid); keys = {k["key"]: k for k in kn if k.get("status") == "known"}
    hit = set(); viol = []
    for key, d, cmd, err in nat["fails"]:
        if key in keys: hit.add(key)
        else: viol.append(("native", key, d, cmd))
    expected_open = set(P.get("open", []))      # functions the verifier is known not to decide (bounded stand-in)
    refuted = [r for r in fns if r["status"] == "refuted"]
    fails = []
    for r in refuted:
        for (label, where, detail) in r["failed"]:
            k = "%s [%s]: %s" % (r["contract"], r["scalar"], label)
            kk = [q for q in keys if q.startswith("deductive:") and q[10:] in k]
            if kk: hit.add(kk[0])
            else: fails.append((r, label, where, detail, k))
    code = 0; line = None
    if viol or fails:
        code = 1; rp = "%s/evidence/replay/%s.txt" % (VERIF, pid)
        with open(rp, "w") as g:
            g.write("property %s\n" % pid)
            if viol:
                g.write("\nFAILING INPUTS on the real code (rerun: HTOOL harness below, deterministic in the seed)\n")
                for _, key, d, cmd in viol[:40]: g.write("- %s\n    %s\n    %s\n" % (key, d, cmd))
            if fails:
                g.write("\nFAILED OBLIGATIONS (verifier output)\n")
                for r, label, where, detail, k in fails[:60]: g.write("- function %s (%s), contract %s\n    obligation: %s\n    at %s\n    %s\n" % (r["function"], r["scalar"], r["contract"], label, where, detail))
        line = "VIOLATION property=%s replay=%s%s" % (pid, rp, "" if viol else " no-failing-input-found")
    for k in sorted(hit): print("KNOWN-FINDING: property=%s %s" % (pid, keys[k]["what"]))
    proved = [r for r in fns if r["status"] == "proved"]; und = [r for r in fns if r["status"] == "undecided"]
    trusted = set()
    for r in fns: trusted |= set(r["trusted"])
    assumed = set()
    for r in fns: assumed |= set(r["assumed"])
    inl = set()
    for r in fns: inl |= set(r["inlined"])
    back = {}
    for r in fns:
        for b, n in r["backends"].items(): back[b] = back.get(b, 0) + n
    cov = dict(obligations=sum(r["obls"] for r in fns), discharged=sum(r["discharged"] for r in fns), checker_cmd="python3-vt bin/check.py " + pid,
               trusted_base=sorted(trusted)[:200] + ["the extractor extract/cxx2json.cpp, clang 18 front end, the engine vc/ and z3"] + ["assumed contract: " + a for a in sorted(assumed)],
               functions_under_contract=len(fns), functions_proved=len(proved), functions_undecided=len(und), functions_refuted=len(refuted),
               discharged_by_backend=back, solver_seconds=round(sum(r["solver"] for r in fns), 2), solver_calls=sum(r["calls"] for r in fns), paths=sum(r["paths"] for r in fns),
               functions=[dict(function=r["function"], scalar=r["scalar"], contract=r["contract"], where=r["where"], status=r["status"], obligations=r["obls"], discharged=r["discharged"], paths=r["paths"], completed_paths=r["completed"], seconds=round(r["secs"], 2), reason=r["reason"] if r["status"] != "proved" else "") for r in fns],
               inlined_bodies=sorted(inl)[:300], bounded_standin=dict(label="bounded, never counted as proved", evaluations=nat["cases"], distinct_nontrivial=nat["distinct"], samples=nat["samples"], bound=P.get("bound", ""), notes=nat["notes"]),
               evaluations=nat["cases"], distinct_nontrivial=nat["distinct"], rule=P.get("rule", P.get("bound", "random inputs drawn from VERIF_SEED; a case is non-trivial when its data are non-empty")), samples=nat["samples"] or [r["function"] for r in proved[:3]], notes=notes,
               explanation=P.get("explanation", ""))
    ev = dict(property=pid, tier="thorough" if TIER == "thorough" else "quick", seed=SEED, level=P["level"], coverage=cov, assumptions=P.get("assumptions", []) + props.COMMON_ASSUMPTIONS, wall_s=round(time.time() - T0, 2), violations=len(viol) + len(fails))
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1)
    print("%s: %d functions under contract, %d proved, %d undecided, %d refuted; %d/%d obligations; bounded stand-in: %d evaluations, %d failures; %.1f s" % (pid, len(fns), len(proved), len(und), len(refuted), cov["discharged"], cov["obligations"], nat["cases"], len(nat["fails"]), time.time() - T0))
    for r in und: print("  undecided: %s [%s]: %s" % (r["contract"], r["scalar"], r["reason"][:160]))
    for n in notes + nat["notes"]: print("  note: " + n[:300])
    if line:
        for _, key, d, cmd in viol[:8]: print("  fails: %s: %s" % (key, d[:300]))
        for r, label, where, detail, k in fails[:8]: print("  failed obligation: %s at %s" % (k[:300], where))
        print(line)
    return code or (2 if broken else 0)
if __name__ == "__main__": sys.exit(main())
