#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property:
  1. extracts the functions under contract out of /repo's current source (vx),
  2. has Verus discharge every obligation of the resulting units,
  3. runs a vacuity probe (an `assert(false)` planted at the head of every verified
     function must be rejected),
  4. runs the executable contract harness on the real code: it replays / searches concrete
     failing inputs, and is the labelled-bounded stand-in for what is out of reach,
  5. writes evidence/<PROPERTY>.json.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the machinery itself failed.
"""
import json, os, re, subprocess, sys, time, hashlib, shutil, resource

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
VX = os.path.join(BUILD, "vx", "release", "vx")

def log(*a):
    print(*a, flush=True)

def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e

def run(cmd, timeout, cwd=None, extra_env=None, mem_gb=None):
    e = env()
    if extra_env:
        e.update(extra_env)
    def pre():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), er.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        return -9, o.decode("utf8", "replace"), er.decode("utf8", "replace") + "\nTIMEOUT"

def build_vx():
    src = os.path.join(V, "vx")
    rc, o, e = run(["cargo", "build", "--release", "--offline", "-q"], 600, cwd=src,
                   extra_env={"CARGO_TARGET_DIR": os.path.join(BUILD, "vx")})
    if rc != 0:
        log("vx build failed\n" + e[-3000:])
        sys.exit(2)

# ---------------------------------------------------------------- verus
VERIF_MSG = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic|possible division by zero|possible bit shift|decreases not satisfied|could not prove termination|"
    r"assertion not satisfied|recommendation not met|index out of bounds|failed precondition|"
    r"termination|loop invariant|requires not satisfied|cannot show|unable to prove", re.I)
RLIMIT_MSG = re.compile(r"resource limit|rlimit|timed? ?out|incomplete", re.I)

def extract(unit, out, bounded=(), vacuity=False):
    cmd = [VX, "--repo", REPO, "--specs", os.path.join(V, "contracts"), "--unit", unit, "--out", out]
    if bounded:
        cmd += ["--bounded", ",".join(sorted(bounded))]
    if vacuity:
        cmd.append("--vacuity")
    rc, o, e = run(cmd, 120)
    if rc != 0:
        log("extraction failed: " + e[-2000:])
        sys.exit(2)
    return json.loads(o)

def verus(path, rlimit, timeout):
    t = time.time()
    rc, o, e = run(["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "4", "--num-threads", "7",
                    "--rlimit", str(rlimit), "--", "--error-format=json"], timeout, cwd=os.path.dirname(path))
    wall = time.time() - t
    try:
        j = json.loads(o)
    except ValueError:
        j = None
    diags = []
    for line in e.splitlines():
        line = line.strip()
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" or (d.get("level") in ("warning", "note") and RLIMIT_MSG.search(d.get("message", ""))):
                diags.append(d)
    return rc, j, diags, wall, e

def fn_at(report, lines):
    for l in lines:
        for f in report["fns"]:
            if f["out_start"] <= l <= f["out_end"]:
                return f
    return None

def diag_lines(d, path):
    prim, sec = [], []
    base = os.path.basename(path)
    for s in d.get("spans", []):
        if os.path.basename(s["file_name"]) != base:
            continue
        (prim if s.get("is_primary") else sec).append(s["line_start"])
    for c in d.get("children", []):
        for s in c.get("spans", []):
            if os.path.basename(s["file_name"]) == base:
                sec.append(s["line_start"])
    return prim, sec

def verify_unit(unit, tier):
    """returns a dict: failed obligations, bounded functions (with reasons), statistics"""
    work = os.path.join(BUILD, "units")
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, unit + ".rs")
    bounded = {}
    rlimit = 30 if tier == "quick" else 90
    res = {"unit": unit, "failed": [], "bounded": bounded, "verified": 0, "errors": 0, "wall": 0.0, "smt_ms": 0,
           "whole_unit_bounded": None, "fns": [], "lost": []}
    for attempt in range(12):
        rep = extract(unit, path, bounded.keys())
        rc, j, diags, wall, err = verus(path, rlimit, 600)
        res["wall"] += wall
        res["fns"] = rep["fns"]
        res["lost"] = rep["lost"]
        res["path"] = path
        res["preludes"] = rep["preludes"]
        if rc == -9:
            res["whole_unit_bounded"] = "verus timed out"
            return res
        vr = (j or {}).get("verification-results", {})
        func_fail = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting")]
        is_verif = vr and not vr.get("encountered-vir-error") and "verified" in vr and (vr.get("verified", 0) + vr.get("errors", 0)) > 0
        if is_verif:
            hard = []
            rl = []
            newb = {}
            for d in diags:
                if d["message"].startswith("aborting"):
                    continue
                prim, sec = diag_lines(d, path)
                f = fn_at(rep, prim) or fn_at(rep, sec)
                if RLIMIT_MSG.search(d["message"]):
                    rl.append((d, f))
                elif d["level"] == "error":
                    hard.append((d, f))
            if rl and not all(f is None for _, f in rl):
                for d, f in rl:
                    if f is not None and f["fn"] not in bounded:
                        newb[f["fn"]] = "solver resource limit: " + d["message"]
                if newb:
                    bounded.update(newb)
                    continue
            res["verified"] = vr.get("verified", 0)
            res["errors"] = vr.get("errors", 0)
            try:
                res["smt_ms"] = j["times-ms"]["smt"]["smt-run"] if "smt-run" in j["times-ms"]["smt"] else j["times-ms"]["smt"]["total"]
            except (KeyError, TypeError):
                pass
            res["queries"] = []
            try:
                for m in j["times-ms"]["smt"]["smt-run-module-times"]:
                    for q in m.get("function-breakdown", []):
                        res["queries"].append((q["function"], q["success"], q["time-micros"]))
            except (KeyError, TypeError):
                pass
            for d, f in hard:
                res["failed"].append({
                    "fn": f["fn"] if f else "(lemma)",
                    "src": "%s:%d" % (f["file"], f["src_start"]) if f else path,
                    "message": d["message"],
                    "rendered": d.get("rendered", ""),
                })
            if res["errors"] and not hard:
                res["failed"].append({"fn": "(unknown)", "src": path, "message": "verus reported errors", "rendered": err[-2000:]})
            return res
        # not even checked: a construct outside the verifier's reach, or annotations that no
        # longer fit the source.  Those functions become bounded.
        newb = {}
        for d in func_fail:
            prim, sec = diag_lines(d, path)
            f = fn_at(rep, prim) or fn_at(rep, sec)
            if f and not f["external"] and f["fn"] not in bounded:
                newb[f["fn"]] = "not accepted by the verifier: " + d["message"][:200]
        if not newb:
            msg = "; ".join(d["message"][:160] for d in func_fail[:3]) or err[-300:]
            res["whole_unit_bounded"] = "unit not accepted by the verifier: " + msg
            return res
        bounded.update(newb)
    res["whole_unit_bounded"] = "gave up after repeated extraction"
    return res

def vacuity_unit(unit, bounded):
    path = os.path.join(BUILD, "units", unit + "_vacuity.rs")
    rep = extract(unit, path, bounded, vacuity=True)
    rc, j, diags, wall, err = verus(path, 30, 600)
    hit = set()
    lines = open(path).read().split("\n")
    for d in diags:
        prim, sec = diag_lines(d, path)
        for l in prim:
            if "vacuity probe" in lines[l - 1]:
                f = fn_at(rep, [l])
                if f:
                    hit.add(f["fn"])
    want = [f["fn"] for f in rep["fns"] if not f["external"]]
    return [f for f in want if f not in hit], len(want), wall

def scan_assumptions(res):
    """mechanical scan of the verified text for everything that is not proved"""
    out = []
    for r in res:
        if not os.path.exists(r.get("path", "")):
            continue
        text = open(r["path"]).read()
        n = len(re.findall(r"external_body", text))
        names = re.findall(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:open )?(?:proof )?(?:fn|struct|enum) +(\w+)", text)
        out.append("unit %s: %d external_body items (trusted stubs of dependencies and std): %s" % (r["unit"], n, ", ".join(sorted(set(names)))))
        for kw in (r"\bassume\(", r"\badmit\(", r"assume_specification", r"verifier::external\b"):
            k = len(re.findall(kw, text))
            if k:
                out.append("unit %s: %d occurrences of %s" % (r["unit"], k, kw.replace("\\b", "").replace("\\(", "(")))
        for f in r["fns"]:
            if f["assumed"]:
                out.append("unit %s: contract of %s assumed here%s" % (r["unit"], f["fn"], (", proved in unit " + f["proved_in"]) if f["proved_in"] else " (NOT proved anywhere)"))
            if f["loops_without_decreases"] and not f["external"]:
                out.append("unit %s: termination of loop(s) %s of %s not proved" % (r["unit"], f["loops_without_decreases"], f["fn"]))
    return out

# ---------------------------------------------------------------- harness
def build_harness(name):
    src = os.path.join(V, "harness")
    man = src
    if REPO != "/repo":
        # development only: point the path dependencies at another tree
        man = os.path.join(BUILD, "hsrc" + hashlib.md5(REPO.encode()).hexdigest()[:6])
        shutil.rmtree(man, ignore_errors=True)
        shutil.copytree(src, man, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(man, "Cargo.toml")
        t = open(p).read().replace('"/repo/', '"%s/' % REPO)
        open(p, "w").write(t)
        for b in os.listdir(os.path.join(man, "src", "bin")):
            b = os.path.join(man, "src", "bin", b)
            t = open(b).read().replace('"/repo/', '"%s/' % REPO)
            open(b, "w").write(t)
    tgt = os.path.join(BUILD, "harness" if REPO == "/repo" else "harness_" + hashlib.md5(REPO.encode()).hexdigest()[:6])
    lock = os.path.join(man, "Cargo.lock")
    saved = open(lock).read() if os.path.exists(lock) else None
    rc, o, e = run(["cargo", "build", "--offline", "-q", "--bin", name, "--features", name], 800, cwd=man,
                   extra_env={"CARGO_TARGET_DIR": tgt})
    if saved is not None and open(lock).read() != saved:
        open(lock, "w").write(saved)
    if rc != 0:
        return None, e
    return os.path.join(tgt, "debug", name), ""

def run_harness(name, tier, seed, seconds):
    t = time.time()
    binp, err = build_harness(name)
    if binp is None:
        return {"status": "unbuildable", "detail": err[-1500:], "wall": time.time() - t}
    scratch = os.path.join(BUILD, "scratch_" + name + "_" + str(os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        rc, o, e = run([binp, "--seed", str(seed), "--tier", tier, "--seconds", str(seconds), "--scratch", scratch], seconds * 3 + 120,
                       cwd=scratch, mem_gb=12, extra_env={"RUST_BACKTRACE": "0", "RUST_MIN_STACK": "67108864", "REPO": REPO})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    last = [l for l in o.splitlines() if l.startswith("{")]
    j = {}
    for l in reversed(last):
        try:
            j = json.loads(l)
            if "evaluations" in j:
                break
        except ValueError:
            pass
    j["wall"] = time.time() - t
    if "evaluations" in j:
        j["status"] = "fail" if j.get("failures") else "ok"
    else:
        # the real code took the process down (abort, memory, hang): that is a failing input too
        cur = [l for l in o.splitlines() if l.startswith("CASE ")]
        j["status"] = "crash"
        j["detail"] = "harness process ended with %s; last case: %s; stderr: %s" % (rc, cur[-1][:1500] if cur else "?", e[-600:])
        j["last_case"] = cur[-1] if cur else None
        j["rc"] = rc
    return j

# ---------------------------------------------------------------- main
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = json.load(open(os.path.join(V, "checks.json")))[pid]
    known = json.load(open(os.path.join(V, "known_findings.json")))
    build_vx()
    results = []
    for u in cfg["units"]:
        results.append(verify_unit(u, tier))
    vac_missing, vac_total, vac_units = [], 0, []
    for r in results:
        if r["whole_unit_bounded"] or r["failed"]:
            continue
        if tier == "quick" and r["unit"] in cfg.get("vacuity_thorough_only", []):
            continue
        m, n, w = vacuity_unit(r["unit"], r["bounded"].keys())
        vac_missing += m
        vac_total += n
        vac_units.append(r["unit"])
    # functions of a shared unit that this property does not depend on
    foreign = cfg.get("not_this_property", [])
    def is_foreign(fn):
        return any(fn == x or fn.endswith("::" + x) for x in foreign)
    failed = [dict(f, unit=r["unit"]) for r in results for f in r["failed"] if not is_foreign(f["fn"])]
    boundeds = {}
    for r in results:
        for k, v in r["bounded"].items():
            if not is_foreign(k):
                boundeds[k] = v
        if r["whole_unit_bounded"]:
            boundeds["(unit %s)" % r["unit"]] = r["whole_unit_bounded"]
        for l in r["lost"]:
            boundeds[l.get("fn") or l.get("item") or l.get("file")] = l["reason"]
    undecided = bool(failed) or bool(boundeds)
    # harness: longer when the proof is broken or incomplete
    secs = cfg.get("seconds_" + tier, 20 if tier == "quick" else 200)
    if undecided:
        secs = max(secs, 60)
    hs = [(h, run_harness(h, tier, seed, secs)) for h in cfg["harness"]]
    hfail = []
    known_hit = []
    for h, j in hs:
        for f in j.get("failures", []):
            k = next((x for x in known if x.get("status") == "open" and x["property"] == pid and x["key"] == f.get("key")), None)
            if k:
                known_hit.append(k)
            else:
                hfail.append((h, f))
        if j["status"] == "crash":
            hfail.append((h, {"key": "crash", "input": j.get("last_case"), "detail": j["detail"]}))
    # ---- violations
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    nviol = 0
    if failed or hfail:
        rp = os.path.join(V, "evidence", pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write("property %s\n" % pid)
            for x in failed:
                f.write("\nFAILED OBLIGATION in %s (%s), unit %s: %s\n%s\n" % (x["fn"], x["src"], x["unit"], x["message"], x["rendered"]))
            for h, x in hfail:
                f.write("\nFAILING INPUT on the real code (harness %s, seed %d): %s\n" % (h, seed, json.dumps(x, indent=1)))
            if not hfail:
                f.write("\nno failing input was found by the bounded search\n")
        for x in failed:
            log("obligation failed: %s %s: %s" % (x["unit"], x["fn"], x["message"]))
        for h, x in hfail[:5]:
            log("failing input: %s" % json.dumps(x)[:800])
        log("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if hfail else " no-failing-input-found"))
        nviol = len(failed) + len(hfail)
    for k in {x["key"]: x for x in known_hit}.values():
        log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # ---- evidence
    assumptions = list(cfg.get("assumptions", [])) + scan_assumptions(results)
    if boundeds:
        for k, v in sorted(boundeds.items()):
            assumptions.append("BOUNDED stand-in (not proved on this run): %s: %s" % (k, v))
    verified_fns = []
    for r in results:
        for f in r["fns"]:
            if not f["external"] and not is_foreign(f["fn"]) and not r["whole_unit_bounded"] and not any(x["fn"] == f["fn"] for x in r["failed"]):
                verified_fns.append({"fn": f["fn"], "src": "%s:%d-%d" % (f["file"], f["src_start"], f["src_end"]), "unit": r["unit"],
                                     "inlined_helpers": f["inlined"], "rewrites": f["rewrites"]})
    obligations = sum(r["verified"] + r["errors"] for r in results)
    discharged = sum(r["verified"] for r in results)
    level = cfg.get("level", "proof")
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "verus build/units/<unit>.rs (units: %s) after: vx --unit <unit>" % ", ".join(cfg["units"]),
        "trusted_base": ["Verus 0.2026.09.13 + bundled Z3", "the extractor vx (rewritings listed in DESIGN.md)"] + cfg.get("trusted", []),
        "obligation_unit": "one Verus proof obligation set per function, loop or lemma as counted by the verifier",
        "functions_under_contract": verified_fns,
        "functions_bounded": boundeds,
        "functions_outside_contract": cfg.get("outside", []),
        "back_end": "Z3 (bundled with Verus)",
        "solver_ms": sum(r["smt_ms"] for r in results),
        "verifier_wall_s": round(sum(r["wall"] for r in results), 1),
        "slowest_queries_us": sorted([(q[2], q[0]) for r in results for q in r.get("queries", [])], reverse=True)[:5],
        "vacuity_probe": {"units": vac_units, "functions_probed": vac_total, "not_reachable": vac_missing},
        "bounded_harness": [dict({k: v for k, v in j.items() if k != "failures"}, harness=h, nfailures=len(j.get("failures", []))) for h, j in hs],
        "evaluations": sum(j.get("evaluations", 0) for _, j in hs),
        "distinct_nontrivial": sum(j.get("distinct_nontrivial", 0) for _, j in hs),
        "rule": "; ".join(j.get("rule", "") for _, j in hs),
        "samples": [s for _, j in hs for s in j.get("samples", [])][:12],
    }
    if vac_missing:
        assumptions.append("VACUITY: the probe was not rejected in: " + ", ".join(vac_missing))
    for h, j in hs:
        if j["status"] == "unbuildable":
            assumptions.append("harness %s does not build against this tree: bounded complement skipped (%s)" % (h, j["detail"][-300:]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": nviol}
    if level == "proof" and discharged == 0:
        ev["level"] = "other"
        cov["explanation"] = "the units were not accepted by the verifier on this tree; only the bounded stand-in ran"
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d/%d obligations discharged over %d functions, %d bounded, harness %s, %.0f s" % (
        pid, discharged, obligations, len(verified_fns), len(boundeds),
        ", ".join("%s=%s(%d)" % (h, j["status"], j.get("evaluations", 0)) for h, j in hs), time.time() - t0))
    if vac_missing:
        log("vacuous contracts: %s" % vac_missing)
        if not (failed or hfail) and not boundeds:
            sys.exit(2)
    if obligations == 0 and all(j["status"] == "unbuildable" for _, j in hs):
        log("neither the proof nor the stand-in could run")
        sys.exit(2)
    sys.exit(1 if (failed or hfail) else 0)

main()
