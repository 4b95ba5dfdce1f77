#!/usr/bin/env python3
"""Driver of one check: check.py PROPERTY   (tier from VERIF_TIER or argv[2], seed from VERIF_SEED)

 1. vx extracts the functions under contract from /repo's current source and joins them with the
    contracts in /verif/specs into one Verus file (work/PROP.rs).
 2. Verus discharges every obligation, function by function.  This decides the property.
 3. A second Verus run with reachability probes (assertions that must fail) guards against vacuity.
 4. The executable form of the contracts is run against the real crates: it looks for the concrete
    input behind a failed obligation, cross-checks the trusted stand-ins, and is the (bounded)
    stand-in when the changed source is outside the verifier's reach.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything else: the check itself failed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
TARGET = os.path.join(V, "target")
WORK = os.path.join(V, "work")
CFG = json.load(open(os.path.join(V, "checks.json")))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)


def run(cmd, timeout, cwd=V, env=None, **kw):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf8", "replace"), e.decode("utf8", "replace")


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("CHECK ERROR:", msg)
    sys.exit(2)


def source_state():
    """digest of the sources of the real crates; None when they cannot be read"""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(base, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cargo_real(crate, name, linked=("trellis", "dot_parser")):
    """build a crate that links the real crates; cargo goes by file times, which say nothing here, so
    what was built from other sources is thrown away first"""
    stamp = os.path.join(TARGET, name, ".sources")
    now = source_state()
    try:
        with open(stamp) as f:
            old = f.read()
    except OSError:
        old = None
    if old != now:
        run(["cargo", "clean", "--offline", "--target-dir", os.path.join(TARGET, name)] + [x for p in linked for x in ("-p", p)],
            200, cwd=os.path.join(V, crate))
    ok, e = cargo(crate, name)
    if ok:
        with open(stamp, "w") as f:
            f.write(now)
    return ok, e


def cargo(crate, name):
    rc, o, e = run(["cargo", "build", "--offline", "--target-dir", os.path.join(TARGET, name)], 800,
                   cwd=os.path.join(V, crate))
    return rc == 0, e


# ---------------------------------------------------------------- verus

VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic", "possible division by zero", "possible bit shift", "decreases not satisfied",
              "loop invariant", "could not show termination", "recommendation not met", "unable to prove", "constructed value may fail",
              "split assertion failure", "split precondition failure", "split postcondition failure", "requires not satisfied",
              "ensures not satisfied", "loop must have a decreases", "cannot prove", "index out of bounds", "failed this postcondition",
              "possible ", "assert failed", "unwind", "loop ensures not satisfied", "not satisfied")


def verus(rs, extra, timeout):
    cmd = ["verus", os.path.basename(rs), "--output-json", "--time", "--error-format=json", "--num-threads", "4"] + extra
    t = time.time()
    rc, o, e = run(cmd, timeout, cwd=os.path.dirname(rs))
    res = {"rc": rc, "wall": time.time() - t, "cmd": " ".join(cmd), "diags": [], "stderr": e[-20000:]}
    try:
        res["json"] = json.loads(o[o.index("{"):])
    except ValueError:
        res["json"] = None
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                res["diags"].append(d)
    return res


def prim_line(d):
    for s in d["spans"]:
        if s["is_primary"]:
            return s["line_start"]
    return d["spans"][0]["line_start"] if d["spans"] else 0


def fn_at(meta, line):
    for f in meta["functions"]:
        if f["start"] <= line <= f["end"]:
            return f
    return None


def decide(prop):
    """returns dict(status=proved|failed|unreached, failed=[...], ...)"""
    r = {"status": "unreached", "reason": "", "failed": [], "functions": [], "verified": 0, "errors": 0}
    if not os.path.exists(os.path.join(V, "specs", prop + ".prop")):
        r["reason"] = "no deductive contract for this property"
        return r
    rs, js = os.path.join(WORK, prop + ".rs"), os.path.join(WORK, prop + ".json")
    vx = os.path.join(TARGET, "vx", "debug", "vx")
    for f in (rs, js):
        if os.path.exists(f):
            os.unlink(f)
    rc, o, e = run([vx, REPO, os.path.join(V, "specs"), prop, rs, js], 120)
    if rc != 0 or not os.path.exists(js):
        r["reason"] = "extraction: " + (o or e)[-1500:]
        return r
    meta = json.load(open(js))
    r["functions"] = [f for f in meta["functions"]]
    r["rewrites"] = meta["rewrites"]
    res = verus(rs, ["--rlimit", "40"], 300)
    r["cmd"] = "vx %s specs %s work/%s.rs && %s" % (REPO, prop, prop, res["cmd"])

    def status(res):
        if res["json"] is None:
            return "unreached"
        vr = res["json"]["verification-results"]
        if vr.get("encountered-vir-error") or vr.get("verified") is None:
            return "unreached"
        if vr["success"] and vr["errors"] == 0 and vr["verified"] > 0:
            return "proved"
        if vr["errors"] > 0:
            return "failed"
        return "unreached"
    st = status(res)
    if st == "failed":
        # more resources and more errors before giving a verdict
        res2 = verus(rs, ["--rlimit", "80", "--multiple-errors", "6"], 220)
        if res2["json"] is not None and res2["rc"] is not None:
            res, st = res2, status(res2)
    r["status"] = st
    vr = (res["json"] or {}).get("verification-results", {})
    r["verified"], r["errors"] = vr.get("verified") or 0, vr.get("errors") or 0
    tm = (res["json"] or {}).get("times-ms", {}) or {}
    def find(x, key):
        if isinstance(x, dict):
            if key in x and not isinstance(x[key], (dict, list)):
                return x[key]
            for v in x.values():
                y = find(v, key)
                if y is not None:
                    return y
        return None
    r["smt_ms"] = find(tm, "smt-run")
    per = []

    def walk(x):
        if isinstance(x, dict):
            for b in x.get("function-breakdown", []):
                per.append((b["function"].split("::", 1)[-1], b["time"], b["success"]))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(tm)
    r["per_fn"] = per
    seen = set()
    bare = []
    for d in res["diags"]:
        m = d["message"]
        if m.startswith("aborting due to"):
            continue
        line = prim_line(d)
        f = fn_at(meta, line)
        if any(k in m for k in VERIF_MSGS) and "rlimit" not in m.lower() and "resource limit" not in m.lower():
            sp = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
            clause = " ".join(t["text"].strip() for s in sp for t in s["text"])[:240]
            lab = [s for s in d["spans"] if not s["is_primary"] and s.get("label")]
            extra = "; ".join("%s: %s" % (s["label"], " ".join(t["text"].strip() for t in s["text"])[:160]) for s in lab)
            name = "%s: %s [%s]%s" % (f["fn"] if f else "?", m, clause, (" (" + extra + ")") if extra else "")
            if name not in seen:
                seen.add(name)
                r["failed"].append(name)
                bare.append(bool(f and f.get("bare")))
        else:
            r.setdefault("other", []).append(m)
    if r["failed"] and all(bare):
        # every failure lies in a function with a loop or closure that the contracts say nothing about
        # (the source has one more than the annotations): the verifier cannot judge it either way
        r["status"] = "unreached"
        r["reason"] = "a loop or closure without an annotation in the changed function: " + "; ".join(r["failed"])[:1000]
        r["failed"] = []
    elif st == "failed" and not r["failed"]:
        r["status"] = "unreached"
        r["reason"] = "verifier gave no answer: " + "; ".join(r.get("other", []))[:500]
    if st == "unreached" and not r["reason"]:
        r["reason"] = "outside the verifier's reach: " + ("; ".join(d["rendered"] or d["message"] for d in res["diags"])[:1500] or res["stderr"][-800:])
    r["output"] = "\n".join(d["rendered"] or d["message"] for d in res["diags"])[:20000]
    if r["status"] == "proved":
        # vacuity probes
        prs = os.path.join(WORK, prop + "_probe.rs")
        rc, o, e = run([vx, REPO, os.path.join(V, "specs"), prop, prs, prs + ".json"], 120, env=dict(ENV, VX_PROBE="1"))
        if rc == 0:
            pr = verus(prs, ["--rlimit", "20", "--multiple-errors", "200"], 300)
            want = {}
            for n, l in enumerate(open(prs), 1):
                m = re.search(r"vprobe\((\d+)\).*//PROBE (.*)", l)
                if m:
                    want[n] = m.group(2).strip()
            hit = set(s["line_start"] for d in pr["diags"] for s in d["spans"] if "assert" in d["message"])
            miss = [w for n, w in sorted(want.items()) if n not in hit]
            r["probes"] = len(want)
            r["probes_missed"] = miss
            if not want or (miss and not all(any(d["message"].lower().find("rlimit") >= 0 or "resource limit" in d["message"].lower() for d in pr["diags"]) for _ in miss)):
                r["status"] = "unreached"
                r["reason"] = "vacuous context: " + ", ".join(miss)
        else:
            r["status"] = "unreached"
            r["reason"] = "probe extraction failed"
    return r


# ---------------------------------------------------------------- native run

def native(prop, tier, seed, budget, known):
    out = os.path.join(WORK, prop + ".native.json")
    if os.path.exists(out):
        os.unlink(out)
    exe = os.path.join(TARGET, "native", "debug", "native")
    base = [exe, prop, tier, str(seed), out, "--budget", str(budget)]
    limit = 420 if tier == "quick" else 3000
    rc, o, e = run(base, limit)
    if rc is None:
        return {"status": "timeout"}
    if os.path.exists(out):
        return json.load(open(out))
    if rc is not None and rc < 0 or rc == 134:
        tr = os.path.join(WORK, prop + ".trace")
        run(base + ["--trace", tr], limit * 2)
        last = ""
        if os.path.exists(tr):
            for last in open(tr, errors="replace"):
                pass
        n, _, desc = last.strip().partition(" ")
        return {"status": "fail", "case": desc, "case_no": int(n) if n.isdigit() else 0,
                "message": "the process was killed by signal %s (%s)" % (-rc if rc < 0 else rc, e.strip()[-200:])}
    return {"status": "error", "message": "rc %s %s" % (rc, e[-500:])}


# ---------------------------------------------------------------- kani (loop-free float code)

def kani(prop, cfg):
    """the harnesses named for this property: contracts discharged by CBMC over all bit patterns, no bound"""
    res = {"harnesses": [], "failed": [], "other": "", "inputs": [], "cmd": ""}
    kd, td = os.path.join(V, cfg["dir"]), os.path.join(TARGET, "kani")
    now, old = source_state(), None
    try:
        with open(os.path.join(td, ".sources")) as f:
            old = f.read()
    except OSError:
        pass
    if old != now:
        shutil.rmtree(td, ignore_errors=True)
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(td, ".sources"), "w") as f:
        f.write(now)
    cmd = ["cargo", "kani", "--target-dir", td, "--exact", "-Z", "concrete-playback", "--concrete-playback=print"]
    for h in cfg["harnesses"]:
        cmd += ["--harness", h]
    res["cmd"] = " ".join(cmd)
    rc, o, e = run(cmd, cfg.get("timeout", 240), cwd=kd)
    if rc is None:
        res["other"] = "no answer in time"
    if "Checking harness" not in o:
        res["other"] = "no answer: %s" % (o + e)[-600:]
        return res
    seen = set()
    for part in o.split("Checking harness ")[1:]:
        h = part.split("...")[0].strip()
        fails = re.findall(r"Failed Checks: \"?(.*?)\"?\n", part) or re.findall(r'Status: FAILURE\s*\n\s*- Description: "(.*?)"', part)
        # not an error in itself: what comes of a NaN is judged by the postcondition
        harmless = [f for f in fails if f.startswith("NaN on")]
        fails = [f for f in fails if f not in harmless]
        m = re.search(r"\*\* (\d+) of (\d+) failed", part)
        t = re.search(r"Verification Time: ([\d.]+)s", part)
        ok = "VERIFICATION:- SUCCESSFUL" in part or (bool(harmless) and not fails)
        if not ok and not m:
            continue
        seen.add(h)
        res["harnesses"].append({"harness": h, "ok": ok, "checks": int(m.group(2)) if m else 0, "s": float(t.group(1)) if t else 0})
        if ok:
            continue
        if fails and not any("unwinding assertion" in f or "not currently supported" in f for f in fails):
            res["failed"].append("%s: %s" % (h, "; ".join(sorted(set(fails)))))
            for vals in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", part, re.S):
                res["inputs"].append((h, ["".join("%02x" % int(x) for x in v.split(",")) for v in re.findall(r"vec!\[([\d, ]+)\]", vals)],
                                      re.findall(r"// (.*)", vals)))
        else:
            res["other"] += "%s: no answer\n" % h
    for h in cfg["harnesses"]:
        if h not in seen and not res["other"]:
            res["other"] += "%s: no answer\n" % h
    return res


def kani_replay(cfg, inputs):
    """Kani's counterexamples, put through the real code: the first that fails there too"""
    ok, e = cargo_real(cfg["dir"], "bits", ("trellis",))
    if not ok:
        return None
    for h, hexes, shown in inputs:
        cmd = [os.path.join(TARGET, "bits", "debug", "replay"), h] + hexes
        rc, o, e = run(cmd, 60)
        if rc == 1:
            return {"status": "fail", "case": "%s (%s)" % (h, ", ".join(shown)), "case_no": 0, "message": o.strip(), "rerun": " ".join(cmd)}
    return None


# ---------------------------------------------------------------- main

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CFG[prop]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev_path = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    ok, e = cargo("tools/vx", "vx")
    if not ok:
        die("vx does not build: " + e[-2000:])
    r = decide(prop)
    k = None
    if cfg.get("kani"):
        k = kani(prop, cfg["kani"])
    nat_ok, e = cargo_real("native", "native")
    failed = list(r["failed"]) if r["status"] == "failed" else []
    if k:
        failed += ["kani " + f for f in k["failed"]]
    proved = (r["status"] == "proved" or (not os.path.exists(os.path.join(V, "specs", prop + ".prop")) and k)) and not failed and not (k and k["other"])
    if nat_ok:
        if tier == "thorough":
            budget = cfg.get("budget_thorough", 240)
        else:
            budget = cfg.get("budget", 6) if proved else cfg.get("budget_search", 60)
        n = native(prop, tier if proved or tier == "thorough" else "quick", seed, budget, None)
    else:
        n = {"status": "error", "message": "native harness does not build against this tree: " + e[-2000:]}
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            say("KNOWN-FINDING: property=%s %s" % (prop, m.group(2)))

    viol = None
    if n["status"] == "fail":
        viol = {"kind": "failing-input", "input": n["case"], "case_no": n["case_no"], "observed": n["message"],
                "obligations": failed,
                "rerun": "cd /verif && VERIF_SEED=%d target/native/debug/native %s %s %d /tmp/replay.json --only %d" % (seed, prop, tier, seed, n["case_no"])}
    elif failed:
        viol = {"kind": "failed-obligation", "obligations": failed, "verifier_output": r.get("output", ""),
                "command": r.get("cmd", ""), "search": n}
    if viol and viol["kind"] == "failed-obligation" and k and k["inputs"]:
        n2 = kani_replay(cfg["kani"], k["inputs"])
        if n2:
            viol = {"kind": "failing-input", "input": n2["case"], "case_no": 0, "observed": n2["message"], "obligations": failed, "rerun": n2["rerun"]}
    if viol:
        viol["property"] = prop
        viol["verifier_status"] = r["status"]
        viol["repo"] = REPO
        os.makedirs(os.path.join(V, "replay"), exist_ok=True)
        h = hashlib.sha1(json.dumps(viol, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(V, "replay", "%s-%s.json" % (prop, h))
        json.dump(viol, open(path, "w"), indent=1)
    stub_n = [f["fn"] for f in r["functions"] if f["stub"]]
    fn_n = [f["fn"] for f in r["functions"] if not f["stub"]]
    obligations = r["verified"] + r["errors"] + (sum(h["checks"] for h in k["harnesses"]) if k else 0)
    discharged = r["verified"] + (sum(h["checks"] for h in k["harnesses"] if h["ok"]) if k else 0)
    cov = {
        "functions_under_contract": fn_n,
        "functions_assumed_by_contract_here": stub_n,
        "obligations": obligations, "discharged": discharged,
        "backend": ("Verus/Z3" if fn_n else "") + (" Kani/CBMC" if k else ""),
        "checker_cmd": r.get("cmd", "") + ((" ; cd %s && %s" % (cfg["kani"]["dir"], k["cmd"])) if k else ""),
        "solver_ms": r.get("smt_ms"),
        "slowest_functions_ms": sorted(r.get("per_fn", []), key=lambda x: -x[1])[:5],
        "trusted_base": CFG["_trusted"]["all"] + [t for g in cfg.get("trusted", []) for t in CFG["_trusted"][g]],
        "extraction_rewrites": r.get("rewrites", {}),
        "verifier_status": r["status"], "verifier_reason": r["reason"][:1500],
        "vacuity_probes": r.get("probes", 0), "vacuity_probes_not_refuted": r.get("probes_missed", []),
        "failed_obligations": failed,
        "bounded_functions": cfg.get("bounded", []),
        "evaluations": n.get("evaluations", 0), "distinct_nontrivial": n.get("distinct_nontrivial", 0),
        "rule": n.get("rule", n.get("message", n["status"])), "samples": n.get("samples", []),
        "enumerated": n.get("exhaustive", ""),
    }
    if k:
        cov["kani"] = {x: k[x] for x in ("harnesses", "failed", "other")}
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": cfg.get("level", "proof") if proved else "exploration", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(ev_path, "w"), indent=1)

    say("%s: verifier %s (%d discharged, %d failed, %s probes); %d native evaluations; %.1f s" % (
        prop, r["status"], discharged, len(failed), r.get("probes", 0), n.get("evaluations", 0), time.time() - T0))
    for f in failed[:10]:
        say("  failed obligation:", f)
    if viol:
        if viol["kind"] == "failing-input":
            say("  failing input:", viol["input"][:500])
            say("  observed:", viol["observed"][:500])
            say("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            say("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        sys.exit(1)
    if not proved:
        say("  NOT PROVED on this tree (%s)" % (r["reason"] or r["status"])[:600])
        if n["status"] != "ok":
            die("neither the verifier nor the bounded run gave an answer: " + str(n)[:1500])
        say("  bounded stand-in: no violation in %d evaluations (labelled bounded in the evidence)" % n["evaluations"])
    elif n["status"] != "ok":
        say("  native cross-check gave no answer:", str(n)[:300])
    sys.exit(0)


main()
