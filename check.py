#!/usr/bin/env python3
"""check.py PROPERTY — decides one property of /repo's current tree.
1. contracts/*.vc are joined mechanically with the functions extracted from /repo (extract/), and Verus has to accept every
   obligation; a second run with `assert(false)` at each exit has to be rejected everywhere (no vacuous contract).
2. the bounded harness (harness/) runs the real crate against independent oracles; it turns a failed obligation into a
   concrete failing input and guards what a contract cannot reach.  It is labelled bounded and never counted as proved."""
import json, os, re, subprocess, sys, threading, time, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, V)
import plan
B = os.path.join(V, ".build")
PROP = sys.argv[1]
TIER = "thorough" if (len(sys.argv) > 2 and sys.argv[2] == "thorough") or os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
WORK = os.path.join(B, "run", PROP)
VERUS = shutil.which("verus") or "/usr/local/bin/verus"

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return -99, "", "timeout"

# ------------------------------------------------------------------ proofs
class Unit:
    def __init__(s, name):
        s.name = name; s.limit = None; s.failed = []; s.fns = []; s.verified = 0; s.smt_ms = 0; s.vacuous = []; s.cmd = ""
        s.trusted_scan = []; s.soft = []; s.wall = 0; s.vac_checked = 0; s.lemmas = []

    def extract(s, out, trust=(), vac=False):
        cmd = [os.path.join(B, "extract/debug/extract"), REPO, s.name + ".vc", out + ".rs", out + ".json"]
        if vac: cmd.append("--vacuity")
        if trust: cmd.append("--trust=" + ",".join(sorted(trust)))
        rc, o, e = sh(cmd, 120, cwd=os.path.join(B, "vc"))
        if rc != 0: return (o + e).strip()[-800:] or "extractor failed"
        return None

    def verus(s, out, rlimit=None, timeout=600, extra=()):
        cmd = [VERUS, "--triggers-mode", "silent", out + ".rs", "--error-format=json", "--output-json", "--time", "--num-threads", "6", "--multiple-errors", "4"]
        if rlimit: cmd += ["--rlimit", str(rlimit)]
        cmd += list(extra)
        if not extra: s.cmd = " ".join(cmd).replace(VERUS, "verus")
        rc, o, e = sh(cmd, timeout, cwd=WORK)
        if rc == -99: return None
        errs = []
        for l in e.splitlines():
            l = l.strip()
            if l.startswith("{"):
                try: d = json.loads(l)
                except ValueError: continue
                if d.get("level") == "error" and d.get("spans"): errs.append(d)
                elif d.get("level") == "error" and "aborting" not in d.get("message", ""): errs.append(d)
        try: j = json.loads(o[o.index("{"):])
        except ValueError: j = {}
        return {"errs": errs, "r": j.get("verification-results", {}), "smt": j.get("times-ms", {}).get("smt", {}).get("smt-run", 0), "raw": e[-3000:]}

    def load(s, out):
        s.lines = open(out + ".rs").read().split("\n")
        s.fns = json.load(open(out + ".json"))
        s.lemmas = []
        cur = None
        inmap = [False] * (len(s.lines) + 2)
        for f in s.fns:
            for i in range(f["start"], f["end"] + 1):
                if i < len(inmap): inmap[i] = True
        for i, l in enumerate(s.lines, 1):
            if inmap[i]: cur = None; continue
            m = re.match(r"\s*(?:pub |open |closed |broadcast |#\[[^\]]*\]\s*)*(proof|exec|spec)?\s*(?:pub )?fn (\w+)", l)
            if m:
                n = m.group(2)
                pm = re.match(r"([pf])(\d\d)_", n)
                cur = {"fn": n, "props": [pm.group(1).upper() + pm.group(2)] if pm else [], "start": i, "end": i, "trusted": False, "lemma": True,
                       "kind": m.group(1) or "exec", "clauses": 0, "limit": "", "src": "", "ext": "external_body" in l or "external_body" in s.lines[i - 2], "axiom": n.startswith("axiom_")}
                s.lemmas.append(cur)
            elif cur: cur["end"] = i
        for f in s.lemmas:
            body = "\n".join(s.lines[f["start"] - 1:f["end"]])
            f["clauses"] = 1 + len(re.findall(r"\bassert\b", body))
        s.trusted_scan = sorted({x["fn"] for x in s.lemmas if x["ext"] or x["axiom"]})

    def fn_at(s, line):
        for f in s.fns + s.lemmas:
            if f["start"] <= line <= f["end"]: return f
        return None

    def where(s, d):
        sp = sorted(d.get("spans", []), key=lambda x: not x.get("is_primary"))
        # a failed postcondition points at the clause and at the exit: the body is what fails
        best, tags, txt = None, [], []
        for x in sp:
            f = s.fn_at(x["line_start"])
            if f and (best is None): best = f
            l = s.lines[x["line_start"] - 1] if x["line_start"] <= len(s.lines) else ""
            txt.append("%s:%d: %s%s" % (os.path.basename(x["file_name"]), x["line_start"], l.strip()[:300], ("   <- " + x["label"]) if x.get("label") else ""))
            t = re.search(r"/\*((?:[PF]\d\d,?)+)\*/", l)
            if t: tags += t.group(1).split(",")
        # a precondition failure has its primary span at the call; trait/std spans may lie outside the file
        return best, tags, txt

    def run(s):
        t = time.time()
        out = os.path.join(WORK, s.name)
        trust, rl = set(), None
        th = None
        for attempt in range(6):
            m = s.extract(out, trust)
            if m: s.limit = m; s.wall = time.time() - t; return
            s.load(out)
            if attempt == 0:
                th = threading.Thread(target=s.vacuity); th.start()
            r = s.verus(out, rl)
            if r is None: s.limit = "verifier timed out"; break
            rs = r["r"]
            compile_err = rs.get("encountered-vir-error") or not rs or (rs.get("encountered-error") and rs.get("errors", 0) == 0 and rs.get("verified", 0) == 0)
            if compile_err:
                bad = set()
                for d in r["errs"]:
                    f, _, txt = s.where(d)
                    if f and not f.get("lemma") and f["fn"] not in trust:
                        bad.add(f["fn"])
                        s.soft.append("%s: outside the verifier's reach: %s" % (f["fn"], d["message"][:200]))
                if not bad: s.limit = "unit rejected: " + "; ".join(d["message"][:200] for d in r["errs"][:3]) + ("" if r["errs"] else r["raw"][-300:]); break
                trust |= bad
                continue
            over = [d for d in r["errs"] if "esource limit" in d["message"] or "rlimit" in d["message"]]
            if over and rl is None:
                rl = 60; continue
            s.verified = rs.get("verified", 0); s.smt_ms = r["smt"]
            s.failed = []
            if r["errs"]:
                # an obligation counts as failed only if the solver rejects it on several searches: one accepting search is a proof
                alts = [None, None, None]
                def again(k):
                    alts[k] = s.verus(out, 60, 300, (["--smt-option", "smt.random_seed=%d" % (7 + 35 * k)] if k else []) + (["-V", "spinoff-all"] if k < 2 else []))
                ths = [threading.Thread(target=again, args=(k,)) for k in range(3)]
                for x in ths: x.start()
                for x in ths: x.join()
                bad = None
                for a in alts:
                    if a is None or a["r"].get("encountered-vir-error") or not a["r"]: continue
                    names = {(s.where(d)[0] or {}).get("fn") for d in a["errs"]}
                    bad = names if bad is None else bad & names
                if bad is not None:
                    keep = [d for d in r["errs"] if (s.where(d)[0] or {}).get("fn") in bad]
                    if len(keep) < len(r["errs"]): s.retried = getattr(s, "retried", 0) + len(r["errs"]) - len(keep); s.verified += len({(s.where(d)[0] or {}).get("fn") for d in r["errs"]} - bad)
                    r["errs"] = keep
            for d in r["errs"]:
                f, tags, txt = s.where(d)
                if f is None and not txt: continue
                if d in over: s.soft.append("%s: solver resource limit" % (f["fn"] if f else "?")); (f or {}).update(limit="solver resource limit"); continue
                props = tags or (f["props"] if f else [])
                s.failed.append({"unit": s.name, "fn": f["fn"] if f else "?", "props": props, "src": f.get("src", "") if f else "", "message": d["message"], "at": txt, "rendered": (d.get("rendered") or "")[:3000]})
            break
        if th: th.join()
        s.wall = time.time() - t

    def vacuity(s):
        out = os.path.join(WORK, s.name + "_vac")
        if s.extract(out, (), True): return
        u = Unit(s.name)
        u.load(out)
        r = u.verus(out)
        if not r: return
        rs = r["r"]
        if rs.get("encountered-vir-error") or (rs.get("encountered-error") and rs.get("errors", 0) == 0): return
        hit = set()
        for d in r["errs"]:
            f, _, _ = u.where(d)
            if f: hit.add(f["fn"])
        real = [f for f in u.fns if not f["trusted"] and not f["limit"]]
        s.vacuous = [f["fn"] for f in real if f["fn"] not in hit]
        s.vac_checked = len(real)

# ------------------------------------------------------------------ harness
class Harness:
    def __init__(s): s.err = None; s.tests = {}; s.fail = None; s.built_s = 0; s.known = []
    def build(s):
        t = time.time()
        env = dict(os.environ, REPO=REPO)
        rc, o, e = sh([os.path.join(V, "hb.sh")], 700, env=env)
        s.built_s = time.time() - t
        if rc != 0: s.err = "harness does not build: " + "\n".join(l for l in (o + e).splitlines() if l.startswith("error") or "-->" in l)[:1500]
        s.bin = os.path.join(B, "htarget/debug/refharness")
    def run(s, scale=1.0, seed=SEED):
        if s.err: return
        n = 8
        ps = [subprocess.Popen([s.bin, plan.HARNESS[PROP], PROP, str(seed), TIER, str(scale), "%d/%d" % (k, n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True) for k in range(n)]
        end = time.time() + (700 if TIER == "thorough" else 400)
        for p in ps:
            try: o, e = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); o, e = p.communicate(); s.soft = "harness timed out"
            for l in o.splitlines():
                try: d = json.loads(l)
                except ValueError: continue
                t = s.tests.setdefault(d["test"], {"cases": 0, "evals": 0, "good": 0, "other": 0, "samples": []})
                for k in ("cases", "evals", "good", "other"): t[k] += d.get(k, 0)
                t["samples"] = (t["samples"] + d.get("samples", []))[:2]
                if "other_fail" in d: t["other_fail"] = d["other_fail"]
                if "fail" in d:
                    if s.fail is None or d["case"] < s.fail["case"]: s.fail = d
            if p.returncode not in (0, 1): s.crash = "harness exited with %s: %s" % (p.returncode, (e or "")[-300:])

def main():
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(B, "vc"), exist_ok=True)
    for f in os.listdir(os.path.join(V, "contracts")):
        if f.endswith(".vc"): shutil.copy(os.path.join(V, "contracts", f), os.path.join(B, "vc", f))
    for f in ("prelude.vc", "chain.vc"):
        rc, o, e = sh([sys.executable, os.path.join(V, "contracts/gen_prelude.py"), os.path.join(V, "contracts", f), os.path.join(B, "vc", f)], 60)
        if rc: print("gen_prelude failed", e); sys.exit(3)
    if not os.path.exists(os.path.join(B, "extract/debug/extract")):
        sh([os.path.join(V, "setup.sh")], 1700)
    h = Harness()
    hb = threading.Thread(target=h.build); hb.start()
    units = [Unit(u) for u in plan.UNITS.get(PROP, [])]
    ths = [threading.Thread(target=u.run) for u in units]
    for t in ths: t.start()
    hb.join()
    h.run()
    for t in ths: t.join()
    mine = lambda f: PROP in f["props"] or not f["props"]
    failed = [x for u in units for x in u.failed if mine(x)]
    if failed and not h.fail and not h.err:
        h.run(scale=4.0 if TIER == "quick" else 1.0, seed=SEED + 1)
    # ---- report
    fns, obl, dis, limits, trusted = [], 0, 0, [], set()
    badfn = {(x["unit"], x["fn"]) for x in failed}
    for u in units:
        if u.limit: limits.append("%s: %s" % (u.name, u.limit)); continue
        for f in u.fns:
            if not mine(f): continue
            st = "trusted" if f["trusted"] else "undischarged" if f["limit"] else "failed" if (u.name, f["fn"]) in badfn else "discharged"
            if f["limit"]: limits.append("%s/%s: %s" % (u.name, f["fn"], f["limit"]))
            if f["fn"] in u.vacuous: st = "vacuous"; limits.append("%s/%s: exit unreachable under its contract" % (u.name, f["fn"]))
            fns.append({"fn": f["fn"], "src": f["src"], "clauses": f["clauses"], "loops": f["loops"], "inlined": f["inlined"], "status": st})
            if f["trusted"]: trusted.add("contract of %s assumed" % f["fn"]); continue
            obl += f["clauses"] + 1
            if st == "discharged": dis += f["clauses"] + 1
        for f in u.lemmas:
            if f["kind"] != "proof" or f["ext"] or f["axiom"] or not (mine(f)): continue
            obl += f["clauses"]
            if (u.name, f["fn"]) not in badfn: dis += f["clauses"]
        trusted |= set(u.trusted_scan)
    ev = sum(t["evals"] for t in h.tests.values()); gd = sum(t["good"] for t in h.tests.values())
    known = []
    kf = json.load(open(os.path.join(V, "known_findings.json"))) if os.path.exists(os.path.join(V, "known_findings.json")) else {"findings": []}
    viol = None
    replay = os.path.join(V, "evidence", PROP + ".replay.json")
    if h.fail:
        viol = {"property": PROP, "kind": "concrete input on the real code (bounded harness)", **h.fail,
                "rerun": "%s %s %s %d %s 1 0/1 --case %s %d" % (h.bin, plan.HARNESS[PROP], PROP, h.fail["seed"], TIER, h.fail["test"], h.fail["case"]),
                "failed_obligations": failed}
    elif failed:
        viol = {"property": PROP, "kind": "failed proof obligation", "failed_obligations": failed, "note": "no failing input found by the bounded harness"}
    evd = {"property": PROP, "tier": TIER, "seed": SEED, "level": plan.LEVEL.get(PROP, "proof") if hasattr(plan, "LEVEL") else "proof",
           "coverage": {"obligations": obl, "discharged": dis, "checker_cmd": "; ".join(u.cmd for u in units),
                        "trusted_base": ["Verus 0.2026.09.13 with Z3; rustc's parser (syn) and the extractor in /verif/extract"] + sorted(trusted),
                        "functions_under_contract": fns, "unit_queries_verified": {u.name: u.verified for u in units}, "solver_ms": {u.name: u.smt_ms for u in units},
                        "vacuity": {u.name: "%d functions, exit reachable in all but %s" % (u.vac_checked, u.vacuous) for u in units},
                        "undischarged": limits, "retries": [x for u in units for x in u.soft],
                        "evaluations": ev, "distinct_nontrivial": gd,
                        "rule": "bounded stand-in, not counted as proved: seeded random states/histories on the real crate against an independent oracle; non-trivial = the operation succeeded and was compared",
                        "samples": [x for t in h.tests.values() for x in t["samples"]][:3] or ["(no harness case)"],
                        "bounded_tests": {k: {x: v for x, v in t.items() if x != "samples"} for k, t in h.tests.items()},
                        "bounded_harness_error": h.err or getattr(h, "crash", None)},
           "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0}
    json.dump(evd, open(os.path.join(V, "evidence", PROP + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged in %d functions and lemmas of %s; bounded: %d evaluations (%d non-trivial); %d limits; %.0f s" % (PROP, dis, obl, len(fns), [u.name for u in units], ev, gd, len(limits), time.time() - T0))
    for l in limits: print("  limit:", l[:300])
    if h.err: print("  bounded harness:", h.err[:600])
    if getattr(h, "crash", None): print("  bounded harness:", h.crash)
    for k, t in h.tests.items():
        if t.get("other_fail"): print("  note: %s: %d cases stopped at a failure of another property: %s" % (k, t["other"], t["other_fail"][:300]))
    if viol:
        json.dump(viol, open(replay, "w"), indent=1)
        for x in failed: print("  failed obligation: %s/%s (%s): %s\n     %s" % (x["unit"], x["fn"], x["src"], x["message"], "\n     ".join(x["at"])))
        if h.fail:
            print("  failing input [%s #%d]: %s" % (h.fail["test"], h.fail["case"], h.fail["fail"][:600]))
            print("VIOLATION property=%s replay=%s" % (PROP, replay))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay))
        sys.exit(1)
    for f in kf["findings"]:
        if f["property"] == PROP: print("KNOWN-FINDING: property=%s %s" % (PROP, f["what"]))
    sys.exit(0)
main()
