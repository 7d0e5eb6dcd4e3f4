#!/usr/bin/env python3
"""Decide one property: extract the functions under contract from /repo's current source, let Verus
discharge every obligation, and run the executable oracles (failing-input search, bounded stand-ins)."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import config
REPO = os.environ.get("VX_REPO", "/repo")
B = os.path.join(V, "build")
EV = os.path.join(V, "evidence")
BASE = os.path.join(V, "contracts", "baseline.json")
ENV = dict(os.environ, DOCS_RS="1", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)

def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=kw.pop("env", ENV), **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "", "timeout after %ss" % timeout

class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.p = os.path.join(B, name + ".lock")
    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def build_extractor():
    with Lock("extract"):
        rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, "extract"), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "extract")), timeout=600)
    x = os.path.join(B, "extract", "debug", "vx-extract")
    if rc != 0 or not os.path.exists(x):
        print("cannot build the extractor:\n" + e[-2000:], file=sys.stderr)
        sys.exit(2)
    return x

SRC = os.path.join(V, "contracts", "sources.json")
def sources():
    """a digest of the code (comments and layout aside) of every source file of /repo"""
    r = {}
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git", "tests", "benches", "examples", "resources")]
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                t = re.sub(r'("(?:\\.|[^"\\])*")|//[^\n]*|/\*.*?\*/', lambda m: m.group(1) or " ", open(p, errors="replace").read(), flags=re.S)
                r[os.path.relpath(p, REPO)] = hashlib.sha256("".join(t.split()).encode()).hexdigest()[:16]
    return r

def changed_sources():
    try:
        old = json.load(open(SRC))
    except Exception:
        return []
    new = sources()
    return sorted(f for f in set(old) | set(new) if old.get(f) != new.get(f))

def build_harness():
    with Lock("harness"):
        rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, "harness"), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "harness")), timeout=800)
    if rc != 0:
        return None, e[-3000:]
    return os.path.join(B, "harness", "debug", "vxh"), ""

# ---------------------------------------------------------------------------------------------
def owners(path):
    """line -> (kind, name) of the extracted item or hand-written lemma the line belongs to"""
    own, cur = {}, ("text", "")
    for i, l in enumerate(open(path), 1):
        m = re.match(r"// @(fn|type) (\S+) (\S+)", l)
        if m:
            cur = (m.group(1), m.group(3))
        elif l.startswith("// @verbatim"):
            cur = ("text", "")
        elif cur[0] in ("text", "lemma"):
            m = re.match(r"\s*(?:pub )?(?:broadcast )?(proof|spec|open spec|closed spec|exec)? ?fn (\w+)", l)
            if m:
                cur = ("lemma", m.group(2))
        own[i] = cur
    return own

TRUSTED = re.compile(r"(external_body|assume_specification|\bassume\s*\(|\badmit\s*\(|\baxiom\b|external_type_specification|external_trait_specification|exec_allows_no_decreases_clause|external_fn_specification|trait Vx)")

def trusted_items(path):
    """every trusted item in the verified text, by name"""
    res, lines = [], open(path).read().split("\n")
    for i, l in enumerate(lines):
        if l.strip().startswith("//"):
            continue
        m = TRUSTED.search(l)
        if not m:
            continue
        what = m.group(1).strip().rstrip("(").strip()
        name = ""
        for k in range(i, min(i + 6, len(lines))):
            n = re.search(r"(?:fn|struct|enum|trait|type)\s+(\w+)|assume_specification[^\[]*\[\s*([^\]]+)\]", lines[k])
            if n:
                name = (n.group(1) or n.group(2)).strip()
                break
        res.append("%s %s" % (what, name))
    return sorted(set(res))

def verus(path, rlimit, extra=(), errs=3):
    cmd = ["verus", os.path.basename(path), "--triggers-mode", "silent", "--output-json", "--time-expanded", "--multiple-errors", str(errs),
           "--rlimit", str(rlimit), "--num-threads", "4", *extra, "--", "--error-format=json"]
    rc, o, e = sh(cmd, cwd=os.path.dirname(path), timeout=600)
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
    try:
        j = json.loads(o)
    except ValueError:
        j = {}
    return rc, j, diags, " ".join(cmd), e

def run_unit(x, unit, rlimit):
    """extract and verify one unit"""
    d = os.path.join(B, "units")
    os.makedirs(d, exist_ok=True)
    tag = "%s.%d" % (unit, os.getpid())
    out, rep = os.path.join(d, unit + ".rs"), os.path.join(d, unit + ".json")
    out_dir = os.path.join(d, str(os.getpid()))
    os.makedirs(out_dir, exist_ok=True)
    out, rep = os.path.join(out_dir, unit + ".rs"), os.path.join(out_dir, unit + ".json")
    spec = os.path.join(V, "contracts", unit + ".vspec")
    trust, r = [], {"unit": unit, "failed": [], "undecided": [], "verified": 0, "errors": 0, "fns": {}, "trusted": [], "smt_ms": 0, "notes": [], "text": out}
    for attempt in range(4):
        rc, o, e = sh([x, spec, REPO, out, rep, BASE] + ["--trust=" + t for t in trust], timeout=60)
        if rc not in (0, 4):
            r["undecided"].append({"function": "*", "why": "extraction failed: " + (e or o)[-400:]})
            return r
        R = json.load(open(rep))
        r["lost"] = R["lost"]
        r["report"] = {f["name"]: f for f in R["functions"]}
        r["types_changed"] = [t["name"] for t in R["types"] if not t["unchanged"]]
        rc, j, diags, cmd, raw = verus(out, rlimit)
        r["cmd"] = cmd
        own = owners(out)
        res = j.get("verification-results") or {}
        if res and not res.get("encountered-vir-error") and not res.get("encountered-error") or (res.get("verified", 0) + res.get("errors", 0) > 0):
            break
        # the text did not get through the front end: leave the functions at fault undecided, keep the rest
        bad = []
        for g in diags:
            for s in g["spans"]:
                k = own.get(s["line_start"], ("", ""))
                if s["is_primary"] and k[0] == "fn" and k[1] not in trust:
                    bad.append((k[1], g["message"]))
        if not bad or attempt == 3:
            r["undecided"].append({"function": "*", "why": "not accepted by the verifier's front end: " + "; ".join(g["message"] for g in diags)[:600] + raw[-300:] if not diags else "front end: " + "; ".join(g["message"] for g in diags)[:600]})
            return r
        for n, m in bad:
            if n not in trust:
                trust.append(n)
                r["undecided"].append({"function": n, "why": "front end: " + m[:300]})
    r["verified"], r["errors"] = res.get("verified", 0), res.get("errors", 0)
    smt = j.get("times-ms", {}).get("smt", {})
    r["smt_ms"] = smt.get("smt-run", 0)
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            r["fns"][f["function"].split("::", 1)[1]] = {"ok": f["success"], "us": f["time-micros"], "mode": f["mode:"]}
    r["trusted"] = trusted_items(out)
    seen = {}
    for g in diags:
        pri = [s for s in g["spans"] if s["is_primary"]] or g["spans"]
        k = own.get(pri[0]["line_start"], ("text", ""))
        # a failed callee precondition may be reported at the callee: attribute it to the caller
        if "precondition" in g["message"]:
            for s in g["spans"]:
                kk = own.get(s["line_start"], ("text", ""))
                if kk[0] == "fn" and not (s.get("label") or "").startswith("failed"):
                    k = kk
        if "esource limit" in g["message"] or "rlimit" in g["message"]:
            r["undecided"].append({"function": k[1], "why": "resource limit"})
            continue
        seen.setdefault(k, []).append(g)
    for k, gs in seen.items():
        f = r["report"].get(k[1]) if k[0] == "fn" else None
        entry = {"kind": k[0], "function": k[1], "unit": unit, "messages": [g["message"] for g in gs], "rendered": "\n".join(g["rendered"] for g in gs)}
        if f and (f["drift"] or f["inline_failed"]):
            r["undecided"].append({"function": k[1], "why": "obligations fail, but the contract no longer lines up with the code: " + "; ".join(f["drift"] + f["inline_failed"])[:300]})
        elif k[0] == "fn" and f and f["unchanged"] and not r["types_changed"]:
            r["undecided"].append({"function": k[1], "why": "fails although its text is the recorded one (solver instability?): " + entry["messages"][0]})
        elif k[0] != "fn" and not r["types_changed"] and all(f["unchanged"] for f in r["report"].values()):
            r["undecided"].append({"function": k[1], "why": "fails although the extracted text is the recorded one (solver instability?)"})
        else:
            r["failed"].append(entry)
    for l in r["lost"]:
        r["undecided"].append({"function": l["item"], "why": "not found in the source: " + l["why"]})
    return r

def probe_unit(x, unit):
    """vacuity guard: with `assert(false)` at its start every function under contract must fail"""
    d = os.path.join(B, "units", str(os.getpid()))
    out, rep = os.path.join(d, unit + "_probe.rs"), os.path.join(d, unit + "_probe.json")
    rc, o, e = sh([x, os.path.join(V, "contracts", unit + ".vspec"), REPO, out, rep, BASE, "--probe"], timeout=60)
    if rc != 0:
        return {"probed": 0, "vacuous": [], "note": "not probed"}
    t = open(out).read()
    # lemmas are obligations of the unit itself; here they are taken as stated
    ls = t.split("\n")
    for i, l in enumerate(ls):
        if re.match(r"\s*((?:pub(?:\([a-z]+\))? )?(?:broadcast )?proof fn )", l) and "via_fn" not in ls[i - 1] and "external_body" not in ls[i - 1]:
            ls[i] = "#[verifier::external_body] " + l
    t = "\n".join(ls)
    t += "\nverus! {\n#[verifier::external_body] pub fn vx_probe_any<T>() -> T { unimplemented!() }\nproof fn vx_probe_consistency() ensures false { }\n}\n"
    # an obligation that must fail needs no long search
    t = re.sub(r"#\[verifier::rlimit\([^)]*\)\]|#\[verifier\s*::\s*rlimit\s*\([^)]*\)\]", "", t)
    open(out, "w").write(t)
    rc, j, diags, cmd, raw = verus(out, 4, errs=0)
    own = owners(out)
    fns = set(k[1] for k in own.values() if k[0] == "fn")
    fns -= set(re.findall(r"// @fn \S+ (\S+)\n#\[verifier::external_body\]", t))
    for n in list(fns):
        i = t.find(" " + n + "\n")
        if i >= 0 and "assert(false);" not in t[i:].split("// @")[0]:
            fns.discard(n)
    failed = set()
    for g in diags:
        for s in g["spans"]:
            failed.add(own.get(s["line_start"], ("", ""))[1])
    ok = "vx_probe_consistency" in failed
    vac = sorted(n for n in fns if n not in failed)
    return {"probed": len(fns), "vacuous": vac, "consistency_probe_failed_as_it_must": ok}

# ---------------------------------------------------------------------------------------------
def known_findings(prop):
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res

def run_harness(h, prop, seed, mult, secs, known):
    out = os.path.join(B, "harness-%s-%d.json" % (prop, os.getpid()))
    cmd = [h, prop, "--seed", str(seed), "--mult", str(mult), "--secs", str(secs), "--out", out]
    for s, _ in known:
        cmd += ["--ignore", s]
    rc, o, e = sh(cmd, timeout=secs + 60)
    try:
        r = json.load(open(out))
        os.unlink(out)
    except Exception:
        return {"crashed": (rc, e[-1500:]), "failures": [], "cases": 0, "checks": 0, "families": {}, "what": {}}
    return r

def alarms(lst, f):
    """does the failed obligation belong to this property? an entry is a function, or function~regex over the failed clause"""
    for a in lst:
        n, _, rx = a.partition("~")
        if n == f["function"] and (not rx or re.search(rx, f["rendered"])):
            return True
    return False

def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build_extractor()
        h, err = build_harness()
        print("extractor and harness built" if h else "harness does not build:\n" + err)
        return 0
    if args and args[0] == "--replay":
        r = json.load(open(args[1]))
        if r.get("failing_input"):
            f = r["failing_input"]
            h, err = build_harness()
            rc, o, e = sh([h, f["property"], "--seed", str(f["seed"]), "--family", f["family"], "--case", str(f["case"])])
            print(o)
            return rc
        print(json.dumps(r, indent=1))
        return 0
    if args and args[0] == "--record":
        x = build_extractor()
        if os.path.exists(BASE):
            os.unlink(BASE)
        d = os.path.join(B, "units")
        os.makedirs(d, exist_ok=True)
        for u in config.all_units():
            rc, o, e = sh([x, os.path.join(V, "contracts", u + ".vspec"), REPO, os.path.join(d, u + ".rs"), os.path.join(d, u + ".json"), BASE, "--record"])
            print(u, rc, e.strip())
        json.dump(sources(), open(SRC, "w"), indent=0, sort_keys=True)
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in args[1:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = config.PROPS[prop]
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    known = known_findings(prop)
    quick = tier == "quick"
    with cf.ThreadPoolExecutor(12) as ex:
        fh = ex.submit(build_harness)
        x = build_extractor()
        fu = {u: ex.submit(run_unit, x, u, 60 if quick else 200) for u in cfg["units"]}
        fp = {u: ex.submit(probe_unit, x, u) for u in cfg["units"]}
        h, herr = fh.result()
        units = {u: f.result() for u, f in fu.items()}
        probes = {u: f.result() for u, f in fp.items()}
    # obligations that matter for this property
    failed, undecided, shared = [], [], []
    for u, r in units.items():
        sel = cfg["units"][u]
        match = lambda n: sel == "*" or n in sel or n == "*"
        for f in r["failed"]:
            if not (f["kind"] != "fn" or match(f["function"])):
                continue
            # an obligation shared with other properties does not by itself say that this one is broken
            if "alarm" in cfg and f["kind"] == "fn" and not alarms(cfg["alarm"], f):
                shared.append(f)
                undecided.append({"unit": u, "function": f["function"], "why": "fails, and is shared with other properties: not proved here any more; " + "; ".join(f["messages"])[:300]})
            else:
                failed.append(f)
        for f in r["undecided"]:
            if match(f["function"]) or not f["function"] in r.get("report", {}):
                undecided.append(dict(f, unit=u))
    hr, stand_in = None, ""
    if h:
        hr = run_harness(h, prop, seed, config.MULT_QUICK if quick else config.MULT_THOROUGH, 120 if quick else 600, known)
        new = [f for f in hr["failures"] if not f["known"]]
        # search harder where a proof is missing, and where the code is not the code that was proved
        changed = changed_sources()
        if (failed or undecided or changed) and not new and not hr.get("crashed"):
            h2 = run_harness(h, prop, seed + 1, 60 if quick else 100, 200 if failed or undecided else 100, known)
            hr["boosted"] = {"cases": h2["cases"], "why": "obligation failed or undecided, searching for an input" if failed or undecided else "code changed: " + ", ".join(changed)[:300]}
            hr["failures"] += h2["failures"]
            if h2.get("crashed"):
                hr["crashed"] = h2["crashed"]
    else:
        stand_in = "the oracle crate does not build against this tree: " + herr[-600:]
    fails = [f for f in (hr or {"failures": []})["failures"] if not f["known"]]
    for sig, what in known:
        if any(f["known"] and sig in f["sig"] for f in (hr or {"failures": []})["failures"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    nobl = sum(r["verified"] + r["errors"] for r in units.values())
    disch = sum(r["verified"] for r in units.values())
    vac = {u: p["vacuous"] for u, p in probes.items() if p["vacuous"]}
    trusted = sorted(set("%s (%s)" % (t, u) for u, r in units.items() for t in r["trusted"]))
    def mine(u, n):
        s = cfg["units"][u]
        return s == "*" or n in s
    cov = {
        "obligations": nobl, "discharged": disch,
        "obligation_unit": "one Verus proof query group per function, lemma or recommends check; every pre/postcondition, invariant, bound, overflow and termination condition of it",
        "checker_cmd": "; ".join(r.get("cmd", "") for r in units.values()) or "none",
        "back_end": "Verus 0.2026.09.13 with its bundled Z3",
        "solver_ms": sum(r["smt_ms"] for r in units.values()),
        "trusted_base": trusted + ["Verus, Z3, rustc", "extraction (see DESIGN.md: what it drops)"],
        "functions_under_contract": sorted("%s:%s" % (f["file"], n) for u, r in units.items() for n, f in r.get("report", {}).items() if mine(u, n)),
        "other_functions_in_the_same_units": sorted("%s:%s" % (f["file"], n) for u, r in units.items() for n, f in r.get("report", {}).items() if not mine(u, n)),
        "per_unit": {u: {"verified": r["verified"], "errors": r["errors"], "smt_ms": r["smt_ms"]} for u, r in units.items()},
        "extraction_notes": {u: {n: f["notes"] for n, f in r.get("report", {}).items() if f["notes"]} for u, r in units.items()},
        "undecided": undecided,
        "vacuity_probe": {u: {k: v for k, v in p.items()} for u, p in probes.items()},
        "failed_obligations": [{"unit": f["unit"], "function": f["function"], "messages": f["messages"]} for f in failed],
        "bounded": {
            "label": "bounded: executable oracles on generated inputs, never counted as proved",
            "cases": (hr or {}).get("cases", 0), "elementary_checks": (hr or {}).get("checks", 0),
            "families": (hr or {}).get("families", {}), "what": (hr or {}).get("what", {}),
            "boosted": (hr or {}).get("boosted"), "not_run": stand_in, "stands_in_for": cfg.get("bounded", ""),
        },
    }
    res = 0
    viol = 0
    replay = os.path.join(EV, "%s.replay.json" % prop)
    if fails:
        f = fails[0]
        viol = len(fails)
        json.dump({"property": prop, "failing_input": f, "all": fails, "failed_obligations": [{"unit": o["unit"], "function": o["function"], "output": o["rendered"]} for o in failed],
                   "replay_cmd": "python3 %s --replay %s" % (os.path.join(V, "check.py"), replay)}, open(replay, "w"), indent=1, ensure_ascii=False)
        print("failing input for %s [%s]: %s\n  expected %s\n  got      %s" % (prop, f["sig"], f["input"][:1500], f["expected"][:600], f["got"][:600]))
        for o in failed:
            print("failed obligation: %s / %s: %s" % (o["unit"], o["function"], "; ".join(o["messages"])))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        res = 1
    elif failed:
        viol = len(failed)
        json.dump({"property": prop, "failed_obligations": [{"unit": o["unit"], "function": o["function"], "messages": o["messages"], "verifier_output": o["rendered"]} for o in failed],
                   "searched": (hr or {}).get("boosted")}, open(replay, "w"), indent=1, ensure_ascii=False)
        for o in failed:
            print("failed obligation: %s / %s: %s" % (o["unit"], o["function"], "; ".join(o["messages"])))
            print(o["rendered"][:1500])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        res = 1
    for u in undecided:
        print("undecided: %s / %s: %s" % (u["unit"], u["function"], u["why"][:300]))
    if vac:
        print("vacuous contracts: %s" % vac)
    if hr and hr.get("crashed"):
        print("oracle run crashed: %s" % (hr["crashed"],))
        cov["bounded"]["crashed"] = str(hr["crashed"])
        if hr["crashed"][0] not in (0, 1, 2, 124) and res == 0:
            # the code under test took the process down (stack overflow, abort, out of memory)
            json.dump({"property": prop, "crash": hr["crashed"]}, open(replay, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            res, viol = 1, 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "assumptions": cfg.get("assumptions", []) + trusted, "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1, ensure_ascii=False)
    sh(["rm", "-rf", os.path.join(B, "units", str(os.getpid()))])
    print("%s %s: %d of %d obligations discharged, %d undecided, %d oracle cases, %.1f s -> exit %d" % (prop, tier, disch, nobl, len(undecided), cov["bounded"]["cases"], time.time() - t0, res))
    return res

if __name__ == "__main__":
    sys.exit(main())
