#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current working tree:
  1. `vx` extracts the functions under contract from /repo's current source into Verus units,
     and Verus discharges (or fails) the obligations; Kani harnesses likewise where listed.
  2. a bounded, labelled search over the real crates looks for a failing input (the witness);
     it also stands in for units that could not be brought to the verifier this time.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
B = os.path.join(V, ".build")
OFFLINE = dict(os.environ, CARGO_NET_OFFLINE="true")
sys.path.insert(0, V)
from props import PROPS  # noqa: E402


def sh(cmd, timeout, cwd=V, env=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or OFFLINE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace", start_new_session=True)
        return p.returncode, p.stdout, p.stderr, time.time() - t0
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        err = e.stderr.decode(errors="replace") if isinstance(e.stderr, bytes) else (e.stderr or "")
        return -999, out, err, time.time() - t0


def build_crate(sub, timeout=420):
    """cargo build in /verif/<sub>; returns error text or None."""
    env = dict(OFFLINE, CARGO_TARGET_DIR=os.path.join(B, sub.replace("/", "_")))
    rc, out, err, _ = sh(["cargo", "build", "--release", "--offline", "-q"], timeout, os.path.join(V, sub), env)
    return None if rc == 0 else f"build of {sub} failed (rc {rc}): {err[-2000:]}"


def binpath(sub, name):
    return os.path.join(B, sub.replace("/", "_"), "release", name)


# ------------------------------------------------------------------------------------- Verus ----
ERR_HEAD = re.compile(r"^(error|note|warning)(\[[^\]]*\])?: (.*)$")
TRUST = re.compile(r"external_body|assume_specification|admit\s*\(|\bassume\s*\(|uninterp\s+spec|\baxiom\b")


def trusted_items(text):
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s or "assume_specification" in s or "uninterp spec" in s or re.search(r"\b(assume|admit)\s*\(", s):
            sig = s
            for j in range(i, min(i + 6, len(lines))):
                m = re.search(r"(fn\s+\w+|struct\s+\w+|assume_specification\s*(<[^\[]*>)?\s*\[\s*[^\]]+\])", lines[j])
                if m:
                    sig = re.sub(r"\s+", " ", m.group(1))
                    break
            kind = "external_body" if "external_body" in s else "assume_specification" if "assume_specification" in s else \
                "uninterpreted" if "uninterp" in s else "assume"
            out.append(f"{kind}: {sig}")
    return sorted(set(out))


# obligations whose failure means that running the code may panic, read out of bounds, overflow or not end
PANIC_HEAD = re.compile(r"precondition not met|arithmetic underflow/overflow|division by zero|decreases|termination|bit shift")
PANIC_CALL = re.compile(r"vx_unreachable|vx_assert|vx_range|vx_unwrap|vx_at\b|vx_at_mut|vx_front|vx_split_at|from_u32_unchecked|unwrap|expect|std_specs/|slice\.rs")


def may_panic(d):
    return bool(PANIC_HEAD.search(d["head"]) or ("precondition" in d["head"] and PANIC_CALL.search(d["text"])))


def run_unit(unit, tier, work, panics=False):
    """Extract and verify one unit (panics: only the obligations for freedom from panics are of interest)."""
    r = {"unit": unit, "state": None, "verified": 0, "errors": 0, "failed": [], "fns": [], "why": "", "smt_ms": 0, "trusted": [], "notes": []}
    uf = os.path.join(V, "units", unit + ".vx")
    rs, js = os.path.join(work, unit + ".rs"), os.path.join(work, unit + ".json")
    rc, out, err, _ = sh([binpath("vx", "vx"), REPO, uf, rs, js], 60)
    if rc != 0:
        r["state"] = "degraded"
        r["why"] = err.strip()[-500:] or f"vx rc {rc}"
        return r
    meta = json.load(open(js))
    r["fns"] = [f"{f['file']}:{f['line']} {f['path']}" for f in meta["fns"]]
    r["items"] = meta["items"]
    r["notes"] = meta["notes"]
    text = open(rs).read()
    r["trusted"] = trusted_items(text)
    # vacuity: copies in which the functions under contract end with assert(false) (big units: every third function in each copy)
    of = 0 if panics else 3 if len(meta["fns"]) > 30 else 1
    copies = []
    for k in range(of):
        crs, cjs = os.path.join(work, f"{unit}_canary{k}.rs"), os.path.join(work, f"{unit}_canary{k}.json")
        rc, out, err, _ = sh([binpath("vx", "vx"), REPO, uf, crs, cjs, f"canary:{k}/{of}"], 60)
        if rc != 0:
            r["state"] = "degraded"
            r["why"] = "vacuity guard could not be generated: " + (err.strip()[-400:] or f"vx rc {rc}")
            return r
        copies.append((crs, json.load(open(cjs))["fns"]))
    lim = 400
    with cf.ThreadPoolExecutor(4) as ex:
        f1 = ex.submit(verus, rs, work, lim)
        fs = [ex.submit(verus, crs, work, 640, 0) for crs, _ in copies]
        rc, res, diags, raw, dt = f1.result()
        cdiags = [f.result()[2] for f in fs]
    r["wall_s"] = round(dt, 1)
    if rc == -999:
        r["state"], r["why"] = "degraded", f"verifier exceeded {lim} s"
        return r
    vr = (res or {}).get("verification-results") or {}
    if res is None or vr.get("encountered-vir-error") or "verified" not in vr or (vr.get("encountered-error") and vr.get("errors", 0) == 0):
        r["state"] = "degraded"
        r["why"] = "unit not accepted by the front end: " + "; ".join(d["head"] for d in diags[:3])[:600]
        r["raw"] = raw[-3000:]
        return r
    r["verified"], r["errors"] = vr["verified"], vr["errors"]
    try:
        r["smt_ms"] = res["times-ms"]["smt"]["total"]
    except Exception:
        pass
    real, limit = [], []
    for d in diags:
        if d["level"] != "error" or d["head"].startswith("aborting due to"):
            continue
        fn = next((f for f in meta["fns"] if d["line"] and f["out_start"] <= d["line"] <= f["out_end"]), None)
        d["fn"] = f"{fn['path']} ({fn['file']}:{fn['line']})" if fn else f"lemma or specification (line {d['line']})"
        (limit if "Resource limit" in d["head"] or "rlimit" in d["head"] else real).append(d)
    other = [d for d in real if panics and not may_panic(d)]
    if other and len(other) == len(real):
        r["state"], r["why"] = "degraded", "functional obligations failed (reported by the checks of their own properties): " + "; ".join(d["fn"] for d in other)[:300]
        return r
    if panics:
        real = [d for d in real if may_panic(d)]
    if r["errors"] == 0:
        r["state"] = "proved"
        if r["verified"] == 0:
            r["state"], r["why"] = "degraded", "no obligations"
        if panics:
            return r
        # canary
        want = [f for f in meta["fns"] if f["canary"]]
        hit = 0
        missing = []
        for (_, fns), ds in zip(copies, cdiags):
            for f in fns:
                if not f["canary"]:
                    continue
                if any(d["level"] == "error" and d["line"] and f["out_start"] <= d["line"] <= f["out_end"] for d in ds):
                    hit += 1
                else:
                    missing.append(f["path"])
        if hit + len(missing) != len(want):
            missing.append(f"{len(want) - hit - len(missing)} functions in no copy")
        r["canaries"] = [hit, len(want)]
        if missing:
            r["state"] = "degraded"
            r["why"] = "vacuity guard: assert(false) was provable at the end of " + ", ".join(missing)
    elif real:
        r["state"] = "failed"
        r["failed"] = real
    else:
        r["state"], r["why"] = "degraded", "resource limit: " + "; ".join(d["fn"] for d in limit)[:300]
    return r


def verus(rs, work, lim, multiple=8):
    cmd = ["verus", os.path.basename(rs), "--edition", "2024", "--output-json", "--time", "--multiple-errors", str(multiple), "--num-threads", "3"]
    d = rs[:-3] + ".d"
    os.makedirs(d, exist_ok=True)
    shutil.copy(rs, d)
    rc, out, err, dt = sh(cmd, lim, d)
    res = None
    i = out.find("{")
    if i >= 0:
        try:
            res = json.loads(out[i:])
        except Exception:
            pass
    diags = []
    lines = err.split("\n")
    for i, l in enumerate(lines):
        m = ERR_HEAD.match(l)
        if m:
            line = None
            for j in range(i + 1, min(i + 6, len(lines))):
                mm = re.match(r"\s*--> [^:]+:(\d+):", lines[j])
                if mm:
                    line = int(mm.group(1))
                    break
            body = []
            for j in range(i, min(i + 25, len(lines))):
                if j > i and ERR_HEAD.match(lines[j]):
                    break
                body.append(lines[j])
            diags.append({"level": m.group(1), "head": m.group(3), "line": line, "text": "\n".join(body)})
    return rc, res, diags, err, dt


# -------------------------------------------------------------------------------------- Kani ----
def run_kani(crate, harnesses, work, tier):
    r = {"unit": "kani/" + crate, "state": None, "verified": 0, "errors": 0, "failed": [], "fns": [], "why": "", "smt_ms": 0, "trusted": [], "notes": []}
    env = dict(OFFLINE, CARGO_TARGET_DIR=os.path.join(B, "kani_" + crate))
    cmd = ["cargo", "kani", "-j", "4", "--output-format", "terse"]
    for h in harnesses:
        cmd += ["--harness", h]
    rc, out, err, dt = sh(cmd, 780, os.path.join(V, "kani", crate), env)
    r["wall_s"] = round(dt, 1)
    txt = out + err
    ok = re.findall(r"Checking harness (\S+?)\.\.\.", txt)
    done = len(re.findall(r"VERIFICATION:- SUCCESSFUL", txt))
    failed = re.findall(r"VERIFICATION:- FAILED", txt)
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", txt)
    for a, b in re.findall(r"\*\* (\d+) of (\d+) failed", txt):
        r["errors"] += int(a)
        r["verified"] += int(b) - int(a)
    r["fns"] = sorted(set(harnesses))
    t = sum(float(x) for x in re.findall(r"Verification Time: ([0-9.]+)s", txt))
    r["smt_ms"] = int(t * 1000)
    if m and int(m.group(2)) == 0 and int(m.group(3)) >= len(harnesses):
        r["state"] = "proved"
        r["verified"] = max(r["verified"], int(m.group(1)))
    elif m and int(m.group(2)) > 0:
        names = re.findall(r"Verification failed for - (\S+)", txt)
        checks = re.findall(r"Failed Checks: (.*)", txt)
        # unwinding / unsupported-feature failures decide nothing
        bad = [c for c in checks if not re.search(r"unwinding assertion|unsupported|not currently supported|unreachable_sync", c)]
        if bad:
            r["state"] = "failed"
            r["failed"] = [{"head": c, "fn": ", ".join(names), "text": txt[-6000:]} for c in bad[:8]]
            r["errors"] = max(r["errors"], len(bad))
        else:
            r["state"], r["why"] = "degraded", "kani: " + "; ".join(checks[:3])
    else:
        r["state"], r["why"] = "degraded", f"kani gave no answer (rc {rc}): " + txt[-700:]
    return r


# ----------------------------------------------------------------------------------- witness ----
def run_witness(crate, binname, prop, tier, seed, budget, work):
    w = {"crate": crate, "state": None, "why": "", "violations": [], "evaluations": 0, "distinct": 0, "rule": "", "samples": []}
    e = build_crate(crate)
    if e:
        w["state"], w["why"] = "degraded", e
        return w
    trace = os.path.join(work, f"{binname}_{prop}.cur")
    cmd = [binpath(crate, binname), prop, "--seed", str(seed), "--tier", tier, "--budget", str(budget)]
    rc, out, err, dt = sh(cmd, budget * 3 + 60)
    if rc != 0:
        # crashed (stack overflow, abort): run again writing down each case
        rc2, out2, err2, _ = sh(cmd + ["--trace", trace], budget * 6 + 120)
        if rc2 != 0:
            cur = open(trace, errors="replace").read() if os.path.exists(trace) else ""
            if cur:
                w["state"] = "violation"
                w["violations"] = [{"what": f"the process ended abnormally (exit {rc2}) on this case", "input": cur, "stderr": err2[-800:]}]
            else:
                w["state"], w["why"] = "degraded", f"witness failed (rc {rc2}): {err2[-600:]}"
            return w
        out = out2
    try:
        j = json.loads(out.strip().split("\n")[-1])
    except Exception:
        w["state"], w["why"] = "degraded", "witness printed no result: " + err[-500:]
        return w
    w.update(j)
    w["wall_s"] = round(dt, 1)
    w["state"] = "violation" if w["violations"] else "ok"
    return w


# ------------------------------------------------------------------------------------ driver ----
def known_findings(prop):
    out = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    work = os.path.join(B, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)

    units, wits = [], []
    vxerr = build_crate("vx") if cfg.get("units") else None
    budget = cfg.get("budget", {}).get(tier, 20 if tier == "quick" else 240)
    with cf.ThreadPoolExecutor(8) as ex:
        fu = []
        if vxerr:
            units = [{"unit": u, "state": "degraded", "why": vxerr, "verified": 0, "errors": 0, "failed": [], "fns": [], "smt_ms": 0, "trusted": [], "notes": []} for u in cfg["units"]]
        else:
            fu = [ex.submit(run_unit, u, tier, work, cfg.get("panics", False)) for u in cfg.get("units", [])]
        fk = [ex.submit(run_kani, c, h, work, tier) for c, h in cfg.get("kani", {}).items()]
        fw = [ex.submit(run_witness, c, b, prop, tier, seed, budget, work) for c, b in cfg.get("witness", [])]
        units += [f.result() for f in fu] + [f.result() for f in fk]
        wits = [f.result() for f in fw]

    known = known_findings(prop)
    viol, kf = [], []
    for w in wits:
        for v in w["violations"]:
            if v.get("key") and v["key"] in known:
                kf.append(v)
            else:
                viol.append(v)
    failed = [u for u in units if u["state"] == "failed"]
    degraded = [u for u in units if u["state"] == "degraded"] + [w for w in wits if w["state"] == "degraded"]
    oblig = sum(u["verified"] + u["errors"] for u in units)
    disch = sum(u["verified"] for u in units)
    bounded_text = ("Bounded stand-in and counterexample search on the real code (never counted as proved): "
                    + "; ".join(f"{w['crate']}: {w['rule']}" for w in wits if w.get("rule")))
    trusted = sorted(set(t for u in units for t in u["trusted"]))
    level = cfg.get("level", "proof")
    cov = {
        "obligations": oblig,
        "discharged": disch,
        "checker_cmd": "verus (Z3) on units extracted by vx: " + ", ".join(u["unit"] for u in units if not u["unit"].startswith("kani/"))
        + ("; cargo kani (CBMC): " + ", ".join(u["unit"] for u in units if u["unit"].startswith("kani/")) if any(u["unit"].startswith("kani/") for u in units) else ""),
        "trusted_base": trusted + cfg.get("trusted", []) + ["the vx extraction (rewrites listed under extraction_notes)", "Verus and Z3", "rustc"]
        + (["Kani and CBMC"] if cfg.get("kani") else []),
        "functions_under_contract": sorted(set(f for u in units for f in u["fns"])),
        "units": [{k: u.get(k) for k in ("unit", "state", "verified", "errors", "smt_ms", "wall_s", "why", "canaries", "items") if u.get(k) is not None} for u in units],
        "solver_ms": sum(u["smt_ms"] for u in units),
        "extraction_notes": sorted(set(n for u in units for n in u["notes"])),
        "evaluations": sum(w["evaluations"] for w in wits),
        "distinct_nontrivial": sum(w["distinct"] for w in wits),
        "rule": bounded_text,
        "samples": [s for w in wits for s in w["samples"][:3]],
        "explanation": cfg["covers"],
        "exhaustive": False,
    }
    if degraded:
        cov["degraded"] = [{"part": d.get("unit") or d.get("crate"), "why": d["why"]} for d in degraded]
    if degraded and not any(u["state"] == "proved" for u in units):
        level = "exploration"  # nothing was discharged this time: only the bounded search speaks
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol) + (len(failed) if not viol else 0)}

    def write_replay(name, text):
        p = os.path.join(V, "replay", f"{prop}_{name}.txt")
        with open(p, "w") as f:
            f.write(text)
        return os.path.relpath(p, V)

    rc = 0
    for u in units:
        print(f"[{prop}] {u['unit']}: {u['state']} verified={u['verified']} errors={u['errors']} {u['why'][:300]}")
    for w in wits:
        print(f"[{prop}] witness {w['crate']}: {w['state']} evaluations={w['evaluations']} {w['why'][:300]}")
    seen = set()
    for v in kf:
        if v["key"] not in seen:
            seen.add(v["key"])
            print(f"KNOWN-FINDING: property={prop} {known[v['key']]}")
    # a listed finding is reported on every run, found or not in this run's sample
    for k, t in known.items():
        if k not in seen:
            print(f"KNOWN-FINDING: property={prop} {t}")
    if viol:
        h = hashlib.sha1(json.dumps(viol[0], sort_keys=True).encode()).hexdigest()[:10]
        txt = "Failing input replayed against the real code:\n" + json.dumps(viol[:5], indent=1, ensure_ascii=False)
        for u in failed:
            for d in u["failed"]:
                txt += f"\n\nFailed obligation in unit {u['unit']}, {d['fn']}: {d['head']}\n{d['text']}"
        p = write_replay(h, txt)
        for v in viol[:3]:
            print("  failing input:", json.dumps(v, ensure_ascii=False)[:700])
        for u in failed:
            for d in u["failed"][:3]:
                print(f"  failed obligation: {u['unit']}: {d['fn']}: {d['head']}")
        print(f"VIOLATION property={prop} replay={p}")
        rc = 1
    elif failed:
        txt = ""
        for u in failed:
            for d in u["failed"]:
                txt += f"Failed obligation in unit {u['unit']}, {d['fn']}: {d['head']}\n{d['text']}\n\n"
                print(f"  failed obligation: {u['unit']}: {d['fn']}: {d['head']}")
        p = write_replay("obligation", txt)
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
        rc = 1
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    sys.exit(rc)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:  # an internal error is no verdict about the code
        import traceback
        traceback.print_exc()
        sys.exit(2)
