#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

1. extract the functions under contract from /repo's working tree and have Verus discharge every
   obligation (plus a vacuity run that must fail everywhere); Kani groups run on the included module;
2. run the property's bounded search against the compiled code, to turn a failed obligation into a
   failing input and to stand in (labelled) for glue that is not under contract;
3. decide, write evidence/<id>.json, print VIOLATION / KNOWN-FINDING lines."""
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vx import unit as U, verus as V          # noqa: E402
from vx.rs import Structural                  # noqa: E402
from vx.props import PROPS                    # noqa: E402

REPO = U.REPO
CACHE = os.path.join(HERE, ".cache")
EVID = os.path.join(HERE, "evidence")
FEATURES = {"args": ["--features", "cli"], "cliread": ["--features", "cli"]}      # probes that include files of the command line tool
VACUITY = "// VXVAC"


def sh_env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def sync_lock(crate):
    src = open(os.path.join(REPO, "Cargo.lock")).read()
    dst = os.path.join(crate, "Cargo.lock")
    try:
        if ("# from /repo\n" in open(dst).read()[:200]):
            return
    except OSError:
        pass
    open(dst, "w").write(src)


# ------------------------------------------------------------------ deductive part
def run_verus(name, tier):
    """-> dict with the classified outcome of one unit"""
    out = {"unit": name, "kind": "verus", "genuine": [], "structural": [], "rlimit": [], "verified": 0, "errors": 0,
           "functions": [], "assumptions": [], "wall": 0.0, "lost": [], "vacuity": "", "slow": []}
    gen = os.path.join(CACHE, "gen")
    os.makedirs(gen, exist_ok=True)
    try:
        u = U.build(name, "", os.path.join(HERE, "contracts"))
        ue = U.build(name, "entry", os.path.join(HERE, "contracts"))
    except Structural as e:
        out["structural"].append({"message": str(e), "rendered": str(e)})
        return out
    out["lost"] = list(u.lost)
    out["assumptions"] = [f"{name}: {a}" for a in U.scan_assumptions(u.source)]
    out["rewrites"] = sorted(u.subs_used)
    p = os.path.join(gen, name + ".rs")
    pe = os.path.join(gen, name + "_entry.rs")
    open(p, "w").write(u.source)
    open(pe, "w").write(ue.source)
    rl = 100 if tier == "quick" else 300
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(V.run, p, rl)
        f2 = ex.submit(V.run, pe, 10)
        r, re_ = f1.result(), f2.result()
    if not r.ok and not r.structural and r.rlimit and not r.genuine:
        r = V.run(p, rl * 4)
    out.update(verified=r.verified, errors=r.errors, wall=round(r.wall, 2), cmd=r.cmd)
    out["structural"] += r.structural
    out["rlimit"] += r.rlimit
    out["genuine"] += r.genuine
    out["slow"] = [[n, round(ms)] for n, ms, *_ in sorted(r.functions, key=lambda f: -f[1])[:3]]
    out["smt_ms"] = round(sum(f[1] for f in r.functions))
    for f in u.functions:
        if getattr(f, "skeleton", False):
            # an abstraction: what it fails to show need not be false of the code, so the search decides
            for g in [g for g in out["genuine"] if any(f.gen_start <= l <= f.gen_end for l in g["lines"])]:
                out["genuine"].remove(g)
                out["structural"].append({"message": f"the control flow of {f.name} ({f.file}:{f.line}) alone doesn't show: {g['message']}", "rendered": g.get("rendered", "")})
    for f in u.functions:
        bad = [g for g in r.genuine if any(f.gen_start <= l <= f.gen_end for l in g["lines"])]
        for g in bad:
            g["function"] = f"{f.name} ({f.file}:{f.line})"
        out["functions"].append({"name": f.name, "at": f"{f.file}:{f.line}", "container": f.container, **({"abstraction": f"control flow only, {f.sites} call sites"} if getattr(f, "skeleton", False) else {}),
                                 "discharged": r.ok or (not bad and not r.structural and not r.rlimit)})
    if not re_.structural:
        hit = set()
        for g in re_.genuine:
            if VACUITY.strip("/ ") in g.get("rendered", "") or "VXVAC" in g.get("text", ""):
                for f in ue.functions:
                    if any(f.gen_start <= l <= f.gen_end for l in g["lines"]):
                        hit.add(f.name + f.container)
        missing = [f.name for f in ue.functions if f.name + f.container not in hit]
        if missing and r.ok:
            out["vacuity"] = "precondition never reachable in: " + ", ".join(missing)
        out["vacuity_checked"] = len(ue.functions) - len(missing)
    if r.ok and (r.verified == 0 or not u.functions):
        out["vacuity"] = "no obligations were generated"
    if u.lost and not r.ok:
        # ghost text or an opt-in rewrite found no anchor: a failure says nothing about the code
        out["structural"] += [{"message": "lost anchor: " + x, "rendered": x} for x in u.lost]
    out["ok"] = r.ok
    return out


def run_kani(feature, tier):
    out = {"unit": feature, "kind": "kani", "genuine": [], "structural": [], "rlimit": [], "verified": 0, "errors": 0,
           "functions": [], "assumptions": [], "wall": 0.0, "lost": [], "vacuity": "", "slow": [], "ok": False}
    crate = os.path.join(HERE, "kani")
    sync_lock(crate)
    cmd = ["cargo", "kani", "--features", feature, "--target-dir", os.path.join(CACHE, "kani"), "-j", "4",
           "--output-format", "terse"]
    cmd = ["cargo", "kani", "--features", feature, "--target-dir", os.path.join(CACHE, "kani")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=crate, capture_output=True, text=True, timeout=780, env=sh_env())
    except subprocess.TimeoutExpired:
        out["rlimit"].append({"message": "cargo kani timed out", "rendered": ""})
        return out
    out["wall"] = round(time.time() - t0, 2)
    out["cmd"] = " ".join(cmd)
    txt = p.stdout
    parts = re.split(r"Checking harness (\S+?)\.\.\.", txt)
    if len(parts) < 3:
        out["structural"].append({"message": "kani: no harness ran", "rendered": (p.stderr or txt)[-3000:]})
        return out
    okall = True
    for name, body in zip(parts[1::2], parts[2::2]):
        short = name.split("::")[-1]
        m = re.search(r"\*\* (\d+) of (\d+) failed", body)
        failed, total = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        succ = "VERIFICATION:- SUCCESSFUL" in body
        mc = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", body)
        if mc and mc.group(1) != mc.group(2) and succ:
            out["vacuity"] = f"{short}: only {mc.group(1)} of {mc.group(2)} cover goals reachable"
        out["verified"] += total - failed
        out["errors"] += failed
        tm = re.search(r"Verification Time: ([\d.]+)s", body)
        out["slow"].append([short, round(float(tm.group(1)) * 1000) if tm else 0])
        out["functions"].append({"name": short, "at": "kani harness", "container": feature, "discharged": succ})
        if succ:
            continue
        okall = False
        checks = re.findall(r"Check \d+: (\S+)\s+- Status: (\w+)\s+- Description: \"(.*?)\"\s+- Location: (.*)", body)
        fails = [c for c in checks if c[1] == "FAILURE"]
        und = [c for c in checks if c[1] == "UNDETERMINED"]
        unw = [c for c in fails if "unwinding" in c[2] or "unwind" in c[0]]
        unsup = [c for c in fails if "unsupported" in c[0] or "not currently supported" in c[2]]
        real = [c for c in fails if c not in unw and c not in unsup]
        if unw or unsup or (not real):
            out["structural"].append({"message": f"{short}: " + str([c[2] for c in (unw + unsup)[:2]] or "undetermined"),
                                      "rendered": body[-2000:]})
        if real:
            for c in real[:3]:
                out["genuine"].append({"message": f"{c[2]} [{c[0]}]", "rendered": f"{short}: {c}", "lines": [],
                                       "function": f"{short} {c[3]}"})
    out["slow"] = sorted(out["slow"], key=lambda x: -x[1])[:3]
    out["ok"] = okall and "successfully verified harnesses, 0 failures" in txt
    out["assumptions"] = [f"{feature}: Kani/CBMC bit-precise semantics of the compiled module; unwinding assertions on"]
    if not out["ok"] and not out["genuine"] and not out["structural"]:
        out["structural"].append({"message": "kani failed", "rendered": txt[-2000:]})
    return out


# ------------------------------------------------------------------ bounded search part
def build_probe(name):
    crate = os.path.join(HERE, "harness")
    sync_lock(crate)
    env = sh_env()
    env["RUSTUP_TOOLCHAIN"] = "1.90.0-x86_64-unknown-linux-gnu"
    env["RUSTFLAGS"] = "-Awarnings --cfg asciidork_verif"
    env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target")
    p = subprocess.run(["cargo", "build", "--offline", "--bin", name] + FEATURES.get(name, []), cwd=crate, capture_output=True, text=True,
                       env=env, timeout=800)
    return p.returncode == 0, p.stderr


def run_probe(name, tier, seed):
    t0 = time.time()
    res = {"probe": name, "built": False, "ran": False, "failures": [], "evaluations": 0}
    try:
        ok, err = build_probe(name)
    except subprocess.TimeoutExpired:
        ok, err = False, "build timed out"
    if not ok:
        res["error"] = "\n".join(l for l in err.splitlines() if "error" in l)[:1500] or err[-1500:]
        return res
    res["built"] = True
    outp = os.path.join(CACHE, f"probe-{name}-{os.getpid()}.json")
    scratch = os.path.join(CACHE, f"scratch-{name}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    cmd = [os.path.join(CACHE, "target", "debug", name), "--tier", tier, "--seed", str(seed), "--out", outp]
    env = sh_env()
    env["VX_SCRATCH"] = scratch
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=(300 if tier == "quick" else 760), env=env,
                           cwd=scratch)
        if os.path.exists(outp):
            res.update(json.load(open(outp)))
            res["ran"] = True
            os.remove(outp)
        else:
            sig = -p.returncode if p.returncode < 0 else 0
            res["error"] = f"exit {p.returncode}: {p.stderr[-800:]}"
            # an abort (stack overflow, ...) of the code under test inside a case
            if sig in (6, 11):
                res["aborted"] = True
    except subprocess.TimeoutExpired:
        res["error"] = "probe timed out"
        res["hung"] = True
    finally:
        subprocess.run(["rm", "-rf", os.path.abspath(scratch)])
    res["wall"] = round(time.time() - t0, 2)
    return res


# ------------------------------------------------------------------ decision
def known_findings(prop):
    res = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", ln.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        fp = [ex.submit(run_probe, n, tier, seed) for n in cfg.get("probe", [])]
        fv = [ex.submit(run_verus, n, tier) for n in cfg.get("verus", [])]
        fk = [ex.submit(run_kani, n, tier) for n in cfg.get("kani", [])]
        ded = [f.result() for f in fv + fk]
        probes = [f.result() for f in fp]

    known = known_findings(prop)
    kkeys = {k: w for k, w in known}
    fails, seen_known = [], {}
    for pr in probes:
        for f in pr["failures"]:
            if f["key"] in kkeys:
                seen_known[f["key"]] = f
            else:
                fails.append((pr["probe"], f))
        if pr.get("aborted") or pr.get("hung"):
            fails.append((pr["probe"], {"key": "abort", "input": pr.get("error", ""),
                                        "detail": "the code under test aborted or did not terminate"}))
    genuine = [g for d in ded if not d["structural"] for g in d["genuine"]]
    undecided = [d for d in ded if d["structural"] or (d["rlimit"] and not d["genuine"])]
    vac = [d["vacuity"] for d in ded if d["vacuity"]]
    broken_probe = [p for p in probes if not p["ran"] and not (p.get("aborted") or p.get("hung"))]
    decided_proof = bool(ded) and not undecided and all(d.get("ok") for d in ded)

    lines, rc = [], 0
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    if fails:
        path = os.path.join(rdir, f"{prop}.txt")
        with open(path, "w") as fh:
            for pname, f in fails[:20]:
                fh.write(f"probe: {pname}\ncase: {f['key']}\ninput: {f['input']}\nwhat: {f['detail']}\n"
                         f"replay: cd /verif && python3 check.py {prop} --tier {tier}  (VERIF_SEED={seed})\n\n")
            for g in genuine:
                fh.write(f"failed obligation: {g.get('function', '')}: {g['message']}\n{g.get('rendered', '')}\n")
        lines.append(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif genuine:
        path = os.path.join(rdir, f"{prop}.txt")
        with open(path, "w") as fh:
            for g in genuine:
                fh.write(f"failed obligation in {g.get('function', '?')}: {g['message']}\n{g.get('rendered', '')}\n\n")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        rc = 1
    elif vac:
        print("VACUITY:", "; ".join(vac))
        rc = 2
    elif not decided_proof and broken_probe:
        for d in undecided:
            for s in d["structural"][:3]:
                print("UNDECIDED", d["unit"], s["message"], s.get("rendered", "")[:600])
        for p in broken_probe:
            print("PROBE", p["probe"], p.get("error"))
        rc = 2
    for k, w in known:
        lines.append(f"KNOWN-FINDING: property={prop} {w}")
    for d in undecided:
        for s in (d["structural"] + d["rlimit"])[:2]:
            print(f"UNDECIDED {d['unit']}: {s['message']} -- this run's answer rests on the bounded search")
    for p in broken_probe:
        print(f"PROBE-UNAVAILABLE {p['probe']}: {p.get('error', '')[:300]}")
    for ln in lines:
        print(ln)
    write_evidence(prop, tier, seed, cfg, ded, probes, decided_proof, rc, time.time() - t0, fails, genuine, undecided, known)
    nobl = sum(d["verified"] + d["errors"] for d in ded)
    print(f"{prop}: {sum(d['verified'] for d in ded)}/{nobl} obligations discharged, "
          f"{sum(p['evaluations'] for p in probes)} searched cases, {time.time() - t0:.0f}s, exit {rc}")
    sys.exit(rc)


def write_evidence(prop, tier, seed, cfg, ded, probes, decided, rc, wall, fails, genuine, undecided, known):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = next((c for c in man["checks"] if c["property"] == prop), {})
    obligations = sum(d["verified"] + d["errors"] for d in ded)
    trusted = [a for d in ded for a in d["assumptions"]]
    cov = {
        "obligations": obligations + sum(max(1, len(d["functions"])) for d in undecided if d["structural"]),
        "discharged": sum(d["verified"] for d in ded),
        "checker_cmd": "; ".join(d.get("cmd", "") for d in ded if d.get("cmd")) or "none ran",
        "trusted_base": trusted or ["none"],
        "proof_decided_this_run": decided,
        "functions_under_contract": [f for d in ded for f in d["functions"]],
        "backends": [{"unit": d["unit"], "backend": "Verus/Z3" if d["kind"] == "verus" else "Kani/CBMC",
                      "obligations": d["verified"] + d["errors"], "discharged": d["verified"], "wall_s": d["wall"],
                      "smt_ms": d.get("smt_ms"), "slowest_ms": d["slow"], "vacuity_checked": d.get("vacuity_checked"),
                      "rewrites": d.get("rewrites", [])} for d in ded],
        "undecided": [{"unit": d["unit"], "why": [s["message"] for s in d["structural"] + d["rlimit"]][:5]} for d in undecided],
        "bounded_search": [{k: p.get(k) for k in ("probe", "built", "ran", "classes", "notes", "wall", "error")}
                           for p in probes],
        "evaluations": sum(p["evaluations"] for p in probes),
        "distinct_nontrivial": sum(p.get("distinct_cases", 0) for p in probes),
        "rule": "bounded search only: every case is one call or document run against the executable form of the "
                "specification; distinct = different (class, input) pairs; never counted as proved",
        "samples": [x for p in probes for x in p.get("samples", [])][:10],
        "failing_inputs": [{"probe": p, "case": f["key"], "input": f["input"][:500], "what": f["detail"][:500]}
                           for p, f in fails[:10]],
        "failed_obligations": [{"function": g.get("function"), "message": g["message"]} for g in genuine],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": entry.get("level", "proof"),
        "coverage": cov,
        "assumptions": cfg.get("assumptions", []) + [
            "the extraction drops attributes, visibility and cfg(feature) blocks, and applies the listed token rewrites",
            "trusted_base lists every assumed specification found by the mechanical scan of the generated files"]
            + ([f"known finding: {w}" for _, w in known]),
        "wall_s": round(wall, 2),
        "violations": len(fails) or (len(genuine) if rc == 1 else 0),
    }
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, ensure_ascii=False)


main()
