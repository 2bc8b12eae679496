"""Run Verus on a generated file and classify what it says."""
import json
import os
import re
import subprocess
import time

GENUINE = [
    "postcondition not satisfied", "precondition not satisfied", "precondition not met",
    "assertion failed", "invariant not satisfied", "possible arithmetic underflow/overflow",
    "possible division by zero", "decreases not satisfied", "loop invariant not",
    "possible bit shift", "recommendation not met", "unreachable", "could not prove termination",
    "index in bounds", "might not be allowed", "failed this", "unable to prove", "not satisfied",
]
RLIMIT = ["resource limit", "rlimit", "timed out", "canceled"]
NOTE = ["not all errors may have been reported", "aborting due to"]


class Result:
    def __init__(self):
        self.ok = False
        self.verified = self.errors = 0
        self.genuine, self.rlimit, self.structural = [], [], []
        self.functions = []   # (name, ms, success)
        self.wall = 0.0
        self.cmd = ""


def run(path, rlimit=60, extra=(), timeout=800, threads=None):
    cmd = ["verus", "--edition=2024", "--output-json", "--time-expanded", "--error-format=json",
           "--rlimit", str(rlimit), "--multiple-errors", "3"]
    if threads:
        cmd += ["--num-threads", str(threads)]
    cmd += [path, *extra]
    r = Result()
    r.cmd = " ".join(cmd)
    t0 = time.time()
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env.setdefault("RUST_MIN_STACK", str(400 << 20))
    env["RUSTUP_TOOLCHAIN"] = env.get("VX_VERUS_TOOLCHAIN", "")
    if not env["RUSTUP_TOOLCHAIN"]:
        env.pop("RUSTUP_TOOLCHAIN")
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env,
                           cwd=os.path.dirname(path) or ".")
    except subprocess.TimeoutExpired:
        r.wall = time.time() - t0
        r.rlimit.append({"message": f"verus timed out after {timeout}s", "line": 0, "rendered": ""})
        return r
    r.wall = time.time() - t0
    diags = []
    for ln in p.stderr.splitlines():
        ln = ln.strip()
        if ln.startswith("{"):
            try:
                diags.append(json.loads(ln))
            except ValueError:
                pass
    for d in diags:
        if d.get("level") not in ("error", "failure-note") and "error" not in str(d.get("level")):
            continue
        msg = d.get("message", "")
        if any(n in msg for n in NOTE):
            continue
        prim = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
        rec = {"message": msg, "line": prim[0]["line_start"] if prim else 0,
               "lines": [s["line_start"] for s in d.get("spans", [])],
               "text": (prim[0]["text"][0]["text"].strip() if prim and prim[0].get("text") else ""),
               "rendered": d.get("rendered", "")}
        low = msg.lower()
        if any(x in low for x in RLIMIT):
            r.rlimit.append(rec)
        elif d.get("code") is None and any(x in low for x in GENUINE):
            r.genuine.append(rec)
        else:
            r.structural.append(rec)
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
        vr = j["verification-results"]
        r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
        r.ok = bool(vr.get("success"))
        for mod in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                r.functions.append((f["function"], f["time-micros"] / 1000.0, f["success"], f.get("mode:", "")))
        if vr.get("encountered-vir-error") and not r.structural:
            r.structural.append({"message": "vir error", "line": 0, "rendered": p.stderr[-3000:]})
    except (ValueError, KeyError):
        if not r.structural:
            r.structural.append({"message": "verus produced no result", "line": 0,
                                 "rendered": (p.stderr or p.stdout)[-3000:]})
    if p.returncode != 0:
        r.ok = False
        if not (r.genuine or r.rlimit or r.structural):
            r.structural.append({"message": f"verus exit {p.returncode}", "line": 0, "rendered": p.stderr[-3000:]})
    return r
