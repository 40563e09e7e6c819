#!/usr/bin/env python3
"""Decides one property on /repo's working tree.

check.py PROP [--tier quick|thorough]

1. The macro-free source of the crate is printed by rustc.
2. For every unit of the property, vx extracts the functions, weaves the
   contracts in, and Verus checks every obligation. A second run with
   `assert(false)` at the start of every function has to fail everywhere.
3. The witness search runs the real crate against the oracle of the property.
"""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import resource
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(V, "target")
ENV = dict(os.environ, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true")


def sh(cmd, timeout=None, **kw):
    env = dict(ENV, **kw.pop("env", {}))
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env, **kw)


def memlimit():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))


def build(what):
    """Builds vx or the witness search (nothing to do when fresh)."""
    d = os.path.join(V, what)
    lock = open(os.path.join(V, "work", f".lock-{what}"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=d, env={"CARGO_TARGET_DIR": TGT, "RUSTFLAGS": "-Awarnings"})
    return r


def expand(out):
    """The source of the crate after macro expansion."""
    t0 = time.time()
    lock = open(os.path.join(V, "work", ".lock-expand"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    r = sh(
        ["cargo", "rustc", "--offline", "--lib", "--all-features", "-q", "--", "-Zunpretty=expanded"],
        cwd=REPO,
        env={"RUSTC_BOOTSTRAP": "1", "CARGO_TARGET_DIR": os.path.join(TGT, "expand")},
    )
    if r.returncode != 0 or "fn " not in r.stdout:
        return None, r.stderr[-3000:], time.time() - t0
    with open(out, "w") as f:
        f.write(r.stdout)
    return out, "", time.time() - t0


LINE = re.compile(r"^\s*(?:-->|:::) (\S+?):(\d+):(\d+)")
GUT = re.compile(r"^\s*(\d+)\s*[|\\/]")
PROOF_ERRORS = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion fail",
    "invariant not satisfied", "possible arithmetic", "possible division", "decreases not satisfied",
    "loop ensures", "could not prove termination", "possible bit shift", "unable to prove", "requirement not satisfied",
    "cannot show", "constructed value may fail", "failed to prove", "possible overflow",
)


def parse_errors(text, src):
    """Errors of Verus: message, function, clause, tags."""
    lines = src.split("\n")
    fn_at, cur = {}, None
    for i, l in enumerate(lines, 1):
        m = re.match(r"\s*// @fn (.*)", l)
        if m:
            cur = m.group(1).strip()
        elif l.strip() == "// @end" or l.startswith("// ---- "):
            cur = None
        fn_at[i] = cur
    blocks = re.split(r"\n(?=(?:error|warning|note)(?:\[|:))", "\n" + text)
    out = []
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n")[0]
        msg = re.sub(r"^error(\[\w+\])?: ?", "", head)
        if msg.startswith("aborting due to") or msg.startswith("could not compile"):
            continue
        prim, nums = None, []
        for l in b.split("\n"):
            m = LINE.match(l)
            if m and prim is None:
                prim = int(m.group(2))
            m = GUT.match(l)
            if m:
                nums.append(int(m.group(1)))
        clause = next((n for n in nums if n <= len(lines) and "//@ " in lines[n - 1]), None)
        tags = []
        ctext = ""
        if clause:
            c = lines[clause - 1].split("//@ ", 1)
            ctext = c[0].strip()
            m = re.search(r"\[([^\]]*)\]\s*$", c[1])
            tags = m.group(1).split() if m else []
        fns = [fn_at.get(n) for n in ([prim] if prim else []) + nums]
        # the failing function: the one with the exit or the call
        fn = next((f for f in fns if f), None)
        if clause and "precondition" in msg:
            fn = next((fn_at.get(n) for n in nums if n != clause and fn_at.get(n)), fn)
        if "rlimit" in b.lower() or "resource limit" in b.lower():
            kind = "limit"
        elif any(p in msg.lower() for p in PROOF_ERRORS):
            kind = "proof"
        else:
            kind = "front"
        out.append({"msg": msg, "line": prim, "fn": fn, "clause": ctext, "tags": tags, "kind": kind, "text": b[:1500]})
    return out


def verus(path, timeout):
    t0 = time.time()
    try:
        r = sh(["verus", os.path.basename(path), "--output-json", "--time", "--multiple-errors", "6", "--num-threads", "4"], timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"timeout": True, "errors": [], "wall": time.time() - t0, "verified": 0, "failed": 0, "smt_ms": 0, "stderr": ""}
    src = open(path).read()
    errs = parse_errors(r.stderr, src)
    d = {}
    try:
        d = json.loads(r.stdout)
    except ValueError:
        pass
    vr = d.get("verification-results", {})
    smt = d.get("times-ms", {}).get("smt", {}).get("smt-run", 0) if d else 0
    if not vr or vr.get("encountered-vir-error"):
        for e in errs:
            if e["kind"] == "proof" and not vr:
                e["kind"] = "front"
        if not errs and not vr.get("success"):
            errs = [{"msg": "verifier gave no result", "line": None, "fn": None, "clause": "", "tags": [], "kind": "front", "text": (r.stderr or r.stdout)[-1500:]}]
    return {
        "timeout": False, "errors": errs, "wall": time.time() - t0, "verified": vr.get("verified", 0),
        "failed": vr.get("errors", 0), "smt_ms": smt, "stderr": r.stderr, "success": bool(vr.get("success")),
    }


def vx(exp, unit, out, keep, canary=False, assume=()):
    cmd = [os.path.join(TGT, "release", "vx"), exp, os.path.join(V, "spec", unit + ".unit"), out]
    if keep:
        cmd += ["--tags", ",".join(keep)]
    if canary:
        cmd.append("--canary")
    if assume:
        cmd += ["--assume", ";".join(assume)]
    r = sh(cmd)
    if r.returncode != 0:
        return None, (r.stderr + r.stdout)[-2000:]
    return json.load(open(out + ".json")), ""


def run_unit(exp, unit, keep, wd, timeout, with_canary=True):
    """Weaves and verifies one unit, leaving out what cannot be read."""
    out = os.path.join(wd, unit + ".rs")
    assume, undecided = [], {}
    res, rep = None, None
    for _ in range(6):
        rep, err = vx(exp, unit, out, keep, assume=assume)
        if rep is None:
            return {"unit": unit, "undecided": {"*": err}, "errors": [], "verified": 0, "failed": 0, "smt_ms": 0, "wall": 0, "fns": [], "canary": None}
        for f in rep:
            if f["undecided"] and not f["extern"]:
                undecided.setdefault(f["fn"], f["undecided"])
        res = verus(out, timeout)
        front = [e for e in res["errors"] if e["kind"] == "front"]
        if not front:
            break
        bad = {e["fn"] for e in front if e["fn"] and e["fn"] not in assume}
        known = {f["fn"] for f in rep if not f["extern"]}
        bad &= known
        if not bad:
            undecided["*"] = front[0]["text"]
            return {"unit": unit, "undecided": undecided, "errors": [], "verified": 0, "failed": 0, "smt_ms": 0, "wall": res["wall"], "fns": rep, "canary": None}
        for e in front:
            if e["fn"] in bad:
                undecided[e["fn"]] = e["text"].split("\n")[0]
        assume += sorted(bad)
    if res["timeout"]:
        undecided["*"] = f"no answer within {timeout} s"
    for e in res["errors"]:
        if e["kind"] == "limit":
            undecided[e["fn"] or "*"] = e["msg"]
    # a proof with a lost hint: accepted or undecided
    soft = {f["fn"]: f["soft"] for f in rep if f.get("soft") and not f["extern"] and not f["undecided"]}
    for e in res["errors"]:
        if e["kind"] == "proof" and e["fn"] in soft:
            undecided[e["fn"]] = soft[e["fn"]]
    errors = [e for e in res["errors"] if e["kind"] == "proof" and e["fn"] not in soft]
    canary = None
    if with_canary and not res["timeout"]:
        cout = os.path.join(wd, unit + "_canary.rs")
        crep, _ = vx(exp, unit, cout, keep, canary=True, assume=assume)
        if crep is not None:
            c = verus(cout, timeout)
            csrc = open(cout).read().split("\n")
            hit = {e["fn"] for e in c["errors"] if e["line"] and "//@ canary" in csrc[e["line"] - 1]}
            want = {f["fn"] for f in crep if not f["extern"] and not f["undecided"] and f["fn"] not in assume}
            canary = {"functions": len(want), "reachable": len(want & hit), "missing": sorted(want - hit), "wall_s": round(c["wall"], 1)}
    return {
        "unit": unit, "undecided": undecided, "errors": errors, "verified": res["verified"], "failed": res["failed"],
        "smt_ms": res["smt_ms"], "wall": res["wall"], "fns": rep, "canary": canary, "stderr": res["stderr"], "file": out,
    }


def trusted(path):
    """Every assumption in the verified text, mechanically."""
    t = []
    if not os.path.exists(path):
        return t
    ls = open(path).read().split("\n")
    for i, l in enumerate(ls):
        s = l.strip()
        if s.startswith("#[verifier::external_body]") or s.startswith("pub assume_specification") or re.search(r"\b(assume|admit)\s*\(", s) or "uninterp spec fn" in s or "#[verifier::external" in s and "external_body" not in s:
            if "assume_specification" in s or "uninterp" in s or "assume(" in s or "admit(" in s:
                d = s
            else:
                d = next((x.strip() for x in ls[i + 1:i + 4] if re.search(r"\b(fn|struct|enum|type)\b", x)), s)
            t.append(re.sub(r"\s+", " ", d)[:110])
    return t


def known_findings(pid):
    res = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.rstrip("\n")
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = json.load(open(os.path.join(V, "spec", "props.json")))[pid]
    wd = os.path.join(V, "work", pid)
    os.makedirs(wd, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    thorough = tier == "thorough"
    secs = cfg.get("secs_thorough", 240) if thorough else cfg.get("secs", 20)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "assumptions": list(cfg.get("assumptions", [])), "violations": 0}
    replay = os.path.join(rdir, f"{pid}.json")
    if os.path.exists(replay):
        os.remove(replay)

    def wit(seed=seed, secs=secs):
        """The bounded search on the real crate."""
        if not cfg.get("witness", True):
            return None
        r = build("witness")
        if r.returncode != 0:
            return {"error": "the crate or the search does not build: " + r.stderr[-1500:]}
        kf = os.path.join(wd, "known.tsv")
        with open(kf, "w") as f:
            for case, _ in known_findings(pid):
                f.write(f"{pid}\t{bytes.fromhex(case).decode()}\n")
        w = os.path.join(TGT, "release", "witness")
        tr = os.path.join(wd, "trace")
        env = {"WITNESS_KNOWN": kf}
        try:
            r = sh([w, "run", pid, str(seed), str(secs), "8", replay], env=env, timeout=secs * 2 + 120, preexec_fn=memlimit)
        except subprocess.TimeoutExpired:
            return {"error": "the search does not end"}
        if r.returncode not in (0, 1):
            # killed (stack overflow, abort): run again, recording every case
            r2 = sh([w, "run", pid, str(seed), str(secs), "1", replay], env=dict(env, WITNESS_TRACE=tr), timeout=secs * 2 + 120, preexec_fn=memlimit)
            if r2.returncode not in (0, 1):
                case = open(tr + ".0").read() if os.path.exists(tr + ".0") else ""
                json.dump({"property": pid, "case": case, "why": f"the process ends with {r2.returncode}"}, open(replay, "w"))
                return {"failed": True, "evaluations": 1, "why": f"the process ends with {r2.returncode}"}
            r = r2
        try:
            d = json.loads(r.stdout.strip().split("\n")[-1])
        except (ValueError, IndexError):
            return {"error": "no result: " + r.stderr[-500:]}
        d["failed"] = r.returncode == 1
        return d

    def conform():
        """Bounded test of what the proofs assume about std and ritelinked."""
        n = 200000 if thorough else 10000
        try:
            r = sh([os.path.join(TGT, "release", "witness"), "conform", str(seed), str(n)], timeout=300)
        except (OSError, subprocess.TimeoutExpired) as e:
            return {"error": str(e)[:200]}
        if r.returncode != 0:
            return {"error": r.stdout[-500:] + r.stderr[-200:]}
        return {"cases": n, "comparisons": int(r.stdout)}

    def proofs():
        if not cfg.get("units"):
            return [], 0, None
        r = build("vx")
        if r.returncode != 0:
            return [], 0, "vx does not build: " + r.stderr[-1500:]
        exp, err, te = expand(os.path.join(wd, "expanded.rs"))
        if exp is None:
            return [], te, "the crate does not build: " + err
        keep = cfg.get("keep", [])
        tmo = 1500 if thorough else cfg.get("timeout", 420)
        with cf.ThreadPoolExecutor(4) as ex:
            us = list(ex.map(lambda u: run_unit(exp, u, keep, wd, tmo), cfg["units"]))
        return us, te, None

    os.makedirs(os.path.join(V, "work"), exist_ok=True)
    units, texp, perr = proofs()
    w = wit()

    viol = []
    undecided = []
    if perr:
        undecided.append(perr)
    obligations = discharged = clauses = 0
    fns, trust, smt = [], [], 0
    failed = []
    for u in units:
        obligations += u["verified"] + u["failed"]
        discharged += u["verified"]
        smt += u["smt_ms"]
        for f, why in u["undecided"].items():
            undecided.append(f"{u['unit']}: {f}: {why}")
        for f in u["fns"]:
            if not f["extern"] and not f["undecided"]:
                fns.append(f["fn"])
                clauses += f["requires"] + f["ensures"]
        if u.get("file"):
            trust += trusted(u["file"])
        for e in u["errors"]:
            # a clause of another property is decided by that property's check
            # (C17 rests on the contracts of both sides)
            if e["tags"] and not set(e["tags"]) & {pid, *cfg.get("relies", [])}:
                continue
            failed.append((u, e))
        c = u.get("canary")
        if c and c["missing"]:
            undecided.append(f"{u['unit']}: the contract may be vacuous: {c['missing']}")
    if w and w.get("error"):
        undecided.append("search: " + w["error"])
    if w and failed and not w.get("failed") and not w.get("error"):
        # an obligation fails and no input is known: search longer
        w2 = wit(seed + 7919, 100)
        if w2 and not w2.get("error"):
            w2["evaluations"] = w2.get("evaluations", 0) + w.get("evaluations", 0)
            w = w2
    known = dict(known_findings(pid))
    if w:
        for c in w.get("known_hit", []):
            h = c.encode().hex()
            print(f"KNOWN-FINDING: property={pid} {known.get(h, c)}")
    for u, e in failed:
        print(f"failed obligation: {e['fn']}: {e['msg']}: {e['clause']}")
    if w and w.get("failed"):
        try:
            d = json.load(open(replay))
            d["failed_obligations"] = [{"unit": u["unit"], "function": e["fn"], "obligation": e["msg"], "clause": e["clause"]} for u, e in failed]
            json.dump(d, open(replay, "w"), indent=1)
        except (OSError, ValueError):
            pass
        viol.append(f"VIOLATION property={pid} replay={replay}")
    elif failed:
        json.dump({
            "property": pid,
            "failed_obligations": [
                {"unit": u["unit"], "function": e["fn"], "obligation": e["msg"], "clause": e["clause"], "verifier_output": e["text"]} for u, e in failed
            ],
            "search": "no failing input found" if w else "no search",
        }, open(replay, "w"), indent=1)
        viol.append(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "verus <unit>.rs --output-json --time --multiple-errors 6 (z3 back end)",
        "trusted_base": sorted(set(trust)),
        "written_clauses": clauses,
        "functions_under_contract": sorted(set(fns)),
        "units": [
            {"unit": u["unit"], "verified": u["verified"], "failed": u["failed"], "smt_ms": u["smt_ms"], "wall_s": round(u["wall"], 1), "canary": u.get("canary"),
             "inlined": sorted({i for f in u["fns"] for i in f["inlined"]}), "assumed_from_other_units": [f["fn"] for f in u["fns"] if f["extern"]]}
            for u in units
        ],
        "solver_ms": smt,
        "expansion_s": round(texp, 1),
        "undecided": undecided,
    }
    if w:
        cov["evaluations"] = w.get("evaluations", 0)
        cov["distinct_nontrivial"] = w.get("distinct_nontrivial", 0)
        cov["rule"] = "bounded search on the real crate (never counted as proved): " + w.get("rule", "")
        cov["samples"] = w.get("samples", [])
        cov["enumerated"] = w.get("enumerated", 0)
        if not w.get("error"):
            c = cov["assumptions_tested"] = conform()
            if "error" in c:
                undecided.append("an assumed contract of std is not met: " + c["error"])
    for k in ("explanation", "bounded"):
        if k in cfg:
            cov[k] = cfg[k]
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 1)
    ev["violations"] = len(viol)
    json.dump(ev, open(os.path.join(V, "evidence", f"{pid}.json"), "w"), indent=1)
    for x in undecided:
        print("UNDECIDED:", x.split("\n")[0][:300])
    print(f"{pid}: {discharged}/{obligations} obligations discharged, {len(set(fns))} functions, {smt} ms of solver time; search: {w.get('evaluations', 0) if w else 0} cases; {ev['wall_s']} s")
    if viol:
        print(viol[0])
        sys.exit(1)
    if (perr and perr.startswith("the crate")) or (w and "does not build" in w.get("error", "")):
        sys.exit(2)


main()
