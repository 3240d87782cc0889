#!/usr/bin/env python3
"""Driver of one property check.   usage: check.py <property-id> [--thorough]

1. `vx gen` extracts the functions of the property from /repo's current tree into Verus units.
2. Verus must accept every obligation (and must reject every reachability probe: vacuity guard).
3. The same code, compiled natively from /repo, is run against an executable form of the contract.
   That run cross-checks the assumed contracts, and supplies the failing input for a failed obligation.
4. If no proof can be attempted (lost anchor, unsupported construct, solver limit), step 3 is the
   labelled bounded stand-in for this run.
"""
import json, os, re, subprocess, sys, time, threading, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from config import PROPS  # noqa: E402

VX = os.path.join(BUILD, "vx-target/release/vx")

OBLIGATION = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
    "loop invariant not satisfied", "assertion failed", "possible arithmetic underflow/overflow",
    "possible division by zero", "decreases not satisfied", "could not prove termination",
    "possible bit shift underflow/overflow", "unreachable", "loop ensures not satisfied",
    "requires not satisfied", "recommendation not met", "constructed value may fail to meet its declared type invariant",
    "precondition of", "might panic", "index out of bounds", "cannot show", "may not terminate",
    "failed precondition", "unable to prove post-condition of closure", "unable to prove pre-condition of closure", "decreases clause", "split assertion failure", "split precondition failure",
    "split postcondition failure", "loop must have a decreases",
]
LIMIT = ["Resource limit (rlimit) exceeded", "timed out", "out of memory", "solver"]


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\nTIMEOUT"


def setup():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    link = os.path.join(BUILD, "repo")
    if not os.path.islink(link) or os.readlink(link) != REPO:
        if os.path.islink(link):
            os.unlink(link)
        os.symlink(REPO, link)
    if not os.path.exists(VX) or newest(os.path.join(HERE, "vx/src")) > os.path.getmtime(VX):
        rc, o, e = sh(["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(HERE, "vx/Cargo.toml")],
                      600, {"CARGO_TARGET_DIR": os.path.join(BUILD, "vx-target")})
        if rc != 0:
            print(e, file=sys.stderr)
            sys.exit(2)


def newest(d):
    return max(os.path.getmtime(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs)


# ------------------------------------------------------------------ verus

NATIVE_FAILED = threading.Event()


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.status = "?"       # proved | failed | undecided
        self.reason = ""
        self.failures = []      # {fn, msg, text, where}
        self.obligations = 0
        self.functions = []
        self.smt_ms = 0
        self.report = {}
        self.trusted = []
        self.probes = (0, 0)
        self.output = ""
        self.cmd = ""
        self.wall = 0.0
        self.fn_times = []


def src_regions(text):
    """[(first line, last line, "file path")] of extracted text"""
    res, cur = [], None
    for i, l in enumerate(text.split("\n"), 1):
        m = re.match(r"\s*// @src (\S+) (\S+) line (\d+)", l)
        if m:
            cur = (i, m.group(1), m.group(2), int(m.group(3)))
        elif l.strip() == "// @endsrc" and cur:
            res.append((cur[0], i, cur[1], cur[2], cur[3]))
            cur = None
    return res


def parse_errors(stderr, text, fname):
    """split rustc-style diagnostics"""
    blocks = re.split(r"\n(?=(?:error|warning|note)(?:\[|:))", "\n" + stderr)
    out = []
    regions = src_regions(text)
    lines = text.split("\n")
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n")[0]
        if head.startswith("error: aborting") or "could not compile" in head:
            continue
        m = re.search(r"--> \S+?:(\d+):\d+", b)
        ln = int(m.group(1)) if m else 0
        # line numbers mentioned in the listing belong to either the obligation or the exit
        nums = [ln] + [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", b, re.M)]
        fn = None
        for n in nums:
            for (a, z, f, p, l0) in regions:
                if a <= n <= z:
                    fn = (f, p, l0)
                    break
            if fn:
                break
        if fn is None and ln:
            # enclosing template fn
            for k in range(min(ln, len(lines)) - 1, -1, -1):
                mm = re.search(r"\bfn\s+(\w+)", lines[k])
                if mm:
                    fn = ("(unit)", mm.group(1), k + 1)
                    break
        kind = "other"
        if any(x in head for x in LIMIT):
            kind = "limit"
        elif any(x in head for x in OBLIGATION):
            kind = "obligation"
        clause = ""
        mm = re.search(r"^\s*(\d+)\s*\|\s*(.*)$", b, re.M)
        if mm:
            clause = mm.group(2).strip()
        out.append({"head": head, "kind": kind, "fn": fn, "clause": clause, "block": b})
    return out


def run_verus(path, extra, timeout):
    cmd = ["verus", path, "--edition", "2024", "--triggers-mode", "silent", "--output-json", "--time-expanded"] + extra
    t = time.time()
    rc, o, e = sh(cmd, timeout, cwd=os.path.dirname(path))
    try:
        j = json.loads(o)
    except Exception:
        j = None
    return rc, j, e, time.time() - t, " ".join(cmd)


def gen(unit, probes):
    src = os.path.join(HERE, "units", unit, "unit.rs")
    d = os.path.join(BUILD, "verus", unit)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, ("probe_" if probes else "") + unit + ".rs")
    rep = out + ".json"
    cmd = [VX, "gen", src, "-o", out, "--report", rep, "--repo", REPO, "--spinoff"] + (["--probes"] if probes else [])
    rc, o, e = sh(cmd, 120)
    if rc != 0:
        return None, e.strip(), None
    return out, "", json.load(open(rep))


TRUST_RE = re.compile(r"(external_body|assume_specification|admit\(\)|assume\(|external_type_specification|uninterp|axiom fn|external_trait_specification|verifier::external\b)")


def scan_trusted(text):
    lines = text.split("\n")
    res = []
    for i, l in enumerate(lines):
        code = l.split("//")[0]
        if i and lines[i - 1].strip().startswith("// @src ") and "external_body" in l:
            continue    # contract proved in another unit of the same check (//@trust)
        if TRUST_RE.search(code):
            kind = TRUST_RE.search(code).group(1)
            what = code.strip()
            if kind in ("external_body", "external_type_specification", "external_trait_specification", "verifier::external"):
                for k in range(i, min(i + 8, len(lines))):
                    m = re.search(r"(fn|struct|trait|enum)\s+(\w+)", lines[k].split("//")[0])
                    if m:
                        what = m.group(1) + " " + m.group(2)
                        break
            elif kind == "assume_specification":
                m = re.search(r"\[\s*(.+?)\s*\]\s*\(", code)
                what = m.group(1) if m else code.strip()[:80]
            elif kind == "uninterp":
                m = re.search(r"fn\s+(\w+)", code)
                what = m.group(1) if m else what
                if what == "vx_probe":
                    continue
            res.append(f"{kind.rstrip('(')}: {what[:90]}")
    return res


def verify_unit(unit, tier, rlimit, seed):
    r = UnitResult(unit)
    t0 = time.time()
    out, err, rep = gen(unit, False)
    if out is None:
        r.status, r.reason = "undecided", "extraction: " + err
        return r
    r.report = rep
    text = open(out).read()
    r.trusted = scan_trusted(text)
    pout, perr, prep = gen(unit, True)
    logd = os.path.join(BUILD, "verus", unit, "log")
    shutil.rmtree(logd, ignore_errors=True)
    probe = {}

    def probes():
        if pout:
            probe["r"] = run_verus(pout, ["--multiple-errors", "60", "--rlimit", "5"], 400)
    th = threading.Thread(target=probes)
    th.start()
    rc, j, e, wall, cmd = run_verus(out, ["--rlimit", str(rlimit), "--multiple-errors", "4", "--log", "smt", "--log-dir", logd], 500)
    r.cmd, r.output = cmd, e
    errs = parse_errors(e, text, out) if rc != 0 else []
    ok = rc == 0 and j and j["verification-results"]["errors"] == 0 and j["verification-results"]["verified"] > 0
    if not ok and errs and all(x["kind"] in ("obligation", "limit") for x in errs):
        # a proof that only fails for some solver seeds is not a failed obligation
        for s in (7, 23):
            if NATIVE_FAILED.is_set():
                break       # a failing input is known
            rc2, j2, e2, w2, cmd2 = run_verus(out, ["--rlimit", str(rlimit * 3), "--multiple-errors", "4",
                                                    "--smt-option", f"smt.random_seed={s}"], 300)
            if rc2 == 0 and j2 and j2["verification-results"]["errors"] == 0:
                ok, j, e, cmd = True, j2, e2, cmd2
                break
            errs2 = parse_errors(e2, text, out)
            if errs2 and all(x["kind"] in ("obligation", "limit") for x in errs2):
                keys = {(x["fn"], x["clause"]) for x in errs2 if x["kind"] == "obligation"}
                inter = [x for x in errs if x["kind"] == "obligation" and (x["fn"], x["clause"]) in keys]
                if inter:
                    errs = inter
    th.join()
    labels = 0
    for root, _, fs in os.walk(logd):
        for f in fs:
            if f.endswith(".smt2"):
                labels += len(re.findall(r"^ +\(declare-const %%\w*location_label%%\d+", open(os.path.join(root, f)).read(), re.M))
    shutil.rmtree(logd, ignore_errors=True)
    r.obligations = labels
    if j:
        try:
            for m in j["times-ms"]["smt"]["smt-run-module-times"]:
                for f in m.get("function-breakdown", []):
                    r.fn_times.append((f["function"], f["mode:"], f["time-micros"] / 1000.0, f["success"]))
            r.smt_ms = j["times-ms"]["smt"]["smt-run"]
        except Exception:
            pass
    if ok:
        r.status = "proved"
        # vacuity guard
        n = prep["probes"] if prep else 0
        bad = []
        if n and "r" in probe:
            prc, pj, pe, _, _ = probe["r"]
            hit = set()
            ptext = open(pout).read().split("\n")
            for ln in re.findall(r"--> \S+?:(\d+):\d+", pe):
                m = re.search(r"@PROBE (\d+) ", ptext[int(ln) - 1]) if int(ln) <= len(ptext) else None
                if m:
                    hit.add(int(m.group(1)))
            # a function whose probes were not refuted within the limit is not vacuous either
            regs = src_regions("\n".join(ptext))
            for b in re.split(r"\n(?=error)", "\n" + pe):
                if "rlimit" not in b.split("\n")[0] + b.split("\n")[min(1, b.count("\n"))]:
                    continue
                for ln in re.findall(r"--> \S+?:(\d+):\d+", b):
                    for (a, z, *_r) in regs:
                        if a <= int(ln) <= z:
                            hit |= {int(m.group(1)) for m in re.finditer(r"@PROBE (\d+) ", "\n".join(ptext[a - 1:z]))}
            bad = [k for k in range(n) if k not in hit]
            r.probes = (n, len(hit))
        if not n:
            r.status, r.reason = "undecided", "no obligations generated for any extracted function"
        elif bad:
            names = [re.search(r"@PROBE %d (\S+?)@" % k, "\n".join(ptext)) for k in bad]
            r.status, r.reason = "undecided", "vacuity guard: probes not reachable: " + ", ".join(
                f"{k}:{m.group(1) if m else '?'}" for k, m in zip(bad, names))
    elif errs and any(x["kind"] == "other" for x in errs) or not errs:
        r.status = "undecided"
        r.reason = "not accepted by the verifier front end: " + (errs[0]["head"] + " " + errs[0]["clause"] if errs else e[-400:])
    else:
        r.failures = [x for x in errs if x["kind"] == "obligation"]
        if r.failures:
            r.status = "failed"
            r.reason = "; ".join(sorted({f"{x['fn'][1] if x['fn'] else '?'}: {x['head'][7:]} [{x['clause'][:100]}]" for x in r.failures}))
        else:
            r.status, r.reason = "undecided", "solver limit: " + "; ".join(x["head"] for x in errs)
    r.wall = time.time() - t0
    return r


# ------------------------------------------------------------------ native

def native_gen(p):
    for (tmpl, out) in p.get("native_gen", []):
        o = os.path.join(BUILD, "gen", out)
        tmp = o + ".new"
        rc, _, e = sh([VX, "gen", os.path.join(HERE, "native/templates", tmpl), "-o", tmp, "--repo", REPO], 60)
        if rc != 0:
            return f"extraction for the native run failed: {e.strip()}"
        if not os.path.exists(o) or open(o).read() != open(tmp).read():
            os.replace(tmp, o)
        else:
            os.unlink(tmp)
    return ""


def native_build(bin_):
    crate = next(c for c in ("native", "native_syn") if os.path.exists(os.path.join(HERE, c, "src/bin", bin_ + ".rs")))
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, crate, "Cargo.toml"), "--bin", bin_],
                  800, {"CARGO_TARGET_DIR": os.path.join(BUILD, "target"), "RUSTFLAGS": "-Awarnings"})
    return "" if rc == 0 else "native build failed:\n" + e[-3000:]


def native_run(p, secs, seed, tier):
    """-> dict | error string"""
    bin_, args = p["native"]
    args = list(args)
    exe = os.path.join(BUILD, "target/debug", bin_)
    for k in known_findings(p["id"]):
        args = args + ["--known", k[0]]
    cmd = [exe] + args + ["--seed", str(seed), "--secs", str(secs)] + (["--thorough"] if tier == "thorough" else [])
    rc, o, e = sh(cmd, secs * 3 + 60)
    line = o.strip().split("\n")[-1] if o.strip() else ""
    try:
        j = json.loads(line)
        j["cmd"] = " ".join(cmd)
        return j
    except Exception:
        # crashed (abort, stack overflow, ...): find the case
        rc2, o2, e2 = sh(cmd + ["--trace"], secs * 3 + 60)
        last = [l for l in e2.split("\n") if l.startswith("CASE ")]
        if last and rc2 != 0:
            return {"evaluations": len(last), "distinct_nontrivial": len(last), "samples": [], "exhaustive": [], "cmd": " ".join(cmd),
                    "fails": [{"input": last[-1][5:], "kind": "crash", "what": f"process ended with {rc2}: {e2[-300:]}"}]}
        return f"native run gave no result (rc {rc}): {e[-500:]}"


def known_findings(pid):
    res = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) input=(\S+) (.*)$", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


# ------------------------------------------------------------------ main

def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = dict(PROPS[pid], id=pid)
    t0 = time.time()
    setup()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    nat = {}

    def native_prepare():
        if p.get("native"):
            nat["err"] = native_gen(p) or native_build(p["native"][0])
            if not nat["err"]:
                nat["res"] = native_run(p, p.get("thorough_secs", 240) if tier == "thorough" else p.get("secs", 12), seed, tier)
                if isinstance(nat["res"], dict) and nat["res"]["fails"]:
                    NATIVE_FAILED.set()
    th = threading.Thread(target=native_prepare)
    th.start()
    units = []
    rlimit = p.get("rlimit", 40) * (4 if tier == "thorough" else 1)
    results = {}

    def vu(u):
        results[u] = verify_unit(u, tier, rlimit, seed)
    ths = [threading.Thread(target=vu, args=(u,)) for u in p["units"]]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    units = [results[u] for u in p["units"]]
    th.join()

    # only failures in functions this property depends on count for it
    rel = [re.compile(x) for x in p.get("fns", [".*"])]

    def relevant(x):
        return x["fn"] is None or x["fn"][0] == "(unit)" or any(q.fullmatch(x["fn"][1]) for q in rel)
    failures = []
    undecided = []
    for u in units:
        if u.status == "failed":
            f = [x for x in u.failures if relevant(x)]
            if f:
                failures += [(u, x) for x in f]
            else:
                u.status = "proved"
                u.reason = "failures outside the functions of this property: " + u.reason
        elif u.status == "undecided":
            undecided.append(u)

    suspicious = bool(failures or undecided)
    nres = None
    if p.get("native"):
        if nat.get("err"):
            nres = nat["err"]
        else:
            nres = nat["res"]
            if suspicious and not NATIVE_FAILED.is_set() and isinstance(nres, dict) and tier != "thorough":
                # look longer for a failing input
                more = native_run(p, p.get("search_secs", 60), seed + 1000, tier)
                if isinstance(more, dict):
                    more["evaluations"] += nres["evaluations"]
                    more["distinct_nontrivial"] += nres["distinct_nontrivial"]
                    nres = more

    kf = known_findings(pid)
    fails = nres["fails"] if isinstance(nres, dict) else []
    new_fails = []
    for f in fails:
        hit = [k for k in kf if k[0] == f["input"]]
        if not hit:
            new_fails.append(f)
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k[0]} {k[1]}")

    # ---------------------------------------------------- verdict
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    violation = None
    if new_fails:
        rp = os.path.join(rdir, f"{pid}.json")
        json.dump({"property": pid, "failing_inputs": new_fails,
                   "replay_cmd": f"{nres['cmd']} --only {json.dumps(new_fails[0]['input'])}",
                   "failed_obligations": [x["block"] for _, x in failures],
                   "note": "the input was run on the code compiled from /repo's working tree"},
                  open(rp, "w"), indent=1, ensure_ascii=False)
        violation = f"VIOLATION property={pid} replay={rp}"
        print(f"failing input: {new_fails[0]['input'][:300]} -> {new_fails[0]['kind']}: {new_fails[0]['what'][:400]}")
        for _, x in failures[:5]:
            print(f"failed obligation: {x['fn']}: {x['head']} [{x['clause'][:120]}]")
    elif failures:
        rp = os.path.join(rdir, f"{pid}.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}: obligations not discharged (they are on the unchanged tree)\n\n")
            for u, x in failures:
                f.write(f"--- {u.name}: {x['fn']}: {x['head']}\n{x['block']}\n\n")
            f.write("\nverifier command: " + failures[0][0].cmd + "\n\n" + failures[0][0].output[:20000])
        for _, x in failures[:5]:
            print(f"failed obligation: {x['fn']}: {x['head']} [{x['clause'][:120]}]")
        violation = f"VIOLATION property={pid} replay={rp} no-failing-input-found"

    # ---------------------------------------------------- evidence
    ev = {"property": pid, "tier": tier, "seed": seed, "wall_s": round(time.time() - t0, 2),
          "violations": len(new_fails) if new_fails else len(failures)}
    proved = not undecided and not failures
    fns_contract = sorted({f"{f['file']}::{f['path']} (line {f['line']})" for u in units for f in u.report.get("functions", []) if f["contract"] and not f.get("proved_in")})
    trusted = sorted({t for u in units for t in u.trusted})
    rewrites = {}
    for u in units:
        for k, v in u.report.get("rewrites", {}).items():
            rewrites[k] = rewrites.get(k, 0) + v
    ncov = {}
    if isinstance(nres, dict):
        ncov = {"evaluations": nres["evaluations"], "distinct_nontrivial": nres["distinct_nontrivial"],
                "rule": p.get("rule", "cases enumerated exhaustively up to the stated sizes, then drawn at random from VERIF_SEED; distinct inputs are counted by hash"),
                "samples": nres["samples"], "exhaustive_parts": nres["exhaustive"]}
    elif nres:
        ncov = {"native_unavailable": nres[:500]}
    stand_in = ""
    if proved:
        ev["level"] = p.get("level", "proof")
        n_ob = sum(u.obligations for u in units)
        ev["coverage"] = {
            "obligations": n_ob, "discharged": n_ob,
            "checker_cmd": " && ".join(u.cmd for u in units),
            "trusted_base": trusted,
            "back_end": "Verus 0.2026.09.13 with its bundled Z3",
            "functions_under_contract": fns_contract,
            "verified_items": sum(len(u.fn_times) for u in units),
            "solver_ms": sum(u.smt_ms for u in units),
            "vacuity_probes": {u.name: f"{u.probes[1]} of {u.probes[0]} reachable" for u in units},
            "extraction_rewrites": rewrites,
            "inlined_helpers": [x for u in units for x in u.report.get("inlined", [])],
            "native_cross_check": ncov,
        }
        if p.get("bounded"):
            ev["coverage"]["bounded_stand_ins"] = p["bounded"]
    else:
        ev["level"] = "exploration"
        stand_in = "; ".join(f"{u.name}: {u.reason}" for u in undecided)
        ev["coverage"] = {
            "evaluations": ncov.get("evaluations", 0), "distinct_nontrivial": ncov.get("distinct_nontrivial", 0),
            "rule": "BOUNDED STAND-IN, not a proof: " + ncov.get("rule", "nothing could be run"), "samples": ncov.get("samples", []) or ["-"],
            "exhaustive_parts": ncov.get("exhaustive_parts", []),
            "explanation": ("no proof this run: " + stand_in) if stand_in else "obligations failed: " + "; ".join(u.reason for u in units if u.status == "failed"),
            "obligations_failed": [f"{x['fn']}: {x['head']}" for _, x in failures],
        }
        if "native_unavailable" in ncov:
            ev["coverage"]["native_unavailable"] = ncov["native_unavailable"]
    ev["assumptions"] = p.get("assumptions", []) + [f"assumed contract: {t}" for t in trusted]
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, ensure_ascii=False)

    for u in units:
        print(f"unit {u.name}: {u.status} obligations={u.obligations} smt={u.smt_ms}ms probes={u.probes[1]}/{u.probes[0]} {u.reason[:600]}")
    if isinstance(nres, dict):
        print(f"native: {nres['evaluations']} evaluations, {nres['distinct_nontrivial']} distinct, {len(fails)} failing")
    elif nres:
        print("native: " + nres[:1500])
    if violation:
        print(violation)
        sys.exit(1)
    if undecided and not isinstance(nres, dict):
        print("undecided: neither a proof nor a bounded run was possible on this tree", file=sys.stderr)
        sys.exit(2)
    if undecided:
        print("NOTE: no proof this run (" + stand_in[:300] + "); the property held on the bounded stand-in run")
    sys.exit(0)


if __name__ == "__main__":
    main()
