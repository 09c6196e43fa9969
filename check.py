#!/usr/bin/env python3
"""check.py PROP: decides one property of html5-fuser for /repo's working tree.

1. The functions of /repo/src are extracted mechanically with their contracts (specs/) and
   verified by Verus, every run.
2. The finder runs the library on generated inputs: it replays failed obligations as concrete
   inputs and stands in (bounded) where no contract reaches.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line otherwise.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import literals
import props

REPO = "/repo"
BUILD = os.path.join(HERE, "build")
T0 = time.time()

def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", **kw)
    return e

def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace")

# ------------------------------------------------------------------ building

def build_tools():
    r = run(["cargo", "+nightly", "build", "--release", "--offline"], 600, cwd=os.path.join(HERE, "driver"), env=env(CARGO_TARGET_DIR=os.path.join(BUILD, "driver")))
    r2 = run(["cargo", "build", "--release", "--offline"], 600, cwd=os.path.join(HERE, "extract"), env=env(CARGO_TARGET_DIR=os.path.join(BUILD, "extract")))
    return r[0] == 0 and r2[0] == 0, (r[2] + r2[2])[-2000:]

def build_finder():
    tgt = os.path.join(BUILD, "finder")
    # the path dependency is always recompiled from the working tree
    for d in glob.glob(os.path.join(tgt, "release", ".fingerprint", "html5-fuser-*")):
        shutil.rmtree(d, ignore_errors=True)
    r = run(["cargo", "build", "--release", "--offline"], 600, cwd=os.path.join(HERE, "finder"), env=env(CARGO_TARGET_DIR=tgt))
    return (os.path.join(tgt, "release", "finder") if r[0] == 0 else None), r[2][-2000:]

# ------------------------------------------------------------------ proof

VERIFICATION = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
    "assertion failed", "possible arithmetic underflow/overflow", "possible division by zero",
    "decreases not satisfied", "possible bit shift", "loop ensures not satisfied",
    "unreached", "cannot show", "constructed value may fail", "recommendation not met",
    "failed to satisfy", "not satisfied",
]
LIMIT = ["Resource limit", "rlimit", "timed out", "canceled"]

class Proof:
    def __init__(self):
        self.ok = False            # the verifier ran and gave an answer
        self.note = ""
        self.verified = 0
        self.errors = 0
        self.failed = {}           # key -> [message]
        self.undecided = {}        # key -> reason
        self.functions = []
        self.lemmas = []
        self.report = {}
        self.smt_ms = 0
        self.total_ms = 0
        self.rounds = 0
        self.raw = ""
        self.canary = False
        self.times = {}
        self.assumed = []          # functions whose contract the specification assumes

def typedump(work):
    out = os.path.join(work, "types.jsonl")
    rc, sysroot, _ = run(["rustc", "+nightly", "--print", "sysroot"], 60)
    tgt = os.path.join(work, "td")
    e = env(TYPEDUMP_OUT=out, LD_LIBRARY_PATH=sysroot.strip() + "/lib", RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, "driver", "release", "typedump"), CARGO_TARGET_DIR=tgt)
    r = run(["cargo", "+nightly", "check", "--lib", "--offline"], 300, cwd=REPO, env=e)
    return (out if r[0] == 0 and os.path.exists(out) else None), r[2][-2000:]

CANARY = "\npub mod canary { use vstd::prelude::*; verus!{ pub proof fn canary() { %s assert(false); } } }\n"

def judge(se, report):
    """the verifier's diagnostics, by function"""
    lines = report["lines"]
    failed, undecided = {}, {}
    compile_err = []
    canary = False
    for ln in se.splitlines():
        try: d = json.loads(ln)
        except ValueError: continue
        if d.get("level") != "error" or d.get("message", "").startswith("aborting due"): continue
        m = d["message"]
        spans = d.get("spans", [])
        keys = []
        for s in sorted(spans, key=lambda s: not s.get("is_primary")):
            i = s["line_start"]
            k = lines[i][0] if i < len(lines) and lines[i] else ""
            keys.append((k, s["line_start"], s.get("label") or ""))
        if any(i >= len(lines) for _, i, _ in keys) and "assertion failed" in m:
            canary = True
            continue
        known = {f["key"] for f in report["functions"]}
        # a failed obligation belongs to the function whose body is being checked: for a
        # postcondition the primary span may be the contract; both carry the function's key
        fk = [k for k, _, _ in keys if k in known]
        if any(x in m for x in LIMIT):
            for k in fk[:1]: undecided[k] = "resource limit"
            continue
        # an error with a code (E0277 …) comes from the compiler, whatever its words
        if not d.get("code") and any(x in m for x in VERIFICATION):
            where = "; ".join("%s (%s:%s)" % (k, lines[i][1], lines[i][2]) if i < len(lines) and len(lines[i]) > 2 else k for k, i, _ in keys)
            # precondition failures: the caller is the function holding the call site
            k = owner(m, keys, known)
            if k: failed.setdefault(k, []).append({"message": m, "where": where, "rendered": d.get("rendered", "")[:2000]})
            else: undecided["(theory) " + (keys[0][0] if keys else "?")] = m
            continue
        compile_err.append((m, fk, d.get("rendered", "")[:600]))
    return failed, undecided, compile_err, canary

def prove(work, prop):
    p = Proof()
    types, msg = typedump(work)
    if types is None:
        p.note = "type information unavailable: " + msg
        return p
    external = set()
    for rnd in range(8):
        p.rounds = rnd + 1
        out, rep = os.path.join(work, "out.rs"), os.path.join(work, "report.json")
        cmd = [os.path.join(BUILD, "extract", "release", "extract"), os.path.join(REPO, "src"), types, os.path.join(HERE, "specs"), out, rep, "--mods", ",".join(props.MODS)]
        for k in sorted(external): cmd += ["--external", k]
        rc, so, se = run(cmd, 120)
        if rc != 0 or not os.path.exists(rep):
            p.note = "extraction failed: " + (so + se)[-1500:]
            return p
        report = json.load(open(rep))
        for f in report["functions"]:
            # a method of a trait impl has the contract of the trait
            if "::<" in f["key"] and " for " in f["key"]: f["contract"] = True
        text = open(out).read()
        groups = re.findall(r"pub broadcast group (\w+)", open(os.path.join(HERE, "specs", "theory.rs")).read())
        text += CANARY % " ".join("broadcast use crate::theory::%s;" % g for g in groups)
        open(out, "w").write(text)
        verus = ["verus", out, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "3", "--num-threads", "8"]
        rc, so, se = run(verus + ["--rlimit", "40"], 500, cwd=work)
        p.raw = se[-20000:]
        if rc is None:
            p.note = "the verifier did not finish"
            return p
        failed, undecided, compile_err, canary = judge(se, report)
        if (failed or undecided) and not compile_err:
            # a second opinion with another seed and more resources: only what fails again has failed
            rc2, so2, se2 = run(verus + ["--rlimit", "120", "--smt-option", "smt.random_seed=7"], 500, cwd=work)
            if rc2 is not None:
                f2, u2, c2, _ = judge(se2, report)
                if not c2:
                    for k in list(failed):
                        if k not in f2 and k not in u2: del failed[k]
                    for k in list(undecided):
                        if k not in f2 and k not in u2: del undecided[k]
        if compile_err:
            new = {k for _, fk, _ in compile_err for k in fk[:1]} - external
            p.undecided.update({k: "outside the verifier's reach: " + m for m, fk, _ in compile_err for k in fk[:1]})
            if not new:
                p.note = "not accepted by the verifier: " + compile_err[0][2]
                return p
            external |= new
            continue
        try: j = json.loads(so[so.index("{"):])
        except ValueError:
            p.note = "no answer from the verifier"
            return p
        p.ok = True
        p.report = report
        p.failed = failed
        p.undecided.update(undecided)
        p.verified = j["verification-results"]["verified"]
        p.errors = j["verification-results"]["errors"]
        t = j.get("times-ms", {})
        p.smt_ms = t.get("smt", {}).get("total", 0)
        p.total_ms = t.get("total", 0)
        p.canary = canary
        p.functions = report["functions"]
        for mod in t.get("smt", {}).get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                p.times[f["function"]] = f
        for f in report["functions"]:
            if f.get("lost"): p.undecided[f["key"]] = "annotation lost its place: " + ", ".join(map(str, f["lost"]))
            elif f.get("external") and f["key"] in external: p.undecided.setdefault(f["key"], "contract assumed, body not verified")
            elif f.get("external"): p.assumed.append(f["key"])   # the committed specification says so
        return p
    p.note = "too many functions outside the verifier's reach"
    return p

def owner(m, keys, known):
    """the function whose body is being checked: not the one that holds the clause"""
    ks = [(k, l) for k, _, l in keys if k in known]
    if not ks: return None
    if m.startswith("postcondition"):
        # the clause may stand in a trait; the body is that of the implementation
        body = [k for k, l in ks if not l.startswith("failed this")]
        if body: return body[0]
    return ks[0][0]

def structure(p):
    """functions whose shape differs from the committed baseline, and helpers without contract"""
    try: base = json.load(open(os.path.join(HERE, "baseline.json")))
    except (OSError, ValueError): base = {}
    moved = {}
    for f in p.functions:
        b = base.get(f["key"])
        if b is None:
            moved[f["key"]] = "new function"
        elif (b["loops"], b["closures"]) != (f["loops"], f["closures"]):
            moved[f["key"]] = "different loops or closures"
        elif b.get("shape", "") != f.get("shape", ""):
            moved[f["key"]] = "different kinds of loops, or other variables carried through them"
        elif f.get("calls_new"):
            moved[f["key"]] = "calls a function without contract"
    missing = [k for k in base if k not in {f["key"] for f in p.functions}]
    return moved, missing, base

# ------------------------------------------------------------------ finder

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

def finder(binary, prop, work, secs, seed, dic, nproc=8):
    procs = []
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch, exist_ok=True)
    for i in range(nproc):
        out = os.path.join(work, "finder-%d.json" % i)
        if os.path.exists(out): os.unlink(out)
        cmd = [binary, "--prop", prop, "--out", out, "--secs", str(secs), "--seed", str(seed), "--threads", str(nproc), "--part", str(i), "--dict", dic]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(FINDER_SCRATCH=scratch), preexec_fn=limits), out, i, cmd))
    ev, dn, samples, bad = 0, 0, [], None
    deadline = time.time() + secs + 60
    for pr, out, i, cmd in procs:
        try: rc = pr.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            pr.kill(); pr.wait(); rc = None
        if os.path.exists(out):
            d = json.load(open(out))
            ev += d["evaluations"]; dn += d["distinct_nontrivial"]; samples += d["samples"][:2]
            if "bad" in d and bad is None: bad = d["bad"]
        elif bad is None and rc is not None:
            # the process died: find the case by running again with a trace
            tr = os.path.join(work, "trace")
            run(cmd + ["--trace", tr], secs * 3 + 60, preexec_fn=limits, env=env(FINDER_SCRATCH=scratch))
            if os.path.exists(tr):
                c, z = open(tr).read().split()
                r = run([binary, "--prop", prop, "--out", out, "--case", c, "--size", z, "--dict", dic], 60, preexec_fn=limits)
                if r[0] not in (0, None):
                    bad = {"case": int(c), "size": int(z), "text": "the process ended with status %s (crash, memory or stack exhausted)" % r[0]}
    return ev, dn, samples[:6], bad

# ------------------------------------------------------------------ main

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = decide(prop, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def matches(key, prefixes):
    """a prefix that starts with - takes functions out again"""
    return any(key.startswith(x) for x in prefixes if x[0] != "-") and not any(key.startswith(x[1:]) for x in prefixes if x[0] == "-")

def decide(prop, tier, seed, work):
    ok, msg = build_tools()
    if ok: p = prove(work, prop)
    else:
        p = Proof()
        p.note = "tools do not build: " + msg
    keys = props.KEYS[prop]
    moved, missing, base = structure(p) if p.ok else ({}, [], {})
    mine = [f for f in p.functions if matches(f["key"], keys) and f.get("contract") and f["key"] not in p.assumed]
    proved = [f["key"] for f in mine if f["key"] not in p.failed and f["key"] not in p.undecided and not f.get("external")]
    failed = {k: v for k, v in p.failed.items() if matches(k, keys)}
    undecided = {k: v for k, v in p.undecided.items() if matches(k, keys) or k.startswith("(")}
    for k in missing:
        if matches(k, keys): undecided[k] = "function under contract is no longer there"
    firm = {}
    for k, v in failed.items():
        if k in undecided: undecided[k] = "obligation failed, but " + undecided[k]
        elif k in moved: undecided[k] = "obligation failed, but the function changed shape (%s)" % moved[k]
        elif any(x.split("::")[0:-1] == k.split("::")[0:-1] and moved[x] == "new function" for x in moved):
            undecided[k] = "obligation failed next to a new function without contract"
        else: firm[k] = v
    if p.ok and not p.canary:
        undecided["(canary)"] = "the assumptions may be contradictory: assert(false) was not refused"
        proved = []
    # bounded search for a failing input
    binary, fmsg = build_finder()
    secs = 12 if tier == "quick" else 240
    if failed or undecided or not p.ok: secs = max(secs, 60)
    ev = dn = 0
    samples, bad = [], None
    # literals of the source that are new with respect to the committed baseline go into the inputs
    dic = os.path.join(HERE, "evidence", "literals-%s.txt" % prop)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    newlits = literals.write_new(os.path.join(REPO, "src"), os.path.join(HERE, "literals-baseline.json"), dic)
    if binary: ev, dn, samples, bad = finder(binary, prop, work, secs, seed, dic)
    known_lines = []
    if binary:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                rc, so, _ = run([binary, "--prop", prop, "--out", "/dev/null", "--known", m.group(2)], 60)
                if so.startswith("FAILS"):
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))
    # evidence
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    violation = None
    if bad:
        violation = {"kind": "input", "found": bad, "failed_obligations": failed}
    elif firm:
        violation = {"kind": "obligation", "failed_obligations": firm, "verifier_output": p.raw[-6000:]}
    times = p.times
    level = "proof" if props.LEVEL[prop] == "proof" else props.LEVEL[prop]
    cov = {
        "obligations": len(proved) + len(failed) + len([k for k in undecided if any(f["key"] == k for f in mine)]) + 0,
        "discharged": len(proved),
        "checker_cmd": "verus out.rs --output-json --time-expanded (Verus 0.2026.09.13, Z3), on the file extracted from /repo/src in this run",
        "trusted_base": props.TRUSTED + ["derived Clone: " + c for c in p.report.get("trusted_clones", [])]
            + ["contract assumed, body not verified: " + k for k in p.assumed if matches(k, keys)],
        "functions_under_contract": sorted(proved),
        "failed": {k: [x["message"] + " @ " + x["where"] for x in v] for k, v in failed.items()},
        "undecided": undecided,
        "verifier_total_verified": p.verified,
        "verifier_total_errors": p.errors - (1 if p.canary else 0),
        "canary_refused": p.canary,
        "solver_ms": p.smt_ms,
        "verifier_ms": p.total_ms,
        "property_lemmas": props.LEMMAS.get(prop, []),
        "extraction_rules": p.report.get("rules", {}),
        "extraction_drops": p.report.get("dropped", []),
        "bounded": props.BOUNDED.get(prop, "none: every function the property rests on is under contract"),
        "evaluations": ev,
        "distinct_nontrivial": dn,
        "rule": props.RULE[prop],
        "new_source_literals_tried": newlits,
        "samples": samples,
        "explanation": props.EXPLAIN,
    }
    if p.note: cov["proof_note"] = p.note
    if not binary: cov["finder_note"] = fmsg
    e = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": props.ASSUME + props.ASSUME_FOR.get(prop, []), "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(e, f, indent=1, sort_keys=True)
    for l in known_lines: print(l)
    print("%s: %d of %d contracted functions discharged, %d undecided, %d failed; %d inputs tried (%d distinct)" % (prop, len(proved), len(mine), len(undecided), len(failed), ev, dn))
    for k, v in sorted(undecided.items()): print("undecided (bounded stand-in decides): %s: %s" % (k, v[:200]))
    if p.note: print("proof unavailable, bounded stand-in decides: " + p.note[:300])
    if violation:
        rp = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
        violation["property"] = prop
        if bad: violation["command"] = "build/finder/release/finder --prop %s --out /dev/null --case %d --size %d --dict %s" % (prop, bad["case"], bad["size"], dic)
        with open(rp, "w") as f: json.dump(violation, f, indent=1, sort_keys=True)
        for k, v in sorted(failed.items()):
            for x in v: print("failed obligation: %s: %s at %s" % (k, x["message"], x["where"]))
        if bad: print(bad["text"][:1500])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if bad else " no-failing-input-found"))
        return 1
    return 0

if __name__ == "__main__":
    main()
