#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's code (see DESIGN.md).

usage: check.py PROPERTY [quick|thorough] [--only ENTRY] [--keep]
exit 0: every assertion holds on every path within the bounds
exit 1: a counterexample was found by the solver and reproduced natively (VIOLATION line)
        (an INCOMPLETE line says so when some path or query was left undecided; none is on the unchanged tree)
exit 2: no verdict (build failure, vacuous exploration, symbolic and native runs disagree)
"""
import sys, os, json, time, subprocess, fcntl, glob, shutil, re, collections
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
ENG = os.path.join(B, "engine", "release", "symx")
os.environ.setdefault("HOME", "/root")
ENV = dict(os.environ, PATH="/usr/local/bin:" + os.environ.get("PATH", ""), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"): ENV.pop(k, None)
NCPU = min(8, os.cpu_count() or 1)

def die(msg, code=2):
    print("NO-VERDICT: " + msg); sys.stdout.flush(); sys.exit(code)

def run(cmd, cwd, env, what, log):
    t = time.time()
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(open(log).read()[-4000:]); die("%s failed (%s)" % (what, " ".join(cmd)))
    return time.time() - t

def build_engine():
    run(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(V, "engine"), dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "engine")), "engine build", os.path.join(B, "engine.log"))

def build_ir(feat, out):
    td = os.path.join(B, "h")
    for f in glob.glob(os.path.join(td, "ir/deps/harness*.ll")): os.unlink(f)
    # cargo must re-run rustc when the .ll is gone: touch the crate root
    os.utime(os.path.join(V, "h/src/lib.rs"))
    run(["cargo", "rustc", "--offline", "--locked", "--lib", "--profile", "ir", "--features", feat, "--crate-type", "cdylib", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
        os.path.join(V, "h"), dict(ENV, CARGO_TARGET_DIR=td), "IR build", os.path.join(B, "ir.log"))
    ll = glob.glob(os.path.join(td, "ir/deps/harness*.ll"))
    if len(ll) != 1: die("IR build produced %d modules" % len(ll))
    shutil.move(ll[0], out)

def build_replay(feat, release):
    td = os.path.join(B, "r" + ("r" if release else "d"))
    cmd = ["cargo", "build", "--offline", "--locked", "--bin", "replay", "--features", feat] + (["--release"] if release else [])
    run(cmd, os.path.join(V, "h"), dict(ENV, CARGO_TARGET_DIR=td), "replay build", os.path.join(B, "replay-%s.log" % ("release" if release else "dev")))
    return os.path.join(td, "release" if release else "debug", "replay")

def merge(d):
    m = collections.Counter(); out = dict(violations=[], open=[], unsup=collections.Counter(), limits=collections.Counter(), unknown_asserts=collections.Counter(), covers={}, samples=[], funcs=set(), stubs=set())
    for f in sorted(glob.glob(os.path.join(d, "*.json"))):
        try: j = json.load(open(f))
        except Exception as e: out["limits"]["unreadable worker result %s" % f] += 1; continue
        for k in ("paths", "infeasible", "steps", "forks", "asserts", "asserts_sym", "queries", "sat", "unsat", "unknown", "maybe", "cached", "bytetables", "fpqueries", "solver_s"): m[k] += j[k]
        for k in ("maxcons", "inputs_max", "slowest_s"): m[k] = max(m[k], j[k])
        out["violations"] += j["violations"]; out["open"] += j["open"]; out["samples"] += j["samples"]
        for k in ("unsup", "limits", "unknown_asserts"):
            for a, b in j[k].items(): out[k][a] += b
        for a, b in j["covers"].items():
            if a not in out["covers"] or out["covers"][a] is None: out["covers"][a] = b
        out["funcs"] |= set(j["funcs"]); out["stubs"] |= set(j["stubs"])
    out["m"] = m
    return out

def sym(entry, spec, ll, work, workers, deadline):
    d = os.path.join(work, entry)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    tl = min(spec.get("time", 300), max(10, int(deadline - time.time())))
    cmd = [ENG, ll, entry, d, "--time", str(tl), "--workers", str(workers), "--solver-ms", str(spec.get("solver_ms", 20000)), "--samples", str(spec.get("samples", 2)), "--steps", str(spec.get("steps", 200000000)), "--preempt", str(spec.get("preempt", 0)), "--grace", str(spec.get("grace", 8))]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, start_new_session=True)
    try:
        o, e = p.communicate(timeout=tl + 60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        o, e = p.communicate(); rc = -9
    r = merge(d)
    r["wall"] = time.time() - t; r["entry"] = entry
    if rc != 0: r["limits"]["symbolic executor ended with status %s %s" % (rc, (e or "")[-200:])] += 1
    r["solver"] = o.strip().splitlines()[-1] if o.strip() else ""
    return r

def write_replay(path, prop, entry, w):
    with open(path, "w") as f:
        f.write("# property %s, harness %s\n# %s\n# replay: build/rd/debug/replay %s %s\n" % (prop, entry, w["msg"], entry, path))
        for n, wd, v in w["inputs"]: f.write("IN %s %s\n" % (n.replace(" ", "_"), v))

def replay(binp, entry, path, tmo=60, more=None):
    try:
        r = subprocess.run([binp, entry, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo, env=dict(ENV, RUST_BACKTRACE="0", **({"REPLAY_MORE": more} if more else {})), errors="replace", cwd="/")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

def reproduced(w, rc, out):
    m = w["msg"]
    if m.startswith("assert: "): return rc == 10 and ("ASSERT-FAIL " + m[8:]) in out
    if m.startswith("panic: "): return rc in (11, 134, -6)
    if m.startswith("deadlock"): return rc == "timeout"
    return rc not in (0, 12)

def setup():
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    build_engine(); ll = os.path.join(B, "setup.ll"); build_ir("tv", ll); os.unlink(ll); build_replay("tv", False)
    sys.exit(0)

def main():
    if "--setup" in sys.argv: setup()
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = None
    for x in sys.argv: 
        if x.startswith("--only="): only = x[7:]
    t0 = time.time()
    specs = json.load(open(os.path.join(V, "checks.json")))
    sp = specs[prop]
    os.makedirs(B, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    kf = []
    kp = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(kp):
        for l in open(kp):
            l = l.strip()
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("property") == prop and j.get("status") == "open": kf.append(j)
    skipped = []; deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    feat = sp["feature"]
    work = os.path.join(B, "work", prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    ll = os.path.join(work, "module.ll")
    with ThreadPoolExecutor(3) as ex:
        fe = ex.submit(build_engine); fi = ex.submit(build_ir, feat, ll)
        fe.result(); fi.result()
        frd = ex.submit(build_replay, feat, False)
        tb = time.time() - t0
        hs = [(e, dict(h, **h.get(tier, {}))) for e, h in sp["harnesses"].items() if tier in h.get("tiers", ["quick", "thorough"]) and (only is None or e == only)]
        if kf:
            for e, h in hs: h["grace"] = 1e9
        light = [(e, h) for e, h in hs if not h.get("heavy")]; heavy = [(e, h) for e, h in hs if h.get("heavy")]
        res = {}
        with ThreadPoolExecutor(NCPU) as px:
            for e, r in zip([e for e, _ in light], px.map(lambda x: sym(x[0], x[1], ll, work, 1, deadline), light)): res[e] = r
        for e, h in heavy:
            if any(r["violations"] for r in res.values()) and not kf: skipped.append(e); continue  # a counterexample is at hand already
            res[e] = sym(e, h, ll, work, NCPU, deadline)
        rd = frd.result()
    problems = []; gaps = []; viols = []; known = []; validated = 0; mismatch = []
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*")): os.unlink(f)
    rr = None
    for e, h in hs:
        if e not in res: continue
        r = res[e]
        for k in ("unsup", "limits", "unknown_asserts"):
            for x, n in r[k].items(): gaps.append("%s: %s: %s (x%d)" % (e, k, x, n))
        if not r["violations"]:
            for c in h.get("covers", []):
                if r["covers"].get(c, 0) == 0 or c not in r["covers"]: problems.append("%s: cover point '%s' not reached (vacuous)" % (e, c))
        if not r["violations"] and r["m"]["paths"]:
            for c in h.get("must", []):  # behaviour some choice of the symbolic inputs has to lead to
                if r["covers"].get(c, 0) == 0 or c not in r["covers"]:
                    if any(r[k] for k in ("unsup", "limits", "unknown_asserts")): problems.append("%s: '%s' not reached, exploration incomplete" % (e, c)); continue
                    p = os.path.join(rdir, "%s-%s-unreachable.txt" % (prop, e))
                    with open(p, "w") as fo: fo.write("# property %s, harness %s\n# all %d paths (every input and random draw within the bounds) were explored and none leads to: %s\n# rerun: python3 /verif/check.py %s %s --only=%s\n" % (prop, e, int(r["m"]["paths"]), c, prop, tier, e))
                    viols.append(dict(harness=e, message="unreachable: " + c, replay=p, profile="dev", native="every path explored", inputs=[]))
        if r["m"]["paths"] == 0: problems.append("%s: no path completed" % e)
        # counterexamples: one representative per message, replayed natively
        seen = set()
        for i, w in enumerate(sorted(r["violations"], key=lambda w: (len(w["inputs"]), w["msg"]))):
            if w["msg"] in seen: continue
            if time.time() > deadline + 30: gaps.append("%s: counterexample not replayed: %s" % (e, w["msg"])); continue
            p = os.path.join(rdir, "%s-%s-%d.txt" % (prop, e, i)); write_replay(p, prop, e, w)
            rc, out = replay(rd, e, p); prof = "dev"
            if not reproduced(w, rc, out):
                if rr is None: rr = build_replay(feat, True)
                rc2, out2 = replay(rr, e, p)
                if not reproduced(w, rc2, out2) and i < 6: rc, out = replay(rd, e, p); rc2, out2 = rc, out
                if reproduced(w, rc2, out2): rc, out, prof = rc2, out2, "release" if rc2 != rc else "dev"
                else: gaps.append("%s: counterexample not reproduced natively (%s): %s -> rc %s %s" % (e, p, w["msg"], rc, out.strip()[-200:])); continue
            seen.add(w["msg"])
            fnd = next((k for k in kf if k["harness"] == e and re.search(k["match"], w["msg"])), None)
            if fnd: known.append(fnd["what"]); continue
            viols.append(dict(harness=e, message=w["msg"], replay=p, profile=prof, native=out.strip().splitlines()[-1] if out.strip() else "", inputs=[[n, v] for n, _, v in w["inputs"]][:200]))
        # validate the translation: replay sample paths natively and compare the observations bit by bit
        if not h.get("novalidate"):
            for i, w in enumerate((r["samples"] + [c for c in r["covers"].values() if c])[:h.get("validate", 12)]):
                p = os.path.join(work, "s-%s-%d.txt" % (e, i)); write_replay(p, prop, e, w)
                for _ in range(3):  # threads of the reasoner run freely here: give a slow machine another chance
                    rc, out = replay(rd, e, p)
                    if rc == 0 or w["msg"] != "path": break
                obs = [l.split()[1] for l in out.splitlines() if l.startswith("OBS")]
                want = w["obs"]
                if w["msg"] == "path":
                    if rc != 0 or obs != want: mismatch.append("%s: native run of a sampled path differs (%s): rc %s %s, observed %s, expected %s" % (e, p, rc, out.strip()[-160:], obs[:6], want[:6]))
                    else: validated += 1
                else:
                    if obs[:len(want)] != want: mismatch.append("%s: native run up to cover %s differs (%s) rc %s" % (e, w["msg"], p, rc))
                    else: validated += 1
    # places which could not be decided symbolically: run the inputs that lead there natively; a failure of the real code is one all the same
    if not viols and gaps:
        for e, h in hs:
            for i, w in enumerate((res[e]["open"] if e in res else [])[:24]):
                if viols or time.time() > deadline + 10: break
                p = os.path.join(rdir, "%s-%s-open%d.txt" % (prop, e, i)); write_replay(p, prop, e, w)
                for mode in ("lo", "hi"):
                    bad = []
                    for _ in range(2):
                        rc, out = replay(rd, e, p, 20, mode); bad.append(rc in (10, 11, 134, -6) or (rc == "timeout" and w["msg"] == "undecided: step limit"))
                        if not bad[-1]: break
                    if all(bad):
                        with open(p, "a") as fo: fo.write("# REPLAY_MORE=%s\n" % mode)
                        viols.append(dict(harness=e, message=w["msg"], replay=p, profile="dev", native="does not end" if rc == "timeout" else out.strip().splitlines()[-1] if out.strip() else "", inputs=[[n, v] for n, _, v in w["inputs"]][:200])); break
                else: os.unlink(p)
    if not viols: problems += mismatch
    tot = collections.Counter(); funcs = set(); stubs = set()
    for r in res.values():
        for k, v in r["m"].items():
            if k in ("maxcons", "inputs_max", "slowest_s"): tot[k] = max(tot[k], v)
            else: tot[k] += v
        funcs |= r["funcs"]; stubs |= r["stubs"]
    rf = sorted(f for f in funcs if "nar20_1" in f)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", wall_s=round(time.time() - t0, 2),
        coverage=dict(states=int(tot["paths"] + tot["infeasible"]), transitions=int(tot["steps"]), traces_validated_against_impl=validated,
            samples=[dict(harness=e, inputs=[[n, v] for n, _, v in s["inputs"]][:60], observed=s["obs"][:12]) for e, r in res.items() for s in r["samples"][:1]],
            paths=int(tot["paths"]), forks=int(tot["forks"]), assertions_checked=int(tot["asserts"]), assertions_decided_by_solver=int(tot["asserts_sym"]),
            solver_queries=int(tot["queries"]), unsat=int(tot["unsat"]), sat=int(tot["sat"]), cached=int(tot["cached"]), byte_table_decisions=int(tot["bytetables"]), float_queries=int(tot["fpqueries"]), solver_s=round(float(tot["solver_s"]), 2), slowest_query_s=float(tot["slowest_s"]),
            solver=next((r["solver"] for r in res.values() if r["solver"]), ""), max_path_constraints=int(tot["maxcons"]), max_symbolic_inputs=int(tot["inputs_max"]), build_s=round(tb, 1),
            functions_encoded=rf, functions_encoded_total=len(funcs), stubs=sorted(stubs), bounds=sp.get("bounds", ""),
            harnesses={e: dict(paths=int(r["m"]["paths"]), queries=int(r["m"]["queries"]), wall_s=round(r["wall"], 2), covers=sorted(r["covers"])) for e, r in res.items()},
            problems=problems[:50], not_decided=gaps[:50], exhaustive_within_bounds=not gaps),
        assumptions=sp.get("assumptions", []), violations=viols[:20])
    if only is None: json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if "--keep" not in sys.argv: shutil.rmtree(work, ignore_errors=True)
    for k in sorted(set(known)): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s %s: %d paths, %d steps, %d assertions (%d symbolic), %d solver queries (%.1f s), %d traces validated, build %.0f s, total %.0f s" % (prop, tier, tot["paths"], tot["steps"], tot["asserts"], tot["asserts_sym"], tot["queries"], tot["solver_s"], validated, tb, time.time() - t0))
    for e, r in res.items(): print("  %-28s %6d paths %6d queries %7.1f s%s" % (e, r["m"]["paths"], r["m"]["queries"], r["wall"], "  VIOLATIONS %d" % len(r["violations"]) if r["violations"] else ""))
    for v in viols:
        print("  counterexample [%s, %s]: %s (native: %s)" % (v["harness"], v["profile"], v["message"], v["native"]))
    if viols:
        print("VIOLATION property=%s replay=%s" % (prop, viols[0]["replay"])); sys.exit(1)
    if gaps:
        for p in gaps[:30]: print("  " + p)
        print("INCOMPLETE: %d obligations were left undecided (listed in the evidence file); the property held on everything explored" % len(gaps))
    if problems:
        for p in problems[:30]: print("  " + p)
        die("%d problems" % len(problems))
    sys.exit(0)

main()
