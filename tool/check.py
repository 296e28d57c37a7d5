#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Deciding step: Verus (and, where listed, Kani) accepts every obligation generated from /repo's current source.
Second step, always run: the witness finder executes the same contract against the real crates.
Exit 0 / exit 1 + `VIOLATION property=<id> replay=<path>[ no-failing-input-found]`.
"""
import concurrent.futures as cf
import importlib, json, os, re, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "units")]
import vgen
from rsx import Lost, literals
from props import PROPS

BUILD = os.path.join(VERIF, ".build")
REPLAY = os.path.join(VERIF, "replay")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, ".target"))


def log(*a):
    print(*a, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
             RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return e


# ------------------------------------------------------------------ Verus
def verus_unit(prop, ref, tier):
    """one unit -> result dict"""
    mod, attr = ref.split(":")
    out = {"unit": ref, "status": "undecided", "why": "", "functions": [], "verified": 0, "failed": [], "trusted": [], "smt_s": 0.0}
    try:
        unit = getattr(importlib.import_module(mod), attr)
        if callable(unit):
            unit = unit()
        g = vgen.Gen(unit)
        text = g.generate()
    except Lost as e:
        out["why"] = f"lost anchor: {e}"
        return out
    except Exception as e:   # malformed source etc.: tool limit, never an alarm
        out["why"] = f"extraction error: {type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()[-1500:]
        return out
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{unit.name}.rs")
    open(path, "w").write(text)
    out["file"] = path
    out["functions"] = [f"{f[0]} ({f[1]}:{f[2]})" for f in g.fns]
    out["rewrites"] = {f"{a} => {b}": n for (a, b), n in g.log.items()}
    out["trusted"] = vgen.trusted_scan(text)
    rl = ["--rlimit", "40"] if not any(f == "--rlimit" for f in unit.flags) else []
    res = vgen.run_verus(path, flags=unit.flags + rl, timeout=500)
    if res["status"] in ("undecided", "timeout") and any(e["rlimit"] for e in res["errors"]):
        r2 = vgen.run_verus(path, flags=[*unit.flags, "--rlimit", "150", "--smt-option", "smt.random_seed=7"], timeout=400)
        if r2["status"] in ("ok", "failed"):
            res = r2
    out.update(status=res["status"], verified=res["verified"], wall=round(res["wall"], 2), smt_s=round(res.get("smt_ms", 0) / 1000, 2),
               cmd=res.get("cmd", "").replace(path, os.path.relpath(path, VERIF)), nerr=res.get("nerr", 0))
    if res["status"] not in ("ok", "failed"):
        msgs = [e["message"] for e in res["errors"] if not e["semantic"]][:3]
        out["why"] = "verifier could not decide: " + ("; ".join(msgs) or res["status"])
        out["raw"] = "\n".join(e["rendered"] for e in res["errors"])[:6000] or res["raw"][-3000:]
    for e in res["errors"]:
        if not e["semantic"]:
            continue
        fn = "?"
        for ls, le, lab, txt, prim in sorted(e["spans"], key=lambda s: not s[4]):
            c = [f for f in g.fns if f[3] <= ls <= f[4]]
            if c:
                fn = f"{c[0][0]} ({c[0][1]}:{c[0][2]})"
                break
        clause = next((s[3].strip() for s in e["spans"] if "failed" in s[2] or s[4]), "")
        out["failed"].append({"function": fn, "obligation": e["message"], "clause": clause[:300], "verifier_output": e["rendered"][:2500]})
    if res["status"] == "ok":
        # vacuity guard: with assert(false) at each entry and in each loop, every one of them must fail
        v = canary(unit, path)
        out["canary"] = v
        if v.get("vacuous"):
            out["status"] = "undecided"
            out["why"] = "vacuity guard: unreachable under its contract: " + ", ".join(v["vacuous"])
    return out


def canary(unit, path):
    g = vgen.Gen(unit)
    g.canary_all = True
    text = g.generate()
    p2 = path[:-3] + "_canary.rs"
    open(p2, "w").write(text)
    want = {}
    for n, ln in enumerate(text.split("\n"), 1):
        m = re.search(r"/\*CANARY (.*?)\*/", ln)
        if m:
            want[n] = m.group(1)
    res = vgen.run_verus(p2, flags=[*[f for f in unit.flags], "--rlimit", "20", "--multiple-errors", "40", "--no-auto-recommends-check"], timeout=300)
    hit = set()
    for e in res["errors"]:
        if "assertion failed" in e["message"] or e["rlimit"]:
            for s in e["spans"]:
                for k in range(s[0], s[1] + 1):
                    hit.add(k)
    rl = [e for e in res["errors"] if e["rlimit"]]
    miss = [want[n] for n in want if n not in hit]
    if rl or res["status"] == "timeout":
        # functions that hit the limit cannot be used to conclude anything
        return {"expected_failures": len(want), "observed": len(want) - len(miss), "inconclusive": miss, "wall": round(res["wall"], 2)}
    if res["errors"] and all(not e["semantic"] for e in res["errors"]):
        return {"expected_failures": len(want), "observed": 0, "inconclusive": ["canary did not compile: " + res["errors"][0]["message"]]}
    return {"expected_failures": len(want), "observed": len(want) - len(miss), "vacuous": miss, "wall": round(res["wall"], 2)}


# ------------------------------------------------------------------ Kani
def kani_run(prop, k, tier):
    d = os.path.join(VERIF, k["crate"])
    out = {"unit": "kani:" + k["crate"], "status": "undecided", "why": "", "functions": k.get("functions", []), "verified": 0, "failed": [], "trusted": [], "smt_s": 0.0}
    env = cargo_env()
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["CARGO_TARGET_DIR"] = TARGET + "-kani"
    cmd = ["cargo", "kani", "--offline", *k.get("args", [])]
    cmd = ["cargo", "kani", *k.get("args", [])]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=k.get("timeout", 600))
    except subprocess.TimeoutExpired:
        out["why"] = "kani timed out"
        return out
    o = p.stdout + p.stderr
    out["wall"] = round(time.time() - t0, 2)
    out["cmd"] = "(cd %s && %s)" % (k["crate"], " ".join(cmd))
    names = re.findall(r"Checking harness ([\w:]+)", o)
    blocks = re.split(r"Checking harness ", o)[1:]
    ok = True
    for b in blocks:
        nm = re.match(r"[\w:]+", b).group(0)
        if "VERIFICATION:- SUCCESSFUL" in b:
            out["verified"] += 1
            m = re.search(r"\*\* (\d+) of (\d+) failed", b)
            if m:
                out["checks"] = out.get("checks", 0) + int(m.group(2))
        elif "VERIFICATION:- FAILED" in b:
            real = [x for x in re.findall(r"Check \d+: (.*?)\n\s*- Status: FAILURE\n\s*- Description: \"(.*?)\"(?:\n\s*- Location: (.*?)\n)?", b) if "unwinding" not in x[1] and "unsupported" not in x[1].lower() and "is not currently supported" not in x[1]]
            fl = re.findall(r"Failed Checks: (.*)", b)
            real2 = [x for x in fl if "unwinding assertion" not in x and "not currently supported" not in x and "reachability" not in x]
            if real2:
                out["failed"].append({"function": nm, "obligation": "; ".join(real2[:3]), "clause": "", "verifier_output": b[-2500:]})
            else:
                ok = False
                out["why"] = f"kani could not decide {nm}: " + "; ".join(fl[:2])
        else:
            ok = False
            out["why"] = f"kani gave no verdict on {nm}"
    if k.get("expect") and len(blocks) < k["expect"] and not out["why"]:
        ok = False
        out["why"] = f"kani ran {len(blocks)} of {k['expect']} harnesses: " + o[-600:]
    for c in re.findall(r"(\d+) of (\d+) cover properties satisfied", o):
        if c[0] != c[1]:
            ok = False
            out["why"] = "vacuity guard: a cover property is not satisfiable"
    out["status"] = "failed" if out["failed"] else ("ok" if ok and blocks else "undecided")
    return out


# ------------------------------------------------------------------ witness finder
def dictionary(prop, files):
    seen = []
    for f in files:
        p = os.path.join(vgen.REPO, f)
        fs = [p]
        if os.path.isdir(p):
            fs = [os.path.join(r, x) for r, _, xs in os.walk(p) for x in xs if x.endswith(".rs")]
        for q in sorted(fs):
            try:
                src = open(q, encoding="utf-8").read()
                cut = src.find("#[cfg(test)]\nmod ")
                for k, t in literals(src if cut < 0 else src[:cut]):
                    if (k, t) not in seen:
                        seen.append((k, t))
            except Exception:
                pass
    os.makedirs(os.path.join(BUILD, prop), exist_ok=True)
    path = os.path.join(BUILD, prop, "dict")
    open(path, "w").write("\0".join(f"{k} {t}" for k, t in seen))
    return path, len(seen)


def witness_build(w):
    d = os.path.join(VERIF, w.get("crate", "harness"))
    cmd = ["cargo", "build", "--offline", "--bin", w["bin"]] + (["--features", w["features"]] if w.get("features") else [])
    t0 = time.time()
    for attempt in range(2):
        p = subprocess.run(cmd, cwd=d, env=cargo_env(), capture_output=True, text=True)
        if p.returncode == 0:
            break
    return p.returncode == 0, p.stderr[-3000:], time.time() - t0


def witness_run(prop, w, tier, seed, replay=None):
    out = {"witnesses": [], "stats": {}, "error": ""}
    ok, err, bt = witness_build(w)
    out["build_s"] = round(bt, 1)
    if not ok:
        out["error"] = "witness finder does not build against the current tree: " + err[-1500:]
        return out
    dpath, nd = dictionary(prop, w.get("dict", []))
    ms = w.get("quick_ms", 20000) if tier == "quick" else w.get("thorough_ms", 300000)
    cmd = [os.path.join(TARGET, "debug", w["bin"]), "--prop", prop, "--seed", str(seed), "--tier", tier, "--budget-ms", str(ms), "--dict", dpath]
    if replay:
        cmd += ["--replay", replay]
    env = dict(os.environ)
    env.update(w.get("env", {}))
    env["RUST_MIN_STACK"] = str(64 << 20)
    def limit():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    def one(k):
        # each run searches from a seed of its own
        c = list(cmd)
        c[c.index("--seed") + 1] = str(seed + 1000 * k)
        try:
            p = subprocess.run(c, capture_output=True, text=True, errors="replace", timeout=ms / 1000 * 2 + 120, env=env, preexec_fn=limit)
            return c, p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            return c, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout", ""
    jobs = 1 if replay else w.get("jobs", 4)
    with cf.ThreadPoolExecutor(jobs) as ex:
        runs = list(ex.map(one, range(jobs)))
    total = sum(int(json.loads(ln[6:]).get("cases", 0)) for r in runs for ln in r[1].split("\n") if ln.startswith("STATS "))
    # a run that found something decides; otherwise one that ended badly; otherwise the first
    cmd, so, rc, se = next((r for r in runs if "\nWITNESS " in "\n" + r[1]), next((r for r in runs if r[2] != 0), runs[0]))
    for ln in so.split("\n"):
        if ln.startswith("WITNESS "):
            out["witnesses"].append(json.loads(ln[8:]))
        elif ln.startswith("STATS "):
            out["stats"] = json.loads(ln[6:])
            out["stats"]["cases"] = str(total)
            out["stats"]["parallel_runs"] = str(jobs)
        elif ln.startswith("CURRENT "):
            out["current"] = ln[8:]
    if rc != 0 and not out["witnesses"]:
        # the process died: re-run tracing the current input, so that an abort, a stack overflow or a hang gets its input
        trace = os.path.join(BUILD, prop, "current")
        if os.path.exists(trace):
            os.remove(trace)
        try:
            p = subprocess.run(cmd + ["--trace", trace], capture_output=True, text=True, errors="replace", timeout=ms / 1000 * 3 + 120, env=env, preexec_fn=limit)
            rc2 = p.returncode
        except subprocess.TimeoutExpired:
            rc2 = "timeout"
        if rc2 != 0 and os.path.exists(trace):
            inp = open(trace, "rb").read().decode("utf-8", errors="replace")
            out["witnesses"].append({"input": inp, "what": f"the code under test does not come back from this input (process ended with {rc2})"})
        else:
            out["error"] = f"witness finder ended with {rc}: {se[-500:]}"
    return out


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    t0 = time.time()
    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        bad = False
        for x in r.get("witnesses", []):
            f = os.path.join(BUILD, prop, "replay_input")
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w", newline="").write(x["input"])
            w = [w for w in P.get("witness", []) if w["bin"] == x.get("bin", w["bin"])][0]
            o = witness_run(prop, w, tier, seed, f)
            log(json.dumps(o, ensure_ascii=False))
            bad |= bool(o["witnesses"])
        for f in r.get("failed_obligations", []):
            log("obligation:", f["function"], "-", f["obligation"], "-", f["clause"])
        sys.exit(1 if bad or (r.get("failed_obligations") and not r.get("witnesses")) else 0)

    os.makedirs(BUILD, exist_ok=True)
    results, wit = [], []
    with cf.ThreadPoolExecutor(4) as ex:
        fv = [ex.submit(verus_unit, prop, u, tier) for u in P.get("verus", [])]
        fk = [ex.submit(kani_run, prop, k, tier) for k in P.get("kani", [])]

        def wits():
            return [dict(witness_run(prop, w, tier, seed), bin=w["bin"]) for w in P.get("witness", [])]
        fw = ex.submit(wits)
        for f in fv + fk:
            try:
                results.append(f.result())
            except Exception as e:
                results.append({"unit": "?", "status": "undecided", "why": f"{type(e).__name__}: {e}", "functions": [], "verified": 0, "failed": [], "trusted": [], "smt_s": 0})
        try:
            wit = fw.result()
        except Exception as e:
            wit = [{"witnesses": [], "stats": {}, "error": f"{type(e).__name__}: {e}", "bin": "?"}]

    witnesses = [dict(x, bin=w["bin"]) for w in wit for x in w["witnesses"]]
    known = [k for k in known_findings() if k["property"] == prop and not k.get("fixed")]
    fresh, seen_known = [], {}
    for x in witnesses:
        k = next((k for k in known if "input" in k and k["input"] == x["input"]), None)
        if k:
            seen_known[k["id"]] = k
        else:
            fresh.append(x)
    for w in wit:
        for kid in [k for k in w["stats"].get("known", "").split(",") if k]:
            for k in known:
                if k["id"] == kid:
                    seen_known[kid] = k
    for k in seen_known.values():
        log(f"KNOWN-FINDING: property={prop} {k['what']}")
    failed = [dict(f, unit=r["unit"]) for r in results for f in r["failed"]]
    undecided = [r for r in results if r["status"] not in ("ok", "failed")]
    for r in results:
        log(f"[{prop}] {r['unit']}: {r['status']}: {r['verified']} obligations discharged, {len(r['failed'])} failed, {len(r['functions'])} functions under contract, {r.get('wall', 0)}s {r['why']}")
        for f in r["failed"][:6]:
            log(f"    FAILED {f['function']}: {f['obligation']} :: {f['clause'][:160]}")
    for w in wit:
        log(f"[{prop}] bounded:{w['bin']}: {w['stats'].get('cases', 0)} cases, {len(w['witnesses'])} failing {w['error'][:800]}")
        for x in w["witnesses"][:3]:
            log(f"    WITNESS {x['input'][:200]!r}: {x['what'][:400]}")

    proof_ok = bool(results) and not failed and not undecided
    nobl = sum(r["verified"] + max(r.get("nerr", 0), len(r["failed"])) + (1 if r["status"] not in ("ok", "failed") else 0) for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "obligations": nobl,
            "discharged": sum(r["verified"] for r in results),
            "checker_cmd": " ; ".join(r.get("cmd", "") for r in results if r.get("cmd")) or "none",
            "trusted_base": sorted(set(t for r in results for t in r["trusted"])) + P.get("trusted", []),
            "proof_established": proof_ok,
            "undecided": [f"{r['unit']}: {r['why']}" for r in undecided],
            "functions_under_contract": [f for r in results for f in r["functions"]],
            "back_end": P.get("back_end", "Verus 0.2026.09.13 / Z3"),
            "solver_s": round(sum(r["smt_s"] for r in results), 2),
            "obligation_unit": "one Verus/Kani verification query = one function body, loop body or lemma with all its pre/postcondition, invariant, bounds, overflow and termination conditions",
            "extraction_rewrites": {k: v for r in results for k, v in r.get("rewrites", {}).items()},
            "vacuity_guard": [r.get("canary") for r in results if r.get("canary")],
            "bounded_stand_in": {"label": "bounded, not counted as proved", "runs": [{k: v for k, v in w.items() if k != "witnesses"} for w in wit]},
            "evaluations": sum(int(w["stats"].get("cases", 0)) for w in wit),
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(fresh) + (1 if failed and not fresh else 0),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, ensure_ascii=False)

    if failed or fresh:
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, f"{prop}.json")
        json.dump({"property": prop, "witnesses": fresh, "failed_obligations": failed,
                   "replay_cmd": f"python3 tool/check.py {prop} --replay {os.path.relpath(path, VERIF)}"},
                  open(path, "w"), indent=1, ensure_ascii=False)
        tail = "" if fresh else " no-failing-input-found"
        log(f"VIOLATION property={prop} replay={path}{tail}")
        sys.exit(1)
    if undecided:
        log(f"[{prop}] proof not re-established for the current source; the bounded stand-in found no failing input")
    sys.exit(0)


if __name__ == "__main__":
    main()
