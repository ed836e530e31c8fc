#!/usr/bin/env python3
"""check.py ID [--keep] [--fn NAME]: decide one property by symbolic execution of the code compiled from /repo.

Harness: /verif/harness/p_<id>.rs. Lines in it starting with '//@' describe it:
  //@mod NAME ...            further harness modules it uses
  //@crate NAME              compile harness crate /verif/crates/NAME (default: inside mango-v4)
  //@fn NAME reach=a,b tier=quick|thorough opts=... : bounds text
  //@assume TEXT             an assumption / stub, copied into the evidence
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself failed."""
import concurrent.futures as cf, fcntl, glob, json, os, pathlib, re, subprocess, sys, time
V = pathlib.Path(__file__).resolve().parent.parent
B = V / "build"
REPO = os.environ.get("MANGO_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
RSYM = B / "engine/release/rsym"
DEPS = ["solana_program", "spl_associated_token_account", "anchor_lang", "anchor_spl", "spl_token", "borsh", "serum_dex", "bytemuck", "fixed", "arrayref", "pyth_sdk_solana"]

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e["PATH"]
    e.update(RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             CARGO_TARGET_DIR=str(B / "target"),
             RUSTFLAGS="--emit=llvm-ir -C codegen-units=1 -C no-vectorize-loops -C no-vectorize-slp --cfg mango_verif -A warnings")
    for k in ("RUST_BACKTRACE", "RUST_LOG", "RUSTC_WRAPPER"): e.pop(k, None)
    return e

class Prop:
    def __init__(s, pid):
        s.id = pid
        s.src = V / "harness" / ("p_%s.rs" % pid.lower())
        if not s.src.exists(): die("no harness for " + pid)
        s.mods, s.fns, s.assume, s.crate = [], [], [], None
        for l in s.src.read_text().splitlines():
            if not l.startswith("//@"): continue
            w = l[3:].split(None, 1)
            k, r = w[0], (w[1] if len(w) > 1 else "")
            if k == "mod": s.mods += r.split()
            elif k == "crate": s.crate = r.strip()
            elif k == "assume": s.assume.append(r)
            elif k == "fn":
                head, _, txt = r.partition(":")
                m = re.match(r"(\S+)((?:\s+\w+=(?:\"[^\"]*\"|\S+))*)", head)
                f = dict(name=m.group(1), reach=[], tier="quick", opts="", bounds=txt.strip())
                for kk, q, u in re.findall(r"(\w+)=(?:\"([^\"]*)\"|(\S+))", m.group(2)):
                    f[kk] = q or u
                if isinstance(f["reach"], str): f["reach"] = f["reach"].split(",")
                s.fns.append(f)
        s.mods = ["api"] + (["svm", "world"] if not s.crate else []) + s.mods

def build(p):
    """compile; returns (list of .ll files, shared object)"""
    out = B / "out" / p.id
    out.mkdir(parents=True, exist_ok=True)
    (B / "gen").mkdir(exist_ok=True)
    with open(B / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([sys.executable, str(V / "bin/ws.py")], env=env(), capture_output=True, text=True)
        if r.returncode: die("workspace generation: " + r.stderr[-2000:])
        e = env()
        gen = B / "gen" / (p.id + ".rs")
        text = "".join('#[path="%s/harness/%s.rs"] pub mod %s;\n' % (V, m, m) for m in dict.fromkeys(p.mods)) + '#[path="%s"] pub mod p_%s;\n' % (p.src, p.id.lower())
        if p.crate:
            d = V / "crates" / p.crate
            lib = p.crate.replace("-", "_")
            gen.write_text(text)
            e["MANGO_VERIF_HARNESS"] = str(gen)
            cmd = ["cargo", "rustc", "-p", p.crate, "--lib", "--crate-type", "cdylib"]
            cwd = B / "ws"
            extra = open(d / "deps").read().split() if (d / "deps").exists() else []
        else:
            gen.write_text(text)
            e["MANGO_VERIF_HARNESS"] = str(gen)
            lib = "mango_v4"
            cmd = ["cargo", "rustc", "-p", "mango-v4", "--lib", "--crate-type", "cdylib", "--no-default-features", "--features", "no-entrypoint,enable-gpl"]
            cwd = B / "ws"
            extra = []
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[-6000:])
            die("the harness does not compile against the current tree")
        dd = B / "target/debug/deps"
        (out / "h.ll").write_bytes((dd / (lib + ".ll")).read_bytes())
        (out / "h.so").write_bytes((dd / ("lib" + lib + ".so")).read_bytes())
    ll = [str(out / "h.ll")]
    for c in extra + DEPS:
        ll += sorted(glob.glob(str(B / "target/debug/deps" / (c + "-*.ll"))))
    ll += sorted(glob.glob(str(B / "std/*.ll")))
    return ll, out / "h.so"

def replay(so, fn, inputs, path, log=False):
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text("".join("%s %s\n" % kv for kv in inputs.items()))
    code = "import ctypes; ctypes.CDLL(%r).%s()" % (str(so), fn)
    e = env()
    e["RSYM_INPUTS"] = str(path)
    if log: e["RSYM_LOG"] = "1"
    try:
        r = subprocess.run([sys.executable, "-c", code], env=e, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return -1, "timeout"
    return r.returncode, r.stderr

def run_fn(p, ll, f):
    out = B / "out" / p.id / (f["name"] + ".json")
    if out.exists(): out.unlink()
    quick = TIER == "quick"
    o = f["opts"].split()
    if "--branch-ms" not in o: o += ["--branch-ms", "600" if quick else "1500"]
    if "--check-ms" not in o: o += ["--check-ms", "45000" if quick else "600000"]
    if "--time" not in o: o += ["--time", "240" if quick else "3000"]
    if "--par" not in o: o += ["--par", "3"]
    t = time.time()
    try:
        r = subprocess.run([str(RSYM), "--ll", ",".join(ll), "--fn", f["name"], "--out", str(out)] + o, capture_output=True, text=True,
                           timeout=700 if quick else 20000)
    except subprocess.TimeoutExpired:
        return dict(error="executor timeout", wall=time.time() - t)
    if not out.exists(): return dict(error="executor failed: " + (r.stdout + r.stderr)[-800:], wall=time.time() - t)
    j = json.loads(out.read_text())
    j["wall"] = time.time() - t
    return j

def known():
    f = V / "known_findings.json"
    return json.loads(f.read_text())["findings"] if f.exists() else []

def match_known(k, p, fn, v):
    if k.get("property") != p.id or k.get("fn") != fn or k.get("check") != v["id"]: return False
    w = k.get("where")
    if not w: return True
    x = {n.replace("#", "_"): int(val) for n, val in v["inputs"].items()}
    def s(n, bits=128):
        z = x.get(n, 0)
        return z - (1 << bits) if z >> (bits - 1) & 1 else z
    try: return bool(eval(w, {"__builtins__": {}}, dict(x, s=s, min=min, max=max, abs=abs)))
    except Exception: return False

def main():
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index("--fn") + 1] if "--fn" in sys.argv else None
    p = Prop(pid)
    if not RSYM.exists(): die("run setup first")
    ll, so = build(p)
    tb = time.time() - T0
    fns = [f for f in p.fns if (f["tier"] == "quick" or TIER == "thorough" or only) and (not only or f["name"] == only)]
    res = {}
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("RSYM_JOBS", "8"))) as ex:
        fut = {ex.submit(run_fn, p, ll, f): f for f in fns}
        for x in cf.as_completed(fut): res[fut[x]["name"]] = x.result()
    errors, viols, notes, known_hits, validated, samples = [], [], [], {}, 0, []
    ks = known()
    rd = B / "replay" / pid
    for f in fns:
        j = res[f["name"]]
        incomplete = None
        if j.get("error"):
            if "deadline" in j["error"] or "limit" in j["error"]: incomplete = j["error"]
            else: errors.append("%s: %s" % (f["name"], j["error"]))
        seen = set()
        for v in j.get("violations", []):
            k = next((k for k in ks if match_known(k, p, f["name"], v)), None)
            if k:
                known_hits.setdefault(k["what"], k)
                continue
            path = rd / ("%s.%s.inputs" % (f["name"], re.sub(r"\W+", "_", v["id"])))
            if (v["id"], "ok") in seen: continue
            rc, err = replay(so, f["name"], v["inputs"], path)
            if rc == 77 and ("RSYM-CHECK-FAILED %s\n" % v["id"]) in err:
                seen.add((v["id"], "ok"))
                viols.append((f["name"], v["id"], path))
            elif rc == 77:
                m = re.search(r"RSYM-CHECK-FAILED (.*)", err)
                # an earlier check fails on the same input: still a real violation (unless that one is known)
                v2 = dict(v, id=m.group(1) if m else "?")
                if not any(match_known(k, p, f["name"], v2) for k in ks):
                    seen.add((v["id"], "ok"))
                    viols.append((f["name"], v2["id"], path))
            else:
                errors.append("%s: counterexample to '%s' does not reproduce (exit %s): %s" % (f["name"], v["id"], rc, err[-300:].replace("\n", " | ")))
        for r in f["reach"]:
            if r not in j.get("reached", {}) and not j.get("error") and not j.get("violations"):
                errors.append("%s: '%s' is not reachable (vacuous harness)" % (f["name"], r))
        for r, w in j.get("reached", {}).items():
            if w is None:
                notes.append("%s: no witness for '%s'" % (f["name"], r))
                continue
            path = rd / ("%s.reach_%s.inputs" % (f["name"], re.sub(r"\W+", "_", r)))
            rc, err = replay(so, f["name"], w, path)
            if "RSYM-REACH %s\n" % r in err:
                validated += 1
                if len(samples) < 6: samples.append({"function": f["name"], "reaches": r, "inputs": w, "native_exit": rc})
            else:
                errors.append("%s: witness of '%s' does not replay (exit %s): %s" % (f["name"], r, rc, err[-300:].replace("\n", " | ")))
        if j.get("undecided"): notes.append("%s: undecided within the time limit: %s" % (f["name"], ", ".join(sorted(set(j["undecided"])))))
        if incomplete: notes.append("%s: exploration stopped: %s" % (f["name"], incomplete))
    s = lambda k: sum(j.get(k, 0) for j in res.values())
    fnset = sorted(set(x for j in res.values() for x in j.get("functions", [])))
    mine = [x for x in fnset if re.search(r"mango_v4|checked_math|margin_trade|mango_feeds", x) and "verif::" not in x]
    chk = {}
    for n, j in res.items():
        for c, d in j.get("checks", {}).items(): chk["%s/%s" % (n, c)] = d
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "explanation": "Symbolic execution of the LLVM IR that rustc produces from the current /repo sources; every assertion is decided by SMT over all values of the symbolic inputs within the bounds below. states = completed symbolic paths, transitions = IR instructions executed symbolically, traces_validated_against_impl = solver witnesses replayed on the natively compiled code with the same outcome.",
            "states": s("paths"), "transitions": s("instructions"), "traces_validated_against_impl": validated,
            "samples": samples or ["none"],
            "bounds": {f["name"]: f["bounds"] for f in fns},
            "solver_queries": {"branch": s("branch_queries"), "check_tasks": s("check_queries"), "branch_time_s": round(s("branch_time"), 2),
                               "check_time_s": round(s("check_time"), 2), "branches_undecided_kept_both": s("unknown_branches")},
            "obligations": {"instances": sum(d["occurrences"] for d in chk.values()), "by_simplification": sum(d["folded"] for d in chk.values()),
                            "unsat": sum(d["unsat"] for d in chk.values()), "sat": sum(d["sat"] for d in chk.values()), "unknown": sum(d["unknown"] for d in chk.values())},
            "checks": {k: {a: b for a, b in d.items() if a != "max"} for k, d in chk.items()},
            "path_ends": {n: j.get("ends", {}) for n, j in res.items()},
            "functions_encoded": len(fnset), "repo_functions_encoded": mine[:400],
            "incomplete": notes, "build_s": round(tb, 1),
        },
        "assumptions": p.assume + ["Cross-program calls, clock, rent and address derivation are the models in harness/world.rs", "A panic or returned error reverts the transaction (Solana runtime)",
                        "rustc 1.70 at opt-level 2 with overflow checks; dependency stand-ins in /verif/shims"],
        "wall_s": round(time.time() - T0, 1), "violations": len(viols),
    }
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1) + "\n")
    for k in known_hits: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for n in notes: print("NOTE " + n)
    for n, j in sorted(res.items()):
        print("  %-28s paths %5d  checks %s  %.1fs%s" % (n, j.get("paths", 0), sum(d["occurrences"] for d in j.get("checks", {}).values()), j["wall"], "" if not j.get("violations") else "  VIOLATED"))
    if viols:
        for fn, c, path in viols:
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            print("  %s: check '%s' fails; inputs in the file; replay: RSYM_INPUTS=%s python3 -c \"import ctypes; ctypes.CDLL('%s').%s()\"" % (fn, c, path, so, fn))
        for e in errors: print("NOTE " + e)
        sys.exit(1)
    if errors:
        for e in errors: print("ERROR " + e)
        sys.exit(2)
    print("OK %s (%s tier, %.1fs, build %.1fs)" % (pid, TIER, time.time() - T0, tb))

main()
