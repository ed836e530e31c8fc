#!/usr/bin/env python3
"""Generate /verif/build/ws: a cargo workspace that compiles /repo's mango-v4 sources in place
(lib path = /repo/programs/mango-v4/src/lib.rs) against the dependency stand-ins in /verif/shims."""
import os, pathlib, re, sys
import tomllib
V = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("MANGO_REPO", "/repo"))
WS = pathlib.Path(os.environ.get("MANGO_WS", str(V / "build" / "ws")))

SHIMS = ["default-env", "fixed", "num", "solana-program-test", "openbook-v2", "pyth-sdk-solana", "pyth-solana-receiver-sdk", "serum_dex",
         "solana-address-lookup-table-program", "solana-security-txt", "static_assertions",
         "switchboard-on-demand", "switchboard-program", "switchboard-solana"]
DROP_DEV = {"async-trait", "regex", "spl-associated-token-account"}

def put(p, text):
    p.parent.mkdir(parents=True, exist_ok=True)
    if not p.exists() or p.read_text() != text:
        p.write_text(text)

def mirror(src, dst):
    """copy a small crate by content (cargo notices content changes through the copy's new mtime)"""
    have = {f.relative_to(dst) for f in dst.rglob("*") if f.is_file()} if dst.exists() else set()
    for f in src.rglob("*"):
        if f.is_file() and "target" not in f.relative_to(src).parts:
            r = f.relative_to(src)
            have.discard(r)
            b = f.read_bytes()
            if not (dst / r).exists() or (dst / r).read_bytes() != b:
                (dst / r).parent.mkdir(parents=True, exist_ok=True)
                (dst / r).write_bytes(b)
    for r in have: (dst / r).unlink()

def dep_line(name, spec):
    if isinstance(spec, str):
        spec = {"version": spec}
    spec = dict(spec)
    pkg = spec.get("package", name)
    if pkg in SHIMS:
        d = {"path": str(V / "shims" / pkg)}
        if pkg != name:
            d["package"] = pkg
        if pkg in ("fixed", "openbook-v2", "serum_dex"):
            f = spec.get("features", [])
            if f:
                d["features"] = f
        if spec.get("optional"):
            d["optional"] = True
        spec = d
    def val(x):
        if isinstance(x, bool): return "true" if x else "false"
        if isinstance(x, list): return "[" + ", ".join(val(y) for y in x) + "]"
        return '"%s"' % x
    return "%s = { %s }" % (name, ", ".join("%s = %s" % (k, val(v)) for k, v in spec.items()))

def main():
    root = tomllib.loads((REPO / "Cargo.toml").read_text())
    mg = tomllib.loads((REPO / "programs/mango-v4/Cargo.toml").read_text())
    out = ["[workspace]", 'members = ["mango-v4", "cm-harness", "mt-harness"]', 'resolver = "1"', "", "[workspace.dependencies]"]
    for k, v in root["workspace"]["dependencies"].items():
        if k in ("anchor-lang", "anchor-spl", "solana-program", "solana-sdk", "solana-logger"):
            out.append(dep_line(k, v))
    # checks are built like a release build of the program (overflow-checks on), minus vectorisation noise
    out += ["", "[profile.dev]", "opt-level = 2", "debug = 0", "overflow-checks = true", "debug-assertions = false",
            'panic = "abort"', "codegen-units = 1", "incremental = false",
            "", "[profile.test]", "opt-level = 0", "debug = 1", "debug-assertions = true", ""]
    put(WS / "Cargo.toml", "\n".join(out))
    o = ["[package]", 'name = "mango-v4"', 'version = "%s"' % mg["package"]["version"], 'edition = "2021"', "autotests = false", "",
         "[lib]", 'name = "mango_v4"', 'crate-type = ["lib"]', "doctest = false", 'path = "%s"' % (REPO / "programs/mango-v4/src/lib.rs"), "",
         "[features]"]
    for k, v in mg["features"].items():
        o.append("%s = [%s]" % (k, ", ".join('"%s"' % x for x in v)))
    o += ["", "[dependencies]"]
    for k, v in mg["dependencies"].items():
        o.append(dep_line(k, v))
    o.append('rsym-api = { path = "%s" }' % (V / "shims/rsym-api"))
    o += ["", "[dev-dependencies]"]
    for k, v in mg["dev-dependencies"].items():
        if k in DROP_DEV: continue
        o.append(dep_line(k, v))
    o.append("")
    put(WS / "mango-v4/Cargo.toml", "\n".join(o))
    def harness(name, deps):
        put(WS / name / "Cargo.toml", "\n".join(["[package]", 'name = "%s"' % name, 'version = "0.1.0"', 'edition = "2021"', "", "[lib]",
            'path = "%s"' % (V / "crates" / name / "src/lib.rs"), "doctest = false", "", "[dependencies]",
            'rsym-api = { path = "%s" }' % (V / "shims/rsym-api"), 'fixed = { path = "%s" }' % (V / "shims/fixed")] + deps + [""]))
    mirror(REPO / "lib/checked_math/src", WS / "checked_math/src")
    put(WS / "checked_math/Cargo.toml", (REPO / "lib/checked_math/Cargo.toml").read_text())
    mirror(REPO / "programs/margin-trade/src", WS / "margin-trade/src")
    harness("cm-harness", ['checked_math = { path = "%s" }' % (WS / "checked_math")])
    mt = tomllib.loads((REPO / "programs/margin-trade/Cargo.toml").read_text())
    harness("mt-harness", ['margin-trade = { path = "%s", features = ["no-entrypoint"] }' % (WS / "margin-trade")] + [dep_line(k, mt["dependencies"][k]) for k in ("anchor-lang", "anchor-spl", "solana-program") if k in mt["dependencies"]])
    o = ["[package]", 'name = "margin-trade"', 'version = "0.1.0"', 'edition = "2021"', "", "[lib]", 'name = "margin_trade"', "doctest = false", "", "[features]"]
    for k, v in mg["features"].items() if False else mt["features"].items():
        o.append("%s = [%s]" % (k, ", ".join('"%s"' % x for x in v)))
    o += ["", "[dependencies]"] + [dep_line(k, v) for k, v in mt["dependencies"].items()] + [""]
    put(WS / "margin-trade/Cargo.toml", "\n".join(o))
    lock = (REPO / "Cargo.lock").read_text()
    seen = WS / "repo.lock"
    if not seen.exists() or seen.read_text() != lock or not (WS / "Cargo.lock").exists():
        put(WS / "Cargo.lock", lock)
        put(seen, lock)

main()
