#!/usr/bin/env python3
"""C32: the compiler type-checks /repo's crate under every feature subset, and
without `std` neither the crate nor anything it links loads the standard
library. Exit 0 held, 1 violation, 2 undecided."""
import json, os, re, shutil, subprocess, sys, time
os.chdir(os.path.dirname(os.path.abspath(__file__)))
HERE = os.getcwd()
T0 = time.time()
COMBOS = [("none", ""), ("serde", "serde"), ("std", "std"), ("std,serde", "std,serde")]

def toolchains():
    """(name, target or None, wrapped by the driver)"""
    out = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout.split("\n")
    names = [l.split()[0] for l in out if l.strip()]
    v = [("nightly", None, True), ("stable", None, False)]
    root = os.path.expanduser(os.environ.get("RUSTUP_HOME", "~/.rustup"))
    for n in names:
        lib = os.path.join(root, "toolchains", n, "lib", "rustlib")
        if os.path.isdir(lib):
            for t in sorted(os.listdir(lib)):
                if "-none-" in t and os.path.isdir(os.path.join(lib, t, "lib")):
                    v.append((n, t, False))
    return v

bad, undecided, ran, facts = [], [], [], 0
known = [l for l in open("known-findings.txt") if l.startswith("finding: property=C32 ")] if os.path.exists("known-findings.txt") else []
sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
for tc, target, wrapped in toolchains():
    for name, feats in COMBOS:
        if target and "std" in feats.split(","):
            continue
        what = f"features [{name}] on {tc}" + (f" for {target}" if target else "")
        env = dict(os.environ)
        env["CARGO_TARGET_DIR"] = f"{HERE}/work/features/{tc}"
        env.pop("RUSTFLAGS", None)
        if wrapped:
            env["RUSTFLAGS"] = "--cap-lints=warn"
        lst = f"{HERE}/work/features/list.txt"
        os.makedirs(os.path.dirname(lst), exist_ok=True)
        if wrapped:
            if os.path.exists(lst):
                os.remove(lst)
            env["ZDRIVER_LIST"] = lst
            env["ZDRIVER_CRATE"] = "z80emu"
            env["RUSTC_WORKSPACE_WRAPPER"] = f"{HERE}/engine/target/release/zdriver"
            env["LD_LIBRARY_PATH"] = f"{sysroot}/lib:" + env.get("LD_LIBRARY_PATH", "")
        base = ["cargo", "+" + tc]
        loc = ["--manifest-path", "/repo/Cargo.toml", "-p", "z80emu"]
        subprocess.run(base + ["clean", "--offline", "-q"] + loc + (["--target", target] if target else []), env=env, capture_output=True)
        cmd = base + ["check", "--offline", "--lib", "--message-format=short", "--no-default-features"] + loc
        if feats:
            cmd += ["--features", feats]
        if target:
            cmd += ["--target", target]
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        errs = [l for l in r.stderr.split("\n") if re.match(r"^\S+\.rs:\d+:\d+: error", l)]
        own = [l for l in errs if not l.startswith("/root/.cargo")]
        row = {"obligation": what}
        if r.returncode != 0:
            if own:
                bad.append((what, own))
            else:
                undecided.append((what, r.stderr.strip().split("\n")[-3:]))
        elif wrapped:
            if not os.path.exists(lst):
                undecided.append((what, ["the driver did not report"]))
            else:
                d = dict(l.split(" ", 1) for l in open(lst).read().split("\n") if " " in l)
                crates = d["crates"].split()
                row.update(items=int(d["items"]), functions=len(d["fns"].split("|")), crates=crates)
                facts += len(crates)
                if "std" not in feats.split(",") and "std" in crates:
                    bad.append((what, ["the crate or one it depends on links `std` (crates loaded: %s)" % " ".join(crates)]))
        ran.append(row)
new = []
for what, lines in bad:
    for l in lines:
        k = [f for f in known if re.search(r'what="([^"]*)"', f) and re.search(r'what="([^"]*)"', f).group(1) in l]
        if k:
            print(f"KNOWN-FINDING: property=C32 {what}: {l}")
        else:
            new.append((what, l))
ev = {"property": "C32", "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
      "coverage": {"explanation": "Rule: the compiler's name resolution, type, trait and borrow checking accept the library of /repo's current tree under every subset of its features, on the host and on every installed bare-metal target, and in a subset without `std` no loaded crate is `std` (for a bare-metal target there is none to load).",
                   "obligations": len(ran), "discharged": len(ran) - len({w for w, _ in bad}) - len(undecided), "undecided": len(undecided),
                   "crate_dependencies_inspected": facts,
                   "functions_analysed": max([r.get("functions", 0) for r in ran] or [0]),
                   "samples": ran, "exhaustive": True},
      "assumptions": ["the compiler accepts exactly what it compiles"], "wall_s": time.time() - T0, "violations": len(new)}
os.makedirs("evidence", exist_ok=True)
json.dump(ev, open("evidence/C32.json", "w"), indent=1)
shutil.rmtree(f"{HERE}/work/features", ignore_errors=True)
if new:
    os.makedirs("work/replay", exist_ok=True)
    p = f"{HERE}/work/replay/C32.txt"
    with open(p, "w") as f:
        for w, l in new:
            f.write(f"{w}: {l}\n")
    for w, l in new[:12]:
        print(f"C32: {w}\n    {l}")
    print(f"VIOLATION property=C32 replay={p}")
    sys.exit(1)
if undecided:
    for w, l in undecided:
        print("UNDECIDED", w, *l, sep="\n    ")
    sys.exit(2)
print(f"C32: {len(ran)} feature combinations, all accepted ({time.time()-T0:.1f} s)")
