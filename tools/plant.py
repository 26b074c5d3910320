#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turns planted bugs (edits and a demo) into seeded/<id>/ after confirming, in a
scratch copy of /repo, that each one applies, builds, passes the stable tests, and that its demo tells the
changed tree from the unchanged one."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/usr/bin/env bash
# cwd: the repository. Builds and runs main.rs against it; exit 0 when it behaves as stated.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d /tmp/demo.XXXXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/work"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
lcms2 = { path = "$repo"@FEATURES@ }
chrono = "0.4"
[profile.release]
debug-assertions = false
overflow-checks = false
[workspace]
EOF
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg lcms2_verif -A warnings"
(cd "$d" && cargo build --offline --quiet @RELEASE@) || exit 9
cd "$d/work" && timeout 120 "$d/target/@DIR@/demo" "$d/work"
'''
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def stable(repo):
    """Names of the stable tests that do not pass."""
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    logs = ""
    for args in (["--lib", "--bins"], ["--test", "*"], ["--doc"]):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        if args[0] == "--test":
            for k in ("TEST", "DEV"):
                env[f"CARGO_PROFILE_{k}_DEBUG_ASSERTIONS"] = "false"
                env[f"CARGO_PROFILE_{k}_OVERFLOW_CHECKS"] = "true"
        r = sh("cargo", "test", "--workspace", "--locked", "--offline", "--no-fail-fast", *args, cwd=repo, env=env)
        logs += r.stdout + r.stderr
    ok = len(re.findall(r"^test .* \.\.\. ok$", logs, re.M))
    bad = re.findall(r"^test (.*) \.\.\. FAILED$", logs, re.M)
    if bad or ok < len(want):
        err = re.findall(r"^error.*(?:\n.*){0,4}", logs, re.M)
        return bad or [f"only {ok} passed", *err[:2]]
    return []
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    scratch = "/tmp/plantwork"
    shutil.rmtree(scratch, ignore_errors=True)
    sh("cp", "-a", "/repo", scratch)
    for p in ns["PLANTS"]:
        i = p["id"]
        if only and i not in only:
            continue
        sh("git", "-C", scratch, "checkout", "--", ".")
        try:
            for f, old, new in p["edits"]:
                t = open(f"{scratch}/{f}").read()
                assert t.count(old) == 1, (f, old, t.count(old))
                open(f"{scratch}/{f}", "w").write(t.replace(old, new))
        except AssertionError as e:
            print(i, "EDIT", e); continue
        diff = sh("git", "-C", scratch, "diff").stdout
        bad = stable(scratch)
        if bad:
            print(i, "TESTS", str(bad[:5])[:700]); continue
        out = f"{V}/seeded/{i}"
        tmp = tempfile.mkdtemp(prefix="plantdemo.")
        d = DEMO.replace("@FEATURES@", ', features = ["use_little_endian"]' if p.get("le") else "")
        d = d.replace("@RELEASE@", "--release" if p.get("release") else "").replace("@DIR@", "release" if p.get("release") else "debug")
        open(f"{tmp}/demo.sh", "w").write(p.get("demo_sh", d)); os.chmod(f"{tmp}/demo.sh", 0o755)
        open(f"{tmp}/main.rs", "w").write(ns.get("PRELUDE", "") + p["main"])
        a = sh("bash", f"{tmp}/demo.sh", cwd=scratch)
        b = sh("bash", f"{tmp}/demo.sh", cwd="/repo")
        if b.returncode != 0 or a.returncode == 0 or a.returncode == 9:
            print(i, "DEMO changed", a.returncode, a.stdout[-300:], a.stderr[-900:], "unchanged", b.returncode, b.stdout[-300:], b.stderr[-900:])
            shutil.rmtree(tmp); continue
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for f in ("demo.sh", "main.rs"):
            shutil.copy(f"{tmp}/{f}", f"{out}/{f}")
        open(f"{out}/patch.diff", "w").write(diff)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["what"]}, open(f"{out}/meta.json", "w"), indent=1)
        shutil.rmtree(tmp)
        print(i, "ok", "|", (a.stderr.strip().splitlines() or ["?"])[0][:150])
    shutil.rmtree(scratch, ignore_errors=True)
main()
