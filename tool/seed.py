#!/usr/bin/env python3
"""Development helper (no check uses it): write and try out a planted bug.

seed.py new ID PROPERTY FILE OLD NEW ...   (used from python, see make())
seed.py try ID [--tests]    apply to a scratch copy, run the demo without and with the patch, optionally the stable tests
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
COPY = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# cwd: the repository. Builds a small program against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
{
  printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2024"\\n[workspace]\\n[dependencies]\\n'
@DEPS@
} > "$work/Cargo.toml"
cd "$work" || exit 3
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0
cargo build --offline -q 2> "$work/log" || { tail -40 "$work/log"; exit 4; }
cd "$work" && TOMBI_NO_CACHE=true timeout 60 "$work/target/debug/demo"
'''


def make(id, prop, edits, deps, main, needs, breaks):
    """edits: [(file, old, new)]"""
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", "-q", tmp + "/w"], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(tmp, "w", f)
            s = open(p, newline="").read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp + "/w", "diff"], capture_output=True, text=True, check=True).stdout
        open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/w"], check=True)
        shutil.rmtree(tmp)
    lines = []
    for dep in deps:
        if "=" in dep:
            lines.append(f"  printf '%s\\n' '{dep}'")
        else:
            extra = ""
            if dep == "tombi-text":
                extra = ", default-features = false, features = [\"serde\"]"
            dep, _, ft = dep.partition("+")
            if ft:
                extra = ", features = [%s]" % ", ".join(f'\"{x}\"' for x in ft.split("+"))
            path = f"rust/{dep}" if dep.startswith("serde_tombi") else (f"extensions/{dep}" if dep.startswith("tombi-extension-") else f"crates/{dep}")
            lines.append(f"  printf '{dep} = {{ path = \"%s\"{extra} }}\\n' \"$repo/{path}\"")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@DEPS@", "\n".join(lines)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, **kw)


def trial(id, tests):
    d = os.path.join(SEEDED, id)
    if not os.path.exists(COPY):
        sh(f"cp -a /repo {COPY}", "/tmp", check=True)
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", COPY, check=True)
    a = sh(os.path.join(d, "demo.sh"), COPY, capture_output=True, text=True)
    sh(f"git apply {d}/patch.diff", COPY, check=True)
    b = sh(os.path.join(d, "demo.sh"), COPY, capture_output=True, text=True)
    print(id, "clean rc", a.returncode, "patched rc", b.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else "", "|", (b.stdout + b.stderr)[-300:])
    good = a.returncode == 0 and b.returncode not in (0, 3, 4)
    if tests and good:
        script = open("/opt/vp/test.sh").read().replace("/repo", COPY).replace("work=/opt/vp/work", "work=/tmp/seedvpwork").replace(". /opt/vp/env.sh", f". /opt/vp/env.sh; export CARGO_TARGET_DIR={COPY}/target")
        script = script.replace("vp:/opt/vp/nextest.toml", "vp:/tmp/seednextest.toml").replace("cargo test --workspace --doc", "true")
        open("/tmp/seednextest.toml", "w").write(open("/opt/vp/nextest.toml").read().replace("/opt/vp/work", "/tmp/seedvpwork"))
        open("/tmp/seedtest.sh", "w").write(script)
        sh("bash /tmp/seedtest.sh /tmp/seedout.json", COPY, capture_output=True)
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        base = {x for x in base if not x.startswith("doc:")}
        try:
            ok = set(json.load(open("/tmp/seedout.json"))["passed"])
            print("  stable tests broken:", sorted(base - ok)[:5], len(base - ok))
            good &= not (base - ok)
        except Exception as e:
            print("  tests gave nothing:", e)
            good = False
    sh("git checkout -q -- .", COPY)
    print("  ", id, "KEEP" if good else "REJECT")
    return good


if __name__ == "__main__":
    if sys.argv[1] == "try":
        for i in [x for x in sys.argv[2:] if not x.startswith("--")]:
            trial(i, "--tests" in sys.argv)
