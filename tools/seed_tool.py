"""Generates and verifies planted bugs. seeds_*.py define BUGS; usage: seed_tool.py gen|verify|check [id...]"""
import sys, os, subprocess, json, shutil, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
SC = "/tmp/seed_scratch"
os.environ["RUSTFLAGS"] = "-Awarnings"
os.environ["RUST_BACKTRACE"] = "0"
DEMO = r'''#!/bin/bash
# Exit 0: the property holds on what demo.rs does. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
stun_codec = { path = "$repo" }
bytecodec = "0.4"
trackable = "1"
[workspace]
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER=
cd "$d" || exit 3
cargo build -q --offline || exit 3
timeout 100 ./target/debug/demo
'''


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def scratch():
    if not os.path.isdir(SC):
        subprocess.check_call(["cp", "-a", "/repo", SC])
    subprocess.check_call("git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)", shell=True, cwd=SC)


def gen(ids):
    import seeds
    scratch()
    for b in seeds.BUGS:
        if ids and b["id"] not in ids and b["id"].split("-")[0] not in ids:
            continue
        sh("git checkout -q -- .", SC)
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        _, diff = sh("git diff", SC)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO if "without trackable" not in b["demo"] else DEMO.replace('trackable = "1"\n', "").replace("cargo build -q --offline || exit 3", "cargo build -q --offline || exit 1"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"].strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("git checkout -q -- .", SC)
        print("generated", b["id"])


def dirs(ids):
    return [x for x in sorted(os.listdir(os.path.join(V, "seeded"))) if not ids or x in ids or x.split("-")[0] in ids]


def verify(ids):
    scratch()
    for i in dirs(ids):
        d = os.path.join(V, "seeded", i)
        r0, o0 = sh("bash %s/demo.sh" % d, SC)
        rc, o = sh("git apply %s/patch.diff" % d, SC)
        if rc:
            print(i, "patch does not apply", o)
            continue
        rt, ot = sh("cargo test --offline 2>&1", SC, {"CARGO_TARGET_DIR": SC + "/target"})
        r1, o1 = sh("bash %s/demo.sh" % d, SC)
        sh("git checkout -q -- .", SC)
        ok = r0 == 0 and rt == 0 and r1 not in (0, 3)
        print(i, "OK" if ok else "BAD: clean demo %d, tests %d, patched demo %d" % (r0, rt, r1))
        if not ok:
            print(o0[-1500:], ot[-1500:] if rt else "", o1[-1500:])


def check(ids, props=None):
    """Which checks catch it."""
    scratch()
    for i in dirs(ids):
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        sh("git apply %s/patch.diff" % d, SC)
        rc, o = sh("python3 sa/build.py /tmp/seed_dump.json %s" % SC, V)
        sh("git checkout -q -- .", SC)
        if rc:
            print(i, "no dump", o[-500:])
            continue
        import importlib
        want = props or [meta["property"]]
        for p in want:
            rc, o = sh("python3 sa/run.py %s quick" % p, V, {"SA_DUMP": "/tmp/seed_dump.json"})
            und = o.count("undecided: ")
            print(i, p, "CAUGHT" if rc == 1 and "VIOLATION" in o else "missed" if rc == 0 else "rc %d" % rc, "(%d undecided)" % und)
            if "-v" in sys.argv:
                print(o[:1500])
            sys.stdout.flush()


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("-")]
    if sys.argv[1] == "all":
        man = json.load(open(V + "/MANIFEST.json"))
        check(a, [c["property"] for c in man["checks"]])
    else:
        {"gen": gen, "verify": verify, "check": check}[sys.argv[1]](a)
