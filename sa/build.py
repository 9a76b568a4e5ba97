"""Compiles /repo's current working tree up to MIR and writes the program down (driver/), for the analysis to read.

Nothing of /repo is run; its tracked files stay as they are."""
import fcntl, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
DRIVER = os.path.join(VERIF, "driver")


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS")) and k != "CARGO_HOME":
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e.update(kw)
    return e


def run(cmd, e, what):
    p = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


def sysroot():
    return subprocess.run(["rustc", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()


def lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    """The MIR dumper, built if it is not up to date."""
    run(["cargo", "build", "--offline", "--manifest-path", os.path.join(DRIVER, "Cargo.toml"), "--target-dir", os.path.join(CACHE, "driver")],
        env(), "building the MIR dumper")
    return os.path.join(CACHE, "driver", "debug", "mirdump")


def dump(out=None, repo=None, cfg=None):
    """Dump /repo's program; returns the file."""
    repo = repo or REPO
    with lock():
        drv = driver()
        tgt = os.path.join(CACHE, "target")
        if out is None:
            fd, out = tempfile.mkstemp(suffix=".json", dir=CACHE)
            os.close(fd)
        # Cargo's freshness check would skip the dumper: forget the crate itself, keep its dependencies.
        d = os.path.join(tgt, "debug")
        for sub in (".fingerprint", "incremental", "build", "deps"):
            p = os.path.join(d, sub)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if n.startswith(("stun_codec", "libstun_codec")):
                        q = os.path.join(p, n)
                        shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
        e = env(RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_CRATE="stun_codec", MIRDUMP_OUT=out, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
                RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums",
                CARGO_INCREMENTAL="0")
        if cfg:
            e["MIRDUMP_CFG"] = cfg
        open(out, "w").close()
        run(["cargo", "check", "--offline", "--lib", "--manifest-path", os.path.join(repo, "Cargo.toml"), "--target-dir", tgt], e, "compiling /repo")
        if os.path.getsize(out) == 0:
            raise BuildError("the MIR dumper wrote nothing")
    return out


if __name__ == "__main__":
    if sys.argv[1:] == ["--driver"]:
        with lock():
            print(driver())
        sys.exit(0)
    print(dump(*(sys.argv[1:2] or [None]), repo=sys.argv[2] if len(sys.argv) > 2 else None, cfg=sys.argv[3] if len(sys.argv) > 3 else None))
