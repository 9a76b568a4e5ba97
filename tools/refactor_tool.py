"""refactor_tool.py [-p C01,C02] [-n] [id...]: applies each refactoring to a copy of /repo, runs its tests and every check."""
import sys, os, subprocess, json, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
SC = os.environ.get("REF_SC", "/tmp/ref_scratch")


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    import refactors
    a = sys.argv[1:]
    props = None
    notest = False
    while a and a[0].startswith("-"):
        if a[0] == "-p":
            props = a[1].split(",")
            a = a[2:]
        elif a[0] == "-n":
            notest = True
            a = a[1:]
    man = json.load(open(V + "/MANIFEST.json"))
    props = props or [c["property"] for c in man["checks"]]
    if not os.path.isdir(SC):
        subprocess.check_call(["cp", "-a", "/repo", SC])
    for i, edits in refactors.REFS.items():
        if a and i not in a:
            continue
        sh("git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)", SC)
        bad = False
        for f, old, new in edits:
            p = os.path.join(SC, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, f, "found %d times:\n%s" % (s.count(old), old))
                bad = True
                continue
            open(p, "w").write(s.replace(old, new))
        if bad:
            continue
        if not notest:
            rc, o = sh("cargo test --offline --lib 2>&1", SC, {"RUSTFLAGS": "-Awarnings"})
            if rc:
                print(i, "TESTS FAIL\n", o[-3000:])
                continue
        dump = "/tmp/ref_%s.json" % i
        rc, o = sh("python3 sa/build.py %s %s" % (dump, SC), V)
        if rc:
            print(i, "no dump", o[-1500:])
            continue
        t = time.time()

        def one(p):
            return p, sh("timeout 900 python3 sa/run.py %s quick" % p, V, {"SA_DUMP": dump, "PYTHONHASHSEED": "0"})
        with ThreadPoolExecutor(3) as ex:
            for p, (rc, o) in ex.map(one, props):
                und = [l for l in o.splitlines() if "ndecided" in l]
                if rc or any("0 undecided" not in l for l in und):
                    print(i, p, "rc", rc)
                    seen = set()
                    for l in o.splitlines():
                        k = l.split(": ", 2)[-1][:60] if l.startswith("undecided") else l
                        if k not in seen and len(seen) < 6 and not l.startswith("KNOWN"):
                            seen.add(k)
                            print("   ", l[:400])
                    sys.stdout.flush()
        print(i, "done in %d s" % (time.time() - t))
        sys.stdout.flush()


if __name__ == "__main__":
    main()
