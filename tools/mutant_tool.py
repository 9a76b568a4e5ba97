"""mutant_tool.py [-a] [-n] [id...]: applies each defect of mutants.py to a copy of /repo, runs its tests and the check of the property (-a: every check)."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from refactor_tool import sh
SC = os.environ.get("MUT_SC", "/tmp/mut_scratch")


def main():
    import mutants
    a = sys.argv[1:]
    flags = [x for x in a if x.startswith("-")]
    ids = [x for x in a if not x.startswith("-")]
    man = json.load(open(V + "/MANIFEST.json"))
    if os.path.isdir(SC):
        shutil.rmtree(SC)
    subprocess.check_call(["cp", "-a", "/repo", SC])
    for i, prop, edits in mutants.MUTS:
        if ids and i not in ids:
            continue
        sh("git checkout -q -- .", SC)
        bad = False
        for f, old, new in edits:
            p = os.path.join(SC, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, f, "found %d times: %s" % (s.count(old), old[:60]))
                bad = True
                continue
            open(p, "w").write(s.replace(old, new))
        if bad:
            continue
        t = ""
        if "-n" not in flags:
            rc, o = sh("cargo test --offline --lib 2>&1", SC, {"RUSTFLAGS": "-Awarnings"})
            if rc:
                print(i, prop, "TESTS FAIL" if "test result" in o else "DOES NOT BUILD\n" + o[-800:], flush=True)
                continue
        dump = "/tmp/mut_%s.json" % i
        rc, o = sh("python3 sa/build.py %s %s" % (dump, SC), V)
        if rc:
            print(i, "no dump", o[-500:], flush=True)
            continue
        for p in [c["property"] for c in man["checks"]] if "-a" in flags else [prop]:
            rc, o = sh("timeout 900 python3 sa/run.py %s quick" % p, V, {"SA_DUMP": dump})
            und = [l for l in o.splitlines() if l.startswith("undecided: ")]
            print(i, p, "CAUGHT" if rc == 1 and "VIOLATION" in o else "missed" if rc == 0 else "rc %d" % rc, "(%d undecided)" % len(und), und[0][:200] if und else "", flush=True)
        os.remove(dump) if "-k" not in flags else None


if __name__ == "__main__":
    main()
