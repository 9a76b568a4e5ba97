"""check <property>: decides one property on /repo's current working tree."""
import os, sys, time, pickle, signal, resource, select, struct, random, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import build as builder
from report import *
import spec

T0 = time.time()


def known_findings():
    """(property, obligation) of the genuine defects that are recorded and not repaired."""
    out = set()
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.split("#")[0].strip()
            if line.startswith("finding: property="):
                p, key = line[len("finding: property="):].split(" ", 1)
                out.add((p, key.strip()))
    return out


def run_task(R, L, key, f, limit):
    def late(*_):
        raise bdd.Budget("out of time")
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit, 2.0)
    spec.WORLDS.clear()
    t = time.time()
    R.task(key, lambda: f(R))
    signal.setitimer(signal.ITIMER_REAL, 0)
    for w in spec.WORLDS:
        R.account(w)
    R.samples.append((round(time.time() - t, 2), key))


def pool(R, L, tasks, jobs, limit, deadline):
    results = pool1(R, L, tasks, jobs, limit, deadline)
    for i in sorted(results):
        R.obs += results[i].obs
        R.functions |= results[i].functions
        R.steps += results[i].steps
        R.samples += results[i].samples
    # What could not be decided for all inputs: does it fail for small ones?
    for part in range(4):
        if any(o[1] == "violated" and (R.prop, o[0]) not in R.known for o in R.obs):
            break
        open_ = [i for i in results if any(o[1] == "undecided" for o in results[i].obs) and not any(o[1] == "violated" for o in results[i].obs)]
        if not open_ or deadline - time.time() < 30:
            break
        spec.PART[0] = part
        more = pool1(R, L, [tasks[i] for i in open_], jobs, min(limit, 60), min(deadline, time.time() + 150))
        for j, i in enumerate(open_):
            bad = [o for o in more[j].obs if o[1] == "violated"]
            R.obs += bad
            results[i].obs += bad
    spec.PART[0] = None


def pool1(R, L, tasks, jobs, limit, deadline):
    """Every task in a process of its own, so that they share nothing and one that runs away is stopped."""
    todo = list(enumerate(tasks))[::-1]
    live = {}
    results = {}
    mem = int(26e9 / jobs)
    while todo or live:
        while todo and len(live) < jobs:
            i, (key, f) = todo.pop()
            left = deadline - time.time()
            if left < 1:
                R2 = Report(R.prop, R.tier, R.seed, R.known)
                R2.unknown(key, "no time left")
                results[i] = R2
                continue
            lim = min(limit, left)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                except Exception:
                    pass
                R2 = Report(R.prop, R.tier, R.seed, R.known)
                try:
                    run_task(R2, L, key, f, lim)
                except bdd.Budget as e:
                    R2.unknown(key, e)
                except MemoryError:
                    R2.unknown(key, "out of memory")
                data = pickle.dumps((R2.obs, R2.functions, R2.steps, R2.samples))
                with os.fdopen(w, "wb") as fo:
                    fo.write(data)
                os._exit(0)
            os.close(w)
            live[r] = (i, key, pid, [], time.time() + lim + 15)
        if not live:
            continue
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in list(live):
            i, key, pid, buf, lim = live[r]
            if r in rs:
                d = os.read(r, 1 << 20)
                if d:
                    buf.append(d)
                    continue
            elif time.time() > lim:
                os.kill(pid, signal.SIGKILL)
            else:
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            R2 = Report(R.prop, R.tier, R.seed, R.known)
            try:
                R2.obs, R2.functions, R2.steps, R2.samples = pickle.loads(b"".join(buf))
            except Exception:
                R2.obs, R2.functions, R2.steps, R2.samples = [], set(), 0, []
                R2.unknown(key, "the analysis ran out of time or memory")
            results[i] = R2
    return results


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import all_checks as checks
    given = os.environ.get("SA_DUMP")
    path = given or builder.dump(cfg=checks.CHECKS[prop].cfg)
    try:
        L = Lib(path)
    finally:
        if not given:
            os.unlink(path)
    R = Report(prop, tier, seed, known_findings())
    R.t0 = T0
    C = checks.CHECKS[prop]
    R.rules = C.rules
    R.assumptions = list(checks.ASSUMPTIONS) + list(C.assumptions)
    try:
        tasks = C.tasks(L, tier)
    except Anchor as e:
        tasks = []
        R.bad("anchor", "missing from the program: %s" % e)
    only = os.environ.get("SA_ONLY")
    if only:
        tasks = [t for t in tasks if only in t[0]]
    limit, total = (120, 600) if tier == "quick" else (1500, 6 * 3600)
    jobs = max(1, min(8, os.cpu_count() or 1))
    pool(R, L, tasks, jobs, limit, T0 + total)
    R.samples = [{"task": k, "seconds": t} for t, k in sorted(R.samples, reverse=True)[:20]]
    code = R.finish("other", C.explanation, None if only else (len(tasks), C.floor(tier)))
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    try:
        main()
    except builder.BuildError as e:
        print("error: %s" % e)
        sys.exit(2)
