"""Obligations, their verdicts, counterexamples, and what a check prints and writes."""
import json, os, time, traceback
from spec import *
import bdd

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Found(Exception):
    pass


def low_witness(f, rnd=None, small=()):
    out = {}
    while f > 1:
        want_lo = LO[f] != 0 if rnd is None or VAR[f] in small else (LO[f] != 0 and (HI[f] == 0 or rnd.random() < .5))
        if want_lo:
            out[VAR[f]] = False
            f = LO[f]
        else:
            out[VAR[f]] = True
            f = HI[f]
    return out


def high_length_bits(*values):
    """The variables of the bits from the fifth on of the lengths of sequences, which are best small in an example."""
    out = set()

    def visit(v, depth=0):
        if type(v) is Seq:
            for g, segs in v.alts:
                for x in segs:
                    if x[0] != "L":
                        for lvl in set().union(*[bdd.support(b) for b in x[-1].b if b > 1] or [()]):
                            n = NAMES.get(lvl, "")
                            if n.endswith("]") and int(n.rsplit("[", 1)[1][:-1]) >= 4:
                                out.add(lvl)
                    elif depth < 3:
                        for y in x[1][:8]:
                            visit(y, depth + 1)
        elif isinstance(v, Agg):
            for x in v.v:
                visit(x, depth)
        elif type(v) is Enum:
            for p in v.p.values():
                for x in p or ():
                    visit(x, depth)
    for v in values:
        visit(v)
    return out


class Asg:
    """An assignment of the input bits, made consistent for opaque functions: equal arguments, equal results."""

    def __init__(self, w, base, seed, small=()):
        self.w = w
        self.seed = seed
        self.small = small
        self.a = dict(base)
        self.fix()

    def bit(self, lvl):
        v = self.a.get(lvl)
        if v is None:
            # Bits that do not matter: spread, so that different inputs look different.
            v = self.a[lvl] = bool(hash((lvl * 2654435761 ^ self.seed * 40503)) >> 7 & 1) if self.seed and lvl not in self.small else False
        return v

    def ev(self, f):
        while f > 1:
            f = HI[f] if self.bit(VAR[f]) else LO[f]
        return f

    def num(self, v):
        r = 0
        for i, x in enumerate(v.b):
            r |= self.ev(x) << i
        return r

    def runs(self, s):
        for g, segs in s.alts:
            if self.ev(g):
                out = []
                for x in segs:
                    if x[0] == "L":
                        out += [self.conc(y) for y in x[1]]
                    elif x[0] == "S":
                        at, n = self.num(x[2]), self.num(x[3])
                        if n > 4000:
                            raise Undecided("too long to write out")
                        for i in range(n):
                            out.append(self.conc(src_get(x[1], k64(at + i))))
                    else:
                        n = self.num(x[2])
                        if n > 4000:
                            raise Undecided("too long to write out")
                        out += [self.conc(x[1])] * n
                return tuple(out[:self.num(s.ln)]) if s.ln is not None else tuple(out)
        return ()

    def conc(self, v):
        if type(v) is BV:
            return self.num(v)
        if type(v) is Seq:
            return self.runs(v)
        if isinstance(v, Agg):
            return tuple(self.conc(x) for x in v.v)
        if type(v) is Enum:
            for k, g in v.g.items():
                if self.ev(g):
                    return (k,) + tuple(self.conc(x) for x in v.p.get(k) or ())
            return None
        if isinstance(v, (str, int)):
            return v
        if type(v) is Opq:
            for g, t in v.alts:
                if self.ev(g):
                    return ("opaque", str(t))
        raise Undecided("no concrete value for %s" % type(v).__name__)

    def fix(self):
        """Opaque results follow their arguments."""
        for name, apps in self.w.ip.seq_fns.items():
            tab = {}
            for xs, out in apps:
                if name == "chars" or any(lvl in self.a for x in out.b for lvl in [VAR[x]] if x > 1) or len(apps) > 1:
                    try:
                        key = tuple(self.conc(x) for x in xs)
                    except (Undecided, bdd.Budget):
                        continue
                    if key in tab:
                        for x, v in zip(out.b, tab[key]):
                            if x > 1:
                                self.a[VAR[x]] = bool(v)
                    else:
                        tab[key] = tuple(self.ev(x) for x in out.b)
        for a, b, r in self.w.ip.wide_eqs:
            self.a[VAR[r]] = all(self.ev(x) == self.ev(y) for x, y in zip(a, b))

    def readable(self):
        res = {}
        for lvl, v in self.a.items():
            n = NAMES.get(lvl)
            if n is None:
                continue
            nm, i = n.rsplit("[", 1)
            res.setdefault(nm, {})[int(i[:-1])] = v
        out = {}
        for nm in sorted(res):
            out[nm] = sum(1 << i for i, v in res[nm].items() if v)
        return out


class Report:
    def __init__(self, prop, tier, seed, known):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obs = []           # (key, verdict, detail)
        self.known = known
        self.functions = set()
        self.calls = 0
        self.steps = 0
        self.rules = []
        self.notes = []
        self.samples = []
        self.assumptions = []
        self.current = None

    # -- verdicts

    def good(self, key, n=1):
        self.obs.append((key, "held", None))

    def bad(self, key, why, where=None, witness=None):
        self.obs.append((key, "violated", {"why": why, "where": where, "input": witness}))

    def unknown(self, key, why):
        self.obs.append((key, "undecided", {"why": str(why)}))

    def require(self, w, key, bad, why, where=None):
        """Discharge the obligation that `bad` never holds (and that what differs() doubted is equal)."""
        bad = AND(bad, w.axioms)
        doubts, w.doubts = w.doubts, []
        if bad == 0 and not doubts:
            self.good(key)
            return True
        tries = []
        import random
        rnd = random.Random(self.seed)
        if bad:
            tries.append((low_witness(bad), 0))
            tries.append((bdd.witness(bad), 1))
            for i in range(6):
                tries.append((low_witness(bad, rnd), i + 2))
        for base, sd in tries:
            try:
                a = Asg(w, base, sd)
                if a.ev(bad):
                    self.bad(key, why, where, a.readable())
                    return False
            except Undecided:
                pass
        for x, y, p in doubts:
            p = AND(p, w.axioms)
            if p == 0:
                continue
            small = high_length_bits(x, y)
            for i in range(24):
                sm = small if i < 16 else ()
                base = low_witness(p) if i == 0 else low_witness(p, rnd, sm)
                try:
                    a = Asg(w, base, i, sm)
                    if a.ev(p) and a.conc(x) != a.conc(y):
                        self.bad(key, why, where, a.readable())
                        return False
                except (Undecided, bdd.Budget):
                    pass
        if bad == 0 and all(AND(p, w.axioms) == 0 for x, y, p in doubts):
            self.good(key)
            return True
        self.unknown(key, "not established, and no counterexample: " + why)
        return False

    def task(self, key, f, panics=False):
        """Run one analysis; what it cannot decide stays undecided."""
        self.current = key
        try:
            f()
        except Undecided as e:
            self.unknown(key, "%s [%s]" % (e, " < ".join(getattr(e, "stack", ()))))
            if os.environ.get("SA_DEBUG") == "2":
                traceback.print_exc()
        except bdd.Budget as e:
            self.unknown(key, e)
            if os.environ.get("SA_DEBUG") == "2":
                traceback.print_exc()
        except RecursionError as e:
            self.unknown(key, "recursion")
        except Anchor as e:
            if PART[0] is None:
                self.bad(key, "missing from the program: %s" % e)
        except Diverges as e:
            if PART[0] is None:
                self.bad(key, "never returns normally: %s" % e)
        except Exception as e:
            # A defect of the analysis, not of the program.
            self.unknown(key, "internal: %s: %s" % (type(e).__name__, e))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
    def account(self, w):
        self.steps += w.ip.steps
        self.functions |= {w.L.P.insts[i].dfn for i in w.ip.visited}

    # -- output

    def finish(self, level="other", explanation="", floors=None):
        n = len(self.obs)
        held = sum(1 for o in self.obs if o[1] == "held")
        viol = [o for o in self.obs if o[1] == "violated"]
        und = [o for o in self.obs if o[1] == "undecided"]
        code = 0
        fresh = []
        seen_known = []
        for key, _, d in viol:
            if (self.prop, key) in self.known:
                seen_known.append(key)
            else:
                fresh.append((key, d))
        if floors is not None and floors[0] < floors[1] and not fresh:
            fresh.append(("analyses", {"why": "only %d analyses were set up, at least %d expected: the rule no longer sees the code it is about" % floors, "where": None, "input": None}))
        for key in sorted(set(seen_known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, key))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "explanation": explanation,
            "rules": self.rules,
            "analyses": floors[0] if floors else None,
            "obligations": n,
            "held": held,
            "violated_known": len(seen_known),
            "undecided": len(und),
            "undecided_list": [{"obligation": k, "why": d["why"]} for k, _, d in und[:40]],
            "functions_analysed": len(self.functions),
            "functions": sorted(self.functions)[:400],
            "abstract_steps": self.steps,
            "sample_obligations": [k for k, _, _ in self.obs[:: max(1, n // 12)]][:14],
        }
        if self.samples:
            cov["samples"] = self.samples[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(fresh)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d held, %d known findings, %d undecided, %d functions, %.1f s" %
              (self.prop, n, held, len(seen_known), len(und), len(self.functions), time.time() - self.t0))
        for k, _, d in und:
            print("undecided: %s: %s" % (k, d["why"][:300]))
        if fresh:
            rp = os.path.join(VERIF, "evidence", self.prop + ".replay.json")
            with open(rp, "w") as f:
                json.dump([{"obligation": k, **d} for k, d in fresh], f, indent=1, default=str)
            for k, d in fresh[:20]:
                print("  %s: %s%s%s" % (k, d["why"], " at " + str(d["where"]) if d["where"] else "",
                                        " with " + json.dumps(d["input"])[:600] if d["input"] else ""))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            code = 1
        return code
