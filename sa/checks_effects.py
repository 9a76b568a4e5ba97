"""No hidden state and no effects: a closed call graph, what it calls, what it refers to."""
import re
from checks_faults import *

STD = ("core", "alloc", "std", "hashbrown", "rustc_demangle", "memchr")
# Crates whose functions are taken as functions of their input (assumption), and error values.
OPAQUE = ("trackable", "sha1", "hmac", "md5", "crc", "digest", "generic_array", "block_buffer", "crypto_common", "typenum", "cpufeatures", "subtle", "crc_catalog", "inout")

DENIED = re.compile(r"""
    (^|[<&\s(,])(std|core|alloc)::(
        time::(Instant|SystemTime)::
      | env:: | fs:: | process:: | os:: | sys:: | backtrace::
      | thread::
      | io::(stdin|Stdin)
      | net::(TcpStream|TcpListener|UdpSocket|ToSocketAddrs|LookupHost)
      | sync::(atomic|Mutex|RwLock|Condvar|Barrier|mpsc|Once|poison|ReentrantLock)
      | arch:: | intrinsics::(volatile|atomic|unaligned_volatile)
      | hash::RandomState | hash::random | collections::hash_map::RandomState | collections::hash::map::RandomState
      | collections::(hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|Drain|IntoKeys|IntoValues)
      | ptr::(read_volatile|write_volatile)
    )
  | LocalKey | rand:: | getrandom | chrono:: | libc:: | fastrand
  | (const_ptr|mut_ptr)::<impl\ \*(const|mut)\ T>::(addr|expose_provenance)
""", re.X)
ONCE = re.compile(r"^std::sync::(OnceLock|once_lock::OnceLock)(::<T>)?::get_or_init$|^std::sync::(LazyLock|lazy_lock::LazyLock)(::<T, F>)?::(new|force)$|<std::sync::(LazyLock|lazy_lock::LazyLock)<T, F> as std::ops::Deref>::deref|^std::sync::(OnceLock|once_lock::OnceLock)(::<T>)?::(new|get)$")
CELLS = ("cell::UnsafeCell",)


class Graph:
    def __init__(self, L):
        self.L = L
        self.P = L.P
        self.start = [i for i in L.P.insts if i.local and i.body is not None]

    def uses(self, body):
        """Of a body: instances called or referred to, allocations, pointer casts, others; each with its place."""
        insts, allocs, odd = [], [], []

        def konst(c, span):
            if not isinstance(c, dict):
                return
            if "ty" in c and c.get("c") in ("zst",):
                j = self.P.types[c["ty"]].j
                if j.get("inst") is not None:
                    insts.append((j["inst"], span))
            a = c.get("alloc")
            if isinstance(a, dict):
                for off, p in a.get("ptrs", ()):
                    allocs.append((p, span))

        def walk(x, span):
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    k = x[0]
                    if k == "const" and len(x) > 1:
                        konst(x[1], span)
                        return
                    if k == "cast":
                        if "Expose" in x[1] or x[1] in ("PtrToPtrExpose",):
                            odd.append(("the address of something is turned into a number", span))
                        for y in x[4:]:
                            if isinstance(y, int):
                                insts.append((y, span))
                    if k in ("other", "rt") and len(x) > 1 and "ThreadLocalRef" in str(x[1]):
                        odd.append(("a thread-local variable", span))
                    if k == "asm":
                        odd.append(("inline assembly", span))
                for y in x:
                    if isinstance(y, (list, dict)):
                        walk(y, span)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y, span)
        for st, term in body["blocks"]:
            for q in st:
                walk(q, q[-1] if isinstance(q[-1], str) else None)
            sp = term[-1] if isinstance(term[-1], str) else None
            walk(term, sp)
            if term[0] == "call":
                if isinstance(term[1], int):
                    insts.append((term[1], sp))
                elif isinstance(term[1], str):
                    odd.append(("a call of %s" % term[1], sp))
            if term[0] == "drop" and isinstance(term[3], int):
                insts.append((term[3], sp))
        return insts, allocs, odd

    def closed(self):
        """Every function of this crate and all they reach in crates that are looked into."""
        seen, todo = {}, list(self.start)
        while todo:
            i = todo.pop()
            if i.id in seen:
                continue
            u = seen[i.id] = (i,) + self.uses(i.body)
            for j, sp in u[1]:
                c = self.P.insts[j]
                if c.body is not None and c.krate not in OPAQUE and c.krate not in STD:
                    todo.append(c)
                elif c.body is not None and c.krate in STD:
                    # A standard function that is given one of this crate's: what it calls in turn.
                    todo.append(c)
        return seen


def deep_cell(L, tid, seen=None, lazy=True):
    """Is there anything in a value of this type, also behind pointers, that can change while it is shared?"""
    seen = seen if seen is not None else set()
    if tid in seen:
        return None
    seen.add(tid)
    t = L.T[tid]
    if t.k == "adt":
        d = t.j["def"]
        if any(d.endswith(c) for c in CELLS):
            return t.name
        if d.split("::")[-1] in ("LazyLock", "OnceLock") and lazy:
            for a in t.j["args"]:
                if isinstance(a, int):
                    r = deep_cell(L, a, seen, lazy)
                    if r:
                        return r
            return None
        for a in t.j["args"]:
            if isinstance(a, int) and t.j.get("krate") in STD:
                r = deep_cell(L, a, seen, lazy)
                if r:
                    return r
        for v in t.j["variants"]:
            for f in v["fields"]:
                r = deep_cell(L, f[1], seen, lazy)
                if r:
                    return r
    elif t.k in ("ref", "ptr", "array", "slice"):
        return deep_cell(L, t.j["elem"], seen, lazy)
    elif t.k == "tuple":
        for e in t.j["elems"]:
            r = deep_cell(L, e, seen, lazy)
            if r:
                return r
    return None


def statics(R, L):
    """Every static of the crate, and every static the program refers to."""
    raw = L.P.j if hasattr(L.P, "j") else None
    n = 0
    for c in L.P.consts:
        if "Static" not in c["kind"]:
            continue
        n += 1
        if c.get("mut"):
            R.bad("static " + c["def"], "a static that can be written", c["def"])
            continue
        cell = deep_cell(L, c["ty"])
        if cell:
            R.bad("static " + c["def"], "a static that can change while the program runs: it holds a %s" % cell, c["def"])
        else:
            R.good("static " + c["def"])
    for a in L.P.allocs:
        if a and a.get("k") == "static":
            if a["krate"] in STD or a["krate"] in OPAQUE:
                continue
            n += 1
            cell = deep_cell(L, a["ty"])
            if a.get("mut") or cell:
                R.bad("use of static " + a["name"], "a static that can change is used", a["name"])
            else:
                R.good("use of static " + a["name"])
    R.good("statics are known")


def is_capture_free(L, inst, caller):
    """get_or_init with a function that carries nothing."""
    for a in inst.j["args"]:
        if isinstance(a, int):
            t = L.T[a]
            if t.k == "closure" and t.j.get("upvars", t.j.get("elems")):
                return False
    return True


def effects(R, L, G):
    for i, insts, allocs, odd in G.closed().values():
        R.functions.add(i.dfn)
        R.steps += len(i.body["blocks"])
        if i.krate in STD:
            continue
        bad = []
        for j, sp in insts:
            c = L.P.insts[j]
            nm = c.dfn
            if ONCE.search(nm):
                if not is_capture_free(L, c, i):
                    bad.append(("a value is computed once from the arguments of the first call: " + nm, sp))
                continue
            if DENIED.search(nm) or c.krate in ("rand", "getrandom", "libc", "chrono"):
                bad.append(("a call of %s" % c.name[:120], sp))
            elif c.body is None and c.krate not in STD and c.krate not in OPAQUE and c.krate not in ("stun_codec",) and not c.j.get("intrinsic") and not c.j.get("never"):
                bad.append(("a call of %s, which is not part of the program that was read" % c.name[:120], sp))
        bad += odd
        if bad:
            for what, sp in bad:
                R.bad("function " + i.name[:160], what, "%s in %s" % (sp, i.name[:160]))
        else:
            R.good("function " + i.name[:160])


def sharing(R, L):
    for t in L.T:
        if t.k != "adt" or t.j.get("krate") != "stun_codec":
            continue
        a = t.j.get("auto") or {}
        for tr in ("send", "sync"):
            if a.get(tr) is False:
                R.bad("%s: %s" % (t.name[:160], tr), "the compiler does not prove that this type can be %s between threads" % ("sent" if tr == "send" else "shared"), t.name)
            elif a.get(tr) is None:
                R.unknown("%s: %s" % (t.name[:160], tr), "not known")
            else:
                R.good("%s: %s" % (t.name[:160], tr))


@check("C31", ["every function of the crate, of every instance, and of the crates it calls (bytecodec, byteorder): no call of clocks, environment, files, network, threads, locks, atomics, thread-locals, randomness or the order of hash tables; no address turned into a number; no assembly",
               "every static of the crate and every static it refers to: not written, nothing in it that can change",
               "every type of the crate: Send and Sync, as the compiler proves them"],
       "For this property: a closed call graph over the MIR and a type-level query, no interpretation. ",
       ["The functions of sha1, hmac, md5, crc and trackable, and of the standard library that are not listed as denied, have no hidden state."], floor=3)
def c31(L, tier):
    G = Graph(L)
    return [("effects", lambda R: effects(R, L, G)), ("statics", lambda R: statics(R, L)), ("sharing", lambda R: sharing(R, L))]
