"""Messages as containers."""
from checks_reuse import *
from checks import sample_signature


def content(R, w, M, msg, want, k, unknown=()):
    """want: [(attribute, what its accessors must show)] for every recognised attribute, in order."""
    L = w.L
    ks = known_list(w, M, msg, len(want))
    R.require(w, k + ": number of attributes", AND(w.pc, const(len(ks) != len(want), 1).b[0]), "listing yields another number of attributes")
    for i, ((a, m), q) in enumerate(zip(want, ks)):
        r = w.call(try_as(L, M, a), q)
        some = r.g.get(1, 0)
        st = w.st.fork(w.pc)
        R.require(w, "%s: type of attribute %d" % (k, i), AND(w.pc, NOT(some)), "an attribute of another type is at this place")
        w.st.pc = AND(w.pc, some)
        if w.pc:
            R.require(w, "%s: attribute %d" % (k, i), differs(w, m, a.observe(w, w.read(r.p[1][0])), w.pc), "an attribute with another value is at this place")
        w.st = st
    us = unknown_list(w, M, msg, len(unknown))
    R.require(w, k + ": number of unknown attributes", AND(w.pc, const(len(us) != len(unknown), 1).b[0]), "another number of unknown attributes")
    for i, (v, q) in enumerate(zip(unknown, us)):
        R.require(w, "%s: unknown attribute %d" % (k, i), differs(w, RAW_ATTR.observe(w, w.read(q))["bytes"], v, w.pc), "an unknown attribute with another value is at this place")
    for b in M.members():
        v, some = lookup(w, M, msg, b)
        first = [m for a, m in want if a is b]
        R.require(w, "%s: lookup of %s" % (k, b.short), AND(w.pc, NOT(some) if first else some), "a typed lookup finds nothing, or something that is not there")
        if first and AND(w.pc, some):
            st = w.st.fork(w.pc)
            w.st.pc = AND(w.pc, some)
            R.require(w, "%s: lookup of %s: value" % (k, b.short), differs(w, first[0], b.observe(w, v), w.pc), "a typed lookup does not find the first attribute of the type")
            w.st = st


MANY = 16
LONG = (40, 70, 140)


def fixed_members(L, s):
    """Members whose values all have one size."""
    return [a for a in plain_members(L, s) if a.kind in ("u32", "u64", "u16hi", "flags2", "channel", "flag")] or [a for a in plain_members(L, s) if a.kind == "addr"]


def model_in(w, a, nm, many):
    """A value of the attribute; in long messages an address is an IPv4 one."""
    if many and a.kind == "addr":
        return {"addr": Addr(0, be(w.bits(32, nm + ".ip4")), zero(16), w.bits(16, nm + ".port"))}
    return a.model(w, nm)


def made(R, L, s, attrs, k):
    """A message made through the interface, looked at after every step."""
    w = World(L)
    M = Msgs(L, s)
    c, cb = M.cls(w)
    m, mb = M.method(w)
    t, tb = M.tid(w)
    mp = w.obj(M.new(w, c, m, t))

    class Head:
        pass
    H = Head()
    H.cb, H.mb, H.tb = cb, mb, tb
    want = []
    for i in range(len(attrs) + 1):
        kk = "%s: %d attributes" % (k, i)
        identity(R, w, M, w.read(mp), H, kk)
        if len(attrs) <= MANY or i == len(attrs):
            content(R, w, M, w.read(mp), want, kk)
        if i < len(attrs):
            a = attrs[i]
            if a.kind in ("mi", "fp"):
                raw = [w.bits(8, "%s%d[%d]" % (a.short, i, j)) for j in range(20 if a.kind == "mi" else 4)]
                v = sample_signature(w, a, raw)
                want.append((a, a.observe(w, v)))
            else:
                mo = model_in(w, a, "%s%d" % (a.short, i), len(attrs) > MANY)
                v = a.make(w, mo)
                want.append((a, a.expect(w, mo)))
            M.add(w, mp, a, v)
    no_panic(R, w, k)


def received(R, L, s, shape, k):
    """A message that was decoded. shape: attributes, or None for an unknown one."""
    w = World(L)
    M = Msgs(L, s)
    W = Wire(w)
    want, raws = [], []
    for i, a in enumerate(shape):
        if a is None:
            v = w.bytes("value%d" % i, w.length("length%d" % i, 5)) if len(shape) <= MANY else seq_of([w.bits(8, "value%d[%d]" % (i, j)) for j in range(4)])
            W.attr(RAW, v)
            raws.append(v)
        else:
            m = model_in(w, a, "%s%d" % (a.short, i), len(shape) > MANY)
            W.attr(a.code, a.wire({"addr": m["addr"].xor(W.tb)} if a.xor else m))
            want.append((a, a.expect(w, m)))
    m, used = decoded(R, w, M, W.bytes(), k)
    identity(R, w, M, m, W, k)
    content(R, w, M, m, want, k, raws)
    no_panic(R, w, k)


@check("C26", ["messages made through the interface with up to all members of every set, any values: after every step the identity is as given, listing, the list of unknown ones and every typed lookup show exactly what was added, in order",
               "decoded messages with repeated, different and unknown attributes: the same"], floor=60)
def c26(L, tier):
    deep = tier != "quick"
    out = []
    for s in SET_NAMES:
        ms = Msgs(L, s).members()
        pm = plain_members(L, s)
        lists = [("none", [])] + [("%s twice" % a.short, [a, a]) for a in ms]
        lists += [("%s, %s, %s" % (a.short, b.short, a.short), [a, b, a]) for a, b in zip(ms, ms[1:] + ms[:1])]
        half = (len(ms) + 1) // 2
        lists += [("first half", ms[:half]), ("second half", ms[half:]), ("second half backwards", ms[half:][::-1]), ("first half backwards", ms[:half][::-1])]
        if deep:
            lists += [("%s, %s" % (a.short, b.short), [a, b]) for a in ms for b in ms if a is not b]
        fm = fixed_members(L, s)
        many = [40] if not deep else [40, 100]
        lists += [("%d" % n, [fm[i % len(fm)] for i in range(n)]) for n in many]
        # All of one type but the last ones, which are the first of theirs.
        rare = fm[1:7] + [a for a in ms if a not in fm][:6]
        lists += [("%d and others" % n, [fm[0]] * n + rare) for n in many]
        for nm, l in lists:
            nm = "made %s %s" % (short_set(s), nm)
            out.append((nm, lambda R, s=s, l=l, nm=nm: made(R, L, s, l, nm)))
        small = [a for a in pm if a.kind in ("u32", "u64", "u16hi", "flags2", "channel")]
        fixed = small + [a for a in pm if a.kind == "addr" and a not in small]
        shapes = []
        for i, a in enumerate(fixed):
            b = fixed[(i + 1) % len(fixed)]
            shapes += [[a, None, a], [None, a, b], [a, a]]
            if deep:
                shapes += [[None, a, None], [b, a, a], [a, b, None], [None, None, a]]
        shapes += [[None if i % 3 == 2 else fm[i % len(fm)] for i in range(n)] for n in many]
        shapes += [[None] * n + [fm[0]] * n + fm[1:7] + [None] for n in many]
        for sh in shapes:
            nm = "received %s %s" % (short_set(s), ", ".join(a.short if a else "unknown" for a in sh) if len(sh) <= MANY else "%d%s" % (len(sh), " and others" if sh[-1] is None and sh[0] is None else ""))
            out.append((nm, lambda R, s=s, sh=sh, nm=nm: received(R, L, s, sh, nm)))
    return out
