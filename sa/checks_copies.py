"""Copies and comparisons."""
from checks_codec import *
from checks_again import any_value


def equals(w, tid, x, y, name="eq", trait="PartialEq"):
    return w.call(w.L.method(trait, name, tid), w.obj(x), w.obj(y))


def clone_of(w, tid, p):
    return w.call(w.L.method("Clone", "clone", tid), p)


VARS = ("text128", "text513", "bytes", "error", "list", "raw")


def interleave(w, n, *names):
    """The bytes of several strings, in an order of variables in which they can be compared."""
    for i in range(n):
        for x in names:
            w.bits(8, "%s[%d]" % (x, i))


def some_value(w, a, nm, n):
    """A value of the attribute with a text or a list of n: (model to compare, value)."""
    if a.kind in ("mi", "fp"):
        from checks import sample_signature
        raw = [w.bits(8, "%s[%d]" % (nm, i)) for i in range(20 if a.kind == "mi" else 4)]
        return raw, sample_signature(w, a, raw)
    m = short_value(w, a, nm, n) if a.kind in VARS else a.model(w, nm)
    if a.kind == "list":
        return {"list": seq_of([newtype(w, w.L.ty("attribute::AttributeType"), x) for x in m["list"][1]])}, a.make(w, m)
    return expect(w, a, m), a.make(w, m)


def compare(R, L, a, k, n1, n2):
    w = World(L)
    interleave(w, 20, "one", "other")
    m1, v1 = some_value(w, a, "one", n1)
    m2, v2 = some_value(w, a, "other", n2)
    t = a.tid(L)
    d = differs(w, m1, m2, w.pc)
    r = equals(w, t, v1, v2)
    R.require(w, k + ": equal iff same content", AND(w.pc, XOR(r.b[0], NOT(d))), "two values are equal although they differ, or the other way round")
    i = L.method("PartialEq", "ne", t, True)
    if i is not None and i.local:
        r = w.call(i, w.obj(v1), w.obj(v2))
        R.require(w, k + ": unequal iff other content", AND(w.pc, XOR(r.b[0], d)), "two values are unequal although they do not differ, or the other way round")
    no_panic(R, w, k)


def copy(R, L, a, k):
    """A copy of any value is that value; the original stays as it is."""
    w = World(L)
    v, want = any_value(w, a, a.short)
    t = a.tid(L)
    p = w.obj(v)
    c = clone_of(w, t, p)
    for who, x in (("copy", c), ("original", w.read(p))):
        et = a.encoder(L)
        ep = fresh_codec(w, et)
        og, o, eg, e = L.res(w.call(L.method("Encode", "start_encoding", et), ep, x))
        R.require(w, "%s: %s encoded" % (k, who), AND(w.pc, NOT(og)), "a copy cannot be encoded")
        w.st.pc = AND(w.pc, og)
        n = seq_len(want)
        bp = w.obj(w.bytes("buffer of " + who, n))
        og, r, eg, e = L.res(w.call(L.method("Encode", "encode", et), ep, window(bp, k64(0), n), w.ip.eos(True)))
        R.require(w, "%s: %s written" % (k, who), AND(w.pc, NOT(og)), "a copy cannot be encoded")
        w.st.pc = AND(w.pc, og)
        R.require(w, "%s: bytes of the %s" % (k, who), differs(w, w.read(bp), want, w.pc), "a copy is not encoded as the original")
    if a.kind not in ("raw",):
        r = equals(w, t, c, w.read(p))
        R.require(w, k + ": equal", AND(w.pc, NOT(r.b[0])), "a copy is not equal to its original")
    no_panic(R, w, k)


def set_value(w, M, a, v):
    """The member as a value of its set."""
    for i in w.L.P.methods.get("from", ()):
        if i.local and i.body and i.body["locals"][0] == M.set and i.body["locals"][1] == a.tid(w.L):
            return w.call(i, v)
    raise Anchor("conversion of %s to %s" % (a.short, M.name))


def compare_sets(R, L, s, a, b, k, n):
    w = World(L)
    M = Msgs(L, s)
    interleave(w, 20, "one", "other")
    m1, v1 = some_value(w, a, "one", n)
    m2, v2 = some_value(w, b, "other", n)
    x, y = set_value(w, M, a, v1), set_value(w, M, b, v2)
    d = differs(w, m1, m2, w.pc) if a is b else w.pc
    r = equals(w, M.set, x, y)
    R.require(w, k + ": equal iff same type and content", AND(w.pc, XOR(r.b[0], NOT(d))), "two attributes are equal although they differ, or the other way round")
    p = w.obj(x)
    c = clone_of(w, M.set, p)
    q = w.call(try_as(L, M, a), w.obj(c))
    some = q.g.get(1, 0)
    R.require(w, k + ": type of the copy", AND(w.pc, NOT(some)), "a copy is of another type")
    w.st.pc = AND(w.pc, some)
    if w.pc and a.kind not in ("mi", "fp"):
        R.require(w, k + ": copy", differs(w, m1, a.observe(w, w.read(q.p[1][0])), w.pc), "a copy has another content")
    no_panic(R, w, k)


def message_copy(R, L, s, shape, k, extra=None):
    """A decoded message and its copy encode to the bytes received. k: known, u: unknown attribute."""
    w = World(L)
    M = Msgs(L, s)
    W = Wire(w)
    pm = plain_members(L, s)
    fixed = [a for a in pm if a.kind in ("u32", "u64", "u16hi", "channel")] or [BY_SHORT["AlternateServer"]]
    for i, x in enumerate(shape):
        if x == "u":
            code = w.bits(16, "code%d" % i)
            for a in M.members():
                w.assume(NOT(eq(code, const(a.code, 16))))
            W.attr(code, w.bytes("value%d" % i, w.length("length%d" % i, 8)))
        else:
            a = extra if extra is not None else fixed[i % len(fixed)]
            m = a.model(w, "%s%d" % (a.short, i))
            a.make(w, m)        # (only for the values that can be made)
            W.attr(a.code, m["addr"].xor(W.tb).wire() if a.xor else a.wire(m))
    w.assume(ult(seq_len(W.body), k64(0x10000)))
    buf = W.bytes()
    msg, used = decoded(R, w, M, buf, k)
    p = w.obj(msg)
    c = clone_of(w, M.msg, p)
    identity(R, w, M, c, W, k + ": copy")
    pc = w.pc
    reencode(R, w, M, c, buf, k + ": copy", "encoding a copy")
    reencode(R, w, M, w.read(p), buf, k + ": original", "encoding a message that was copied")
    no_panic(R, w, k)


def broken_copy(R, L, s, k):
    from checks_reuse import broken_type, error_kind
    w = World(L)
    M = Msgs(L, s)
    bt = broken_type(L, M)
    a = [a for a in plain_members(L, s) if a.kind in ("addr", "u64", "u32")][0]
    W = Wire(w)
    W.attr(a.code, w.bytes("value", w.length("value length", 6)))
    acc, r, used, rej = decode(w, M, W.bytes())
    og, m, bad, broken = L.res(r)
    w.st.pc = AND(w.pc, bad)
    if w.pc == 0:
        raise Undecided("never broken")
    w.care = AND(w.care, w.pc)
    p = w.obj(broken)
    c = clone_of(w, bt, p)
    identity(R, w, M, c, W, k, of=bt)
    ref = L.method(None, "error", bt)
    R.require(w, k + ": error", differs(w, error_kind(w, w.read(w.call(ref, p))), error_kind(w, w.read(w.call(ref, w.obj(c)))), w.pc), "a copy has another error")
    no_panic(R, w, k)


def numbers(R, L, what, k):
    """Identifiers: equality and order."""
    w = World(L)

    def make(nm):
        if what == "TransactionId":
            bs = [w.bits(8, "%s[%d]" % (nm, i)) for i in range(12)]
            return of_be(bs), w.call(L.ctor(None, "new", tid), Agg(bs))
        if what == "Method":
            n = w.bits(12, nm)
            return zext(n, 16), Msgs(L, SET_NAMES[0]).method(w, n)[0]
        if what == "AttributeType":
            n = w.bits(16, nm)
            return n, w.call(L.ctor(None, "new", tid), n)
        a = BY_SHORT["ChannelNumber"]
        m = a.model(w, nm)
        return m["n"] if "n" in m else list(m.values())[0], a.make(w, m)
    tid = {"TransactionId": lambda: L.ty("transaction_id::TransactionId"), "Method": lambda: L.ty("method::Method"), "AttributeType": lambda: L.ty("attribute::AttributeType"),
           "ChannelNumber": lambda: BY_SHORT["ChannelNumber"].tid(L)}[what]()
    interleave(w, 12, "one", "other")
    n1, x = make("one")
    n2, y = make("other")
    same, less = eq(n1, n2), ult(n1, n2)
    px, py = w.obj(x), w.obj(y)
    r = w.call(L.method("PartialEq", "eq", tid), px, py)
    R.require(w, k + ": equal", AND(w.pc, XOR(r.b[0], same)), "identifiers are equal although they differ, or the other way round")
    i = L.method("Ord", "cmp", tid)
    r = w.call(i, px, py)
    vs = [v["name"] for v in L.T[i.body["locals"][0]].j["variants"]]
    for nm, c in (("Less", less), ("Equal", same), ("Greater", NOT(OR(less, same)))):
        R.require(w, "%s: %s" % (k, nm.lower()), AND(w.pc, XOR(r.g.get(vs.index(nm), 0), c)), "identifiers are not ordered by their value")
    r = w.call(L.method("PartialOrd", "partial_cmp", tid), px, py)
    o = r.p[1][0]
    R.require(w, k + ": comparable", AND(w.pc, NOT(r.g.get(1, 0))), "identifiers cannot be compared")
    for nm, c in (("Less", less), ("Equal", same), ("Greater", NOT(OR(less, same)))):
        R.require(w, "%s: partially %s" % (k, nm.lower()), AND(w.pc, XOR(o.g.get(vs.index(nm), 0), c)), "identifiers are not ordered by their value")
    c = clone_of(w, tid, px)
    r = w.call(L.method("PartialEq", "eq", tid), px, w.obj(c))
    R.require(w, k + ": copy", OR(AND(w.pc, NOT(r.b[0])), differs(w, c, x, w.pc)), "a copy is another identifier")
    no_panic(R, w, k)


def classes(R, L, k):
    w = World(L)
    M = Msgs(L, SET_NAMES[0])
    t = L.ty("message::MessageClass")
    x, b = M.cls(w, w.bits(2, "one"))
    y, c = M.cls(w, w.bits(2, "other"))
    r = equals(w, t, x, y)
    R.require(w, k + ": equal", AND(w.pc, XOR(r.b[0], eq(b, c))), "classes are equal although they differ, or the other way round")
    R.require(w, k + ": copy", differs(w, clone_of(w, t, w.obj(x)), x, w.pc), "a copy is another class")
    no_panic(R, w, k)


@check("C37", ["every attribute type: eq on any two values (texts and lists of some lengths) is equality of what the accessors show; a clone of any value (any length) encodes to the same bytes and equals it",
               "every set: eq and clone of any member; members of different types are not equal",
               "decoded messages with known and unknown attributes of any value and padding: a clone has the same identity and encodes to the bytes received, and so does the original; reports of broken messages",
               "transaction ids, methods, attribute types, channel numbers, classes: eq, cmp and partial_cmp are those of the numbers"], floor=120)
def c37(L, tier):
    deep = tier != "quick"
    out = []
    for a in ATTRS:
        ns = ((0, 0), (2, 3), (3, 3)) + (((6, 6), (1, 6)) if deep else ()) if a.kind in VARS else ((0, 0),)
        for n1, n2 in ns:
            nm = "compare %s %d %d" % (a.short, n1, n2)
            out.append((nm, lambda R, a=a, nm=nm, n1=n1, n2=n2: compare(R, L, a, nm, n1, n2)))
        nm = "copy %s" % a.short
        out.append((nm, lambda R, a=a, nm=nm: copy(R, L, a, nm)))
    out.append(("copy raw", lambda R: copy(R, L, RAW_ATTR, "copy raw")))
    for s in SET_NAMES:
        ms = Msgs(L, s).members()
        for i, a in enumerate(ms):
            for b in (ms if deep else [a, ms[(i + 1) % len(ms)], ms[i - 1]]):
                nm = "%s %s and %s" % (short_set(s), a.short, b.short)
                out.append((nm, lambda R, s=s, a=a, b=b, nm=nm: compare_sets(R, L, s, a, b, nm, 2)))
        for a in plain_members(L, s):
            nm = "%s message with %s" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: message_copy(R, L, s, "k", nm, a)))
        for shape in ("", "u", "uk", "ku") + (("uu", "kku", "uku") if deep else ()):
            nm = "%s message with %s" % (short_set(s), shape or "none")
            out.append((nm, lambda R, s=s, shape=shape, nm=nm: message_copy(R, L, s, shape, nm)))
        nm = "%s broken" % short_set(s)
        out.append((nm, lambda R, s=s, nm=nm: broken_copy(R, L, s, nm)))
    for what in ("TransactionId", "Method", "AttributeType", "ChannelNumber"):
        out.append((what, lambda R, what=what: numbers(R, L, what, what)))
    out.append(("MessageClass", lambda R: classes(R, L, "MessageClass")))
    return out
