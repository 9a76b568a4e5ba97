"""Codecs as state machines: chunks, buffers, sizes, reuse."""
from checks import *
from checks_sign import body_of, covered, crc_of, FP, MI


# ------------------------------------------------------------------ splitting


def cuts(w, total, n, nm="cut", lo=None):
    """n cut positions in order, 0 <= c1 <= .. <= total (bit-vectors)."""
    out = []
    prev = lo
    bits = max([i for i, b in enumerate(total.b) if b != 0] + [0]) + 1
    for i in range(n):
        c = w.length("%s%d" % (nm, i), bits)
        w.assume(NOT(ult(total, c)))
        if prev is not None:
            w.assume(NOT(ult(c, prev)))
        out.append(c)
        prev = c
    return out


def pieces(w, seq, at):
    """The sequence cut at these positions."""
    total = seq_len(seq)
    out = []
    pos = k64(0)
    for c in list(at) + [total]:
        out.append(seq_slice(seq, pos, sub(c, pos)[0], w.pc))
        pos = c
    return out


def eos_of(w, left):
    """An Eos that announces how many bytes are left."""
    v = w.ip.eos(True)
    e = v.v[0]
    i = [k for k, g in e.g.items() if g][0]
    return Agg((Enum({i: 1}, {i: (left,)}),))


def feed(w, dt, dp, chunks, last=True, exact=False, after=None):
    """Feed chunks to a decoder, which goes on where every one of them is accepted. Returns the bytes consumed by each.

    exact: every Eos tells the number of bytes left, otherwise only that the stream ended with the last chunk."""
    used = []
    f = w.L.method("Decode", "decode", dt)
    for j, c in enumerate(chunks):
        if exact:
            left = k64(0)
            for d in chunks[j + 1:]:
                left = add(left, seq_len(d))[0]
            e = eos_of(w, left)
        else:
            e = w.ip.eos(last and j == len(chunks) - 1)
        v = w.call(f, dp, w.slice_of(c), e)
        og, n, eg, _ = w.L.res(v)
        w.st.pc = AND(w.pc, og)
        used.append(n)
        if w.pc == 0:
            return used
        if after:
            after(j, n)
            if w.pc == 0:
                return used
    return used


def total_of(used):
    n = k64(0)
    for u in used:
        n = add(n, u)[0]
    return n


def finish(w, dt, dp):
    return w.call(w.L.method("Decode", "finish_decoding", dt), dp)


def requiring(w, trait, t, p):
    """requiring_bytes(): (known, number)."""
    v = w.call(w.L.method(trait, "requiring_bytes", t), p)
    tt = w.L.T[w.L.method(trait, "requiring_bytes", t).body["locals"][0]]
    names = [x["name"] for x in tt.j["variants"]]
    i = names.index("Finite")
    g = v.g.get(i, 0)
    return g, (v.p.get(i) or (k64(0),))[0]


def idle(w, trait, t, p):
    return w.call(w.L.method(trait, "is_idle", t), p).b[0]


def fresh_codec(w, t):
    return w.obj(w.call(w.L.ctor("Default", "default", t)))


def byte_lengths(a):
    """Lengths of well-formed values that are looked at byte by byte."""
    return {"addr": (8, 20), "u64": (8,), "text128": (0, 5), "text513": (0, 5), "bytes": (0, 5), "raw": (0, 5), "error": (4, 7), "list": (0, 6), "empty": (0,),
            "flag": (1,)}.get(a.kind, (4,))


def value_split(R, L, a, k, n_cuts, bound, exact=False, length=None):
    """The decoder of an attribute on a value of any length and content that arrives in pieces. length: in pieces of one byte."""
    w = World(L)
    n = value_lengths(w, a, bound) if length is None else k64(length)
    acc, m = parse(w, a, "value", n, bound)
    at = cuts(w, n, n_cuts) if length is None else [k64(i) for i in range(1, length)]
    dt = a.decoder(L)
    dp = fresh_codec(w, dt)
    used = feed(w, dt, dp, pieces(w, w.bytes("value", n), at), exact=exact)
    got = 0
    if w.pc:
        w.st.pc = AND(w.pc, eq(total_of(used), n))
    if w.pc:
        v = finish(w, dt, dp)
        og, o, eg, e = L.res(v)
        got = AND(w.pc, og)
    if a.kind == "list":
        # The end of the stream is told with an empty piece, in the middle of an item.
        late = AND(n.b[0], eq(at[-1], n)) if at else 0
        R.require(w, k + ": half an item, then the end of the stream", AND(XOR(got, AND(acc, w.care)), late), "a value that ends within an item is accepted")
        w.care = AND(w.care, NOT(late))
        got = AND(got, NOT(late))
    R.require(w, k + ": accepted iff well-formed", XOR(got, AND(acc, w.care)), "whether a value is accepted depends on how it is split")
    w.st.pc = got
    if got:
        R.require(w, k + ": value", differs(w, expect(w, a, m), a.observe(w, o), w.pc), "the value depends on how its bytes are split")
    no_panic(R, w, k)


def message_split(R, L, s, a, k, n_cuts, bound=6, exact=False, bits=16, length=None):
    """A message of one attribute with any value that arrives in pieces. length: of the value, the pieces being single bytes."""
    w = World(L)
    M = Msgs(L, s)
    n = k64(length) if length is not None else value_lengths(w, a, bound) if a.kind == "list" else w.length("value length", bits)
    W = Wire(w)
    W.attr(a.code, w.bytes("value", n))
    w.assume(ult(seq_len(W.body), k64(0x10000)))
    acc, m = parse(w, a, "value", n, bound)
    if a.xor:
        m = {"addr": m["addr"].xor(W.tb)}
    buf = W.bytes()
    at = cuts(w, seq_len(buf), n_cuts) if length is None else [k64(i) for i in range(1, 24 + (length + 3) // 4 * 4)]
    dp = M.decoder(w)
    chunks = pieces(w, buf, at)

    def after(j, got):
        R.require(w, "%s: piece %d" % (k, j), differs(w, got, seq_len(chunks[j]), w.pc), "a decoder does not take a piece of the message as a whole")
    feed(w, M.dec, dp, chunks, exact=exact, after=after)
    R.require(w, k + ": decoding ends", XOR(w.pc, w.care), "a well-framed message is rejected when it is split")
    v = finish(w, M.dec, dp)
    og, r, eg, e = L.res(v)
    R.require(w, k + ": finishes", AND(w.pc, NOT(og)), "a well-framed message is rejected when it is split")
    w.st.pc = AND(w.pc, og)
    og, msg, eg, broken = L.res(r)
    R.require(w, k + ": broken iff malformed", AND(w.pc, XOR(og, acc)), "whether a message is broken depends on how it is split")
    w.st.pc = AND(w.pc, og)
    if w.pc:
        got, some = lookup(w, M, msg, a)
        R.require(w, k + ": found", AND(w.pc, NOT(some)), "the attribute is lost when the message is split")
        w.st.pc = AND(w.pc, some)
        R.require(w, k + ": value", differs(w, expect(w, a, m), a.observe(w, got), w.pc), "the value depends on how the message is split")
    no_panic(R, w, k)


def identity(R, w, M, v, W, k, of=None):
    """A message or broken message carries class, method and transaction id of the header."""
    t = of or M.msg
    c = M.get(w, v, "class", t)
    tt = w.L.T[w.L.ty("message::MessageClass")]
    want = Enum({i: eqc(W.cb, CLASSES[x["name"]]) for i, x in enumerate(tt.j["variants"])}, {i: () for i in range(len(tt.j["variants"]))})
    R.require(w, k + ": class", differs(w, c, want, w.pc), "another class than in the header")
    R.require(w, k + ": method", differs(w, un_newtype(M.get(w, v, "method", t)), zext(W.mb, 16), w.pc), "another method than in the header")
    tid = M.get(w, v, "transaction_id", t)
    while isinstance(tid, Agg) and len(tid.v) == 1:
        tid = tid.v[0]
    R.require(w, k + ": transaction id", differs(w, list(tid.v), list(W.tb), w.pc), "another transaction id than in the header")


def several_split(R, L, s, shape, k, n_cuts):
    """Several attributes in pieces: k a known one, u an unknown one."""
    w = World(L)
    M = Msgs(L, s)
    W = Wire(w)
    raws, knowns = [], []
    fixed = [a for a in plain_members(L, s) if a.kind in ("u32", "u64", "u16hi", "flags2", "channel", "error")]
    for i, x in enumerate(shape):
        if x == "u":
            val = w.bytes("value%d" % i, w.length("length%d" % i, 5))
            W.attr(RAW, val)
            raws.append(val)
        else:
            a = fixed[len(knowns) % len(fixed)]
            if a.kind == "error":
                a = BY_SHORT["AlternateServer"]
            m = a.model(w, "%s%d" % (a.short, i))
            W.attr(a.code, a.wire(m))
            knowns.append((a, m))
    buf = W.bytes()
    at = cuts(w, seq_len(buf), n_cuts)
    dp = M.decoder(w)
    chunks = pieces(w, buf, at)

    def after(j, got):
        R.require(w, "%s: piece %d" % (k, j), differs(w, got, seq_len(chunks[j]), w.pc), "a decoder does not take a piece of the message as a whole")
    feed(w, M.dec, dp, chunks, after=after)
    R.require(w, k + ": decoding ends", XOR(w.pc, w.care), "a well-formed message is rejected when it is split")
    v = finish(w, M.dec, dp)
    og, r, eg, e = L.res(v)
    w.st.pc = AND(w.pc, og)
    og, msg, eg, e = L.res(r)
    R.require(w, k + ": accepted", XOR(AND(w.pc, og), w.care), "a well-formed message is rejected when it is split")
    w.st.pc = AND(w.pc, og)
    identity(R, w, M, msg, W, k)
    rs = unknown_list(w, M, msg, len(raws))
    R.require(w, k + ": number of raw attributes", differs(w, k64(len(rs)), k64(len(raws)), w.pc), "an attribute is lost or added")
    for i, (want, got) in enumerate(zip(raws, rs)):
        R.require(w, "%s: raw %d" % (k, i), differs(w, RAW_ATTR.observe(w, w.read(got))["bytes"], want, w.pc), "the value depends on how the message is split")
    ks = known_list(w, M, msg, len(knowns))
    R.require(w, k + ": number of known attributes", differs(w, k64(len(ks)), k64(len(knowns)), w.pc), "an attribute is lost or added")
    for i, ((a, m), q) in enumerate(zip(knowns, ks)):
        r = w.call(try_as(L, M, a), q)
        some = r.g.get(1, 0)
        R.require(w, "%s: type of known %d" % (k, i), AND(w.pc, NOT(some)), "an attribute of another type")
        w.st.pc = AND(w.pc, some)
        R.require(w, "%s: known %d" % (k, i), differs(w, a.expect(w, m), a.observe(w, w.read(r.p[1][0])), w.pc), "the value depends on how the message is split")
    no_panic(R, w, k)


def truncated(R, L, s, a, k, eos):
    """A message that stops early."""
    w = World(L)
    M = Msgs(L, s)
    W = Wire(w)
    n = w.length("value length", 10)
    W.attr(a.code if a.code is not None else RAW, w.bytes("value", n))
    buf = W.bytes()
    total = seq_len(buf)
    c, = cuts(w, total, 1)
    w.assume(ult(c, total))
    part = pieces(w, buf, [c])[0]
    dp = M.decoder(w)
    feed(w, M.dec, dp, [part], last=eos)
    got = 0
    if w.pc:
        R.require(w, k + ": not idle", AND(w.pc, idle(w, "Decode", M.dec, dp)), "a truncated message counts as complete")
        v = finish(w, M.dec, dp)
        og, r, eg, e = L.res(v)
        w.st.pc = AND(w.pc, og)
        if w.pc:
            og, msg, eg, e = L.res(r)
            got = AND(w.pc, og)
    R.require(w, k + ": not accepted", got, "a truncated message is accepted")
    no_panic(R, w, k)


@check("C21", ["the decoder of every attribute type on values of any length and content cut anywhere, and byte by byte: same acceptance and same value as in one piece",
               "messages of every member of every set, and of several attributes, cut anywhere: every piece is taken as a whole, same result",
               "a truncated message is not accepted", "Eos values that tell how much is left, and ones that do not"], floor=120)
def c21(L, tier):
    out = []
    deep = tier != "quick"
    b = 8 if not deep else 12
    for a in PLAIN:
        out.append(("value " + a.short, lambda R, a=a: value_split(R, L, a, "value " + a.short, 1, b)))
        out.append(("value 3 " + a.short, lambda R, a=a: value_split(R, L, a, "value in three " + a.short, 2, b)))
        for n in byte_lengths(a):
            nm = "value %s bytewise %d" % (a.short, n)
            out.append((nm, lambda R, a=a, n=n, nm=nm: value_split(R, L, a, nm, 0, b, length=n)))
    for s in SET_NAMES:
        for a in plain_members(L, s):
            nm = "message %s %s" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: message_split(R, L, s, a, nm, 1, bits=16 if deep else 10)))
            for n in byte_lengths(a):
                x = "%s bytewise %d" % (nm, n)
                out.append((x, lambda R, s=s, a=a, n=n, x=x: message_split(R, L, s, a, x, 0, length=n)))
            if deep:
                out.append((nm + " 3", lambda R, s=s, a=a, nm=nm: message_split(R, L, s, a, nm + " in three", 2, bits=10)))
        a = plain_members(L, s)[0]
        nm = "message with announced end %s %s" % (short_set(s), a.short)
        out.append((nm, lambda R, s=s, a=a, nm=nm: message_split(R, L, s, a, nm, 1, exact=True, bits=10)))
        for shape, n in (("uk", 2), ("ku", 1), ("kk", 1), ("uu", 1)) + ((("kuk", 2), ("uku", 2)) if deep else ()):
            nm = "several %s %s" % (short_set(s), shape)
            out.append((nm, lambda R, s=s, shape=shape, n=n, nm=nm: several_split(R, L, s, shape, nm, n)))
        for a in [plain_members(L, s)[0], RAW_ATTR]:
            for eos in (True, False):
                nm = "truncated %s %s %s" % (short_set(s), a.short, "end" if eos else "pause")
                out.append((nm, lambda R, s=s, a=a, eos=eos, nm=nm: truncated(R, L, s, a, nm, eos)))
    return out


# ------------------------------------------------------------------ output buffers


def value_encoder(w, a, k=None):
    """An encoder of the attribute that was given any value; the bytes it has to write."""
    from checks import sample_signature
    L = w.L
    if a.kind in ("mi", "fp"):
        n = 20 if a.kind == "mi" else 4
        raw = [w.bits(8, "%s[%d]" % (a.short, i)) for i in range(n)]
        v = sample_signature(w, a, raw)
        want = seq_of(raw)
    else:
        m = a.model(w, a.short)
        v = a.make(w, m)
        want = a.wire(m)
    et = a.encoder(L)
    ep = fresh_codec(w, et)
    w.call_ok(L.method("Encode", "start_encoding", et), ep, v)
    return et, ep, want


def message_encoder(w, M, attrs):
    p = Parts(w, M)
    for i, a in enumerate(attrs):
        m, v = p.add(a, "%s%d" % (a.short, i))
        w.assume(ult(seq_len(p.wire), k64(0x10000)))
        w.assume(ult(seq_len(a.wire(m)), k64(0x10000)))
    ep, og, eg = M.encode_msg(w, p.mp)
    w.st.pc = AND(w.pc, og)
    return M.enc, ep, p.bytes()


def window(bp, start, ln):
    return Ptr(tuple((g, o, p, (start, ln)) for g, o, p, _ in bp.alts))


def into_buffers(R, w, et, ep, want, k, n_cuts, spare, sizes, bytes_=True, each=None):
    """Encode into several buffers of any sizes, the last one with room to spare.

    sizes: check what the encoder tells about itself in between; bytes_: check what is written."""
    L = w.L
    n = seq_len(want)
    at = cuts(w, n, n_cuts, "buffer end") if each is None else [k64(i) for i in range(1, each)]
    n_cuts = len(at)
    room = w.length("spare room", 3) if spare else k64(0)
    full = add(n, room)[0]
    bp = w.obj(w.bytes("buffer", full))
    f = L.method("Encode", "encode", et)
    pos = k64(0)

    def told(j):
        left = sub(n, pos)[0]
        kk = "%s: after %d buffers" % (k, j)
        x = w.call(L.method("SizedEncode", "exact_requiring_bytes", et), ep)
        R.require(w, kk + ": exact size", differs(w, x, left, w.pc), "the announced size is not what is left to write")
        kn, y = requiring(w, "Encode", et, ep)
        R.require(w, kk + ": size", OR(AND(w.pc, NOT(kn)), differs(w, y, left, w.pc)), "the announced size is not what is left to write")
        # An empty value counts as written only after the encoder was called.
        i, none = idle(w, "Encode", et, ep), eqc(left, 0)
        R.require(w, kk + ": idle", AND(w.pc, XOR(i, none) if j else AND(i, NOT(none))), "idle with bytes left to write, or not idle without")
    if sizes:
        told(0)
    for j, c in enumerate(list(at) + [full]):
        last = j == n_cuts
        v = w.call(f, ep, window(bp, pos, sub(c, pos)[0]), w.ip.eos(last))
        og, r, eg, e = L.res(v)
        end = n if last else c
        if bytes_:
            R.require(w, "%s: buffer %d accepted" % (k, j), AND(w.pc, NOT(og)), "writing into a buffer fails")
        w.st.pc = AND(w.pc, og)
        if bytes_:
            R.require(w, "%s: written to buffer %d" % (k, j), differs(w, r, sub(end, pos)[0], w.pc), "another number of bytes is reported as written than fits")
        w.st.pc = AND(w.pc, eq(r, sub(end, pos)[0]))
        pos = end
        if sizes:
            told(j + 1)
    if bytes_:
        rest = w.bytes("buffer", full)
        rest = seq_slice(rest, n, room, w.pc)
        R.require(w, k + ": bytes", differs(w, w.read(bp), seq_cat(want, rest, w.pc), w.pc), "what is written depends on the sizes of the buffers")
    no_panic(R, w, k)


def value_buffers(R, L, a, k, n_cuts, sizes, spare=True):
    w = World(L)
    et, ep, want = value_encoder(w, a)
    into_buffers(R, w, et, ep, want, k, n_cuts, spare, sizes, not sizes)


def message_buffers(R, L, s, attrs, k, n_cuts, sizes, spare=True):
    w = World(L)
    et, ep, want = message_encoder(w, Msgs(L, s), attrs)
    into_buffers(R, w, et, ep, want, k, n_cuts, spare, sizes, not sizes)


def short_value(w, a, nm, n):
    """A value whose text or data has this length, or whose address is an IPv4 (0) or IPv6 one."""
    if a.kind in ("bytes", "raw"):
        m = a.model(w, nm)
        m["bytes"] = seq_of([w.bits(8, "%s[%d]" % (nm, i)) for i in range(n)])
        return m
    if a.kind in ("text128", "text513", "error"):
        m = a.model(w, nm)
        t = [w.bits(8, "%s[%d]" % (nm, i)) for i in range(n)]
        for b in t:
            w.assume(NOT(b.b[7]))
        m["text"] = seq_of(t)
        return m
    if a.kind == "addr":
        return {"addr": Addr(0 if n == 0 else 1, be(w.bits(32, nm + ".ip4")), be(w.bits(128, nm + ".ip6")), w.bits(16, nm + ".port"))}
    if a.kind == "list":
        return long_list(w, a, n, nm + ".")
    return a.model(w, nm)


def sizes_of(a):
    return (0, 1) if a.kind == "addr" else (0, 3) if a.kind in ("bytes", "raw", "text128", "text513", "error", "list") else (0,)


def value_bytewise(R, L, a, k, n, sizes):
    """The encoder of an attribute into buffers of one byte."""
    w = World(L)
    if a.kind in ("mi", "fp"):
        et, ep, want = value_encoder(w, a)
    else:
        m = short_value(w, a, a.short, n)
        v = a.make(w, m)
        want = a.wire(m)
        et = a.encoder(L)
        ep = fresh_codec(w, et)
        w.call_ok(L.method("Encode", "start_encoding", et), ep, v)
    ln = seq_len(want)
    if any(b not in (0, 1) for b in ln.b):
        raise Undecided("length of the value")
    into_buffers(R, w, et, ep, want, k, 0, False, sizes, not sizes, each=sum(b << i for i, b in enumerate(ln.b)))


def message_bytewise(R, L, s, a, k, n, sizes):
    """A message into buffers of one byte."""
    w = World(L)
    M = Msgs(L, s)
    p = Parts(w, M)
    m = short_value(w, a, a.short, n)
    M.add(w, p.mp, a, a.make(w, m))
    wm = {"addr": m["addr"].xor(p.tb)} if a.xor else m
    p.wire = seq_cat(p.wire, attr_wire(w, const(a.code, 16), a.wire(wm)), w.pc)
    ep, og, eg = M.encode_msg(w, p.mp)
    w.st.pc = AND(w.pc, og)
    want = p.bytes()
    ln = seq_len(want)
    into_buffers(R, w, M.enc, ep, want, k, 0, False, sizes, not sizes, each=sum(b << i for i, b in enumerate(ln.b)))


def buffer_tasks(L, tier, sizes):
    out = []
    deep = tier != "quick"
    for a in ATTRS + [RAW_ATTR]:
        for n in sizes_of(a):
            nm = "value %s bytewise %d" % (a.short, n)
            out.append((nm, lambda R, a=a, n=n, nm=nm: value_bytewise(R, L, a, nm, n, sizes)))
    for s in SET_NAMES:
        for a in plain_members(L, s):
            for n in sizes_of(a):
                nm = "message %s %s bytewise %d" % (short_set(s), a.short, n)
                out.append((nm, lambda R, s=s, a=a, n=n, nm=nm: message_bytewise(R, L, s, a, nm, n, sizes)))
    for a in ATTRS + [RAW_ATTR]:
        out.append(("value " + a.short, lambda R, a=a: value_buffers(R, L, a, "value " + a.short, 1, sizes)))
        out.append(("value 3 " + a.short, lambda R, a=a: value_buffers(R, L, a, "value in three " + a.short, 2, sizes, False)))
    for s in SET_NAMES:
        pm = plain_members(L, s)
        for a in pm:
            nm = "message %s %s" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: message_buffers(R, L, s, [a], nm, 1, sizes)))
            if deep:
                out.append((nm + " 3", lambda R, s=s, a=a, nm=nm: message_buffers(R, L, s, [a], nm + " in three", 2, sizes, False)))
        nm = "message %s of none" % short_set(s)
        out.append((nm, lambda R, s=s, nm=nm: message_buffers(R, L, s, [], nm, 2, sizes)))
        fixed = [a for a in pm if a.kind in ("u32", "u64", "u16hi", "flags2", "channel")] or [BY_SHORT["AlternateServer"]]
        nm = "message %s of two" % short_set(s)
        out.append((nm, lambda R, s=s, nm=nm, f=fixed: message_buffers(R, L, s, [f[0], f[-1]], nm, 1, sizes)))
    return out


@check("C22", ["the encoder of every attribute type, on every value, into two and three buffers of any sizes (also empty ones, and a last one that is too large) and into buffers of one byte: bytes written in all, and in each buffer, are those of one buffer",
               "messages of every member of every set, of none and of several attributes, the same"], floor=95)
def c22(L, tier):
    return buffer_tasks(L, tier, False)


# ------------------------------------------------------------------ sizes and completion


def fresh_encoder(R, L, et, k):
    w = World(L)
    ep = fresh_codec(w, et)
    x = w.call(L.method("SizedEncode", "exact_requiring_bytes", et), ep)
    R.require(w, k + ": exact size", differs(w, x, k64(0), w.pc), "an encoder with nothing to write announces bytes")
    kn, y = requiring(w, "Encode", et, ep)
    R.require(w, k + ": size", OR(AND(w.pc, NOT(kn)), differs(w, y, k64(0), w.pc)), "an encoder with nothing to write announces bytes")
    R.require(w, k + ": idle", AND(w.pc, NOT(idle(w, "Encode", et, ep))), "an encoder with nothing to write is not idle")
    no_panic(R, w, k)


def message_progress(R, L, s, a, k, n_cuts, exact, length=None):
    """What the decoder of messages tells about itself before, between and after the pieces of a message."""
    w = World(L)
    M = Msgs(L, s)
    W = Wire(w)
    n = k64(length) if length is not None else value_lengths(w, a, 6) if a is not None and a.kind == "list" else w.length("value length", 10)
    if a is not None:
        W.attr(a.code if a.code is not None else RAW, w.bytes("value", n))
    buf = W.bytes()
    total = seq_len(buf)
    at = cuts(w, total, n_cuts) if length is None else [k64(i) for i in range(1, 24 + (length + 3) // 4 * 4)]
    dp = M.decoder(w)
    chunks = pieces(w, buf, at)

    def told(kk, pos):
        left = sub(total, pos)[0]
        done = eqc(left, 0)
        R.require(w, kk + ": idle", AND(w.pc, XOR(idle(w, "Decode", M.dec, dp), done)), "idle before the end of the message, or not idle there")
        kn, y = requiring(w, "Decode", M.dec, dp)
        # Never more than is needed; exactly that once the header is complete (where the length of the message is).
        more = AND(kn, ult(left, y))
        R.require(w, kk + ": not too much", AND(w.pc, more), "more bytes are announced than the message needs")
        header = NOT(ult(pos, k64(20)))
        R.require(w, kk + ": size", AND(AND(w.pc, header), OR(NOT(kn), NOT(eq(y, left)))), "once the header is known, the announced size is not what the message needs")
        R.require(w, kk + ": not too little", AND(AND(w.pc, kn), AND(eqc(y, 0), NOT(done))), "no more bytes are announced before the end of the message")
        inside = AND(w.pc, NOT(header))
        R.require(w, kk + ": size of the header", AND(inside, OR(NOT(kn), NOT(eq(y, sub(k64(20), pos)[0])))), "within the header, its announced size is not what it needs")
    told(k + ": fresh", k64(0))
    pos = k64(0)
    st = {"pos": pos}

    def after(j, got):
        w.st.pc = AND(w.pc, eq(got, seq_len(chunks[j])))
        st["pos"] = add(st["pos"], got)[0]
        if w.pc:
            told("%s: after piece %d" % (k, j), st["pos"])
    feed(w, M.dec, dp, chunks, exact=exact, after=after)
    R.require(w, k + ": all pieces", XOR(w.pc, w.care), "a piece of a message is not taken")
    if w.pc:
        finish(w, M.dec, dp)
        R.require(w, k + ": not idle when reused", AND(w.pc, idle(w, "Decode", M.dec, dp)), "a decoder without input is idle")
        kn, y = requiring(w, "Decode", M.dec, dp)
        R.require(w, k + ": size when reused", AND(w.pc, OR(NOT(kn), NOT(eqc(y, 20)))), "a decoder that begins with the next message announces another size than that of a header")
    no_panic(R, w, k)


def determined(a, n, pos, left):
    """How many more bytes a value needs, as far as those before pos tell."""
    if a.kind == "addr":
        return ite_bv(ult(pos, k64(2)), sub(k64(4), pos)[0], left)
    if a.kind in ("text128", "text513", "bytes", "list", "raw", "error"):
        return None
    return left


def value_progress(R, L, a, k, bound, reused=False, length=None):
    """The decoders of attributes: the number of bytes they announce is never more than they need."""
    w = World(L)
    dt = a.decoder(L)
    dp = fresh_codec(w, dt)
    if reused:
        feed(w, dt, dp, [w.bytes("first", w.length("first length", 9 if a.kind != "list" else 3))])
        og, o, eg, e = L.res(finish(w, dt, dp))
        w.st.pc = AND(w.pc, og)
        w.care = AND(w.care, w.pc)
    n = value_lengths(w, a, bound) if length is None else k64(length)
    acc, m = parse(w, a, "value", n, bound)
    at = cuts(w, n, 1) if length is None else [k64(i) for i in range(1, length)]
    w.assume(acc)

    def told(kk, pos, end=False):
        left = sub(n, pos)[0]
        kn, y = requiring(w, "Decode", dt, dp)
        # Whether a list goes on is only known at its end.
        open_ = eqc(left, 0) if a.kind == "list" and not end else 0
        R.require(w, kk + ": not too much", AND(AND(w.pc, kn), AND(ult(left, y), NOT(open_))), "more bytes are announced than the value needs")
        need = determined(a, n, pos, left)
        if need is not None:
            R.require(w, kk + ": not too little", AND(w.pc, OR(NOT(kn), ult(y, need))), "fewer bytes are announced than the value is known to need")
        return left, kn, y, idle(w, "Decode", dt, dp)
    told(k + ": fresh", k64(0))
    ps = pieces(w, w.bytes("value", n), at)
    for j, c in enumerate(at):
        feed(w, dt, dp, [ps[j]], last=False)
        if not w.pc:
            break
        left, kn, y, i = told(k + ": in between" + (" %d" % j if j else ""), c)
        R.require(w, k + ": idle and bytes left" + (" %d" % j if j else ""), AND(AND(w.pc, i), NOT(eqc(left, 0))), "a decoder is idle before the value is complete")
    if w.pc:
        feed(w, dt, dp, ps[len(at):])
    if w.pc:
        left, kn, y, i = told(k + ": at the end", n, True)
        R.require(w, k + ": idle at the end", AND(w.pc, NOT(i)), "a decoder is not idle with a complete value")
        R.require(w, k + ": size at the end", AND(w.pc, OR(NOT(kn), NOT(eqc(y, 0)))), "a decoder announces bytes with a complete value")
    no_panic(R, w, k)


@check("C23", ["encoders of every attribute type and messages of every set, fresh, started, and after each of several buffers of any sizes, or of one byte: exact_requiring_bytes and requiring_bytes are the number of bytes left, is_idle exactly when that is 0",
               "the message decoder of every set, fresh, after each piece of any message cut anywhere, and after it: idle exactly when the message is complete; within the header it announces what is left of it, after it exactly what the message needs",
               "the decoder of every attribute type on well-formed values cut anywhere: never announces more than it needs, idle exactly with a complete value"], floor=180)
def c23(L, tier):
    deep = tier != "quick"
    out = buffer_tasks(L, tier, True)
    for a in ATTRS:
        et = a.encoder(L)
        out.append(("fresh " + a.short, lambda R, et=et, a=a: fresh_encoder(R, L, et, "fresh encoder " + a.short)))
    for s in SET_NAMES:
        M = Msgs(L, s)
        out.append(("fresh " + s, lambda R, et=M.enc, s=s: fresh_encoder(R, L, et, "fresh encoder of messages " + short_set(s))))
        for a in [None, RAW_ATTR] + plain_members(L, s):
            nm = "decoder %s %s" % (short_set(s), a.short if a else "none")
            for exact in ((False, True) if deep or a is RAW_ATTR else (False,)):
                x = nm + (" with announced end" if exact else "")
                out.append((x, lambda R, s=s, a=a, x=x, e=exact: message_progress(R, L, s, a, x, 2 if deep else 1, e)))
            for n in byte_lengths(a) if a else ():
                x = nm + " bytewise %d" % n
                out.append((x, lambda R, s=s, a=a, x=x, n=n: message_progress(R, L, s, a, x, 0, False, length=n)))
    for a in PLAIN:
        for n in byte_lengths(a):
            nm = "value decoder %s bytewise %d" % (a.short, n)
            out.append((nm, lambda R, a=a, n=n, nm=nm: value_progress(R, L, a, nm, 8, length=n)))
        out.append(("value decoder " + a.short, lambda R, a=a: value_progress(R, L, a, "value decoder " + a.short, 12 if deep else 8)))
        out.append(("reused value decoder " + a.short, lambda R, a=a: value_progress(R, L, a, "reused value decoder " + a.short, 6, True)))
    return out
