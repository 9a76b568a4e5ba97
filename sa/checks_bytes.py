"""Decoded values and the bytes they came from; memory."""
from checks_panic import *
from checks import reencode


def reserved_masks(a):
    """Bits of the value that have no meaning: byte index -> mask."""
    k = a.kind
    if k == "addr":
        return {0: 0xFF}
    if k == "error":
        return {0: 0xFF, 1: 0xFF, 2: 0xF8}
    if k in ("channel", "u16hi"):
        return {2: 0xFF, 3: 0xFF}
    if k == "flag":
        return {0: 0x7F}
    if k in ("u8hi", "family"):
        return {1: 0xFF, 2: 0xFF, 3: 0xFF}
    if k == "flags2":
        return {0: 0xFF, 1: 0xFF, 2: 0xFF, 3: 0xF9}
    return {}


def same_except_reserved(R, w, a, out, seq, n, k):
    """The bytes written again against those received: bits with a meaning, and those without."""
    masks = reserved_masks(a)
    if not masks:
        R.require(w, k + ": bytes", differs(w, out, seq, w.pc), "encoding a decoded value gives other bytes")
        return
    R.require(w, k + ": length", differs(w, seq_len(out), n, w.pc), "encoding a decoded value gives another number of bytes")
    w2 = AND(w.pc, eq(seq_len(out), n))
    st = w.st.fork(w.pc)
    w.st.pc = w2
    m = max(masks) + 1
    lost = bad = 0
    for i in range(m):
        x, y = seq_get(out, k64(i), w.pc), w.byte("value", i)
        d = [XOR(p, q) for p, q in zip(x.b, y.b)]
        for j, b in enumerate(d):
            if masks.get(i, 0) >> j & 1:
                lost = OR(lost, AND(w.pc, b))
            else:
                bad = OR(bad, AND(w.pc, b))
    R.require(w, k + ": bits", bad, "encoding a decoded value gives other bytes")
    rest = sub(n, k64(m))[0]
    R.require(w, k + ": rest", differs(w, seq_slice(out, k64(m), rest, w.pc), seq_slice(seq, k64(m), rest, w.pc), w.pc), "encoding a decoded value gives other bytes")
    R.require(w, k + ": reserved bits", lost, "bits that have no meaning are not kept")
    w.st = st


def value_again(R, L, a, k, bound):
    w = World(L)
    n = value_lengths(w, a, bound)
    seq = w.bytes("value", n)
    dt = a.decoder(L)
    dp = fresh_codec(w, dt)
    used = feed(w, dt, dp, [seq])
    if w.pc:
        w.st.pc = AND(w.pc, eq(total_of(used), n))
    og, o, eg, e = L.res(finish(w, dt, dp))
    w.st.pc = AND(w.pc, og)
    w.care = AND(w.care, w.pc)
    et = a.encoder(L)
    ep = fresh_codec(w, et)
    og, _, eg, e = L.res(w.call(L.method("Encode", "start_encoding", et), ep, o))
    R.require(w, k + ": accepted", AND(w.pc, NOT(og)), "a decoded value is not encoded")
    w.st.pc = AND(w.pc, og)
    size = w.call(L.method("SizedEncode", "exact_requiring_bytes", et), ep)
    bp = w.obj(w.bytes("buffer", size))
    og, r, eg, e = L.res(w.call(L.method("Encode", "encode", et), ep, window(bp, k64(0), size), w.ip.eos(True)))
    R.require(w, k + ": written", AND(w.pc, NOT(og)), "a decoded value is not encoded")
    w.st.pc = AND(w.pc, og)
    same_except_reserved(R, w, a, w.read(bp), seq, n, k)
    no_panic(R, w, k)


def message_again(R, L, s, a, k, bound=6):
    """A decoded message, encoded again: every byte, but the bits without a meaning."""
    w = World(L)
    M = Msgs(L, s)
    W = Wire(w)
    n = value_lengths(w, a, bound) if a.kind == "list" else w.length("value length", 9)
    value = w.bytes("value", n)
    W.attr(a.code if a.code is not None else RAW, value)
    acc = 1
    if a.code is not None:
        acc, m = parse(w, a, "value", n, bound)
        # The bits without a meaning are the subject of the values on their own.
        for i, mask in reserved_masks(a).items():
            b = w.byte("value", i)
            for j in range(8):
                if mask >> j & 1:
                    acc = AND(acc, NOT(b.b[j]))
    w.assume(acc)
    buf = W.bytes()
    m, used = decoded(R, w, M, buf, k)
    reencode(R, w, M, m, buf, k)
    no_panic(R, w, k)


@check("C33", ["the decoder of every attribute type on any value it accepts, then its encoder: the same bytes",
               "messages of every member of every set, decoded and encoded again: the same bytes, padding included"], floor=60)
def c33(L, tier):
    deep = tier != "quick"
    out = []
    for a in PLAIN:
        out.append(("value " + a.short, lambda R, a=a: value_again(R, L, a, "value " + a.short, 8 if not deep else 24)))
    for s in SET_NAMES:
        for a in plain_members(L, s) + [RAW_ATTR]:
            nm = "message %s %s" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: message_again(R, L, s, a, nm)))
    return out


# ------------------------------------------------------------------ memory

ROOM = 65535 + 1024     # one attribute of any length, and what is reserved whatever is received
PER_BYTE = 64           # bytes of memory per received byte


def allocations(R, w, received, k):
    """Everything reserved, together, is within what was received and one attribute; received: a number of bytes."""
    lim = add(k64(ROOM), mul(received, k64(PER_BYTE))[0])[0]
    total = k64(0)
    for dfn, span, n, pc, stack in w.ip.allocs_log:
        q = AND(AND(pc, w.care), w.axioms)
        if q:
            total = add(total, merge(q, n, k64(0)))[0]
    bad = AND(w.care, ult(lim, total))
    where = []
    for dfn, span, n, pc, stack in w.ip.allocs_log:
        q = AND(AND(pc, bad), NOT(ult(n, k64(1024))))
        if AND(q, w.axioms):
            where.append("%s: %s in %s" % (span, dfn, " < ".join(x[:80] for x in stack[-3:][::-1])))
    R.require(w, k + ": reserved", bad, "more is reserved than what was received and one attribute can fill", where[:3])


def announced(R, L, s, a, k, n_cuts, eos, lead):
    """A message whose length fields say anything from what was received up to 65535."""
    w = World(L)
    w.ip.allocs_log = []
    M = Msgs(L, s)
    W = Wire(w)
    n = w.length("received", 4)
    v = w.bytes("value", n)
    al = w.bits(16, "attribute length")
    ml = w.bits(16, "message length")
    head = seq_of(be(const(a.code if a.code is not None else RAW, 16)) + be(al))
    if lead:
        W.attr(RAW, w.bytes("first", w.length("first length", 3)))
    W.body = seq_cat(seq_cat(W.body, head, w.pc), v, w.pc)
    w.assume(ult(n, zext(al, 64)))
    w.assume(NOT(ult(zext(ml, 64), seq_len(W.body))))
    buf = W.bytes(length=ml)
    dp = M.decoder(w)
    r = feed_to_end(w, M, dp, pieces(w, buf, cuts(w, seq_len(buf), n_cuts)), eos)
    allocations(R, w, seq_len(buf), k)


def header_only(R, L, s, k, eos):
    w = World(L)
    w.ip.allocs_log = []
    M = Msgs(L, s)
    ml = w.bits(16, "message length")
    W = Wire(w)
    buf = W.bytes(length=ml)
    rest = w.bytes("rest", w.length("rest length", 2))
    buf = seq_cat(buf, rest, w.pc)
    feed_to_end(w, M, M.decoder(w), pieces(w, buf, cuts(w, seq_len(buf), 1)), eos)
    allocations(R, w, seq_len(buf), k)


def value_memory(R, L, a, k, n_cuts, eos):
    """A value decoder fed less than a whole value, or a whole value with counts and lengths of its own."""
    w = World(L)
    w.ip.allocs_log = []
    n = value_lengths(w, a, 6) if a.kind == "list" else w.length("value length", 6)
    dt = a.decoder(L)
    dp = fresh_codec(w, dt)
    seq = w.bytes("value", n)
    f = L.method("Decode", "decode", dt)
    ps = pieces(w, seq, cuts(w, n, n_cuts))
    keep = []
    for j, c in enumerate(ps):
        og, r, eg, e = L.res(w.call(f, dp, w.slice_of(c), w.ip.eos(eos and j == n_cuts)))
        if AND(w.pc, NOT(og)):
            keep.append(w.st.fork(AND(w.pc, NOT(og))))
        w.st.pc = AND(w.pc, og)
        if w.pc == 0:
            break
    for x in keep:
        w.st = merge_states(w.st, x) if w.pc else x
    finish(w, dt, dp)
    allocations(R, w, n, k)


@check("C32", ["every reservation of memory (with_capacity, reserve, filled vectors, copies) reached while a message of any set is decoded whose length fields announce anything up to 65535 bytes beyond what was received: all of them together take at most %d bytes (one attribute) and %d per received byte" % (ROOM, PER_BYTE),
               "the same for value decoders on their own"], floor=60)
def c32(L, tier):
    deep = tier != "quick"
    out = []
    for a in ATTRS:
        nm = "value " + a.short
        out.append((nm, lambda R, a=a, nm=nm: value_memory(R, L, a, nm, 1, True)))
        if deep:
            out.append((nm + " pause", lambda R, a=a, nm=nm: value_memory(R, L, a, nm + " pause", 2, False)))
    for s in SET_NAMES:
        for eos in (False, True):
            nm = "header %s %s" % (short_set(s), "end" if eos else "pause")
            out.append((nm, lambda R, s=s, eos=eos, nm=nm: header_only(R, L, s, nm, eos)))
        for a in Msgs(L, s).members() + [RAW_ATTR]:
            for eos in (False, True):
                nm = "message %s %s %s" % (short_set(s), a.short, "end" if eos else "pause")
                out.append((nm, lambda R, s=s, a=a, nm=nm, eos=eos: announced(R, L, s, a, nm, 0 if not deep else 1, eos, False)))
                if deep:
                    out.append((nm + " second", lambda R, s=s, a=a, nm=nm, eos=eos: announced(R, L, s, a, nm + " second", 0, eos, True)))
    return out
