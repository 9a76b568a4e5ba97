"""An encoder that has been used before."""
from checks_codec import *
from checks_codec import requiring, idle
from checks import set_from
from checks import sample_signature


def any_value(w, a, nm):
    """Any value of the attribute, and its bytes."""
    if a.kind in ("mi", "fp"):
        raw = [w.bits(8, "%s[%d]" % (nm, i)) for i in range(20 if a.kind == "mi" else 4)]
        return sample_signature(w, a, raw), seq_of(raw)
    m = a.model(w, nm)
    return a.make(w, m), a.wire(m)


def start(R, w, et, ep, v, k, what):
    og, o, eg, e = w.L.res(w.call(w.L.method("Encode", "start_encoding", et), ep, v))
    R.require(w, k, AND(w.pc, NOT(og)), what)
    w.st.pc = AND(w.pc, og)


def write_all(w, et, ep, want, n_cuts, nm, spare=False):
    """Write what is left into buffers of any sizes, going on where this succeeds as it should."""
    n = seq_len(want)
    at = cuts(w, n, n_cuts, nm + " buffer end")
    full = add(n, w.length(nm + " spare room", 3))[0] if spare else n
    bp = w.obj(w.bytes(nm + " buffer", full))
    f = w.L.method("Encode", "encode", et)
    pos = k64(0)
    for j, c in enumerate(list(at) + [full]):
        last = j == n_cuts
        v = w.call(f, ep, window(bp, pos, sub(c, pos)[0]), w.ip.eos(last))
        og, r, eg, e = w.L.res(v)
        end = n if last else c
        w.st.pc = AND(AND(w.pc, og), eq(r, sub(end, pos)[0]))
        if w.pc == 0:
            raise Undecided("nothing is written")
        pos = end


def some_written(w, et, ep, want, nm):
    """Write some of the bytes, but not all."""
    n = seq_len(want)
    c = cuts(w, n, 1, nm + " stop")[0]
    w.assume(ult(c, n))
    bp = w.obj(w.bytes(nm + " buffer", n))
    v = w.call(w.L.method("Encode", "encode", et), ep, window(bp, k64(0), c), w.ip.eos(False))
    og, r, eg, e = w.L.res(v)
    w.st.pc = AND(AND(w.pc, og), eq(r, c))
    return c


def value_again(R, L, a, k, n_cuts, sizes):
    w = World(L)
    et = a.encoder(L)
    ep = fresh_codec(w, et)
    v, want = any_value(w, a, "first " + a.short)
    w.call_ok(L.method("Encode", "start_encoding", et), ep, v)
    write_all(w, et, ep, want, n_cuts, "first", n_cuts == 0)
    R.require(w, k + ": idle", AND(w.pc, NOT(idle(w, "Encode", et, ep))), "an encoder that has written everything is not idle")
    v, want = any_value(w, a, a.short)
    start(R, w, et, ep, v, k + ": next accepted", "an encoder that has written everything refuses the next value")
    into_buffers(R, w, et, ep, want, k, n_cuts, False, sizes, True)


def value_busy(R, L, a, k):
    w = World(L)
    et = a.encoder(L)
    ep = fresh_codec(w, et)
    v, want = any_value(w, a, "first " + a.short)
    if is_zero(seq_len(want)):
        return
    w.call_ok(L.method("Encode", "start_encoding", et), ep, v)
    some_written(w, et, ep, want, "first")
    v, want = any_value(w, a, a.short)
    og, o, eg, e = L.res(w.call(L.method("Encode", "start_encoding", et), ep, v))
    R.require(w, k + ": refused", AND(w.pc, og), "an encoder that has bytes left to write accepts another value")
    no_panic(R, w, k)


def in_set(w, M, a, nm):
    v, want = any_value(w, a, nm)
    return w.call(set_from(w.L, M, a), v), want


def set_again(R, L, s, a, b, k, n_cuts):
    """The encoder of an attribute set."""
    w = World(L)
    M = Msgs(L, s)
    et = L.impl_of(s)["assoc"]["Encoder"]
    ep = fresh_codec(w, et)
    v, want = in_set(w, M, a, "first " + a.short)
    w.call_ok(L.method("Encode", "start_encoding", et), ep, v)
    write_all(w, et, ep, want, n_cuts, "first", True)
    R.require(w, k + ": idle", AND(w.pc, NOT(idle(w, "Encode", et, ep))), "an encoder that has written everything is not idle")
    v, want = in_set(w, M, b, b.short)
    start(R, w, et, ep, v, k + ": next accepted", "an encoder that has written everything refuses the next attribute")
    into_buffers(R, w, et, ep, want, k, n_cuts, False, True, True)


def set_busy(R, L, s, a, b, k):
    w = World(L)
    M = Msgs(L, s)
    et = L.impl_of(s)["assoc"]["Encoder"]
    ep = fresh_codec(w, et)
    v, want = in_set(w, M, a, "first " + a.short)
    if is_zero(seq_len(want)):
        return
    w.call_ok(L.method("Encode", "start_encoding", et), ep, v)
    some_written(w, et, ep, want, "first")
    v, want = in_set(w, M, b, b.short)
    og, o, eg, e = L.res(w.call(L.method("Encode", "start_encoding", et), ep, v))
    R.require(w, k + ": refused", AND(w.pc, og), "an encoder that has bytes left to write accepts another attribute")
    no_panic(R, w, k)


def is_zero(n):
    return all(b == 0 for b in n.b)


def message_again(R, L, s, first, then, k, n_cuts, sizes, kind="", n_cuts2=0):
    """Messages of these attributes, one after the other."""
    w = World(L)
    M = Msgs(L, s)
    et = M.enc
    ep = M.encoder(w)
    p = Parts(w, M, "first ")
    for i, a in enumerate(first):
        if kind == "large":
            m = long_model(w, a, "first %s%d" % (a.short, i))
            p.add(a, None, m)
        else:
            m, v = p.add(a, "first %s%d" % (a.short, i))
            w.assume(ult(seq_len(a.wire(m)), k64(0x10000)))
    if kind == "large":
        # What does not fit is refused; the encoder is as good as new.
        og, o, eg, e = L.res(M.start(w, ep, w.read(p.mp)))
        w.st.pc = AND(w.pc, NOT(og))
        if w.pc == 0:
            raise Undecided("nothing is too large")
        w.care = AND(w.care, w.pc)
        x = w.call(L.method("SizedEncode", "exact_requiring_bytes", et), ep)
        R.require(w, k + ": nothing left of it", differs(w, x, k64(0), w.pc), "an encoder has bytes to write after it refused a message")
        R.require(w, k + ": idle", AND(w.pc, NOT(idle(w, "Encode", et, ep))), "an encoder is not idle after it refused a message")
    else:
        w.assume(ult(seq_len(p.wire), k64(0x10000)))
        start(R, w, et, ep, w.read(p.mp), k + ": first accepted", "a message is refused")
        if kind == "busy":
            stop = some_written(w, et, ep, p.bytes(), "first")
        else:
            write_all(w, et, ep, p.bytes(), n_cuts, "first", n_cuts == 0)
            R.require(w, k + ": idle", AND(w.pc, NOT(idle(w, "Encode", et, ep))), "an encoder that has written everything is not idle")
    q = Parts(w, M)
    for i, a in enumerate(then):
        m, v = q.add(a, "%s%d" % (a.short, i))
        w.assume(ult(seq_len(a.wire(m)), k64(0x10000)))
    w.assume(ult(seq_len(q.wire), k64(0x10000)))
    if kind == "busy":
        og, o, eg, e = L.res(M.start(w, ep, w.read(q.mp)))
        R.require(w, k + ": refused", AND(w.pc, og), "an encoder that has bytes left to write accepts another message")
        w.st.pc = AND(w.pc, eg)
        # What was being written is not affected.
        want = p.bytes()
        n = seq_len(want)
        x = w.call(L.method("SizedEncode", "exact_requiring_bytes", et), ep)
        R.require(w, k + ": still to write", differs(w, x, sub(n, stop)[0], w.pc), "a refused message changes how much of the one before is left to write")
        into_buffers(R, w, et, ep, seq_slice(want, stop, sub(n, stop)[0], w.pc), k, 0, False, False, True)
        return
    start(R, w, et, ep, w.read(q.mp), k + ": next accepted", "an encoder refuses the next message although nothing is left of the last one")
    into_buffers(R, w, et, ep, q.bytes(), k, n_cuts2, False, sizes, True)


@check("C36", ["the encoder of every attribute type, after any value was written into buffers of any sizes: the next value is accepted and written as by a new encoder, and the sizes announced on the way are right",
               "the encoder of every attribute set: the same for any two members",
               "message encoders of every set: the same for messages of none, one (each member) and two attributes, and after a message that was refused because it does not fit",
               "while bytes are left to write, another item is refused"], floor=100)
def c36(L, tier):
    deep = tier != "quick"
    out = []
    for a in ATTRS + [RAW_ATTR]:
        nm = "value " + a.short
        out.append((nm, lambda R, a=a, nm=nm: value_again(R, L, a, nm, 0, True)))
        out.append((nm + " in pieces", lambda R, a=a, nm=nm: value_again(R, L, a, nm + " in pieces", 1, True)))
        out.append((nm + " unfinished", lambda R, a=a, nm=nm: value_busy(R, L, a, nm + " unfinished")))
    for s in SET_NAMES:
        ms = Msgs(L, s).members()
        for i, a in enumerate(ms):
            for b in (ms if deep else [ms[i], ms[(i + 1) % len(ms)]]):
                nm = "set %s %s then %s" % (short_set(s), a.short, b.short)
                out.append((nm, lambda R, s=s, a=a, b=b, nm=nm: set_again(R, L, s, a, b, nm, 0)))
                nm = "set %s %s unfinished, %s" % (short_set(s), a.short, b.short)
                out.append((nm, lambda R, s=s, a=a, b=b, nm=nm: set_busy(R, L, s, a, b, nm)))
        pm = plain_members(L, s)
        for i, a in enumerate(pm):
            for b in (pm if deep else [pm[i], pm[(i + 1) % len(pm)]]):
                nm = "message %s %s then %s" % (short_set(s), a.short, b.short)
                out.append((nm, lambda R, s=s, a=a, b=b, nm=nm: message_again(R, L, s, [a], [b], nm, 0, True)))
            nm = "message %s %s in pieces" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: message_again(R, L, s, [a], [a], nm, 1, False)))
            nm = "message %s %s then in pieces" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: message_again(R, L, s, [a], [a], nm, 0, False, "", 1)))
            nm = "message %s %s unfinished" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: message_again(R, L, s, [a], [a], nm, 0, False, "busy")))
            if a.kind in ("bytes", "error"):
                nm = "message %s %s too large" % (short_set(s), a.short)
                out.append((nm, lambda R, s=s, a=a, nm=nm: message_again(R, L, s, [a], [a], nm, 0, True, "large")))
        for first, then in (([], [pm[0]]), ([pm[0]], []), ([pm[0], pm[-1]], [pm[-1]]), ([], [])):
            nm = "message %s of %d then of %d" % (short_set(s), len(first), len(then))
            out.append((nm, lambda R, s=s, f=first, t=then, nm=nm: message_again(R, L, s, f, t, nm, 0, True)))
        nm = "message %s of none unfinished" % short_set(s)
        out.append((nm, lambda R, s=s, nm=nm: message_again(R, L, s, [], [], nm, 0, True, "busy")))
    return out
