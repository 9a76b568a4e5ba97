"""A decoder that has been used before."""
from checks_codec import *
from checks_codec import idle, requiring
from interp import merge_states


def feed_any(w, dt, dp, chunks, finish_=True):
    """Feed a whole message to a decoder, whatever comes of it: after an error the rest of the message is not fed."""
    f = w.L.method("Decode", "decode", dt)
    left = []
    for j, c in enumerate(chunks):
        v = w.call(f, dp, w.slice_of(c), w.ip.eos(j == len(chunks) - 1))
        og, n, eg, e = w.L.res(v)
        bad = AND(w.pc, NOT(og))
        if bad:
            left.append(w.st.fork(bad))
        w.st.pc = AND(w.pc, og)
        if w.pc == 0:
            break
    if w.pc and finish_:
        finish(w, dt, dp)
    for s in left:
        w.st = merge_states(w.st, s) if w.pc else s


def first_message(w, L, M, s, kind, a, n_cuts):
    """A message that is decoded first: bytes, cut somewhere."""
    W = Wire(w, "first.")
    n = value_lengths(w, a, 6) if a.kind == "list" else w.length("first length", 7 if "short" in kind else 9)
    good = [x for x in plain_members(L, s) if x.kind in ("u32", "u64", "u16hi", "flags2", "channel")] or [BY_SHORT["AlternateServer"]]
    typ = cookie = length = None
    if "lead" in kind:
        g = good[0]
        m = g.model(w, "lead")
        W.attr(g.code, g.wire(m))
    if "raw" in kind:
        W.attr(RAW, w.bytes("first raw", w.length("first raw length", 4)))
    W.attr(a.code, w.bytes("first value", n))
    w.assume(ult(seq_len(W.body), k64(0x10000)))
    if "type" in kind:
        typ = w.bits(16, "first type")
    if "cookie" in kind:
        cookie = [w.bits(8, "first cookie[%d]" % i) for i in range(4)]
    buf = W.bytes(cookie=cookie, typ=typ)
    if "short" in kind:
        # The length field ends the message within its last attribute, or leaves half an attribute at its end.
        cut_ = w.length("first cut", 8)
        w.assume(ult(cut_, seq_len(W.body)))
        body = seq_slice(W.body, k64(0), cut_, w.pc)
        W.body = body
        buf = W.bytes(cookie=cookie, typ=typ)
    return pieces(w, buf, cuts(w, seq_len(buf), n_cuts, "first cut"))


def reuse(R, L, s, kind, a, b, k, n_cuts, n2_cuts=0):
    w = World(L)
    M = Msgs(L, s)
    dp = M.decoder(w)
    feed_any(w, M.dec, dp, first_message(w, L, M, s, kind, a, n_cuts))
    R.require(w, k + ": as before", XOR(w.pc, w.care), "the first message does not end")
    kn, y = requiring(w, "Decode", M.dec, dp)
    W = Wire(w)
    n = value_lengths(w, b, 4) if b.kind == "list" else w.length("value length", 7 if "short" in kind else 9)
    W.attr(b.code, w.bytes("value", n))
    acc, m = parse(w, b, "value", n, 4)
    if b.xor:
        m = {"addr": m["addr"].xor(W.tb)}
    buf = W.bytes()
    ch = pieces(w, buf, cuts(w, seq_len(buf), n2_cuts)) if n2_cuts else [buf]

    def after(j, got):
        R.require(w, "%s: consumed %d" % (k, j), differs(w, got, seq_len(ch[j]), w.pc), "a reused decoder does not take the next message as a whole")
        w.st.pc = AND(w.pc, eq(got, seq_len(ch[j])))
    feed(w, M.dec, dp, ch, after=after)
    R.require(w, k + ": next message", XOR(w.pc, w.care), "a reused decoder rejects the next message")
    if w.pc == 0:
        return
    R.require(w, k + ": complete", AND(w.pc, NOT(idle(w, "Decode", M.dec, dp))), "a reused decoder does not see the end of the next message")
    v = finish(w, M.dec, dp)
    og, r, eg, e = L.res(v)
    R.require(w, k + ": next message finished", AND(w.pc, NOT(og)), "a reused decoder rejects the next message")
    w.st.pc = AND(w.pc, og)
    og, msg, eg, broken = L.res(r)
    R.require(w, k + ": next message accepted iff well-formed", AND(w.pc, XOR(og, acc)), "whether a message is accepted depends on what the decoder was used for before")
    w.st.pc = AND(w.pc, og)
    if w.pc:
        identity(R, w, M, msg, W, k)
        got, some = lookup(w, M, msg, b)
        R.require(w, k + ": found", AND(w.pc, NOT(some)), "an attribute is lost")
        w.st.pc = AND(w.pc, some)
        R.require(w, k + ": value", differs(w, expect(w, b, m), b.observe(w, got), w.pc), "the value depends on what the decoder was used for before")
        ks, us = known_list(w, M, msg, 1), unknown_list(w, M, msg, 0)
        R.require(w, k + ": nothing else", AND(w.pc, NOT(const(len(ks) == 1 and len(us) == 0, 1).b[0])), "attributes of an earlier message show up")
    no_panic(R, w, k)


def value_reuse(R, L, a, k, bound):
    """The decoder of an attribute, after it has decoded a value."""
    w = World(L)
    n1 = w.length("first length", 9) if a.kind != "list" else w.length("first length", 3)
    dt = a.decoder(L)
    dp = fresh_codec(w, dt)
    feed(w, dt, dp, [w.bytes("first", n1)])
    if w.pc == 0:
        raise Undecided("no first value is decoded")
    v = finish(w, dt, dp)
    og, o, eg, e = L.res(v)
    w.st.pc = AND(w.pc, og)
    w.care = AND(w.care, w.pc)
    n = value_lengths(w, a, bound)
    acc, m = parse(w, a, "value", n, bound)
    used = feed(w, dt, dp, [w.bytes("value", n)])
    got = 0
    if w.pc:
        w.st.pc = AND(w.pc, eq(total_of(used), n))
    if w.pc:
        v = finish(w, dt, dp)
        og, o, eg, e = L.res(v)
        got = AND(w.pc, og)
    R.require(w, k + ": accepted iff well-formed", XOR(got, AND(acc, w.care)), "whether a value is accepted depends on what the decoder was used for before")
    w.st.pc = got
    if got:
        R.require(w, k + ": value", differs(w, expect(w, a, m), a.observe(w, o), w.pc), "the value depends on what the decoder was used for before")
    no_panic(R, w, k)


def fingerprint_reuse(R, L, b, k):
    """After a message with an arbitrary (mostly wrong) fingerprint."""
    w = World(L)
    s = "rfc5389::Attribute"
    M = Msgs(L, s)
    dp = M.decoder(w)
    W1 = Wire(w, "first.")
    W1.attr(BY_SHORT["AlternateServer"].code, BY_SHORT["AlternateServer"].wire(BY_SHORT["AlternateServer"].model(w, "lead")))
    n1 = w.length("first length", 3)
    W1.attr(FP.code, w.bytes("first value", n1))
    feed_any(w, M.dec, dp, [W1.bytes()])
    second(R, w, L, M, dp, b, k)


def second(R, w, L, M, dp, b, k):
    W = Wire(w)
    n = value_lengths(w, b, 4) if b.kind == "list" else w.length("value length", 9)
    W.attr(b.code, w.bytes("value", n))
    acc, m = parse(w, b, "value", n, 4)
    if b.xor:
        m = {"addr": m["addr"].xor(W.tb)}
    buf = W.bytes()
    ok, r, used, rej = decode(w, M, buf, dp=dp)
    R.require(w, k + ": next message", XOR(ok, w.care), "a reused decoder rejects the next message")
    if r is None:
        return
    og, msg, eg, broken = L.res(r)
    R.require(w, k + ": next message accepted iff well-formed", AND(w.pc, XOR(og, acc)), "whether a message is accepted depends on what the decoder was used for before")
    w.st.pc = AND(w.pc, og)
    if w.pc:
        got, some = lookup(w, M, msg, b)
        R.require(w, k + ": found", AND(w.pc, NOT(some)), "an attribute is lost")
        w.st.pc = AND(w.pc, some)
        R.require(w, k + ": value", differs(w, expect(w, b, m), b.observe(w, got), w.pc), "the value depends on what the decoder was used for before")
        ks, us = known_list(w, M, msg, 1), unknown_list(w, M, msg, 0)
        R.require(w, k + ": nothing else", AND(w.pc, NOT(const(len(ks) == 1 and len(us) == 0, 1).b[0])), "attributes of an earlier message show up")
    no_panic(R, w, k)


@check("C24", ["the message decoder of every set, after a message with any value of any member (alone, after another attribute, with an arbitrary type or cookie, cut short by the length field, in pieces, with a wrong fingerprint): the next message with any value of any member is decoded by the rules for a new decoder and nothing else shows up in it",
               "the decoder of every attribute type, after any accepted value, on any value"], floor=100)
def c24(L, tier):
    deep = tier != "quick"
    out = []
    for a in PLAIN:
        out.append(("value " + a.short, lambda R, a=a: value_reuse(R, L, a, "value " + a.short, 6)))
    for s in SET_NAMES:
        pm = plain_members(L, s)
        for i, a in enumerate(pm):
            later = pm if deep else [pm[i], pm[(i + 1) % len(pm)]]
            for b in later:
                nm = "%s %s then %s" % (short_set(s), a.short, b.short)
                out.append((nm, lambda R, s=s, a=a, b=b, nm=nm: reuse(R, L, s, "plain", a, b, nm, 0)))
            nm = "%s %s with type and cookie" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: reuse(R, L, s, "type cookie", a, a, nm, 0)))
            nm = "%s lead and %s" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: reuse(R, L, s, "lead", a, a, nm, 0)))
            nm = "%s %s in pieces" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: reuse(R, L, s, "plain", a, a, nm, 1)))
            nm = "%s %s cut short" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: reuse(R, L, s, "short", a, a, nm, 0)))
            if deep:
                nm = "%s %s with type and cookie in pieces" % (short_set(s), a.short)
                out.append((nm, lambda R, s=s, a=a, nm=nm: reuse(R, L, s, "type cookie", a, a, nm, 1)))
                nm = "%s raw and %s" % (short_set(s), a.short)
                out.append((nm, lambda R, s=s, a=a, nm=nm: reuse(R, L, s, "raw", a, a, nm, 0)))
                nm = "%s %s then in pieces" % (short_set(s), a.short)
                out.append((nm, lambda R, s=s, a=a, nm=nm: reuse(R, L, s, "plain", a, a, nm, 0, 1)))
    for b in plain_members(L, "rfc5389::Attribute")[:4 if not deep else 20]:
        nm = "fingerprint then %s" % b.short
        out.append((nm, lambda R, b=b, nm=nm: fingerprint_reuse(R, L, b, nm)))
    return out


# ------------------------------------------------------------------ broken messages


def broken_type(L, M):
    i = L.method("Decode", "finish_decoding", M.dec)
    t = L.T[i.body["locals"][0]]          # Result<Result<Message, Broken>>
    return L.T[t.j["args"][0]].j["args"][1]


def error_kind(w, e):
    """The kind of an error value."""
    while isinstance(e, Agg) and len(e.v) == 1:
        e = e.v[0]
    return e.v[0] if isinstance(e, Agg) else e


def invalid_input(w):
    kt = [t for t in w.L.T if t.k == "adt" and t.j["def"].split("::")[-1] == "ErrorKind" and t.j.get("krate") == "bytecodec"][0]
    i = [x["name"] for x in kt.j["variants"]].index("InvalidInput")
    return Enum({i: 1}, {i: ()})


def broken_report(R, L, s, a, kind, k, n_cuts=0):
    w = World(L)
    M = Msgs(L, s)
    bt = broken_type(L, M)
    W = Wire(w)
    short = "short" in kind
    n = value_lengths(w, a, 6) if a.kind == "list" else w.length("value length", 9 if not short else 5 if n_cuts else 7)
    if "lead" in kind:
        g = ([x for x in plain_members(L, s) if x.kind in ("u32", "u64", "u16hi", "flags2", "channel")] or [BY_SHORT["AlternateServer"]])[0]
        W.attr(g.code, g.wire(g.model(w, "lead")))
    lead = seq_len(W.body)
    value = w.bytes("value", n)
    W.attr(a.code if a.code is not None else RAW, value)
    cut_off = 0
    if short:
        c = w.length("cut", 6 if n_cuts else 8)
        w.assume(ult(c, seq_len(W.body)))
        w.assume(NOT(ult(c, lead)))
        W.body = seq_slice(W.body, k64(0), c, w.pc)
        # Without an attribute cut off where the message ends before this one.
        cut_off = NOT(eq(c, lead))
    msg = W.bytes()
    total = seq_len(msg)
    more = w.bytes("next", w.length("bytes that follow", 3))
    buf = seq_cat(msg, more, w.pc)
    dp = M.decoder(w)
    if a.kind in ("fp", "mi"):
        acc = None
    elif a.code is None:
        acc = 1
    else:
        acc, m = parse(w, a, "value", n, 6)
    if short:
        acc = NOT(cut_off)
    # The bytes that follow are there when the last piece of the message is.
    at = cuts(w, total, n_cuts)
    f = L.method("Decode", "decode", M.dec)
    pos = k64(0)
    for j, c in enumerate(list(at) + [seq_len(buf)]):
        piece = seq_slice(buf, pos, sub(c, pos)[0], w.pc)
        v = w.call(f, dp, w.slice_of(piece), w.ip.eos(False))
        og, used, eg, e = L.res(v)
        R.require(w, "%s: piece %d" % (k, j), AND(w.pc, NOT(og)), "a message with a valid header is rejected instead of being reported as broken")
        w.st.pc = AND(w.pc, og)
        end = c if j < n_cuts else total
        R.require(w, "%s: consumed of piece %d" % (k, j), differs(w, used, sub(end, pos)[0], w.pc), "other bytes are consumed than the length field counts")
        w.st.pc = AND(w.pc, eq(used, sub(end, pos)[0]))
        pos = end
    if w.pc == 0:
        return
    R.require(w, k + ": complete", AND(w.pc, NOT(idle(w, "Decode", M.dec, dp))), "a decoder does not see the end of a message")
    v = finish(w, M.dec, dp)
    og, r, eg, e = L.res(v)
    R.require(w, k + ": reported", AND(w.pc, NOT(og)), "an error instead of a report of a broken message")
    w.st.pc = AND(w.pc, og)
    if w.pc == 0:
        return
    og, m, bad, broken = L.res(r)
    if acc is not None:
        R.require(w, k + ": broken iff malformed", AND(w.pc, XOR(bad, NOT(acc))), "a malformed message is not reported as broken, or a well-formed one is")
    st = w.st.fork(w.pc)
    w.st.pc = AND(w.pc, bad)
    if w.pc:
        identity(R, w, M, broken, W, k, of=bt)
        ref = L.method(None, "error", bt)
        e = w.call(ref, w.obj(broken))
        kind_got = error_kind(w, w.read(e))
        for i in L.P.methods.get("from", ()):
            if i.local and i.body and i.body["locals"][1] == bt and i.j.get("trait", "").split("<")[0].endswith("From"):
                x = error_kind(w, w.call(i, broken))
                R.require(w, k + ": as an error", differs(w, x, invalid_input(w), w.pc), "a report of a broken message does not become an error of invalid input")
        if not short and a.kind not in ("fp", "mi") and a.code is not None:
            # The error of the attribute's own decoder on this value.
            dt = a.decoder(L)
            vp = fresh_codec(w, dt)
            v = w.call(L.method("Decode", "decode", dt), vp, w.slice_of(value), w.ip.eos(True))
            og, u, eg, e = L.res(v)
            if AND(w.pc, eg):
                R.require(w, k + ": original error", differs(w, kind_got, error_kind(w, e), AND(w.pc, eg)), "the report carries another kind of error than the attribute's decoder had")
            w.st.pc = AND(w.pc, og)
            if w.pc:
                w.st.pc = AND(w.pc, eq(u, n))
            if w.pc:
                v = finish(w, dt, vp)
                og, u, eg, e = L.res(v)
                if AND(w.pc, eg):
                    R.require(w, k + ": original error at the end", differs(w, kind_got, error_kind(w, e), AND(w.pc, eg)), "the report carries another kind of error than the attribute's decoder had")
    no_panic(R, w, k)


@check("C25", ["messages with valid headers and any value of any member (alone, after another attribute, cut off by the length field, with any fingerprint or message integrity), in one piece and cut anywhere, followed by other bytes: exactly the bytes counted are consumed, and a message that is not well-formed gives a report with the class, method and transaction id of the header",
               "the kind of the error in the report is that of the attribute's own decoder on the same value"], floor=80)
def c25(L, tier):
    deep = tier != "quick"
    out = []
    for s in SET_NAMES:
        extra = [RAW_ATTR] + ([FP, MI] if "Fingerprint" in MEMBERS[s] else [])
        for a in plain_members(L, s) + extra:
            nm = "%s %s" % (short_set(s), a.short)
            sig = a.kind in ("fp", "mi")
            out.append((nm, lambda R, s=s, a=a, nm=nm: broken_report(R, L, s, a, "", nm)))
            out.append((nm + " after another", lambda R, s=s, a=a, nm=nm: broken_report(R, L, s, a, "lead", nm + " after another")))
            out.append((nm + " in pieces", lambda R, s=s, a=a, nm=nm: broken_report(R, L, s, a, "", nm + " in pieces", 1)))
            if not sig:
                out.append((nm + " cut off", lambda R, s=s, a=a, nm=nm: broken_report(R, L, s, a, "short", nm + " cut off")))
                out.append((nm + " cut off, in pieces", lambda R, s=s, a=a, nm=nm: broken_report(R, L, s, a, "short", nm + " cut off, in pieces", 1)))
                if deep:
                    out.append((nm + " after another, cut off", lambda R, s=s, a=a, nm=nm: broken_report(R, L, s, a, "lead short", nm + " after another, cut off", 0)))
            if deep and not sig:
                out.append((nm + " after another, in pieces", lambda R, s=s, a=a, nm=nm: broken_report(R, L, s, a, "lead", nm + " after another, in pieces", 1)))
    return out
